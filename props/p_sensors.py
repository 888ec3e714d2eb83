"""Ingestion of sensor data: rate limiting, buffers, time stamps, contents, IMU handling."""
from vfa.harness import *
from .p_parts import L, B, s, mem, tsyms, total, quat_dcm, rotvec_quat

EI = 'EstimatorInterface::'


def bufname(this):
    return this[-1] if isinstance(this[-1], str) else str(this[-1])


def hooks(**more):
    """ring buffers as abstract objects: a size, the outcome of an allocation, and the samples pushed"""
    def isbuf(this):
        return isinstance(this[-1], str) and 'buffer' in this[-1]

    def get_length(fl, f, this, args, S, n):
        if not isbuf(this):
            return NotImplemented
        p = this + ('_size',)
        if p not in S.d:
            nm = f'this.{bufname(this)}._size'
            V.TYPE_IV[nm] = (0.0, 255.0)
            S.d[p] = leaf(symbol(nm))
        return S.d[p]

    def allocate(fl, f, this, args, S, n):
        if not isbuf(this):
            return NotImplemented
        v = fl.num(fl.rvalue(fl.eval(args[0], S), S))
        old = get_length(fl, f, this, args, S, n)
        ok = OR(cmpdd('==', old, v), AND(cmpdd('!=', v, F), B('alloc:' + bufname(this))))
        fl.setp(S, this + ('_size',), ITE(ok, v, old))
        fl.event('alloc', bufname(this), S, (v, old), n)
        return ok

    def push(fl, f, this, args, S, n):
        if not isbuf(this):
            return NotImplemented
        v = fl.rvalue(fl.eval(args[0], S), S)
        fl.event('push', bufname(this), S, v, n)
        fl.setp(S, this + ('#pushed',), T)
        return leaf(const(0))
    h = dict(get_length=get_length, allocate=allocate, push=push, printBufferAllocationFailed=lambda *a: leaf(const(0)))
    h.update(more)
    return h


def root(p):
    return p[1] if len(p) > 1 and p[0] == 'this' else None


def frame(c, rule, what, fl, but, pc=TRUE):
    """every member written outside `but` keeps its value"""
    empty = State()
    for p in sorted(fl.S.w, key=repr):
        r = root(p)
        if r is None or r in but or p not in fl.S.d or any(isinstance(x, str) and x.startswith('#') for x in p) or p[:2] in but or p[:3] in but:
            continue
        got = fl.S.d[p]
        if isinstance(p[-1], tuple) and p[-1] and p[-1][0] == '#':
            continue
        want = fl.peek(empty, p, fl.symtypes.get(p, ''))
        if fl.symtypes.get(p) is None and got is not want:
            b = bool_atom(symbol(pname_(p)))
            if got is b:
                continue
        c.eq(rule, f'{what} leaves {".".join(str(x) for x in p[1:])} alone', got, want, loc(fl.f), pc)


def pname_(p):
    return FL.pname(p)


def orpc(evs):
    r = F
    for e in evs:
        r = OR(r, conj(e.pc))
    return r


def exact(d):
    """integer parts and integer quotients of times taken as the real numbers they approximate"""
    def g(e, A):
        if e.op in ('trunc', 'floor'):
            return A[0]
        if e.op == 'idiv':
            return DIV(A[0], A[1])
        return None
    return rewrite(d, g)


def pushed(c, fl, buf, when, what, others=()):
    """the sample pushed to `buf`: pushed exactly under `when`, once; nothing is pushed elsewhere.  Returns [(event, struct)]"""
    evs = [e for e in fl.events if e.kind == 'push']
    for e in evs:
        if e.name != buf and e.name not in others:
            c.ob('destination', f'{what} is stored in its own buffer only', witness(conj(e.pc)) is None, evloc(e), f'pushed to {e.name}')
    own = [e for e in evs if e.name == buf]
    c.must('rate', f'{what}: samples are stored in {buf}', own, loc(fl.f))
    c.eq('rate', f'{what} is stored exactly when its turn has come', orpc(own), when, loc(fl.f))
    for i, e in enumerate(own):
        for g in own[:i]:
            c.ob('rate', f'{what} is stored once', witness(AND(conj(e.pc), conj(g.pc))) is None, evloc(e), f'also stored at line {g.line}')
    return own


def narrow(c, fl, what):
    """an absolute time stamp must not pass through single precision"""
    for e in fl.events:
        if e.kind == 'fnarrow':
            x = e.data
            for d in (x if isinstance(x, (tuple, list)) else (x,)):
                if not isinstance(d, (DD, Expr)):
                    continue
                d = dd(d)
                for l in leaves(d):
                    tot = Fraction(0)
                    for f, k, a in flat(l)[0]:
                        if a.op == 'sym' and is_time(str(a.aux)):
                            tot += k
                        elif a.op in ('idiv', 'mul', 'div', 'trunc') and any(y.op == 'sym' and is_time(str(y.aux)) for y in subexprs(a)):
                            tot = None
                            break
                    c.ob('precision', f'{what}: no absolute time is rounded to single precision', tot == 0, evloc(e), lambda: showdd(d)[:300])


def is_time(n):
    m = n.split('.')[-1]
    return 'time_us' in m or 'time_usec' in m or m.startswith('_time_last') or 'timestamp' in m


def subexprs(e):
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.fp in seen:
            continue
        seen.add(x.fp)
        yield x
        st.extend(a for a in x.args if isinstance(a, Expr))


def leaves(d):
    st, seen = [d], set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.var is None:
            yield x.e
        else:
            st += [x.lo, x.hi]


N = {'obs': 'this._obs_buffer_length', 'imu': 'this._imu_buffer_length'}
# setter, buffer, failure flag, last time, delay, size, fields copied, accumulators
VEC = [(i, 0) for i in range(3)]
V2 = [(i, 0) for i in range(2)]
SET = [
    ('setMagData', '_mag_buffer', '_mag_buffer_fail', '_time_last_mag', 'mag_delay_ms', 'obs'),
    ('setGpsData', '_gps_buffer', '_gps_buffer_fail', '_time_last_gps', 'gps_delay_ms', 'obs'),
    ('setBaroData', '_baro_buffer', '_baro_buffer_fail', '_time_last_baro', 'baro_delay_ms', 'obs'),
    ('setAirspeedData', '_airspeed_buffer', '_airspeed_buffer_fail', '_time_last_airspeed', 'airspeed_delay_ms', 'obs'),
    ('setRangeData', '_range_buffer', '_range_buffer_fail', '_time_last_range', 'range_delay_ms', 'obs'),
    ('setOpticalFlowData', '_flow_buffer', '_flow_buffer_fail', '_time_last_optflow', 'flow_delay_ms', 'imu'),
    ('setExtVisionData', '_ext_vision_buffer', '_ev_buffer_fail', '_time_last_ext_vision', 'ev_delay_ms', 'obs'),
    ('setAuxVelData', '_auxvel_buffer', '_auxvel_buffer_fail', '_time_last_auxvel', 'auxvel_delay_ms', 'obs'),
]
COPY = {
    'setAirspeedData': [('true_airspeed',), ('eas2tas',)],
    'setRangeData': [('rng',), ('quality',)],
    'setOpticalFlowData': [('flow_xy_rad', q) for q in V2] + [('gyro_xyz', q) for q in VEC] + [('dt',), ('quality',)],
    'setExtVisionData': [(m, q) for m in ('pos', 'vel', 'posVar') for q in VEC] + [('quat', (i, 0)) for i in range(4)] + [('velCov', (i, j)) for i in range(3) for j in range(3)] + [('angVar',), ('vel_frame',)],
    'setAuxVelData': [(m, q) for m in ('vel', 'velVar') for q in VEC],
}
ACC = {'setMagData': ('_mag_sample_count', '_mag_data_sum', '_mag_timestamp_sum'), 'setBaroData': ('_baro_sample_count', '_baro_alt_sum', '_baro_timestamp_sum')}


def run_set(c, m, buf):
    more = {}
    if m == 'setGpsData':
        def collect(fl, f, this, args, S, n):
            a = fl.eval(args[0], S)
            fl.event('collect', '', S, a.path if isinstance(a, LV) else None, n)
            fl.havoc(S, this + ('_pos_ref',), 'collected')
            return B('collected')

        def project(fl, f, this, args, S, n):
            r = fl.rvalue(fl.eval(args[0], S), S)
            la, lo = (fl.num(fl.rvalue(fl.eval(a, S), S)) for a in args[1:3])
            ref = None
            if isinstance(r, DD) and r.var is None and r.e.op == 'addr':
                ref = fl.peek(S, r.e.aux + ('lat_rad',), 'double')
            fl.event('project', '', S, (ref, la, lo), n)
            for a, v in zip(args[3:5], ('px', 'py')):
                q = fl.rvalue(fl.eval(a, S), S)
                fl.setp(S, q.e.aux, L(v))
            return leaf(const(0))
        more = dict(collect_gps=collect, map_projection_project=project)
    if m == 'setBaroData':
        def comp(fl, f, this, args, S, n):
            return FN('compensated', fl.num(fl.rvalue(fl.eval(args[0], S), S)))
        more = dict(compensateBaroForDynamicPressure=comp)
    return c.flow(EI + m, hooks=hooks(**more))


def conditions(m, buf, fail, tlast, delay, size):
    t = L('arg0.time_usec' if m == 'setGpsData' else 'arg0.time_us')
    nm = f'this.{buf}._size'
    V.TYPE_IV[nm] = (0.0, 255.0)
    need = AND(B('this._initialised'), AND(NOT(B('this.' + fail)), cmpdd('<', leaf(symbol(nm)), L(N[size]))))
    ready = AND(B('this._initialised'), AND(NOT(B('this.' + fail)), OR(NOT(cmpdd('<', leaf(symbol(nm)), L(N[size]))), AND(cmpdd('!=', L(N[size]), F), B('alloc:' + buf)))))
    due = cmpdd('>', SUB(t, L('this.' + tlast)), L('this._min_obs_interval_us'))
    when = AND(ready, due)
    if m == 'setGpsData':
        want = OR(bit('this._params.fusion_mode', 0), cmpdd('==', L('this._params.vdist_sensor_type'), lc(1)))
        when = AND(when, AND(want, cmpdd('>', L('arg0.fix_type'), lc(2))))
    return t, need, ready, when, nm


def bit(n, k):
    return bool_atom(fn('bit', (symbol(n), const(k))))


def tdom():
    for m, _, _, tl, dl, _ in SET:
        tsyms('this.' + tl)
        V.TYPE_IV['this._params.' + dl] = (0.0, 1e6)
    tsyms('arg0.time_us', 'arg0.time_usec', 'this._mag_timestamp_sum', 'this._baro_timestamp_sum')
    V.TYPE_IV['this._min_obs_interval_us'] = (0.0, 4e9)
    for n in N.values():
        V.TYPE_IV[n] = (0.0, 255.0)


@prop('S01', 70)
def intake(c):
    c.load('EKF/ekf.cpp', 'EKF/estimator_interface.cpp')
    V.TYPE_IV.clear()
    tdom()
    for m, buf, fail, tlast, delay, size in SET:
        fl = run_set(c, m, buf)
        w = loc(fl.f)
        t, need, ready, when, nm = conditions(m, buf, fail, tlast, delay, size)
        pushed(c, fl, buf, when, m)
        c.eq('rate', f'{m}: the time of the last stored sample follows the stored samples', fl.peek(fl.S, ('this', tlast), 'uint64_t'), ITE(when, t, L('this.' + tlast)), w)
        c.eq('allocation', f'{m}: a failed allocation is remembered and not retried', tobool(fl.peek(fl.S, ('this', fail), 'bool')), OR(B('this.' + fail), AND(need, NOT(ready))), w)
        c.eq('allocation', f'{m}: the buffer grows to the required length', fl.S.d.get(('this', buf, '_size'), L(nm)), ITE(AND(need, ready), L(N[size]), L(nm)), w)
        al = [e for e in fl.events if e.kind == 'alloc']
        for e in al:
            c.ob('allocation', f'{m} allocates its own buffer', e.name == buf, evloc(e), e.name)
            c.never('allocation', f'{m} does not discard a sufficient buffer', AND(conj(e.pc), cmpdd('>', L(nm), L(N[size]))), evloc(e))
        but = {buf, fail, tlast} | set(ACC.get(m, ())) | ({'_gps_speed_valid', '_gps_yaw_offset', '_pos_ref'} if m == 'setGpsData' else set())
        frame(c, 'isolation', m, fl, but)
        quiet = TRUE.and_(NOT(ready))
        frame(c, 'isolation', f'{m} without a usable buffer', fl, {buf, fail}, quiet)
        if m == 'setGpsData':
            ev = [e for e in fl.events if e.kind == 'collect']
            c.must('gps', 'setGpsData consults collect_gps', ev, w)
            c.eq('gps', 'the GPS quality checks see exactly the stored samples', orpc(ev), when, w)
            for e in ev:
                c.ob('gps', 'the GPS quality checks get the message itself', e.data == (('arg', 0),), evloc(e), str(e.data))
            frame(c, 'isolation', 'a GPS message that is not stored', fl, {buf, fail}, TRUE.and_(NOT(when)))
        elif m not in ACC:
            frame(c, 'isolation', f'a {m} sample that is not stored', fl, {buf, fail}, TRUE.and_(NOT(when)))
    drag(c)


def drag_run(c):
    return imu_run(c, complete=True)


def drag(c):
    fl = drag_run(c)
    w = loc(fl.f)
    buf, fail = '_drag_buffer', '_drag_buffer_fail'
    nm = f'this.{buf}._size'
    V.TYPE_IV[nm] = (0.0, 255.0)
    on = AND(bit('this._params.fusion_mode', 5), NOT(B('this.' + fail)))
    short = cmpdd('<', L(nm), L(N['obs']))
    ready = AND(on, OR(NOT(short), AND(cmpdd('!=', L(N['obs']), F), B('alloc:' + buf))))
    ratio = FN('ceil', DIV(L(N['imu']), L(N['obs'])))
    least = ITE(cmpdd('<', ratio, lc(5)), lc(5), ratio)
    n1 = ADD(L('this._drag_sample_count'), lc(1))
    V.TYPE_IV[N['obs']] = (2.0, 255.0)
    when = AND(ready, cmpdd('>=', n1, least))
    pushed(c, fl, buf, when, 'drag specific force', ('_imu_buffer',))
    c.eq('allocation', 'drag: a failed allocation is remembered and not retried', tobool(fl.peek(fl.S, ('this', fail), 'bool')), OR(B('this.' + fail), AND(AND(on, short), NOT(ready))), w)
    c.eq('allocation', 'drag: the buffer grows to the required length', fl.S.d.get(('this', buf, '_size'), L(nm)), ITE(AND(AND(on, short), ready), L(N['obs']), L(nm)), w)
    c.eq('rate', 'drag samples are counted and the count restarts with every stored mean', fl.peek(fl.S, ('this', '_drag_sample_count'), 'uint8_t'), ITE(when, F, n1), w, TRUE.and_(ready))
    c.eq('rate', 'drag samples are not counted without a usable buffer', fl.peek(fl.S, ('this', '_drag_sample_count'), 'uint8_t'), L('this._drag_sample_count'), w, TRUE.and_(NOT(ready)))


def field(v, path):
    for p in (path, path[:-1] + (path[-1],)):
        if p in v.d:
            return v.d[p]
    return None


def pressure(c):
    """the height error the static pressure error at this airspeed amounts to"""
    q = rotvec_quat([s(f'att{i}') for i in range(3)])
    S = State()
    for i in range(4):
        S.d[('this', '_output_new', 'quat_nominal', (i, 0))] = leaf(q[i])
    fl = c.flow('Ekf::compensateBaroForDynamicPressure', state=S)
    w = loc(fl.f)
    R = quat_dcm(q)
    d = [SUB(L(f'this._output_new.vel[{i}]'), L(f'this._vel_imu_rel_body_ned[{i}]')) for i in range(3)]
    d = [SUB(d[i], L(f'this._state.wind_vel[{i}]')) if i < 2 else d[i] for i in range(3)]
    va = []
    for j in range(3):
        r = F
        for i in range(3):
            r = ADD(r, MUL(leaf(R[i][j]), d[i]))
        va.append(r)
    P_ = 'this._params.'
    K = [ITE(cmpdd('>=', va[0], F), L(P_ + 'static_pressure_coef_xp'), L(P_ + 'static_pressure_coef_xn')),
         ITE(cmpdd('>=', va[1], F), L(P_ + 'static_pressure_coef_yp'), L(P_ + 'static_pressure_coef_yn')), L(P_ + 'static_pressure_coef_z')]
    mx = L(P_ + 'max_correction_airspeed')
    mx = MUL(mx, mx)
    tot = F
    for a, k in zip(va, K):
        a2 = MUL(a, a)
        tot = ADD(tot, MUL(ITE(cmpdd('<', a2, mx), a2, mx), k))
    err = DIV(MUL(lc(Fraction(1, 2)), tot), lc(Fraction('9.80665')))
    c.eq('pressure', 'the barometric height is corrected by the static pressure error the limited body axis airspeeds cause', fl.v, ADD(L('arg0'), err), w)
    frame(c, 'pressure', 'the correction of the barometric height', fl, ())


@prop('S02', 80)
def contents(c):
    c.load('EKF/ekf.cpp', 'EKF/estimator_interface.cpp', 'EKF/ekf_helper.cpp')
    V.TYPE_IV.clear()
    tdom()
    pressure(c)
    for m, buf, fail, tlast, delay, size in SET:
        fl = run_set(c, m, buf)
        w = loc(fl.f)
        t, need, ready, when, nm = conditions(m, buf, fail, tlast, delay, size)
        lag = ADD(MUL(L('this._params.' + delay), lc(1000)), lc(5000))
        evs = [e for e in fl.events if e.kind == 'push']
        c.must('content', f'{m} stores samples', evs, w)
        narrow(c, fl, m)
        mid, n1 = t, None
        if m in ACC:
            cnt, sm, ts = ACC[m]
            n1 = ADD(L('this.' + cnt), lc(1))
            mid = DIV(ADD(MUL(lc(1000), L('this.' + ts)), t), n1)
            V.TYPE_IV['this.' + cnt] = (0.0, 254.0)
        for e in evs:
            v, pc = e.data, e.pc
            c.need(isinstance(v, Struct), f'{m}: pushed sample not understood')
            stamp = MUL(lc(1), field(v, ('time_us',)))
            c.eq('time', f'{m}: the stored time is the {"mean " if m in ACC else ""}measurement time less the sensor delay and half the filter period', exact(stamp), SUB(mid, lag), evloc(e), pc)
            for p in COPY.get(m, ()):
                c.eq('content', f'{m}: stored {FL.pname(p)} is the one reported', field(v, p), leaf(symbol('arg0.' + FL.pname(p))), evloc(e), pc)
            if m == 'setMagData':
                for q in VEC:
                    nmq = FL.pname(('mag', q))
                    c.eq('content', f'{m}: stored {nmq} is the mean of the samples since the last one stored', field(v, ('mag', q)), DIV(ADD(L('this._mag_data_sum' + nmq[3:]), L('arg0.' + nmq)), n1), evloc(e), pc)
            if m == 'setBaroData':
                c.eq('content', 'setBaroData: stored height is the compensated mean of the samples since the last one stored', field(v, ('hgt',)), FN('compensated', DIV(ADD(L('this._baro_alt_sum'), L('arg0.hgt')), n1)), evloc(e), pc)
            if m == 'setGpsData':
                for q in VEC:
                    c.eq('content', f'setGpsData: stored velocity {q[0]}', field(v, ('vel', q)), L('arg0.vel_ned' + FL.pname(('x', q))[1:]), evloc(e), pc)
                for a, b in (('sacc', 'sacc'), ('hacc', 'eph'), ('vacc', 'epv'), ('yaw', 'yaw')):
                    c.eq('content', f'setGpsData: stored {a} is the reported {b}', field(v, (a,)), L('arg0.' + b), evloc(e), pc)
                c.eq('content', 'setGpsData: stored height is the reported altitude in metres', field(v, ('hgt',)), DIV(L('arg0.alt'), lc(1000)), evloc(e), pc)
                for q, px in zip(V2, ('px', 'py')):
                    c.eq('content', f'setGpsData: stored position {q[0]} is the projection once an origin is set, else zero', field(v, ('pos', q)), ITE(B('collected'), L(px), F), evloc(e), pc)
        if m in ACC:
            p = TRUE.and_(ready)
            for a, add_ in ((cnt, lc(1)), (ts, DIV(t, lc(1000)))):
                c.eq('average', f'{m}: {a} accumulates and restarts with every stored mean', exact(fl.peek(fl.S, ('this', a), 'uint64_t')), ITE(when, F, ADD(L('this.' + a), add_)), w, p)
            for q in (VEC if m == 'setMagData' else [None]):
                pa = ('this', sm) + ((q,) if q else ())
                src = 'arg0.' + (FL.pname(('mag', q)) if q else 'hgt')
                c.eq('average', f'{m}: {FL.pname(pa[1:])} accumulates and restarts with every stored mean', fl.peek(fl.S, pa, 'float'), ITE(when, F, ADD(L(FL.pname(pa)), L(src))), w, p)
        if m == 'setGpsData':
            for e in fl.events:
                if e.kind == 'project':
                    ref, la, lo = e.data
                    c.ob('gps', 'the position is projected from the origin in force after the quality checks', ref is not None and 'collected' in showdd(ref) and '_pos_ref' in showdd(ref), evloc(e), lambda: str(ref))
                    c.eq('gps', 'latitude in degrees', la, DIV(L('arg0.lat'), lc(10000000)), evloc(e), e.pc)
                    c.eq('gps', 'longitude in degrees', lo, DIV(L('arg0.lon'), lc(10000000)), evloc(e), e.pc)
            pr = [e for e in fl.events if e.kind == 'project']
            c.eq('gps', 'the position is projected for every sample with an origin', orpc(pr), AND(when, B('collected')), w)
            p = TRUE.and_(when)
            c.eq('gps', 'the velocity validity is the reported one', tobool(fl.peek(fl.S, ('this', '_gps_speed_valid'), 'bool')), B('arg0.vel_ned_valid'), w, p)
            fin = bool_atom(fn('isfinite', (symbol('arg0.yaw_offset'),)))
            c.eq('gps', 'an unknown antenna yaw offset counts as zero', fl.peek(fl.S, ('this', '_gps_yaw_offset'), 'float'), ITE(fin, L('arg0.yaw_offset'), F), w, p)
    # drag
    fl = drag_run(c)
    w = loc(fl.f)
    narrow(c, fl, 'drag')
    n1 = ADD(L('this._drag_sample_count'), lc(1))
    dt = ADD(L('this._drag_sample_time_dt'), L('arg0.delta_vel_dt'))
    evs = [e for e in fl.events if e.kind == 'push' and e.name == '_drag_buffer']
    c.must('content', 'specific forces are stored', evs, w)
    for e in evs:
        for q in V2:
            c.eq('content', f'stored specific force {q[0]} is the accumulated velocity change over the accumulated time', field(e.data, ('accelXY', q)),
                 DIV(ADD(L(FL.pname(('this', '_drag_down_sampled', 'accelXY', q))), L(FL.pname(('arg0', 'delta_vel', q)))), dt), evloc(e), e.pc)
        c.eq('time', 'the stored time of the specific force is the mean of its samples', exact(field(e.data, ('time_us',))), DIV(ADD(L('this._drag_down_sampled.time_us'), L('arg0.time_us')), n1), evloc(e), e.pc)
    p = orpc(evs)
    acc = [(('_drag_sample_time_dt',), 'arg0.delta_vel_dt'), (('_drag_down_sampled', 'time_us'), 'arg0.time_us')] + [(('_drag_down_sampled', 'accelXY', q), FL.pname(('arg0', 'delta_vel', q))) for q in V2]
    run = TRUE.and_(AND(bit('this._params.fusion_mode', 5), NOT(B('this._drag_buffer_fail')))).and_(NOT(cmpdd('<', L('this._drag_buffer._size'), L(N['obs']))))
    for pa, src in acc:
        c.eq('average', f'drag: {FL.pname(pa)} accumulates and restarts with every stored mean', fl.peek(fl.S, ('this',) + pa, 'float'), ITE(p, F, ADD(L(FL.pname(('this',) + pa)), L(src))), w, run)


DELAYS = [('mag_delay_ms', lambda: cmpdd('!=', L(PAR + 'mag_fusion_type'), lc(5))), ('range_delay_ms', lambda: OR(cmpdd('!=', L(PAR + 'range_aid'), F), cmpdd('==', L(PAR + 'vdist_sensor_type'), lc(2)))),
          ('gps_delay_ms', lambda: bit(PAR + 'fusion_mode', 0)), ('flow_delay_ms', lambda: bit(PAR + 'fusion_mode', 1)),
          ('ev_delay_ms', lambda: OR(bit(PAR + 'fusion_mode', 3), OR(bit(PAR + 'fusion_mode', 4), bit(PAR + 'fusion_mode', 8))))]
PAR = 'this._params.'


@prop('S04', 40)
def buffers(c):
    c.load('EKF/ekf.cpp', 'EKF/estimator_interface.cpp')
    V.TYPE_IV.clear()
    tdom()
    V.TYPE_IV[PAR + 'sensor_interval_min_ms'] = (1.0, 1000.0)
    always = ['baro_delay_ms', 'auxvel_delay_ms', 'airspeed_delay_ms']
    for d in always + [d for d, _ in DELAYS]:
        V.TYPE_IV[PAR + d] = (0.0, 1000.0)
    fl = c.flow(EI + 'initialise_interface', hooks=hooks())
    w = loc(fl.f)
    imu = unfold(fl.peek(fl.S, ('this', '_imu_buffer_length'), 'uint8_t'))
    obs = unfold(fl.peek(fl.S, ('this', '_obs_buffer_length'), 'uint8_t'))
    # every subset of the optional delays: the longest delay that counts decides
    from itertools import product
    for sub in product((False, True), repeat=len(DELAYS)):
        pc = TRUE
        mx = None
        names = list(always)
        for on, (d, cond) in zip(sub, DELAYS):
            pc = pc.and_(cond() if on else NOT(cond()))
            if on:
                names.append(d)
        for top in names:
            # `top` is the longest of those that count
            q = pc
            for d in names:
                if d != top:
                    q = q.and_(cmpdd('>', L(PAR + top), L(PAR + d)))
            n = ADD(FN('ceil', DIV(L(PAR + top), lc(10))), lc(1))
            tag = '+'.join(d[:-9] for d in names) + f', {top[:-9]} the longest'
            c.eq('history', f'IMU history covers the longest delay ({tag})', imu, n, w, q)
            m = FN('ceil', DIV(MUL(L(PAR + top), lc(Fraction(3, 2))), L(PAR + 'sensor_interval_min_ms')))
            if sub in ((False,) * 5, (True,) * 5) or sum(sub) == 1:
                c.eq('history', f'observation buffers hold the samples of one and a half delays, between 2 and the IMU history ({tag})', obs, unfold(FN('max', FN('min', m, n), lc(2))), w, q)
    c.holds('division', 'at least two observations fit, so that the least interval between them is defined', cmpdd('>=', obs, lc(2)), w)
    for e in fl.events:
        if e.kind == 'alloc':
            c.eq('history', f'{e.name} is sized as the IMU history', unfold(e.data[0]), imu, evloc(e), e.pc)
    # outcome and starting values, with a single delay that counts
    S = State()
    for n, v in (('mag_fusion_type', 5), ('range_aid', 0), ('vdist_sensor_type', 0), ('fusion_mode', 0), ('auxvel_delay_ms', 0), ('airspeed_delay_ms', 0)):
        S.d[('this', '_params', n)] = lc(v)
    fl = c.flow(EI + 'initialise_interface', hooks=hooks(), state=S)
    imu = unfold(fl.peek(fl.S, ('this', '_imu_buffer_length'), 'uint8_t'))
    ok = T
    for b in ('_imu_buffer', '_output_buffer', '_output_vert_buffer'):
        nm = f'this.{b}._size'
        V.TYPE_IV[nm] = (0.0, 255.0)
        ok = AND(ok, OR(cmpdd('==', leaf(symbol(nm)), imu), B('alloc:' + b)))
        al = [e for e in fl.events if e.kind == 'alloc' and e.name == b]
        c.must('history', f'{b} is allocated', al, w)
        for e in al:
            c.eq('history', f'{b} is sized as the IMU history', unfold(e.data[0]), imu, evloc(e), e.pc)
    r = tobool(fl.rvalue(fl.v, fl.S))
    c.eq('history', 'the interface is initialised exactly when the IMU and output buffers are available', unfold(r), unfold(ok), w)
    p = TRUE.and_(r)
    for b in ('_imu_buffer', '_output_buffer', '_output_vert_buffer'):
        c.eq('history', f'{b} ends with the length of the IMU history', unfold(fl.S.d.get(('this', b, '_size'), leaf(symbol(f'this.{b}._size')))), imu, w, p)
    c.eq('start', 'the delayed time starts at the time stamp given', fl.peek(fl.S, ('this', '_imu_sample_delayed', 'time_us'), 'uint64_t'), L('arg0'), w, p)
    for i in range(3):
        c.eq('start', f'no clipping on axis {i} at the start', tobool(fl.peek(fl.S, ('this', '_imu_sample_delayed', 'delta_vel_clipping', i), 'bool')), F, w, p)
    lay = c.prog.cls('fault_status_u')
    c.need(lay is not None, 'fault_status_u not found')
    flags = fl.union_layout('fault_status_u')[0]
    c.need(len(flags) > 10, 'fault status flags not found')
    for n, off, bits in flags:
        c.eq('start', f'fault {n} is cleared at the start', tobool(fl.peek(fl.S, ('this', '_fault_status', 'flags', n), 'bool', 1)), F, w, p)
    frame(c, 'start', 'initialise_interface', fl, {'_imu_buffer', '_output_buffer', '_output_vert_buffer', '_imu_buffer_length', '_obs_buffer_length', '_fault_status', ('this', '_imu_sample_delayed', 'time_us'),
                                                   ('this', '_imu_sample_delayed', 'delta_vel_clipping')})
    # least interval between observations
    fl = imu_run(c)
    V.TYPE_IV[N['obs']] = (2.0, 255.0)
    up = TRUE.and_(B('updated'))
    c.eq('interval', 'the least observation interval spreads the buffered time over the observation buffer', exact(fl.peek(fl.S, ('this', '_min_obs_interval_us'), 'unsigned int')),
         DIV(SUB(L('arg0.time_us'), L('oldest.time_us')), SUB(L(N['obs']), lc(1))), loc(fl.f), up)
    c.eq('interval', 'the least observation interval changes with the filter updates only', fl.peek(fl.S, ('this', '_min_obs_interval_us'), 'unsigned int'), L('this._min_obs_interval_us'), loc(fl.f), TRUE.and_(NOT(B('updated'))))


IMU = [('time_us',), ('delta_ang_dt',), ('delta_vel_dt',)] + [(m, q) for m in ('delta_ang', 'delta_vel') for q in VEC]


def imu_struct(tag):
    d = {p: L(tag + '.' + FL.pname(p)) for p in IMU}
    d.update({('delta_vel_clipping', i): B(f'{tag}.clip{i}') for i in range(3)})
    tsyms(tag + '.time_us')
    return Struct('imuSample', d)


def imu_run(c, complete=False, **kw):
    def update(fl, f, this, args, S, n):
        if '_imu_down_sampler' not in this:
            return NotImplemented
        a = fl.rvalue(fl.eval(args[0], S), S)
        fl.event('downsample', '', S, a, n)
        return T if complete else B('updated')

    def fetch(fl, f, this, args, S, n):
        fl.event('fetch', '', S, None, n)
        return imu_struct('down')

    def oldest(fl, f, this, args, S, n):
        if bufname(this) != '_imu_buffer':
            return NotImplemented
        return imu_struct('oldest' if S.d.get(this + ('#pushed',)) is T else 'stale')

    def init(fl, f, this, args, S, n):
        fl.event('init', '', S, fl.num(fl.rvalue(fl.eval(args[0], S), S)), n)
        return B('init ok')
    return c.flow(EI + 'setIMUData', hooks=hooks(update=update, getDownSampledImuAndTriggerReset=fetch, get_oldest=oldest, init=init), **kw)


@prop('S05', 60)
def imu(c):
    c.load('EKF/ekf.cpp', 'EKF/estimator_interface.cpp')
    V.TYPE_IV.clear()
    tdom()
    tsyms('this._time_last_imu', 'this._time_last_move_detect_us')
    fl = imu_run(c)
    w = loc(fl.f)
    t = L('arg0.time_us')
    g = lambda *p, t='float': fl.peek(fl.S, ('this',) + p, t)
    narrow(c, fl, 'setIMUData')
    ev = [e for e in fl.events if e.kind == 'init']
    c.eq('start', 'the filter is initialised by the first IMU sample and retried until it succeeds', orpc(ev), NOT(B('this._initialised')), w)
    for e in ev:
        c.eq('start', 'the filter is initialised with the time of the sample', e.data, t, evloc(e), e.pc)
    c.eq('start', 'the filter stays initialised', tobool(g('_initialised', t='bool')), OR(B('this._initialised'), B('init ok')), w)
    c.eq('clock', 'the time of the last IMU sample', g('_time_last_imu', t='uint64_t'), t, w)
    raw = DIV(SUB(t, L('this._time_last_imu')), lc(1000000))
    dt = FN('max', lc(Fraction('0.0001')), FN('min', raw, lc(Fraction('0.02'))))
    pos = TRUE.and_(cmpdd('>', t, F))
    c.eq('clock', 'the mean IMU interval follows the interval limited to 0.1..20 ms', unfold(g('_dt_imu_avg')), unfold(ADD(MUL(lc(Fraction('0.8')), L('this._dt_imu_avg')), MUL(lc(Fraction('0.2')), dt))), w, pos)
    for p in IMU:
        c.eq('newest', f'the newest sample keeps {FL.pname(p)}', g('_newest_high_rate_imu_sample', *p), L('arg0.' + FL.pname(p)), w)
    da = [L('arg0.' + FL.pname(('delta_ang', q))) for q in VEC]
    dv = [L('arg0.' + FL.pname(('delta_vel', q))) for q in VEC]
    pa = [L(FL.pname(('this', '_delta_ang_prev', q))) for q in VEC]
    pv = [L(FL.pname(('this', '_delta_vel_prev', q))) for q in VEC]

    def norm(v):
        r = MUL(v[0], v[0])
        for x in v[1:]:
            r = ADD(r, MUL(x, x))
        return FN('sqrt', r)
    cr = [SUB(MUL(da[1], pa[2]), MUL(da[2], pa[1])), SUB(MUL(da[2], pa[0]), MUL(da[0], pa[2])), SUB(MUL(da[0], pa[1]), MUL(da[1], pa[0]))]
    vib = [cr, [SUB(a, b) for a, b in zip(da, pa)], [SUB(a, b) for a, b in zip(dv, pv)]]
    nv = []
    for i, (v, nm) in enumerate(zip(vib, ('coning', 'gyro', 'accelerometer'))):
        x = ADD(MUL(lc(Fraction('0.99')), L(FL.pname(('this', '_vibe_metrics', (i, 0))))), MUL(lc(Fraction('0.01')), norm(v)))
        nv.append(x)
        c.eq('vibration', f'{nm} vibration metric', g('_vibe_metrics', (i, 0)), x, w)
    for q, a, b in zip(VEC, da, dv):
        c.eq('vibration', f'previous delta angle {q[0]}', g('_delta_ang_prev', q), a, w)
        c.eq('vibration', f'previous delta velocity {q[0]}', g('_delta_vel_prev', q), b, w)
    sc = L(PAR + 'is_moving_scaler')
    mv = OR(cmpdd('>', MUL(nv[1], lc(40000)), sc), OR(cmpdd('>', MUL(nv[2], lc(210)), sc), cmpdd('>', DIV(norm(da), dt), MUL(lc(Fraction('0.05')), sc))))
    air = B('this._control_status.flags.in_air')
    tm = g('_time_last_move_detect_us', t='uint64_t')
    rest = tobool(fl.peek(fl.S, ('this', '_control_status', 'flags', 'vehicle_at_rest'), 'bool', 1))
    mono = TRUE.and_(cmpdd('>=', t, L('this._time_last_move_detect_us')))
    last = ITE(OR(air, mv), t, L('this._time_last_move_detect_us'))
    c.eq('rest', 'a vehicle in the air or moving restarts the rest detection', tm, last, w, mono)
    c.eq('rest', 'at rest means on the ground without movement for more than a second', rest, AND(NOT(OR(air, mv)), cmpdd('>', SUB(t, L('this._time_last_move_detect_us')), lc(1000000))), w, mono)
    ds = [e for e in fl.events if e.kind == 'downsample']
    c.eq('delayed', 'every IMU sample is down-sampled', orpc(ds), T, w)
    for i, e in enumerate(ds):
        for x in ds[:i]:
            c.ob('delayed', 'every IMU sample is down-sampled once', witness(AND(conj(e.pc), conj(x.pc))) is None, evloc(e))
        if isinstance(e.data, Struct):
            for p in IMU:
                c.eq('delayed', f'the sample down-sampled has the {FL.pname(p)} reported', e.data.d[p], L('arg0.' + FL.pname(p)), evloc(e), e.pc)
    c.eq('delayed', 'the filter updates exactly when a down-sampled sample is complete', tobool(g('_imu_updated', t='bool')), B('updated'), w)
    up = B('updated')
    for e in pushed(c, fl, '_imu_buffer', up, 'the down-sampled IMU sample', ('_drag_buffer',)):
        for p in IMU:
            c.eq('delayed', f'the sample buffered has the {FL.pname(p)} down-sampled', e.data.d[p], L('down.' + FL.pname(p)), evloc(e), e.pc)
        for i in range(3):
            c.eq('delayed', f'the sample buffered has the clipping of axis {i} down-sampled', tobool(e.data.d[('delta_vel_clipping', i)]), B(f'down.clip{i}'), evloc(e), e.pc)
    fe = [e for e in fl.events if e.kind == 'fetch']
    c.eq('delayed', 'the down-sampled sample is taken exactly when complete', orpc(fe), up, w)
    c.ob('delayed', 'the down-sampled sample is taken once', len(fe) == 1, w)
    for p in IMU:
        c.eq('delayed', f'the delayed {FL.pname(p)} is that of the oldest buffered sample, and changes with the filter updates only', g('_imu_sample_delayed', *p), ITE(up, L('oldest.' + FL.pname(p)), L('this._imu_sample_delayed.' + FL.pname(p))), w)
    for i in range(3):
        old = fl.peek(State(), ('this', '_imu_sample_delayed', 'delta_vel_clipping', i), 'bool')
        c.eq('delayed', f'the delayed clipping of axis {i} is that of the oldest buffered sample', tobool(g('_imu_sample_delayed', 'delta_vel_clipping', i, t='bool')), ITE(up, B(f'oldest.clip{i}'), old), w)
    DR = {'_drag_sample_count', '_drag_sample_time_dt', '_drag_down_sampled', '_drag_buffer', '_drag_buffer_fail'}
    frame(c, 'isolation', 'an IMU sample that completes no filter update', fl, {'_initialised', '_time_last_imu', '_dt_imu_avg', '_newest_high_rate_imu_sample', '_vibe_metrics', '_delta_ang_prev', '_delta_vel_prev',
          '_time_last_move_detect_us', '_imu_updated', '_imu_down_sampler', ('this', '_control_status', 'flags')}, TRUE.and_(NOT(up)))
    frame(c, 'isolation', 'setIMUData', fl, DR | {'_initialised', '_time_last_imu', '_dt_imu_avg', '_newest_high_rate_imu_sample', '_vibe_metrics', '_delta_ang_prev', '_delta_vel_prev', '_time_last_move_detect_us',
                                             ('this', '_control_status', 'flags', 'vehicle_at_rest'), '_imu_updated', '_imu_buffer', '_imu_sample_delayed', '_min_obs_interval_us', '_imu_down_sampler',
                                             ('this', '_control_status', 'flags')})
    for p in fl.S.w:
        if p[:3] == ('this', '_control_status', 'flags') and p[3:] != ('vehicle_at_rest',):
            c.eq('isolation', f'setIMUData leaves control status {p[-1]} alone', tobool(fl.S.d[p]), B(FL.pname(p)), w)
    setters(c)


def setters(c):
    FLG = ('this', '_control_status', 'flags')

    def flag(fl, n):
        return tobool(fl.peek(fl.S, FLG + (n,), 'bool', 1))
    a = B('arg0')
    tl = L('this._time_last_imu')
    fl = c.flow(EI + 'set_in_air_status')
    w = loc(fl.f)
    c.eq('status', 'the in-air status is the one given', flag(fl, 'in_air'), a, w)
    c.eq('status', 'the last time on the ground', mem(fl, '_time_last_on_ground_us', t='uint64_t'), ITE(a, L('this._time_last_on_ground_us'), tl), w)
    c.eq('status', 'the last time in the air', mem(fl, '_time_last_in_air', t='uint64_t'), ITE(a, tl, L('this._time_last_in_air')), w)
    frame(c, 'isolation', 'set_in_air_status', fl, {'_time_last_on_ground_us', '_time_last_in_air', FLG + ('in_air',), ('this', '_control_status', 'flags')})
    for m, n, want in (('set_is_fixed_wing', 'fixed_wing', a), ('set_fuse_beta_flag', 'fuse_beta', AND(a, B('this._control_status.flags.in_air'))), ('set_gnd_effect_flag', 'gnd_effect', a)):
        fl = c.flow(EI + m)
        w = loc(fl.f)
        c.eq('status', f'{m} sets {n}', flag(fl, n), want, w)
        for p in fl.S.w:
            if p[:3] == FLG and p[-1] != n:
                c.eq('isolation', f'{m} leaves {p[-1]} alone', tobool(fl.S.d[p]), B(FL.pname(p)), w)
        if m == 'set_gnd_effect_flag':
            c.eq('status', 'the ground effect time restarts', mem(fl, '_time_last_gnd_effect_on', t='uint64_t'), tl, w)
    src = [B('this._control_status.flags.' + n) for n in ('gps', 'opt_flow', 'ev_pos', 'ev_vel')] + [AND(B('this._control_status.flags.fuse_aspd'), B('this._control_status.flags.fuse_beta'))]
    n = F
    for x in src:
        n = ADD(n, ITE(x, lc(1), F))
    fl = c.flow(EI + 'getNumberOfActiveHorizontalAidingSources')
    c.eq('aiding', 'the number of horizontal aiding sources: GPS, optical flow, vision position, vision velocity, and airspeed together with sideslip', fl.rvalue(fl.v, fl.S), n, loc(fl.f))
    for m, want in (('isHorizontalAidingActive', cmpdd('>', n, F)), ('isOtherSourceOfHorizontalAidingThan', ITE(a, cmpdd('>', n, lc(1)), cmpdd('>', n, F))), ('isOnlyActiveSourceOfHorizontalAiding', AND(a, NOT(cmpdd('>', n, lc(1)))))):
        fl = c.flow(EI + m)
        c.eq('aiding', f'{m} follows the number of sources', tobool(fl.rvalue(fl.v, fl.S)), want, loc(fl.f))
