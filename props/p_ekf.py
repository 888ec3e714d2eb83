"""Core of the filter: state prediction, the order of an update, initialisation, output predictor."""
from vfa.harness import *
from vfa.flow import LV
from .p_parts import L, B, s, mem, tsyms, total, quat_mul, quat_dcm, rotvec_quat, qnorm
from .p_sensors import frame, bufname

G = const(Fraction('9.80665'))
DT = Fraction('0.01')           # nominal period of the filter


def st(n, i=None):
    return s(f'this._state.{n}' + ('' if i is None else f'[{i}]'))


def me(n, i, j):
    return s(FL.pname(('this', n, (i, j))))


def clamp(x, lo, hi):
    """the engine's canonical saturation"""
    return FN('max', FN('min', dd(x), dd(hi)), dd(lo))


def eqs(c, rule, what, got, want, where='', pc=TRUE):
    """equality of values with saturations, written as min/max or as comparisons"""
    if differs(dd(got), dd(want), pc) is not None:
        got, want = unfold(dd(got), pc), unfold(dd(want), pc)
    return c.eq(rule, what, got, want, where, pc)


GROUPS = (('quat_nominal', 4), ('vel', 3), ('pos', 3), ('delta_ang_bias', 3), ('delta_vel_bias', 3), ('mag_I', 3), ('mag_B', 3), ('wind_vel', 2))


@prop('F01', 35)
def predict_state(c):
    c.load('EKF/ekf.cpp', 'EKF/ekf_helper.cpp')
    V.TYPE_IV.clear()
    for m in ('delta_ang_dt', 'delta_vel_dt'):
        V.TYPE_IV['this._imu_sample_delayed.' + m] = (0.0, 1.0)
    V.TYPE_IV['this._dt_ekf_avg'] = (1e-4, 1.0)
    V.TYPE_IV['this._params.acc_bias_lim'] = (0.0, 100.0)
    fl = c.flow('Ekf::predictState')
    w = loc(fl.f)

    def vec(n, k=3):
        return [s(f'this._imu_sample_delayed.{n}[{i}]') for i in range(k)]
    dta, dtv = s('this._imu_sample_delayed.delta_ang_dt'), s('this._imu_sample_delayed.delta_vel_dt')
    R0 = [[me('_R_to_earth', i, j) for j in range(3)] for i in range(3)]
    er = [s(f'this._earth_rate_NED[{i}]') for i in range(3)]
    da, dv = vec('delta_ang'), vec('delta_vel')
    cda = [sub(sub(da[i], st('delta_ang_bias', i)), mul(total(mul(R0[k][i], er[k]) for k in range(3)), dta)) for i in range(3)]
    q = quat_mul([st('quat_nominal', i) for i in range(4)], rotvec_quat(cda))
    n = qnorm(q)
    q = [div(x, n) for x in q]
    R = quat_dcm(q)
    for i in range(3):
        for j in range(3):
            c.eq('attitude', f'rotation matrix of the new attitude ({i},{j})', mem(fl, '_R_to_earth', (i, j)), leaf(R[i][j]), w)
    # the constraints: state groups and their limits
    dt = L('this._dt_ekf_avg')
    gb = MUL(leaf(mul(const(Fraction(1, 9)), V.pi_const())), dt)
    ab = MUL(L('this._params.acc_bias_lim'), dt)
    lim = {'quat_nominal': T, 'vel': lc(1000), 'pos': lc(1000000), 'delta_ang_bias': gb, 'delta_vel_bias': ab, 'mag_I': T, 'mag_B': lc(Fraction('0.5')), 'wind_vel': lc(100)}
    Rg = [[dd(mem(fl, '_R_to_earth', (i, j))) for j in range(3)] for i in range(3)]
    cdv = [leaf(sub(dv[k], st('delta_vel_bias', k))) for k in range(3)]
    dve = []
    for i in range(3):
        r = F
        for k in range(3):
            r = ADD(r, MUL(Rg[i][k], cdv[k]))
        dve.append(r)
    new = {g: [leaf(st(g, i)) for i in range(k)] for g, k in GROUPS}
    new['quat_nominal'] = [leaf(x) for x in q]
    new['vel'] = [ADD(new['vel'][i], dve[i]) for i in range(3)]
    new['vel'][2] = ADD(new['vel'][2], leaf(mul(G, dtv)))
    new['pos'] = [ADD(new['pos'][i], MUL(lc(Fraction(1, 2)), MUL(ADD(leaf(st('vel', i)), new['vel'][i]), leaf(dtv)))) for i in range(3)]
    for g, k in GROUPS:
        rule = {'quat_nominal': 'attitude', 'vel': 'velocity', 'pos': 'position'}.get(g, 'limits')
        for i in range(k):
            want = clamp(new[g][i], NEG(lim[g]), lim[g])
            eqs(c, rule, f'{g}[{i}]: predicted and limited', mem(fl, '_state', g, (i, 0)), want, w)
    one = lc(1)
    for i in range(2):
        c.eq('manoeuvre', f'filtered horizontal acceleration {i}', mem(fl, '_accel_lpf_NE', (i, 0)), ADD(MUL(L(f'this._accel_lpf_NE[{i}]'), SUB(one, leaf(dtv))), dve[i]), w)
    inp = clamp(leaf(mul(const(Fraction(1, 2)), add(dtv, dta))), lc(DT / 2), lc(2 * DT))
    eqs(c, 'period', 'average filter period', mem(fl, '_dt_ekf_avg'), ADD(MUL(lc(Fraction('0.99')), dt), MUL(lc(Fraction('0.01')), inp)), w)
    long_ = cmpdd('>', leaf(dta), lc(DT / 4))
    for i in range(3):
        c.eq('rate', f'raw angular rate {i}', mem(fl, '_ang_rate_delayed_raw', (i, 0)), ITE(long_, leaf(div(da[i], dta)), L(f'this._ang_rate_delayed_raw[{i}]')), w)
    frame(c, 'frame', 'the state prediction', fl, ('_state', '_R_to_earth', '_accel_lpf_NE', '_dt_ekf_avg', '_ang_rate_delayed_raw'))


# ---------------------------------------------------------------- output predictor
OB = {'_output_buffer': 'outputSample', '_output_vert_buffer': 'outputVert'}


def ering(N, head):
    """output ring buffers: N elements, newest at `head` once the new sample is pushed, all of them in use"""
    def isbuf(this):
        return this and this[-1] in OB

    def el(this, k):
        return LV(this + ('elem', k % N), OB[this[-1]])

    def at(fl, f, this, args, S, n):
        if not isbuf(this):
            return NotImplemented
        i = fl.num(fl.rvalue(fl.eval(args[0], S), S))
        ls = leaves(i)
        if len(ls) != 1 or not isconst(ls[0]):
            raise AnalysisBroken(f'output buffer accessed at an unknown index at {n.file}:{n.line}')
        k = int(ls[0].aux)
        fl.event('at', this[-1], S, k, n)
        return el(this, k)

    def push(fl, f, this, args, S, n):
        if not isbuf(this):
            return NotImplemented
        v = fl.rvalue(fl.eval(args[0], S), S)
        fl.event('push', this[-1], S, v, n)
        fl.store(S, el(this, head), v)
        return leaf(const(0))

    def const_(k):
        return lambda fl, f, this, args, S, n: lc(k) if isbuf(this) else NotImplemented

    def get(k):
        return lambda fl, f, this, args, S, n: el(this, k) if isbuf(this) else NotImplemented
    return {'operator[]': at, 'push': push, 'get_length': const_(N), 'get_oldest': get(head + 1), 'get_newest': get(head), 'get_oldest_index': const_((head + 1) % N)}


def vecs(*names):
    return [s(n) for n in names]


def v3(n, k=3):
    return [leaf(s(f'{n}[{i}]')) for i in range(k)]


def vadd(a, b):
    return [ADD(x, y) for x, y in zip(a, b)]


def vsub(a, b):
    return [SUB(x, y) for x, y in zip(a, b)]


def vmul(a, k):
    return [MUL(x, k) for x in a]


def mv(R, v):
    out = []
    for i in range(3):
        r = F
        for k in range(3):
            r = ADD(r, MUL(R[i][k], v[k]))
        out.append(r)
    return out


def norm(v):
    r = F
    for x in v:
        r = ADD(r, MUL(x, x))
    return FN('sqrt', r)


def getv(fl, *p, k=3):
    return [dd(mem(fl, *p, (i, 0))) for i in range(k)]


def elem(fl, buf, k, *m):
    return dd(fl.peek(fl.S, ('this', buf, 'elem', k) + m, 'float'))


@prop('C05', 60)
def output_predictor(c):
    c.load('EKF/ekf.cpp', 'EKF/ekf_helper.cpp')
    half = lc(Fraction(1, 2))
    for N, head in ((3, 1), (2, 1), (1, 0), (3, 2)) if c.tier == 'quick' else [(n, h) for n in range(1, 7) for h in range(n)]:
        for upd in (False, True):
            if not upd and (N, head) != (3, 1):
                continue
            one_run(c, N, head, upd, half)
    # what is reported to the user: attitude at the current time, velocity and position of the body origin
    fl = c.flow('Ekf::calculate_quaternion')
    da = [SUB(ADD(L(f'this._newest_high_rate_imu_sample.delta_ang[{i}]'), L(f'this._delta_angle_corr[{i}]')),
              MUL(leaf(st('delta_ang_bias', i)), DIV(L('this._dt_imu_avg'), L('this._dt_ekf_avg')))) for i in range(3)]
    q = quat_mul([s(f'this._output_new.quat_nominal[{i}]') for i in range(4)], rotvec_quat([leaves(x)[0] for x in da]))
    n = qnorm(q)
    v = fl.rvalue(fl.v, fl.S)
    for i in range(4):
        c.eq('report', f'calculate_quaternion: attitude propagated with the newest rotation, component {i}', v.at(i, 0), leaf(div(q[i], n)), loc(fl.f))


def one_run(c, N, head, upd, half):
    V.TYPE_IV.clear()
    for n in ('_dt_imu_avg', '_dt_ekf_avg'):
        V.TYPE_IV['this.' + n] = (1e-4, 1.0)
    tsyms('arg0.time_us', 'this._imu_sample_delayed.time_us')
    S = State()
    S.d[('this', '_imu_updated')] = T if upd else F
    fl = c.flow('Ekf::calculateOutputStates', state=S, hooks=ering(N, head))
    w = loc(fl.f)
    at = f'buffer of {N}, newest at {head}: ' if upd else 'between filter updates: '
    r = DIV(L('this._dt_imu_avg'), L('this._dt_ekf_avg'))
    dta, dtv = L('arg0.delta_ang_dt'), L('arg0.delta_vel_dt')
    da = vadd(vsub(v3('arg0.delta_ang'), vmul(v3('this._state.delta_ang_bias'), r)), v3('this._delta_angle_corr'))
    # yaw rate filter uses the attitude before the update
    spin = F
    for k in range(3):
        spin = ADD(spin, MUL(da[k], leaf(me('_R_to_earth_now', 2, k))))
    c.eq('yaw', at + 'accumulated yaw change', mem(fl, '_yaw_delta_ef'), ADD(L('this._yaw_delta_ef'), spin), w)
    c.eq('yaw', at + 'filtered yaw rate', mem(fl, '_yaw_rate_lpf_ef'), ADD(MUL(lc(Fraction('0.95')), L('this._yaw_rate_lpf_ef')), MUL(lc(Fraction('0.05')), DIV(spin, dta))), w)
    q = quat_mul([s(f'this._output_new.quat_nominal[{i}]') for i in range(4)], rotvec_quat([leaves(x)[0] for x in da]))
    n = qnorm(q)
    q = [div(x, n) for x in q]
    R = quat_dcm(q)
    for i in range(3):
        for j in range(3):
            c.eq('attitude', at + f'rotation matrix of the predicted attitude ({i},{j})', mem(fl, '_R_to_earth_now', (i, j)), leaf(R[i][j]), w)
    Rg = [[dd(mem(fl, '_R_to_earth_now', (i, j))) for j in range(3)] for i in range(3)]
    dv = vsub(v3('arg0.delta_vel'), vmul(v3('this._state.delta_vel_bias'), r))
    dve = mv(Rg, dv)
    dve[2] = ADD(dve[2], MUL(leaf(G), dtv))
    ok = cmpdd('>', dtv, lc(Fraction('1e-4')))
    for i in range(3):
        c.eq('velocity', at + f'earth-frame acceleration {i}', mem(fl, '_vel_deriv', (i, 0)), ITE(ok, DIV(dve[i], dtv), L(f'this._vel_deriv[{i}]')), w)
    v0 = v3('this._output_new.vel')
    v1 = vadd(v0, dve)
    dp = vmul(vadd(v0, v1), MUL(half, dtv))
    p1 = vadd(v3('this._output_new.pos'), dp)
    vv = ADD(L('this._output_vert_new.vert_vel'), dve[2])
    vi = ADD(L('this._output_vert_new.vert_vel_integ'), dp[2])
    vdt = ADD(L('this._output_vert_new.dt'), dtv)
    oka = cmpdd('>', dta, lc(Fraction('1e-4')))
    om = [DIV(x, dta) for x in v3('arg0.delta_ang')]
    ps = v3('this._params.imu_pos_body')
    cr = [SUB(MUL(om[(i + 1) % 3], ps[(i + 2) % 3]), MUL(om[(i + 2) % 3], ps[(i + 1) % 3])) for i in range(3)]
    rel_ = mv(Rg, cr)
    for i in range(3):
        c.eq('velocity', at + f'velocity of the IMU relative to the body origin {i}', mem(fl, '_vel_imu_rel_body_ned', (i, 0)), ITE(oka, rel_[i], L(f'this._vel_imu_rel_body_ned[{i}]')), w)
    if not upd:
        c.eq('time', at + 'time of the output', mem(fl, '_output_new', 'time_us', t='uint64_t'), L('arg0.time_us'), w)
        for i in range(4):
            c.eq('attitude', at + f'predicted attitude {i}', mem(fl, '_output_new', 'quat_nominal', (i, 0)), leaf(q[i]), w)
        for i in range(3):
            c.eq('velocity', at + f'predicted velocity {i}', mem(fl, '_output_new', 'vel', (i, 0)), v1[i], w)
            c.eq('position', at + f'predicted position {i}', mem(fl, '_output_new', 'pos', (i, 0)), p1[i], w)
        c.eq('vertical', at + 'predicted vertical velocity', mem(fl, '_output_vert_new', 'vert_vel'), vv, w)
        c.eq('vertical', at + 'its integral', mem(fl, '_output_vert_new', 'vert_vel_integ'), vi, w)
        c.eq('vertical', at + 'accumulated time', mem(fl, '_output_vert_new', 'dt'), vdt, w)
        c.ob('schedule', at + 'nothing is stored in the output buffers', not [e for e in fl.events if e.kind in ('push', 'at')], w)
        frame(c, 'frame', 'an output prediction', fl, ('_yaw_delta_ef', '_yaw_rate_lpf_ef', '_R_to_earth_now', '_vel_deriv', '_vel_imu_rel_body_ned', '_output_new', '_output_vert_new'))
        return
    # samples stored, before the corrections
    pe = [e for e in fl.events if e.kind == 'push']
    c.ob('schedule', at + 'one sample is stored in each buffer', sorted(e.name for e in pe) == sorted(OB), w, [e.name for e in pe])
    pre = {}
    for e in pe:
        pre[e.name] = e.data
    po, pv = pre.get('_output_buffer'), pre.get('_output_vert_buffer')
    if po is None or pv is None:
        return
    c.eq('time', at + 'time of the stored output', po.d[('time_us',)], L('arg0.time_us'), w)
    for i in range(4):
        c.eq('attitude', at + f'stored attitude {i}', po.d[('quat_nominal', (i, 0))], leaf(q[i]), w)
    for i in range(3):
        c.eq('velocity', at + f'stored velocity {i}', po.d[('vel', (i, 0))], v1[i], w)
        c.eq('position', at + f'stored position {i}', po.d[('pos', (i, 0))], p1[i], w)
    c.eq('vertical', at + 'stored vertical velocity', pv.d[('vert_vel',)], vv, w)
    c.eq('vertical', at + 'stored integral', pv.d[('vert_vel_integ',)], vi, w)
    c.eq('vertical', at + 'stored time', pv.d[('dt',)], vdt, w)

    def e0(buf, k, m, i=None):
        """content of element k before the corrections"""
        if k == head:
            d = pre[buf].d
            return dd(d[(m,) if i is None else (m, (i, 0))])
        return L(f'this.{buf}.elem[{k}].{m}' + ('' if i is None else f'[{i}]')) if False else leaf(s(FL.pname(('this', buf, 'elem', k, m) + (() if i is None else ((i, 0),)))))
    old = (head + 1) % N
    # attitude correction
    qs = [st('quat_nominal', i) for i in range(4)]
    n2 = total(mul(x, x) for x in qs)
    qi = [div(qs[0], n2)] + [neg(div(x, n2)) for x in qs[1:]]
    qd = [leaves(e0('_output_buffer', old, 'quat_nominal', i))[0] for i in range(4)]
    qe = quat_mul(qi, qd)
    n = qnorm(qe)
    qe = [leaf(div(x, n)) for x in qe]
    sg = ITE(cmpdd('>=', qe[0], F), lc(-2), lc(2))
    err = [MUL(sg, x) for x in qe[1:]]
    delay = FN('max', MUL(SUB(L('arg0.time_us'), L('this._imu_sample_delayed.time_us')), lc(Fraction('1e-6'))), L('this._dt_imu_avg'))
    gain = DIV(MUL(half, L('this._dt_imu_avg')), delay)
    for i in range(3):
        eqs(c, 'correction', at + f'attitude correction {i}', mem(fl, '_delta_angle_corr', (i, 0)), MUL(err[i], gain), w)
    eqs(c, 'error', at + 'attitude tracking error', mem(fl, '_output_tracking_error', (0, 0)), norm(err), w)
    dt = L('this._dt_ekf_avg')
    vg = DIV(dt, FN('max', FN('min', L('this._params.vel_Tau'), lc(10)), dt))
    pg = DIV(dt, FN('max', FN('min', L('this._params.pos_Tau'), lc(10)), dt))
    ve = [SUB(leaf(st('vel', i)), e0('_output_buffer', old, 'vel', i)) for i in range(3)]
    pe_ = [SUB(leaf(st('pos', i)), e0('_output_buffer', old, 'pos', i)) for i in range(3)]
    c.eq('error', at + 'velocity tracking error', mem(fl, '_output_tracking_error', (1, 0)), norm(ve), w)
    c.eq('error', at + 'position tracking error', mem(fl, '_output_tracking_error', (2, 0)), norm(pe_), w)
    tenth = lc(Fraction('0.1'))
    for nm, e, g, m in (('velocity', ve, vg, 'vel'), ('position', pe_, pg, 'pos')):
        for i in range(3):
            acc = ADD(L(f'this._{m}_err_integ[{i}]'), e[i])
            c.eq('correction', at + f'integrated {nm} error {i}', mem(fl, f'_{m}_err_integ', (i, 0)), acc, w)
            corr = ADD(MUL(e[i], g), MUL(acc, MUL(MUL(g, g), tenth)))
            for k in range(N):
                eqs(c, 'correction', at + f'{nm} {i} of element {k} is corrected', elem(fl, '_output_buffer', k, m, (i, 0)), ADD(e0('_output_buffer', k, m, i), corr), w)
            eqs(c, 'correction', at + f'current {nm} {i} is the corrected newest one', mem(fl, '_output_new', m, (i, 0)), ADD(e0('_output_buffer', head, m, i), corr), w)
    for k in range(N):
        for i in range(4):
            c.eq('frame', at + f'attitude {i} of element {k} is kept', elem(fl, '_output_buffer', k, 'quat_nominal', (i, 0)), e0('_output_buffer', k, 'quat_nominal', i), w)
        c.eq('frame', at + f'time of element {k} is kept', fl.peek(fl.S, ('this', '_output_buffer', 'elem', k, 'time_us'), 'uint64_t'), e0('_output_buffer', k, 'time_us'), w)
        c.eq('frame', at + f'vertical time of element {k} is kept', elem(fl, '_output_vert_buffer', k, 'dt'), e0('_output_vert_buffer', k, 'dt'), w)
    for i in range(4):
        c.eq('attitude', at + f'current attitude {i}', mem(fl, '_output_new', 'quat_nominal', (i, 0)), leaf(q[i]), w)
    c.eq('time', at + 'time of the output', mem(fl, '_output_new', 'time_us', t='uint64_t'), L('arg0.time_us'), w)
    # vertical: a velocity correction, and the integral propagated from the oldest element
    cv = ADD(MUL(SUB(leaf(st('pos', 2)), e0('_output_vert_buffer', old, 'vert_vel_integ')), pg), MUL(MUL(SUB(leaf(st('vel', 2)), e0('_output_vert_buffer', old, 'vert_vel')), vg), lc(Fraction('1.1'))))
    B_ = '_output_vert_buffer'
    many = N > 1
    vel = {k: ADD(e0(B_, k, 'vert_vel'), cv) if many else e0(B_, k, 'vert_vel') for k in range(N)}
    integ = {old: e0(B_, old, 'vert_vel_integ')}
    for t in range(1, N):
        k, p = (old + t) % N, (old + t - 1) % N
        integ[k] = ADD(integ[p], MUL(MUL(ADD(vel[p], vel[k]), half), e0(B_, k, 'dt')))
    if many:
        for k in range(N):
            eqs(c, 'vertical', at + f'vertical velocity of element {k} is corrected', elem(fl, B_, k, 'vert_vel'), vel[k], w)
            eqs(c, 'vertical', at + f'its integral follows the corrected velocity, element {k}', elem(fl, B_, k, 'vert_vel_integ'), integ[k], w)
        eqs(c, 'vertical', at + 'current vertical velocity', mem(fl, '_output_vert_new', 'vert_vel'), vel[head], w)
        eqs(c, 'vertical', at + 'current integral', mem(fl, '_output_vert_new', 'vert_vel_integ'), integ[head], w)
    c.eq('vertical', at + 'the accumulated time starts from zero', mem(fl, '_output_vert_new', 'dt'), F, w)
    frame(c, 'frame', 'an output prediction', fl, ('_yaw_delta_ef', '_yaw_rate_lpf_ef', '_R_to_earth_now', '_vel_deriv', '_vel_imu_rel_body_ned', '_output_new', '_output_vert_new', '_output_buffer',
                                                   '_output_vert_buffer', '_delta_angle_corr', '_output_tracking_error', '_vel_err_integ', '_pos_err_integ'))


# ---------------------------------------------------------------- order of an update, initialisation
STEPS = ('predictState', 'predictCovariance', 'controlFusionModes', 'runTerrainEstimator', 'runYawEKFGSF')
ALL_TU = ('EKF/ekf.cpp', 'EKF/ekf_helper.cpp', 'EKF/covariance.cpp', 'EKF/control.cpp', 'EKF/terrain_estimator.cpp')


def orpc(evs):
    r = F
    for e in evs:
        r = OR(r, conj(e.pc))
    return r


def callsof(c, fl, *names):
    by = {p: [e for e in fl.events if e.kind == 'call' and e.name == p] for p in names}
    for p in names:
        c.need(c.prog.by_qual.get('Ekf::' + p) or c.prog.by_qual.get(p), f'{p} not found')
    return by


def once(c, rule, p, evs):
    for i, e in enumerate(evs):
        for g in evs[:i]:
            c.ob(rule, f'{p} runs once', witness(AND(conj(e.pc), conj(g.pc))) is None, evloc(e), f'also at line {g.line}')


@prop('P01', 20)
def update_order(c):
    c.load(*ALL_TU)
    V.TYPE_IV.clear()
    parts = STEPS + ('calculateOutputStates', 'initialiseFilter')
    imu, init = B('this._imu_updated'), B('this._filter_initialised')
    fl = c.flow('Ekf::update', opaque=set(parts), nomod=set(parts))
    w = loc(fl.f)
    by = callsof(c, fl, *parts)
    ini = by['initialiseFilter']
    c.ob('initialise', 'there is one attempt to initialise the filter', len(ini) == 1, w)
    started = OR(init, B('ret:initialiseFilter#0'))
    c.eq('initialise', 'the filter is initialised exactly while it has not been', orpc(ini), NOT(init), w)
    run = AND(started, imu)
    for p in STEPS:
        c.eq('schedule', f'{p} runs exactly with new IMU data after initialisation', orpc(by[p]), run, w)
        once(c, 'schedule', p, by[p])
    c.eq('schedule', 'the output predictor runs at every update after initialisation', orpc(by['calculateOutputStates']), started, w)
    once(c, 'schedule', 'the output predictor', by['calculateOutputStates'])
    c.eq('report', 'update reports whether the filter has been run', tobool(fl.rvalue(fl.v, fl.S)), run, w)
    c.eq('initialise', 'the outcome of the initialisation is remembered', tobool(mem(fl, '_filter_initialised', t='bool')), started, w)
    pos = {p: [e.n for e in by[p]] for p in parts}

    def before(a, b):
        c.ob('order', f'{a} comes before {b}', bool(pos[a] and pos[b]) and max(pos[a]) < min(pos[b]), w)
    before('predictState', 'controlFusionModes')
    before('predictCovariance', 'controlFusionModes')
    before('controlFusionModes', 'runTerrainEstimator')
    before('controlFusionModes', 'calculateOutputStates')
    before('predictState', 'predictCovariance')
    before('predictState', 'runYawEKFGSF')
    before('initialiseFilter', 'predictState')
    for e in by['calculateOutputStates']:
        a = e.data['args'][0]
        want = {('time_us',): L('this._newest_high_rate_imu_sample.time_us'), ('delta_ang_dt',): L('this._newest_high_rate_imu_sample.delta_ang_dt'),
                ('delta_vel_dt',): L('this._newest_high_rate_imu_sample.delta_vel_dt')}
        for m in ('delta_ang', 'delta_vel'):
            for i in range(3):
                want[(m, (i, 0))] = L(f'this._newest_high_rate_imu_sample.{m}[{i}]')
        for p, x in want.items():
            c.eq('argument', f'the output predictor gets the newest IMU sample: {FL.pname(p)}', a.d[p], x, evloc(e))
    frame(c, 'frame', 'an update', fl, ('_filter_initialised',))


INITP = ('initialiseTilt', 'resetMagHeading', 'initialiseCovariance', 'increaseQuatYawErrVariance', 'initHagl', 'alignOutputFilter')
TIMERS = ('_time_last_hgt_fuse', '_time_last_hor_pos_fuse', '_time_last_delpos_fuse', '_time_last_hor_vel_fuse', '_time_last_hagl_fuse', '_time_last_flow_terrain_fuse', '_time_last_of_fuse')


@prop('P02', 60)
def initialisation(c):
    c.load(*ALL_TU, 'EKF/gps_checks.cpp')
    V.TYPE_IV.clear()
    tsyms('this._time_last_imu', 'this._imu_sample_delayed.time_us', 'this._mag_counter', 'this._baro_counter', 'this._obs_buffer_length')

    def pop(fl, f, this, args, S, n):
        b = bufname(this)
        got = B('pop:' + b)
        lv = fl.eval(args[1], S)
        p = leaves(fl.num(lv))[0].aux if isinstance(lv, DD) else lv.path
        ts = fl.num(fl.rvalue(fl.eval(args[0], S), S))
        fl.event('pop', b, S, ts, n)
        t = {'_mag_buffer': 'magSample', '_baro_buffer': 'baroSample'}[b]
        for q, ty, bits in fl.struct_leaves(t):
            old = dd(fl.peek(S, p + q, ty))
            fl.setp(S, p + q, ITE(got, leaf(symbol(f'{b}.{FL.pname(q)}')), old))
        return got

    def newest(fl, f, this, args, S, n):
        if this[-1] == '_imu_buffer':
            return LV(this + ('newest',), 'imuSample')
        return NotImplemented
    fl = c.flow('Ekf::initialiseFilter', opaque=set(INITP), nomod=set(INITP), hooks={'pop_first_older_than': pop, 'get_newest': newest})
    w = loc(fl.f)
    by = callsof(c, fl, *INITP)
    I = 'this._imu_buffer.newest.'
    dta, dtv = L(I + 'delta_ang_dt'), L(I + 'delta_vel_dt')
    e4 = lc(Fraction('1e-4'))
    live = AND(cmpdd('>=', dtv, e4), cmpdd('>=', dta, e4))
    ret = tobool(fl.rvalue(fl.v, fl.S))
    dead = TRUE.and_(NOT(live))
    c.eq('data', 'without IMU data there is no initialisation', ret, F, w, dead)
    c.ob('data', 'without IMU data nothing is consumed', all(witness(AND(conj(e.pc), NOT(live))) is None for e in fl.events if e.kind in ('pop', 'call')), w)
    # accumulated measurements
    p = TRUE.and_(live)
    first = B('this._is_first_imu_sample')
    c.eq('data', 'the first sample is only seen once', tobool(mem(fl, '_is_first_imu_sample', t='bool')), AND(first, NOT(live)), w)
    for nm, m, dt in (('_accel_lpf', 'delta_vel', dtv), ('_gyro_lpf', 'delta_ang', dta)):
        al = L(f'this.{nm}._alpha')
        for i in range(3):
            x = DIV(L(I + f'{m}[{i}]'), dt)
            o = L(f'this.{nm}._filter_state[{i}]')
            c.eq('filters', f'{nm} follows the measured rate {i}', mem(fl, nm, '_filter_state', (i, 0)), ITE(first, x, ADD(MUL(SUB(T, al), o), MUL(al, x))), w, p)
    mg, bg = AND(B('pop:_mag_buffer'), cmpdd('!=', L('_mag_buffer.time_us'), F)), AND(B('pop:_baro_buffer'), cmpdd('!=', L('_baro_buffer.time_us'), F))
    for e in fl.events:
        if e.kind == 'pop':
            c.eq('data', f'{e.name} is read at the delayed time horizon', e.data, L('this._imu_sample_delayed.time_us'), evloc(e), e.pc)
    mc, bc = L('this._mag_counter'), L('this._baro_counter')
    al = L('this._mag_lpf._alpha')
    for i in range(3):
        o, x = L(f'this._mag_lpf._filter_state[{i}]'), L(f'_mag_buffer.mag[{i}]')
        c.eq('filters', f'filtered magnetic field {i}', mem(fl, '_mag_lpf', '_filter_state', (i, 0)), ITE(mg, ITE(cmpdd('==', mc, F), x, ADD(MUL(SUB(T, al), o), MUL(al, x))), o), w, p)
    o, x = L('this._baro_hgt_offset'), L('_baro_buffer.hgt')
    c.eq('filters', 'filtered baro height', mem(fl, '_baro_hgt_offset'), ITE(bg, ITE(cmpdd('==', bc, F), x, ADD(MUL(lc(Fraction('0.9')), o), MUL(lc(Fraction('0.1')), x))), o), w, p)
    nmc, nbc = ITE(mg, ADD(mc, T), mc), ITE(bg, ADD(bc, T), bc)
    c.eq('data', 'magnetometer samples are counted', dd(mem(fl, '_mag_counter', t='uint32_t')), nmc, w, p)
    c.eq('data', 'baro samples are counted', dd(mem(fl, '_baro_counter', t='uint32_t')), nbc, w, p)
    usemag = cmpdd('<=', L('this._params.mag_fusion_type'), lc(2))
    n = L('this._obs_buffer_length')
    enough = AND(OR(NOT(usemag), cmpdd('>=', nmc, n)), cmpdd('>=', nbc, n))
    tilt = B('ret:initialiseTilt#0')
    c.eq('data', 'tilt initialisation needs as many magnetometer and baro samples as the buffers hold', orpc(by['initialiseTilt']), AND(live, enough), w)
    ok = AND(AND(live, enough), tilt)
    c.eq('data', 'the filter is initialised exactly with enough data and a valid tilt', ret, ok, w)
    for q in ('resetMagHeading', 'initialiseCovariance', 'initHagl', 'alignOutputFilter'):
        c.eq('steps', f'{q} is part of the initialisation', orpc(by[q]), ok, w)
        once(c, 'steps', q, by[q])
    c.eq('steps', 'the yaw variance is that of the heading measurement when there is one', orpc(by['increaseQuatYawErrVariance']), AND(ok, usemag), w)
    for e in by['increaseQuatYawErrVariance']:
        x = FN('max', L('this._params.mag_heading_noise'), lc(Fraction('0.01')))
        eqs(c, 'steps', 'variance of the heading measurement', e.data['args'][0], MUL(x, x), evloc(e), e.pc)
    for e in by['resetMagHeading']:
        for i in range(3):
            c.eq('steps', f'the heading comes from the filtered magnetic field {i}', e.data['args'][0].e[i], dd(fl.peek(e.state, ('this', '_mag_lpf', '_filter_state', (i, 0)), 'float')), evloc(e))
        for k in (1, 2):
            c.eq('steps', f'the initial heading neither changes the yaw variance nor updates the output buffers ({k})', tobool(e.data['args'][k]), F, evloc(e))
    done = TRUE.and_(ok)
    if by['alignOutputFilter'] and by['initialiseCovariance'] and by['increaseQuatYawErrVariance']:
        c.ob('steps', 'the covariance is initialised before the yaw variance is increased', max(e.n for e in by['initialiseCovariance']) < min(e.n for e in by['increaseQuatYawErrVariance']), w)
        c.ob('steps', 'the attitude is known before the output filter is aligned', max(e.n for e in by['resetMagHeading']) < min(e.n for e in by['alignOutputFilter']), w)
    for m in TIMERS:
        c.eq('timers', f'{m} starts with the initialisation', mem(fl, m, t='uint64_t'), L('this._time_last_imu'), w, done)
    c.eq('status', 'terrain state', tobool(mem(fl, '_terrain_initialised', t='bool')), B('ret:initHagl#0'), w, done)
    bits = {f: (o, b) for f, o, b in fl.union_layout('filter_control_status_u')[0]}

    def cs(f):
        return tobool(fl.peek(fl.S, ('this', '_control_status', 'flags', f), 'bool'))
    c.eq('status', 'yaw alignment is the outcome of the heading initialisation', cs('yaw_align'), B('ret:resetMagHeading#0'), w, done)
    for f, want in (('baro_hgt', T), ('gps_hgt', F), ('rng_hgt', F), ('ev_hgt', F)):
        c.eq('status', f'baro is the initial height source: {f}', cs(f), want, w, done)
    # tilt
    fl = c.flow('Ekf::initialiseTilt')
    w = loc(fl.f)
    a = [L(f'this._accel_lpf._filter_state[{i}]') for i in range(3)]
    g = [L(f'this._gyro_lpf._filter_state[{i}]') for i in range(3)]
    an, gn = norm(a), norm(g)
    calm = AND(AND(cmpdd('>=', an, lc(Fraction('0.8') * Fraction('9.80665'))), cmpdd('<=', an, lc(Fraction('1.2') * Fraction('9.80665')))), cmpdd('<=', gn, leaf(div(V.pi_const(), const(12)))))
    c.eq('tilt', 'tilt is initialised only at rest: specific force within 20 % of gravity, turn rate below 15 deg/s', tobool(fl.rvalue(fl.v, fl.S)), calm, w)
    u = [DIV(x, an) for x in a]
    pitch, roll = FN('asin', u[0]), FN('atan2', NEG(u[1]), NEG(u[2]))
    q = fl._e2q(Mat(3, 1, [roll, pitch, F], 'Euler'))
    p = TRUE.and_(calm)
    for i in range(4):
        c.eq('tilt', f'attitude from the direction of gravity {i}', mem(fl, '_state', 'quat_nominal', (i, 0)), q.e[i], w, p)
        c.eq('tilt', f'no attitude change while moving {i}', mem(fl, '_state', 'quat_nominal', (i, 0)), leaf(st('quat_nominal', i)), w, TRUE.and_(NOT(calm)))
    qg = [leaves(unfold(dd(x)))[0] for x in q.e]
    R = quat_dcm(qg)
    for i in range(3):
        for j in range(3):
            c.eq('tilt', f'rotation matrix of that attitude ({i},{j})', mem(fl, '_R_to_earth', (i, j)), leaf(R[i][j]), w, p)
    frame(c, 'frame', 'the tilt initialisation', fl, ('_R_to_earth', ('this', '_state', 'quat_nominal')))
    # alignment of the output predictor
    N, head = 3, 1
    fl = c.flow('Ekf::alignOutputFilter', hooks=ering(N, head))
    w = loc(fl.f)
    old = (head + 1) % N

    def e0(k, m, i):
        return s(FL.pname(('this', '_output_buffer', 'elem', k, m, (i, 0))))
    for m in ('vel', 'pos'):
        for i in range(3):
            d = sub(st(m, i), e0(old, m, i))
            for k in range(N):
                c.eq('align', f'output {m}[{i}] of element {k} is moved by the error at the delayed time', mem(fl, '_output_buffer', 'elem', k, m, (i, 0)), leaf(add(e0(k, m, i), d)), w)
            c.eq('align', f'current output {m}[{i}]', mem(fl, '_output_new', m, (i, 0)), leaf(add(e0(head, m, i), d)), w)
    qs = [st('quat_nominal', i) for i in range(4)]
    qo = [e0(old, 'quat_nominal', i) for i in range(4)]
    n2 = total(mul(x, x) for x in qo)
    qd = quat_mul(qs, [div(qo[0], n2)] + [neg(div(x, n2)) for x in qo[1:]])
    n = qnorm(qd)
    qd = [div(x, n) for x in qd]
    for k in range(N):
        r = quat_mul(qd, [e0(k, 'quat_nominal', i) for i in range(4)])
        n = qnorm(r)
        for i in range(4):
            c.eq('align', f'output attitude {i} of element {k} is turned by the error at the delayed time', mem(fl, '_output_buffer', 'elem', k, 'quat_nominal', (i, 0)), leaf(div(r[i], n)), w)
            if k == head:
                c.eq('align', f'current output attitude {i}', mem(fl, '_output_new', 'quat_nominal', (i, 0)), leaf(div(r[i], n)), w)
    # a reset forgets everything
    fl = c.flow('Ekf::init', opaque={'initialise_interface'}, nomod={'initialise_interface'})
    w = loc(fl.f)
    e = [e for e in fl.events if e.kind == 'call' and e.name == 'initialise_interface']
    c.ob('reset', 'init initialises the interface', len(e) == 1 and conj(e[0].pc) is T, w)
    for x in e:
        c.eq('reset', 'at the time given', x.data['args'][0], L('arg0'), evloc(x))
    c.eq('reset', 'init reports the outcome', tobool(fl.rvalue(fl.v, fl.S)), B('ret:initialise_interface#0'), w)
    for gname, k in GROUPS:
        for i in range(k):
            c.eq('reset', f'{gname}[{i}] starts from {"identity" if gname == "quat_nominal" else "zero"}', mem(fl, '_state', gname, (i, 0)), T if gname == 'quat_nominal' and i == 0 else F, w)
    for m, k in (('quat_nominal', 4), ('vel', 3), ('pos', 3)):
        for i in range(k):
            c.eq('reset', f'output {m}[{i}] starts afresh', mem(fl, '_output_new', m, (i, 0)), T if m == 'quat_nominal' and i == 0 else F, w)
    for m, k in (('_delta_angle_corr', 3), ('_ang_rate_delayed_raw', 3), ('_prev_dvel_bias_var', 3), ('_gps_pos_deriv_filt', 3), ('_gps_velNE_filt', 2)):
        for i in range(k):
            c.eq('reset', f'{m}[{i}] starts from zero', mem(fl, m, (i, 0)), F, w)
    for m in ('_imu_updated', '_NED_origin_initialised', '_gps_speed_valid', '_filter_initialised', '_terrain_initialised'):
        c.eq('reset', f'{m} is false', tobool(mem(fl, m, t='bool')), F, w)
    for m in ('_accel_magnitude_filt', '_ang_rate_magnitude_filt', '_gps_alt_ref'):
        c.eq('reset', f'{m} starts from zero', mem(fl, m), F, w)
    c.eq('reset', 'the average filter period starts from its nominal value', mem(fl, '_dt_ekf_avg'), lc(DT), w)
    for m, u in (('_control_status', 'filter_control_status_u'), ('_control_status_prev', 'filter_control_status_u'), ('_fault_status', 'fault_status_u'), ('_innov_check_fail_status', 'innovation_fault_status_u')):
        for f, o, b in fl.union_layout(u)[0]:
            c.eq('reset', f'{m}.{f} is clear', tobool(fl.peek(fl.S, ('this', m, 'flags', f), 'bool')), F, w)
    for m, x in (('_range_cos_max_tilt', L('this._params.range_cos_max_tilt')), ('_quality_hyst_us', None)):
        if x is not None:
            c.eq('reset', f'range finder {m} follows the parameter', mem(fl, '_range_sensor', m), x, w)
