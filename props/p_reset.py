"""Resets of states and covariance, alignment of yaw."""
from vfa.harness import *
from vfa.flow import LV
from .p_parts import L, B, s, mem, tsyms, total, quat_mul, quat_dcm, rotvec_quat, qnorm
from .p_sensors import frame, bufname
from .p_ekf import ALL_TU, G, DT, st, me, eqs, GROUPS, ering, v3, vadd, vsub, vmul, mv, norm, getv, elem, orpc, callsof, once

NS = 24
half = lc(Fraction(1, 2))


def rings(N=3, head=1):
    """output buffers as small arrays, the newest sample of an observation buffer as an object of its own"""
    h = dict(ering(N, head))
    outn = h['get_newest']
    T_ = {'_gps_buffer': 'gpsSample', '_baro_buffer': 'baroSample', '_ext_vision_buffer': 'extVisionSample', '_imu_buffer': 'imuSample'}

    def newest(fl, f, this, args, S, n):
        b = bufname(this)
        if b in T_:
            return LV(this + ('newest',), T_[b])
        return outn(fl, f, this, args, S, n)
    h['get_newest'] = newest
    return h


def Psym(i, j):
    """covariance matrix on entry: symmetric"""
    return s(FL.pname(('this', 'P', (min(i, j), max(i, j)))))


def pget(fl, i, j):
    return dd(mem(fl, 'P', (i, j)))


def same_p(c, rule, what, fl, want, pc=TRUE, n=NS):
    """covariance on exit: want(i, j) -> value or None for `unchanged`; one obligation per row, the first difference is shown"""
    w = loc(fl.f)
    for i in range(n):
        bad = None
        for j in range(n):
            x = want(i, j)
            x = leaf(Psym(i, j)) if x is None else dd(x)
            d = differs(pget(fl, i, j), x, pc)
            if d is not None:
                bad = (j, x, d)
                break
        if bad is None:
            c.ob(rule, f'{what}: covariance row {i}', True, w)
        else:
            j, x, d = bad
            if differs(unfold(pget(fl, i, j), pc), unfold(x, pc), pc) is None:
                if all(differs(unfold(pget(fl, i, k), pc), unfold(leaf(Psym(i, k)) if want(i, k) is None else dd(want(i, k)), pc), pc) is None for k in range(n)):
                    c.ob(rule, f'{what}: covariance row {i}', True, w)
                    continue
            c.ob(rule, f'{what}: covariance row {i}, column {j}', False, w, lambda: f'when {showcube(d)[:300]}: {showdd(pget(fl, i, j))[:300]} instead of {showdd(x)[:300]}')


def uncor(first, var):
    """states first.. uncorrelated from everything, with the variances given"""
    w = len(var)

    def want(i, j):
        a, b = first <= i < first + w, first <= j < first + w
        if not (a or b):
            return None
        return var[i - first] if i == j else F
    return want


def both(*ws):
    def want(i, j):
        r = None
        for x in ws:
            y = x(i, j)
            if y is not None:
                r = y
        return r
    return want


VP = {'_state': 'vel'}


def cflag(f):
    return B(f'this._control_status.flags.{f}')


def shift(c, rule, what, fl, kind, axes, delta, newv, pc=TRUE, N=3):
    """state moved by delta[axis] on `axes`; the whole output history and the current output moved likewise; published with the change"""
    w = loc(fl.f)
    for i in range(3):
        hit = i in axes
        d = delta[axes.index(i)] if hit else F
        c.eq(rule, f'{what}: state {kind}[{i}]', mem(fl, '_state', kind, (i, 0)), newv[axes.index(i)] if hit else leaf(st(kind, i)), w, pc)
        for k in range(N):
            c.eq(rule, f'{what}: stored output {k} {kind}[{i}] moves with the state', mem(fl, '_output_buffer', 'elem', k, kind, (i, 0)), ADD(leaf(s(FL.pname(('this', '_output_buffer', 'elem', k, kind, (i, 0))))), d), w, pc)
        c.eq(rule, f'{what}: current output {kind}[{i}] moves with the state', mem(fl, '_output_new', kind, (i, 0)), ADD(L(f'this._output_new.{kind}[{i}]'), d), w, pc)
    hor, ver = {'vel': ('velNE', 'velD'), 'pos': ('posNE', 'posD')}[kind]
    rs = 'this._state_reset_status.'
    h, v = 0 in axes, 2 in axes
    for i in range(2):
        c.eq(rule, f'{what}: published horizontal change {i}', mem(fl, '_state_reset_status', hor + '_change', (i, 0)), delta[axes.index(i)] if h else L(f'{rs}{hor}_change[{i}]'), w, pc)
    c.eq(rule, f'{what}: published vertical change', mem(fl, '_state_reset_status', ver + '_change'), delta[axes.index(2)] if v else L(f'{rs}{ver}_change'), w, pc)
    for nm, hit in ((hor, h), (ver, v)):
        got = dd(mem(fl, '_state_reset_status', nm + '_counter', t='uint8_t'))
        old = L(f'{rs}{nm}_counter')
        c.eq(rule, f'{what}: {nm} reset counter', counter(got), ADD(old, T) if hit else old, w, pc)
    m = {'vel': 'vert_vel', 'pos': 'vert_vel_integ'}[kind]
    for k in range(N):
        c.eq(rule, f'{what}: stored vertical output {k} {m}', mem(fl, '_output_vert_buffer', 'elem', k, m), ADD(leaf(s(FL.pname(('this', '_output_vert_buffer', 'elem', k, m)))), delta[axes.index(2)] if v else F), w, pc)


def counter(d):
    """an 8-bit counter modulo its wrap-around"""
    def g(e, A):
        if e.op in ('wrap8', 'mod', 'cast') or (e.op == 'fn' and 'u8' in str(e.aux)):
            return A[0]
        return None
    return rewrite(d, g)


RESET_ROOTS = ('_state_reset_status', '_output_new', '_output_vert_new', '_output_buffer', '_output_vert_buffer', '_information_events')
RTU = ALL_TU + ('EKF/optflow_fusion.cpp',)
MASK_ROTATE = 6     # bit of the fusion mode


@prop('C04', 400)
def vel_pos_resets(c):
    c.load(*RTU)
    V.TYPE_IV.clear()
    tsyms('this._time_last_imu', 'this._last_gps_fail_us', 'this._min_gps_health_time_us')
    for n in ('velNE', 'velD', 'posNE', 'posD', 'quat'):
        V.TYPE_IV[f'this._state_reset_status.{n}_counter'] = (0.0, 254.0)
    H = rings()

    def flow(q, **kw):
        return c.flow('Ekf::' + q, hooks=H, opaque={'calcOptFlowMeasVar'}, nomod={'calcOptFlowMeasVar'}, **kw)

    # the two elementary resets per quantity
    a0 = [L(f'arg0[{i}]') for i in range(3)]
    for q, kind, axes, new in (('resetHorizontalVelocityTo', 'vel', (0, 1), a0[:2]), ('resetVerticalVelocityTo', 'vel', (2,), [L('arg0')]), ('resetVelocityTo', 'vel', (0, 1, 2), a0),
                               ('resetHorizontalPositionTo', 'pos', (0, 1), a0[:2]), ('resetVerticalPositionTo', 'pos', (2,), [L('arg0')])):
        fl = flow(q)
        d = [SUB(n, leaf(st(kind, a))) for n, a in zip(new, axes)]
        shift(c, 'shift', q, fl, kind, axes, d, new)
        if q == 'resetVerticalPositionTo':
            c.eq('shift', f'{q}: vertical output', mem(fl, '_output_vert_new', 'vert_vel_integ'), new[0], loc(fl.f))
        if q in ('resetVerticalVelocityTo', 'resetVelocityTo'):
            c.eq('shift', f'{q}: vertical output', mem(fl, '_output_vert_new', 'vert_vel'), ADD(L('this._output_vert_new.vert_vel'), d[-1]), loc(fl.f))
        frame(c, 'frame', q, fl, RESET_ROOTS + (('this', '_state', kind),) + (('_hpos_prev_available',) if kind == 'pos' else ()))

    # velocity: source, value and variance
    gpsok = AND(cflag('gps'), cmpdd('>', SUB(L('this._time_last_imu'), L('this._last_gps_fail_us')), L('this._min_gps_health_time_us')))
    flow_, evv, evp = cflag('opt_flow'), cflag('ev_vel'), cflag('ev_pos')
    R = [[leaf(me('_R_to_earth', i, j)) for j in range(3)] for i in range(3)]
    Re = [[leaf(me('_R_ev_to_ekf', i, j)) for j in range(3)] for i in range(3)]
    rot = bool_atom(fn('bit', (s('this._params.fusion_mode'), const(MASK_ROTATE))))
    g = 'this._gps_sample_delayed.'
    gv = [L(f'{g}vel[{i}]') for i in range(3)]
    sacc = L(g + 'sacc')
    S = State()
    S.d[('this', '_ev_sample_delayed', 'vel_frame')] = F
    flb = State()
    flb.d[('this', '_ev_sample_delayed', 'vel_frame')] = T
    flb = flow('resetVelocity', state=flb)
    fl = flow('resetVelocity', state=S)
    w = loc(fl.f)

    lay = [f for f, o, b in c.flow('Ekf::resetVelocityToGps', hooks=H).union_layout('information_event_status_u')[0]]
    c.need(lay, 'no information events found')

    def setto(pc, what, new, axes, var, kind='vel', fl=None, event=None):
        fl = fl or cur[0]
        for f in lay:
            c.eq('event', f'{what}: announcement {f}', tobool(fl.peek(fl.S, ('this', '_information_events', 'flags', f), 'bool')), T if f == event else B(f'this._information_events.flags.{f}'), loc(fl.f), pc)
        d = [SUB(n, leaf(st(kind, a))) for n, a in zip(new, axes)]
        shift(c, 'source', what, fl, kind, axes, d, new, pc)
        first = {'vel': 4, 'pos': 7}[kind] + axes[0]
        same_p(c, 'variance', what, fl, uncor(first, var), pc)
    cur = [fl]
    setto(TRUE.and_(gpsok), 'velocity reset with healthy GPS', gv, (0, 1, 2), [MUL(sacc, sacc)] * 3, event='reset_vel_to_gps')
    # optical flow
    p = TRUE.and_(NOT(gpsok)).and_(flow_)
    clr = L('this._params.rng_gnd_clearance')
    hag = FN('max', SUB(L('this._terrain_vpos'), leaf(st('pos', 2))), clr)
    rng = DIV(hag, L('this._range_sensor._cos_tilt_rng_to_earth'))
    vb = [MUL(NEG(rng), DIV(L('this._flow_compensated_XY_rad[1]'), L('this._flow_sample_delayed.dt'))), MUL(rng, DIV(L('this._flow_compensated_XY_rad[0]'), L('this._flow_sample_delayed.dt'))), F]
    ve = mv(R, vb)
    high = cmpdd('>', SUB(rng, clr), lc(Fraction('0.3')))
    new = [ITE(high, ve[i], F) for i in range(2)]
    setto(p, 'velocity reset with optical flow', new, (0, 1), [MUL(MUL(rng, rng), L('ret:calcOptFlowMeasVar#0'))] * 2, event='reset_vel_to_flow')
    # external vision
    base = TRUE.and_(NOT(gpsok)).and_(NOT(flow_)).and_(evv)
    e = 'this._ev_sample_delayed.'
    ev = [L(f'{e}vel[{i}]') for i in range(3)]
    off = [SUB(L(f'this._params.ev_pos_body[{i}]'), L(f'this._params.imu_pos_body[{i}]')) for i in range(3)]
    om = [L(f'this._ang_rate_delayed_raw[{i}]') for i in range(3)]
    vo = [SUB(MUL(om[(i + 1) % 3], off[(i + 2) % 3]), MUL(om[(i + 2) % 3], off[(i + 1) % 3])) for i in range(3)]
    C = [[leaf(me2('_ev_sample_delayed', 'velCov', i, j)) for j in range(3)] for i in range(3)]

    def diagof(M):
        out = []
        for i in range(3):
            r = F
            for a in range(3):
                for b in range(3):
                    r = ADD(r, MUL(MUL(M[i][a], C[a][b]), M[i][b]))
            out.append(r)
        return out
    voe = mv(R, vo)
    for nm, fl_, pc, val, var in (('in the body frame', flb, base, mv(R, vsub(ev, vo)), diagof(R)), ('in a rotated local frame', fl, base.and_(rot), vsub(mv(Re, ev), voe), diagof(Re)),
                                  ('in the local frame', fl, base.and_(NOT(rot)), vsub(ev, voe), [C[i][i] for i in range(3)])):
        setto(pc, f'velocity reset with vision velocity {nm}', val, (0, 1, 2), var, fl=fl_, event='reset_vel_to_vision')
    setto(TRUE.and_(NOT(gpsok)).and_(NOT(flow_)).and_(NOT(evv)), 'velocity reset without any source', [F, F], (0, 1), [lc(25)] * 2, event='reset_vel_to_zero')
    frame(c, 'frame', 'a velocity reset', fl, RESET_ROOTS + ('P', ('this', '_state', 'vel')))

    # horizontal position
    fl = cur[0] = flow('resetHorizontalPosition')
    w = loc(fl.f)
    gps = cflag('gps')
    hacc = L(g + 'hacc')
    setto(TRUE.and_(gps), 'position reset with GPS', [L(f'{g}pos[{i}]') for i in range(2)], (0, 1), [MUL(hacc, hacc)] * 2, 'pos', event='reset_pos_to_gps')
    ep = [L(f'{e}pos[{i}]') for i in range(3)]
    ev_ = mv(Re, ep)
    setto(TRUE.and_(NOT(gps)).and_(evp), 'position reset with vision', [ITE(rot, ev_[i], ep[i]) for i in range(2)], (0, 1), [L(f'{e}posVar[{i}]') for i in range(2)], 'pos', event='reset_pos_to_vision')
    last = [L(f'this._last_known_posNE[{i}]') for i in range(2)]
    air = cflag('in_air')
    rest = TRUE.and_(NOT(gps)).and_(NOT(evp))
    setto(rest.and_(flow_), 'position reset with optical flow', [ITE(air, last[i], F) for i in range(2)], (0, 1), [F] * 2, 'pos', event='reset_pos_to_last_known')
    na = L('this._params.pos_noaid_noise')
    setto(rest.and_(NOT(flow_)), 'position reset without any source', last, (0, 1), [MUL(na, na)] * 2, 'pos', event='reset_pos_to_last_known')
    c.eq('source', 'a position reset ends the comparison of odometry positions', tobool(mem(fl, '_hpos_prev_available', t='bool')), F, w)
    for q in ('resetHorizontalPositionToGps', 'resetHorizontalPositionToVision'):
        f2 = flow(q)
        c.eq('source', f'{q} ends the comparison of odometry positions', tobool(mem(f2, '_hpos_prev_available', t='bool')), F, loc(f2.f))
    frame(c, 'frame', 'a position reset', fl, RESET_ROOTS + ('P', ('this', '_state', 'pos'), '_hpos_prev_available'))

    # height: one run per height source
    def sq(x):
        return MUL(x, x)
    gn, bn, en = 'this._gps_buffer.newest.', 'this._baro_buffer.newest.', 'this._ext_vision_buffer.newest.'
    tsyms(en + 'time_us', e + 'time_us')
    alt = lambda x: SUB(L('this._hgt_sensor_offset'), x)
    bad, inter = B('this._baro_hgt_faulty'), B('this._gps_hgt_intermittent')
    dist = MUL(L('this._range_sensor._sample.rng'), L('this._range_sensor._cos_tilt_rng_to_earth'))
    evnew = cmpdd('>=', L(en + 'time_us'), L(e + 'time_us'))
    fl0 = flow('resetHeight')
    names = ('rng_hgt', 'baro_hgt', 'gps_hgt', 'ev_hgt')
    cases = {'rng_hgt': (T, alt(dist), sq(L('this._params.range_noise')), True), 'baro_hgt': (NOT(bad), SUB(L('this._baro_hgt_offset'), L(bn + 'hgt')), sq(L('this._params.baro_noise')), False),
             'gps_hgt': (NOT(inter), ADD(alt(L(gn + 'hgt')), L('this._gps_alt_ref')), sq(L(gn + 'vacc')), True), 'ev_hgt': (T, ITE(evnew, L(en + 'pos[2]'), L(e + 'pos[2]')), None, False), None: (F, F, None, False)}
    useg = AND(cflag('gps'), NOT(inter))
    fl = fl0
    w = loc(fl.f)
    for h, (able, z, var, off_) in cases.items():
        pc = TRUE
        for x in names:
            pc = pc.and_(cflag(x) if x == h else NOT(cflag(x)))
        what = f'height reset with {h}' if h else 'height reset without a height source'
        zv = ITE(useg, L(gn + 'vel[2]'), F)
        dz, dvz = SUB(z, leaf(st('pos', 2))), SUB(zv, leaf(st('vel', 2)))
        for able_, q in ((True, pc.and_(able)), (False, pc.and_(NOT(able)))):
            if q.false:
                continue
            at = what if able_ else what + ' (not usable)'
            shift(c, 'height', at, fl, 'pos', (2,) if able_ else (), [dz], [z], q)
            shift(c, 'height', at, fl, 'vel', (2,), [dvz], [zv], q)
            vv = ITE(useg, sq(MUL(lc(Fraction(3, 2)), L(gn + 'sacc'))), lc(10))
            ws = [uncor(6, [vv])]
            if able_ and var is not None:
                ws.append(uncor(9, [var]))
            same_p(c, 'variance', at, fl, both(*ws), q)
            c.eq('height', f'{at}: vertical output follows', mem(fl, '_output_vert_new', 'vert_vel_integ'), z if able_ else L('this._output_vert_new.vert_vel_integ'), w, q)
            c.eq('height', f'{at}: baro offset', mem(fl, '_baro_hgt_offset'), ADD(L(bn + 'hgt'), z) if able_ and off_ else L('this._baro_hgt_offset'), w, q)
    frame(c, 'frame', 'a height reset', fl, RESET_ROOTS + ('P', ('this', '_state', 'vel'), ('this', '_state', 'pos'), '_baro_hgt_offset'))


def me2(a, n, i, j):
    return s(FL.pname(('this', a, n, (i, j))))
