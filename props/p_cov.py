"""Covariance matrix: initialisation, resets, repairs, limits."""
from vfa.harness import *
from vfa.flow import LV
from .p_parts import L, B, s, mem, tsyms, total, quat_mul
from .p_sensors import frame
from .p_ekf import ALL_TU, st, me, eqs, clamp, orpc, callsof, once, GROUPS
from .p_reset import same_p, uncor, both, cflag, RTU, Psym, pget
from .p_yaw import sq, flags_are, events_are, T01, mag_zero

COV = ('EKF/covariance.cpp', 'EKF/ekf_helper.cpp')


def pow_half(f, k):
    """f^(k/2) from the square root"""
    r = f
    for _ in range(k - 1):
        r = mul(r, f)
    return r


def rot_of(q):
    """rotation vector of a quaternion and its squared length"""
    d = mul(const(2), fn('acos', (q[0],)))
    k = div(d, fn('sin', (mul(d, const(Fraction(1, 2))),)))
    r = [mul(k, x) for x in q[1:]]
    return r, total(mul(x, x) for x in r)


def quat_var(q, var):
    """covariance of the quaternion whose rotation vector has the variances given (q0 >= 0, not the identity)"""
    r, n2 = rot_of(q)
    # q(r) differentiated with respect to r
    rs = [s(f'%r{i}') for i in range(3)]
    m2 = total(mul(x, x) for x in rs)
    m = fn('sqrt', (m2,))
    h = mul(m, const(Fraction(1, 2)))
    qr = [fn('cos', (h,))] + [div(mul(x, fn('sin', (h,))), m) for x in rs]
    J = [[substitute(diff(a, b), {f'%r{i}': r[i] for i in range(3)}) for b in rs] for a in qr]
    return n2, [[total(mul(mul(J[i][k], J[j][k]), var[k]) for k in range(3)) for j in range(4)] for i in range(4)]


def quat_init(var):
    """covariance after the attitude variance has been set from rotation vector variances: want(i, j) for same_p"""
    q = [s(f'this._state.quat_nominal[{i}]') for i in range(4)]
    n2, A = quat_var(q, var)
    m2, Bm = quat_var([neg(x) for x in q], var)
    pos = cmpdd('>=', leaf(q[0]), F)
    eps = lc(Fraction('1e-9'))
    quarter = const(Fraction(1, 4))

    def want(i, j):
        if i >= 4 and j >= 4:
            return None
        if i >= 4 or j >= 4:
            return F
        small = leaf(mul(quarter, var[i - 1])) if i == j and i > 0 else F
        return ITE(pos, ITE(cmpdd('>', leaf(n2), eps), leaf(A[i][j]), small), ITE(cmpdd('>', leaf(m2), eps), leaf(Bm[i][j]), small))
    return want


def salted(names, exprs, tries=4000):
    """values for symbols such that the expressions have exact roots"""
    for k in range(tries):
        for i, n in enumerate(names):
            V.set_symfp(n, V.h61(f'salt{k}:{n}'))
        if all(V.square(x) for x in exprs()):
            return k
    raise AssertionError('no assignment')


QN = [f'this._state.quat_nominal[{i}]' for i in range(4)]


def salt_quat():
    def ex():
        q = [s(n) for n in QN]
        d = sub(ONE, mul(q[0], q[0]))
        return [d] + ([rot_of(q)[1], rot_of([neg(x) for x in q])[1]] if V.square(d) else [])
    return salted(QN, ex)


@prop('F10', 220)
def initial(c):
    c.load(*RTU, 'EKF/airspeed_fusion.cpp')
    V.TYPE_IV.clear()
    salt_quat()
    # --- attitude variance from a rotation vector
    fl = c.flow('Ekf::initialiseQuatCovariances')
    same_p(c, 'attitude', 'attitude variance', fl, quat_init([s(f'arg0[{i}]') for i in range(3)]))
    frame(c, 'frame', 'attitude variance', fl, ('P',))

    # --- and back
    fl = c.flow('Ekf::calcRotVecVariances')
    w = loc(fl.f)
    q = [s(n) for n in QN]
    pos = cmpdd('>=', leaf(q[0]), F)
    r = fl.rvalue(fl.v, fl.S)
    eps = lc(Fraction('1e-9'))
    for i in range(3):
        def var(q):
            a, b = s('%q0'), s('%qi')
            k = div(mul(const(2), fn('acos', (a,))), fn('sqrt', (sub(ONE, mul(a, a)),)))
            x = mul(k, b)
            sb = {'%q0': q[0], '%qi': q[1 + i]}
            J = [substitute(diff(x, a), sb), substitute(diff(x, b), sb)]
            ix = [0, 1 + i]
            return total(mul(mul(J[m], J[n]), Psym(ix[m], ix[n])) for m in range(2) for n in range(2))
        away = cmpdd('>', leaf(sub(ONE, mul(q[0], q[0]))), eps)
        c.eq('attitude', f'rotation vector variance {i} from the attitude variance', r.at(i, 0), ITE(away, ITE(pos, leaf(var(q)), leaf(var([neg(x) for x in q]))), leaf(mul(const(4), Psym(1 + i, 1 + i)))), w)
    frame(c, 'frame', 'rotation vector variances', fl, ())

    # --- reset of the attitude variance
    tilt = mul(s('this._params.initial_tilt_err'), s('this._params.initial_tilt_err'))
    fl = c.flow('Ekf::resetQuatCov')
    same_p(c, 'attitude', 'attitude variance reset', fl, quat_init([tilt] * 3))
    frame(c, 'frame', 'attitude variance reset', fl, ('P',))

    # --- full initialisation
    def P_(n):
        return L(f'this._params.{n}')
    DT = lc(Fraction('0.01'))
    lo = FN('max', MUL(lc(Fraction(3, 2)), P_('gps_pos_noise')), T01)
    gh = sq(clamp(L('this._gps_sample_delayed.vacc'), lo, FN('max', MUL(lc(Fraction(3, 2)), P_('pos_noaid_noise')), lo)))
    vv, pp = sq(FN('max', P_('gps_vel_noise'), T01)), sq(FN('max', P_('gps_pos_noise'), T01))
    hh = ITE(cflag('rng_hgt'), sq(FN('max', P_('range_noise'), T01)), ITE(cflag('gps_hgt'), gh, sq(FN('max', P_('baro_noise'), T01))))
    gy, ac = sq(MUL(P_('switch_on_gyro_bias'), DT)), sq(MUL(P_('switch_on_accel_bias'), DT))
    mg, wi = sq(P_('mag_noise')), sq(P_('initial_wind_uncertainty'))
    diag = [None] * 4 + [vv, vv, MUL(lc(Fraction(9, 4)), vv), pp, pp, hh] + [gy] * 3 + [ac] * 3 + [mg] * 6 + [wi] * 2
    qi = quat_init([tilt] * 3)

    def full(i, j):
        if i < 4 and j < 4:
            return qi(i, j)
        return diag[i] if i == j else F
    V.TYPE_IV['this._params.pos_noaid_noise'] = (0.0, 1e3)
    fl = c.flow('Ekf::initialiseCovariance')
    w = loc(fl.f)
    same_p(c, 'initial', 'initial covariance', fl, full)
    for i in range(3):
        c.eq('initial', f'remembered accelerometer bias variance {i}', mem(fl, '_prev_dvel_bias_var', (i, 0)), ac, w)
        for a in ('_delta_angle_bias_var_accum', '_delta_vel_bias_var_accum'):
            c.eq('initial', f'{a} {i} starts at zero', mem(fl, a, (i, 0)), F, w)
    c.eq('initial', 'declination has to be fused first', tobool(mem(fl, '_mag_decl_cov_reset', t='bool')), F, w)
    n3 = NOT(cflag('mag_3D'))
    for k in range(4):
        c.eq('initial', f'saved field variance {k}', mem(fl, '_saved_mag_bf_variance', k), ITE(n3, mg, L(f'this._saved_mag_bf_variance[{k}]')), w)
    for i in range(2):
        for j in range(2):
            c.eq('initial', f'saved field covariance {i},{j}', mem(fl, '_saved_mag_ef_covmat', (i, j)), ITE(n3, mg if i == j else F, L(FL.pname(('this', '_saved_mag_ef_covmat', (i, j))))), w)
    frame(c, 'frame', 'the initial covariance', fl, ('P', '_prev_dvel_bias_var', '_delta_angle_bias_var_accum', '_delta_vel_bias_var_accum', '_mag_decl_cov_reset', '_saved_mag_bf_variance', '_saved_mag_ef_covmat'))
    V.TYPE_IV.clear()

    # --- partial resets
    zz = lambda first, n: uncor(first, [F] * n)
    for name, want, states, other in (
            ('resetMagCov', uncor(16, [mg] * 6), (), ('_mag_decl_cov_reset', '_saved_mag_bf_variance', '_saved_mag_ef_covmat')),
            ('clearMagCov', zz(16, 6), (), ('_mag_decl_cov_reset',)),
            ('zeroMagCov', zz(16, 6), (), ()),
            ('zeroQuatCov', zz(0, 4), (), ()),
            ('resetMagRelatedCovariances', both(lambda i, j: qi(i, j) if not (i >= 16 and j >= 16) else None, uncor(16, [mg] * 6)), (), ('_mag_decl_cov_reset', '_saved_mag_bf_variance', '_saved_mag_ef_covmat')),
            ('resetGyroBias', uncor(10, [gy] * 3), ('delta_ang_bias',), ()),
            ('resetAccelBias', uncor(13, [ac] * 3), ('delta_vel_bias',), ('_prev_dvel_bias_var',)),
            ('resetImuBias', both(uncor(10, [gy] * 3), uncor(13, [ac] * 3)), ('delta_ang_bias', 'delta_vel_bias'), ('_prev_dvel_bias_var',)),
            ('resetMagBias', uncor(19, [mg] * 3), ('mag_B',), ('_saved_mag_bf_variance',)),
            ('uncorrelateQuatFromOtherStates', lambda i, j: F if (i < 4) != (j < 4) else None, (), ())):
        fl = c.flow('Ekf::' + name)
        w = loc(fl.f)
        same_p(c, 'reset', name, fl, want)
        for g in states:
            for i in range(3):
                c.eq('reset', f'{name}: {g}[{i}] is zero', mem(fl, '_state', g, (i, 0)), F, w)
        if '_prev_dvel_bias_var' in other:
            for i in range(3):
                c.eq('reset', f'{name}: remembered accelerometer bias variance {i}', mem(fl, '_prev_dvel_bias_var', (i, 0)), ac, w)
        if '_mag_decl_cov_reset' in other:
            c.eq('reset', f'{name}: declination has to be fused first', tobool(mem(fl, '_mag_decl_cov_reset', t='bool')), F, w)
        if '_saved_mag_bf_variance' in other:
            for k in range(4):
                old = L(f'this._saved_mag_bf_variance[{k}]')
                want_ = (old if k == 0 else F) if name == 'resetMagBias' else ITE(n3, mg, old)
                c.eq('reset', f'{name}: saved field variance {k}', mem(fl, '_saved_mag_bf_variance', k), want_, w)
        frame(c, 'frame', name, fl, ('P',) + other + tuple(('this', '_state', g) for g in states))

    # --- wind
    OP = {'getEuler321Yaw'}
    tsyms('this._imu_sample_delayed.time_us', 'this._airspeed_sample_delayed.time_us')
    fresh = AND(B('this._tas_data_ready'), cmpdd('<', SUB(L('this._imu_sample_delayed.time_us'), L('this._airspeed_sample_delayed.time_us')), lc(500000)))
    yaw = s('ret:getEuler321Yaw#0')
    cy, sy = fn('cos', (yaw,)), fn('sin', (yaw,))
    tas = s('this._airspeed_sample_delayed.true_airspeed')
    wind = [s(f'this._state.wind_vel[{i}]') for i in range(2)]
    fl = c.flow('Ekf::resetWindStates', opaque=OP, nomod=OP)
    w = loc(fl.f)
    for i, k in enumerate((cy, sy)):
        c.eq('wind', f'wind {i} from a fresh airspeed along the nose, else none', mem(fl, '_state', 'wind_vel', (i, 0)), ITE(fresh, leaf(sub(s(f'this._state.vel[{i}]'), mul(tas, k))), F), w)
    frame(c, 'frame', 'wind states', fl, (('this', '_state', 'wind_vel'),))
    yaws(c, fl)
    fl = c.flow('Ekf::resetWindCovariance', opaque=OP, nomod=OP)
    w = loc(fl.f)
    rt = sq(MUL(clamp(P_('eas_noise'), lc(Fraction(1, 2)), lc(5)), clamp(L('this._airspeed_sample_delayed.eas2tas'), lc(Fraction('0.9')), lc(10))))
    rad = div(V.pi_const(), const(180))
    ry = leaf(mul(mul(const(100), rad), rad))
    sb = fn('sin', (mul(const(15), rad),))
    vy = leaf(mul(mul(tas, sb), mul(tas, sb)))
    # wind = (along, across) the nose turned by the yaw: partial derivatives with respect to airspeed, side wind, yaw
    y = s('%y')
    Wx = add(mul(wind[0], cy), mul(wind[1], sy))
    Wy = sub(mul(wind[1], cy), mul(wind[0], sy))
    e = [sub(mul(Wx, fn('cos', (y,))), mul(Wy, fn('sin', (y,)))), add(mul(Wx, fn('sin', (y,))), mul(Wy, fn('cos', (y,))))]
    J = [[cy, neg(sy), substitute(diff(e[0], y), {'%y': yaw})], [sy, cy, substitute(diff(e[1], y), {'%y': yaw})]]

    def wv(i, j):
        r = F
        for k, v in enumerate((rt, vy, ry)):
            r = ADD(r, MUL(leaf(mul(J[i][k], J[j][k])), v))
        return ADD(r, leaf(Psym(4 + i, 4 + i))) if i == j else r

    def windcov(i, j):
        if i < 22 and j < 22:
            return None
        if i < 22 or j < 22:
            return F
        return ITE(fresh, wv(i - 22, j - 22), wi if i == j else F)
    same_p(c, 'wind', 'wind covariance', fl, windcov)
    frame(c, 'frame', 'wind covariance', fl, ('P',))
    yaws(c, fl)

    # --- added yaw uncertainty (unit quaternion)
    V.unit_quat(QN)
    fl = c.flow('Ekf::increaseQuatYawErrVariance')
    q = [s(n) for n in QN]
    g = [mul(const(Fraction(1, 2)), x) for x in (neg(q[3]), neg(q[2]), q[1], q[0])]
    v = FN('min', L('arg0'), T01)
    same_p(c, 'yaw', 'added yaw variance', fl, lambda i, j: ADD(leaf(Psym(i, j)), MUL(v, leaf(mul(g[i], g[j])))) if i < 4 and j < 4 else None)
    frame(c, 'frame', 'added yaw variance', fl, ('P',))


def yaws(c, fl):
    for e in callsof(c, fl, 'getEuler321Yaw')['getEuler321Yaw']:
        for i in range(4):
            c.eq('wind', f'yaw of the current attitude {i}', e.data['args'][0].e[i], leaf(s(QN[i])), evloc(e), e.pc)


class Asym:
    """covariance matrix without the assumption of symmetry"""
    def __enter__(self):
        self.old = FL.Flow.SYMMAT
        FL.Flow.SYMMAT = set()

    def __exit__(self, *a):
        FL.Flow.SYMMAT = self.old


def Praw(i, j):
    return s(FL.pname(('this', 'P', (i, j))))


def constrained(v, lo, hi):
    return ITE(cmpdd('<', v, lo), lo, ITE(cmpdd('>', v, hi), hi, v))


HALF = lc(Fraction(1, 2))
G0 = lc(Fraction('9.80665'))


class Cov:
    """reference covariance matrix"""
    def __init__(self):
        self.m = [[leaf(Praw(i, j)) for j in range(24)] for i in range(24)]

    def __call__(self, i, j):
        return self.m[i][j]

    def clamp(self, a, b, lo, hi):
        for i in range(a, b):
            self.m[i][i] = constrained(self.m[i][i], lo, hi)

    def symmetric(self, a, b):
        for i in range(a, b):
            for j in range(24):
                if j < a or j > i:
                    self.m[i][j] = self.m[j][i] = MUL(HALF, ADD(self.m[i][j], self.m[j][i]))

    def uncorrelate(self, a, b, when=T):
        for i in range(24):
            for j in range(24):
                if (a <= i < b or a <= j < b) and i != j:
                    self.m[i][j] = ITE(when, F, self.m[i][j])

    def zero(self, a, b):
        for i in range(24):
            for j in range(24):
                if a <= i < b or a <= j < b:
                    self.m[i][j] = F


@prop('F03', 500)
def limits(c):
    c.load(*RTU)
    V.TYPE_IV.clear()
    tsyms('this._time_acc_bias_check', 'this._time_last_imu')
    V.TYPE_IV['this._dt_ekf_avg'] = (0.001, 0.1)
    with Asym():
        for force in (False, True):
            for inh in ((T, T, T), (F, F, F), (T, F, F), (F, T, F), (F, F, T), (F, T, T), (T, F, T), (T, T, F)):
                for mag, wind in ((F, F), (T, T)):
                    fix(c, force, inh, mag, wind)
        # --- guard before an update is applied
        fl = c.flow('Ekf::checkAndFixCovarianceUpdate')
        w = loc(fl.f)
        bad = [cmpdd('<', leaf(Praw(i, i)), L(FL.pname(('arg0', (i, i))))) for i in range(24)]
        same_p(c, 'guard', 'an update that would make a variance negative resets that state', fl, lambda i, j: ITE(OR(bad[i], bad[j]), F, leaf(Praw(i, j))))
        ok = T
        for b in bad:
            ok = AND(ok, NOT(b))
        c.eq('guard', 'an update is healthy exactly when no variance gets negative', tobool(fl.rvalue(fl.v, fl.S)), ok, w)
        frame(c, 'frame', 'the guard', fl, ('P',))


def fix(c, force, inh, mag, wind):
    S = State()
    for k in range(3):
        S.d[('this', '_accel_bias_inhibit', k)] = inh[k]
    S.d[('this', '_control_status', 'flags', 'mag_3D')] = mag
    S.d[('this', '_control_status', 'flags', 'wind')] = wind
    fl = c.flow('Ekf::fixCovarianceErrors', state=S, args={0: T if force else F})
    w = loc(fl.f)
    on = [k for k in range(3) if inh[k] is F]
    at = ('corrected update, ' if force else 'prediction, ') + f'accelerometer bias {"".join("xyz"[k] for k in on) or "off"}, {"field and wind states used" if mag is T else "no field and wind states"}: '
    R = Cov()
    lo = lc(Fraction('1e-6'))
    R.clamp(0, 4, F, T)
    R.clamp(4, 10, lo, lc(1000000))
    R.clamp(10, 13, F, T)
    if force:
        R.symmetric(0, 13)
    pc = TRUE
    bad = F
    ta, tl = L('this._time_acc_bias_check'), L('this._time_last_imu')
    if on:
        v = [R.m[13 + k][13 + k] for k in on]
        big = lc(Fraction('1e-9'))
        need = F
        for x in v:
            big = FN('max', big, x)
            need = OR(need, cmpdd('<', x, lc(Fraction('1e-9'))))
        low = FN('max', MUL(T01, big), lc(Fraction('5e-8')))
        high = sq(MUL(MUL(lc(Fraction('0.1')), G0), L('this._dt_ekf_avg')))
        for k in on:
            R.clamp(13 + k, 14 + k, low, high)
        R.uncorrelate(13, 16, need)
        d = F
        for i in range(3):
            d = ADD(d, MUL(L(f'this._state.delta_vel_bias[{i}]'), leaf(me('_R_to_earth', 2, i))))
        lim = MUL(MUL(lc(Fraction('0.9')), L('this._params.acc_bias_lim')), L('this._dt_ekf_avg'))

        def against(n, f):
            return AND(cmpdd('<', MUL(d, L(f'this.{n}[2]')), F), cflag(f))
        bad = AND(cmpdd('>', FN('abs', d), lim), AND(OR(against('_gps_vel_innov', 'gps'), against('_ev_vel_innov', 'ev_vel')),
                                                    OR(OR(against('_gps_pos_innov', 'gps_hgt'), against('_baro_hgt_innov', 'baro_hgt')), OR(against('_rng_hgt_innov', 'rng_hgt'), against('_ev_pos_innov', 'ev_hgt')))))
        late = AND(bad, cmpdd('<', ADD(ta, lc(7000000)), tl))
        R.uncorrelate(13, 16, late)
        if force:
            before = [list(r) for r in R.m]
            R.symmetric(13, 16)
            # (already without correlations after a reset)
        c.eq('bias', at + 'fault flag', tobool(mem(fl, '_fault_status', 'flags', 'bad_acc_bias', t='bool')), AND(bad, NOT(late)), w)
        c.eq('bias', at + 'time of the last consistent bias', mem(fl, '_time_acc_bias_check', t='uint64_t'), ITE(AND(bad, NOT(late)), ta, tl), w)
        events_are(c, 'bias', at, fl, {'invalid_accel_bias_cov_reset': late})
    for a, b, used, top in ((16, 22, mag, 1), (22, 24, wind, 1000000)):
        if used is T:
            R.clamp(a, b, F, lc(top))
            if force and a == 16:
                R.symmetric(16, 19)
                R.symmetric(19, 22)
            elif force:
                R.symmetric(22, 24)
        else:
            R.zero(a, b)
    same_p(c, 'limits', at, fl, R)
    frame(c, 'frame', at, fl, ('P',) + (('_fault_status', '_time_acc_bias_check', '_warning_events') if on else ()))


def P0_(n):
    return L(f'this._params.{n}')


def jacobians():
    """partial derivatives of the predicted state with respect to state and IMU data: {(row, column): Expr}, {(row, input): Expr}"""
    q = [s(n) for n in QN]
    da = [sub(s(f'this._imu_sample_delayed.delta_ang[{i}]'), s(f'this._state.delta_ang_bias[{i}]')) for i in range(3)]
    dv = [sub(s(f'this._imu_sample_delayed.delta_vel[{i}]'), s(f'this._state.delta_vel_bias[{i}]')) for i in range(3)]
    # free symbols: the values of the quaternion must not be used before differentiation
    qs = [s(f'%q{i}') for i in range(4)]
    half = const(Fraction(1, 2))
    qn = quat_mul(qs, [ONE] + [mul(half, x) for x in da])
    n = lambda *t: total(t)
    a, b, c_, d = qs
    two = const(2)
    R = [[n(mul(a, a), mul(b, b), neg(mul(c_, c_)), neg(mul(d, d))), mul(two, sub(mul(b, c_), mul(a, d))), mul(two, add(mul(b, d), mul(a, c_)))],
         [mul(two, add(mul(b, c_), mul(a, d))), n(mul(a, a), neg(mul(b, b)), mul(c_, c_), neg(mul(d, d))), mul(two, sub(mul(c_, d), mul(a, b)))],
         [mul(two, sub(mul(b, d), mul(a, c_))), mul(two, add(mul(c_, d), mul(a, b))), n(mul(a, a), neg(mul(b, b)), neg(mul(c_, c_)), mul(d, d))]]
    vel = [s(f'this._state.vel[{i}]') for i in range(3)]
    pos = [s(f'this._state.pos[{i}]') for i in range(3)]
    dt = const(Fraction('0.01'))
    new = list(qn) + [add(vel[i], n(*(mul(R[i][k], dv[k]) for k in range(3)))) for i in range(3)] + [add(pos[i], mul(vel[i], dt)) for i in range(3)]
    new += [s(f'this._state.delta_ang_bias[{i}]') for i in range(3)] + [s(f'this._state.delta_vel_bias[{i}]') for i in range(3)]
    xs = qs + vel + pos + [s(f'this._state.delta_ang_bias[{i}]') for i in range(3)] + [s(f'this._state.delta_vel_bias[{i}]') for i in range(3)]
    us = [s(f'this._imu_sample_delayed.delta_ang[{i}]') for i in range(3)] + [s(f'this._imu_sample_delayed.delta_vel[{i}]') for i in range(3)]
    m = {f'%q{i}': q[i] for i in range(4)}
    F_, G_ = {}, {}
    for i in range(24):
        if i >= 16:
            F_[i, i] = ONE
            continue
        for j, x in enumerate(xs):
            e = substitute(diff(new[i], x), m)
            if e.fp:
                F_[i, j] = e
        for j, x in enumerate(us):
            e = substitute(diff(new[i], x), m)
            if e.fp:
                G_[i, j] = e
    return F_, G_


@prop('F02', 60)
def prediction(c):
    c.load(*RTU, 'EKF/utils.cpp')
    V.TYPE_IV.clear()
    V.unit_quat(QN)
    OP = {'fixCovarianceErrors'}
    fl = c.flow('Ekf::predictCovariance', opaque=OP, nomod=OP)
    w = loc(fl.f)
    dt = lc(Fraction('0.01'))
    bad_noise = lc(Fraction('4.9'))
    one = T
    # --- which accelerometer biases are learned
    imu = 'this._imu_sample_delayed.'
    ang = FN('sqrt', dsum([sq(L(f'{imu}delta_ang[{i}]')) for i in range(3)]))
    acc = FN('sqrt', dsum([sq(L(f'{imu}delta_vel[{i}]')) for i in range(3)]))
    al = clamp(DIV(dt, P0_('acc_bias_learn_tc')), F, T)
    be = SUB(T, al)
    af = FN('max', DIV(ang, dt), MUL(be, L('this._ang_rate_magnitude_filt')))
    vf = FN('max', DIV(acc, dt), MUL(be, L('this._accel_magnitude_filt')))
    eqs(c, 'learning', 'turn rate of the last moments', mem(fl, '_ang_rate_magnitude_filt'), af, w)
    eqs(c, 'learning', 'acceleration of the last moments', mem(fl, '_accel_magnitude_filt'), vf, w)
    for i in range(3):
        eqs(c, 'learning', f'filtered acceleration {i}', mem(fl, '_accel_vec_filt', (i, 0)), ADD(DIV(MUL(al, L(f'{imu}delta_vel[{i}]')), dt), MUL(be, L(f'this._accel_vec_filt[{i}]'))), w)
    bv = B('this._fault_status.flags.bad_acc_vertical')
    allax = OR(OR(bool_atom(fn('bit', (s('this._params.fusion_mode'), const(2)))), OR(cmpdd('>', af, P0_('acc_bias_learn_gyr_lim')), cmpdd('>', vf, P0_('acc_bias_learn_acc_lim')))), bv)
    clip = [B(f'{imu}delta_vel_clipping[{k}]') for k in range(3)]
    inh, prev, p13 = [], [], []
    for k in range(3):
        seen = OR(cmpdd('>', FN('abs', leaf(me('_R_to_earth', 2, k))), lc(Fraction('0.8'))), cflag('in_air'))
        x = OR(OR(allax, NOT(seen)), clip[k])
        old = B(f'this._accel_bias_inhibit[{k}]')
        v0, pv = leaf(Psym(13 + k, 13 + k)), L(f'this._prev_dvel_bias_var[{k}]')
        c.eq('learning', f'bias of axis {k} is not learned in manoeuvres, with bad or clipped data, or on ground off the vertical', tobool(mem(fl, '_accel_bias_inhibit', k, t='bool')), x, w)
        pn = ITE(AND(x, NOT(old)), v0, pv)
        c.eq('learning', f'its variance is remembered when learning stops {k}', mem(fl, '_prev_dvel_bias_var', (k, 0)), pn, w)
        inh.append(x)
        prev.append(pn)
        p13.append(ITE(AND(NOT(x), old), pv, v0))
    # --- noise
    gn = clamp(P0_('gyro_noise'), F, T)
    an = ITE(bv, bad_noise, clamp(P0_('accel_noise'), F, T))
    U = [sq(MUL(dt, gn))] * 3 + [ITE(clip[k], sq(MUL(dt, bad_noise)), sq(MUL(dt, an))) for k in range(3)]
    dt2 = MUL(dt, dt)
    N = {}
    for i in range(3):
        N[10 + i] = SUB(sq(MUL(dt2, clamp(P0_('gyro_bias_p_noise'), F, T))), L(f'this._delta_angle_bias_var_accum[{i}]'))
        N[13 + i] = SUB(sq(MUL(dt2, clamp(P0_('accel_bias_p_noise'), F, T))), L(f'this._delta_vel_bias_var_accum[{i}]'))
        c.eq('noise', f'rounding residue of gyro bias variance {i} (exact arithmetic)', mem(fl, '_delta_angle_bias_var_accum', (i, 0)), F, w)
        c.eq('noise', f'rounding residue of accelerometer bias variance {i} (exact arithmetic)', mem(fl, '_delta_vel_bias_var_accum', (i, 0)), F, w)

    def dsumP(a, b):
        return leaf(total([Psym(i, i) for i in range(a, b)]))
    m3, wi = cflag('mag_3D'), cflag('wind')
    tenth = lc(Fraction('0.1'))
    for a, par in ((16, 'mage_p_noise'), (19, 'magb_p_noise')):
        for i in range(a, a + 3):
            N[i] = ITE(cmpdd('<', dsumP(a, a + 3), tenth), sq(MUL(dt, clamp(P0_(par), F, T))), F)
    ah = MUL(tenth, dt)
    hr = ADD(MUL(L('this._height_rate_lpf'), SUB(T, ah)), MUL(leaf(st('vel', 2)), ah))
    eqs(c, 'noise', 'filtered height rate', mem(fl, '_height_rate_lpf'), hr, w)
    for i in (22, 23):
        N[i] = ITE(cmpdd('<', dsumP(22, 24), sq(P0_('initial_wind_uncertainty'))),
                   sq(MUL(MUL(dt, clamp(P0_('wind_vel_p_noise'), F, T)), ADD(T, MUL(P0_('wind_vel_p_noise_scaler'), FN('abs', hr))))), F)
    flags_are(c, 'noise', 'prediction', fl, {'bad_acc_clipping': OR(OR(clip[0], clip[1]), clip[2])}, which='_fault_status')
    # --- propagation
    Fm, Gm = jacobians()
    Fr = [[(j, Fm[i, j]) for j in range(24) if (i, j) in Fm] for i in range(24)]
    Gr = [[(j, Gm[i, j]) for j in range(6) if (i, j) in Gm] for i in range(24)]

    def P0(i, j):
        return p13[i - 13] if i == j and 13 <= i <= 15 else leaf(Psym(i, j))

    def prop_(i, j):
        r = F
        e = []
        for a, x in Fr[i]:
            for b, y in Fr[j]:
                if a == b and 13 <= a <= 15:
                    r = ADD(r, MUL(leaf(mul(x, y)), p13[a - 13]))
                else:
                    e.append(mul(mul(x, y), Psym(a, b)))
        r = ADD(r, leaf(total(e)))
        for a, x in Gr[i]:
            for b, y in Gr[j]:
                if a == b:
                    r = ADD(r, MUL(leaf(mul(x, y)), U[a]))
        if i == j and i in N:
            r = ADD(r, N[i])
        return r
    far = cmpdd('>', leaf(add(Psym(7, 7), Psym(8, 8))), lc(10000))

    def want(i, j):
        if i > j:
            i, j = j, i
        r = prop_(i, j)
        if 13 <= j <= 15:
            # states that are not learned keep their variance, without correlation to the states before them
            r = ITE(inh[j - 13], prev[j - 13] if i == j else F, r)
        if 16 <= j <= 21:
            r = ITE(m3, r, F)
        if j >= 22:
            r = ITE(wi, r, F)
        if 7 <= i <= 8 or 7 <= j <= 8:
            r = ITE(far, P0(i, j), r)
        return r
    same_p(c, 'propagate', 'predicted', fl, want)
    # --- limits last
    fx = callsof(c, fl, 'fixCovarianceErrors')['fixCovarianceErrors']
    once(c, 'limit', 'fixCovarianceErrors', fx)
    c.eq('limit', 'limits are applied in the end', orpc(fx), T, w)
    for e in fx:
        bad = [(i, j) for i in range(24) for j in range(i, 24) if differs(dd(fl.peek(e.state, ('this', 'P', (i, j)), 'float')), pget(fl, i, j), e.pc) is not None]
        c.ob('limit', 'the limits see the final covariance', not bad, evloc(e), f'{bad[:3]}')
    frame(c, 'frame', 'the prediction', fl, ('P', '_ang_rate_magnitude_filt', '_accel_magnitude_filt', '_accel_vec_filt', '_accel_bias_inhibit', '_prev_dvel_bias_var', '_delta_angle_bias_var_accum', '_delta_vel_bias_var_accum', '_height_rate_lpf', '_fault_status'))


def dsum(xs):
    r = F
    for x in xs:
        r = ADD(r, x)
    return r
