"""Emergency yaw estimator: bank of attitude filters and 3-state filters, Gaussian sum."""
from vfa.harness import *
from vfa.flow import LV
from .p_parts import L, B, s, mem, tsyms, total, overloads
from .p_sensors import frame
from .p_ekf import eqs, clamp, orpc, once, norm
from .p_yaw import sq, EPS
from .p_fuse import ITE_

YTU = ('EKF/EKFGSF_yaw.cpp', 'EKF/utils.cpp')
Q = 'EKFGSF_yaw::'
N = 5
PI, PI2 = Fraction('3.14159265'), Fraction('1.57079632')
ONE_G = lc(Fraction('9.80665'))


def nm(*p):
    return s(FL.pname(('this',) + p))


def ekf(k, *p):
    return leaf(nm('_ekf_gsf', k, *p))


def X(k, i):
    return ekf(k, 'X', (i, 0))


def Ps(k, i, j):
    return leaf(nm('_ekf_gsf', k, 'P', (min(i, j), max(i, j))))


def Rk(k, i, j):
    return leaf(nm('_ahrs_ekf_gsf', k, 'R', (i, j)))


def bias(k, i):
    return leaf(nm('_ahrs_ekf_gsf', k, 'gyro_bias', (i, 0)))


def v3(n):
    return [leaf(nm(n, (i, 0))) for i in range(3)]


def cross(a, b):
    return [SUB(MUL(a[(i + 1) % 3], b[(i + 2) % 3]), MUL(a[(i + 2) % 3], b[(i + 1) % 3])) for i in range(3)]


def dsum(xs):
    r = F
    for x in xs:
        r = ADD(r, x)
    return r


def mm(A, B_):
    return [[dsum(MUL(A[i][k], B_[k][j]) for k in range(len(B_))) for j in range(len(B_[0]))] for i in range(len(A))]


def tr(A):
    return [list(r) for r in zip(*A)]


def ranges_():
    V.TYPE_IV.clear()
    for n in ('_delta_ang_dt', '_delta_vel_dt'):
        V.TYPE_IV['this.' + n] = (0.0, 1.0)
    V.TYPE_IV['this._ahrs_accel_norm'] = (0.0, 1000.0)
    V.TYPE_IV['this._accel_noise'] = V.TYPE_IV['this._gyro_noise'] = V.TYPE_IV['this._tilt_gain'] = V.TYPE_IV['this._gyro_bias_gain'] = (0.0, 10.0)


MODELS = {'quick': (0, 4), 'thorough': range(N)}


def sym_state(k):
    S = State()
    for i in range(3):
        for j in range(3):
            S.d[('this', '_ekf_gsf', k, 'P', (i, j))] = Ps(k, i, j)
    return S


@prop('Y01', 60)
def model_filter(c):
    c.load(*YTU)
    floor_ = lc(Fraction('1e-6'))
    for k in MODELS[c.tier]:
        ranges_()
        # --- prediction
        fl = c.flow(Q + 'predictEKF', args={0: lc(k)}, state=sym_state(k), hooks={'ahrsPredict': lambda fl, f, this, args, S, n: (fl.event('step', 'ahrsPredict', S, fl.num(fl.rvalue(fl.eval(args[0], S), S)), n), F)[1],
                    'shouldUse321RotationSequence': lambda *a: B('use321'), 'getEuler321Yaw': yawof('yaw321'), 'getEuler312Yaw': yawof('yaw312')})
        w = loc(fl.f)
        at = f'model {k}: '
        ev = [e for e in fl.events if e.kind == 'step']
        c.eq('attitude', at + 'the attitude filter runs at every prediction', orpc(ev), T, w)
        once(c, 'attitude', at + 'attitude filter', ev)
        for e in ev:
            c.eq('attitude', at + 'its own attitude filter', e.data, lc(k), evloc(e))
        on = B('this._ekf_gsf_vel_fuse_started')
        Ra = [Rk(k, i, j) for i in range(3) for j in range(3)]
        yaw = ITE(B('use321'), FN('yaw321', *Ra), FN('yaw312', *Ra))
        y1 = dd(fl.peek(fl.S, ('this', '_ekf_gsf', k, 'X', (2, 0)), 'float'))
        c.eq('predict', at + 'yaw of the attitude filter', y1, ITE(on, yaw, X(k, 2)), w)
        p = TRUE.and_(on)
        for u in (True, False):
            q = p.and_(B('use321') if u else NOT(B('use321')))
            y = FN('yaw321' if u else 'yaw312', *Ra)
            cs, sn = FN('cos', y), FN('sin', y)
            dv = [dsum(MUL(Rk(k, i, j), leaf(nm('_delta_vel', (j, 0)))) for j in range(3)) for i in range(3)]
            for i in range(2):
                c.eq('predict', at + f'velocity {i} moves with the measured velocity change', fl.peek(fl.S, ('this', '_ekf_gsf', k, 'X', (i, 0)), 'float'), ADD(X(k, i), dv[i]), w, q)
            # covariance: the body frame velocity change (dx, dy) is turned by the yaw
            dx, dy = ADD(MUL(dv[0], cs), MUL(dv[1], sn)), SUB(MUL(dv[1], cs), MUL(dv[0], sn))
            Fm = [[T, F, NEG(ADD(MUL(cs, dy), MUL(sn, dx)))], [F, T, SUB(MUL(cs, dx), MUL(sn, dy))], [F, F, T]]
            P0 = [[Ps(k, i, j) for j in range(3)] for i in range(3)]
            P1 = mm(mm(Fm, P0), tr(Fm))
            va = sq(MUL(L('this._accel_noise'), L('this._delta_vel_dt')))
            vg = sq(MUL(L('this._gyro_noise'), L('this._delta_ang_dt')))
            for i in range(3):
                P1[i][i] = ADD(P1[i][i], va if i < 2 else vg)
            for i in range(3):
                for j in range(3):
                    want = FN('max', P1[i][i], floor_) if i == j else P1[i][j]
                    eqs(c, 'predict', at + f'covariance ({i},{j})', fl.peek(fl.S, ('this', '_ekf_gsf', k, 'P', (i, j)), 'float'), want, w, q)
        for i in range(3):
            c.eq('predict', at + f'without velocity data state {i} stays', fl.peek(fl.S, ('this', '_ekf_gsf', k, 'X', (i, 0)), 'float'), X(k, i), w, TRUE.and_(NOT(on)))
            for j in range(3):
                c.eq('predict', at + f'without velocity data covariance ({i},{j}) stays', fl.peek(fl.S, ('this', '_ekf_gsf', k, 'P', (i, j)), 'float'), Ps(k, i, j), w, TRUE.and_(NOT(on)))
        only(c, fl, k, 'a prediction', (('_ekf_gsf', 'X'), ('_ekf_gsf', 'P')))
        # --- update
        fl = c.flow(Q + 'updateEKF', args={0: lc(k)}, state=sym_state(k))
        w = loc(fl.f)
        R = sq(FN('max', L('this._vel_accuracy'), lc(Fraction('0.5'))))
        inn = [SUB(X(k, i), leaf(nm('_vel_NE', (i, 0)))) for i in range(2)]
        for i in range(2):
            c.eq('update', at + f'innovation {i}', fl.peek(fl.S, ('this', '_ekf_gsf', k, 'innov', (i, 0)), 'float'), inn[i], w)
        P0 = [[Ps(k, i, j) for j in range(3)] for i in range(3)]
        S00, S11, S01 = ADD(P0[0][0], R), ADD(P0[1][1], R), P0[0][1]
        det = SUB(MUL(S00, S11), MUL(S01, S01))
        okc = cmpdd('>=', FN('abs', det), lc(Fraction('1e-6')))
        ret = tobool(fl.rvalue(fl.v, fl.S))
        c.eq('update', at + 'a badly conditioned update is refused', ret, okc, w)
        p = TRUE.and_(ret)
        n = TRUE.and_(NOT(ret))
        Si = [[DIV(S11, det), NEG(DIV(S01, det))], [NEG(DIV(S01, det)), DIV(S00, det)]]
        c.eq('update', at + 'determinant of the innovation variance', fl.peek(fl.S, ('this', '_ekf_gsf', k, 'S_det_inverse'), 'float'), DIV(T, det), w, p)
        for i in range(2):
            for j in range(2):
                c.eq('update', at + f'inverse innovation variance ({i},{j})', fl.peek(fl.S, ('this', '_ekf_gsf', k, 'S_inverse', (i, j)), 'float'), Si[i][j], w, p)
        PH = [[P0[i][j] for j in range(2)] for i in range(3)]
        K = mm(PH, Si)
        KPH = mm(K, tr(PH))
        for i in range(3):
            for j in range(3):
                x = SUB(P0[i][j], KPH[i][j])
                eqs(c, 'update', at + f'covariance ({i},{j})', fl.peek(fl.S, ('this', '_ekf_gsf', k, 'P', (i, j)), 'float'), FN('max', x, floor_) if i == j else x, w, p)
                c.eq('update', at + f'a refused update keeps the covariance ({i},{j})', fl.peek(fl.S, ('this', '_ekf_gsf', k, 'P', (i, j)), 'float'), P0[i][j], w, n)
        tr_ = dsum(MUL(MUL(inn[i], Si[i][j]), inn[j]) for i in range(2) for j in range(2))
        sc = ITE(cmpdd('>', tr_, lc(25)), FN('sqrt', DIV(lc(25), tr_)), T)
        dx = [MUL(dsum(MUL(K[i][j], inn[j]) for j in range(2)), sc) for i in range(3)]
        for i in range(3):
            c.eq('update', at + f'state {i}: innovations limited to five sigma', fl.peek(fl.S, ('this', '_ekf_gsf', k, 'X', (i, 0)), 'float'), SUB(X(k, i), dx[i]), w, p)
            c.eq('update', at + f'a refused update keeps state {i}', fl.peek(fl.S, ('this', '_ekf_gsf', k, 'X', (i, 0)), 'float'), X(k, i), w, n)
        x2 = dd(fl.peek(fl.S, ('this', '_ekf_gsf', k, 'X', (2, 0)), 'float'))
        d = SUB(x2, X(k, 2))
        cs, sn = FN('cos', d), FN('sin', d)
        for j in range(3):
            c.eq('update', at + f'attitude is turned by the yaw correction (0,{j})', fl.peek(fl.S, ('this', '_ahrs_ekf_gsf', k, 'R', (0, j)), 'float'), SUB(MUL(Rk(k, 0, j), cs), MUL(Rk(k, 1, j), sn)), w, p)
            c.eq('update', at + f'attitude is turned by the yaw correction (1,{j})', fl.peek(fl.S, ('this', '_ahrs_ekf_gsf', k, 'R', (1, j)), 'float'), ADD(MUL(Rk(k, 0, j), sn), MUL(Rk(k, 1, j), cs)), w, p)
            for i in range(3):
                c.eq('update', at + f'attitude ({i},{j}) kept', fl.peek(fl.S, ('this', '_ahrs_ekf_gsf', k, 'R', (i, j)), 'float'), Rk(k, i, j), w, n if i < 2 else TRUE)
        only(c, fl, k, 'an update', (('_ekf_gsf', None), ('_ahrs_ekf_gsf', 'R')))
        # --- density of the innovation
        fl = c.flow(Q + 'gaussianDensity', args={0: lc(k)})
        inn = [ekf(k, 'innov', (i, 0)) for i in range(2)]
        Si = [[ekf(k, 'S_inverse', (i, j)) for j in range(2)] for i in range(2)]
        d = dsum(MUL(MUL(inn[i], Si[i][j]), inn[j]) for i in range(2) for j in range(2))
        want = [MUL(MUL(k2, FN('sqrt', ekf(k, 'S_det_inverse'))), FN('exp', MUL(lc(Fraction(-1, 2)), d))) for k2 in (lc(Fraction('0.15915494')), lc(Fraction('0.159154943')), DIV(T, MUL(lc(2), leaf(V.pi_const()))))]
        got = fl.rvalue(fl.v, fl.S)
        c.eq('weight', at + 'density of a normal distribution at the innovation', got, next((x for x in want if differs(dd(got), x) is None), want[0]), loc(fl.f))
        frame(c, 'frame', at + 'the density', fl, ())


def yawof(n):
    def h(fl, f, this, args, S, nd):
        m = fl.rvalue(fl.eval(args[0], S), S)
        return FN(n, *[dd(m.at(i, j)) for i in range(3) for j in range(3)])
    return h


def only(c, fl, k, what, allowed):
    """only the model's own members listed are written"""
    def ok(p):
        return any(len(p) > 2 and p[1] == a and p[2] == k and (b is None or (len(p) > 3 and p[3] == b)) for a, b in allowed)
    for p in sorted((p for p in fl.S.w if p[0] == 'this' and not ok(p)), key=repr):
        if p not in fl.S.d or (isinstance(p[-1], tuple) and p[-1] and p[-1][0] == '#'):
            continue
        c.eq('frame', f'model {k}: {what} leaves {".".join(str(x) for x in p[1:])} alone', fl.S.d[p], fl.peek(State(), p, fl.symtypes.get(p, '')), loc(fl.f))
    c.ob('frame', f'model {k}: {what} writes its own model only', True, loc(fl.f))


@prop('Y02', 60)
def attitude_filter(c):
    c.load(*YTU)
    # --- gain from the magnitude of the specific force
    ranges_()
    an, tas, tg = L('this._ahrs_accel_norm'), L('this._true_airspeed'), L('this._tilt_gain')
    eps = lc(EPS)
    fast = cmpdd('>', tas, eps)
    fl = c.flow(Q + 'ahrsCalcAccelGain')
    att = ITE(AND(fast, cmpdd('>', an, ONE_G)), T, lc(2))
    dg = DIV(SUB(an, ONE_G), ONE_G)
    off = TRUE        # at the corner both branches are zero
    for a in (1, 2):
        off = off.and_(NOT(cmpdd('==', MUL(lc(a), FN('abs', dg)), T)))
    eqs(c, 'gain', 'tilt correction fades away from 1 g', fl.rvalue(fl.v, fl.S), MUL(tg, sq(SUB(T, FN('min', MUL(att, FN('abs', dg)), T)))), loc(fl.f), off)
    frame(c, 'gain', 'the gain', fl, ())
    for k in MODELS[c.tier]:
        ranges_()
        at = f'model {k}: '
        # --- rotation by a small angle
        g = [L(f'g{i}') for i in range(3)]
        R0 = [[L(f'R{i}{j}') for j in range(3)] for i in range(3)]
        fl = c.flow(Q + 'ahrsPredictRotMat', args={0: Mat(3, 3, [x for r in R0 for x in r], 'Matrix3'), 1: Mat(3, 1, g, 'Vector3')})
        m = fl.rvalue(fl.v, fl.S)
        for i in range(3):
            row = [ADD(R0[i][j], cross(R0[i], g)[j]) for j in range(3)]
            n2 = dsum(sq(x) for x in row)
            sc = ITE(cmpdd('>', n2, eps), SUB(lc(Fraction(3, 2)), MUL(lc(Fraction(1, 2)), n2)), T)
            for j in range(3):
                if k == 0:
                    c.eq('rotation', f'rotation by a small angle ({i},{j})', m.at(i, j), MUL(row[j], sc), loc(fl.f))
        # --- prediction of one attitude filter
        calls = []

        def turn(fl, f, this, args, S, n):
            m, v = (fl.rvalue(fl.eval(a, S), S) for a in args)
            calls.append((m, v, S.pc))
            return Mat(3, 3, [L(f'turned{i}{j}') for i in range(3) for j in range(3)], 'Matrix3')
        fl = c.flow(Q + 'ahrsPredict', args={0: lc(k)}, hooks={'ahrsPredictRotMat': turn})
        w = loc(fl.f)
        gain = L('this._ahrs_accel_fusion_gain')
        da, acc = v3('_delta_ang'), v3('_ahrs_accel')
        b0 = [bias(k, i) for i in range(3)]
        dt = L('this._delta_ang_dt')
        om = [SUB(DIV(x, FN('max', dt, lc(Fraction('0.001')))), y) for x, y in zip(da, b0)]
        down = [Rk(k, 2, j) for j in range(3)]
        a2 = [acc[0], SUB(acc[1], ITE(fast, MUL(tas, om[2]), F)), ADD(acc[2], ITE(fast, MUL(tas, om[1]), F))]
        on = cmpdd('>', gain, F)
        tc = [ITE(on, DIV(MUL(x, gain), an), F) for x in cross(down, a2)]
        slow = cmpdd('<', norm(om), lc(Fraction('0.175')))
        lim = lc(Fraction('0.05'))
        nb = []
        for i in range(3):
            x = SUB(b0[i], MUL(tc[i], MUL(L('this._gyro_bias_gain'), dt)))
            nb.append(ITE(slow, clamp(x, NEG(lim), lim), b0[i]))
            eqs(c, 'bias', at + f'gyro bias {i} is learned at low rates, within its limit', fl.peek(fl.S, ('this', '_ahrs_ekf_gsf', k, 'gyro_bias', (i, 0)), 'float'), nb[i], w)
        c.ob('attitude', at + 'one rotation', len(calls) == 1, w)
        for m, v, pc in calls:
            c.eq('attitude', at + 'rotated at every prediction', conj(pc), T, w)
            for i in range(3):
                got = dd(fl.peek(fl.S, ('this', '_ahrs_ekf_gsf', k, 'gyro_bias', (i, 0)), 'float'))
                eqs(c, 'attitude', at + f'measured rotation less the bias plus the tilt correction {i}', v.at(i, 0), ADD(da[i], MUL(SUB(tc[i], got), dt)), w)
                for j in range(3):
                    c.eq('attitude', at + f'its own attitude is rotated ({i},{j})', m.at(i, j), Rk(k, i, j), w)
        for i in range(3):
            for j in range(3):
                c.eq('attitude', at + f'rotated attitude is kept ({i},{j})', fl.peek(fl.S, ('this', '_ahrs_ekf_gsf', k, 'R', (i, j)), 'float'), L(f'turned{i}{j}'), w)
        only(c, fl, k, 'a prediction', (('_ahrs_ekf_gsf', 'R'), ('_ahrs_ekf_gsf', 'gyro_bias')))
    # --- alignment with gravity: rows are north, east and down in body axes, yaw is zero
    ranges_()
    fl = c.flow(Q + 'ahrsAlignTilt')
    w = loc(fl.f)
    dv = v3('_delta_vel')
    n_ = norm(dv)
    down = [NEG(DIV(x, n_)) for x in dv]
    nr = [SUB(T, MUL(down[0], down[0])), NEG(MUL(down[1], down[0])), NEG(MUL(down[2], down[0]))]
    nn = norm(nr)
    north = [DIV(x, nn) for x in nr]
    east = cross(down, north)
    for k in range(N):
        for i, row in enumerate((north, east, down)):
            for j in range(3):
                c.eq('tilt', f'model {k}: attitude from the specific force ({i},{j})', fl.peek(fl.S, ('this', '_ahrs_ekf_gsf', k, 'R', (i, j)), 'float'), row[j], w)
    inside(c, fl, 'tilt alignment')
    frame(c, 'frame', 'tilt alignment', fl, ('_ahrs_ekf_gsf',))
    # --- alignment with the start yaws
    def setyaw(fl, f, this, args, S, n):
        y = dd(fl.num(fl.rvalue(fl.eval(args[0], S), S)))
        m = fl.rvalue(fl.eval(args[1], S), S)
        es = [dd(m.at(i, j)) for i in range(3) for j in range(3)]
        return Mat(3, 3, [FN(f'yawed{i}{j}', y, *es) for i in range(3) for j in range(3)], 'Dcm')
    for k in range(N):
        V.TYPE_IV[FL.pname(('this', '_ekf_gsf', k, 'X', (2, 0)))] = (-3.14159, 3.14159)
    fl = c.flow(Q + 'ahrsAlignYaw', hooks={'updateYawInRotMat': setyaw})
    w = loc(fl.f)
    for k in range(N):
        es = [Rk(k, i, j) for i in range(3) for j in range(3)]
        for i in range(3):
            for j in range(3):
                c.eq('yaw', f'model {k}: attitude takes over its start yaw ({i},{j})', fl.peek(fl.S, ('this', '_ahrs_ekf_gsf', k, 'R', (i, j)), 'float'), FN(f'yawed{i}{j}', X(k, 2), *es), w)
    inside(c, fl, 'yaw alignment')
    frame(c, 'frame', 'yaw alignment', fl, ('_ahrs_ekf_gsf',))


@prop('Y03', 100)
def gaussian_sum(c):
    c.load(*YTU)
    ranges_()
    # --- a new estimator
    fl = c.flow(Q + 'EKFGSF_yaw')
    w = loc(fl.f)
    for m in ('_ahrs_ekf_gsf_tilt_aligned', '_ekf_gsf_vel_fuse_started', '_vel_data_updated'):
        c.eq('new', m + ' is clear', tobool(mem(fl, m, t='bool')), F, w)
    for m in ('_gsf_yaw', '_gsf_yaw_variance', '_vel_accuracy', '_true_airspeed', '_ahrs_accel_norm'):
        c.eq('new', m, mem(fl, m), F, w)
    for i in range(3):
        c.eq('new', f'specific force {i}', mem(fl, '_ahrs_accel', (i, 0)), F, w)
    for k in range(N):
        for i in range(3):
            c.eq('new', f'model {k}: gyro bias {i}', fl.peek(fl.S, ('this', '_ahrs_ekf_gsf', k, 'gyro_bias', (i, 0)), 'float'), F, w)
            c.eq('new', f'model {k}: state {i}', fl.peek(fl.S, ('this', '_ekf_gsf', k, 'X', (i, 0)), 'float'), F, w)
        for i in range(2):
            c.eq('new', f'model {k}: innovation {i}', fl.peek(fl.S, ('this', '_ekf_gsf', k, 'innov', (i, 0)), 'float'), F, w)
        c.eq('new', f'model {k}: weight', fl.peek(fl.S, ('this', '_model_weights', (k, 0)), 'float'), F, w)
    inside(c, fl, 'a new estimator')
    # --- start values
    fl = c.flow(Q + 'initialiseEKFGSF')
    w = loc(fl.f)
    va = sq(L('this._vel_accuracy'))
    pi, inc = leaf(V.pi_const()), DIV(MUL(lc(2), leaf(V.pi_const())), lc(N))
    g = lambda k, *p: fl.peek(fl.S, ('this', '_ekf_gsf', k) + p, 'float')
    for k in range(N):
        for i in range(3):
            want = leaf(nm('_vel_NE', (i, 0))) if i < 2 else ADD(NEG(pi), MUL(inc, lc(Fraction(2 * k + 1, 2))))
            c.eq('start', f'model {k}: state {i}', g(k, 'X', (i, 0)), want, w, same=near)
            for j in range(3):
                want = F if i != j else va if i < 2 else sq(DIV(inc, lc(2)))
                c.eq('start', f'model {k}: covariance ({i},{j})', g(k, 'P', (i, j)), want, w, same=near)
        c.eq('start', f'model {k}: weight', fl.peek(fl.S, ('this', '_model_weights', (k, 0)), 'float'), lc(Fraction(1, N)), w, same=near)
    c.eq('start', 'no velocity has been used', tobool(mem(fl, '_ekf_gsf_vel_fuse_started', t='bool')), F, w)
    c.eq('start', 'composite variance', mem(fl, '_gsf_yaw_variance'), sq(DIV(pi, lc(2))), w, same=near)
    inside(c, fl, 'the start')
    frame(c, 'start', 'the start', fl, ('_ekf_gsf', '_model_weights', '_ekf_gsf_vel_fuse_started', '_gsf_yaw_variance', '_gsf_yaw'))
    # --- one update
    dens = {}

    def step(nm_):
        def h(fl, f, this, args, S, n):
            k = int(leaves(fl.num(fl.rvalue(fl.eval(args[0], S), S)))[0].aux) if args else None
            wts = [dd(fl.peek(S, ('this', '_model_weights', (i, 0)), 'float')) for i in range(N)]
            st_ = {m: dd(fl.peek(S, ('this', m), 'float')) for m in ('_ahrs_accel_fusion_gain', '_ahrs_accel_norm', '_true_airspeed', '_delta_vel_dt', '_delta_ang_dt')}
            st_.update({i: dd(fl.peek(S, ('this', '_ekf_gsf', i, 'X', (2, 0)), 'float')) for i in range(N)})
            ini = tobool(fl.peek(S, ('this', '_ekf_gsf_vel_fuse_started'), 'bool'))
            fl.event('step', nm_, S, (k, wts, st_, ini), n)
            if nm_ == 'predictEKF':
                fl.setp(S, ('this', '_ekf_gsf', k, 'X', (2, 0)), L(f'yaw predicted {k}'))
            if nm_ == 'updateEKF':
                fl.setp(S, ('this', '_ekf_gsf', k, 'X', (2, 0)), L(f'yaw updated {k}'))
                fl.setp(S, ('this', '_ekf_gsf', k, 'P', (2, 2)), L(f'var updated {k}'))
                return B(f'updated {k}')
            if nm_ == 'gaussianDensity':
                return L(f'density {k}')
            if nm_ == 'initialiseEKFGSF':
                for i in range(N):
                    fl.setp(S, ('this', '_model_weights', (i, 0)), L(f'start weight {i}'))
                    fl.setp(S, ('this', '_ekf_gsf', i, 'X', (2, 0)), L(f'start yaw {i}'))
                    fl.setp(S, ('this', '_ekf_gsf', i, 'P', (2, 2)), L(f'start var {i}'))
                fl.setp(S, ('this', '_ekf_gsf_vel_fuse_started'), F)
            if nm_ == 'ahrsCalcAccelGain':
                return L('gain')
            return F
        return h
    STEPS = ('predictEKF', 'updateEKF', 'gaussianDensity', 'initialiseEKFGSF', 'ahrsAlignTilt', 'ahrsAlignYaw', 'ahrsCalcAccelGain')
    for k in range(N):
        V.TYPE_IV[f'density {k}'] = (0.0, 1e9)
        V.TYPE_IV[FL.pname(('this', '_model_weights', (k, 0)))] = (0.0, 1.0)
        for a in ('predicted', 'updated'):
            V.TYPE_IV[f'yaw {a} {k}'] = (-3.2, 3.2)
    fl = c.flow(Q + 'update', hooks={n: step(n) for n in STEPS})
    w = loc(fl.f)
    by = {n: [e for e in fl.events if e.kind == 'step' and e.name == n] for n in STEPS}
    run, fresh, on, tilt = B('arg1'), B('this._vel_data_updated'), B('this._ekf_gsf_vel_fuse_started'), B('this._ahrs_ekf_gsf_tilt_aligned')
    # inputs
    dvt = L('arg0.delta_vel_dt')
    for m in ('delta_ang', 'delta_vel'):
        for i in range(3):
            c.eq('input', f'{m} {i}', mem(fl, '_' + m, (i, 0)), L(f'arg0.{m}[{i}]'), w)
        c.eq('input', f'{m}_dt', mem(fl, f'_{m}_dt'), L(f'arg0.{m}_dt'), w)
    c.eq('input', 'airspeed', mem(fl, '_true_airspeed'), L('arg2'), w)
    V.TYPE_IV['arg0.delta_vel_dt'] = (0.0, 1.0)
    fc = FN('min', MUL(MUL(lc(10), dvt), L('this._tilt_gain')), T)
    af = []
    for i in range(3):
        a = DIV(L(f'arg0.delta_vel[{i}]'), FN('max', dvt, lc(Fraction('0.001'))))
        x = ADD(MUL(leaf(nm('_ahrs_accel', (i, 0))), SUB(T, fc)), MUL(a, fc))
        eqs(c, 'input', f'specific force is filtered {i}', mem(fl, '_ahrs_accel', (i, 0)), x, w)
        af.append(a)
    a2 = dsum(sq(x) for x in af)
    calm = AND(cmpdd('>', a2, sq(MUL(ONE_G, lc(Fraction('0.9'))))), cmpdd('<', a2, sq(MUL(ONE_G, lc(Fraction('1.1'))))))
    algn = AND(NOT(tilt), calm)
    c.eq('align', 'the tilt is aligned from a calm specific force, once', tobool(mem(fl, '_ahrs_ekf_gsf_tilt_aligned', t='bool')), OR(tilt, algn), w)
    c.eq('align', 'tilt alignment', orpc(by['ahrsAlignTilt']), algn, w)
    # predictions
    for k in range(N):
        ev = [e for e in by['predictEKF'] if e.data[0] == k]
        c.eq('predict', f'model {k} is predicted whenever the tilt is known', orpc(ev), tilt, w)
        once(c, 'predict', f'model {k}', ev)
        for e in ev:
            c.eq('predict', f'model {k}: with the current gain', e.data[2]['_ahrs_accel_fusion_gain'], L('gain'), evloc(e), e.pc)
            c.eq('predict', f'model {k}: with the current airspeed', e.data[2]['_true_airspeed'], L('arg2'), evloc(e), e.pc)
    for e in by['ahrsCalcAccelGain']:
        eqs(c, 'predict', 'gain from the current specific force', e.data[2]['_ahrs_accel_norm'], norm([dd(mem(fl, '_ahrs_accel', (i, 0))) for i in range(3)]), evloc(e), e.pc)
    use = AND(tilt, AND(run, fresh))
    begin = AND(use, NOT(on))
    upd = AND(use, on)
    # first velocity
    c.eq('align', 'yaw alignment with the first velocity', orpc(by['ahrsAlignYaw']), begin, w)
    for e in by['ahrsAlignYaw']:
        for k in range(N):
            c.eq('align', f'model {k}: with its start yaw', e.data[2][k], L(f'start yaw {k}'), evloc(e), e.pc)
    # updates
    ok = T
    for k in range(N):
        ev = [e for e in by['updateEKF'] if e.data[0] == k]
        c.eq('update', f'model {k} uses every new velocity once started', orpc(ev), upd, w)
        once(c, 'update', f'model {k}', ev)
        ok = AND(ok, B(f'updated {k}'))
    good = AND(upd, ok)
    mn = lc(Fraction('1e-5'))
    w0 = [leaf(nm('_model_weights', (k, 0))) for k in range(N)]
    raw = [MUL(L(f'density {k}'), w0[k]) for k in range(N)]
    small = [cmpdd('<', x, mn) for x in raw]
    wt = [ITE(small[k], mn, raw[k]) for k in range(N)]
    lost = AND(good, AND(*[AND(small[0], small[1]), AND(AND(small[2], small[3]), small[4])]))
    tot = dsum(wt)
    restart = OR(OR(algn, begin), lost)
    c.eq('restart', 'all models restart on alignment, the first velocity and when all weights are lost', orpc(by['initialiseEKFGSF']), restart, w)
    gotw = [dd(fl.peek(fl.S, ('this', '_model_weights', (k, 0)), 'float')) for k in range(N)]
    for k in range(N):
        c.eq('weight', f'model {k}: weight by the density of its innovation, at least the minimum, of all', gotw[k], ITE_(restart, L(f'start weight {k}'), good, DIV(wt[k], tot), w0[k]), w)
        for i in range(3):
            c.eq('align', f'model {k}: gyro bias {i} of the main filter is taken over with the first velocity', fl.peek(fl.S, ('this', '_ahrs_ekf_gsf', k, 'gyro_bias', (i, 0)), 'float'), ITE(begin, L(f'arg3[{i}]'), bias(k, i)), w)
    fus = ITE_(NOT(tilt), AND(on, NOT(algn)), use, NOT(lost), AND(on, run))
    c.eq('restart', 'velocity is in use from the first one until movement ends', tobool(mem(fl, '_ekf_gsf_vel_fuse_started', t='bool')), fus, w)
    c.eq('update', 'a velocity is used once', tobool(mem(fl, '_vel_data_updated', t='bool')), AND(fresh, NOT(tilt)), w)
    # composite, for every way the models can have got their states
    yaw = lambda k: dd(fl.peek(fl.S, ('this', '_ekf_gsf', k, 'X', (2, 0)), 'float'))
    p22 = lambda k: dd(fl.peek(fl.S, ('this', '_ekf_gsf', k, 'P', (2, 2)), 'float'))
    for what, pc in (('velocity used', TRUE.and_(AND(good, NOT(lost)))), ('update refused', TRUE.and_(AND(upd, NOT(ok)))), ('restart', TRUE.and_(AND(restart, tilt))), ('prediction only', TRUE.and_(AND(tilt, NOT(use))))):
        y = [pc.simp(yaw(k)) for k in range(N)]
        ww = [pc.simp(gotw[k]) for k in range(N)]
        pv = [pc.simp(p22(k)) for k in range(N)]
        sy, cy = dsum(MUL(ww[k], FN('sin', y[k])) for k in range(N)), dsum(MUL(ww[k], FN('cos', y[k])) for k in range(N))
        got = dd(mem(fl, '_gsf_yaw'))
        c.eq('composite', f'{what}: yaw of the weighted sum of directions', got, FN('atan2', sy, cy), w, pc)
        gy = pc.simp(got)
        var = dsum(MUL(ww[k], ADD(pv[k], sq(FN('wrap_pi', SUB(y[k], gy))))) for k in range(N))
        c.eq('composite', f'{what}: variance with the spread of the models', mem(fl, '_gsf_yaw_variance'), var, w, pc)
    for m in ('_gsf_yaw', '_gsf_yaw_variance'):
        c.eq('composite', f'{m} stays while the tilt is unknown', mem(fl, m), L('this.' + m), w, TRUE.and_(NOT(tilt)))
    inside(c, fl, 'an update')
    frame(c, 'frame', 'an update', fl, ('_delta_ang', '_delta_vel', '_delta_ang_dt', '_delta_vel_dt', '_run_ekf_gsf', '_true_airspeed', '_ahrs_accel', '_ahrs_accel_norm', '_ahrs_accel_fusion_gain', '_ekf_gsf', '_ahrs_ekf_gsf',
                                        '_ahrs_ekf_gsf_tilt_aligned', '_model_weights', '_ekf_gsf_vel_fuse_started', '_vel_data_updated', '_gsf_yaw', '_gsf_yaw_variance'))
    # --- reports
    fl = c.flow(Q + 'getYawData')
    w = loc(fl.f)
    c.eq('report', 'there is a yaw while velocity is in use', tobool(fl.rvalue(fl.v, fl.S)), on, w)
    for i, m in enumerate(('_gsf_yaw', '_gsf_yaw_variance')):
        c.eq('report', m, fl.peek(fl.S, (('arg', i),), 'float'), ITE(on, L('this.' + m), L(f'arg{i}')), w)
    frame(c, 'report', 'the report', fl, ())
    fl = c.flow(Q + 'getLogData')
    w = loc(fl.f)
    c.eq('report', 'there is a log while velocity is in use', tobool(fl.rvalue(fl.v, fl.S)), on, w)
    p = TRUE.and_(on)
    for i, m in enumerate(('_gsf_yaw', '_gsf_yaw_variance')):
        c.eq('report', 'log ' + m, fl.peek(fl.S, (('arg', i),), 'float'), L('this.' + m), w, p)
    for k in range(N):
        for i, x in ((2, X(k, 2)), (3, ekf(k, 'innov', (0, 0))), (4, ekf(k, 'innov', (1, 0))), (5, w0[k])):
            c.eq('report', f'log of model {k}: value {i}', fl.peek(fl.S, (('arg', i), k), 'float'), x, w, p)
    fl = c.flow(Q + 'setVelocity')
    w = loc(fl.f)
    for i in range(2):
        c.eq('input', f'velocity {i}', mem(fl, '_vel_NE', (i, 0)), L(f'arg0[{i}]'), w)
    c.eq('input', 'its accuracy', mem(fl, '_vel_accuracy'), L('arg1'), w)
    c.holds('input', 'is new', mem(fl, '_vel_data_updated', t='bool'), w)


def inside(c, fl, what):
    """no model beyond the bank is written"""
    bad = sorted((p for p in fl.S.w if len(p) > 2 and p[0] == 'this' and p[1] in ('_ekf_gsf', '_ahrs_ekf_gsf', '_model_weights')
                  and ((p[2][0] if isinstance(p[2], tuple) and p[2] and isinstance(p[2][0], int) else p[2] if isinstance(p[2], int) else 0) >= N)), key=repr)
    c.ob('frame', f'{what} stays within the bank of models', not bad, loc(fl.f))


def near(x, y):
    """constants with pi written to different lengths"""
    if same_leaf(x, y):
        return True
    a, b = interval(x), interval(y)
    return all(abs(p) < 1e3 for p in a + b) and max(abs(a[0] - b[1]), abs(a[1] - b[0])) < 1e-5 * max(1e-3, abs(a[0]))


near.key = 'near'
