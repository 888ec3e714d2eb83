"""Measurement updates: gains, consistency gates, confinement, bookkeeping."""
from vfa.harness import *
from vfa.flow import LV
from .p_parts import L, B, s, mem, tsyms, total, quat_mul
from .p_sensors import frame
from .p_ekf import ALL_TU, st, me, eqs, clamp, orpc, callsof, once, mv
from .p_reset import same_p, uncor, both, cflag, RTU, Psym, pget
from .p_yaw import sq, flags_are, events_are, T01, EPS, YawIn
from .p_cov import dsum, P0_, QN, salted
from .p_parts import quat_dcm

STATES = [('quat_nominal', i) for i in range(4)] + [(g, i) for g in ('vel', 'pos', 'delta_ang_bias', 'delta_vel_bias', 'mag_I', 'mag_B') for i in range(3)] + [('wind_vel', i) for i in range(2)]
ONE_ = T
FTU = list(RTU) + ['EKF/airspeed_fusion.cpp', 'EKF/sideslip_fusion.cpp', 'EKF/drag_fusion.cpp', 'EKF/mag_fusion.cpp', 'EKF/optflow_fusion.cpp', 'EKF/gps_yaw_fusion.cpp', 'EKF/vel_pos_fusion.cpp', 'EKF/utils.cpp']
FTU = list(dict.fromkeys(FTU))


def arr(name, n=24):
    return [leaf(s(FL.pname((name, (i, 0))))) for i in range(n)]


def vec(fl, ev, path, n=24):
    return [dd(fl.peek(ev.state, path + ((i, 0),), 'float')) for i in range(n)]


def argmat(ev, k, n):
    a = ev.data['args'][k]
    return [dd(a.at(i, 0)) for i in range(n)]


UPD = {'checkAndFixCovarianceUpdate', 'fixCovarianceErrors', 'fuse'}


def veq(c, rule, what, got, want, w, pc=TRUE):
    for i, (g, x) in enumerate(zip(got, want)):
        c.eq(rule, f'{what} {i}', g, x, w, pc)


def discipline(c, fl, what, K, H, innov, run=T):
    """covariance guard, covariance update, limits, state update, in this order and each once; nothing when the guard objects"""
    w = loc(fl.f)
    ev = callsof(c, fl, *UPD)
    g, fx, fu = ev['checkAndFixCovarianceUpdate'], ev['fixCovarianceErrors'], ev['fuse']
    for n, e in (('guard', g), ('limits', fx), ('state update', fu)):
        once(c, 'order', f'{what}: {n}', e)
    KHP = [[MUL(K[i], dsum([MUL(h, leaf(Psym(k, j))) for k, h in H.items()])) for j in range(24)] for i in range(24)]
    ok = B('ret:checkAndFixCovarianceUpdate#0')
    c.eq('order', f'{what}: every update passes the guard', orpc(g), run, w)
    c.eq('order', f'{what}: limits applied exactly when the guard agrees', orpc(fx), AND(run, ok), w)
    c.eq('order', f'{what}: states corrected exactly when the guard agrees', orpc(fu), AND(run, ok), w)
    for e in g:
        a = e.data['args'][0]
        for i in range(24):
            bad = next((j for j in range(24) if differs(dd(a.at(i, j)), KHP[i][j], e.pc) is not None), None)
            c.ob('guard', f'{what}: guard sees the reduction of covariance row {i}', bad is None, evloc(e), lambda: f'column {bad}: {showdd(dd(a.at(i, bad)))[:300]} instead of {showdd(KHP[i][bad])[:300]}')
    for e in fx:
        for i in range(24):
            bad = next((j for j in range(24) if differs(dd(fl.peek(e.state, ('this', 'P', (i, j)), 'float')), SUB(leaf(Psym(i, j)), KHP[i][j]), e.pc) is not None), None)
            c.ob('covariance', f'{what}: covariance row {i} reduced by K H P before the limits', bad is None, evloc(e), lambda: f'column {bad}')
        c.eq('covariance', f'{what}: symmetry restored', tobool(dd(e.data['args'][0])), T, evloc(e), e.pc)
    for e in fu:
        a = e.data['args'][0]
        k = [dd(a.at(i, 0)) for i in range(24)] if isinstance(a, Mat) else vec(fl, e, e.data['lv'][0].path)
        veq(c, 'state', f'{what}: gain', k, K, evloc(e), e.pc)
        c.eq('state', f'{what}: innovation', dd(e.data['args'][1]), innov, evloc(e), e.pc)
    if g and fx and fu:
        n = [fl.events.index(x[0]) for x in (g, fx, fu)]
        c.ob('order', f'{what}: guard, limits, state update in this order', n == sorted(n), w)
    return ok


@prop('F04', 300)
def update(c):
    c.load(*FTU)
    V.TYPE_IV.clear()
    # --- state correction
    fl = c.flow('Ekf::fuse')
    w = loc(fl.f)
    K, inn = arr('arg0'), L('arg1')
    new = [SUB(leaf(st(g, i)), MUL(K[k], inn)) for k, (g, i) in enumerate(STATES)]
    for k, (g, i) in enumerate(STATES[4:]):
        c.eq('state', f'{g}[{i}] corrected by gain times innovation', mem(fl, '_state', g, (i, 0)), new[4 + k], w)
    n = FN('sqrt', dsum([sq(x) for x in new[:4]]))
    got = [dd(mem(fl, '_state', 'quat_nominal', (i, 0))) for i in range(4)]
    for i in range(4):
        c.eq('state', f'attitude quaternion element {i} corrected, then normalised', got[i], DIV(new[i], n), w)
    frame(c, 'frame', 'state correction', fl, ('_state',))

    # --- generic measurement update, every instance
    fs = c.prog.by_qual.get('Ekf::measurementUpdate', [])
    c.need(len(fs) >= 5, 'instances of measurementUpdate not found')
    for f in fs:
        ix = FL.sparse_idx(f.params[1][2], '')
        c.need(ix, 'populated indices of an instance of measurementUpdate unknown')
        fl = c.flow('Ekf::measurementUpdate', f=f, opaque=UPD, nomod=UPD)
        inh = [B(f'this._accel_bias_inhibit[{k}]') for k in range(3)]
        K = [ITE(inh[i - 13], F, x) if 13 <= i <= 15 else x for i, x in enumerate(arr('arg0'))]
        H = {k: leaf(s(FL.pname(('arg1', (k, 0))))) for k in ix}
        what = f'measurement of states {",".join(map(str, ix))}'
        ok = discipline(c, fl, what, K, H, L('arg2'))
        c.eq('order', f'{what}: reported as fused exactly when applied', tobool(fl.rvalue(fl.v, fl.S)), ok, loc(fl.f))
        frame(c, 'frame', what, fl, ('P',))

    # --- direct observations of velocity and position
    FA = ('bad_vel_N', 'bad_vel_E', 'bad_vel_D', 'bad_pos_N', 'bad_pos_E', 'bad_pos_D')
    for k in range(6):
        OP = {'fixCovarianceErrors', 'fuse'}
        with_ = c.flow('Ekf::fuseVelPosHeight', args={2: lc(k)}, opaque=OP, nomod=OP)
        fl = with_
        w = loc(fl.f)
        what = f'direct observation of state {k + 4}'
        var, inn = L('arg1'), L('arg0')
        ix = k + 4
        K = [DIV(leaf(Psym(i, ix)), var) for i in range(24)]
        bad = [cmpdd('<', leaf(Psym(i, i)), MUL(K[i], leaf(Psym(ix, i)))) for i in range(24)]
        ok = T
        for b in bad:
            ok = AND(ok, NOT(b))
        same_p(c, 'covariance', what, fl, lambda i, j: ITE(ok, SUB(leaf(Psym(i, j)), MUL(K[i], leaf(Psym(ix, j)))), ITE(OR(bad[i], bad[j]), F, leaf(Psym(i, j)))))
        flags_are(c, 'fault', what, fl, {FA[k]: NOT(ok)}, which='_fault_status')
        ev = callsof(c, fl, *OP)
        for nme, e in ev.items():
            once(c, 'order', f'{what}: {nme}', e)
            c.eq('order', f'{what}: {nme} exactly when no variance gets negative', orpc(e), ok, w)
        for e in ev['fuse']:
            a = e.data['args'][0]
            kk = [dd(a.at(i, 0)) for i in range(24)] if isinstance(a, Mat) else vec(fl, e, e.data['lv'][0].path)
            veq(c, 'state', f'{what}: gain', kk, K, evloc(e), e.pc)
            c.eq('state', f'{what}: innovation', dd(e.data['args'][1]), inn, evloc(e), e.pc)
        for e in ev['fixCovarianceErrors']:
            c.eq('covariance', f'{what}: symmetry restored', tobool(dd(e.data['args'][0])), T, evloc(e), e.pc)
            b2 = next(((i, j) for i in range(24) for j in range(24) if differs(dd(fl.peek(e.state, ('this', 'P', (i, j)), 'float')), pget(fl, i, j), e.pc) is not None), None)
            c.ob('covariance', f'{what}: limits applied after the reduction', b2 is None, evloc(e), str(b2))
        if ev['fuse'] and ev['fixCovarianceErrors']:
            c.ob('order', f'{what}: limits before the state correction', fl.events.index(ev['fixCovarianceErrors'][0]) < fl.events.index(ev['fuse'][0]), w)
        frame(c, 'frame', what, fl, ('P', '_fault_status'))

    # --- consistency gates of velocity and position
    OP = {'fuseVelPosHeight'}
    now = L('this._time_last_imu')
    inn, ov = arr('arg0', 3), arr('arg2', 3)
    g0, g1 = L('gate0'), L('gate1')
    badacc = B('this._bad_vert_accel_detected')

    def fused(fl, what, want):
        """observations handed to the update: index -> (innovation, variance, condition)"""
        ev = callsof(c, fl, *OP)['fuseVelPosHeight']
        by = {}
        for e in ev:
            k = dd(e.data['args'][2])
            k = next((i for i in range(6) if differs(k, lc(i), e.pc) is None), None)
            c.ob('gate', f'{what}: observation index is constant', k is not None, evloc(e))
            by.setdefault(k, []).append(e)
        for k in sorted(set(by) | set(want), key=str):
            es = by.get(k, [])
            once(c, 'gate', f'{what}: observation {k}', es)
            if k not in want:
                c.never('gate', f'{what}: observation {k} is not updated here', orpc(es), loc(fl.f))
                continue
            i, v, cond = want[k]
            c.eq('gate', f'{what}: observation {k} used exactly when it passes', orpc(es), cond, loc(fl.f))
            for e in es:
                eqs(c, 'gate', f'{what}: observation {k} innovation', dd(e.data['args'][0]), i, evloc(e), e.pc)
                c.eq('gate', f'{what}: observation {k} innovation variance', dd(e.data['args'][1]), v, evloc(e), e.pc)

    def ratio(i, g, v):
        return DIV(sq(i), MUL(sq(g), v))
    V.TYPE_IV['gate0'] = V.TYPE_IV['gate1'] = (0.0, math.inf)     # gates are in standard deviations, never negative

    def gates():
        S = State()
        for i, g in enumerate((g0, g1)):
            S.d[(('arg', 1), (i, 0))] = g
        return S
    for name, first, time in (('fuseHorizontalVelocity', 4, '_time_last_hor_vel_fuse'), ('fuseHorizontalPosition', 7, None)):
        pos = time is None
        fl = c.flow('Ekf::' + name, opaque=OP, nomod=OP, state=gates())
        w = loc(fl.f)
        var = [ADD(leaf(Psym(first + i, first + i)), ov[i]) for i in range(2)]
        r = FN('max', ratio(inn[0], g0, var[0]), ratio(inn[1], g0, var[1]))
        okk = cmpdd('<=', r, T)
        free = B('arg5') if pos else F
        wild = AND(free, cmpdd('>', r, sq(DIV(lc(100), g0)))) if pos else F
        use = AND(OR(okk, free), NOT(wild))
        for i in range(2):
            c.eq('gate', f'{name}: innovation variance {i}', fl.peek(fl.S, (('arg', 3), (i, 0)), 'float'), var[i], w)
        c.eq('gate', f'{name}: other innovation variance untouched', fl.peek(fl.S, (('arg', 3), (2, 0)), 'float'), L('arg3[2]'), w)
        eqs(c, 'gate', f'{name}: test ratio is the larger of both axes', fl.peek(fl.S, (('arg', 4), (0, 0)), 'float'), r, w)
        c.eq('gate', f'{name}: other test ratio untouched', fl.peek(fl.S, (('arg', 4), (1, 0)), 'float'), L('arg4[1]'), w)
        fused(fl, name, {3 * pos: (inn[0], var[0], use), 3 * pos + 1: (inn[1], var[1], use)})
        c.eq('gate', f'{name}: reported as passed exactly when used', tobool(fl.rvalue(fl.v, fl.S)), use, w)
        rf = 'reject_hor_pos' if pos else 'reject_hor_vel'
        flags_are(c, 'report', name, fl, {rf: ITE(wild, B(f'this._innov_check_fail_status.flags.{rf}'), NOT(use))}, which='_innov_check_fail_status')
        if pos:
            odom = B('this._fuse_hpos_as_odom')
            c.eq('report', 'time of the last absolute position', mem(fl, '_time_last_hor_pos_fuse', t='uint64_t'), ITE(AND(use, NOT(odom)), now, L('this._time_last_hor_pos_fuse')), w)
            c.eq('report', 'time of the last relative position', mem(fl, '_time_last_delpos_fuse', t='uint64_t'), ITE(AND(use, odom), now, L('this._time_last_delpos_fuse')), w)
            frame(c, 'frame', name, fl, ('_time_last_hor_pos_fuse', '_time_last_delpos_fuse', '_innov_check_fail_status'))
        else:
            c.eq('report', 'time of the last horizontal velocity', mem(fl, time, t='uint64_t'), ITE(use, now, L(f'this.{time}')), w)
            for i in range(2):
                c.eq('report', f'last rejected horizontal velocity innovation {i}', mem(fl, '_last_fail_hvel_innov', (i, 0)), ITE(use, L(f'this._last_fail_hvel_innov[{i}]'), inn[i]), w)
            frame(c, 'frame', name, fl, (time, '_last_fail_hvel_innov', '_innov_check_fail_status'))
    for name, ix, k, time, rf, rat, att in (('fuseVerticalVelocity', 6, 2, '_time_last_ver_vel_fuse', 'reject_ver_vel', '_vert_vel_innov_ratio', '_vert_vel_fuse_time_us'),
                                            ('fuseVerticalPosition', 9, 5, '_time_last_hgt_fuse', 'reject_ver_pos', '_vert_pos_innov_ratio', '_vert_pos_fuse_attempt_time_us')):
        fl = c.flow('Ekf::' + name, opaque=OP, nomod=OP, state=gates())
        w = loc(fl.f)
        var = ADD(leaf(Psym(ix, ix)), ov[2])
        r = ratio(inn[2], g1, var)
        okk = cmpdd('<=', r, T)
        use = OR(okk, badacc)
        lim = MUL(g1, FN('sqrt', var))
        i_ = ITE(okk, inn[2], clamp(inn[2], NEG(lim), lim))
        c.eq('gate', f'{name}: innovation variance', fl.peek(fl.S, (('arg', 3), (2, 0)), 'float'), var, w)
        for i in range(2):
            c.eq('gate', f'{name}: other innovation variance {i} untouched', fl.peek(fl.S, (('arg', 3), (i, 0)), 'float'), L(f'arg3[{i}]'), w)
        c.eq('gate', f'{name}: test ratio', fl.peek(fl.S, (('arg', 4), (1, 0)), 'float'), r, w)
        c.eq('gate', f'{name}: other test ratio untouched', fl.peek(fl.S, (('arg', 4), (0, 0)), 'float'), L('arg4[0]'), w)
        fused(fl, name, {k: (i_, var, use)})
        c.eq('gate', f'{name}: reported as passed exactly when used', tobool(fl.rvalue(fl.v, fl.S)), use, w)
        flags_are(c, 'report', name, fl, {rf: NOT(use)}, which='_innov_check_fail_status')
        c.eq('report', f'{name}: time of the last use', mem(fl, time, t='uint64_t'), ITE(use, now, L(f'this.{time}')), w)
        c.eq('report', f'{name}: normalised innovation', mem(fl, rat), DIV(inn[2], FN('sqrt', var)), w)
        c.eq('report', f'{name}: time of the last attempt', mem(fl, att, t='uint64_t'), now, w)
        frame(c, 'frame', name, fl, (time, rat, att, '_innov_check_fail_status'))


# ---------------------------------------------------------------- sensors
class MU:
    """measurementUpdate as seen by a sensor (its own behaviour is F04): records gain, Jacobian, innovation; states with a gain and
    the covariance have new values afterwards (stage 1, 2, ...)"""
    name = 'measurementUpdate'

    def __call__(self, fl, f, this, args, S, n):
        k = sum(e.kind == 'mu' for e in fl.events)
        lv = fl.eval(args[0], S)
        K = [dd(fl.peek(S, lv.path + ((i, 0),), 'float')) for i in range(24)]
        hv = fl.eval(args[1], S)
        ix = FL.sparse_idx(hv.type, '') or FL.sparse_idx(f.params[1][2], '')
        H = {i: dd(fl.peek(S, hv.path + ((i, 0),), 'float')) for i in ix}
        inn = dd(fl.num(fl.rvalue(fl.eval(args[2], S), S)))
        fl.event('mu', 'measurementUpdate', S, (K, H, inn, k), n)
        havoc(fl, S, K, k + 1)
        return B(f'fused{k}')


def havoc(fl, S, K, k):
    for i in range(24):
        for j in range(24):
            fl.setp(S, ('this', 'P', (i, j)), leaf(Pk(k, i, j)))
    for i, (g, j) in enumerate(STATES):
        if dd(K[i]) is not F:
            fl.setp(S, ('this', '_state', g, (j, 0)), leaf(s(f'stage{k}:{g}[{j}]')))


def Pk(k, i, j):
    return s(f'stage{k}:P[{min(i, j)},{max(i, j)}]') if k else Psym(i, j)


def xk(k, rows=()):
    """state symbols before update k; rows: those that earlier updates may have changed"""
    return [s(f'stage{k}:{g}[{j}]') if k and i in rows else s(f'this._state.{g}[{j}]') for i, (g, j) in enumerate(STATES)]


XS = [s(f'%x{i}') for i in range(24)]


def at(e, x):
    return substitute(e, {f'%x{i}': x[i] for i in range(24)})


def grad(h, x):
    """nonzero partial derivatives of h (in the symbols XS) at the state x"""
    r = {}
    for i in range(24):
        d = at(diff(h, XS[i]), x)
        if d.fp:
            r[i] = d
    return r


def body_vec(e, q=None):
    q = q or XS[:4]
    R = quat_dcm(q)
    return [total([mul(R[j][i], e[j]) for j in range(3)]) for i in range(3)]


def rel_wind():
    return [sub(XS[4], XS[22]), sub(XS[5], XS[23]), XS[6]]


def PHt(k, H):
    return [total([mul(Pk(k, i, j), h) for j, h in H.items()]) for i in range(24)]


def hph(k, H):
    p = PHt(k, H)
    return total([mul(h, p[i]) for i, h in H.items()])


def mus(fl):
    return [e for e in fl.events if e.kind == 'mu' and witness(conj(e.pc)) is not None]


def applied(c, what, fl, evs, run, K, H, inn, w):
    """the update is made exactly when `run`, with this gain, Jacobian and innovation"""
    once(c, 'update', what, evs)
    c.eq('update', f'{what}: made exactly when the data pass', orpc(evs), run, w)
    for e in evs:
        k, h, i, _ = e.data
        for r in range(24):
            c.eq('gain', f'{what}: gain of state {r}', k[r], K[r], evloc(e), e.pc)
        for j in range(24):
            c.eq('jacobian', f'{what}: derivative with respect to state {j}', h.get(j, F), H.get(j, F), evloc(e), e.pc)
        c.eq('update', f'{what}: innovation', i, inn, evloc(e), e.pc)


def lx(H):
    return {k: leaf(v) for k, v in H.items()}


WIND_OPS = {'resetWindStates', 'resetWindCovariance', 'initialiseCovariance'}


def confined(ht, v, wind_only):
    return [ITE(wind_only, F, DIV(leaf(x), v)) if i < 22 else DIV(leaf(x), v) for i, x in enumerate(ht)]


@prop('F05', 150)
def airdata(c):
    c.load(*FTU)
    V.TYPE_IV.clear()
    x0 = xk(0)
    wo = NOT(B('this._is_wind_dead_reckoning'))
    half = lc(Fraction(1, 2))
    for name in ('fuseAirspeed', 'fuseSideslip'):
        air = name == 'fuseAirspeed'
        if air:
            h = fn('sqrt', (total([mul(x, x) for x in rel_wind()]),))
            salted([f'this._state.vel[{i}]' for i in range(3)] + ['this._state.wind_vel[0]', 'this._state.wind_vel[1]'],
                   lambda: [at(total([mul(x, x) for x in rel_wind()]), [s(f'this._state.{g}[{j}]') for g, j in STATES])])
            x0 = xk(0)
            pred = at(h, x0)
            R = sq(MUL(clamp(P0_('eas_noise'), half, lc(5)), clamp(L('this._airspeed_sample_delayed.eas2tas'), lc(Fraction('0.9')), lc(10))))
            run = NOT(cmpdd('<', leaf(pred), T))
            inn = SUB(leaf(pred), L('this._airspeed_sample_delayed.true_airspeed'))
            gate = FN('max', P0_('tas_innov_gate'), T)
            V_, I_, TR, FF, RF = '_airspeed_innov_var', '_airspeed_innov', '_tas_test_ratio', 'bad_airspeed', 'reject_airspeed'
            tm = '_time_last_arsp_fuse'
        else:
            b = body_vec(rel_wind())
            h = div(b[1], b[0])
            V._SYMFP.clear()
            V.unit_quat(QN)
            x0 = xk(0)
            pred = at(h, x0)
            R = sq(P0_('beta_noise'))
            run = cmpdd('>', FN('sqrt', leaf(at(total([mul(x, x) for x in b]), x0))), lc(7))
            inn = leaf(pred)
            gate = FN('max', P0_('beta_innov_gate'), T)
            V_, I_, TR, FF, RF = '_beta_innov_var', '_beta_innov', '_beta_test_ratio', 'bad_sideslip', 'reject_sideslip'
            tm = '_time_last_beta_fuse'
        fl = c.flow('Ekf::' + name, hooks={'measurementUpdate': MU()}, opaque=WIND_OPS, nomod=WIND_OPS)
        w = loc(fl.f)
        H = grad(h, x0)
        var = ADD(leaf(hph(0, H)), R)
        bad = AND(run, cmpdd('<', var, R))
        good = AND(run, NOT(bad))
        c.eq('variance', f'{name}: innovation variance', mem(fl, V_), ITE(run, var, L(f'this.{V_}')), w)
        eqs(c, 'innovation', f'{name}: innovation', mem(fl, I_), ITE(good, inn, L(f'this.{I_}')), w)
        ratio = DIV(sq(inn), MUL(sq(gate), var))
        eqs(c, 'innovation', f'{name}: test ratio', mem(fl, TR), ITE(good, ratio, L(f'this.{TR}')), w)
        rej = AND(good, cmpdd('>', ratio, T))
        ok = AND(good, NOT(rej))
        flags_are(c, 'report', name, fl, {RF: ITE(good, rej, B(f'this._innov_check_fail_status.flags.{RF}'))}, which='_innov_check_fail_status')
        fused = B('fused0')
        flags_are(c, 'report', name, fl, {FF: ITE(bad, T, ITE(ok, NOT(fused), ITE(rej, F, B(f'this._fault_status.flags.{FF}'))))}, which='_fault_status')
        c.eq('report', f'{name}: time of the last use', mem(fl, tm, t='uint64_t'), ITE(AND(ok, fused), L('this._time_last_imu'), L(f'this.{tm}')), w)
        flags_are(c, 'report', name, fl, {'fuse_aspd': OR(cflag('fuse_aspd'), AND(ok, fused))} if air else {})
        applied(c, name, fl, mus(fl), ok, confined(PHt(0, H), var, wo), lx(H), inn, w)
        ev = callsof(c, fl, *WIND_OPS)
        for n_, cond in (('resetWindStates', AND(bad, wo)), ('resetWindCovariance', AND(bad, wo)), ('initialiseCovariance', AND(bad, NOT(wo)))):
            c.eq('conditioning', f'{name}: {n_} exactly when the variance is badly conditioned', orpc(ev[n_]), cond, w)
            once(c, 'conditioning', f'{name}: {n_}', ev[n_])
        full = AND(bad, NOT(wo))
        for i in range(2):
            c.eq('conditioning', f'{name}: wind {i} zero after a full reset, otherwise left to the update', mem(fl, '_state', 'wind_vel', (i, 0)),
                 ITE(full, F, ITE(ok, L(f'stage1:wind_vel[{i}]'), leaf(x0[22 + i]))), w)
        frame(c, 'frame', name, fl, (V_, I_, TR, '_innov_check_fail_status', '_fault_status', tm, 'P', '_state') + (('_control_status',) if air else ()))
        for g, i in STATES[:22]:
            k = STATES.index((g, i))
            v = dd(mem(fl, '_state', g, (i, 0)))
            c.eq('conditioning', f'{name}: state {g}[{i}] changed by the update only', v, ITE(ok, L(f'stage1:{g}[{i}]'), leaf(x0[k])), w)


def ITE_(*a):
    """ITE_(c1, v1, c2, v2, ..., otherwise)"""
    r = a[-1]
    for c_, v in reversed(list(zip(a[:-1:2], a[1:-1:2]))):
        r = ITE(c_, v, r)
    return r


@prop('F06', 200)
def magnetometer(c):
    c.load(*FTU)
    V.TYPE_IV.clear()
    tsyms('this._imu_sample_delayed.time_us', 'this._flt_mag_align_start_time')
    V.unit_quat(QN)
    OP = {'resetMagRelatedCovariances', 'limitDeclination', 'getMagDeclination'}
    fl = c.flow('Ekf::fuseMag', hooks={'measurementUpdate': MU()}, opaque=OP, nomod=OP)
    w = loc(fl.f)
    b = body_vec(XS[16:19])
    h = [add(b[i], XS[19 + i]) for i in range(3)]
    R = sq(FN('max', P0_('mag_noise'), F))
    x0 = xk(0)
    A = range(24)
    H0 = [grad(h[i], x0) for i in range(3)]
    v0 = [ADD(leaf(hph(0, H0[i])), R) for i in range(3)]
    syn = cflag('synthetic_mag_z')
    inn = [SUB(leaf(at(h[i], x0)), L(f'this._mag_sample_delayed.mag[{i}]')) for i in range(3)]
    inn[2] = ITE(syn, F, inn[2])
    gate = sq(FN('max', P0_('mag_innov_gate'), T))
    ratio = [DIV(sq(inn[i]), MUL(gate, v0[i])) for i in range(3)]
    bad = [cmpdd('<', v, R) for v in v0]
    b0, b1, b2 = bad[0], AND(NOT(bad[0]), bad[1]), AND(AND(NOT(bad[0]), NOT(bad[1])), bad[2])
    good = NOT(OR(OR(b0, b1), b2))
    rej = [cmpdd('>', r, T) for r in ratio]
    go = AND(good, NOT(OR(OR(rej[0], rej[1]), rej[2])))
    H = [grad(h[i], xk(i, A)) for i in range(3)]
    v = [v0[0]] + [ADD(leaf(hph(i, H[i])), R) for i in (1, 2)]
    by, bz = AND(go, cmpdd('<', v[1], R)), None
    run = [go, AND(go, NOT(by))]
    z = AND(run[1], NOT(syn))
    bz = AND(z, cmpdd('<', v[2], R))
    run.append(AND(z, NOT(bz)))
    old = lambda n: L(f'this.{n}')
    W_ = [v0[0], ITE_(b0, old('_mag_innov_var[1]'), go, v[1], v0[1]), ITE_(b0, old('_mag_innov_var[2]'), z, v[2], v0[2])]
    for i in range(3):
        c.eq('variance', f'3D: innovation variance {i}', mem(fl, '_mag_innov_var', (i, 0)), W_[i], w)
        eqs(c, 'innovation', f'3D: innovation {i}', mem(fl, '_mag_innov', (i, 0)), ITE(good, inn[i], old(f'_mag_innov[{i}]')), w)
        eqs(c, 'innovation', f'3D: test ratio {i}', mem(fl, '_mag_test_ratio', (i, 0)), ITE(good, ratio[i], old(f'_mag_test_ratio[{i}]')), w)
    c.eq('innovation', '3D: heading test ratio zero', mem(fl, '_yaw_test_ratio'), ITE(good, F, old('_yaw_test_ratio')), w)
    RF = ['reject_mag_x', 'reject_mag_y', 'reject_mag_z']
    flags_are(c, 'report', '3D', fl, {RF[i]: ITE(good, rej[i], B(f'this._innov_check_fail_status.flags.{RF[i]}')) for i in range(3)}, which='_innov_check_fail_status')
    fo = lambda n: B(f'this._fault_status.flags.{n}')
    fu = [B(f'fused{i}') for i in range(3)]
    flags_are(c, 'report', '3D', fl, {
        'bad_mag_x': ITE_(b0, T, go, NOT(fu[0]), F),
        'bad_mag_y': ITE_(b0, fo('bad_mag_y'), b1, T, by, T, go, NOT(fu[1]), F),
        'bad_mag_z': ITE_(OR(b0, b1), fo('bad_mag_z'), b2, T, bz, T, run[2], NOT(fu[2]), F)}, which='_fault_status')
    allst = cmpdd('>', SUB(L('this._imu_sample_delayed.time_us'), L('this._flt_mag_align_start_time')), lc(5000000))
    evs = mus(fl)
    for i in range(3):
        ht = PHt(i, H[i])
        K = [DIV(leaf(ht[r]), v[i]) for r in range(24)]
        K = [k if 16 <= r <= 21 else ITE(allst, k, F) for r, k in enumerate(K)]
        applied(c, f'3D axis {"xyz"[i]}', fl, [e for e in evs if e.data[3] == i], run[i], K, lx(H[i]), inn[i], w)
    c.ob('update', '3D: three updates', {e.data[3] for e in evs} == {0, 1, 2}, w)
    ev = callsof(c, fl, *OP)
    c.eq('conditioning', '3D: magnetometer covariances reset exactly when a variance is badly conditioned', orpc(ev['resetMagRelatedCovariances']), OR(OR(OR(b0, b1), b2), OR(by, bz)), w)
    c.eq('declination', '3D: declination limited after every update made', orpc(ev['limitDeclination']), OR(OR(AND(run[0], fu[0]), AND(run[1], fu[1])), AND(run[2], fu[2])), w)
    c.ob('declination', '3D: limited after each update', len(ev['limitDeclination']) == 3, w)
    frame(c, 'frame', '3D', fl, ('_mag_innov_var', '_mag_innov', '_mag_test_ratio', '_yaw_test_ratio', '_innov_check_fail_status', '_fault_status', 'P', '_state'))

    # --- declination as a measurement
    V._SYMFP.clear()
    fl = c.flow('Ekf::fuseDeclination', hooks={'measurementUpdate': MU()}, opaque=OP, nomod=OP)
    w = loc(fl.f)
    x0 = xk(0)
    h = fn('atan2', (XS[17], XS[16]))
    Hd = grad(h, x0)
    R = sq(L('arg0'))
    var = ADD(leaf(hph(0, Hd)), R)
    c.eq('declination', 'measurement: near the pole or without information nothing is done', orpc(mus(fl)),
         AND(NOT(cmpdd('<', FN('abs', leaf(x0[16])), lc(Fraction('0.000001')))), cmpdd('>', var, R)), w)
    run = orpc(mus(fl))
    lim = clamp(SUB(leaf(at(h, x0)), L('ret:getMagDeclination#0')), lc(Fraction(-1, 2)), lc(Fraction(1, 2)))
    applied(c, 'declination', fl, mus(fl), run, [DIV(leaf(x), var) for x in PHt(0, Hd)], lx(Hd), lim, w)
    flags_are(c, 'report', 'declination', fl, {'bad_mag_decl': ITE(run, NOT(B('fused0')), fo('bad_mag_decl'))}, which='_fault_status')
    ev = callsof(c, fl, *OP)
    c.eq('declination', 'measurement: declination limited after an update made', orpc(ev['limitDeclination']), AND(run, B('fused0')), w)
    c.never('conditioning', 'declination: no reset', orpc(ev['resetMagRelatedCovariances']), w)
    frame(c, 'frame', 'declination', fl, ('_fault_status', 'P', '_state'))

    # --- limits of the horizontal field
    I = [s('this._state.mag_I[0]'), s('this._state.mag_I[1]')]
    h2 = total([mul(x, x) for x in I])
    fl = c.flow('Ekf::limitDeclination', opaque=OP, nomod=OP)
    w = loc(fl.f)
    rad = div(V.pi_const(), const(180))
    geo = AND(bool_atom(fn('bit', (s('this._params.mag_declination_source'), const(0)))), OR(B('this._NED_origin_initialised'), bool_atom(fn('isfinite', (s('this._mag_declination_gps'),)))))
    ref = ITE(geo, old('_mag_declination_gps'), MUL(P0_('mag_declination_deg'), leaf(rad)))
    e3 = lc(Fraction('0.001'))
    hmin = ITE(geo, FN('max', e3, MUL(MUL(lc(Fraction(1, 2)), old('_mag_strength_gps')), FN('cos', old('_mag_inclination_gps')))), e3)
    hf = leaf(fn('sqrt', (h2,)))
    low, some = cmpdd('<', hf, hmin), cmpdd('>', hf, MUL(e3, hmin))
    d = s('ret:getMagDeclination#0')
    cs = [fn('cos', (d,)), fn('sin', (d,))]
    J = [ITE_(NOT(low), leaf(I[i]), some, DIV(MUL(hmin, leaf(I[i])), hf), MUL(MUL(lc(2), hmin), leaf(cs[i]))) for i in range(2)]
    hl = ITE(low, hmin, hf)
    est = FN('atan2', J[1], J[0])
    top, bot = ADD(ref, lc(Fraction(1, 2))), SUB(ref, lc(Fraction(1, 2)))
    over, under = cmpdd('>', est, top), cmpdd('<', est, bot)
    for i, f in enumerate(('cos', 'sin')):
        c.eq('limits', f'horizontal field {i} keeps a least length and stays near the reference declination', mem(fl, '_state', 'mag_I', (i, 0)),
             ITE_(over, MUL(hl, FN(f, top)), under, MUL(hl, FN(f, bot)), J[i]), w)
    frame(c, 'frame', 'limit of the horizontal field', fl, ('_state',))

    # --- synthetic vertical component
    salted(['arg1[0]', 'arg1[1]', 'arg1[2]'], lambda: [total([mul(x, x) for x in (s('arg1[0]'), s('arg1[1]'), s('arg1[2]'))])])
    fl = c.flow('Ekf::calculate_synthetic_mag_z_measurement')
    w = loc(fl.f)
    m = [s(f'arg0[{i}]') for i in range(2)]
    e = [s(f'arg1[{i}]') for i in range(3)]
    n2 = total([mul(x, x) for x in e] + [neg(mul(x, x)) for x in m])
    a = FN('sqrt', FN('max', leaf(n2), F))
    pz = total([mul(e[i], me('_R_to_earth', i, 2)) for i in range(3)])
    c.eq('synthetic', 'vertical component completes the expected field strength with the predicted sign', dd(fl.rvalue(fl.v, fl.S)), ITE(cmpdd('<', leaf(pz), F), NEG(a), a), w)
    frame(c, 'frame', 'synthetic vertical component', fl, ())


@prop('F09', 90)
def drag(c):
    c.load(*FTU)
    V.TYPE_IV.clear()
    V.unit_quat(QN)
    OP = set()
    fl = c.flow('Ekf::fuseDrag', hooks={'measurementUpdate': MU()})
    w = loc(fl.f)
    R = FN('max', P0_('drag_noise'), lc(Fraction(1, 2)))
    rho = FN('max', L('this._air_density'), lc(Fraction('0.1')))
    B_ = [P0_('bcoef_x'), P0_('bcoef_y')]
    run = NOT(OR(cmpdd('<', B_[0], T), cmpdd('<', B_[1], T)))
    b = body_vec(rel_wind())
    x0 = xk(0)
    u = F            # update of the axis before made
    evs = mus(fl)
    rows = (22, 23)
    for k in range(2):
        acc = SUB(L(f'this._drag_sample_delayed.accelXY[{k}]'), DIV(L(f'this._state.delta_vel_bias[{k}]'), L('this._dt_ekf_avg')))
        binv = DIV(T, B_[k])
        spd = FN('sqrt', DIV(MUL(lc(2), FN('abs', acc)), MUL(binv, rho)))
        Kacc = FN('max', lc(Fraction('0.1')), MUL(MUL(rho, binv), spd))

        def lin(stage):
            g = {i: MUL(NEG(Kacc), leaf(x)) for i, x in grad(b[k], xk(stage, rows)).items()}
            pht = [dsum([MUL(leaf(Pk(stage, i, j)), x) for j, x in g.items()]) for i in range(24)]
            var = ADD(dsum([MUL(x, pht[i]) for i, x in g.items()]), R)
            return g, pht, var
        g, pht, var = lin(0)
        if k:
            g1, pht1, var1 = lin(1)
            g = {i: ITE(u, g1[i], g[i]) for i in g}
            pht = [ITE(u, p, q) for p, q in zip(pht1, pht)]
            var = ITE(u, var1, var)
        what = f'axis {"xy"[k]}'
        c.eq('variance', f'{what}: innovation variance', mem(fl, '_drag_innov_var', (k, 0)), ITE(run, var, L(f'this._drag_innov_var[{k}]')), w)
        run = AND(run, NOT(cmpdd('<', var, R)))
        v = leaf(at(b[k], x0))
        pred = MUL(MUL(MUL(lc(Fraction(-1, 2)), MUL(binv, rho)), MUL(v, v)), ITE(cmpdd('>=', v, F), T, lc(-1)))
        inn = SUB(pred, acc)
        ratio = DIV(sq(inn), MUL(lc(25), var))
        eqs(c, 'innovation', f'{what}: predicted minus measured drag', mem(fl, '_drag_innov', (k, 0)), ITE(run, inn, L(f'this._drag_innov[{k}]')), w)
        eqs(c, 'innovation', f'{what}: test ratio', mem(fl, '_drag_test_ratio', (k, 0)), ITE(run, ratio, L(f'this._drag_test_ratio[{k}]')), w)
        ok = AND(run, cmpdd('<=', ratio, T))
        applied(c, what, fl, [e for e in evs if e.data[3] == k], ok, [DIV(pht[r], var) if r in rows else F for r in range(24)], g, inn, w)
        u = ok
    c.ob('update', 'two updates', {e.data[3] for e in evs} == {0, 1}, w)
    frame(c, 'frame', 'drag', fl, ('_drag_innov_var', '_drag_innov', '_drag_test_ratio', 'P', ('this', '_state', 'wind_vel')))


@prop('F08', 150)
def flow(c):
    c.load(*FTU)
    V.TYPE_IV.clear()
    V.unit_quat(QN)
    OP = {'initialiseCovariance', 'calcOptFlowMeasVar'}
    fl = c.flow('Ekf::fuseOptFlow', hooks={'measurementUpdate': MU()}, opaque=OP, nomod=OP)
    w = loc(fl.f)
    R = L('ret:calcOptFlowMeasVar#0')
    x0 = xk(0)
    q = x0[:4]
    Rt = quat_dcm(q)
    Re = [[me('_R_to_earth', i, j) for j in range(3)] for i in range(3)]
    off = [sub(s(f'this._params.flow_pos_body[{i}]'), s(f'this._params.imu_pos_body[{i}]')) for i in range(3)]
    dt = s('this._flow_sample_delayed.dt')
    om = [neg(div(s(f'this._flow_sample_delayed.gyro_xyz[{i}]'), dt)) for i in range(3)]
    vr = [sub(mul(om[(i + 1) % 3], off[(i + 2) % 3]), mul(om[(i + 2) % 3], off[(i + 1) % 3])) for i in range(3)]
    ve = [add(x0[4 + i], total([mul(Re[i][j], vr[j]) for j in range(3)])) for i in range(3)]
    vb = body_vec(ve, q)
    hagl = FN('max', leaf(sub(sub(s('this._terrain_vpos'), s('this._state.pos[2]')), total([mul(Re[2][j], off[j]) for j in range(3)]))), FN('max', P0_('rng_gnd_clearance'), lc(Fraction('0.1'))))
    rng = DIV(hagl, leaf(Rt[2][2]))
    rate = [ADD(DIV(L(f'this._flow_compensated_XY_rad[{i}]'), leaf(dt)), L(f'this._flow_gyro_bias[{i}]')) for i in range(2)]
    pred = [DIV(leaf(vb[1]), rng), NEG(DIV(leaf(vb[0]), rng))]
    inn = [SUB(pred[i], rate[i]) for i in range(2)]
    bv = body_vec(XS[4:7])
    fb = [NEG(MUL(rate[1], rng)), MUL(rate[0], rng)]
    for i in range(2):
        eqs(c, 'innovation', f'predicted minus measured line of sight rate {i}', mem(fl, '_flow_innov', (i, 0)), inn[i], w)
        eqs(c, 'innovation', f'velocity from the flow in body axes {i}', mem(fl, '_flow_vel_body', (i, 0)), fb[i], w)
        eqs(c, 'innovation', f'velocity from the flow over ground {i}', mem(fl, '_flow_vel_ne', (i, 0)), ADD(MUL(leaf(Re[i][0]), fb[0]), MUL(leaf(Re[i][1]), fb[1])), w)
    g = [{i: DIV(leaf(x), rng) for i, x in grad(bv[1], x0).items()}, {i: NEG(DIV(leaf(x), rng)) for i, x in grad(bv[0], x0).items()}]

    def lin(k, stage):
        pht = [dsum([MUL(leaf(Pk(stage, i, j)), x) for j, x in g[k].items()]) for i in range(24)]
        return pht, ADD(dsum([MUL(x, pht[i]) for i, x in g[k].items()]), R)
    p0, v0 = lin(0, 0)
    p1, v1 = lin(1, 0)
    p1b, v1b = lin(1, 1)
    bad0 = cmpdd('<', v0, R)
    bad1 = AND(NOT(bad0), cmpdd('<', v1, R))
    good = NOT(OR(bad0, bad1))
    gate = sq(FN('max', P0_('flow_innov_gate'), T))
    ratio = [DIV(sq(inn[0]), MUL(gate, v0)), DIV(sq(inn[1]), MUL(gate, v1))]
    rej = [cmpdd('>', r, T) for r in ratio]
    go = AND(good, NOT(OR(*rej)))
    bad2 = AND(go, cmpdd('<', v1b, R))
    go1 = AND(go, NOT(bad2))
    old = lambda n: L(f'this.{n}')
    eqs(c, 'variance', 'innovation variance 0', mem(fl, '_flow_innov_var', (0, 0)), v0, w)
    eqs(c, 'variance', 'innovation variance 1', mem(fl, '_flow_innov_var', (1, 0)), ITE_(bad0, old('_flow_innov_var[1]'), go, v1b, v1), w)
    eqs(c, 'innovation', 'test ratio is the larger of both axes', mem(fl, '_optflow_test_ratio'), ITE(good, FN('max', ratio[0], ratio[1]), old('_optflow_test_ratio')), w)
    RF = ['reject_optflow_X', 'reject_optflow_Y']
    flags_are(c, 'report', 'flow', fl, {RF[i]: ITE(good, rej[i], B(f'this._innov_check_fail_status.flags.{RF[i]}')) for i in range(2)}, which='_innov_check_fail_status')
    fo = lambda n: B(f'this._fault_status.flags.{n}')
    fu = [B('fused0'), B('fused1')]
    flags_are(c, 'report', 'flow', fl, {'bad_optflow_X': ITE(go, NOT(fu[0]), fo('bad_optflow_X')), 'bad_optflow_Y': ITE(go1, NOT(fu[1]), fo('bad_optflow_Y'))}, which='_fault_status')
    c.eq('report', 'time of the last use', mem(fl, '_time_last_of_fuse', t='uint64_t'), ITE(OR(AND(go, fu[0]), AND(go1, fu[1])), old('_time_last_imu'), old('_time_last_of_fuse')), w)
    evs = mus(fl)
    for k, (run, pht, var) in enumerate(((go, p0, v0), (go1, p1b, v1b))):
        applied(c, f'axis {"XY"[k]}', fl, [e for e in evs if e.data[3] == k], run, [DIV(x, var) for x in pht], g[k], inn[k], w)
    c.ob('update', 'two updates', {e.data[3] for e in evs} == {0, 1}, w)
    ev = callsof(c, fl, *OP)
    c.eq('conditioning', 'covariance reset exactly when a variance is badly conditioned', orpc(ev['initialiseCovariance']), OR(OR(bad0, bad1), bad2), w)
    frame(c, 'frame', 'flow', fl, ('_flow_innov_var', '_flow_innov', '_optflow_test_ratio', '_flow_vel_body', '_flow_vel_ne', '_innov_check_fail_status', '_fault_status', '_time_last_of_fuse', 'P', '_state'))

    # --- measurement variance
    V._SYMFP.clear()
    V.TYPE_IV['this._flow_sample_delayed.quality'] = (0.0, 255.0)
    fl = c.flow('Ekf::calcOptFlowMeasVar')
    w = loc(fl.f)
    m = lc(Fraction('0.05'))
    best, worst = FN('max', P0_('flow_noise'), m), FN('max', P0_('flow_noise_qual_min'), m)
    qm = P0_('flow_qual_min')
    sp = SUB(lc(255), qm)
    wt = ITE(cmpdd('>=', sp, T), clamp(DIV(SUB(L('this._flow_sample_delayed.quality'), qm), sp), F, T), F)
    eqs(c, 'variance', 'measurement variance between the two noise levels by quality', dd(fl.rvalue(fl.v, fl.S)), sq(ADD(MUL(best, wt), MUL(worst, SUB(T, wt)))), w)
    frame(c, 'frame', 'measurement variance', fl, ())

    # --- body rate compensation
    fl = c.flow('Ekf::calcOptFlowBodyRateComp')
    w = loc(fl.f)
    ac, fdt = L('this._delta_time_of'), L('this._flow_sample_delayed.dt')
    late = cmpdd('>', ac, T)
    gy = [L(f'this._flow_sample_delayed.gyro_xyz[{i}]') for i in range(3)]
    fin = AND(AND(*[bool_atom(fn('isfinite', (s(f'this._flow_sample_delayed.gyro_xyz[{i}]'),))) for i in range(2)]), bool_atom(fn('isfinite', (s('this._flow_sample_delayed.gyro_xyz[2]'),))))
    eps = lc(EPS)
    learn = AND(AND(cmpdd('>', ac, eps), cmpdd('>', fdt, eps)), cmpdd('<', FN('abs', SUB(ac, fdt)), lc(Fraction('0.1'))))
    tenth = lc(Fraction('0.1'))
    for i in range(3):
        da = L(f'this._imu_del_ang_of[{i}]')
        bo = L(f'this._flow_gyro_bias[{i}]')
        d = clamp(SUB(MUL(gy[i], DIV(T, fdt)), MUL(da, DIV(T, ac))), NEG(tenth), tenth)
        bn = ADD(MUL(bo, lc(Fraction('0.99'))), MUL(d, lc(Fraction('0.01'))))
        eqs(c, 'compensation', f'gyro bias of the flow sensor {i}', mem(fl, '_flow_gyro_bias', (i, 0)), ITE_(late, bo, fin, ITE(learn, bn, bo), F), w)
        c.eq('compensation', f'without a gyro of its own the sensor uses the angles of the IMU {i}', mem(fl, '_flow_sample_delayed', 'gyro_xyz', (i, 0)), ITE(OR(late, fin), gy[i], NEG(da)), w)
        c.eq('compensation', f'accumulated angle cleared {i}', mem(fl, '_imu_del_ang_of', (i, 0)), F, w)
    c.eq('compensation', 'accumulated time cleared', mem(fl, '_delta_time_of'), F, w)
    c.eq('compensation', 'available unless the interval is too long', tobool(fl.rvalue(fl.v, fl.S)), NOT(late), w)
    frame(c, 'frame', 'compensation', fl, ('_flow_gyro_bias', '_flow_sample_delayed', '_imu_del_ang_of', '_delta_time_of'))


@prop('F07', 200)
def heading(c):
    c.load(*FTU)
    V.TYPE_IV.clear()
    tsyms('this._time_last_in_air', 'this._time_last_imu')
    old = lambda n: L(f'this.{n}')
    one = T
    gate = FN('max', P0_('heading_innov_gate'), one)
    e6 = lc(Fraction('0.000001'))
    fo = lambda n: B(f'this._fault_status.flags.{n}')
    rj = B('this._innov_check_fail_status.flags.reject_yaw')

    # --- the two sequences: linearisation and innovation
    OP = {'updateQuaternion'}
    x0 = xk(0)
    D = quat_dcm(XS[:4])
    for par, y_, x_, my, mx in (('321', D[1][0], D[0][0], me('_R_to_earth', 1, 0), me('_R_to_earth', 0, 0)),
                                ('312', neg(D[0][1]), D[1][1], neg(me('_R_to_earth', 0, 1)), me('_R_to_earth', 1, 1))):
        fl = c.flow('Ekf::fuseYaw' + par, opaque=OP, nomod=OP)
        w = loc(fl.f)
        H = grad(fn('atan2', (y_, x_)), x0)
        yy, xx = leaf(at(y_, x0)), leaf(at(x_, x0))
        ev = callsof(c, fl, *OP)['updateQuaternion']
        run = orpc(ev)
        # well conditioned: at least one of both components is long enough; the code's guards of the divisions imply no more than that
        c.never('jacobian', f'{par}: no update with a vertical axis', AND(run, AND(cmpdd('<=', sq(xx), e6), cmpdd('<=', sq(yy), e6))), w)
        c.never('jacobian', f'{par}: an update whenever the axis is not vertical', AND(NOT(run), OR(cmpdd('>', sq(xx), e6), cmpdd('>', sq(yy), e6))), w)
        inn = ITE(B('arg2'), F, FN('wrap_pi', SUB(leaf(fn('atan2', (my, mx))), L('arg0'))))
        for e in ev:
            a = e.data['args']
            j = [dd(a[3].at(i, 0)) for i in range(4)] if isinstance(a[3], Mat) else vec(fl, e, e.data['lv'][3].path, 4)
            for i in range(4):
                c.eq('jacobian', f'{par}: derivative of the yaw with respect to quaternion element {i}', j[i], leaf(H[i]), evloc(e), e.pc)
            eqs(c, 'innovation', f'{par}: wrapped difference of predicted and measured yaw', dd(a[0]), inn, evloc(e), e.pc)
            eqs(c, 'variance', f'{par}: measurement variance', dd(a[1]), FN('max', L('arg1'), lc(Fraction('0.0001'))), evloc(e), e.pc)
            c.eq('gate', f'{par}: gate', dd(a[2]), gate, evloc(e), e.pc)
        frame(c, 'frame', f'{par} yaw', fl, ())

    # --- the update
    OP = UPD | {'initialiseCovariance'}
    fl = c.flow('Ekf::updateQuaternion', opaque=OP, nomod=OP)
    w = loc(fl.f)
    h = [L(f'arg3[{i}]') for i in range(4)]
    inn, R, g = L('arg0'), L('arg1'), L('arg2')
    pht = [dsum([MUL(leaf(Psym(i, j)), h[j]) for j in range(4)]) for i in range(24)]
    var = ADD(dsum([MUL(h[i], pht[i]) for i in range(4)]), R)
    bad = NOT(cmpdd('>=', var, R))
    good = NOT(bad)
    ratio = DIV(sq(inn), MUL(sq(g), var))
    rej = cmpdd('>', ratio, one)
    settled = AND(NOT(cflag('in_air')), cmpdd('<', ADD(old('_time_last_in_air'), lc(5000000)), old('_time_last_imu')))
    run = AND(good, OR(NOT(rej), settled))
    lim = FN('sqrt', MUL(sq(g), var))
    use = ITE(rej, clamp(inn, NEG(lim), lim), inn)
    wind = cflag('wind')
    K = [DIV(x, var) if r < 16 else ITE(wind, DIV(x, var), F) if r >= 22 else F for r, x in enumerate(pht)]
    c.eq('variance', 'yaw: innovation variance', mem(fl, '_heading_innov_var'), var, w)
    discipline(c, fl, 'yaw', K, dict(enumerate(h)), use, run)
    ev = callsof(c, fl, *OP)
    c.eq('conditioning', 'yaw: covariance reset exactly when the variance is badly conditioned', orpc(ev['initialiseCovariance']), bad, w)
    eqs(c, 'innovation', 'yaw: test ratio', mem(fl, '_yaw_test_ratio'), ITE(good, ratio, old('_yaw_test_ratio')), w)
    eqs(c, 'innovation', 'yaw: innovation', mem(fl, '_heading_innov'), ITE(run, use, old('_heading_innov')), w)
    for i in range(3):
        c.eq('innovation', f'yaw: field test ratio {i} zero', mem(fl, '_mag_test_ratio', (i, 0)), ITE(good, F, old(f'_mag_test_ratio[{i}]')), w)
    flags_are(c, 'report', 'yaw', fl, {'reject_yaw': ITE(good, rej, rj)}, which='_innov_check_fail_status')
    flags_are(c, 'report', 'yaw', fl, {'bad_hdg': OR(bad, AND(run, NOT(B('ret:checkAndFixCovarianceUpdate#0'))))}, which='_fault_status')
    frame(c, 'frame', 'yaw', fl, ('_heading_innov_var', '_heading_innov', '_yaw_test_ratio', '_mag_test_ratio', '_innov_check_fail_status', '_fault_status', 'P'))

    # --- which yaw is used
    class Y(YawIn):
        pass
    seq = {'updateEuler321YawInRotMat': Y(), 'updateEuler312YawInRotMat': Y()}
    OP = {'fuseYaw321', 'fuseYaw312'}
    fl = c.flow('Ekf::fuseHeading', hooks=dict(seq, getMagDeclination=lambda *a: L('declination')), opaque=OP, nomod=OP)
    w = loc(fl.f)
    q = [s(x) for x in QN]
    Rq = quat_dcm(q)
    for i in range(3):
        for j in range(3):
            c.eq('attitude', f'rotation matrix follows the attitude {i},{j}', mem(fl, '_R_to_earth', (i, j)), leaf(Rq[i][j]), w)
    is321 = cmpdd('<', FN('abs', leaf(Rq[2][0])), FN('abs', leaf(Rq[2][1])))
    hd, evy = cflag('mag_hdg'), cflag('ev_yaw')
    inh, rest = B('this._is_yaw_fusion_inhibited'), cflag('vehicle_at_rest')
    big = cmpdd('>', dsum([leaf(Psym(i, i)) for i in range(4)]), P0_('quat_max_variance'))
    zero = AND(inh, AND(NOT(rest), big))
    E = quat_dcm([s(f'this._ev_sample_delayed.quat[{i}]') for i in range(4)])
    ev = callsof(c, fl, *OP)
    for par, cond in (('321', is321), ('312', NOT(is321))):
        es = ev['fuseYaw' + par]
        once(c, 'source', f'{par}: yaw update', es)
        c.eq('source', f'{par}: used exactly in its half of the attitudes', orpc(es), cond, w)
        cs = seq[f'updateEuler{par}YawInRotMat'].calls
        c.ob('source', f'{par}: field turned to the horizontal with zero yaw', len(cs) == 1, w)
        for x, want in zip(cs[0] if cs else (), [F] + [leaf(Rq[i][j]) for i in range(3) for j in range(3)]):
            c.eq('source', f'{par}: field turned to the horizontal with zero yaw', x, want, w)
        m = mv([[L(f'yawed0[{i},{j}]') for j in range(3)] for i in range(3)], [SUB(L(f'this._mag_sample_delayed.mag[{i}]'), leaf(st('mag_B', i))) for i in range(3)])
        ang = lambda M: leaf(fn('atan2', (M[1][0], M[0][0]) if par == '321' else (neg(M[0][1]), M[1][1])))
        pred = ang(Rq)
        meas = ITE_(hd, ADD(NEG(FN('atan2', m[1], m[0])), L('declination')), evy, ang(E), pred)
        for e in es:
            a = [dd(x) for x in e.data['args']]
            c.eq('source', f'{par}: zero innovation exactly while a moving vehicle without yaw gets uncertain', tobool(a[2]), zero, evloc(e), e.pc)
            eqs(c, 'source', f'{par}: measured yaw', a[0], ITE(AND(inh, rest), old('_last_static_yaw'), meas), evloc(e), e.pc.and_(NOT(zero)))
            eqs(c, 'source', f'{par}: measurement variance', a[1], ITE_(zero, lc(Fraction('0.25')), hd, sq(P0_('mag_heading_noise')), evy, L('this._ev_sample_delayed.angVar'), lc(Fraction('0.01'))), evloc(e), e.pc)
        eqs(c, 'source', f'{par}: yaw kept for a vehicle at rest', mem(fl, '_last_static_yaw'), ITE(AND(inh, rest), old('_last_static_yaw'), pred), w, TRUE.and_(cond))
    frame(c, 'frame', 'heading', fl, ('_R_to_earth', '_last_static_yaw'))

    # --- yaw from two GPS antennas
    V.unit_quat(QN)
    OP = {'initialiseCovariance'}
    fl = c.flow('Ekf::fuseGpsYaw', hooks={'measurementUpdate': MU()}, opaque=OP, nomod=OP)
    w = loc(fl.f)
    o = s('this._gps_yaw_offset')
    ant = [fn('cos', (o,)), fn('sin', (o,)), const(0)]
    Re = [[me('_R_to_earth', i, j) for j in range(3)] for i in range(3)]
    pe = [total([mul(Re[i][j], ant[j]) for j in range(2)]) for i in range(3)]
    pq = [total([mul(D[i][j], ant[j]) for j in range(2)]) for i in range(2)]
    x0 = xk(0)
    H = grad(fn('atan2', (pq[1], pq[0])), x0)
    nx, ny = leaf(at(pq[0], x0)), leaf(at(pq[1], x0))
    up = cmpdd('>', FN('abs', leaf(pe[2])), FN('cos', leaf(div(V.pi_const(), const(6)))))
    k3 = lc(Fraction('0.001'))
    skip = OR(up, OR(cmpdd('<', FN('abs', nx), k3), cmpdd('<', FN('abs', ADD(DIV(sq(ny), sq(nx)), T)), k3)))
    R = sq(FN('max', P0_('mag_heading_noise'), T01))
    var = ADD(leaf(hph(0, H)), R)
    bad = AND(NOT(skip), cmpdd('<', var, R))
    good = AND(NOT(skip), NOT(bad))
    inn = FN('wrap_pi', SUB(SUB(leaf(fn('atan2', (pe[1], pe[0]))), L('this._gps_sample_delayed.yaw')), leaf(o)))
    ratio = DIV(sq(inn), MUL(sq(gate), var))
    rej = cmpdd('>', ratio, T)
    lim = FN('sqrt', MUL(sq(gate), var))
    fly = cflag('in_air')
    use = ITE(AND(rej, NOT(fly)), clamp(inn, NEG(lim), lim), inn)
    run = AND(good, NOT(AND(rej, fly)))
    applied(c, 'antennas', fl, mus(fl), run, [DIV(leaf(x), var) for x in PHt(0, H)], lx(H), use, w)
    eqs(c, 'variance', 'antennas: innovation variance', mem(fl, '_heading_innov_var'), ITE(skip, old('_heading_innov_var'), var), w)
    eqs(c, 'innovation', 'antennas: innovation', mem(fl, '_heading_innov'), ITE(good, use, old('_heading_innov')), w)
    eqs(c, 'innovation', 'antennas: test ratio', mem(fl, '_yaw_test_ratio'), ITE(good, ratio, old('_yaw_test_ratio')), w)
    for i in range(3):
        c.eq('innovation', f'antennas: field test ratio {i} zero', mem(fl, '_mag_test_ratio', (i, 0)), ITE(good, F, old(f'_mag_test_ratio[{i}]')), w)
    flags_are(c, 'report', 'antennas', fl, {'reject_yaw': ITE(good, rej, rj)}, which='_innov_check_fail_status')
    flags_are(c, 'report', 'antennas', fl, {'bad_hdg': ITE_(skip, fo('bad_hdg'), bad, T, run, NOT(B('fused0')), F)}, which='_fault_status')
    c.eq('report', 'antennas: time of the last use', mem(fl, '_time_last_gps_yaw_fuse', t='uint64_t'), ITE(AND(run, B('fused0')), old('_time_last_imu'), old('_time_last_gps_yaw_fuse')), w)
    c.eq('conditioning', 'antennas: covariance reset exactly when the variance is badly conditioned', orpc(callsof(c, fl, *OP)['initialiseCovariance']), bad, w)
    frame(c, 'frame', 'antennas', fl, ('_heading_innov_var', '_heading_innov', '_yaw_test_ratio', '_mag_test_ratio', '_innov_check_fail_status', '_fault_status', '_time_last_gps_yaw_fuse', 'P', '_state'))

    # --- reset to the antennas
    OP = {'resetQuatStateYaw'}
    fl = c.flow('Ekf::resetYawToGps', opaque=OP, nomod=OP)
    w = loc(fl.f)
    es = callsof(c, fl, *OP)['resetQuatStateYaw']
    once(c, 'reset', 'yaw reset', es)
    c.eq('reset', 'yaw set exactly when the antennas are not vertical', orpc(es), NOT(up), w)
    c.eq('reset', 'reported as done exactly then', tobool(fl.rvalue(fl.v, fl.S)), NOT(up), w)
    c.eq('reset', 'time of the last use', mem(fl, '_time_last_gps_yaw_fuse', t='uint64_t'), ITE(up, old('_time_last_gps_yaw_fuse'), old('_time_last_imu')), w)
    for e in es:
        a = [dd(x) for x in e.data['args']]
        eqs(c, 'reset', 'yaw', a[0], L('this._gps_sample_delayed.yaw'), evloc(e), e.pc)
        eqs(c, 'reset', 'yaw variance', a[1], R, evloc(e), e.pc)
        c.eq('reset', 'the output history moves along', tobool(a[2]), T, evloc(e), e.pc)
    frame(c, 'frame', 'reset to the antennas', fl, ('_time_last_gps_yaw_fuse',))
