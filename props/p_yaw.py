"""Resets of the heading; control of magnetometer and yaw fusion."""
from vfa.harness import *
from vfa.flow import LV
from .p_parts import L, B, s, mem, tsyms, total, quat_mul, quat_dcm, rotvec_quat, qnorm
from .p_sensors import frame, bufname
from .p_ekf import ALL_TU, st, me, eqs, clamp, v3, mv, norm, orpc, callsof, once, ering
from .p_reset import rings, same_p, uncor, both, cflag, counter, RTU, Psym

EPS = Fraction('1.1920929e-7')     # FLT_EPSILON as clang prints it
T01 = lc(Fraction('0.01'))


def sq(x):
    return MUL(x, x)


def cf(fl, f, S=None):
    return tobool(fl.peek(S or fl.S, ('this', '_control_status', 'flags', f), 'bool'))


def flags_of(fl, u):
    return [f for f, o, b in fl.union_layout(u)[0]]


def events_are(c, rule, what, fl, set_, pc=TRUE):
    """exactly the announcements in set_ (flag -> condition) are made, the others stay as they were"""
    for mem_, u in (('_information_events', 'information_event_status_u'), ('_warning_events', 'warning_event_status_u')):
        for f in flags_of(fl, u):
            old = B(f'this.{mem_}.flags.{f}')
            c.eq(rule, f'{what}: announcement {f}', tobool(fl.peek(fl.S, ('this', mem_, 'flags', f), 'bool')), OR(old, set_[f]) if f in set_ else old, loc(fl.f), pc)


def flags_are(c, rule, what, fl, set_, pc=TRUE, which='_control_status'):
    u = {'_control_status': 'filter_control_status_u', '_fault_status': 'fault_status_u', '_innov_check_fail_status': 'innovation_fault_status_u'}[which]
    for f in flags_of(fl, u):
        old = B(f'this.{which}.flags.{f}')
        c.eq(rule, f'{what}: flag {f}', tobool(fl.peek(fl.S, ('this', which, 'flags', f), 'bool')), set_.get(f, old), loc(fl.f), pc)


class YawIn:
    """updateYawInRotMat as a function of its arguments (its own behaviour is E01)"""
    def __init__(self):
        self.calls = []

    def __call__(self, fl, f, this, args, S, n):
        yaw = dd(fl.num(fl.rvalue(fl.eval(args[0], S), S)))
        m = fl.rvalue(fl.eval(args[1], S), S)
        es = [yaw] + [dd(m.at(i, j)) for i in range(3) for j in range(3)]
        for k, o in enumerate(self.calls):
            if all(a is b or differs(a, b, TRUE) is None for a, b in zip(o, es)):
                break
        else:
            k = len(self.calls)
            self.calls.append(es)
        return Mat(3, 3, [L(f'yawed{k}[{i},{j}]') for i in range(3) for j in range(3)], 'Dcm')


def qinv(q):
    n2 = total(mul(x, x) for x in q)
    return [div(q[0], n2)] + [neg(div(x, n2)) for x in q[1:]]


YAW_ROOTS = ('_state_reset_status', '_output_new', '_output_buffer', 'P', '_R_to_earth', ('this', '_state', 'quat_nominal'))


@prop('C07', 200)
def yaw_resets(c):
    c.load(*RTU, 'EKF/EKFGSF_yaw.cpp')
    V.TYPE_IV.clear()
    V.TYPE_IV['this._state_reset_status.quat_counter'] = (0.0, 254.0)
    # --- the elementary reset
    for upd in (True, False):
        Y = YawIn()
        H = dict(rings())
        H['updateYawInRotMat'] = Y
        S = State()
        fl = c.flow('Ekf::resetQuatStateYaw', hooks=H, args={2: T if upd else F}, opaque={'increaseQuatYawErrVariance'}, nomod={'increaseQuatYawErrVariance'})
        w = loc(fl.f)
        at = 'yaw reset ' + ('with' if upd else 'without') + ' output history: '
        q0 = [st('quat_nominal', i) for i in range(4)]
        D = quat_dcm(q0)
        c.ob('reset', at + 'the new attitude comes from the tilt and the yaw given', len(Y.calls) == 1, w, f'{len(Y.calls)} attitudes')
        if len(Y.calls) != 1:
            continue
        c.eq('reset', at + 'the yaw set is the one given', Y.calls[0][0], L('arg0'), w)
        for i in range(3):
            for j in range(3):
                c.eq('reset', at + f'it replaces the yaw of the current attitude ({i},{j})', Y.calls[0][1 + 3 * i + j], leaf(D[i][j]), w)
                c.eq('reset', at + f'the rotation matrix follows ({i},{j})', mem(fl, '_R_to_earth', (i, j)), L(f'yawed0[{i},{j}]'), w)
        es = tuple(s(f'yawed0[{i},{j}]') for i in range(3) for j in range(3))
        q1 = [fn(f'q_dcm.{i}', es) for i in range(4)]
        for i in range(4):
            c.eq('reset', at + f'quaternion {i} is that of the rotation matrix', mem(fl, '_state', 'quat_nominal', (i, 0)), leaf(q1[i]), w)
        e = quat_mul(q1, qinv(q0))
        n = qnorm(e)
        e = [div(x, n) for x in e]
        for i in range(4):
            c.eq('publish', at + f'published attitude change {i}', mem(fl, '_state_reset_status', 'quat_change', (i, 0)), leaf(e[i]), w)
        c.eq('publish', at + 'reset counter', counter(dd(mem(fl, '_state_reset_status', 'quat_counter', t='uint8_t'))), ADD(L('this._state_reset_status.quat_counter'), T), w)
        for k in list(range(3)) + [None]:
            p = ('_output_new', 'quat_nominal') if k is None else ('_output_buffer', 'elem', k, 'quat_nominal')
            o = [s(FL.pname(('this',) + p + ((i, 0),))) for i in range(4)]
            z = quat_mul(e, o)
            for i in range(4):
                c.eq('history', at + ('current output' if k is None else f'stored output {k}') + f' attitude {i}', mem(fl, *p, (i, 0)), leaf(z[i] if upd else o[i]), w)
        same_p(c, 'variance', at + 'attitude decorrelated from the other states', fl, lambda i, j: F if (i < 4) != (j < 4) else None)
        inc = callsof(c, fl, 'increaseQuatYawErrVariance')['increaseQuatYawErrVariance']
        c.eq('variance', at + 'the yaw variance is added exactly when one is given', orpc(inc), cmpdd('>', L('arg1'), lc(EPS)), w)
        once(c, 'variance', 'increaseQuatYawErrVariance', inc)
        for x in inc:
            c.eq('variance', at + 'variance added', x.data['args'][0], L('arg1'), evloc(x), x.pc)
            d = [differs(dd(fl.peek(x.state, ('this', 'P', (i, j)), 'float')), F, x.pc) for i in range(4) for j in range(4, 24)]
            c.ob('variance', at + 'decorrelated before the variance is added', all(y is None for y in d), evloc(x))
            for i in range(4):
                c.eq('variance', at + f'variance added at the new attitude {i}', dd(fl.peek(x.state, ('this', '_state', 'quat_nominal', (i, 0)), 'float')), leaf(q1[i]), evloc(x), x.pc)
        frame(c, 'frame', at, fl, YAW_ROOTS)

    # --- declination
    tsyms('this._imu_sample_delayed.time_us', 'this._flt_mag_align_start_time', 'this._params.mag_fusion_type')
    fl = c.flow('Ekf::getMagDeclination')
    w = loc(fl.f)
    par = MUL(leaf(div(V.pi_const(), const(180))), L('this._params.mag_declination_deg'))
    geo = bool_atom(fn('bit', (s('this._params.mag_declination_source'), const(0))))
    v = dd(fl.rvalue(fl.v, fl.S))
    al = cflag('mag_aligned_in_flight')
    c.eq('declination', 'declination: that of the earth field states once aligned in flight', v, FN('atan2', L('this._state.mag_I[1]'), L('this._state.mag_I[0]')), w, TRUE.and_(al))
    c.eq('declination', 'declination: the parameter unless the tables are to be used', v, par, w, TRUE.and_(NOT(al)).and_(NOT(geo)))
    org = B('this._NED_origin_initialised')
    c.eq('declination', 'declination: from the tables once the origin is known', v, L('this._mag_declination_gps'), w, TRUE.and_(NOT(al)).and_(geo).and_(org))
    fin = bool_atom(fn('isfinite', (s('this._mag_declination_gps'),)))
    c.eq('declination', 'declination: from the tables exactly when it is finite', v, ITE(fin, L('this._mag_declination_gps'), par), w, TRUE.and_(NOT(al)).and_(geo).and_(NOT(org)))
    frame(c, 'frame', 'the declination', fl, ())

    # --- heading from the magnetic field
    Y = YawIn()

    def dor(fl, f, this, args, S, n):
        a = [dd(fl.num(fl.rvalue(fl.eval(x, S), S))) for x in args]
        fl.event('yawreset', 'resetQuatStateYaw', S, a, n)
        for i in range(3):
            for j in range(3):
                fl.setp(S, ('this', '_R_to_earth', (i, j)), L(f'turned[{i},{j}]'))
        for i in range(4):
            fl.setp(S, ('this', '_state', 'quat_nominal', (i, 0)), L(f'turnedq[{i}]'))
        return F
    OP = {'getMagDeclination', 'resetMagCov', 'stopMagFusion', 'getEuler312Yaw', 'getEuler321Yaw', 'resetMagHeading'}
    fl = c.flow('Ekf::resetMagHeading', hooks={'updateYawInRotMat': Y, 'resetQuatStateYaw': dor}, opaque=OP - {'resetMagHeading'}, nomod=OP)
    w = loc(fl.f)
    again = cmpdd('==', L('this._imu_sample_delayed.time_us'), L('this._flt_mag_align_start_time'))
    ft = L('this._params.mag_fusion_type')
    V.TYPE_IV['this._params.mag_fusion_type'] = (0.0, 5.0)
    none = cmpdd('>=', ft, lc(5))
    ev = cflag('ev_yaw')
    lo = cmpdd('<=', ft, lc(2))
    indoor = AND(AND(cmpdd('==', ft, lc(4)), B('this._is_yaw_fusion_inhibited')), NOT(OR(ev, lo)))
    ret = tobool(fl.rvalue(fl.v, fl.S))
    act = AND(AND(NOT(again), NOT(none)), OR(ev, lo))
    c.eq('heading', 'a heading is reported unless the magnetometer is not used or there is no yaw observation', ret, OR(again, AND(NOT(none), OR(OR(ev, lo), indoor))), w)
    rs = [e for e in fl.events if e.kind == 'yawreset']
    c.eq('heading', 'the yaw is reset exactly once per frame and with a yaw observation', orpc(rs), act, w)
    once(c, 'heading', 'the yaw reset', rs)
    by = callsof(c, fl, 'stopMagFusion', 'resetMagCov')
    c.eq('heading', 'magnetometer fusion stops without a magnetometer', orpc(by['stopMagFusion']), AND(NOT(again), none), w)
    c.eq('heading', 'the field covariance is reset with the heading', orpc(by['resetMagCov']), act, w)
    c.ob('heading', 'the heading from the field uses the tilt with zero yaw', len(Y.calls) == 1, w)
    for i, x in enumerate(Y.calls[0] if len(Y.calls) == 1 else ()):
        c.eq('heading', f'tilt used for the heading {i}', x, F if i == 0 else leaf(me('_R_to_earth', (i - 1) // 3, (i - 1) % 3)), w)
    inc, upd = B('arg1'), B('arg2')
    m = [L(f'arg0[{i}]') for i in range(3)]
    Z = [[L(f'yawed0[{i},{j}]') for j in range(3)] for i in range(3)]
    b = mv(Z, m)
    for e in rs:
        p = e.pc
        for cond, yaw, var, nm in ((ev, None, FN('max', L('this._ev_sample_delayed.angVar'), lc(Fraction('1e-4'))), 'vision'),
                                   (NOT(ev), ADD(NEG(FN('atan2', b[1], b[0])), L('ret:getMagDeclination#0')), sq(FN('max', L('this._params.mag_heading_noise'), T01)), 'field')):
            q = p.and_(cond)
            if q.false:
                continue
            if yaw is None:
                y = [x for x in fl.events if x.kind == 'call' and x.name == 'getEuler312Yaw']
                c.ob('heading', 'the yaw of the vision attitude is used', len(y) == 1 and all(differs(dd(y[0].data['args'][0].e[i]), L(f'this._ev_sample_delayed.quat[{i}]'), q) is None for i in range(4)), evloc(e))
                yaw = L('ret:getEuler312Yaw#0')
            eqs(c, 'heading', f'yaw from {nm}', e.data[0], yaw, evloc(e), q)
            eqs(c, 'heading', f'yaw variance from {nm}, only when asked for', e.data[1], ITE(inc, var, F), evloc(e), q)
            c.eq('heading', f'output history moved only when asked for ({nm})', tobool(e.data[2]), upd, evloc(e), q)
    # the field states
    Tn = [[L(f'turned[{i},{j}]') for j in range(3)] for i in range(3)]
    f_ = mv(Tn, m)
    for i in range(3):
        c.eq('heading', f'earth field {i} is the measured field turned with the new attitude', mem(fl, '_state', 'mag_I', (i, 0)), ITE(act, f_[i], leaf(st('mag_I', i))), w)
    c.eq('heading', 'time of the alignment', mem(fl, '_flt_mag_align_start_time', t='uint64_t'), ITE(act, L('this._imu_sample_delayed.time_us'), L('this._flt_mag_align_start_time')), w)
    frame(c, 'frame', 'a heading reset', fl, ('_R_to_earth', ('this', '_state', 'quat_nominal'), ('this', '_state', 'mag_I'), '_flt_mag_align_start_time'))

    # --- heading from the GPS course
    fl = c.flow('Ekf::realignYawGPS', hooks={'resetQuatStateYaw': dor}, opaque=OP, nomod=OP)
    w = loc(fl.f)
    gv = [L(f'this._gps_sample_delayed.vel[{i}]') for i in range(2)]
    speed = FN('sqrt', ADD(sq(gv[0]), sq(gv[1])))
    sacc = L('this._gps_sample_delayed.sacc')
    can = AND(cmpdd('>', speed, lc(5)), cmpdd('<', sacc, MUL(lc(Fraction('0.15')), speed)))
    by = callsof(c, fl, 'resetMagHeading', 'resetMagCov', 'getEuler321Yaw')
    c.eq('course', 'the magnetometer is used when the GPS course is not reliable', orpc(by['resetMagHeading']), NOT(can), w)
    for e in by['resetMagHeading']:
        for i in range(3):
            c.eq('course', f'with the filtered field {i}', e.data['args'][0].e[i], L(f'this._mag_lpf._filter_state[{i}]'), evloc(e), e.pc)
    ret = tobool(fl.rvalue(fl.v, fl.S))
    c.eq('course', 'outcome without a reliable course is that of the magnetometer', ret, B('ret:resetMagHeading#0'), w, TRUE.and_(NOT(can)))
    p = TRUE.and_(can)
    c.eq('course', 'a reliable course always aligns', ret, T, w, p)
    gc, ec = FN('atan2', gv[1], gv[0]), FN('atan2', leaf(st('vel', 1)), leaf(st('vel', 0)))
    err = FN('wrap_pi', SUB(gc, ec))
    bad = AND(cmpdd('>', FN('abs', err), lc(Fraction(1, 2))), AND(cmpdd('>', L('this._gps_vel_test_ratio[0]'), T), cflag('gps')))
    nb = L('this._num_bad_flight_yaw_events')
    V.TYPE_IV['this._num_bad_flight_yaw_events'] = (0.0, 254.0)
    nb1 = ITE(bad, ADD(nb, T), nb)
    c.eq('course', 'wrong headings in flight are counted', counter(dd(mem(fl, '_num_bad_flight_yaw_events', t='uint8_t'))), ITE(can, nb1, nb), w)
    do = OR(bad, NOT(cflag('yaw_align')))
    rs = [e for e in fl.events if e.kind == 'yawreset']
    c.eq('course', 'the yaw is set from the course exactly when it is wrong or not aligned', orpc(rs), AND(can, do), w)
    once(c, 'course', 'the yaw reset', rs)
    c.eq('course', 'the field covariance is reset', orpc(by['resetMagCov']), can, w)
    once(c, 'course', 'the field covariance reset', by['resetMagCov'])
    al = cflag('mag_aligned_in_flight')
    wind = [L(f'this._state.wind_vel[{i}]') for i in range(2)]
    var = ADD(ADD(sq(sacc), leaf(Psym(4, 4))), leaf(Psym(5, 5)))
    sn = clamp(DIV(FN('sqrt', var), speed), F, T)
    for e in rs:
        eqs(c, 'course', 'first alignment in flight turns the yaw by the course error', e.data[0], ADD(L('ret:getEuler321Yaw#0'), err), evloc(e), e.pc.and_(NOT(al)))
        eqs(c, 'course', 'with wind the nose points along the air velocity', e.data[0], FN('atan2', SUB(gv[1], wind[1]), SUB(gv[0], wind[0])), evloc(e), e.pc.and_(al).and_(cflag('wind')))
        eqs(c, 'course', 'without wind the nose points along the course', e.data[0], gc, evloc(e), e.pc.and_(al).and_(NOT(cflag('wind'))))
        eqs(c, 'course', 'yaw variance from the speed variance', e.data[1], sq(FN('asin', sn)), evloc(e), e.pc)
        c.eq('course', 'the output history moves along', tobool(e.data[2]), T, evloc(e), e.pc)
    for e in by['getEuler321Yaw']:
        for i in range(4):
            c.eq('course', f'current yaw is that of the state {i}', e.data['args'][0].e[i], leaf(st('quat_nominal', i)), evloc(e), e.pc)
    doc = AND(can, do)
    flags_are(c, 'course', 'GPS alignment', fl, {'mag_fault': OR(cflag('mag_fault'), AND(doc, AND(al, cmpdd('>=', nb1, lc(2))))), 'mag_aligned_in_flight': OR(al, doc)})
    events_are(c, 'course', 'GPS alignment', fl, {'bad_yaw_using_gps_course': doc, 'stopping_mag_use': AND(doc, AND(AND(al, cmpdd('>=', nb1, lc(2))), NOT(cflag('mag_fault'))))})
    tq = [s(f'turnedq[{i}]') for i in range(4)]
    D = quat_dcm(tq)
    ms = [L(f'this._mag_sample_delayed.mag[{i}]') for i in range(3)]
    R0 = [[leaf(me('_R_to_earth', i, j)) for j in range(3)] for i in range(3)]
    Tq = [[leaf(D[i][j]) for j in range(3)] for i in range(3)]
    fa, fb = mv(R0, ms), mv(Tq, ms)
    ft_ = mv(Tn, ms)
    for i in range(3):
        for pc, x, nm in ((p.and_(NOT(do)), fa[i], 'the attitude'),):
            c.eq('course', f'earth field {i} from {nm}', mem(fl, '_state', 'mag_I', (i, 0)), x, w, pc)
        got = mem(fl, '_state', 'mag_I', (i, 0))
        pc = p.and_(do)
        # the rotation matrix is that of the new attitude, whether taken as reset or converted again
        c.ob('course', f'earth field {i} from the new attitude', differs(dd(got), fb[i], pc) is None or differs(dd(got), ft_[i], pc) is None, w, lambda: showdd(dd(got))[:300])
        c.eq('course', f'no earth field {i} without a course', got, leaf(st('mag_I', i)), w, TRUE.and_(NOT(can)))
        c.eq('course', f'body field {i}', mem(fl, '_state', 'mag_B', (i, 0)), ITE(doc, F, leaf(st('mag_B', i))), w)
    c.eq('course', 'time of the alignment', mem(fl, '_flt_mag_align_start_time', t='uint64_t'), ITE(can, L('this._imu_sample_delayed.time_us'), L('this._flt_mag_align_start_time')), w)
    c.eq('course', 'velocity and position are reset along with a wrong heading', tobool(mem(fl, '_velpos_reset_request', t='bool')), ITE(doc, bad, B('this._velpos_reset_request')), w)
    frame(c, 'frame', 'a GPS alignment', fl, ('_control_status', '_warning_events', '_R_to_earth', ('this', '_state', 'quat_nominal'), ('this', '_state', 'mag_I'), ('this', '_state', 'mag_B'), '_flt_mag_align_start_time', '_num_bad_flight_yaw_events', '_velpos_reset_request'))

    # --- emergency reset to the yaw estimator
    OP = {'resetVelocity', 'resetHorizontalPosition'}
    fl = c.flow('Ekf::resetYawToEKFGSF', hooks={'resetQuatStateYaw': dor}, opaque=OP, nomod=OP)
    w = loc(fl.f)
    y = 'this._yawEstimator.'
    lim = L('this._params.EKFGSF_yaw_err_max')
    do = AND(B(y + '_ekf_gsf_vel_fuse_started'), cmpdd('<', L(y + '_gsf_yaw_variance'), sq(lim)))
    c.eq('emergency', 'the estimate is used exactly when it has converged', tobool(fl.rvalue(fl.v, fl.S)), do, w)
    rs = [e for e in fl.events if e.kind == 'yawreset']
    by = callsof(c, fl, 'resetVelocity', 'resetHorizontalPosition')
    c.eq('emergency', 'the yaw is reset to the estimate', orpc(rs), do, w)
    for q in OP:
        c.eq('emergency', f'{q} with the yaw', orpc(by[q]), do, w)
        once(c, 'emergency', q, by[q])
        c.ob('emergency', f'{q} after the yaw', bool(rs) and bool(by[q]) and max(e.n for e in rs) < min(e.n for e in by[q]), w)
    once(c, 'emergency', 'the yaw reset', rs)
    for e in rs:
        c.eq('emergency', 'yaw', e.data[0], L(y + '_gsf_yaw'), evloc(e), e.pc)
        c.eq('emergency', 'variance', e.data[1], L(y + '_gsf_yaw_variance'), evloc(e), e.pc)
        c.eq('emergency', 'the output history moves along', tobool(e.data[2]), T, evloc(e), e.pc)
    none = cmpdd('==', L('this._params.mag_fusion_type'), lc(5))
    flags_are(c, 'emergency', 'emergency reset', fl, {'yaw_align': OR(cflag('yaw_align'), do), 'mag_fault': OR(cflag('mag_fault'), AND(do, NOT(none)))})
    events_are(c, 'emergency', 'emergency reset', fl, {'yaw_aligned_to_imu_gps': AND(do, none), 'emergency_yaw_reset_mag_stopped': AND(do, NOT(none))})
    c.eq('emergency', 'time of the alignment', mem(fl, '_flt_mag_align_start_time', t='uint64_t'), ITE(do, L('this._imu_sample_delayed.time_us'), L('this._flt_mag_align_start_time')), w)
    frame(c, 'frame', 'an emergency reset', fl, ('_control_status', '_warning_events', '_information_events', '_R_to_earth', ('this', '_state', 'quat_nominal'), '_flt_mag_align_start_time'))



def bit(n, k):
    return bool_atom(fn('bit', (s(n), const(k))))


FUSE = ('fuseHeading', 'fuseMag', 'fuseDeclination', 'resetMagHeading', 'realignYawGPS', 'resetVelocity', 'resetHorizontalPosition')


def mag_zero(i, j):
    return F if 16 <= i <= 21 or 16 <= j <= 21 else None


def mag_loaded(i, j):
    if i in (16, 17) and j in (16, 17):
        return L(FL.pname(('this', '_saved_mag_ef_covmat', (i - 16, j - 16))))
    if i == j and 18 <= i <= 21:
        return L(f'this._saved_mag_bf_variance[{i - 18}]')
    return mag_zero(i, j)


def saved(c, rule, what, fl, yes, pc=TRUE):
    """the variances kept for the next 3-axis fusion are those of the covariance exactly when `yes`"""
    w = loc(fl.f)
    for k in range(4):
        c.eq(rule, f'{what}: saved variance {k}', mem(fl, '_saved_mag_bf_variance', k), ITE(yes, leaf(Psym(18 + k, 18 + k)), L(f'this._saved_mag_bf_variance[{k}]')), w, pc)
    for i in range(2):
        for j in range(2):
            c.eq(rule, f'{what}: saved covariance {i},{j}', mem(fl, '_saved_mag_ef_covmat', (i, j)), ITE(yes, leaf(Psym(16 + i, 16 + j)), L(FL.pname(('this', '_saved_mag_ef_covmat', (i, j))))), w, pc)


@prop('C02', 300)
def mag_control(c):
    c.load(*ALL_TU, 'EKF/mag_control.cpp', 'EKF/mag_fusion.cpp')
    V.TYPE_IV.clear()
    tsyms('this._imu_sample_delayed.time_us', 'this._time_last_mov_3d_mag_suitable', 'this._mag_use_not_inhibit_us', 'this._time_yaw_started')
    t = L('this._imu_sample_delayed.time_us')
    ev, gy = cflag('ev_yaw'), cflag('gps_yaw')
    other = OR(ev, gy)
    for ft in range(0, 7):
        S = State()
        S.d[('this', '_params', 'mag_fusion_type')] = lc(ft)
        fl = c.flow('Ekf::controlMagFusion', state=S, opaque=set(FUSE), nomod=set(FUSE))
        by = callsof(c, fl, *FUSE)
        one_mode(c, fl, by, ft, t, other)


def one_mode(c, fl, by, ft, t, other):
    w = loc(fl.f)
    at = f'fusion type {ft}: '
    if ft >= 5:
        c.eq('mode', at + 'the heading is only fused without another yaw source', orpc(by['fuseHeading']), NOT(other) if ft == 5 else F, w)
        once(c, 'mode', at + 'heading fusion', by['fuseHeading'])
        for q in FUSE[1:]:
            c.ob('mode', at + f'no {q}', not by[q], w)
        c.eq('inhibit', at + 'heading fusion is inhibited', tobool(mem(fl, '_is_yaw_fusion_inhibited', t='bool')), OR(B('this._is_yaw_fusion_inhibited'), NOT(other)) if ft == 5 else B('this._is_yaw_fusion_inhibited'), w)
        for e in by['fuseHeading']:
            c.eq('inhibit', at + 'inhibited before the heading is fused', tobool(fl.peek(e.state, ('this', '_is_yaw_fusion_inhibited'), 'bool')), T, evloc(e), e.pc)
        frame(c, 'frame', at + 'magnetometer control', fl, ('_is_yaw_fusion_inhibited',))
        return
    # field strength
    m = norm([L(f'this._mag_sample_delayed.mag[{i}]') for i in range(3)])

    def within(x, g):
        return AND(cmpdd('>=', m, SUB(x, g)), cmpdd('<=', m, ADD(x, g)))
    match = ITE(B('this._NED_origin_initialised'), within(L('this._mag_strength_gps'), lc(Fraction('0.2'))), within(lc(Fraction('0.45')), lc(Fraction('0.4'))))
    dist = AND(tobool(L('this._params.check_mag_strength')), NOT(match))
    air = cflag('in_air')
    al, nb = AND(air, cflag('mag_aligned_in_flight')), ITE(air, L('this._num_bad_flight_yaw_events'), F)
    off = OR(cflag('mag_fault'), NOT(cflag('yaw_align')))
    m3, mh = cflag('mag_3D'), cflag('mag_hdg')
    prev = B('this._non_mag_yaw_aiding_running_prev')
    run = AND(AND(NOT(off), NOT(other)), B('this._mag_data_ready'))
    req = B('this._mag_yaw_reset_req')
    rq0 = ITE(off, req, OR(req, AND(NOT(other), prev)))
    # yaw resets
    hv = B('this._hagl_valid')
    tpos = ITE(hv, L('this._terrain_vpos'), L('this._last_on_ground_posD'))
    above = cmpdd('>', SUB(tpos, leaf(st('pos', 2))), lc(Fraction('1.5')))
    rq1 = OR(rq0, AND(AND(run, air), AND(NOT(al), above)))
    auth = NOT(B('this._is_yaw_fusion_inhibited'))
    doit = AND(AND(run, rq1), auth)
    fw = cflag('fixed_wing')
    byg, bym = AND(AND(doit, air), fw), AND(AND(doit, NOT(dist)), NOT(AND(air, fw)))
    c.eq('reset', at + 'fixed wing aircraft realign with the GPS course', orpc(by['realignYawGPS']), byg, w)
    once(c, 'reset', at + 'GPS alignment', by['realignYawGPS'])
    c.eq('reset', at + 'the yaw is reset to the magnetometer when requested, authorised and undisturbed', orpc(by['resetMagHeading']), bym, w)
    once(c, 'reset', at + 'magnetometer alignment', by['resetMagHeading'])
    for e in by['resetMagHeading']:
        for i in range(3):
            c.eq('reset', at + f'the filtered field is used {i}', e.data['args'][0].e[i], L(f'this._mag_lpf._filter_state[{i}]'), evloc(e), e.pc)
        c.ob('reset', at + 'with variance and output history', all(tobool(a) is T for a in e.data['args'][1:3]), evloc(e))
    done = F
    for q, cond in (('realignYawGPS', byg), ('resetMagHeading', bym)):
        for e in by[q]:
            done = OR(done, AND(conj(e.pc), B(f'ret:{q}#{e.data["n"]}')))
    c.eq('reset', at + 'a request stays until the yaw has been reset', tobool(mem(fl, '_mag_yaw_reset_req', t='bool')), ITE(doit, NOT(done), rq1), w)
    al2 = ITE(AND(doit, air), done, al)
    vp = AND(AND(run, air), B('this._velpos_reset_request'))
    for q in ('resetVelocity', 'resetHorizontalPosition'):
        c.eq('reset', at + f'{q} on request in the air', orpc(by[q]), vp, w)
        once(c, 'reset', at + q, by[q])
    c.eq('reset', at + 'that request is served once', tobool(mem(fl, '_velpos_reset_request', t='bool')), AND(B('this._velpos_reset_request'), NOT(AND(run, air))), w)
    c.eq('reset', at + 'end of another heading source is noticed', tobool(mem(fl, '_non_mag_yaw_aiding_running_prev', t='bool')), ITE(off, prev, other), w)
    # observability and mode
    p = TRUE.and_(run)
    idle = TRUE.and_(NOT(run))
    auto = ft in (0, 3)
    acc = norm([L(f'this._accel_lpf_NE[{i}]') for i in range(2)])
    g = L('this._params.mag_acc_gate')
    yo0 = B('this._yaw_angle_observable')
    yo = AND(ITE(yo0, cmpdd('>', acc, g), cmpdd('>', acc, MUL(lc(2), g))), OR(cflag('gps'), cflag('ev_pos')))
    mo0 = B('this._mag_bias_observable')
    yg = L('this._params.mag_yaw_rate_gate')
    dt = MUL(lc(Fraction('1e-6')), SUB(t, L('this._time_yaw_started')))
    mo = ITE(mo0, cmpdd('>', FN('abs', L('this._yaw_delta_ef')), MUL(MUL(lc(Fraction(1, 2)), yg), dt)), cmpdd('>', FN('abs', L('this._yaw_rate_lpf_ef')), yg))
    t0 = L('this._time_last_mov_3d_mag_suitable')
    tm = ITE(OR(yo, mo), t, t0)
    can3 = AND(al2, cmpdd('<', SUB(t, tm), lc(2000000)))
    use3 = T if ft == 2 else can3 if auto else F
    for mem_, new, old, ty in (('_yaw_angle_observable', yo, yo0, 'bool'), ('_mag_bias_observable', mo, mo0, 'bool'), ('_time_last_mov_3d_mag_suitable', tm, t0, 'uint64_t'),
                               ('_yaw_delta_ef', F, L('this._yaw_delta_ef'), 'float'), ('_time_yaw_started', t, L('this._time_yaw_started'), 'uint64_t')):
        if not auto:
            new = old
        got = mem(fl, mem_, t=ty)
        if ty == 'bool':
            got = tobool(got)
        c.eq('observable', at + f'{mem_} when the magnetometer is used', got, new, w, p)
        c.eq('observable', at + f'{mem_} otherwise', got, old, w, idle)
    n3, nh = ITE(run, use3, AND(m3, NOT(off))), ITE(run, ITE(use3, AND(m3, mh), T), AND(mh, NOT(off)))
    # (a running 3-axis fusion leaves the heading flag alone; it is clear by then)
    flags_are(c, 'mode', at + 'magnetometer control', fl, {
        'mag_field_disturbed': dist, 'mag_aligned_in_flight': ITE(run, al2, al), 'mag_3D': n3, 'mag_hdg': nh,
        'mag_dec': ITE(run, AND(n3, OR(NOT(cflag('gps')), bit('this._params.mag_declination_source', 2))), cflag('mag_dec'))}, TRUE.and_(NOT(AND(m3, mh))))
    c.eq('mode', at + 'bad heading events are forgotten on the ground', dd(mem(fl, '_num_bad_flight_yaw_events', t='uint8_t')), nb, w)
    # covariance of the field states
    for nm, pc, want, sv in (('when fusion stops', TRUE.and_(off), mag_zero, m3), ('idle', TRUE.and_(NOT(off)).and_(NOT(run)), lambda i, j: None, F),
                             ('when 3-axis fusion starts', p.and_(use3).and_(NOT(m3)), mag_loaded, F), ('while 3-axis fusion goes on', p.and_(use3).and_(m3), lambda i, j: None, F),
                             ('with heading fusion', p.and_(NOT(use3)), lambda i, j: None, m3)):
        if pc.false:
            continue
        same_p(c, 'covariance', at + nm, fl, want, pc)
        saved(c, 'covariance', at + nm, fl, sv, pc)
    dcr = B('this._mag_decl_cov_reset')
    # inhibition
    inh = OR(dist, AND(NOT(cflag('gps')), AND(NOT(cflag('ev_pos')), NOT(cflag('ev_vel')))) if ft == 4 else F)
    c.eq('inhibit', at + 'use of the magnetometer is inhibited exactly when disturbed, or indoors without need for the heading', tobool(mem(fl, '_is_yaw_fusion_inhibited', t='bool')), ITE(run, inh, B('this._is_yaw_fusion_inhibited')), w)
    u0 = L('this._mag_use_not_inhibit_us')
    u = ITE(AND(run, NOT(inh)), t, u0)
    c.eq('inhibit', at + 'last time of use', dd(mem(fl, '_mag_use_not_inhibit_us', t='uint64_t')), u, w)
    c.eq('inhibit', at + 'a yaw reset is requested after five seconds of inhibition', tobool(mem(fl, '_mag_inhibit_yaw_reset_req', t='bool')), OR(B('this._mag_inhibit_yaw_reset_req'), AND(run, cmpdd('>', SUB(t, u), lc(5000000)))), w)
    # fusion
    dec = AND(n3, OR(NOT(cflag('gps')), bit('this._params.mag_declination_source', 2)))
    c.eq('fuse', at + '3-axis fusion', orpc(by['fuseMag']), AND(run, use3), w)
    once(c, 'fuse', at + '3-axis fusion', by['fuseMag'])
    c.eq('fuse', at + 'heading fusion', orpc(by['fuseHeading']), AND(run, NOT(use3)), w)
    once(c, 'fuse', at + 'heading fusion', by['fuseHeading'])
    first = AND(AND(run, use3), NOT(dcr))
    later = AND(AND(run, use3), AND(dcr, dec))
    c.eq('fuse', at + 'declination fusion', orpc(by['fuseDeclination']), OR(first, later), w)
    for e in by['fuseDeclination']:
        a = e.data['args'][0]
        c.eq('fuse', at + 'declination is known well right after a reset of the field', a, ITE(dcr, lc(Fraction('0.5')), lc(Fraction('0.02'))), evloc(e), e.pc)
        for g_ in by['fuseMag']:
            for cond, ok in ((first, e.n < g_.n), (later, e.n > g_.n)):
                if witness(AND(AND(conj(e.pc), conj(g_.pc)), cond)) is not None:
                    c.ob('fuse', at + 'declination is fused first only after a reset of the field', ok, evloc(e))
    for e in by['fuseMag'] + by['fuseHeading']:
        c.eq('fuse', at + 'inhibition is decided before the fusion', tobool(fl.peek(e.state, ('this', '_is_yaw_fusion_inhibited'), 'bool')), inh, evloc(e), e.pc)
    c.eq('fuse', at + 'the declination fused after a reset is remembered until the next', tobool(mem(fl, '_mag_decl_cov_reset', t='bool')), OR(AND(dcr, NOT(off)), AND(run, use3)), w)
    frame(c, 'frame', at + 'magnetometer control', fl, ('_control_status', 'P', '_saved_mag_bf_variance', '_saved_mag_ef_covmat', '_mag_yaw_reset_req', '_velpos_reset_request', '_non_mag_yaw_aiding_running_prev', '_yaw_angle_observable',
                                                     '_mag_bias_observable', '_time_last_mov_3d_mag_suitable', '_yaw_delta_ef', '_time_yaw_started', '_is_yaw_fusion_inhibited', '_mag_use_not_inhibit_us', '_mag_inhibit_yaw_reset_req', '_mag_decl_cov_reset', '_num_bad_flight_yaw_events'))
