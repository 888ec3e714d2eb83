"""What the filter reports: estimates, innovations, accuracies, status."""
from vfa.harness import *
from .p_parts import L, B, s, mem, tsyms, total
from .p_sensors import frame
from .p_ekf import ALL_TU, st, me, eqs, v3, mv, norm, orpc, callsof, once
from .p_yaw import flags_of, flags_are, bit, sq
from .p_reset import cflag, Psym
from .p_cov import P0_
from .p_gps import finite, AIDING

VTU = ALL_TU + ('EKF/estimator_interface.cpp', 'EKF/airspeed_fusion.cpp', 'EKF/EKFGSF_yaw.cpp')
EI = 'EstimatorInterface::'
NAN_ = L('nan')


def m(n, *k):
    """member on entry"""
    return L('this.' + n + (f'[{k[0]}]' if k else ''))


def Pm(i, j):
    return leaf(me('P', i, j))


def out(fl, i, k=None, t='float'):
    return fl.peek(fl.S, (('arg', i),) if k is None else (('arg', i), k), t)


def outputs(c, q, wants, rule='report', frame_=()):
    """an access function writes exactly these outputs, {(argument[, index]): value}, and changes nothing"""
    fl = c.flow(q)
    for k, x in wants.items():
        i, j = k if isinstance(k, tuple) else (k, None)
        eqs(c, rule, f'{q}: output {i}' + ('' if j is None else f'[{j}]'), out(fl, i, j), x, loc(fl.f))
    frame(c, rule, q, fl, frame_)
    return fl


def result(c, q, want, rule='report', n=None):
    """an access function returns exactly this: a value or the name of a member vector and its size"""
    fl = c.flow(q)
    w = loc(fl.f)
    v = fl.rvalue(fl.v, fl.S)
    if isinstance(want, (list, tuple)):
        for i, x in enumerate(want):
            got = v.e[i] if isinstance(v, Mat) else v
            eqs(c, rule, f'{q}: element {i}', got, x, w)
        c.ob(rule, f'{q}: number of elements', isinstance(v, Mat) and len(v.e) == len(want), w, lambda: f'{v!r} instead of {len(want)} elements')
    else:
        c.eq(rule, f'{q}', v, want, w)
    frame(c, rule, q, fl, ())
    return fl


def vec(n, k):
    return [m(n, i) for i in range(k)]


@prop('V01', 150)
def reports(c):
    c.load(*VTU)
    V.TYPE_IV.clear()
    V.TYPE_IV['this._dt_ekf_avg'] = (1e-4, 1.0)
    E = 'Ekf::'
    # innovations, variances and test ratios
    for src, mb in (('Gps', '_gps'), ('Ev', '_ev')):
        for suf, mm in (('Innov', 'innov'), ('InnovVar', 'innov_var')):
            outputs(c, f'{E}get{src}VelPos{suf}', {(0, 0): m(f'{mb}_vel_{mm}', 0), (0, 1): m(f'{mb}_vel_{mm}', 1), 1: m(f'{mb}_vel_{mm}', 2),
                                                 (2, 0): m(f'{mb}_pos_{mm}', 0), (2, 1): m(f'{mb}_pos_{mm}', 1), 3: m(f'{mb}_pos_{mm}', 2)}, 'innovation')
        outputs(c, f'{E}get{src}VelPosInnovRatio', {0: m(f'{mb}_vel_test_ratio', 0), 1: m(f'{mb}_vel_test_ratio', 1), 2: m(f'{mb}_pos_test_ratio', 0), 3: m(f'{mb}_pos_test_ratio', 1)}, 'innovation')
    for nm, mb in (('BaroHgt', '_baro_hgt'), ('RngHgt', '_rng_hgt')):
        outputs(c, f'{E}get{nm}Innov', {0: m(mb + '_innov', 2)}, 'innovation')
        outputs(c, f'{E}get{nm}InnovVar', {0: m(mb + '_innov_var', 2)}, 'innovation')
        outputs(c, f'{E}get{nm}InnovRatio', {0: m(mb + '_test_ratio', 1)}, 'innovation')
    for nm, mb, k in (('AuxVel', '_aux_vel', 2), ('Flow', '_flow', 2), ('Mag', '_mag', 3), ('Drag', '_drag', 2)):
        outputs(c, f'{E}get{nm}Innov', {(0, i): m(mb + '_innov', i) for i in range(k)}, 'innovation')
        outputs(c, f'{E}get{nm}InnovVar', {(0, i): m(mb + '_innov_var', i) for i in range(k)}, 'innovation')
    outputs(c, E + 'getAuxVelInnovRatio', {0: m('_aux_vel_test_ratio', 0)}, 'innovation')
    outputs(c, E + 'getFlowInnovRatio', {0: m('_optflow_test_ratio')}, 'innovation')
    outputs(c, E + 'getMagInnovRatio', {0: worst(*vec('_mag_test_ratio', 3))}, 'innovation')
    outputs(c, E + 'getDragInnovRatio', {(0, i): m('_drag_test_ratio', i) for i in range(2)}, 'innovation')
    for nm, a, b, r in (('Heading', '_heading_innov', '_heading_innov_var', '_yaw_test_ratio'), ('Airspeed', '_airspeed_innov', '_airspeed_innov_var', '_tas_test_ratio'),
                        ('Beta', '_beta_innov', '_beta_innov_var', '_beta_test_ratio'), ('Hagl', '_hagl_innov', '_hagl_innov_var', '_hagl_test_ratio')):
        for suf, x in (('', a), ('Var', b), ('Ratio', r)):
            outputs(c, f'{E}get{nm}Innov{suf}', {0: m(x)}, 'innovation')
    # flow
    for nm, mb, k in (('VelBody', '_flow_vel_body', 2), ('VelNE', '_flow_vel_ne', 2), ('Compensated', '_flow_compensated_XY_rad', 2), ('Uncompensated', '_flow_sample_delayed.flow_xy_rad', 2), ('Gyro', '_flow_sample_delayed.gyro_xyz', 3)):
        result(c, f'{E}getFlow{nm}', vec(mb, k), 'flow')
    # states and covariance at the fusion time horizon
    order = [(g, i) for g, k in (('quat_nominal', 4), ('vel', 3), ('pos', 3), ('delta_ang_bias', 3), ('delta_vel_bias', 3), ('mag_I', 3), ('mag_B', 3), ('wind_vel', 2)) for i in range(k)]
    result(c, E + 'getStateAtFusionHorizonAsVector', [leaf(st(g, i)) for g, i in order], 'state')
    Re = tuple(symbol(FL.pname(('this', '_R_ev_to_ekf', (i, j)))) for i in range(3) for j in range(3))
    result(c, E + 'getVisionAlignmentQuaternion', [leaf(fn(f'q_dcm.{k}', Re)) for k in range(4)], 'state')
    result(c, E + 'getWindVelocity', [leaf(st('wind_vel', i)) for i in range(2)], 'state')
    result(c, E + 'getMagBias', [leaf(st('mag_B', i)) for i in range(3)], 'state')
    dt = m('_dt_ekf_avg')
    result(c, E + 'getGyroBias', [DIV(leaf(st('delta_ang_bias', i)), dt) for i in range(3)], 'state')
    result(c, E + 'getAccelBias', [DIV(leaf(st('delta_vel_bias', i)), dt) for i in range(3)], 'state')
    d = [leaf(st('vel', 0)), leaf(st('vel', 1)), leaf(st('vel', 2))]
    for i in range(2):
        d[i] = SUB(d[i], leaf(st('wind_vel', i)))
    outputs(c, E + 'get_true_airspeed', {0: norm(d)}, 'state')
    for nm, a, k in (('getWindVelocityVariance', 22, 2), ('getVelocityVariance', 4, 3), ('getPositionVariance', 7, 3), ('getMagBiasVariance', 19, 3), ('covariances_diagonal', 0, 24)):
        result(c, E + nm, [Pm(a + i, a + i) for i in range(k)], 'covariance')
    for nm, a in (('getGyroBiasVariance', 10), ('getAccelBiasVariance', 13)):
        result(c, E + nm, [DIV(Pm(a + i, a + i), sq(dt)) for i in range(3)], 'covariance')
    for nm, a, k in (('orientation_covariances', 0, 4), ('velocity_covariances', 4, 3), ('position_covariances', 7, 3), ('covariances', 0, 24)):
        result(c, E + nm, [leaf(Psym(a + i, a + j)) for i in range(k) for j in range(k)], 'covariance')
    # resets
    for nm, ch, k in (('posD', 'posD_change', 0), ('velD', 'velD_change', 0), ('posNE', 'posNE_change', 2), ('velNE', 'velNE_change', 2), ('quat', 'quat_change', 4)):
        wants = {0: m(f'_state_reset_status.{ch}')} if not k else {(0, i): m(f'_state_reset_status.{ch}', i) for i in range(k)}
        wants[1] = m(f'_state_reset_status.{nm}_counter')
        outputs(c, f'{E}get_{nm}_reset', wants, 'reset')
    # terrain, origin, checks
    result(c, E + 'isTerrainEstimateValid', B('this._hagl_valid'), 'terrain')
    result(c, E + 'getTerrainVertPos', m('_terrain_vpos'), 'terrain')
    result(c, E + 'get_terrain_var', m('_terrain_var'), 'terrain')
    result(c, E + 'getEkfGlobalOriginAltitude', m('_gps_alt_ref'), 'origin')
    result(c, E + 'getOutputTrackingError', vec('_output_tracking_error', 3), 'output')
    # outputs at the current time: at the origin of the body
    arm = vec('_vel_imu_rel_body_ned', 3)
    result(c, EI + 'getQuaternion', vec('_output_new.quat_nominal', 4), 'output')
    result(c, EI + 'getVelocity', [SUB(m('_output_new.vel', i), arm[i]) for i in range(3)], 'output')
    result(c, EI + 'getVelocityDerivative', vec('_vel_deriv', 3), 'output')
    result(c, EI + 'getVerticalPositionDerivative', SUB(m('_output_vert_new.vert_vel'), arm[2]), 'output')
    off = [F] * 3
    for i in range(3):
        for k in range(3):
            off[i] = ADD(off[i], MUL(leaf(me('_R_to_earth_now', i, k)), m('_params.imu_pos_body', k)))
    result(c, EI + 'getPosition', [SUB(m('_output_new.pos', i), off[i]) for i in range(3)], 'output')
    result(c, EI + 'getImuVibrationMetrics', vec('_vibe_metrics', 3), 'output')
    result(c, EI + 'get_dt_imu_avg', m('_dt_imu_avg'), 'output')
    for nm, f in (('get_in_air_status', 'in_air'), ('get_wind_status', 'wind'), ('isVehicleAtRest', 'vehicle_at_rest')):
        result(c, EI + nm, cflag(f), 'status')
    result(c, EI + 'attitude_valid', AND(finite(m('_output_new.quat_nominal', 0)), cflag('tilt_align')), 'status')
    result(c, EI + 'inertial_dead_reckoning', B('this._is_dead_reckoning'), 'status')
    result(c, EI + 'global_origin_valid', B('this._NED_origin_initialised'), 'origin')
    fl = c.flow(EI + 'get_mag_decl_deg')
    w = loc(fl.f)
    save = AND(B('this._NED_origin_initialised'), bit('this._params.mag_declination_source', 1))
    c.eq('declination', 'can be saved when there is an origin and saving is selected', tobool(fl.rvalue(fl.v, fl.S)), save, w)
    c.eq('declination', 'in degrees', out(fl, 0), DIV(m('_mag_declination_gps'), leaf(div(V.pi_const(), const(180)))), w, TRUE.and_(save))
    frame(c, 'declination', 'get_mag_decl_deg', fl, ())
    # announcements are cleared by the reader, all of one kind and nothing else
    for nm, mb, u in (('clear_warning_events', '_warning_events', 'warning_event_status_u'), ('clear_information_events', '_information_events', 'information_event_status_u')):
        fl = c.flow(EI + nm)
        for f in flags_of(fl, u):
            c.never('events', f'{nm}: {f} is cleared', fl.peek(fl.S, ('this', mb, 'flags', f), 'bool'), loc(fl.f))
        frame(c, 'events', nm, fl, (mb,))
    # settings
    for q, ws in ((EI + 'set_air_density', {'_air_density': L('arg0')}), (EI + 'set_optical_flow_limits', {'_flow_max_rate': L('arg0'), '_flow_min_distance': L('arg1'), '_flow_max_distance': L('arg2')}),
                  (E + 'set_min_required_gps_health_time', {'_min_gps_health_time_us': L('arg0')})):
        fl = c.flow(q)
        for k, x in ws.items():
            c.eq('setting', f'{q}: {k}', mem(fl, k), x, loc(fl.f))
        frame(c, 'setting', q, fl, tuple(ws))
    fl = c.flow(EI + 'set_rangefinder_limits')
    for k, i in (('_rng_valid_min_val', 0), ('_rng_valid_max_val', 1)):
        c.eq('setting', f'set_rangefinder_limits: {k}', mem(fl, '_range_sensor', k), L(f'arg{i}'), loc(fl.f))
    frame(c, 'setting', 'set_rangefinder_limits', fl, ('_range_sensor',))
    fl = c.flow(E + 'requestEmergencyNavReset')
    c.holds('setting', 'an emergency yaw reset is requested', mem(fl, '_do_ekfgsf_yaw_reset', t='bool'), loc(fl.f))
    frame(c, 'setting', 'requestEmergencyNavReset', fl, ('_do_ekfgsf_yaw_reset',))


def worst(*xs):
    r = dd(xs[0])
    for x in xs[1:]:
        r = FN('max', r, dd(x))
    return r


def root(x):
    return FN('sqrt', dd(x))


def hypot(n):
    return norm([m(n, 0), m(n, 1)])


@prop('V02', 12)
def accuracies(c):
    c.load(*VTU)
    V.TYPE_IV.clear()
    for i in range(4, 10):
        V.TYPE_IV[FL.pname(('this', 'P', (i, i)))] = (0.0, 1e12)
    for n in ('_gps_origin_eph', '_gps_origin_epv'):
        V.TYPE_IV['this.' + n] = (0.0, 1e6)
    dr, late = B('this._is_dead_reckoning'), B('this._deadreckon_time_exceeded')
    gps, evp, evv, of = (cflag(x) for x in ('gps', 'ev_pos', 'ev_vel', 'opt_flow'))
    gi, pi_, vi, fi = hypot('_gps_pos_innov'), hypot('_ev_pos_innov'), hypot('_ev_vel_innov'), hypot('_flow_innov')

    def sum2(*xs):
        r = F
        for x in xs:
            r = ADD(r, x)
        return root(r)
    # without aiding the innovations stand in for the variances
    h = sum2(Pm(7, 7), Pm(8, 8), sq(m('_gps_origin_eph')))
    outputs(c, 'Ekf::get_ekf_gpos_accuracy', {0: ITE(AND(dr, gps), worst(h, gi), ITE(AND(dr, evp), worst(h, pi_), h)), 1: sum2(Pm(9, 9), sq(m('_gps_origin_epv')))}, 'global')
    h = sum2(Pm(7, 7), Pm(8, 8))
    outputs(c, 'Ekf::get_ekf_lpos_accuracy', {0: ITE(AND(late, gps), worst(h, gi), h), 1: sum2(Pm(9, 9))}, 'local')
    h = sum2(Pm(4, 4), Pm(5, 5))
    agl = worst(SUB(m('_terrain_vpos'), leaf(st('pos', 2))), worst(P0_('rng_gnd_clearance'), lc(Fraction('0.1'))))
    cons = ITE(of, MUL(agl, fi), F)
    cons = ITE(gps, worst(cons, gi), ITE(evp, worst(cons, pi_), cons))
    cons = ITE(evv, worst(cons, vi), cons)
    outputs(c, 'Ekf::get_ekf_vel_accuracy', {0: ITE(late, worst(h, cons), h), 1: sum2(Pm(6, 6))}, 'velocity')
    # limits the vehicle has to respect
    fl = c.flow('Ekf::get_ekf_ctrl_limits')
    w = loc(fl.f)
    n = F
    for x in (gps, of, evp, evv, AND(cflag('fuse_aspd'), cflag('fuse_beta'))):
        n = ADD(n, ITE(x, lc(1), F))
    flow_only = AND(of, NOT(cmpdd('>', n, lc(1))))
    rng = AND(cflag('rng_hgt'), NOT(tobool(L('this._params.range_aid'))))
    rmin, rmax = m('_range_sensor._rng_valid_min_val'), MUL(lc(Fraction('0.75')), m('_range_sensor._rng_valid_max_val'))
    vmax = worst(MUL(MUL(lc(Fraction('0.5')), m('_flow_max_rate')), SUB(m('_terrain_vpos'), leaf(st('pos', 2)))), F)
    on, two = TRUE.and_(flow_only), TRUE.and_(NOT(flow_only)).and_(rng)
    off = TRUE.and_(NOT(flow_only)).and_(NOT(rng))
    lo, hi = [out(fl, i) for i in (2, 3)]
    eqs(c, 'limits', 'horizontal speed relying on flow alone', out(fl, 0), vmax, w, on)
    eqs(c, 'limits', 'height above ground relying on flow alone: lowest', lo, worst(rmin, m('_flow_min_distance')), w, on)
    eqs(c, 'limits', 'height above ground relying on flow alone: highest', hi, FN('min', rmax, m('_flow_max_distance')), w, on)
    c.eq('limits', 'height above ground relying on the range finder: lowest', lo, rmin, w, two)
    c.eq('limits', 'height above ground relying on the range finder: highest', hi, rmax, w, two)
    for i, p, what in ((0, TRUE.and_(NOT(flow_only)), 'horizontal speed'), (1, TRUE, 'vertical speed'), (2, off, 'lowest height'), (3, off, 'highest height')):
        c.eq('limits', f'no limit of the {what} otherwise', out(fl, i), NAN_, w, p)
    frame(c, 'limits', 'get_ekf_ctrl_limits', fl, ())


TIMEOUTS = ('no_aid_timeout_max', 'valid_timeout_max')


def recent(t, lim):
    """an event at t lies less than lim in the past"""
    return cmpdd('<', SUB(m('_time_last_imu'), dd(t)), dd(lim))


@prop('V03', 60)
def status(c):
    c.load(*VTU)
    V.TYPE_IV.clear()
    used = ['this.' + n for n in ('_time_last_imu', '_time_last_hor_pos_fuse', '_time_last_hor_vel_fuse', '_time_last_delpos_fuse', '_time_last_of_fuse', '_time_last_arsp_fuse', '_time_last_beta_fuse', '_time_last_aiding')]
    tsyms(*used)
    # consistency of the measurements
    fl = c.flow('Ekf::get_innovation_test_status')
    w = loc(fl.f)
    got = fl.peek(fl.S, (('arg', 0),), 'uint16_t')
    lay = fl.union_layout('innovation_fault_status_u')
    bits_are(c, 'consistency', 'result of the innovation checks', fl, got, {o: B(f'this._innov_check_fail_status.flags.{f}') for f, o, b in lay[0]}, w)
    r = lambda n, *k: m(n + '_test_ratio', *k)
    V3 = lambda n: [r(n, i) for i in range(3)]
    nan = NAN_
    hgt = nan
    for f, x in (('ev_hgt', r('_ev_pos', 1)), ('rng_hgt', r('_rng_hgt', 1)), ('gps_hgt', r('_gps_pos', 1)), ('baro_hgt', r('_baro_hgt', 1))):
        hgt = ITE(cflag(f), root(x), hgt)
    for i, what, x in ((1, 'magnetometer and heading', root(worst(r('_yaw'), worst(*V3('_mag'))))), (2, 'velocity', worst(root(worst(r('_gps_vel', 0), r('_gps_vel', 1))), root(worst(r('_ev_vel', 0), r('_ev_vel', 1))))),
                       (3, 'position', worst(root(r('_gps_pos', 0)), root(r('_ev_pos', 0)))), (4, 'height', hgt), (5, 'airspeed', root(r('_tas'))), (6, 'height above ground', root(r('_hagl'))), (7, 'sideslip', root(r('_beta')))):
        eqs(c, 'consistency', f'worst test ratio: {what}', out(fl, i), x, w)
    frame(c, 'consistency', 'get_innovation_test_status', fl, ())
    # what may be used
    fl = c.flow('Ekf::get_ekf_soln_status')
    w = loc(fl.f)
    flags = flags_of(fl, 'fault_status_u')
    bad = F
    for f in flags:
        bad = OR(bad, B(f'this._fault_status.flags.{f}'))
    ok = NOT(bad)
    air = AND(cflag('fuse_beta'), cflag('fuse_aspd'))
    velh, velv = AND(ok, AIDING), AND(ok, OR(OR(cflag('baro_hgt'), cflag('ev_hgt')), OR(cflag('gps_hgt'), cflag('rng_hgt'))))
    pabs = AND(ok, OR(cflag('gps'), cflag('ev_pos')))
    prel = OR(pabs, AND(ok, cflag('opt_flow')))
    gt = lambda x: cmpdd('>', x, lc(1))
    lt = lambda x: cmpdd('<', x, lc(1))
    glitch = AND(OR(gt(r('_gps_vel', 0)), OR(gt(r('_gps_vel', 1)), gt(r('_gps_pos', 0)))), AND(lt(worst(*V3('_mag'))), lt(r('_yaw'))))
    want = {'attitude': AND(ok, AND(cflag('tilt_align'), cflag('yaw_align'))), 'velocity_horiz': velh, 'velocity_vert': velv, 'pos_horiz_rel': prel, 'pos_horiz_abs': pabs, 'pos_vert_abs': velv, 'pos_vert_agl': B('this._hagl_valid'),
            'const_pos_mode': NOT(velh), 'pred_pos_horiz_rel': prel, 'pred_pos_horiz_abs': pabs, 'gps_glitch': glitch, 'accel_error': B('this._fault_status.flags.bad_acc_vertical')}
    lay = fl.union_layout('ekf_solution_status_u' if fl.union_layout('ekf_solution_status_u') else 'ekf_solution_status')
    c.need(lay is not None and {f for f, o, b in lay[0]} == set(want), 'the solution status is not the one known')
    bits_are(c, 'solution', 'solution status', fl, fl.peek(fl.S, (('arg', 0),), 'uint16_t'), {o: want[f] for f, o, b in lay[0]}, w, {o: f for f, o, b in lay[0]})
    frame(c, 'solution', 'get_ekf_soln_status', fl, ())
    # every flag is part of the value reported and tested
    for u in ('fault_status_u', 'innovation_fault_status_u', 'filter_control_status_u', 'ekf_solution_status', 'gps_check_fail_status_u', 'information_event_status_u', 'warning_event_status_u', 'terrain_fusion_status_u'):
        lay = fl.union_layout(u)
        c.need(lay is not None, f'{u} not found')
        for f, o, b in lay[0]:
            c.ob('width', f'{u}: {f} lies within the value', b == 1 and 0 <= o < lay[1], w, lambda: f'bit {o} of a value of {lay[1]} bits')
        c.ob('width', f'{u}: flags do not share a bit', len({o for f, o, b in lay[0]}) == len(lay[0]), w, lambda: '')
    # dead reckoning
    fl = c.flow('Ekf::update_deadreckoning_status')
    w = loc(fl.f)
    na = P0_('no_aid_timeout_max')
    rc = lambda n: recent(m(n), na)
    vp = AND(OR(cflag('gps'), OR(cflag('ev_pos'), cflag('ev_vel'))), OR(rc('_time_last_hor_pos_fuse'), OR(rc('_time_last_hor_vel_fuse'), rc('_time_last_delpos_fuse'))))
    of = AND(cflag('opt_flow'), rc('_time_last_of_fuse'))
    wd = AND(cflag('wind'), AND(rc('_time_last_arsp_fuse'), rc('_time_last_beta_fuse')))
    V.TYPE_IV['this._params.no_aid_timeout_max'] = V.TYPE_IV['this._params.valid_timeout_max'] = (0.0, 1e9)
    dr = AND(NOT(vp), AND(NOT(of), NOT(wd)))
    c.eq('dead reckoning', 'on wind relative measurements alone', tobool(mem(fl, '_is_wind_dead_reckoning', t='bool')), AND(NOT(vp), AND(NOT(of), wd)), w)
    c.eq('dead reckoning', 'without any measurement constraining the drift', tobool(mem(fl, '_is_dead_reckoning', t='bool')), dr, w)
    la = ITE(dr, m('_time_last_aiding'), SUB(m('_time_last_imu'), na))
    c.eq('dead reckoning', 'time of the last aiding', mem(fl, '_time_last_aiding', t='uint64_t'), la, w)
    c.eq('dead reckoning', 'for too long, or never aided', tobool(mem(fl, '_deadreckon_time_exceeded', t='bool')), OR(cmpdd('==', la, F), NOT(cmpdd('>=', ADD(la, P0_('valid_timeout_max')), m('_time_last_imu')))), w)
    frame(c, 'dead reckoning', 'update_deadreckoning_status', fl, ('_is_wind_dead_reckoning', '_is_dead_reckoning', '_time_last_aiding', '_deadreckon_time_exceeded'))
    local = AND(NOT(B('this._deadreckon_time_exceeded')), NOT(B('this._using_synthetic_position')))
    result(c, 'Ekf::local_position_is_valid', local, 'validity')
    result(c, 'Ekf::global_position_is_valid', AND(B('this._NED_origin_initialised'), local), 'validity')


def bits_are(c, rule, what, fl, got, want, w, names=None):
    """the bits of an integer: offset -> condition, all the others clear"""
    if isinstance(got, DD) and got.var is None and isinstance(got.e.aux, Bits):
        got = got.e.aux
    b = fl.tobits(got, 32).b if not isinstance(got, Bits) else got.b
    for i in range(max(len(b), max(want) + 1)):
        g = b[i] if i < len(b) else F
        c.eq(rule, f'{what}: bit {i}' + (f' ({names[i]})' if names and i in names else ''), g, want.get(i, F), w)
