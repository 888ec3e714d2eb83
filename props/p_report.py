"""What a new estimator is, and the plain status words it reports."""
import os
import vfa.flow as FLW
from vfa.harness import *
from vfa.harness import _occurs
from .p_parts import L, B
from .p_sensors import frame
from .p_status import VTU, EI, m, vec, result
from .p_ekf import eqs, st, me
from .p_yaw import flags_of
from .p_gsf import Q as GSF

OBJECTS = os.path.join(VERIF, 'shim', 'probe_objects.cpp')

# bit -> name, as documented for the readers of the words
WORDS = {
    'fault_status_u': 'bad_mag_x bad_mag_y bad_mag_z bad_hdg bad_mag_decl bad_airspeed bad_sideslip bad_optflow_X bad_optflow_Y bad_vel_N bad_vel_E bad_vel_D bad_pos_N bad_pos_E bad_pos_D '
                      'bad_acc_bias bad_acc_vertical bad_acc_clipping',
    'innovation_fault_status_u': 'reject_hor_vel reject_ver_vel reject_hor_pos reject_ver_pos reject_mag_x reject_mag_y reject_mag_z reject_yaw reject_airspeed reject_sideslip reject_hagl '
                                 'reject_optflow_X reject_optflow_Y',
    'gps_check_fail_status_u': 'fix nsats pdop hacc vacc sacc hdrift vdrift hspeed vspeed',
    'filter_control_status_u': 'tilt_align yaw_align gps opt_flow mag_hdg mag_3D mag_dec in_air wind baro_hgt rng_hgt gps_hgt ev_pos ev_yaw ev_hgt fuse_beta mag_field_disturbed fixed_wing mag_fault '
                               'fuse_aspd gnd_effect rng_stuck gps_yaw mag_aligned_in_flight ev_vel synthetic_mag_z vehicle_at_rest',
    'ekf_solution_status': 'attitude velocity_horiz velocity_vert pos_horiz_rel pos_horiz_abs pos_vert_abs pos_vert_agl const_pos_mode pred_pos_horiz_rel pred_pos_horiz_abs gps_glitch accel_error',
    'terrain_fusion_status_u': 'range_finder flow',
    'information_event_status_u': 'gps_checks_passed reset_vel_to_gps reset_vel_to_flow reset_vel_to_vision reset_vel_to_zero reset_pos_to_last_known reset_pos_to_gps reset_pos_to_vision '
                                  'starting_gps_fusion starting_vision_pos_fusion starting_vision_vel_fusion starting_vision_yaw_fusion yaw_aligned_to_imu_gps',
    'warning_event_status_u': 'gps_quality_poor gps_fusion_timout gps_data_stopped gps_data_stopped_using_alternate height_sensor_timeout stopping_navigation invalid_accel_bias_cov_reset '
                              'bad_yaw_using_gps_course stopping_mag_use vision_data_stopped emergency_yaw_reset_mag_stopped',
}


@prop('V04', 150)
def words(c):
    """The status words have their documented layout and are reported as they are held."""
    c.load(*VTU)
    V.TYPE_IV.clear()
    E = 'Ekf::'
    fl = c.flow(E + 'isTerrainEstimateValid')
    for u, names in WORDS.items():
        names = names.split()
        lay = fl.union_layout(u) or fl.union_layout('estimator::' + u)
        c.need(lay is not None, f'status word {u}')
        pos = {n: (o, b) for n, o, b in lay[0]}
        cls = c.prog.cls(u) or c.prog.cls('estimator::' + u)
        w = f'{rel(cls.file)}:{cls.line} {u}' if cls.file else u
        for i, n in enumerate(names):
            c.ob('layout', f'{u}: {n} is bit {i} of the word', pos.get(n) == (i, 1), w, lambda: f'{n} is at {pos.get(n)}')
        c.ob('layout', f'{u}: the word holds all of its flags', lay[1] >= lay[2], w, lambda: f'{lay[2]} bits of flags in a word of {lay[1]}')

    def same(q, path, t, rule='status'):
        """the value behind what q returns is that of the member"""
        fl = c.flow(q)
        w = loc(fl.f)
        v = fl.v
        if not isinstance(v, FLW.LV):
            v = fl.rvalue(v, fl.S)
        n = 0
        for p, ty, bits in fl.struct_leaves(t):
            got = fl.peek(fl.S, v.path + p, ty) if isinstance(v, FLW.LV) else v.d.get(p)
            c.ob(rule, f'{q}: {FLW.pname(p)}', got is not None and differs(dd(got), dd(fl.peek(fl.S, ('this',) + path + p, ty))) is None, w,
                 lambda: f'returns {showdd(dd(got))[:300]}')
            n += 1
        c.need(n, f'leaves of {t}')
        frame(c, rule, q, fl, ())

    for q, path, u in (('control_status', '_control_status', 'filter_control_status_u'), ('control_status_prev', '_control_status_prev', 'filter_control_status_u'),
                       ('fault_status', '_fault_status', 'fault_status_u'), ('innov_check_fail_status', '_innov_check_fail_status', 'innovation_fault_status_u'),
                       ('warning_event_status', '_warning_events', 'warning_event_status_u'), ('information_event_status', '_information_events', 'information_event_status_u')):
        same(EI + q, (path,), u)
        u = c.prog.cls(u) or c.prog.cls('estimator::' + u)
        flg = next(f for f in u.fields if f.name == 'flags')
        same(EI + q.replace('event_status', 'event') + '_flags', (path, 'flags'), flg.type)
    for q, path, t in (('get_imu_sample_delayed', '_imu_sample_delayed', 'imuSample'), ('get_baro_sample_delayed', '_baro_sample_delayed', 'baroSample'),
                       ('global_origin', '_pos_ref', 'map_projection_reference_s')):
        same(EI + q, (path,), t, 'sample')
    cl = c.prog.cls('Ekf')
    same(E + 'state_reset_status', ('_state_reset_status',), next(f for f in cl.fields if f.name == '_state_reset_status').type, 'reset')
    for q, mb in (('clear_warning_events', '_warning_events'), ('clear_information_events', '_information_events')):
        fl = c.flow(EI + q)
        for f in WORDS[{'_warning_events': 'warning_event_status_u', '_information_events': 'information_event_status_u'}[mb]].split():
            c.eq('cleared', f'{q}: {f}', tobool(fl.peek(fl.S, ('this', mb, 'flags', f), 'bool')), F, loc(fl.f))
        frame(c, 'cleared', q, fl, (('this', mb),))
    # words handed out by value
    for q, mb, u in (('getTerrainEstimateSensorBitfield', '_hagl_sensor_status', 'terrain_fusion_status_u'),):
        fl = c.flow(E + q)
        word(c, fl, q, fl.rvalue(fl.v, fl.S), mb, u)
        frame(c, 'word', q, fl, ())
    for q, mb, u, i in (('get_gps_check_status', '_gps_check_fail_status', 'gps_check_fail_status_u', 0),):
        fl = c.flow(E + q)
        word(c, fl, q, fl.S.d.get((('arg', i),)), mb, u)
        frame(c, 'word', q, fl, ())
    fl = c.flow(EI + 'getParamHandle')
    v = fl.rvalue(fl.v, fl.S)
    c.ob('configuration', 'the configuration handle is the configuration in use', is_leaf(v) and v.e.op == 'addr' and v.e.aux == ('this', '_params'), loc(fl.f), lambda: showdd(v))
    frame(c, 'configuration', 'getParamHandle', fl, ())
    # the vision alignment as a quaternion, and the log of the yaw estimator
    seen = []
    fl = c.flow(E + 'getDataEKFGSF', opaque={GSF + 'getLogData'}, hooks={'getLogData': lambda fl, f, this, args, S, n: seen.append((this, [fl.rvalue(fl.eval(a, S), S) for a in args])) or B('log')})
    w = loc(fl.f)
    c.ob('log', 'the log of the yaw estimator is passed on', len(seen) == 1 and seen[0][0] == ('this', '_yawEstimator'), w, lambda: f'{seen}')
    for i, a in enumerate(seen[0][1] if seen else ()):
        want = {(('arg', i),), (('arg', i), 0)}
        p = a.e.aux if is_leaf(a) and a.e.op == 'addr' else None
        c.ob('log', f'log entry {i} goes to its place', p in want or is_leaf(a) and a is dd(L(f'arg{i}')), w, lambda: showdd(a))
    c.eq('log', 'says whether there is one', tobool(fl.rvalue(fl.v, fl.S)), B('log'), w)


def word(c, fl, q, got, mb, u):
    """a word assembled from its flags"""
    names = WORDS[u].split()
    flags = [B(f'this.{mb}.flags.{f}') for f in names]
    w = loc(fl.f)
    if got is not None and not isinstance(got, FLW.Bits) and is_leaf(got) and got.e.op == 'bits':
        got = got.e.aux
    if isinstance(got, FLW.Bits):
        for i, x in enumerate(got.b):
            c.eq('word', f'{q}: bit {i} of the word', x, flags[i] if i < len(flags) else F, w)
        c.ob('word', f'{q}: the word has room for all flags', len(got.b) >= len(flags), w)
        return
    c.need(got is not None, f'{q}: the word')
    want = F
    for i, f in enumerate(flags):
        want = ADD(want, ITE(f, lc(1 << i), F))
    c.eq('word', f'{q}: the word of all flags', fl.num(got), want, w)


# ------------------------------------------------------------------ a new estimator
CLEAR = ('_control_status', '_control_status_prev', '_fault_status', '_innov_check_fail_status', '_warning_events', '_information_events', '_hagl_sensor_status')


QUIET = """_initialised _filter_initialised _NED_origin_initialised _gps_speed_valid _imu_updated _hagl_valid _gps_checks_passed _do_ekfgsf_yaw_reset _gps_data_ready _mag_data_ready
_baro_data_ready _flow_data_ready _flow_for_terrain_data_ready _ev_data_ready _tas_data_ready _baro_hgt_faulty _gps_hgt_intermittent _is_gps_yaw_faulty _bad_vert_accel_detected _accel_bias_inhibit
_airspeed_buffer_fail _auxvel_buffer_fail _baro_buffer_fail _drag_buffer_fail _ev_buffer_fail _flow_buffer_fail _gps_buffer_fail _mag_buffer_fail _range_buffer_fail _inhibit_flow_use
_is_dead_reckoning _is_wind_dead_reckoning _is_range_aid_suitable _is_yaw_fusion_inhibited _mag_bias_observable _yaw_angle_observable _mag_decl_cov_reset _mag_inhibit_yaw_reset_req _mag_yaw_reset_req
_non_mag_yaw_aiding_running_prev _synthetic_mag_z_active _terrain_initialised _using_synthetic_position _velpos_reset_request _hpos_prev_available _fuse_hpos_as_odom _gps_drift_updated
_gps_check_fail_status"""
ZERO = """P _airspeed_innov _airspeed_innov_var _aux_vel_innov _aux_vel_innov_var _aux_vel_test_ratio _baro_hgt_innov _baro_hgt_innov_var _baro_hgt_test_ratio _beta_innov _beta_innov_var _beta_test_ratio
_drag_innov _drag_innov_var _drag_test_ratio _ev_pos_innov _ev_pos_innov_var _ev_pos_test_ratio _ev_vel_innov _ev_vel_innov_var _ev_vel_test_ratio _flow_innov _flow_innov_var _gps_pos_innov
_gps_pos_innov_var _gps_pos_test_ratio _gps_vel_innov _gps_vel_innov_var _gps_vel_test_ratio _hagl_innov _hagl_innov_var _hagl_test_ratio _heading_innov _heading_innov_var _mag_innov _mag_innov_var
_mag_test_ratio _optflow_test_ratio _rng_hgt_innov _rng_hgt_innov_var _rng_hgt_test_ratio _tas_test_ratio _yaw_test_ratio _vert_pos_innov_ratio _vert_vel_innov_ratio _vibe_metrics
_output_tracking_error _gps_drift_metrics _baro_counter _mag_counter _baro_sample_count _mag_sample_count _baro_alt_sum _mag_data_sum _baro_timestamp_sum _mag_timestamp_sum _clip_counter
_drag_sample_count _drag_sample_time_dt _drag_down_sampled _ekfgsf_yaw_reset_count _ekfgsf_yaw_reset_time _num_bad_flight_yaw_events _baro_hgt_offset _hgt_sensor_offset _gps_yaw_offset
_delta_angle_bias_var_accum _delta_vel_bias_var_accum _delta_angle_corr _flow_gyro_bias _imu_del_ang_of _delta_time_of _pos_err_integ _vel_err_integ _flt_mag_align_start_time _mag_use_not_inhibit_us
_accel_lpf_NE _yaw_delta_ef _yaw_rate_lpf_ef _earth_rate_NED _last_known_posNE _accel_magnitude_filt _ang_rate_magnitude_filt"""


@prop('P03', 1200)
def fresh(c):
    """Construction defines every member, and the state it defines claims nothing."""
    c.load(OBJECTS, *VTU, 'EKF/imu_down_sampler.cpp', 'airdata/WindEstimator.cpp')
    V.TYPE_IV.clear()
    fl = c.flow('Ekf::isTerrainEstimateValid')
    at = c.prog.one('probe::new_ekf')

    def make(t, args=()):
        """leaves of a new object: default member initialisers, then the constructor"""
        fl.frames.append(FLW.Frame(at, ('this',), at.tu, 0))
        try:
            s = fl.default_struct(t, fl.S, False)
        finally:
            fl.frames.pop()
        c.need(s is not None, f'class {t}')
        return dict(s.d)

    def built(t):
        """a new object of a class with constructors of its own: the state after each"""
        cl = c.prog.cls(t)
        fs = [f for f in c.prog.funcs.values() if f.kind == 'CXXConstructorDecl' and f.cls == (cl.qual if cl else t) and f.has_body and not f.implicit]
        return fs

    start = []

    def later(p, ty):
        """the initialisation that comes first sets it, whatever it was"""
        if not start:
            start.append(c.flow('Ekf::init'))
        g = start[0]
        x = dd(g.peek(g.S, ('this',) + p, ty))
        own = dd(g.peek(FLW.State(), ('this',) + p, ty))
        return not (support(x) & support(own)) and not any(_occurs(o, e) for o in leaves(own) if not isconst(o) for e in leaves(x)) and not any(
            isinstance(ATOMS[v].d, DD) and any(_occurs(o, e) for o in leaves(own) if not isconst(o) for e in leaves(ATOMS[v].d)) for v in support(x))

    count = {}
    for t in ('Ekf', 'EKFGSF_yaw', 'WindEstimator'):
        cl = c.prog.cls(t)
        d = make(t)
        w = f'{rel(cl.file)}:{cl.line} {t}' if cl.file else t
        fs = [f for f in built(t) if not f.params]
        if fs:
            g = c.flow(None, f=fs[0], state=entry(d))
            d = {p: dd(g.peek(g.S, ('this',) + p, ty)) for p, ty, b in g.struct_leaves(t) if p in d or ('this',) + p in g.S.d}
        count[t] = 0
        for p, ty, bits in fl.struct_leaves(t):
            count[t] += 1
            c.ob('defined', f'{t}: {FLW.pname(p)} has a value from construction on', p in d or t == 'Ekf' and later(p, ty), w, 'the member is left uninitialised')
        if t != 'Ekf':
            continue
        get = lambda *p: d.get(p)
        for u in CLEAR:
            ls = [p for p in d if p[0] == u]
            for p in ls:
                c.eq('nothing', f'new: {FLW.pname(p)} is not set', tobool(d[p]), F, w)
        for n in QUIET.split():
            ls = [p for p in d if p[0] == n]
            for p in ls:
                c.eq('nothing', f'new: {FLW.pname(p)} does not hold', tobool(d[p]), F, w)
        for n in ('_deadreckon_time_exceeded', '_is_first_imu_sample'):
            if (n,) in d:
                c.eq('nothing', f'new: {n} holds until something has been measured', tobool(d[(n,)]), T, w)
        for n in ZERO.split():
            for p in [p for p in d if p[0] == n]:
                c.eq('zero', f'new: {FLW.pname(p)} starts from zero', dd(d[p]), F, w)
        for n in ('_mag_declination_gps', '_mag_inclination_gps', '_mag_strength_gps'):
            if (n,) in d:
                x = dd(d[(n,)])
                c.ob('nothing', f'new: {n} is not known', is_leaf(x) and showdd(x) == 'nan', w, lambda: showdd(x))
        for n in ('_terrain_var', '_gps_error_norm'):
            if (n,) in d:
                x = dd(d[(n,)])
                c.ob('nothing', f'new: {n} claims no accuracy', is_leaf(x) and isconst(x.e) and x.e.aux >= 1, w, lambda: showdd(x))
        for p in sorted(d, key=str):
            if len(p) == 1 and p[0].startswith(('_time_last', '_last_', '_time_bad', '_time_good', '_time_prev')) and fl_int(fl, t, p):
                c.eq('nothing', f'new: {p[0]} is no time yet', dd(d[p]), F, w)
        for q in (('_state', 'quat_nominal'), ('_output_new', 'quat_nominal'), ('_state_reset_status', 'quat_change')):
            for i in range(4):
                c.eq('attitude', f'new: {".".join(q)}[{i}] is part of no rotation', dd(d.get(q + ((i, 0),), L('undefined'))), lc(1) if i == 0 else F, w)
        for q in ('_R_to_earth', '_R_ev_to_ekf'):
            for i in range(3):
                for j in range(3):
                    c.eq('attitude', f'new: {q}[{i},{j}] is part of no rotation', dd(d.get((q, (i, j)), L('undefined'))), lc(1) if i == j else F, w)
        # the configuration it starts with can be used as it is
        cf = c.prog.cls('estimator::parameters') or c.prog.cls('parameters')
        w = f'{rel(cf.file)}:{cf.line} parameters' if cf.file else 'parameters'
        val = {}
        for p, v in d.items():
            if p[0] == '_params':
                x = dd(v)
                val[p[1:]] = x.e.aux if is_leaf(x) and isconst(x.e) else None
        c.need(len(val) > 80, 'parameters')
        for p, x in sorted(val.items(), key=str):
            n = p[0]
            if len(p) > 1:
                c.ob('configuration', f'{FLW.pname(p)} is not misplaced by default', x == 0, w, lambda: f'{x}')
            elif n.endswith('gate') and n not in ('mag_acc_gate', 'mag_yaw_rate_gate'):
                c.ob('configuration', f'{n}: at least one standard deviation', x is not None and x >= 1, w, lambda: f'{x}')
            elif 'noise' in n and 'scaler' not in n or n in ('switch_on_gyro_bias', 'switch_on_accel_bias', 'initial_tilt_err', 'initial_wind_uncertainty', 'quat_max_variance', 'bcoef_x', 'bcoef_y',
                                                              'vel_Tau', 'pos_Tau', 'acc_bias_lim', 'EKFGSF_yaw_err_max', 'range_cos_max_tilt', 'rng_gnd_clearance'):
                c.ob('configuration', f'{n} is positive', x is not None and x > 0, w, lambda: f'{x}')
            elif n.endswith('_delay_ms'):
                c.ob('configuration', f'{n}: no sample comes before its time', x is not None and x >= 0, w, lambda: f'{x}')
            elif n.endswith(('_timeout_max', '_delay_us', 'EKFGSF_reset_delay')) or n.startswith('req_'):
                c.ob('configuration', f'{n} is positive', x is not None and x > 0, w, lambda: f'{x}')
        for a, b in (('valid_timeout_max', 'reset_timeout_max'), ('no_aid_timeout_max', 'reset_timeout_max'), ('flow_noise', 'flow_noise_qual_min')):
            x, y = val.get((a,)), val.get((b,))
            if x is not None and y is not None:
                c.ob('configuration', f'{a} is below {b}', x <= y, w, lambda: f'{x}, {y}')
    # parts with constructors of their own
    D = 'ImuDownSampler'
    fs = [f for f in built(D) if len(f.params) == 1]
    c.need(len(fs) == 1, 'constructor of the down sampler')
    d = make(D)
    g = c.flow(None, f=fs[0], state=entry(d))
    w = loc(fs[0])
    for p, ty, bits in g.struct_leaves(D):
        x = dd(g.peek(g.S, ('this',) + p, ty))
        c.ob('defined', f'{D}: {FLW.pname(p)} has a value from construction on', p in d or ('this',) + p in g.S.d, w, 'the member is left uninitialised')
        if p == ('_target_dt',):
            c.eq('sampler', 'the target is the one asked for', x, L('arg0'), w)
        elif p[0] == '_imu_down_sampled' and p[1] != 'time_us':
            c.eq('sampler', f'starts with nothing accumulated: {FLW.pname(p)}', x, F, w)
        elif p[0] == '_delta_angle_accumulated':
            c.eq('sampler', f'starts with no rotation: {FLW.pname(p)}', x, lc(1) if p[1] in ((0, 0), 0) else F, w)
    c.note(f'members examined: {count}')


def entry(d):
    S = FLW.State()
    for p, v in d.items():
        S.d[('this',) + p] = v
    return S


def fl_int(fl, t, p):
    return next((ty for q, ty, b in fl.struct_leaves(t) if q == p), '').replace('const ', '').startswith(('uint64', 'unsigned', 'uint32', 'int'))
