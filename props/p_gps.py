"""GPS quality checks and the origin of the local frame."""
from vfa.harness import *
from vfa.flow import LV
from .p_parts import L, B, s, mem, tsyms
from .p_sensors import frame
from .p_ekf import ALL_TU, st, me, eqs, clamp, norm, orpc, callsof, once
from .p_yaw import flags_of, flags_are, events_are, bit, sq
from .p_reset import cflag

GTU = ALL_TU + ('EKF/estimator_interface.cpp', 'EKF/gps_checks.cpp', 'geo/geo.cpp')
E7 = Fraction('1e-7')
REFS = ('lat_rad', 'lon_rad')


def rad(e):
    return leaf(mul(e, div(V.pi_const(), const(180))))


def projection_hooks():
    """the local projection as a function of its reference and the coordinates (N01, N02)"""
    def place(fl, args, S, k, inv):
        ref = fl.deref(fl.rvalue(fl.eval(args[0], S), S), '', S).path
        r = [dd(fl.peek(S, ref + (m,), 'double')) for m in REFS]
        a = [S.pc.simp(dd(fl.num(fl.rvalue(fl.eval(args[i], S), S)))) for i in (1, 2)]
        outs = [fl.deref(fl.rvalue(fl.eval(args[i], S), S), 'double' if inv else 'float', S) for i in (3, 4)]
        fl.event('project', 'reproject' if inv else 'project', S, (ref, a))
        for i, o in enumerate(outs):
            fl.store(S, o, pos_of(r, a, i) if not inv else geo_of(r, a, i))
        return ITE(tobool(fl.peek(S, ref + ('init_done',), 'bool')), F, lc(-1))
    return {'map_projection_project': lambda fl, f, this, args, S, n: place(fl, args, S, 0, False),
            'map_projection_reproject': lambda fl, f, this, args, S, n: place(fl, args, S, 0, True)}


def pos_of(ref, latlon, i):
    return FN('local%d' % i, *ref, *latlon)


def geo_of(ref, xy, i):
    return FN('global%d' % i, *ref, *xy)


FAIL = 'gps_check_fail_status_u'
# check flag -> bit of the user's selection
SEL = {'nsats': 0, 'pdop': 1, 'hacc': 2, 'vacc': 3, 'sacc': 4, 'hdrift': 5, 'vdrift': 6, 'hspeed': 7, 'vspeed': 8}


def gps_ranges():
    V.TYPE_IV.clear()
    tsyms('this._time_last_imu', 'this._gps_pos_prev.timestamp', 'this._last_gps_fail_us', 'this._last_gps_pass_us', 'this._min_gps_health_time_us', 'this._ekfgsf_yaw_reset_time', 'this._last_gps_origin_time_us')
    for n in ('req_hacc', 'req_vacc', 'req_sacc', 'req_hdrift', 'req_vdrift'):
        V.TYPE_IV['this._params.' + n] = (0.01, 100.0)
    V.TYPE_IV['arg0.fix_type'] = V.TYPE_IV['arg0.nsats'] = (0.0, 255.0)


@prop('Q01', 40)
def checks(c):
    c.load(*GTU)
    gps_ranges()
    fl = c.flow('Ekf::gps_is_good', hooks=projection_hooks())
    w = loc(fl.f)
    prm = lambda n: L('this._params.' + n)
    now = L('this._time_last_imu')
    lat, lon = MUL(L('arg0.lat'), lc(E7)), MUL(L('arg0.lon'), lc(E7))
    dt = clamp(MUL(SUB(now, L('this._gps_pos_prev.timestamp')), lc(Fraction('1e-6'))), lc(Fraction('0.001')), lc(10))
    a = DIV(dt, lc(10))
    b = SUB(lc(1), a)
    air, rest = cflag('in_air'), cflag('vehicle_at_rest')
    still = AND(NOT(air), rest)
    first = cmpdd('<=', L('this._gps_pos_prev.timestamp'), F)
    alt = MUL(lc(Fraction('0.001')), L('arg0.alt'))
    ref = [L('this._gps_pos_prev.' + m) for m in REFS]
    dp = [ITE(first, F, pos_of(ref, [lat, lon], i)) for i in range(2)] + [ITE(first, F, SUB(L('this._gps_alt_prev'), alt))]
    lim = [prm('req_hdrift'), prm('req_hdrift'), prm('req_vdrift')]
    ten = lc(10)
    der, old = [], [L(f'this._gps_pos_deriv_filt[{i}]') for i in range(3)]
    for i in range(3):
        m = MUL(ten, lim[i])
        der.append(ADD(MUL(clamp(DIV(dp[i], dt), NEG(m), m), a), MUL(old[i], b)))
    vel = []
    for i in range(2):
        m = MUL(ten, prm('req_hdrift'))
        vel.append(ADD(MUL(clamp(L(f'arg0.vel_ned[{i}]'), NEG(m), m), a), MUL(L(f'this._gps_velNE_filt[{i}]'), b)))
    p = TRUE.and_(still)
    q = TRUE.and_(NOT(still))
    for i in range(3):
        eqs(c, 'filter', f'at rest on the ground: filtered drift {i}', mem(fl, '_gps_pos_deriv_filt', (i, 0)), der[i], w, p)
        eqs(c, 'filter', f'in the air or moving: drift filter {i} starts over', mem(fl, '_gps_pos_deriv_filt', (i, 0)), F, w, q)
    for i in range(2):
        eqs(c, 'filter', f'at rest on the ground: filtered velocity {i}', mem(fl, '_gps_velNE_filt', (i, 0)), vel[i], w, p)
        eqs(c, 'filter', f'in the air or moving: velocity filter {i} starts over', mem(fl, '_gps_velNE_filt', (i, 0)), F, w, q)
    m = MUL(ten, prm('req_vdrift'))
    vd = ADD(MUL(clamp(SUB(L('arg0.vel_ned[2]'), leaf(st('vel', 2))), NEG(m), m), a), MUL(L('this._gps_velD_diff_filt'), b))
    eqs(c, 'filter', 'difference of the vertical velocities', mem(fl, '_gps_velD_diff_filt'), vd, w)
    f3 = [dd(mem(fl, '_gps_pos_deriv_filt', (i, 0))) for i in range(3)]
    f2 = [dd(mem(fl, '_gps_velNE_filt', (i, 0))) for i in range(2)]
    met = [norm(f3[:2]), FN('abs', f3[2]), norm(f2)]
    for i, x in enumerate(met):
        eqs(c, 'metric', f'at rest on the ground: drift metric {i}', mem(fl, '_gps_drift_metrics', i), x, w, p)
        eqs(c, 'metric', f'in the air or moving: drift metric {i} is kept', mem(fl, '_gps_drift_metrics', i), L(f'this._gps_drift_metrics[{i}]'), w, q)
    c.eq('metric', 'new metrics or a blocked calculation are reported on the ground only', tobool(mem(fl, '_gps_drift_updated', t='bool')), NOT(air), w)
    got = {f: tobool(fl.peek(fl.S, ('this', '_gps_check_fail_status', 'flags', f), 'bool')) for f in flags_of(fl, FAIL)}
    c.need(set(got) == set(SEL) | {'fix'}, 'the GPS checks are not the ones known')
    gt = lambda x, n: cmpdd('>', x, prm(n))
    want = {'fix': cmpdd('<', L('arg0.fix_type'), lc(3)), 'nsats': cmpdd('<', L('arg0.nsats'), prm('req_nsats')), 'pdop': gt(L('arg0.pdop'), 'req_pdop'),
            'hacc': gt(L('arg0.eph'), 'req_hacc'), 'vacc': gt(L('arg0.epv'), 'req_vacc'), 'sacc': gt(L('arg0.sacc'), 'req_sacc')}
    mg = [dd(mem(fl, '_gps_drift_metrics', i)) for i in range(3)]
    for f, x, n in (('hdrift', mg[0], 'req_hdrift'), ('vdrift', mg[1], 'req_vdrift'), ('hspeed', mg[2], 'req_hdrift')):
        keep = B(f'this._gps_check_fail_status.flags.{f}')
        c.eq('verdict', f'at rest on the ground: {f} fails above its limit', got[f], gt(x, n), w, p)
        c.eq('verdict', f'in the air: {f} passes', got[f], F, w, TRUE.and_(air))
        c.eq('verdict', f'moving on the ground: {f} keeps its result', got[f], keep, w, TRUE.and_(NOT(air)).and_(NOT(rest)))
    for f, x in want.items():
        c.eq('verdict', f'{f} fails exactly outside its limit', got[f], x, w)
    c.eq('verdict', 'vspeed fails above its limit', got['vspeed'], gt(FN('abs', dd(mem(fl, '_gps_velD_diff_filt'))), 'req_vdrift'), w)
    # only the checks selected count; a 3D fix always does
    bad = got['fix']
    for f, k in SEL.items():
        bad = OR(bad, AND(got[f], bool_atom(fn('bit', (s('this._params.gps_check_mask'), const(k))))))
    lf = L('this._last_gps_fail_us')
    lf0 = ITE(cmpdd('==', lf, F), now, lf)
    fail = dd(mem(fl, '_last_gps_fail_us', t='uint64_t'))
    c.eq('health', 'the last failure is remembered, the first fix counts as one', fail, ITE(bad, now, lf0), w)
    c.eq('health', 'the last pass is remembered', mem(fl, '_last_gps_pass_us', t='uint64_t'), ITE(bad, L('this._last_gps_pass_us'), now), w)
    c.eq('health', 'good only after a period without a failure', tobool(fl.rvalue(fl.v, fl.S)), cmpdd('<', ADD(ITE(bad, now, lf0), L('this._min_gps_health_time_us')), now), w)
    r = FN('max', FN('max', DIV(L('arg0.eph'), prm('req_hacc')), DIV(L('arg0.epv'), prm('req_vacc'))), DIV(L('arg0.sacc'), prm('req_sacc')))
    eqs(c, 'quality', 'the quality norm is the worst accuracy relative to its limit', mem(fl, '_gps_error_norm'), r, w)
    for m_, x in (('lat_rad', rad(mul(s('arg0.lat'), const(E7)))), ('lon_rad', rad(mul(s('arg0.lon'), const(E7)))), ('timestamp', now)):
        c.eq('previous', f'the fix is kept for the next check: {m_}', fl.peek(fl.S, ('this', '_gps_pos_prev', m_), 'double'), x, w)
    c.eq('previous', 'the altitude is kept for the next check', mem(fl, '_gps_alt_prev'), alt, w)
    c.holds('previous', 'the fix kept is a valid reference', fl.peek(fl.S, ('this', '_gps_pos_prev', 'init_done'), 'bool'), w)
    frame(c, 'frame', 'the check', fl, ('_gps_check_fail_status', '_gps_pos_prev', '_gps_alt_prev', '_gps_velD_diff_filt', '_gps_velNE_filt', '_gps_pos_deriv_filt', '_gps_drift_metrics', '_gps_drift_updated',
                                        '_last_gps_fail_us', '_last_gps_pass_us', '_gps_error_norm'))
    # the metrics are handed out once
    fl = c.flow('Ekf::get_gps_drift_metrics')
    w = loc(fl.f)
    for i in range(3):
        c.eq('report', f'metric {i} is handed out', fl.peek(fl.S, (('arg', 0), i), 'float'), L(f'this._gps_drift_metrics[{i}]'), w)
    c.eq('report', 'a moving vehicle blocks the metrics', tobool(fl.peek(fl.S, (('arg', 1),), 'bool')), NOT(rest), w)
    c.eq('report', 'reported as new once', tobool(fl.rvalue(fl.v, fl.S)), B('this._gps_drift_updated'), w)
    c.never('report', 'read metrics are not new any more', mem(fl, '_gps_drift_updated', t='bool'), w)
    frame(c, 'report', 'handing out the metrics', fl, ('_gps_drift_updated',))


def table(n):
    """world magnetic model look-ups as functions of the place (G01-G04)"""
    def h(fl, f, this, args, S, nd):
        return FN('wmm_' + n, *[dd(fl.num(fl.rvalue(fl.eval(a, S), S))) for a in args])
    return h


def wmm(n, lat, lon):
    return FN('wmm_' + n, lat, lon)


TABLES = {f'get_mag_{n}': table(n) for n in ('declination_radians', 'inclination_radians', 'strength_gauss')}


def finite(d):
    return map1('isfinite', lambda x: bool_atom(fn('isfinite', (x,))), dd(d))


AIDING = OR(OR(OR(cflag('gps'), cflag('opt_flow')), OR(cflag('ev_pos'), cflag('ev_vel'))), AND(cflag('fuse_aspd'), cflag('fuse_beta')))
SPIN = Fraction('7.2921150e-5')


def spin(lat):
    """earth rate at a latitude in radians"""
    return [MUL(lc(SPIN), FN('cos', lat)), F, NEG(MUL(lc(SPIN), FN('sin', lat)))]


def place_is(c, rule, what, fl, lat, lon, pc, extra=()):
    """the reference of the local frame: coordinates in degrees"""
    w = loc(fl.f)
    la, lo = [MUL(x, leaf(div(V.pi_const(), const(180)))) for x in (lat, lon)]
    for m_, x in (('lat_rad', la), ('lon_rad', lo), ('sin_lat', FN('sin', la)), ('cos_lat', FN('cos', la)), ('timestamp', L('this._time_last_imu'))):
        c.eq(rule, f'{what}: {m_} of the reference', fl.peek(fl.S, ('this', '_pos_ref', m_), 'double'), x, w, pc)
    c.holds(rule, f'{what}: the reference is valid', fl.peek(fl.S, ('this', '_pos_ref', 'init_done'), 'bool'), w, pc)


def place_kept(c, rule, what, fl, pc):
    for m_ in ('lat_rad', 'lon_rad', 'sin_lat', 'cos_lat', 'timestamp'):
        c.eq(rule, f'{what}: {m_} of the reference is kept', fl.peek(fl.S, ('this', '_pos_ref', m_), 'double'), L(f'this._pos_ref.{m_}'), loc(fl.f), pc)


@prop('Q02', 70)
def origin(c):
    c.load(*GTU)
    gps_ranges()
    H = dict(projection_hooks(), **TABLES)
    OPQ = {'gps_is_good', 'startGpsHgtFusion'}
    fl = c.flow('Ekf::collect_gps', hooks=H, opaque=OPQ, nomod=OPQ)
    w = loc(fl.f)
    ok = B('ret:gps_is_good#0')
    org0, init = B('this._NED_origin_initialised'), B('this._filter_initialised')
    have = B('this._pos_ref.init_done')
    lat, lon = MUL(L('arg0.lat'), lc(E7)), MUL(L('arg0.lon'), lc(E7))
    r_ = leaf(div(V.pi_const(), const(180)))
    set_ = AND(AND(init, NOT(org0)), ok)
    rough = AND(AND(NOT(org0), NOT(set_)), AND(cmpdd('>=', L('arg0.fix_type'), lc(2)), cmpdd('<', L('arg0.eph'), lc(1000))))
    none = cmpdd('==', L('this._params.mag_fusion_type'), lc(5))
    mt = dd(L('this._params.mag_fusion_type'))
    V.TYPE_IV['this._params.mag_fusion_type'] = (0.0, 255.0)
    c.eq('check', 'every fix is checked and the result is kept', tobool(mem(fl, '_gps_checks_passed', t='bool')), ok, w)
    by = callsof(c, fl, 'gps_is_good')['gps_is_good']
    c.eq('check', 'every fix is checked', orpc(by), T, w)
    c.eq('origin', 'the origin is set by the first good fix of a running filter and stays', tobool(mem(fl, '_NED_origin_initialised', t='bool')), OR(org0, set_), w)
    new = TRUE.and_(set_)
    rest = TRUE.and_(NOT(set_))
    place_is(c, 'origin', 'first good fix without aiding', fl, lat, lon, new.and_(NOT(have)).and_(NOT(AIDING)))
    la, lo = MUL(lat, r_), MUL(lon, r_)
    back = [geo_of([la, lo], [NEG(leaf(st('pos', 0))), NEG(leaf(st('pos', 1)))], k) for k in range(2)]
    place_is(c, 'origin', 'first good fix while aiding: the origin lies where the position estimate is zero', fl, back[0], back[1], new.and_(NOT(have)).and_(AIDING))
    place_kept(c, 'origin', 'a reference set before', fl, new.and_(have))
    place_kept(c, 'origin', 'no origin to set', fl, rest)
    c.eq('origin', 'altitude of the origin', mem(fl, '_gps_alt_ref'), ITE(set_, ADD(MUL(lc(Fraction('0.001')), L('arg0.alt')), leaf(st('pos', 2))), L('this._gps_alt_ref')), w)
    c.eq('origin', 'time of the origin', mem(fl, '_last_gps_origin_time_us', t='uint64_t'), ITE(set_, L('this._time_last_imu'), L('this._last_gps_origin_time_us')), w)
    for a, b in (('eph', '_gps_origin_eph'), ('epv', '_gps_origin_epv')):
        c.eq('origin', f'accuracy of the origin: {a}', mem(fl, b), ITE(set_, L('arg0.' + a), L('this.' + b)), w)
    # earth rate and magnetic field at the place
    latref = dd(fl.peek(fl.S, ('this', '_pos_ref', 'lat_rad'), 'double'))
    for i in range(3):
        want = ITE(set_, spin(latref)[i], ITE(rough, spin(la)[i], L(f'this._earth_rate_NED[{i}]')))
        c.eq('earth', f'earth rate {i} at the place', mem(fl, '_earth_rate_NED', (i, 0)), want, w)
    known = OR(set_, rough)
    for n, m_ in (('declination_radians', '_mag_declination_gps'), ('inclination_radians', '_mag_inclination_gps'), ('strength_gauss', '_mag_strength_gps')):
        c.eq('field', f'{m_} of the place', mem(fl, m_), ITE(known, wmm(n, lat, lon), L('this.' + m_)), w)
    valid = finite(L('this._mag_declination_gps'))
    req = ITE(set_, AND(NOT(none), NOT(valid)), AND(rough, AND(NOT(none), AND(NOT(valid), finite(wmm('declination_radians', lat, lon))))))
    c.eq('yaw', 'a yaw reset is requested when the declination becomes known', tobool(mem(fl, '_mag_yaw_reset_req', t='bool')), OR(B('this._mag_yaw_reset_req'), req), w)
    gsf = AND(set_, none)
    c.eq('yaw', 'without magnetometer the yaw estimator is asked', tobool(mem(fl, '_do_ekfgsf_yaw_reset', t='bool')), OR(B('this._do_ekfgsf_yaw_reset'), gsf), w)
    c.eq('yaw', 'and may act at once', mem(fl, '_ekfgsf_yaw_reset_time', t='uint64_t'), ITE(gsf, F, L('this._ekfgsf_yaw_reset_time')), w)
    hb = callsof(c, fl, 'startGpsHgtFusion')['startGpsHgtFusion']
    c.eq('height', 'GPS becomes the height source where selected', orpc(hb), AND(set_, cmpdd('==', L('this._params.vdist_sensor_type'), lc(1))), w)
    once(c, 'height', 'startGpsHgtFusion', hb)
    for e in hb:
        c.eq('height', 'after the altitude of the origin is known', e.state.d.get(('this', '_gps_alt_ref'), F), mem(fl, '_gps_alt_ref'), evloc(e), e.pc)
    events_are(c, 'event', 'a fix', fl, {'gps_checks_passed': set_})
    c.eq('use', 'a 3D fix is used once there is an origin', tobool(fl.rvalue(fl.v, fl.S)), AND(OR(org0, set_), cmpdd('>=', L('arg0.fix_type'), lc(3))), w)
    frame(c, 'frame', 'a fix', fl, ('_gps_checks_passed', '_NED_origin_initialised', '_pos_ref', '_gps_alt_ref', '_last_gps_origin_time_us', '_gps_origin_eph', '_gps_origin_epv', '_earth_rate_NED', '_mag_declination_gps',
                                    '_mag_inclination_gps', '_mag_strength_gps', '_mag_yaw_reset_req', '_do_ekfgsf_yaw_reset', '_ekfgsf_yaw_reset_time', '_information_events'))
    # the user's side
    fl = c.flow('Ekf::getEkfGlobalOrigin')
    w = loc(fl.f)
    c.eq('report', 'time of the origin', fl.peek(fl.S, (('arg', 0),), 'uint64_t'), L('this._last_gps_origin_time_us'), w)
    for i, m_ in ((1, 'lat_rad'), (2, 'lon_rad')):
        c.eq('report', f'{m_} of the origin in degrees', fl.peek(fl.S, (('arg', i),), 'double'), DIV(L('this._pos_ref.' + m_), r_), w)
    c.eq('report', 'altitude of the origin', fl.peek(fl.S, (('arg', 3),), 'float'), L('this._gps_alt_ref'), w)
    c.eq('report', 'whether there is an origin', tobool(fl.rvalue(fl.v, fl.S)), org0, w)
    fl = c.flow('Ekf::setEkfGlobalOrigin', hooks=H, opaque={'resetHorizontalPositionTo', 'resetVerticalPositionTo'}, nomod={'resetHorizontalPositionTo', 'resetVerticalPositionTo'})
    w = loc(fl.f)
    place_is(c, 'set', 'an origin given by the user', fl, L('arg0'), L('arg1'), TRUE)
    c.eq('set', 'its altitude', mem(fl, '_gps_alt_ref'), L('arg2'), w)
    c.eq('set', 'reports success', tobool(fl.rvalue(fl.v, fl.S)), T, w)
    move = AND(have, AIDING)
    by = callsof(c, fl, 'resetHorizontalPositionTo', 'resetVerticalPositionTo')
    for n, evs in by.items():
        c.eq('set', f'{n} keeps the place of the vehicle while aiding', orpc(evs), move, w)
        once(c, 'set', n, evs)
        for e in evs:
            a = fl.rvalue(e.data['args'][0], e.state)
            if n[5] == 'V':
                c.eq('set', 'height above the new origin', a, SUB(ADD(L('arg2'), leaf(st('pos', 2))), L('this._gps_alt_ref')), evloc(e), e.pc)
            else:
                here = [geo_of([L('this._pos_ref.' + m_) for m_ in REFS], [leaf(st('pos', 0)), leaf(st('pos', 1))], k) for k in range(2)]
                for k in range(2):
                    c.eq('set', f'position relative to the new origin {k}', a.at(k, 0), pos_of([MUL(L('arg0'), r_), MUL(L('arg1'), r_)], here, k), evloc(e), e.pc)
    frame(c, 'set', 'setting the origin', fl, ('_pos_ref', '_gps_alt_ref'))
