"""Control of the fusion: start and stop of the sources, choice of the height source, reactions to failures."""
from vfa.harness import *
from vfa.flow import LV, mentioned, Mat as FM
from .p_parts import L, B, s, mem, tsyms, total, quat_dcm, quat_mul
from .p_sensors import frame, bufname
from .p_ekf import ALL_TU, st, me, eqs, clamp, v3, mv, norm, orpc, once
from .p_reset import rings, cflag, RTU
from .p_yaw import events_are, flags_are, bit, sq, EPS
from .p_cov import P0_
from .p_fuse import ITE_

CTU = RTU + ('EKF/airspeed_fusion.cpp', 'EKF/estimator_interface.cpp', 'EKF/utils.cpp', 'EKF/mag_control.cpp')
now = L('this._time_last_imu')
pos = [leaf(st('pos', i)) for i in range(3)]
vel = [leaf(st('vel', i)) for i in range(3)]
HGT = ('baro_hgt', 'gps_hgt', 'rng_hgt', 'ev_hgt')


def tm(n):
    return L('this.' + n)


def timed_out(t, p):
    return cmpdd('<', ADD(dd(t), dd(p)), now)


def recent(t, p):
    return cmpdd('>', ADD(dd(t), dd(p)), now)


class Steps(dict):
    """hooks for the steps a function calls: each call is recorded with its condition, arguments and the state it finds.
    A step that changes members the function uses afterwards leaves new values in them (the same ones wherever it is called)."""
    VEC = {'vel': ('_state', 'vel', 3), 'pos': ('_state', 'pos', 3)}

    def __init__(self, *names, bools=(), mods={}, also={}):
        for n in names + tuple(bools):
            self[n] = self.hook(n, n in bools, mods.get(n, ()))
        self.update(also)
        self.names = names + tuple(bools)

    def hook(self, nm, isbool, mods):
        def h(fl, f, this, args, S, n):
            if f is not None and f.cls not in ('Ekf', 'EstimatorInterface', 'EKFGSF_yaw'):
                return NotImplemented
            lv = [fl.eval(a, S) if a is not None and a.kind != 'CXXDefaultArgExpr' else None for a in args]
            rv = [fl.rvalue(v, S) if v is not None else None for v in lv]
            fl.event('step', nm, S, {'args': rv, 'lv': lv, 'S': S.fork(S.pc), 'n': len(fl.events)}, n)
            for p, t in mods:
                nmp = f'after {nm}: {FL.pname(p)}'
                fl.peek(S, ('this',) + p, 'bool' if t is T or t is F else t)
                fl.setp(S, ('this',) + p, t if isinstance(t, DD) else B(nmp) if t == 'bool' else L(nmp))
            return B('ret:' + nm) if isbool else F
        return h


def after(nm, *p):
    return L(f'after {nm}: {FL.pname(p)}')


def afterb(nm, *p):
    return B(f'after {nm}: {FL.pname(p)}')


def steps(c, fl, *names):
    for p in names:
        c.need(any(q.endswith('::' + p) or q == p for q in c.prog.by_qual), f'{p} not found')
    return {p: [e for e in fl.events if e.kind == 'step' and e.name == p] for p in names}


def happens(c, rule, what, fl, evs, name, when, pc=TRUE, repeat=False):
    """the step is taken exactly when it should, once"""
    c.eq(rule, f'{what}: {name}', orpc(evs[name]), when, loc(fl.f), pc)
    if not repeat:
        once(c, rule, name, evs[name])


def at(fl, e, *p, t='float'):
    """value of a member when a step is taken"""
    return fl.peek(e.data['S'], ('this',) + p, t)


def sees(c, name, *members):
    """can the step depend on one of these members?"""
    fs = [f for q, v in c.prog.by_qual.items() if q.split('::')[-1] == name for f in v if f.has_body]
    if not fs:
        return True
    m = set().union(*(mentioned(c.prog, f) for f in fs))
    return any(x in m for x in members)


def apart(a, b):
    """no step takes both"""
    return AND(dd(conj(a.pc)), dd(conj(b.pc))) is F


def lvpath(v):
    if isinstance(v, LV):
        return v.path
    return getattr(v, 'path', None)


def cleared(c, rule, what, fl, *names, n=3):
    """innovations, variances and test ratios of a stopped source are zero"""
    for m, k in names:
        if not k:
            c.eq(rule, f'{what}: {m}', mem(fl, m), F, loc(fl.f))
        for i in range(k):
            c.eq(rule, f'{what}: {m}[{i}]', mem(fl, m, (i, 0)), F, loc(fl.f))


def out3(src, r=2):
    return ((src + '_innov', 3), (src + '_innov_var', 3), (src + '_test_ratio', r))


def roots(o):
    return tuple(m for m, k in o)


@prop('C11', 250)
def start_stop(c):
    c.load(*CTU)
    V.TYPE_IV.clear()
    tsyms('this._time_last_imu', 'this._time_last_gnd_effect_on')
    V.unit_quat([f'this._ev_sample_delayed.quat[{i}]' for i in range(4)])

    def run(q, *names, **kw):
        H = Steps(*names, **kw)
        fl = c.flow('Ekf::' + q, hooks=H)
        return fl, steps(c, fl, *names), loc(fl.f)
    # --- GPS
    fl, ev, w = run('startGpsFusion', 'resetHorizontalPositionToGps', 'resetVelocityToGps')
    happens(c, 'start', 'GPS', fl, ev, 'resetHorizontalPositionToGps', T)
    happens(c, 'start', 'GPS', fl, ev, 'resetVelocityToGps', NOT(cflag('opt_flow')))
    flags_are(c, 'start', 'GPS', fl, {'gps': T})
    events_are(c, 'start', 'GPS', fl, {'starting_gps_fusion': T})
    frame(c, 'frame', 'the start of GPS', fl, ('_control_status', '_information_events'))
    gnd = ITE(AND(cflag('gps_hgt'), timed_out(tm('_time_last_gnd_effect_on'), lc(10000000))), F, cflag('gnd_effect'))
    gp = {'gps': F, 'gps_hgt': F, 'baro_hgt': OR(cflag('baro_hgt'), cflag('gps_hgt')), 'gnd_effect': gnd}
    for h in ('rng_hgt', 'ev_hgt'):
        gp[h] = AND(cflag(h), NOT(cflag('gps_hgt')))
    for q, fs in (('stopGpsFusion', dict(gp, gps_yaw=F)), ('stopGpsPosFusion', gp)):
        fl, ev, w = run(q)
        flags_are(c, 'stop', q, fl, fs)
        o = out3('_gps_pos') + (out3('_gps_vel') if q == 'stopGpsFusion' else ())
        cleared(c, 'stop', q, fl, *o)
        eqs(c, 'stop', f'{q}: the baro takes over the height without an offset', mem(fl, '_hgt_sensor_offset'), ITE(cflag('gps_hgt'), F, tm('_hgt_sensor_offset')), w)
        frame(c, 'frame', q, fl, ('_control_status', '_hgt_sensor_offset') + roots(o))
    # --- plain stops
    for q, fs, o in (('stopGpsVelFusion', {}, out3('_gps_vel')), ('stopGpsYawFusion', {'gps_yaw': F}, ()), ('stopEvPosFusion', {'ev_pos': F}, out3('_ev_pos')), ('stopEvVelFusion', {'ev_vel': F}, out3('_ev_vel')),
                     ('stopEvYawFusion', {'ev_yaw': F}, ()), ('stopEvFusion', {'ev_pos': F, 'ev_vel': F, 'ev_yaw': F}, out3('_ev_pos') + out3('_ev_vel')),
                     ('stopAuxVelFusion', {}, out3('_aux_vel')), ('stopFlowFusion', {'opt_flow': F}, (('_flow_innov', 2), ('_flow_innov_var', 2), ('_optflow_test_ratio', 0)))):
        fl, ev, w = run(q)
        flags_are(c, 'stop', q, fl, fs)
        cleared(c, 'stop', q, fl, *o)
        frame(c, 'frame', q, fl, ('_control_status',) + roots(o))
    # --- vision
    for q, f, rst, e in (('startEvPosFusion', 'ev_pos', 'resetHorizontalPosition', 'starting_vision_pos_fusion'), ('startEvVelFusion', 'ev_vel', 'resetVelocity', 'starting_vision_vel_fusion')):
        fl, ev, w = run(q, rst)
        happens(c, 'start', q, fl, ev, rst, T)
        for x in ev[rst] if sees(c, rst, f) else ():
            c.eq('start', f'{q}: the reset may use the source', tobool(at(fl, x, '_control_status', 'flags', f, t='bool')), T, evloc(x), x.pc)
        flags_are(c, 'start', q, fl, {f: T})
        events_are(c, 'start', q, fl, {e: T})
        frame(c, 'frame', q, fl, ('_control_status', '_information_events'))
    fl, ev, w = run('startEvYawFusion', 'resetQuatStateYaw', 'saveMagCovData')
    happens(c, 'start', 'vision yaw', fl, ev, 'resetQuatStateYaw', T)
    D = quat_dcm([s(f'this._ev_sample_delayed.quat[{i}]') for i in range(4)])
    for x in ev['resetQuatStateYaw']:
        a = x.data['args']
        eqs(c, 'start', 'vision yaw: the heading is that of the vision attitude', a[0], FN('atan2', leaf(D[1][0]), leaf(D[0][0])), evloc(x), x.pc)
        eqs(c, 'start', 'vision yaw: variance of the heading', a[1], FN('max', L('this._ev_sample_delayed.angVar'), sq(lc(Fraction('0.01')))), evloc(x), x.pc)
        c.eq('start', 'vision yaw: the output history moves along', tobool(a[2]), T, evloc(x), x.pc)
    happens(c, 'start', 'vision yaw: field covariances are saved when they were estimated', fl, ev, 'saveMagCovData', cflag('mag_3D'))
    flags_are(c, 'start', 'vision yaw', fl, {'yaw_align': T, 'ev_yaw': T, 'mag_dec': F, 'mag_hdg': F, 'mag_3D': F})
    events_are(c, 'start', 'vision yaw', fl, {'starting_vision_yaw_fusion': T})
    frame(c, 'frame', 'the start of vision yaw', fl, ('_control_status', '_information_events'))
    fl, ev, w = run('startGpsYawFusion', 'saveMagCovData')
    happens(c, 'start', 'GPS yaw: field covariances are saved when they were estimated', fl, ev, 'saveMagCovData', cflag('mag_3D'))
    flags_are(c, 'start', 'GPS yaw', fl, {'gps_yaw': T, 'ev_yaw': F, 'mag_dec': F, 'mag_hdg': F, 'mag_3D': F})
    frame(c, 'frame', 'the start of GPS yaw', fl, ('_control_status',))


# ---------------------------------------------------------------- height
ready, valid = B('this._range_sensor._is_sample_ready'), B('this._range_sensor._is_sample_valid')
healthy = AND(ready, valid)
clr = P0_('rng_gnd_clearance')
ter, tok = L('this._terrain_vpos'), B('this._hagl_valid')
air = cflag('in_air')
ghgt = lambda: L('this._gps_sample_delayed.hgt')


def prev(f):
    return B(f'this._control_status_prev.flags.{f}')


class Choice:
    """height source, its offset and whether a height is fused"""
    def __init__(self):
        self.f = {h: cflag(h) for h in HGT}
        self.off, self.fuse, self.gnd, self.z = tm('_hgt_sensor_offset'), F, cflag('gnd_effect'), pos[2]

    def use(self, when, src):
        for h in HGT:
            self.f[h] = ITE(when, T if h == src else F, self.f[h])

    def offset(self, when, x):
        self.off = ITE(when, x, self.off)

    def baro(self, when):
        self.use(when, 'baro_hgt')
        self.offset(when, F)
        self.gnd = ITE(AND(when, timed_out(tm('_time_last_gnd_effect_on'), lc(10000000))), F, self.gnd)

    def gps_offset(self, when):
        self.offset(AND(when, NOT(prev('gps_hgt'))), ADD(SUB(ghgt(), tm('_gps_alt_ref')), self.z))

    def gps(self, when):
        self.use(when, 'gps_hgt')
        self.gps_offset(when)

    def take(self, when):
        self.fuse = OR(self.fuse, when)


bready, bfault = B('this._baro_data_ready'), B('this._baro_hgt_faulty')
gready, gint, gpass = B('this._gps_data_ready'), B('this._gps_hgt_intermittent'), B('this._gps_checks_passed')
MODES = {0: 'baro', 1: 'GPS', 2: 'range finder', 3: 'vision', 7: 'none of those known'}


def choose(mode, aid):
    h = Choice()
    bok = AND(bready, NOT(bfault))
    dist = MUL(L('this._range_sensor._sample.rng'), L('this._range_sensor._cos_tilt_rng_to_earth'))
    if mode in (0, 7):
        a = AND(aid, healthy)
        b = AND(NOT(aid), bok)
        g = AND(AND(NOT(a), NOT(b)), AND(h.f['gps_hgt'], AND(gready, NOT(gint))))
        h.use(a, 'rng_hgt')
        h.offset(AND(a, NOT(prev('rng_hgt'))), ter)
        h.baro(b)
        h.gps_offset(g)
        for x in (a, b, g):
            h.take(x)
    elif mode == 2:
        b = AND(NOT(healthy), AND(h.f['baro_hgt'], bok))
        h.use(healthy, 'rng_hgt')
        h.offset(AND(healthy, NOT(prev('rng_hgt'))), ITE_(AND(air, tok), ter, air, ADD(dist, h.z), clr))
        h.take(healthy)
        h.take(b)
    elif mode == 1:
        p = prev('rng_hgt')
        a = AND(NOT(p), AND(aid, healthy))
        b = AND(p, NOT(aid))
        gok = AND(NOT(gint), gpass)
        g = AND(AND(NOT(a), NOT(b)), AND(AND(h.f['baro_hgt'], NOT(aid)), gok))
        h.use(a, 'rng_hgt')
        h.offset(a, ter)
        h.gps(OR(AND(b, gok), g))
        h.baro(AND(b, AND(NOT(gok), NOT(bfault))))
        h.take(AND(h.f['gps_hgt'], gready))
        h.take(AND(h.f['rng_hgt'], healthy))
        h.take(AND(h.f['baro_hgt'], bok))
    else:
        a = AND(NOT(h.f['ev_hgt']), recent(tm('_time_last_ext_vision'), lc(400000)))
        h.use(a, 'ev_hgt')
        h.switched = a
        h.zn = after('resetHeight', '_state', 'pos', (2, 0))
        h.z = ITE(a, h.zn, h.z)
        h.take(AND(h.f['baro_hgt'], bok))
        h.take(h.f['ev_hgt'])
    return h


RAID = '_is_range_aid_suitable'


def hstart():
    V.TYPE_IV.clear()
    tsyms('this._time_last_imu', 'this._time_last_gnd_effect_on', 'this._time_last_hgt_fuse', 'this._time_last_ext_vision', 'this._delta_time_baro_us')
    for n in ('gnd_effect_deadzone', 'baro_noise', 'gps_pos_noise', 'pos_noaid_noise', 'rng_gnd_clearance', 'max_hagl_for_range_aid', 'max_vel_for_range_aid', 'range_aid_innov_gate'):
        V.TYPE_IV['this._params.' + n] = (0.01, 100.0)
    V.TYPE_IV['this._hagl_innov_var'] = (1e-6, 1e6)


@prop('C01', 300)
def height(c):
    c.load(*CTU)
    hstart()
    # --- one source at a time
    for q, h in (('setControlBaroHeight', 'baro_hgt'), ('setControlGPSHeight', 'gps_hgt'), ('setControlRangeHeight', 'rng_hgt'), ('setControlEVHeight', 'ev_hgt')):
        fl = c.flow('Ekf::' + q)
        flags_are(c, 'one source', q, fl, {x: T if x == h else F for x in HGT})
        frame(c, 'frame', q, fl, ('_control_status',))
    for q, op in (('startBaroHgtFusion', Choice.baro), ('startGpsHgtFusion', Choice.gps)):
        fl = c.flow('Ekf::' + q)
        h = Choice()
        op(h, T)
        flags_are(c, 'one source', q, fl, dict(h.f, gnd_effect=h.gnd))
        eqs(c, 'offset', f'{q}: height offset', mem(fl, '_hgt_sensor_offset'), h.off, loc(fl.f))
        frame(c, 'frame', q, fl, ('_control_status', '_hgt_sensor_offset'))
    # --- range aid
    fl = c.flow('Ekf::checkRangeAidSuitability')
    w = loc(fl.f)
    on = B('this.' + RAID)
    k = lambda n: ITE(on, P0_(n), MUL(P0_(n), lc(Fraction('0.7'))))
    ratio = DIV(sq(tm('_hagl_innov')), MUL(sq(P0_('range_aid_innov_gate')), tm('_hagl_innov_var')))
    src = cflag
    aiding = OR(OR(OR(src('gps'), src('opt_flow')), OR(src('ev_pos'), src('ev_vel'))), AND(src('fuse_aspd'), src('fuse_beta')))
    slow = NOT(cmpdd('>', ADD(sq(vel[0]), sq(vel[1])), sq(k('max_vel_for_range_aid'))))
    ok = AND(AND(air, AND(valid, tok)), AND(AND(cmpdd('<', SUB(ter, pos[2]), k('max_hagl_for_range_aid')), cmpdd('<', ratio, ITE(on, lc(1), lc(Fraction('0.01'))))), OR(NOT(aiding), slow)))
    c.eq('range aid', 'low, slow and consistent, with hysteresis', tobool(mem(fl, RAID, t='bool')), ok, w)
    frame(c, 'frame', 'the range aid check', fl, (RAID,))
    # --- per primary source
    H = Steps('fuseVerticalPosition', 'resetHeight', 'checkRangeAidSuitability', mods={'resetHeight': ((('_state', 'pos', (2, 0)), 'float'),), 'checkRangeAidSuitability': (((RAID,), 'bool'),)}, also=rings())
    for mode, nm in MODES.items():
        S = State()
        S.d[('this', '_params', 'vdist_sensor_type')] = lc(mode)
        fl = c.flow('Ekf::controlHeightFusion', hooks=H, state=S)
        height_mode(c, fl, mode, nm)


SRC = {'baro_hgt': '_baro_hgt', 'gps_hgt': '_gps_pos', 'rng_hgt': '_rng_hgt', 'ev_hgt': '_ev_pos'}


def height_mode(c, fl, mode, nm):
    w = loc(fl.f)
    ev = steps(c, fl, 'fuseVerticalPosition', 'resetHeight', 'checkRangeAidSuitability')
    what = f'primary source {nm}'
    happens(c, 'range aid', what, fl, ev, 'checkRangeAidSuitability', T)
    aid = AND(cmpdd('==', P0_('range_aid'), lc(1)), afterb('checkRangeAidSuitability', RAID))
    h = choose(mode, aid)
    happens(c, 'source', what, fl, ev, 'resetHeight', h.switched if mode == 3 else F)
    for e in ev['resetHeight']:
        for x in HGT:
            c.eq('source', f'{what}: the height is reset to the new source ({x})', tobool(at(fl, e, '_control_status', 'flags', x, t='bool')), T if x == 'ev_hgt' else F, evloc(e), e.pc)
    flags_are(c, 'source', what, fl, dict(h.f, gnd_effect=h.gnd))
    eqs(c, 'offset', f'{what}: offset of the source in use', mem(fl, '_hgt_sensor_offset'), h.off, w)
    # exactly one stays exactly one
    one = TRUE
    n = F
    for x in HGT:
        n = ADD(n, ITE(cflag(x), T, F))
    inv = cmpdd('==', n, T)
    m = F
    for x in HGT:
        m = ADD(m, ITE(tobool(mem(fl, '_control_status', 'flags', x, t='bool')), T, F))
    c.holds('one source', f'{what}: one height source stays one height source', cmpdd('==', m, T), w, TRUE.and_(inv))
    # --- baro offset while another source is in use
    dt = clamp(MUL(lc(Fraction('1e-6')), tm('_delta_time_baro_us')), F, T)
    bh, bo = L('this._baro_sample_delayed.hgt'), tm('_baro_hgt_offset')
    tenth = lc(Fraction('0.1'))
    for z, q in ((pos[2], TRUE.and_(NOT(h.switched))), (h.zn, TRUE.and_(h.switched))) if mode == 3 else ((pos[2], TRUE),):
        cor = MUL(tenth, SUB(ADD(bh, z), bo))
        up, dn = cmpdd('>', cor, tenth), cmpdd('<', cor, NEG(tenth))
        for x, p in ((tenth, q.and_(up)), (NEG(tenth), q.and_(dn)), (cor, q.and_(cmpdd('<', cor, tenth)).and_(cmpdd('>', cor, NEG(tenth))))):
            for long_ in (True, False):
                g = cmpdd('>' if long_ else '<', tm('_delta_time_baro_us'), lc(1000000))
                eqs(c, 'baro offset', f'{what}: follows the height while the baro is not in use', mem(fl, '_baro_hgt_offset'),
                    ITE(AND(bready, NOT(h.f['baro_hgt'])), ADD(bo, x if long_ else MUL(MUL(lc(Fraction('1e-6')), tm('_delta_time_baro_us')), x)), bo), w, p.and_(g))
    # --- range finder assumed on the ground
    rs = lambda n, t='bool': fl.peek(fl.S, ('this', '_range_sensor') + n, t)
    syn = AND(AND(h.f['rng_hgt'], timed_out(tm('_time_last_hgt_fuse'), lc(400000))), AND(AND(NOT(healthy), B('this._range_sensor._is_regularly_sending_data')), NOT(air)))
    r0, cs = L('this._range_sensor._sample.rng'), L('this._range_sensor._cos_tilt_rng_to_earth')
    rng = ITE(syn, clr, r0)
    c.eq('ground', f'{what}: range on the ground without data', rs(('_sample', 'rng'), 'float'), rng, w)
    c.eq('ground', f'{what}: it counts as data', tobool(rs(('_is_sample_ready',))), OR(ready, syn), w)
    c.eq('ground', f'{what}: it counts as valid', tobool(rs(('_is_sample_valid',))), OR(valid, syn), w)
    fuse = OR(h.fuse, syn)
    # --- what is fused
    dist = MUL(rng, cs)
    bi = SUB(ADD(h.z, bh), bo)
    dz = P0_('gnd_effect_deadzone')
    bi = ITE(AND(h.gnd, cmpdd('<', bi, F)), ITE(cmpdd('<=', bi, NEG(dz)), ADD(bi, dz), F), bi)
    lo = FN('max', MUL(lc(Fraction('1.5')), P0_('gps_pos_noise')), lc(Fraction('0.01')))
    hi = FN('max', MUL(lc(Fraction('1.5')), P0_('pos_noaid_noise')), lo)
    evs, gs = 'this._ev_sample_delayed.', 'this._gps_sample_delayed.'
    spec = {'baro_hgt': (bi, 'baro_innov_gate', sq(FN('max', P0_('baro_noise'), lc(Fraction('0.01'))))),
            'gps_hgt': (SUB(SUB(ADD(h.z, ghgt()), tm('_gps_alt_ref')), h.off), 'baro_innov_gate', sq(clamp(L(gs + 'vacc'), lo, hi))),
            'rng_hgt': (SUB(ADD(h.z, FN('max', dist, clr)), h.off), 'range_innov_gate', FN('max', ADD(sq(P0_('range_noise')), sq(MUL(P0_('range_noise_scaler'), dist))), lc(Fraction('0.01')))),
            'ev_hgt': (SUB(h.z, L(evs + 'pos[2]')), 'ev_pos_innov_gate', FN('max', L(evs + 'posVar[2]'), sq(lc(Fraction('0.01')))))}
    rest = fuse
    for x in HGT:
        mine = AND(rest, h.f[x])
        rest = AND(rest, NOT(h.f[x]))
        m_ = SRC[x]
        es = [e for e in ev['fuseVerticalPosition'] if lvpath(e.data['lv'][3]) == ('this', m_ + '_innov_var')]
        c.eq('fusion', f'{what}: height from {x}', orpc(es), mine, w)
        once(c, 'fusion', x, es)
        inn, gate, var = spec[x]
        eqs(c, 'fusion', f'{what}: reported innovation of {x}', mem(fl, m_ + '_innov', (2, 0)), ITE(mine, inn, L(f'this.{m_}_innov[2]')), w)
        for e in es:
            a = e.data['args']
            eqs(c, 'fusion', f'{what}: innovation of {x}', a[0].e[2], inn, evloc(e), e.pc)
            eqs(c, 'fusion', f'{what}: gate of {x}', a[1].e[1], FN('max', P0_(gate), T), evloc(e), e.pc)
            eqs(c, 'fusion', f'{what}: variance of {x}', a[2].e[2], var, evloc(e), e.pc)
            c.ob('fusion', f'{what}: test ratio of {x}', lvpath(e.data['lv'][4]) == ('this', m_ + '_test_ratio'), evloc(e), f'stored in {e.data["lv"][4]}')
    k = len([e for e in ev['fuseVerticalPosition'] if lvpath(e.data['lv'][3]) in {('this', m_ + '_innov_var') for m_ in SRC.values()}])
    c.ob('fusion', f'{what}: every fusion reports to its source', k == len(ev['fuseVerticalPosition']), w)
    frame(c, 'frame', what, fl, ('_control_status', '_hgt_sensor_offset', '_baro_hgt_offset', RAID, ('this', '_state', 'pos'), ('this', '_range_sensor', '_sample'), ('this', '_range_sensor', '_is_sample_ready'),
                                 ('this', '_range_sensor', '_is_sample_valid')) + tuple(m_ + '_innov' for m_ in SRC.values()))


# ---------------------------------------------------------------- failures of the height
NEWEST = {'gps': 'this._gps_buffer.newest.', 'baro': 'this._baro_buffer.newest.', 'ev': 'this._ext_vision_buffer.newest.'}
ACC = ('_time_good_vert_accel', '_time_bad_vert_accel')


@prop('C03', 60)
def timeouts(c):
    c.load(*CTU)
    V.TYPE_IV.clear()
    tsyms('this._time_last_imu', 'this._time_last_gnd_effect_on', 'this._time_last_hgt_fuse', *('this.' + x for x in ACC), *('after checkVerticalAccelerationHealth: ' + x for x in ACC), NEWEST['ev'] + 'time_us',
          'this._vert_pos_fuse_attempt_time_us', 'this._vert_vel_fuse_time_us')
    V.TYPE_IV['this._clip_counter'] = (0.0, 65535.0)
    accel_health(c)
    H = Steps('resetHeight', 'checkVerticalAccelerationHealth', mods={'checkVerticalAccelerationHealth': tuple(((x,), 'uint64_t') for x in ACC)}, also=rings())
    fl = c.flow('Ekf::controlHeightSensorTimeouts', hooks=H)
    w = loc(fl.f)
    ev = steps(c, fl, 'resetHeight', 'checkVerticalAccelerationHealth')
    happens(c, 'timeout', 'height timeout', fl, ev, 'checkVerticalAccelerationHealth', T)
    good, bad = (after('checkVerticalAccelerationHealth', x) for x in ACC)
    late = OR(timed_out(tm('_time_last_hgt_fuse'), lc(5000000)), timed_out(good, P0_('bad_acc_reset_delay_us')))
    h = Choice()
    b, g, r, e = (AND(late, h.f[x]) for x in HGT)
    g, r, e = AND(g, NOT(b)), AND(r, NOT(OR(b, g))), AND(e, NOT(OR(b, OR(g, r))))
    acc = cmpdd('<', L(NEWEST['gps'] + 'vacc'), P0_('req_vacc'))
    imubad = recent(bad, lc(10000000))
    togps = AND(b, AND(NOT(gint), OR(AND(acc, NOT(imubad)), bfault)))
    inn = SUB(ADD(pos[2], L(NEWEST['baro'] + 'hgt')), tm('_baro_hgt_offset'))
    cons = cmpdd('<', sq(inn), MUL(ADD(sq(P0_('baro_noise')), L(FL.pname(('this', 'P', (9, 9))))), sq(P0_('baro_innov_gate'))))
    g2b = AND(g, AND(NOT(bfault), OR(AND(cons, NOT(acc)), gint)))
    evok = recent(L(NEWEST['ev'] + 'time_us'), lc(400000))
    r2b = AND(r, AND(NOT(valid), NOT(bfault)))
    e2b = AND(e, AND(NOT(evok), NOT(bfault)))
    stay = OR(OR(AND(b, AND(NOT(togps), NOT(bfault))), AND(g, AND(NOT(g2b), NOT(gint)))), OR(AND(r, valid), AND(e, evok)))
    tobaro = OR(g2b, OR(r2b, e2b))
    do = OR(stay, OR(togps, tobaro))
    h.gps(togps)
    h.baro(tobaro)
    flags_are(c, 'source', 'height timeout', fl, dict(h.f, gnd_effect=h.gnd))
    eqs(c, 'source', 'offset of the source taken over', mem(fl, '_hgt_sensor_offset'), h.off, w)
    c.eq('source', 'the baro is marked as failed when GPS takes over', tobool(mem(fl, '_baro_hgt_faulty', t='bool')), OR(bfault, togps), w)
    happens(c, 'reset', 'height timeout', fl, ev, 'resetHeight', do)
    for x in ev['resetHeight']:
        for k in HGT:
            c.eq('reset', f'the height is reset to the source taken over ({k})', tobool(at(fl, x, '_control_status', 'flags', k, t='bool')), h.f[k], evloc(x), x.pc)
        if sees(c, 'resetHeight', '_baro_hgt_faulty'):
            c.eq('reset', 'with the baro failure known', tobool(at(fl, x, '_baro_hgt_faulty', t='bool')), OR(bfault, togps), evloc(x), x.pc)
        if sees(c, 'resetHeight', '_hgt_sensor_offset'):
            eqs(c, 'reset', 'with the offset of the source taken over', at(fl, x, '_hgt_sensor_offset'), h.off, evloc(x), x.pc)
    c.eq('reset', 'the timeout starts over', mem(fl, '_time_last_hgt_fuse', t='uint64_t'), ITE(do, now, tm('_time_last_hgt_fuse')), w)
    events_are(c, 'report', 'height timeout', fl, {'height_sensor_timeout': do})
    frame(c, 'frame', 'a height timeout', fl, ('_control_status', '_hgt_sensor_offset', '_baro_hgt_faulty', '_time_last_hgt_fuse', '_warning_events') + ACC)


def accel_health(c):
    fl = c.flow('Ekf::checkVerticalAccelerationHealth')
    w = loc(fl.f)
    pr, vr, lim = tm('_vert_pos_innov_ratio'), tm('_vert_vel_innov_ratio'), P0_('vert_innov_test_lim')
    p = recent(tm('_vert_pos_fuse_attempt_time_us'), lc(1000000))
    v = AND(p, recent(tm('_vert_vel_fuse_time_us'), lc(1000000)))
    gt = lambda a, b: cmpdd('>', a, b)
    indep = AND(v, NOT(OR(AND(cflag('gps_hgt'), cflag('gps')), AND(cflag('ev_hgt'), cflag('ev_vel')))))
    falling = AND(p, ITE(v, OR(AND(gt(vr, lim), gt(pr, F)), AND(gt(pr, lim), gt(vr, F))), gt(pr, lim)))
    clip = OR(OR(B('this._imu_sample_delayed.delta_vel_clipping[0]'), B('this._imu_sample_delayed.delta_vel_clipping[1]')), B('this._imu_sample_delayed.delta_vel_clipping[2]'))
    n = tm('_clip_counter')
    n1 = ITE_(AND(clip, cmpdd('<', n, lc(100))), ADD(n, T), gt(n, F), SUB(n, T), n)
    c.eq('accelerometer', 'clipping is counted up and down', mem(fl, '_clip_counter', t='uint16_t'), n1, w)
    often = gt(dd(mem(fl, '_clip_counter', t='uint16_t')), F)
    bad = AND(OR(indep, often), falling)
    tb = ITE(bad, now, tm(ACC[1]))
    c.eq('accelerometer', 'time of a bad vertical acceleration', mem(fl, ACC[1], t='uint64_t'), tb, w)
    c.eq('accelerometer', 'time of a good vertical acceleration', mem(fl, ACC[0], t='uint64_t'), ITE(bad, tm(ACC[0]), now), w)
    was = B('this._fault_status.flags.bad_acc_vertical')
    flags_are(c, 'accelerometer', 'vertical acceleration', fl, {'bad_acc_vertical': ITE(was, recent(tb, lc(10000000)), bad)}, which='_fault_status')
    frame(c, 'frame', 'the accelerometer check', fl, ('_clip_counter', '_fault_status') + ACC)


# ---------------------------------------------------------------- GPS
from .p_reset import same_p, uncor

CF = lambda f: ('_control_status', 'flags', f)
VEL = tuple((('_state', 'vel', (i, 0)), 'float') for i in range(3))
POS = tuple((('_state', 'pos', (i, 0)), 'float') for i in range(2))
ROT = tuple((('_R_to_earth', (i, j)), 'float') for i in range(3) for j in range(3))
EST = VEL + POS + ROT
AID = {'gps': cflag('gps'), 'opt_flow': cflag('opt_flow'), 'ev_pos': cflag('ev_pos'), 'ev_vel': cflag('ev_vel'), 'air': AND(cflag('fuse_aspd'), cflag('fuse_beta'))}
TF = ('_time_last_hor_pos_fuse', '_time_last_delpos_fuse', '_time_last_hor_vel_fuse', '_time_last_of_fuse')


def other(f):
    r = F
    for k, x in AID.items():
        if k != f:
            r = OR(r, x)
    return r


class Est:
    """the estimate as the steps leave it"""
    def __init__(self):
        self.v = {p: L(FL_(p)) for p, t in EST + POS_D}

    def left(self, when, nm, ps):
        for p, t in ps:
            self.v[p] = ITE(when, after(nm, *p), self.v[p])

    def vel(self, i):
        return self.v[('_state', 'vel', (i, 0))]

    def pos(self, i):
        return self.v[('_state', 'pos', (i, 0))]

    def R(self, i, j):
        return self.v[('_R_to_earth', (i, j))]


POS_D = ((('_state', 'pos', (2, 0)), 'float'),)


def FL_(p):
    return FL.pname(('this',) + p)


@prop('C06', 120)
def gps(c):
    c.load(*CTU)
    V.TYPE_IV.clear()
    tsyms('this._time_last_imu', 'this._imu_sample_delayed.time_us', 'this._gps_sample_delayed.time_us', 'this._last_gps_fail_us', 'this._last_gps_pass_us', 'this._ekfgsf_yaw_reset_time', 'this._time_last_on_ground_us', 'this._time_prev_gps_us',
          'this._time_last_gps_yaw_fuse', *('this.' + t for t in TF))
    V.TYPE_IV['this._ekfgsf_yaw_reset_count'] = (0.0, 254.0)
    V.TYPE_IV['this._params.reset_timeout_max'] = (0.0, 1e9)
    for n in ('gps_pos_noise', 'pos_noaid_noise', 'gps_vel_noise'):
        V.TYPE_IV['this._params.' + n] = (0.01, 100.0)
    gps_yaw(c)
    fm = {'controlGpsYawFusion': tuple((CF(f), 'bool') for f in ('yaw_align', 'ev_yaw')), 'startGpsFusion': ((CF('gps'), T),), 'stopGpsFusion': ((CF('gps'), F),), 'resetYawToEKFGSF': ((CF('yaw_align'), 'bool'),)}
    names = ('controlGpsYawFusion', 'startGpsFusion', 'stopGpsFusion', 'resetVelocity', 'resetHorizontalPosition', 'fuseHorizontalVelocity', 'fuseVerticalVelocity', 'fuseHorizontalPosition')
    bools = ('resetMagHeading', 'resetYawToEKFGSF', 'realignYawGPS')
    fl = c.flow('Ekf::controlGpsFusion', hooks=Steps(*names, bools=bools, mods=fm))
    w = loc(fl.f)
    ev = steps(c, fl, *(names + bools))
    ret = lambda n: B('ret:' + n)
    rdy = gready
    sel, rot = bit('this._params.fusion_mode', 0), bit('this._params.fusion_mode', 6)
    x = AID
    hp = lambda r, n, when, **k: happens(c, r, 'GPS', fl, ev, n, when, **k)
    hp('yaw', 'controlGpsYawFusion', rdy)
    al, evy = afterb('controlGpsYawFusion', *CF('yaw_align')), afterb('controlGpsYawFusion', *CF('ev_yaw'))
    # start
    passing, failing = timed_out(tm('_last_gps_fail_us'), lc(5000000)), timed_out(tm('_last_gps_pass_us'), lc(5000000))
    may = AND(AND(rdy, AND(sel, NOT(x['gps']))), AND(AND(cflag('tilt_align'), B('this._NED_origin_initialised')), passing))
    inh = B('this._mag_inhibit_yaw_reset_req')
    mt = P0_('mag_fusion_type')
    can = AND(NOT(cflag('mag_field_disturbed')), NOT(cmpdd('==', mt, lc(5))))
    hd = AND(may, AND(OR(NOT(al), OR(evy, inh)), can))
    hp('start', 'resetMagHeading', hd)
    for e in ev['resetMagHeading']:
        for i in range(3):
            c.eq('start', f'heading from the filtered magnetometer {i}', e.data['args'][0].e[i], L(f'this._mag_lpf._filter_state[{i}]'), evloc(e), e.pc)
    al1 = ITE(hd, ret('resetMagHeading'), al)
    go = AND(may, al1)
    hp('start', 'startGpsFusion', go)
    yb = AND(hd, inh)
    sb = sq(MUL(P0_('switch_on_gyro_bias'), lc(Fraction('0.01'))))
    same_p(c, 'start', 'yaw bias variance starts over when it was not learnt', fl, uncor(12, [sb]), TRUE.and_(yb))
    same_p(c, 'start', 'covariance otherwise kept', fl, lambda i, j: None, TRUE.and_(NOT(yb)))
    on = OR(go, AND(x['gps'], OR(NOT(rdy), sel)))
    c.eq('start', 'the request for a heading is served once', tobool(mem(fl, '_mag_inhibit_yaw_reset_req', t='bool')), AND(inh, NOT(hd)), w)
    # stop
    oth = other('gps')
    poor = AND(AND(rdy, on), AND(failing, oth))
    ago = SUB(L('this._imu_sample_delayed.time_us'), L('this._gps_sample_delayed.time_us'))
    gone = AND(AND(NOT(rdy), x['gps']), cmpdd('>', ago, lc(10000000)))
    alt = AND(AND(NOT(rdy), x['gps']), AND(AND(cmpdd('>', ago, lc(1000000)), NOT(cmpdd('>', ago, lc(10000000)))), oth))
    hp('stop', 'stopGpsFusion', OR(poor, OR(gone, alt)))
    use = AND(AND(rdy, on), NOT(poor))
    # the yaw estimator
    want, rt = B('this._do_ekfgsf_yaw_reset'), tm('_ekfgsf_yaw_reset_time')
    old5 = timed_out(rt, lc(5000000))
    A = AND(AND(rdy, NOT(use)), AND(want, old5))
    t = {n: tm(n) for n in TF}
    lim = P0_('reset_timeout_max')
    lost = AND(AND(timed_out(t[TF[0]], lim), timed_out(t[TF[1]], lim)), AND(timed_out(t[TF[2]], lim), timed_out(t[TF[3]], lim)))
    lost = AND(use, OR(lost, timed_out(t[TF[0]], MUL(lc(2), lim))))
    air_, gt = cflag('in_air'), tm('_time_last_on_ground_us')
    tv, tp = t[TF[2]], t[TF[0]]
    took = AND(AND(air_, NOT(timed_out(gt, lc(30000000)))), AND(timed_out(tv, P0_('EKFGSF_reset_delay')), cmpdd('>', tv, gt)))
    infl = AND(AND(air_, lost), AND(cmpdd('>', tv, gt), cmpdd('>', tp, gt)))
    vo = [L(f'this._last_vel_obs[{i}]') for i in range(2)]
    n2 = lambda a: ADD(sq(a[0]), sq(a[1]))
    PP = lambda i: L(FL_(('P', (i, i))))
    thr = lambda a, b: FN('max', MUL(lc(16), ADD(a, b)), T)
    big = AND(cmpdd('>', n2(vo), thr(L('this._last_vel_obs_var[0]'), L('this._last_vel_obs_var[1]'))), cmpdd('>', n2(vel[:2]), thr(PP(4), PP(5))))
    dot = ADD(MUL(vo[0], vel[0]), MUL(vo[1], vel[1]))
    cos25 = FN('cos', leaf(mul(const(Fraction(25, 180)), V.pi_const())))
    apart = OR(cmpdd('<', DIV(sq(dot), MUL(n2(vel[:2]), n2(vo))), sq(cos25)), cmpdd('<', dot, F))
    fail = AND(AND(OR(took, infl), cmpdd('>', tv, F)), AND(big, apart))
    few = cmpdd('<', tm('_ekfgsf_yaw_reset_count'), P0_('EKFGSF_reset_count_limit'))
    Y = AND(AND(use, OR(want, fail)), AND(few, AND(old5, NOT(timed_out(tm('_time_prev_gps_us'), lc(1000000))))))
    hp('yaw failure', 'resetYawToEKFGSF', OR(A, Y))
    ok = AND(OR(A, Y), ret('resetYawToEKFGSF'))
    c.eq('yaw failure', 'time of the reset', mem(fl, '_ekfgsf_yaw_reset_time', t='uint64_t'), ITE(ok, now, rt), w)
    c.eq('yaw failure', 'a request is served once', tobool(mem(fl, '_do_ekfgsf_yaw_reset', t='bool')), AND(want, NOT(ok)), w)
    oky = AND(Y, ret('resetYawToEKFGSF'))
    n = tm('_ekfgsf_yaw_reset_count')
    c.eq('yaw failure', 'resets in flight are counted', dd(mem(fl, '_ekfgsf_yaw_reset_count', t='uint8_t')), ITE(oky, ADD(n, T), n), w)
    # reset to GPS
    Z = AND(lost, NOT(Y))
    wing = AND(Z, AND(cflag('fixed_wing'), air_))
    hp('timeout', 'realignYawGPS', wing)
    hp('timeout', 'resetVelocity', Z)
    hp('timeout', 'resetHorizontalPosition', OR(Z, AND(poor, AND(x['ev_pos'], NOT(rot)))))
    for e in ev['resetHorizontalPosition'] if sees(c, 'resetHorizontalPosition', 'gps') else ():
        c.eq('stop', 'a position reset without GPS exactly when GPS was stopped', tobool(at(fl, e, '_control_status', 'flags', 'gps', t='bool')), NOT(poor), evloc(e), e.pc)
    for i, nme in enumerate(TF):
        c.eq('timeout', f'{nme} starts over', mem(fl, nme, t='uint64_t'), ITE(OR(oky, Z) if i in (0, 2) else oky, now, t[nme]), w)
    vr = B('this._velpos_reset_request')
    c.eq('timeout', 'the request for a reset is served', tobool(mem(fl, '_velpos_reset_request', t='bool')), AND(vr, NOT(Z)), w)
    events_are(c, 'report', 'GPS', fl, {'gps_quality_poor': poor, 'gps_fusion_timout': Z, 'gps_data_stopped': gone, 'gps_data_stopped_using_alternate': alt})
    flags_are(c, 'flags', 'GPS', fl, {'gps': AND(on, NOT(OR(poor, OR(gone, alt)))), 'ev_yaw': AND(ITE(rdy, evy, cflag('ev_yaw')), NOT(hd)),
                                      'yaw_align': ITE(OR(A, Y), afterb('resetYawToEKFGSF', *CF('yaw_align')), ITE(rdy, al1, cflag('yaw_align'))),
                                      'mag_aligned_in_flight': ITE(wing, ret('realignYawGPS'), cflag('mag_aligned_in_flight'))})
    # fusion
    gps_fusion(c, fl, ev, use, Est(), 'no reset')
    # --- the innovations are those of the estimate after the resets
    em = dict(fm, resetYawToEKFGSF=EST + fm['resetYawToEKFGSF'], realignYawGPS=ROT, resetVelocity=VEL, resetHorizontalPosition=POS)
    base = AND(AND(rdy, x['gps']), AND(sel, NOT(failing)))
    old2 = timed_out(t[TF[0]], MUL(lc(2), lim))
    for nm, cond, chg in (('yaw reset', AND(AND(want, few), AND(old5, NOT(timed_out(tm('_time_prev_gps_us'), lc(1000000))))), (('resetYawToEKFGSF', EST),)),
                          ('reset to GPS', AND(AND(old2, NOT(few)), NOT(cflag('fixed_wing'))), (('resetVelocity', VEL), ('resetHorizontalPosition', POS))),
                          ('reset to GPS with realigned yaw', AND(AND(old2, NOT(few)), AND(cflag('fixed_wing'), air_)), (('realignYawGPS', ROT), ('resetVelocity', VEL), ('resetHorizontalPosition', POS)))):
        fl2 = c.flow('Ekf::controlGpsFusion', hooks=Steps(*names, bools=bools, mods=em), pc=TRUE.and_(AND(base, cond)))
        est = Est()
        for q, m in chg:
            est.left(T, q, m)
        gps_fusion(c, fl2, steps(c, fl2, *(names + bools)), AND(base, cond), est, nm)
    for nme in ('_gps_sample_delayed', '_gps_vel_innov', '_gps_pos_innov', '_last_vel_obs', '_last_vel_obs_var'):
        same = [p for p in fl.S.w if p[:2] == ('this', nme) and p in fl.S.d]
        for p in sorted(same, key=repr):
            c.eq('frame', f'{FL_(p[1:])} is kept unless GPS is fused', fl.S.d[p], L(FL_(p[1:])), w, TRUE.and_(NOT(use)))
    frame(c, 'frame', 'GPS', fl, ('_control_status', '_warning_events', 'P', '_mag_inhibit_yaw_reset_req', '_ekfgsf_yaw_reset_time', '_do_ekfgsf_yaw_reset', '_ekfgsf_yaw_reset_count', '_velpos_reset_request', '_gps_sample_delayed', '_gps_vel_innov',
                                  '_gps_pos_innov', '_last_vel_obs', '_last_vel_obs_var', ('this', '_state', 'vel'), ('this', '_state', 'pos'), '_R_to_earth') + TF)


def gps_fusion(c, fl, ev, use, est, case):
    w = loc(fl.f)
    oth = other('gps')
    U = TRUE.and_(use)
    hp = lambda r, n, when, **k: happens(c, r, f'GPS, {case}', fl, ev, n, when, pc=fl.S.pc, **k)
    off = [SUB(L(f'this._params.gps_pos_body[{i}]'), L(f'this._params.imu_pos_body[{i}]')) for i in range(3)]
    om = [L(f'this._ang_rate_delayed_raw[{i}]') for i in range(3)]
    vb = [SUB(MUL(om[(i + 1) % 3], off[(i + 2) % 3]), MUL(om[(i + 2) % 3], off[(i + 1) % 3])) for i in range(3)]
    dot3 = lambda i, v: ADD(ADD(MUL(est.R(i, 0), v[0]), MUL(est.R(i, 1), v[1])), MUL(est.R(i, 2), v[2]))
    g = 'this._gps_sample_delayed.'
    gv = [SUB(L(f'{g}vel[{i}]'), dot3(i, vb)) for i in range(3)]
    gp = [SUB(L(f'{g}pos[{i}]'), dot3(i, off)) for i in range(2)]
    gh = ADD(L(g + 'hgt'), dot3(2, off))
    sacc = FN('max', L(g + 'sacc'), P0_('gps_vel_noise'))
    var = [sq(sacc), sq(sacc), MUL(sq(sacc), lc(Fraction('2.25')))]
    hacc = L(g + 'hacc')
    lo = FN('max', P0_('gps_pos_noise'), lc(Fraction('0.01')))
    hi = FN('max', P0_('pos_noaid_noise'), lo)
    pv = {True: sq(FN('max', hacc, lo)), False: sq(clamp(hacc, lo, hi))}
    for i in range(3):
        c.eq('sample', f'{case}: velocity {i} moved to the IMU', mem(fl, '_gps_sample_delayed', 'vel', (i, 0)), gv[i], w, U)
        c.eq('innovation', f'{case}: velocity innovation {i}', mem(fl, '_gps_vel_innov', (i, 0)), SUB(est.vel(i), gv[i]), w, U)
        c.eq('innovation', f'{case}: last velocity observed {i}', mem(fl, '_last_vel_obs', (i, 0)), gv[i], w, U)
        eqs(c, 'innovation', f'{case}: variance of the last velocity observed {i}', mem(fl, '_last_vel_obs_var', (i, 0)), var[i], w, U)
    for i in range(2):
        c.eq('sample', f'{case}: position {i} moved to the IMU', mem(fl, '_gps_sample_delayed', 'pos', (i, 0)), gp[i], w, U)
        c.eq('innovation', f'{case}: position innovation {i}', mem(fl, '_gps_pos_innov', (i, 0)), SUB(est.pos(i), gp[i]), w, U)
    c.eq('sample', f'{case}: height moved to the IMU', mem(fl, '_gps_sample_delayed', 'hgt'), gh, w, U)
    vg, pg = FN('max', P0_('gps_vel_innov_gate'), T), FN('max', P0_('gps_pos_innov_gate'), T)
    for q, src, gates in (('fuseHorizontalVelocity', '_gps_vel', {0: vg}), ('fuseVerticalVelocity', '_gps_vel', {1: vg}), ('fuseHorizontalPosition', '_gps_pos', {0: pg})):
        hp('fusion', q, use)
        for e in ev[q]:
            a = e.data['args']
            ax = {'fuseHorizontalVelocity': (0, 1), 'fuseVerticalVelocity': (2,), 'fuseHorizontalPosition': (0, 1)}[q]
            for i in ax:
                c.eq('fusion', f'{case}: {q}: innovation {i}', a[0].e[i], SUB(est.vel(i), gv[i]) if 'Vel' in q else SUB(est.pos(i), gp[i]), evloc(e), e.pc)
                if 'Vel' in q:
                    eqs(c, 'fusion', f'{case}: {q}: variance {i}', a[2].e[i], var[i], evloc(e), e.pc)
                else:
                    for k in (True, False):
                        eqs(c, 'fusion', f'{case}: {q}: variance {i} ' + ('with other aiding' if k else 'limited without other aiding'), a[2].e[i], pv[k], evloc(e), e.pc.and_(oth if k else NOT(oth)))
            for i, gg in gates.items():
                eqs(c, 'fusion', f'{case}: {q}: gate', a[1].e[i], gg, evloc(e), e.pc)
            c.ob('fusion', f'{case}: {q}: results', lvpath(e.data['lv'][3]) == ('this', src + '_innov_var') and lvpath(e.data['lv'][4]) == ('this', src + '_test_ratio'), evloc(e), 'stored elsewhere')
    for e in ev['fuseHorizontalPosition']:
        a = e.data['args']
        c.ob('fusion', 'measured positions may report a failure', len(a) < 6 or a[5] is None or isconst_(a[5], 0), evloc(e))


def isconst_(v, k):
    ls = leaves(dd(v))
    return len(ls) == 1 and isconst(ls[0]) and ls[0].aux == k


def gps_yaw(c):
    fl = c.flow('Ekf::controlGpsYawFusion', hooks=Steps('fuseGpsYaw', 'startGpsYawFusion', bools=('resetYawToGps',), mods={'startGpsYawFusion': ((CF('gps_yaw'), T),), 'fuseGpsYaw': ((('_time_last_gps_yaw_fuse',), 'uint64_t'),)}))
    V.TYPE_IV['after fuseGpsYaw: _time_last_gps_yaw_fuse'] = (0.0, 1e18)
    w = loc(fl.f)
    ev = steps(c, fl, 'fuseGpsYaw', 'startGpsYawFusion', 'resetYawToGps')
    bad = B('this._is_gps_yaw_faulty')
    on = AND(bit('this._params.fusion_mode', 7), NOT(bad))
    fin = bool_atom(fn('isfinite', (s('this._gps_sample_delayed.yaw'),)))
    data = AND(on, fin)
    use = cflag('gps_yaw')
    happens(c, 'yaw', 'GPS yaw', fl, ev, 'fuseGpsYaw', AND(data, use))
    try_ = AND(AND(data, NOT(use)), AND(cflag('tilt_align'), NOT(gint)))
    happens(c, 'yaw', 'GPS yaw', fl, ev, 'resetYawToGps', try_)
    st_ = AND(try_, B('ret:resetYawToGps'))
    happens(c, 'yaw', 'GPS yaw', fl, ev, 'startGpsYawFusion', st_)
    t = ITE(AND(data, use), after('fuseGpsYaw', '_time_last_gps_yaw_fuse'), tm('_time_last_gps_yaw_fuse'))
    faulty = AND(AND(on, OR(use, st_)), timed_out(t, lc(5000000)))
    c.eq('yaw', 'GPS yaw without success for 5 s is faulty', tobool(mem(fl, '_is_gps_yaw_faulty', t='bool')), OR(bad, faulty), w)
    flags_are(c, 'yaw', 'GPS yaw', fl, {'gps_yaw': AND(AND(on, OR(use, st_)), NOT(faulty)), 'yaw_align': OR(cflag('yaw_align'), st_)})
    frame(c, 'frame', 'GPS yaw', fl, ('_control_status', '_is_gps_yaw_faulty', '_time_last_gps_yaw_fuse'))


# ---------------------------------------------------------------- vision
MM = lambda A, B_: [[ADD(ADD(MUL(A[i][0], B_[0][j]), MUL(A[i][1], B_[1][j])), MUL(A[i][2], B_[2][j])) for j in range(3)] for i in range(3)]
TR = lambda A: [[A[j][i] for j in range(3)] for i in range(3)]
REV = tuple((('_R_ev_to_ekf', (i, j)), 'float') for i in range(3) for j in range(3))
VN = ('calcExtVisRotMat', 'startEvPosFusion', 'startEvVelFusion', 'startEvYawFusion', 'resetVelocity', 'resetHorizontalPosition', 'fuseHorizontalPosition', 'fuseHorizontalVelocity', 'fuseVerticalVelocity', 'fuseHeading', 'stopEvFusion')
VF = {'startEvPosFusion': ((CF('ev_pos'), T), (('_hpos_prev_available',), F)), 'startEvVelFusion': ((CF('ev_vel'), T),), 'startEvYawFusion': ((CF('ev_yaw'), T), (CF('yaw_align'), T)),
      'resetHorizontalPosition': ((('_hpos_prev_available',), F),), 'stopEvFusion': ((CF('ev_pos'), F), (CF('ev_vel'), F), (CF('ev_yaw'), F))}


@prop('C08', 200)
def vision(c):
    c.load(*CTU)
    V.TYPE_IV.clear()
    tsyms('this._time_last_imu', 'this._time_last_ext_vision', *('this.' + t for t in TF))
    V.TYPE_IV['this._params.reset_timeout_max'] = (0.0, 1e9)
    # the rotation between the frames
    fl = c.flow('Ekf::calcExtVisRotMat')
    qs = [leaf(st('quat_nominal', i)) for i in range(4)]
    qv = [L(f'this._ev_sample_delayed.quat[{i}]') for i in range(4)]
    dq = quat_mul([s(f'this._state.quat_nominal[{i}]') for i in range(4)], [a if i == 0 else neg(a) for i, a in enumerate(s(f'this._ev_sample_delayed.quat[{i}]') for i in range(4))])
    nn = fn('sqrt', (add(add(mul(dq[0], dq[0]), mul(dq[1], dq[1])), add(mul(dq[2], dq[2]), mul(dq[3], dq[3]))),))
    D = quat_dcm([div(x, nn) for x in dq])
    for i in range(3):
        for j in range(3):
            c.eq('frames', f'rotation from the vision to the navigation frame {i}{j}', mem(fl, '_R_ev_to_ekf', (i, j)), leaf(D[i][j]), loc(fl.f))
    frame(c, 'frame', 'the rotation of vision', fl, ('_R_ev_to_ekf',))
    V.TYPE_IV.clear()
    tsyms('this._time_last_imu', 'this._time_last_ext_vision', *('this.' + t for t in TF))
    V.TYPE_IV['this._params.reset_timeout_max'] = (0.0, 1e9)
    for body in (0, 1):
        S = lambda: vstate(body)
        nm = 'body frame' if body else 'local frame'
        fl = c.flow('Ekf::controlExternalVisionFusion', hooks=Steps(*VN, mods=VF), state=S())
        vision_steps(c, fl, nm)
        vision_values(c, fl, nm, F, Est(), L, TRUE)
        # the innovations are those of the estimate and of the frames after the resets
        lim = P0_('reset_timeout_max')
        sel = lambda k: bit('this._params.fusion_mode', k)
        align = AND(cflag('tilt_align'), cflag('yaw_align'))
        rdy = B('this._ev_data_ready')
        dr = lambda a, b: AND(AND(timed_out(tm(a), lim), timed_out(tm('_time_last_of_fuse'), lc(1000000))), timed_out(tm(b), lc(1000000)))
        on = AND(rdy, AND(cflag('ev_pos'), AND(cflag('ev_vel'), NOT(AND(NOT(cflag('gps')), AND(sel(4), NOT(cflag('ev_yaw'))))))))
        no = lambda a: NOT(timed_out(tm(a), lim))
        cases = (('position reset', AND(on, AND(NOT(sel(0)), AND(dr(TF[0], TF[2]), NOT(cflag('ev_yaw'))))), (('resetVelocity', VEL), ('resetHorizontalPosition', POS)), L),
                 ('velocity reset', AND(on, AND(AND(sel(0), dr(TF[2], TF[0])), NOT(cflag('ev_yaw')))), (('resetVelocity', VEL),), L),
                 ('frames rotated', AND(AND(rdy, AND(cflag('ev_pos'), cflag('ev_vel'))), AND(AND(sel(6), sel(3)), AND(AND(no(TF[0]), no(TF[2])), AND(NOT(cflag('ev_yaw')), NOT(sel(4)))))), (('calcExtVisRotMat', REV),), None))
        for case, cond, chg in [(a, b, d) for a, b, d, _ in cases]:
            em = dict(VF)
            for q, m in chg:
                em[q] = m + em.get(q, ())
            fl2 = c.flow('Ekf::controlExternalVisionFusion', hooks=Steps(*VN, mods=em), state=S(), pc=TRUE.and_(cond))
            est = Est()
            for q, m in chg:
                if q != 'calcExtVisRotMat':
                    est.left(T, q, m)
            rev = (lambda n: L(f'after calcExtVisRotMat: {n[5:]}')) if chg[0][0] == 'calcExtVisRotMat' else L
            vision_values(c, fl2, f'{nm}, {case}', cond, est, rev, TRUE.and_(cond))


def vstate(body):
    S = State()
    S.d[('this', '_ev_sample_delayed', 'vel_frame')] = T if body else F
    return S


class VisionLogic:
    def __init__(v):
        sel = v.sel = lambda k: bit('this._params.fusion_mode', k)
        v.rdy = rdy = B('this._ev_data_ready')
        v.lim = P0_('reset_timeout_max')
        fresh = recent(tm('_time_last_ext_vision'), lc(400000))
        v.frames = AND(rdy, AND(AND(sel(6), OR(sel(3), sel(8))), NOT(cflag('ev_yaw'))))
        al = AND(AND(rdy, fresh), AND(cflag('tilt_align'), cflag('yaw_align')))
        v.sp = AND(al, AND(sel(3), NOT(cflag('ev_pos'))))
        v.sv = AND(al, AND(sel(8), NOT(cflag('ev_vel'))))
        v.sy = AND(AND(rdy, fresh), AND(AND(NOT(cflag('gps')), sel(4)), AND(NOT(cflag('ev_yaw')), cflag('tilt_align'))))
        v.pos, v.vel, v.yaw = (AND(rdy, OR(cflag(f), s_)) for f, s_ in (('ev_pos', v.sp), ('ev_vel', v.sv), ('ev_yaw', v.sy)))
        v.odom = AND(v.pos, sel(0))
        v.abs = AND(v.pos, NOT(sel(0)))
        v.prev = AND(B('this._hpos_prev_available'), NOT(v.sp))
        v.rp = AND(v.abs, timed_out(tm(TF[0]), v.lim))
        free = timed_out(tm('_time_last_of_fuse'), lc(1000000))
        v.rvp = AND(v.rp, AND(free, timed_out(tm(TF[2]), lc(1000000))))
        v.rvv = AND(v.vel, AND(AND(timed_out(tm(TF[2]), v.lim), free), timed_out(tm(TF[0]), lc(1000000))))
        v.fp = OR(v.abs, AND(v.odom, v.prev))
        v.stop = AND(NOT(rdy), AND(OR(OR(cflag('ev_pos'), cflag('ev_vel')), cflag('ev_yaw')), timed_out(tm('_time_last_ext_vision'), v.lim)))


def vision_steps(c, fl, nm):
    w = loc(fl.f)
    ev = steps(c, fl, *VN)
    v = VisionLogic()
    hp = lambda r, n, when, **k: happens(c, r, f'vision, {nm}', fl, ev, n, when, **k)
    hp('frames', 'calcExtVisRotMat', v.frames)
    hp('start', 'startEvPosFusion', v.sp)
    hp('start', 'startEvVelFusion', v.sv)
    hp('start', 'startEvYawFusion', v.sy)
    hp('stop', 'stopEvFusion', v.stop)
    hp('timeout', 'resetHorizontalPosition', v.rp)
    hp('timeout', 'resetVelocity', OR(v.rvp, v.rvv), repeat=True)
    hp('fusion', 'fuseHorizontalPosition', v.fp)
    hp('fusion', 'fuseHorizontalVelocity', v.vel)
    hp('fusion', 'fuseVerticalVelocity', v.vel)
    hp('fusion', 'fuseHeading', v.yaw)
    c.eq('fusion', f'{nm}: positions are compared as changes exactly with GPS', tobool(mem(fl, '_fuse_hpos_as_odom', t='bool')), ITE(v.pos, v.sel(0), B('this._fuse_hpos_as_odom')), w)
    c.eq('fusion', f'{nm}: a previous position', tobool(mem(fl, '_hpos_prev_available', t='bool')), OR(v.odom, AND(AND(v.prev, NOT(v.rp)), T)), w)
    events_are(c, 'report', f'vision, {nm}', fl, {'vision_data_stopped': v.stop})
    flags_are(c, 'flags', f'vision, {nm}', fl, {f: AND(OR(cflag(f), s_), NOT(v.stop)) for f, s_ in (('ev_pos', v.sp), ('ev_vel', v.sv), ('ev_yaw', v.sy))} | {'yaw_align': OR(cflag('yaw_align'), v.sy)})
    for e in ev['fuseHeading']:
        pass
    frame(c, 'frame', f'vision, {nm}', fl, ('_control_status', '_warning_events', '_fuse_hpos_as_odom', '_hpos_prev_available', '_ev_sample_delayed', '_pos_meas_prev', '_hpos_pred_prev', '_ev_pos_innov', '_ev_vel_innov', '_last_vel_obs', '_last_vel_obs_var'))
    for n, when in (('_ev_sample_delayed', v.pos), ('_pos_meas_prev', v.odom), ('_hpos_pred_prev', v.odom), ('_ev_pos_innov', v.fp), ('_ev_vel_innov', v.vel), ('_last_vel_obs', v.vel), ('_last_vel_obs_var', v.vel)):
        for p in sorted((p for p in fl.S.w if p[:2] == ('this', n) and p in fl.S.d), key=repr):
            if p[-1] != 'vel_frame':
                c.eq('frame', f'{nm}: {FL.pname(p)} is kept unless used', fl.S.d[p], L(FL.pname(p)), w, TRUE.and_(NOT(when)))


def vision_values(c, fl, nm, cond, est, rev, base):
    w = loc(fl.f)
    ev = steps(c, fl, *VN)
    v = VisionLogic()
    body = 'body' in nm
    R = [[est.R(i, j) for j in range(3)] for i in range(3)]
    Re = [[rev(FL_(('_R_ev_to_ekf', (i, j)))) for j in range(3)] for i in range(3)]
    off = [SUB(L(f'this._params.ev_pos_body[{i}]'), L(f'this._params.imu_pos_body[{i}]')) for i in range(3)]
    om = [L(f'this._ang_rate_delayed_raw[{i}]') for i in range(3)]
    vb = [SUB(MUL(om[(i + 1) % 3], off[(i + 2) % 3]), MUL(om[(i + 2) % 3], off[(i + 1) % 3])) for i in range(3)]
    oe = mv(R, off)
    rot = OR(v.sel(6), v.sel(0))
    oev = mv(TR(Re), oe)
    raw = [L(f'this._ev_sample_delayed.pos[{i}]') for i in range(3)]
    pv = [L(f'this._ev_sample_delayed.posVar[{i}]') for i in range(3)]
    val = {False: [SUB(raw[i], oe[i]) for i in range(3)], True: [SUB(raw[i], oev[i]) for i in range(3)]}
    PV = [[pv[i] if i == j else F for j in range(3)] for i in range(3)]
    var = {False: pv, True: [MM(MM(Re, PV), TR(Re))[i][i] for i in range(3)]}
    for k in (False, True):
        pc = base.and_(v.pos).and_(rot if k else NOT(rot))
        for i in range(3):
            c.eq('sample', f'{nm}: position {i} moved to the IMU ' + ('in the vision frame' if k else ''), mem(fl, '_ev_sample_delayed', 'pos', (i, 0)), val[k][i], w, pc)
    for i in range(3):
        c.eq('innovation', f'{nm}: position measured last {i}', mem(fl, '_pos_meas_prev', (i, 0)), val[True][i], w, base.and_(v.odom))
    for i in range(2):
        c.eq('innovation', f'{nm}: position estimated last {i}', mem(fl, '_hpos_pred_prev', (i, 0)), est.pos(i), w, base.and_(v.odom))
    dp = mv(Re, [SUB(val[True][i], L(f'this._pos_meas_prev[{i}]')) for i in range(3)])
    modes = (('change of position', AND(v.odom, v.prev), [SUB(SUB(est.pos(i), L(f'this._hpos_pred_prev[{i}]')), dp[i]) for i in range(2)], [FN('max', var[True][i], lc(Fraction('0.25'))) for i in range(2)]),
             ('position in the vision frame', AND(v.abs, v.sel(6)), [SUB(est.pos(i), mv(Re, val[True])[i]) for i in range(2)], [FN('max', var[True][i], lc(Fraction('0.0001'))) for i in range(2)]),
             ('position', AND(v.abs, NOT(v.sel(6))), [SUB(est.pos(i), val[False][i]) for i in range(2)], [FN('max', var[False][i], lc(Fraction('0.0001'))) for i in range(2)]))
    for m, when, inn, vr in modes:
        for i in range(2):
            c.eq('innovation', f'{nm}: innovation of the {m} {i}', mem(fl, '_ev_pos_innov', (i, 0)), inn[i], w, base.and_(when))
        for e in ev['fuseHorizontalPosition']:
            a = e.data['args']
            for i in range(2):
                c.eq('fusion', f'{nm}: {m} fused {i}', a[0].e[i], inn[i], evloc(e), e.pc.and_(when))
                eqs(c, 'fusion', f'{nm}: variance of the {m} {i}', a[2].e[i], vr[i], evloc(e), e.pc.and_(when))
    for e in ev['fuseHorizontalPosition']:
        a = e.data['args']
        c.ob('fusion', f'{nm}: measured positions may report a failure', len(a) < 6 or a[5] is None or isconst_(a[5], 0), evloc(e))
    ve = [L(f'this._ev_sample_delayed.vel[{i}]') for i in range(3)]
    C = [[L(FL_(('_ev_sample_delayed', 'velCov', (i, j)))) for j in range(3)] for i in range(3)]
    dg = lambda M: [MM(MM(M, C), TR(M))[i][i] for i in range(3)]
    voe = mv(R, vb)
    if body:
        vm = (('', T, mv(R, [SUB(ve[i], vb[i]) for i in range(3)]), dg(R)),)
    else:
        vm = ((' in the vision frame', v.sel(6), [SUB(mv(Re, ve)[i], voe[i]) for i in range(3)], dg(Re)), ('', NOT(v.sel(6)), [SUB(ve[i], voe[i]) for i in range(3)], [C[i][i] for i in range(3)]))
    for m, when, val_, vr in vm:
        pc = base.and_(AND(v.vel, when))
        vr = [FN('max', x, lc(Fraction('0.0025'))) for x in vr]
        for i in range(3):
            c.eq('innovation', f'{nm}: velocity{m} {i}', mem(fl, '_last_vel_obs', (i, 0)), val_[i], w, pc)
            eqs(c, 'innovation', f'{nm}: velocity variance{m} {i}', mem(fl, '_last_vel_obs_var', (i, 0)), vr[i], w, pc)
            c.eq('innovation', f'{nm}: velocity innovation{m} {i}', mem(fl, '_ev_vel_innov', (i, 0)), SUB(est.vel(i), val_[i]), w, pc)
        for q, ax in (('fuseHorizontalVelocity', (0, 1)), ('fuseVerticalVelocity', (2,))):
            for e in ev[q]:
                for i in ax:
                    c.eq('fusion', f'{nm}: {q}{m}: innovation {i}', e.data['args'][0].e[i], SUB(est.vel(i), val_[i]), evloc(e), e.pc.and_(when))
                    eqs(c, 'fusion', f'{nm}: {q}{m}: variance {i}', e.data['args'][2].e[i], vr[i], evloc(e), e.pc.and_(when))
    for q, src, g, k in (('fuseHorizontalVelocity', '_ev_vel', 'ev_vel_innov_gate', 0), ('fuseVerticalVelocity', '_ev_vel', 'ev_vel_innov_gate', 1), ('fuseHorizontalPosition', '_ev_pos', 'ev_pos_innov_gate', 0)):
        for e in ev[q]:
            eqs(c, 'fusion', f'{nm}: {q}: gate', e.data['args'][1].e[k], FN('max', P0_(g), T), evloc(e), e.pc)
            c.ob('fusion', f'{nm}: {q}: results', lvpath(e.data['lv'][3]) == ('this', src + '_innov_var') and lvpath(e.data['lv'][4]) == ('this', src + '_test_ratio'), evloc(e), 'stored elsewhere')


# ---------------------------------------------------------------- optical flow
@prop('C09', 60)
def flow_(c):
    c.load(*CTU)
    V.TYPE_IV.clear()
    tsyms('this._time_last_imu', 'this._imu_sample_delayed.time_us', 'this._flow_sample_delayed.time_us', 'this._time_good_motion_us', 'this._time_bad_motion_us', 'this._time_last_hagl_fuse', *('this.' + t for t in TF))
    for n, iv in {'_params.reset_timeout_max': (0.0, 1e9), '_flow_max_rate': (0.01, 100.0), '_flow_sample_delayed.dt': (0.0, 10.0), '_flow_sample_delayed.quality': (0.0, 255.0), '_delta_time_of': (0.0, 1e3)}.items():
        V.TYPE_IV['this.' + n] = iv
    names, bools = ('resetVelocity', 'resetHorizontalPosition', 'fuseOptFlow', 'stopFlowFusion'), ('calcOptFlowBodyRateComp', 'resetMagHeading')
    gyro = tuple((('_flow_sample_delayed', 'gyro_xyz', (i, 0)), 'float') for i in range(3))
    fl = c.flow('Ekf::controlOpticalFlowFusion', hooks=Steps(*names, bools=bools, mods={'fuseOptFlow': POS, 'stopFlowFusion': ((CF('opt_flow'), F),), 'calcOptFlowBodyRateComp': gyro}))
    w = loc(fl.f)
    ev = steps(c, fl, *(names + bools))
    hp = lambda r, n, when, **k: happens(c, r, 'optical flow', fl, ev, n, when, **k)
    air, rdy, using = cflag('in_air'), B('this._flow_data_ready'), cflag('opt_flow')
    t = L('this._imu_sample_delayed.time_us')
    fd = 'this._flow_sample_delayed.'
    # motion on the ground
    acc = FN('sqrt', ADD(ADD(sq(L('this._accel_vec_filt[0]')), sq(L('this._accel_vec_filt[1]'))), sq(L('this._accel_vec_filt[2]'))))
    G = Fraction('9.80665')
    cosd = lambda d: FN('cos', leaf(mul(const(Fraction(d, 180)), V.pi_const())))
    moved = OR(OR(cmpdd('>', acc, lc(G * Fraction(3, 2))), cmpdd('<', acc, lc(G / 2))), OR(cmpdd('>', tm('_ang_rate_magnitude_filt'), tm('_flow_max_rate')), cmpdd('<', leaf(me('_R_to_earth', 2, 2)), cosd(30))))
    good_t = ITE(AND(NOT(air), moved), tm('_time_good_motion_us'), t)
    bad_t = ITE(air, F, ITE(moved, t, tm('_time_bad_motion_us')))
    c.eq('ground motion', 'time of good motion', mem(fl, '_time_good_motion_us', t='uint64_t'), good_t, w)
    c.eq('ground motion', 'time of bad motion', mem(fl, '_time_bad_motion_us', t='uint64_t'), bad_t, w)
    # the gyro over the interval of the sensor
    acct = ADD(tm('_delta_time_of'), L('this._imu_sample_delayed.delta_ang_dt'))
    for i in range(3):
        got = ADD(L(f'this._imu_del_ang_of[{i}]'), SUB(L(f'this._imu_sample_delayed.delta_ang[{i}]'), leaf(st('delta_ang_bias', i))))
        c.eq('accumulation', f'angles of the IMU over the interval of the sensor {i}', mem(fl, '_imu_del_ang_of', (i, 0)), got, w)
        for e in ev['calcOptFlowBodyRateComp']:
            c.eq('accumulation', f'angles known when motion is compensated {i}', at(fl, e, '_imu_del_ang_of', (i, 0)), got, evloc(e), e.pc)
    c.eq('accumulation', 'their time', mem(fl, '_delta_time_of'), acct, w)
    hp('sample', 'calcOptFlowBodyRateComp', rdy)
    # quality of the sample
    dt = L(fd + 'dt')
    lo, hi = FN('max', MUL(lc(Fraction('0.8')), acct), lc(Fraction('0.001'))), FN('min', MUL(lc(Fraction('1.2')), acct), lc(Fraction('0.2')))
    tgood = AND(cmpdd('>=', dt, lo), cmpdd('<=', dt, hi))
    fx = [L(f'{fd}flow_xy_rad[{i}]') for i in range(2)]
    comp = B('ret:calcOptFlowBodyRateComp')
    good = AND(AND(cmpdd('>=', L(fd + 'quality'), P0_('flow_qual_min')), NOT(cmpdd('>', ADD(sq(fx[0]), sq(fx[1])), sq(MUL(dt, tm('_flow_max_rate')))))), AND(AND(cmpdd('>', leaf(me('_R_to_earth', 2, 2)), P0_('range_cos_max_tilt')), comp), tgood))
    still = AND(AND(NOT(good), NOT(air)), comp)
    drop = AND(rdy, NOT(OR(good, still)))
    r2 = AND(rdy, NOT(drop))
    for i in range(2):
        x = ITE(AND(rdy, good), SUB(fx[i], after('calcOptFlowBodyRateComp', '_flow_sample_delayed', 'gyro_xyz', (i, 0))), ITE(AND(rdy, still), F, L(f'this._flow_compensated_XY_rad[{i}]')))
        c.eq('sample', f'rates compensated for motion, none on the ground with a bad sample {i}', mem(fl, '_flow_compensated_XY_rad', (i, 0)), x, w)
        for nme in ('resetVelocity', 'fuseOptFlow'):
            for e in ev[nme]:
                c.eq('sample', f'{nme} finds the compensated rate {i}', at(fl, e, '_flow_compensated_XY_rad', (i, 0)), x, evloc(e), e.pc)
    dtn = ITE(AND(AND(rdy, still), NOT(tgood)), lo, dt)
    eqs(c, 'sample', 'interval of a sample without one', mem(fl, '_flow_sample_delayed', 'dt'), dtn, w)
    # may it be used?
    oth = other('opt_flow')
    req = AND(air, OR(OR(B('this._is_dead_reckoning'), AND(using, NOT(oth))), AND(cflag('gps'), cmpdd('>', tm('_gps_error_norm'), ITE(using, lc(Fraction('0.7')), T)))))
    pre = AND(NOT(air), OR(cmpdd('>', t, ADD(good_t, lc(100000))), cmpdd('<', t, ADD(bad_t, lc(5000000)))))
    inh = OR(AND(OR(pre, AND(air, NOT(B('this._hagl_valid')))), NOT(req)), NOT(cflag('tilt_align')))
    c.eq('use', 'inhibited by motion, without terrain or before alignment unless required', tobool(mem(fl, '_inhibit_flow_use', t='bool')), ITE(r2, inh, B('this._inhibit_flow_use')), w)
    sel = bit('this._params.fusion_mode', 1)
    late = AND(NOT(r2), AND(using, cmpdd('>', t, ADD(L(fd + 'time_us'), lc(10000000)))))
    stop = AND(AND(r2, using), OR(NOT(sel), inh))
    hp('stop', 'stopFlowFusion', OR(stop, late))
    tr = AND(AND(r2, NOT(using)), AND(sel, NOT(inh)))
    hd = AND(tr, NOT(cflag('yaw_align')))
    hp('start', 'resetMagHeading', hd)
    for e in ev['resetMagHeading']:
        for i in range(3):
            c.eq('start', f'heading from the filtered magnetometer {i}', e.data['args'][0].e[i], L(f'this._mag_lpf._filter_state[{i}]'), evloc(e), e.pc)
    al = ITE(hd, B('ret:resetMagHeading'), cflag('yaw_align'))
    go = AND(tr, al)
    on = OR(go, AND(AND(r2, using), NOT(stop)))
    flags_are(c, 'flags', 'optical flow', fl, {'opt_flow': AND(OR(using, go), NOT(OR(stop, late))), 'yaw_align': al})
    tof = ITE(go, now, tm('_time_last_of_fuse'))
    c.eq('start', 'the timeout starts over', mem(fl, '_time_last_of_fuse', t='uint64_t'), tof, w)
    lost = AND(on, AND(timed_out(tof, P0_('reset_timeout_max')), NOT(oth)))
    alone = AND(go, NOT(oth))
    for nme in ('resetVelocity', 'resetHorizontalPosition'):
        hp('timeout', nme, OR(alone, lost), repeat=True)
        for e in ev[nme] if sees(c, nme, 'opt_flow') else ():
            c.eq('start', f'{nme}: flow may be the source', tobool(at(fl, e, '_control_status', 'flags', 'opt_flow', t='bool')), T, evloc(e), e.pc)
    for e in ev['fuseOptFlow']:
        eqs(c, 'fusion', 'interval of the sample fused', at(fl, e, '_flow_sample_delayed', 'dt'), dtn, evloc(e), e.pc)
    half = lambda x: FN('idiv', FN('floor', MUL(lc(1000000), x)), lc(2))
    noint = AND(AND(rdy, still), NOT(tgood))
    H = ITE(noint, cmpdd('>', t, SUB(L(fd + 'time_us'), half(lo))), cmpdd('>', t, SUB(L(fd + 'time_us'), half(dt))))
    fuse = AND(AND(on, H), recent(tm('_time_last_hagl_fuse'), lc(10000000)))
    hp('fusion', 'fuseOptFlow', fuse)
    for i in range(2):
        c.eq('fusion', f'position known last {i}', mem(fl, '_last_known_posNE', (i, 0)), ITE(fuse, after('fuseOptFlow', '_state', 'pos', (i, 0)), L(f'this._last_known_posNE[{i}]')), w)
    c.eq('sample', 'a sample is used once', tobool(mem(fl, '_flow_data_ready', t='bool')), AND(r2, NOT(AND(on, H))), w)
    c.eq('sample', 'terrain does not use bad samples', tobool(mem(fl, '_flow_for_terrain_data_ready', t='bool')), AND(B('this._flow_for_terrain_data_ready'), NOT(drop)), w)
    frame(c, 'frame', 'optical flow', fl, ('_control_status', '_time_good_motion_us', '_time_bad_motion_us', '_imu_del_ang_of', '_delta_time_of', '_flow_sample_delayed', '_flow_compensated_XY_rad', '_inhibit_flow_use', '_time_last_of_fuse',
                                           '_last_known_posNE', '_flow_data_ready', '_flow_for_terrain_data_ready', ('this', '_state', 'pos')))


# ---------------------------------------------------------------- the other aids
AIR = ('resetWindStates', 'resetWindCovariance')


@prop('C10', 80)
def aids(c):
    c.load(*CTU)
    V.TYPE_IV.clear()
    tsyms('this._time_last_imu', 'this._time_last_fake_pos', 'this._time_last_arsp_fuse', 'this._time_last_beta_fuse')
    V.TYPE_IV['this._params.beta_avg_ft_us'] = (0.0, 1e9)
    syn, wind, air = B('this._using_synthetic_position'), cflag('wind'), cflag('in_air')
    ta, tb = tm('_time_last_arsp_fuse'), tm('_time_last_beta_fuse')

    def run(q, *names, **kw):
        fl = c.flow('Ekf::' + q, hooks=Steps(*names, **kw))
        return fl, steps(c, fl, *names), loc(fl.f)

    def first(what, ev, later, starts):
        """the wind is reset before anything is fused with it"""
        for e in ev[later]:
            for a in AIR:
                c.ob('wind', f'{what}: {a} comes before {later}', all(x.data['n'] < e.data['n'] or apart(x, e) for x in ev[a]), evloc(e), 'called afterwards')
        for a in AIR:
            for e in ev[a] if sees(c, a, 'wind') else ():
                c.eq('wind', f'{what}: the wind is estimated when it is reset ({a})', tobool(at(fl, e, '_control_status', 'flags', 'wind', t='bool')), T, evloc(e), e.pc)
    # airspeed
    fl, ev, w = run('controlAirDataFusion', 'fuseAirspeed', *AIR)
    late_a, late_b = timed_out(ta, lc(10000000)), timed_out(tb, lc(10000000))
    drag = bit('this._params.fusion_mode', 5)
    lost = AND(wind, OR(syn, AND(AND(late_a, late_b), NOT(drag))))
    use = AND(AND(NOT(syn), B('this._tas_data_ready')), air)
    start = AND(use, OR(NOT(wind), lost))
    flags_are(c, 'airspeed', 'airspeed', fl, {'wind': OR(use, AND(wind, NOT(lost))), 'fuse_aspd': AND(cflag('fuse_aspd'), NOT(late_a))})
    happens(c, 'airspeed', 'airspeed', fl, ev, 'fuseAirspeed', use)
    for a in AIR:
        happens(c, 'airspeed', 'airspeed', fl, ev, a, start)
    c.eq('airspeed', 'the timeout starts over with the wind', mem(fl, '_time_last_arsp_fuse', t='uint64_t'), ITE(start, now, ta), w)
    first('airspeed', ev, 'fuseAirspeed', start)
    frame(c, 'frame', 'airspeed', fl, ('_control_status', '_time_last_arsp_fuse'))
    # sideslip
    fl, ev, w = run('controlBetaFusion', 'fuseSideslip', *AIR)
    use = AND(AND(NOT(syn), timed_out(tb, FN('floor', P0_('beta_avg_ft_us')))), AND(cflag('fuse_beta'), air))
    start = AND(use, NOT(wind))
    flags_are(c, 'sideslip', 'sideslip', fl, {'wind': OR(use, wind)})
    happens(c, 'sideslip', 'sideslip', fl, ev, 'fuseSideslip', use)
    for a in AIR:
        happens(c, 'sideslip', 'sideslip', fl, ev, a, start)
    c.eq('sideslip', 'the timeout starts over with the wind', mem(fl, '_time_last_beta_fuse', t='uint64_t'), ITE(start, now, tb), w)
    first('sideslip', ev, 'fuseSideslip', start)
    frame(c, 'frame', 'sideslip', fl, ('_control_status', '_time_last_beta_fuse'))
    # drag
    fl, ev, w = run('controlDragFusion', 'fuseDrag', *AIR, also={'pop_first_older_than': popped})
    on = AND(AND(drag, NOT(syn)), AND(air, NOT(B('this._mag_inhibit_yaw_reset_req'))))
    start = AND(on, NOT(wind))
    taken(c, 'drag', fl, {'_drag_buffer': AND(on, wind)}, {'_drag_buffer': '_drag_sample_delayed'})
    got = AND(AND(on, wind), B('pop:_drag_buffer'))
    happens(c, 'drag', 'drag', fl, ev, 'fuseDrag', got)
    for a in AIR:
        happens(c, 'drag', 'drag', fl, ev, a, start)
    flags_are(c, 'drag', 'drag', fl, {'wind': OR(on, wind)})
    first('drag', ev, 'fuseDrag', start)
    frame(c, 'frame', 'drag', fl, ('_control_status', '_drag_sample_delayed'))
    # assumed position
    fl, ev, w = run('controlFakePosFusion', 'resetHorizontalPosition', 'resetVelocity', 'fuseHorizontalPosition', mods={'resetVelocity': VEL})
    aiding = F
    for x in AID.values():
        aiding = OR(aiding, x)
    need = NOT(aiding)
    tf = tm('_time_last_fake_pos')
    due, again = AND(need, timed_out(tf, lc(200000))), AND(need, timed_out(tf, lc(400000)))
    c.eq('assumed position', 'used exactly without any horizontal aiding', tobool(mem(fl, '_using_synthetic_position', t='bool')), need, w)
    c.eq('assumed position', 'every 0.2 s', mem(fl, '_time_last_fake_pos', t='uint64_t'), ITE(due, now, tf), w)
    for a in ('resetHorizontalPosition', 'resetVelocity'):
        happens(c, 'assumed position', 'restart after an interruption', fl, ev, a, again)
    last = [ITE(again, pos[i], L(f'this._last_known_posNE[{i}]')) for i in range(2)]
    for i in range(2):
        c.eq('assumed position', f'held where the vehicle was {i}', mem(fl, '_last_known_posNE', (i, 0)), last[i], w)
        for e in ev['resetHorizontalPosition']:
            c.eq('assumed position', f'position known when it is reset {i}', at(fl, e, '_last_known_posNE', (i, 0)), pos[i], evloc(e), e.pc)
    c.eq('assumed position', 'positions are compared as such', tobool(mem(fl, '_fuse_hpos_as_odom', t='bool')), AND(B('this._fuse_hpos_as_odom'), NOT(again)), w)
    events_are(c, 'report', 'assumed position', fl, {'stopping_navigation': AND(again, NOT(cmpdd('==', tf, F)))})
    happens(c, 'assumed position', 'assumed position', fl, ev, 'fuseHorizontalPosition', due)
    V.TYPE_IV['this._params.pos_noaid_noise'] = V.TYPE_IV['this._params.gps_pos_noise'] = (0.01, 100.0)
    var = ITE_(AND(air, cflag('tilt_align')), sq(FN('max', P0_('pos_noaid_noise'), P0_('gps_pos_noise'))), cflag('vehicle_at_rest'), lc(Fraction('0.01')), lc(Fraction('0.25')))
    for i in range(2):
        c.eq('assumed position', f'innovation {i}', mem(fl, '_gps_pos_innov', (i, 0)), ITE(due, SUB(pos[i], last[i]), L(f'this._gps_pos_innov[{i}]')), w)
    for e in ev['fuseHorizontalPosition']:
        a = e.data['args']
        for i in range(2):
            c.eq('assumed position', f'innovation fused {i}', a[0].e[i], SUB(pos[i], last[i]), evloc(e), e.pc)
            eqs(c, 'assumed position', f'variance {i}', a[2].e[i], var, evloc(e), e.pc)
        eqs(c, 'assumed position', 'gate', a[1].e[0], lc(3), evloc(e), e.pc)
        c.ob('assumed position', 'never rejected as a failure of a sensor', len(a) > 5 and isconst_(a[5], 1), evloc(e))
        c.ob('assumed position', 'results', lvpath(e.data['lv'][3]) == ('this', '_gps_pos_innov_var') and lvpath(e.data['lv'][4]) == ('this', '_gps_pos_test_ratio'), evloc(e), 'stored elsewhere')
    frame(c, 'frame', 'the assumed position', fl, ('_using_synthetic_position', '_time_last_fake_pos', '_last_known_posNE', '_fuse_hpos_as_odom', '_warning_events', '_gps_pos_innov', ('this', '_state', 'vel')))
    # without the restart, the innovation is against the position held
    # auxiliary velocity
    fl, ev, w = run('controlAuxVelFusion', 'fuseHorizontalVelocity', also={'pop_first_older_than': popped})
    taken(c, 'auxiliary velocity', fl, {'_auxvel_buffer': T}, {'_auxvel_buffer': '_auxvel_sample_delayed'})
    got = B('pop:_auxvel_buffer')
    use = AND(got, aiding_hor())
    happens(c, 'auxiliary velocity', 'auxiliary velocity', fl, ev, 'fuseHorizontalVelocity', use)
    av = [L(f'_auxvel_buffer.vel[{i}]') for i in range(3)]
    vv = [L(f'_auxvel_buffer.velVar[{i}]') for i in range(3)]
    for i in range(3):
        c.eq('auxiliary velocity', f'innovation {i}', mem(fl, '_aux_vel_innov', (i, 0)), ITE(use, SUB(vel[i], av[i]), L(f'this._aux_vel_innov[{i}]')), w)
        c.eq('auxiliary velocity', f'last velocity observed {i}', mem(fl, '_last_vel_obs', (i, 0)), ITE(use, av[i], L(f'this._last_vel_obs[{i}]')), w)
        c.eq('auxiliary velocity', f'its variance {i}', mem(fl, '_last_vel_obs_var', (i, 0)), ITE(use, vv[i], L(f'this._last_vel_obs_var[{i}]')), w)
    for e in ev['fuseHorizontalVelocity']:
        a = e.data['args']
        for i in range(2):
            c.eq('auxiliary velocity', f'innovation fused {i}', a[0].e[i], SUB(vel[i], av[i]), evloc(e), e.pc)
            c.eq('auxiliary velocity', f'variance {i}', a[2].e[i], vv[i], evloc(e), e.pc)
        c.eq('auxiliary velocity', 'gate', a[1].e[0], P0_('auxvel_gate'), evloc(e), e.pc)
        c.ob('auxiliary velocity', 'results', lvpath(e.data['lv'][3]) == ('this', '_aux_vel_innov_var') and lvpath(e.data['lv'][4]) == ('this', '_aux_vel_test_ratio'), evloc(e), 'stored elsewhere')
    frame(c, 'frame', 'auxiliary velocity', fl, ('_auxvel_sample_delayed', '_aux_vel_innov', '_last_vel_obs', '_last_vel_obs_var'))


SAMPLES = {'_gps_buffer': 'gpsSample', '_mag_buffer': 'magSample', '_baro_buffer': 'baroSample', '_range_buffer': 'rangeSample', '_flow_buffer': 'flowSample', '_ext_vision_buffer': 'extVisionSample', '_airspeed_buffer': 'airspeedSample',
           '_drag_buffer': 'dragSample', '_auxvel_buffer': 'auxVelSample'}


def popped(fl, f, this, args, S, n):
    """taking a sample from an observation buffer: succeeds or not, the sample is written only if it does"""
    b = bufname(this)
    got = B('pop:' + b)
    lv = fl.eval(args[1], S)
    p = leaves(fl.num(lv))[0].aux if isinstance(lv, DD) else lv.path
    fl.event('pop', b, S, {'time': fl.num(fl.rvalue(fl.eval(args[0], S), S)), 'to': p, 'S': S.fork(S.pc), 'n': len(fl.events)}, n)
    for q, ty, bits in fl.struct_leaves(SAMPLES[b]):
        old = dd(fl.peek(S, p + q, ty))
        fl.setp(S, p + q, ITE(got, leaf(symbol(f'{b}.{FL.pname(q)}')), old))
    return got


def taken(c, what, fl, whens, tos):
    """samples behind the time horizon are taken from their buffers, when they should"""
    evs = {}
    for e in fl.events:
        if e.kind == 'pop':
            evs.setdefault(e.name, []).append(e)
    for b, when in whens.items():
        xs = evs.get(b, [])
        c.need(any('pop_first_older_than' in q for q in c.prog.by_qual), 'pop_first_older_than not found')
        c.eq('sample', f'{what}: a sample is taken from {b}', orpc(xs), when, loc(fl.f))
        once(c, 'sample', b, xs)
        for e in xs:
            c.eq('sample', f'{what}: samples of {b} behind the time horizon', dd(e.data['time']), L('this._imu_sample_delayed.time_us'), evloc(e), e.pc)
            to = tos[b] if isinstance(tos[b], tuple) else ('this', tos[b])
            c.ob('sample', f'{what}: the sample of {b} is kept where it is used', tuple(e.data['to']) == to, evloc(e), f'stored in {FL.pname(e.data["to"])}')


def aiding_hor():
    r = F
    for x in AID.values():
        r = OR(r, x)
    return r


# ---------------------------------------------------------------- one step
CONTROLS = ('controlHeightSensorTimeouts', 'controlMagFusion', 'controlOpticalFlowFusion', 'controlGpsFusion', 'controlAirDataFusion', 'controlBetaFusion', 'controlDragFusion', 'controlHeightFusion', 'controlExternalVisionFusion',
            'controlAuxVelFusion', 'controlFakePosFusion', 'update_deadreckoning_status')


@prop('C12', 150)
def one_step(c):
    c.load(*CTU, 'EKF/sensor_range_finder.cpp')
    V.TYPE_IV.clear()
    IM = 'this._imu_sample_delayed.time_us'
    tsyms('this._time_last_imu', IM, 'this._gps_sample_delayed.time_us', 'this._baro_sample_delayed.time_us', 'this._time_last_hagl_fuse', 'this._baro_buffer.newest.time_us', 'this._gps_buffer.newest.time_us', '_baro_buffer.time_us')
    V.TYPE_IV['this._params.range_valid_quality_s'] = (0.0, 1e6)
    RS = '_range_sensor'

    def checks(fl, f, this, args, S, n):
        a = [fl.rvalue(fl.eval(x, S), S) for x in args]
        fl.event('step', 'runChecks', S, {'args': a, 'S': S.fork(S.pc), 'n': len(fl.events), 'this': this}, n)
        for p, ty in ((('_is_sample_valid',), 'bool'), (('_cos_tilt_rng_to_earth',), 'float')):
            fl.peek(S, ('this', RS) + p, ty)
            fl.setp(S, ('this', RS) + p, afterb('runChecks', RS, *p) if ty == 'bool' else after('runChecks', RS, *p))
        return F

    def variances(fl, f, this, args, S, n):
        fl.event('step', 'calcRotVecVariances', S, {'args': [], 'S': S.fork(S.pc), 'n': len(fl.events)}, n)
        return FM(3, 1, [L(f'variance of the tilt {i}') for i in range(3)])

    def synth(fl, f, this, args, S, n):
        a = [fl.rvalue(fl.eval(x, S), S) for x in args]
        fl.event('step', 'calculate_synthetic_mag_z_measurement', S, {'args': a, 'S': S.fork(S.pc), 'n': len(fl.events)}, n)
        return L('synthetic z')
    H = Steps(*CONTROLS, bools=('resetMagHeading',), also=dict(rings(), pop_first_older_than=popped, runChecks=checks, calcRotVecVariances=variances, calculate_synthetic_mag_z_measurement=synth))
    fl = c.flow('Ekf::controlFusionModes', hooks=H)
    w = loc(fl.f)
    ev = steps(c, fl, *CONTROLS, 'resetMagHeading', 'runChecks', 'calcRotVecVariances', 'calculate_synthetic_mag_z_measurement')
    hp = lambda r, n, when, **k: happens(c, r, 'one step', fl, ev, n, when, **k)
    # --- every source is looked at, once
    for n in CONTROLS:
        hp('steps', n, T)
    idx = {n: [e.data['n'] for e in ev[n]] for n in CONTROLS}
    pops = [e.data['n'] for e in fl.events if e.kind == 'pop']
    first = min(min(x) for x in idx.values() if x)
    c.ob('steps', 'all samples are taken before any source is used', max(pops) < first, w)
    aids = [n for n in CONTROLS if n not in ('controlFakePosFusion', 'update_deadreckoning_status', 'controlHeightSensorTimeouts', 'controlMagFusion', 'controlHeightFusion')]
    for a, b in [('controlHeightSensorTimeouts', 'controlHeightFusion')] + [(n, 'controlFakePosFusion') for n in aids] + [(n, 'update_deadreckoning_status') for n in CONTROLS[:-1]]:
        c.ob('steps', f'{a} comes before {b}', all(x < y for x in idx[a] for y in idx[b]), w, 'called afterwards')
    # --- status of the step before
    for f, o, b in fl.union_layout('filter_control_status_u')[0]:
        c.eq('status', f'status of the step before: {f}', tobool(mem(fl, '_control_status_prev', 'flags', f, t='bool')), cflag(f), w)
    # --- tilt alignment
    todo = NOT(cflag('tilt_align'))
    lim = sq(MUL(lc(3), leaf(mul(const(Fraction(1, 180)), V.pi_const()))))
    done = AND(todo, cmpdd('<', ADD(L('variance of the tilt 0'), L('variance of the tilt 1')), lim))
    hp('alignment', 'resetMagHeading', done)
    for e in ev['resetMagHeading']:
        for i in range(3):
            c.eq('alignment', f'heading from the filtered magnetometer {i}', e.data['args'][0].e[i], L(f'this._mag_lpf._filter_state[{i}]'), evloc(e), e.pc)
    # --- samples
    od = AND(B('this._flow_data_ready'), cflag('opt_flow'))
    tos = {'_gps_buffer': '_gps_sample_delayed', '_mag_buffer': '_mag_sample_delayed', '_baro_buffer': '_baro_sample_delayed', '_range_buffer': ('this', RS, '_sample'), '_flow_buffer': '_flow_sample_delayed', '_ext_vision_buffer': '_ev_sample_delayed',
           '_airspeed_buffer': '_airspeed_sample_delayed'}
    taken(c, 'one step', fl, {b: NOT(od) if b == '_flow_buffer' else T for b in tos}, tos)
    pop = lambda b: B('pop:' + b)
    for m, b in (('_gps_data_ready', '_gps_buffer'), ('_mag_data_ready', '_mag_buffer'), ('_baro_data_ready', '_baro_buffer'), ('_ev_data_ready', '_ext_vision_buffer'), ('_tas_data_ready', '_airspeed_buffer')):
        c.eq('sample', f'{m} tells whether there is one', tobool(mem(fl, m, t='bool')), pop(b), w)
    fr = ITE(od, B('this._flow_data_ready'), pop('_flow_buffer'))
    c.eq('sample', 'a flow sample waits until it is used', tobool(mem(fl, '_flow_data_ready', t='bool')), fr, w)
    tr = B('this._flow_for_terrain_data_ready')
    c.eq('sample', 'flow is used for the terrain only without range, with GPS and not otherwise', tobool(mem(fl, '_flow_for_terrain_data_ready', t='bool')),
         ITE(AND(AND(NOT(tr), fr), cflag('in_air')), AND(timed_out(tm('_time_last_hagl_fuse'), lc(5000000)), AND(NOT(cflag('opt_flow')), cflag('gps'))), tr), w)
    c.eq('sample', 'time of the GPS sample before', mem(fl, '_time_prev_gps_us', t='uint64_t'), L('this._gps_sample_delayed.time_us'), w)
    c.eq('sample', 'time between baro samples', mem(fl, '_delta_time_baro_us', t='uint64_t'), SUB(L('_baro_buffer.time_us'), L('this._baro_sample_delayed.time_us')), w, TRUE.and_(pop('_baro_buffer')))
    c.eq('intermittent', 'baro without data for 0.4 s is faulty', tobool(mem(fl, '_baro_hgt_faulty', t='bool')), NOT(recent(L('this._baro_buffer.newest.time_us'), lc(400000))), w)
    c.eq('intermittent', 'GPS without data for 1 s is intermittent', tobool(mem(fl, '_gps_hgt_intermittent', t='bool')), NOT(recent(L('this._gps_buffer.newest.time_us'), lc(1000000))), w)
    # --- magnetometer
    mag = pop('_mag_buffer')
    mg = [L(f'_mag_buffer.mag[{i}]') for i in range(3)]
    al = L('this._mag_lpf._alpha')
    for i in range(3):
        x = L(f'this._mag_lpf._filter_state[{i}]')
        c.eq('magnetometer', f'filtered field {i}', mem(fl, '_mag_lpf', '_filter_state', (i, 0)), ITE(mag, ADD(x, MUL(al, SUB(mg[i], x))), x), w)
    dcl, inc, sth = tm('_mag_declination_gps'), tm('_mag_inclination_gps'), tm('_mag_strength_gps')
    syn = AND(AND(mag, NOT(cmpdd('==', P0_('synthesize_mag_z'), F))), AND(bit('this._params.mag_declination_source', 0), OR(B('this._NED_origin_initialised'), bool_atom(fn('isfinite', (s('this._mag_declination_gps'),))))))
    hp('magnetometer', 'calculate_synthetic_mag_z_measurement', syn)
    cs = lambda f, x: FN(f, x)
    want = [MUL(sth, MUL(cs('cos', inc), cs('cos', dcl))), MUL(sth, MUL(cs('cos', inc), cs('sin', dcl))), MUL(sth, cs('sin', inc))]
    for e in ev['calculate_synthetic_mag_z_measurement']:
        for i in range(3):
            c.eq('magnetometer', f'field measured {i}', e.data['args'][0].e[i], mg[i], evloc(e), e.pc)
            c.eq('magnetometer', f'field of the earth at the location {i}', e.data['args'][1].e[i], want[i], evloc(e), e.pc)
    for i in range(3):
        c.eq('magnetometer', f'field used {i}', mem(fl, '_mag_sample_delayed', 'mag', (i, 0)), ITE(mag, ITE(syn, L('synthetic z'), mg[i]) if i == 2 else mg[i], L(f'this._mag_sample_delayed.mag[{i}]')), w)
    flags_are(c, 'status', 'one step', fl, {'tilt_align': OR(cflag('tilt_align'), done), 'yaw_align': ITE(done, B('ret:resetMagHeading'), cflag('yaw_align')), 'synthetic_mag_z': ITE(mag, syn, cflag('synthetic_mag_z'))})
    # --- range finder
    hp('range finder', 'runChecks', T)
    for e in ev['runChecks']:
        g = lambda n, t='float': fl.peek(e.data['S'], ('this', RS, n), t)
        old, new = L('this._range_sensor._pitch_offset_rad'), P0_('rng_sens_pitch')
        c.ob('range finder', 'the sensor checked', tuple(e.data['this']) == ('this', RS), evloc(e))
        c.eq('range finder', 'checked at the time horizon', dd(e.data['args'][0]), L(IM), evloc(e), e.pc)
        for i in range(3):
            for j in range(3):
                c.eq('range finder', f'attitude {i}{j}', e.data['args'][1].e[3 * i + j], leaf(me('_R_to_earth', i, j)), evloc(e), e.pc)
        c.eq('range finder', 'data ready', tobool(g('_is_sample_ready', 'bool')), pop('_range_buffer'), evloc(e), e.pc)
        c.eq('range finder', 'tilt limit', g('_range_cos_max_tilt'), P0_('range_cos_max_tilt'), evloc(e), e.pc)
        c.eq('range finder', 'hysteresis', dd(g('_quality_hyst_us', 'uint64_t')), FN('floor', MUL(P0_('range_valid_quality_s'), lc(1000000))), evloc(e), e.pc)
        c.eq('range finder', 'mounting angle', g('_pitch_offset_rad'), new, evloc(e), e.pc.and_(cmpdd('>', FN('abs', SUB(old, new)), lc(Fraction('1e-6')))))
    ok = AND(pop('_range_buffer'), afterb('runChecks', RS, '_is_sample_valid'))
    off = [SUB(L(f'this._params.rng_pos_body[{i}]'), L(f'this._params.imu_pos_body[{i}]')) for i in range(3)]
    z = mv([[leaf(me('_R_to_earth', i, j)) for j in range(3)] for i in range(3)], off)[2]
    raw = ITE(pop('_range_buffer'), L('_range_buffer.rng'), L('this._range_sensor._sample.rng'))
    for k in (True, False):
        c.eq('range finder', 'range from the IMU' if k else 'range without a valid sample', mem(fl, RS, '_sample', 'rng'), ADD(L('_range_buffer.rng'), DIV(z, after('runChecks', RS, '_cos_tilt_rng_to_earth'))) if k else raw, w, TRUE.and_(ok if k else NOT(ok)))
    frame(c, 'frame', 'one step', fl, ('_control_status', '_control_status_prev', '_baro_hgt_faulty', '_gps_hgt_intermittent', '_time_prev_gps_us', '_gps_data_ready', '_mag_data_ready', '_mag_lpf', '_delta_time_baro_us', '_baro_data_ready', RS,
                                       '_flow_data_ready', '_flow_for_terrain_data_ready', '_ev_data_ready', '_tas_data_ready', *[x for x in tos.values() if not isinstance(x, tuple)]))
    # --- yaw estimator
    fl = c.flow('Ekf::runYawEKFGSF', hooks=Steps('update', 'setVelocity'))
    w = loc(fl.f)
    ev = steps(c, fl, 'update', 'setVelocity')
    tsyms('this._airspeed_sample_delayed.time_us')
    V.TYPE_IV['this._dt_ekf_avg'] = (1e-4, 0.1)
    happens(c, 'yaw estimator', 'yaw estimator', fl, ev, 'update', T)
    tas = ITE(AND(timed_out(L('this._airspeed_sample_delayed.time_us'), lc(1000000)), cflag('fixed_wing')), P0_('EKFGSF_tas_default'), L('this._airspeed_sample_delayed.true_airspeed'))
    for e in ev['update']:
        a = e.data['args']
        for n, k in (('time_us', 0), ('delta_ang_dt', 0), ('delta_vel_dt', 0), ('delta_ang', 3), ('delta_vel', 3)):
            for i in range(max(k, 1)):
                q = (n, (i, 0)) if k else (n,)
                c.eq('yaw estimator', f'delayed IMU sample {FL.pname(q)}', a[0].d[q], L(FL_(('_imu_sample_delayed',) + q)), evloc(e), e.pc)
        c.eq('yaw estimator', 'in air', tobool(a[1]), cflag('in_air'), evloc(e), e.pc)
        c.eq('yaw estimator', 'airspeed', dd(a[2]), tas, evloc(e), e.pc)
        for i in range(3):
            c.eq('yaw estimator', f'gyro bias {i}', a[3].e[i], DIV(leaf(st('delta_ang_bias', i)), tm('_dt_ekf_avg')), evloc(e), e.pc)
    fin = [bool_atom(fn('isfinite', (s(f'this._gps_sample_delayed.vel[{i}]'),))) for i in range(2)]
    happens(c, 'yaw estimator', 'yaw estimator', fl, ev, 'setVelocity', AND(AND(gready, cmpdd('>', L('this._gps_sample_delayed.sacc'), lc(EPS))), AND(fin[0], fin[1])))
    for e in ev['setVelocity']:
        for i in range(2):
            c.eq('yaw estimator', f'velocity {i}', e.data['args'][0].e[i], L(f'this._gps_sample_delayed.vel[{i}]'), evloc(e), e.pc)
        c.eq('yaw estimator', 'its accuracy', e.data['args'][1], L('this._gps_sample_delayed.sacc'), evloc(e), e.pc)
    c.ob('yaw estimator', 'GPS velocity comes after the prediction', all(x.data['n'] < y.data['n'] or apart(x, y) for x in ev['update'] for y in ev['setVelocity']), w)
    frame(c, 'frame', 'the yaw estimator', fl, ('_yawEstimator',))
