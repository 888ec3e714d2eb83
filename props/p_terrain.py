"""Terrain height estimator."""
from vfa.harness import *
from .p_parts import L, B, s, mem, tsyms, total, quat_dcm
from .p_sensors import frame
from .p_ekf import st, me, eqs, clamp, orpc, callsof, once
from .p_yaw import flags_of, flags_are, bit, sq
from .p_reset import cflag
from .p_cov import P0_, QN
from .p_fuse import FTU, body_vec, xk, ITE_

TER = {'initHagl', 'fuseHagl', 'fuseFlowForTerrain', 'updateTerrainValidity'}
SC = 'estimator::sensor::SensorRangeFinder'
pos = leaf(st('pos', 2))
ter, var = L('this._terrain_vpos'), L('this._terrain_var')
now = L('this._time_last_imu')
TIMES = ('_time_last_hagl_fuse', '_time_last_fake_hagl_fuse', '_time_last_flow_terrain_fuse')


def uses(n):
    """selected sensors of the terrain estimator: range finder, flow"""
    return bool_atom(fn('bit', (s('this._params.terrain_fusion_mode'), const(n))))


RNG = AND(uses(0), AND(B('this._range_sensor._is_sample_ready'), B('this._range_sensor._is_sample_valid')))
FLOW = AND(uses(1), B('this._flow_for_terrain_data_ready'))
DIST = MUL(L('this._range_sensor._sample.rng'), L('this._range_sensor._cos_tilt_rng_to_earth'))


def tm(n):
    return L('this.' + n)


def start(c):
    V.TYPE_IV.clear()
    tsyms('this._time_last_imu', *('this.' + n for n in TIMES))
    for n in ('rng_gnd_clearance', 'range_noise', 'terrain_p_noise', 'terrain_gradient'):
        V.TYPE_IV['this._params.' + n] = (0.01, 100.0)
    V.TYPE_IV['this._imu_sample_delayed.delta_vel_dt'] = (0.0, 1.0)


@prop('T01', 25)
def schedule(c):
    c.load(*FTU)
    start(c)
    air, ini = cflag('in_air'), B('this._terrain_initialised')
    clr = P0_('rng_gnd_clearance')
    # --- initialisation
    fl = c.flow('Ekf::initHagl')
    w = loc(fl.f)
    gnd = NOT(air)
    rng, flw = AND(air, RNG), AND(air, AND(NOT(RNG), FLOW))
    ok = OR(gnd, OR(rng, flw))
    c.eq('start', 'initialised from ground contact, range finder or flow', tobool(fl.rvalue(fl.v, fl.S)), ok, w)
    eqs(c, 'start', 'terrain height', mem(fl, '_terrain_vpos'), ITE_(gnd, ADD(pos, clr), rng, ADD(pos, DIST), flw, FN('max', F, pos), ter), w)
    c.eq('start', 'terrain variance', mem(fl, '_terrain_var'), ITE_(gnd, sq(clr), rng, sq(P0_('range_noise')), flw, lc(100), var), w)
    c.eq('start', 'time of the last height', mem(fl, '_time_last_hagl_fuse', t='uint64_t'), ITE(ok, now, tm('_time_last_hagl_fuse')), w)
    c.eq('start', 'an assumed height is marked', mem(fl, '_time_last_fake_hagl_fuse', t='uint64_t'), ITE(gnd, now, tm('_time_last_fake_hagl_fuse')), w)
    frame(c, 'start', 'the initialisation', fl, ('_terrain_vpos', '_terrain_var') + TIMES[:2])
    # --- one step
    OP = {'initHagl', 'fuseHagl', 'fuseFlowForTerrain'}
    mods = {'initHagl': ('_terrain_vpos', '_terrain_var') + TIMES[:2], 'fuseHagl': ('_terrain_vpos', '_terrain_var', '_time_last_hagl_fuse'), 'fuseFlowForTerrain': ('_terrain_vpos', '_terrain_var', '_time_last_flow_terrain_fuse')}

    def stand_in(nm):
        def h(fl, f, this, args, S, n):
            fl.event('step', nm, S, {m: dd(fl.peek(S, ('this', m), 'float')) for m in ('_terrain_vpos', '_terrain_var')}, n)
            for m in mods[nm]:
                fl.setp(S, ('this', m), L(f'after {nm}: {m}'))
                if 'time' in m:
                    V.TYPE_IV[f'after {nm}: {m}'] = (0.0, 1e18)
            if nm == 'fuseFlowForTerrain':
                pass
            return B('initialised') if nm == 'initHagl' else F
        return h
    fl = c.flow('Ekf::runTerrainEstimator', hooks={n: stand_in(n) for n in OP})
    w = loc(fl.f)
    by = {n: [e for e in fl.events if e.kind == 'step' and e.name == n] for n in OP}
    again = OR(NOT(ini), gnd)
    go = NOT(again)
    for n, when in (('initHagl', again), ('fuseHagl', AND(go, RNG)), ('fuseFlowForTerrain', AND(go, FLOW))):
        c.eq('schedule', f'{n} runs exactly when it should', orpc(by[n]), when, w)
        once(c, 'schedule', n, by[n])
    c.must('schedule', 'range and flow are fused', by['fuseHagl'] and by['fuseFlowForTerrain'], w)
    dt = L('this._imu_sample_delayed.delta_vel_dt')
    grow = ADD(ADD(var, sq(MUL(dt, P0_('terrain_p_noise')))), MUL(sq(MUL(dt, P0_('terrain_gradient'))), ADD(sq(leaf(st('vel', 0))), sq(leaf(st('vel', 1))))))
    grown = clamp(grow, F, lc(10000))
    for n in OP:
        for e in by[n]:
            a = lambda m: e.data[m]
            fresh = TRUE if n != 'fuseFlowForTerrain' else TRUE.and_(NOT(RNG))
            p = e.pc.and_(NOT(RNG)) if n == 'fuseFlowForTerrain' else e.pc
            c.eq('prediction', f'{n}: terrain height is predicted constant', e.data['_terrain_vpos'], ter, evloc(e), p)
            eqs(c, 'prediction', f'{n}: variance ' + ('before' if n == 'initHagl' else 'grown by height noise and gradient, limited'), e.data['_terrain_var'], var if n == 'initHagl' else grown, evloc(e), p)
            if n == 'fuseFlowForTerrain':
                p = e.pc.and_(RNG)
                for m in ('_terrain_vpos', '_terrain_var'):
                    c.eq('prediction', f'{n}: {m} after the range fusion', e.data[m], L(f'after fuseHagl: {m}'), evloc(e), p)
    est = ITE_(again, L('after initHagl: _terrain_vpos'), FLOW, L('after fuseFlowForTerrain: _terrain_vpos'), RNG, L('after fuseHagl: _terrain_vpos'), ter)
    low = AND(go, cmpdd('<', SUB(est, pos), clr))
    eqs(c, 'limit', 'in the air the terrain stays below the vehicle by the clearance', mem(fl, '_terrain_vpos'), ITE(low, ADD(clr, pos), est), w)
    ev = ITE_(again, L('after initHagl: _terrain_var'), FLOW, L('after fuseFlowForTerrain: _terrain_var'), RNG, L('after fuseHagl: _terrain_var'), grown)
    eqs(c, 'prediction', 'terrain variance', mem(fl, '_terrain_var'), ev, w)
    i1 = ITE(again, B('initialised'), T)
    c.eq('schedule', 'initialised', tobool(mem(fl, '_terrain_initialised', t='bool')), i1, w)
    c.eq('schedule', 'flow data is used once', tobool(mem(fl, '_flow_for_terrain_data_ready', t='bool')), AND(B('this._flow_for_terrain_data_ready'), NOT(AND(go, uses(1)))), w)
    c.eq('schedule', 'height on the ground is remembered', mem(fl, '_last_on_ground_posD'), ITE(gnd, pos, L('this._last_on_ground_posD')), w)
    validity(c, fl, w, i1)
    frame(c, 'frame', 'a step', fl, ('_terrain_vpos', '_terrain_var', '_terrain_initialised', '_flow_for_terrain_data_ready', '_last_on_ground_posD', '_hagl_valid', '_hagl_sensor_status') + TIMES)
    fl = c.flow('Ekf::getTerrainVPos')
    c.eq('report', 'height of the terrain, last ground contact while it is unknown', fl.rvalue(fl.v, fl.S), ITE(B('this._hagl_valid'), ter, L('this._last_on_ground_posD')), loc(fl.f))
    for q, x in (('isTerrainEstimateValid', B('this._hagl_valid')), ):
        fl = c.flow('Ekf::' + q)
        c.eq('report', q, tobool(fl.rvalue(fl.v, fl.S)), x, loc(fl.f))
    fl = c.flow('Ekf::getTerrainVertPos')
    c.eq('report', 'estimate', fl.rvalue(fl.v, fl.S), ter, loc(fl.f))


def validity(c, fl, w, ini):
    t = {n: dd(mem(fl, n, t='uint64_t')) for n in TIMES}
    rec = {n: cmpdd('>', ADD(t[n], lc(5000000)), now) for n in TIMES}
    r, f = rec['_time_last_hagl_fuse'], rec['_time_last_flow_terrain_fuse']
    c.eq('validity', 'valid while initialised and corrected within 5 s', tobool(mem(fl, '_hagl_valid', t='bool')), AND(ini, OR(r, f)), w)
    g = lambda n: tobool(fl.peek(fl.S, ('this', '_hagl_sensor_status', 'flags', n), 'bool'))
    c.eq('validity', 'range finder reported in use', g('range_finder'), AND(AND(uses(0), r), NOT(cmpdd('==', t['_time_last_fake_hagl_fuse'], t['_time_last_hagl_fuse']))), w)
    c.eq('validity', 'flow reported in use', g('flow'), AND(uses(1), f), w)


@prop('T02', 22)
def fusion(c):
    c.load(*FTU)
    start(c)
    V.TYPE_IV['this._terrain_var'] = (0.0, 1e4)
    fl = c.flow('Ekf::fuseHagl')
    w = loc(fl.f)
    inn = SUB(SUB(ter, pos), DIST)
    R = ADD(ADD(FN('max', MUL(leaf(s(FL.pname(('this', 'P', (9, 9))))), P0_('vehicle_variance_scaler')), F), sq(P0_('range_noise'))), sq(MUL(P0_('range_noise_scaler'), L('this._range_sensor._sample.rng'))))
    iv = FN('max', ADD(var, R), R)
    ratio = DIV(sq(inn), MUL(sq(FN('max', P0_('range_innov_gate'), T)), iv))
    eqs(c, 'range', 'innovation', mem(fl, '_hagl_innov'), inn, w)
    eqs(c, 'range', 'innovation variance', mem(fl, '_hagl_innov_var'), iv, w)
    eqs(c, 'range', 'test ratio', mem(fl, '_hagl_test_ratio'), ratio, w)
    acc = cmpdd('<=', dd(mem(fl, '_hagl_test_ratio')), T)
    late = AND(NOT(acc), cmpdd('<', ADD(tm('_time_last_hagl_fuse'), lc(10000000)), now))
    k = DIV(var, dd(mem(fl, '_hagl_innov_var')))
    eqs(c, 'range', 'terrain height corrected when consistent, reset when rejected for 10 s', mem(fl, '_terrain_vpos'), ITE_(acc, SUB(ter, MUL(k, inn)), late, ADD(pos, DIST), ter), w)
    eqs(c, 'range', 'terrain variance', mem(fl, '_terrain_var'), ITE_(acc, FN('max', MUL(var, SUB(T, k)), F), late, R, var), w)
    c.eq('range', 'time of the last correction', mem(fl, '_time_last_hagl_fuse', t='uint64_t'), ITE(acc, now, tm('_time_last_hagl_fuse')), w)
    flags_are(c, 'report', 'range', fl, {'reject_hagl': ITE_(acc, F, late, B('this._innov_check_fail_status.flags.reject_hagl'), T)}, which='_innov_check_fail_status')
    frame(c, 'frame', 'range fusion', fl, ('_hagl_innov', '_hagl_innov_var', '_hagl_test_ratio', '_terrain_vpos', '_terrain_var', '_time_last_hagl_fuse', '_innov_check_fail_status'))
    # --- flow
    V.unit_quat(QN)
    OP = {'calcOptFlowMeasVar'}
    fl = c.flow('Ekf::fuseFlowForTerrain', opaque=OP, nomod=OP)
    w = loc(fl.f)
    R = L('ret:calcOptFlowMeasVar#0')
    x0 = xk(0)
    q = x0[:4]
    Rt = quat_dcm(q)
    off = [sub(s(f'this._params.flow_pos_body[{i}]'), s(f'this._params.imu_pos_body[{i}]')) for i in range(3)]
    dt = s('this._flow_sample_delayed.dt')
    om = [neg(div(s(f'this._flow_sample_delayed.gyro_xyz[{i}]'), dt)) for i in range(3)]
    vr = [sub(mul(om[(i + 1) % 3], off[(i + 2) % 3]), mul(om[(i + 2) % 3], off[(i + 1) % 3])) for i in range(3)]
    ve = [add(x0[4 + i], total([mul(me('_R_to_earth', i, j), vr[j]) for j in range(3)])) for i in range(3)]
    vb = [leaf(x) for x in body_vec(ve, q)]
    rate = [ADD(DIV(L(f'this._flow_compensated_XY_rad[{i}]'), leaf(dt)), L(f'this._flow_gyro_bias[{i}]')) for i in range(2)]
    up = leaf(Rt[2][2])
    t0 = FN('max', ter, ADD(P0_('rng_gnd_clearance'), pos))
    h = SUB(t0, pos)
    v2 = [vb[1], NEG(vb[0])]
    gate = sq(FN('max', P0_('flow_innov_gate'), T))
    x, p = t0, var
    used = F
    for i in range(2):
        inn = SUB(DIV(MUL(v2[i], up), h), rate[i])
        H = NEG(DIV(MUL(v2[i], up), MUL(h, h)))          # d prediction / d terrain height
        S_ = ADD(MUL(MUL(H, H), p), R)
        eqs(c, 'flow', f'innovation {i}', mem(fl, '_flow_innov', (i, 0)), inn, w)
        eqs(c, 'flow', f'innovation variance {i}', mem(fl, '_flow_innov_var', (i, 0)), S_, w)
        ok = cmpdd('<=', DIV(sq(inn), MUL(gate, S_)), T)
        k = DIV(MUL(p, H), S_)
        x = ITE(ok, SUB(x, MUL(k, inn)), x)
        p = ITE(ok, FN('max', SUB(p, MUL(MUL(k, H), p)), F), p)
        used = OR(used, ok)
    eqs(c, 'flow', 'terrain height after both axes', mem(fl, '_terrain_vpos'), x, w)
    eqs(c, 'flow', 'terrain variance after both axes', mem(fl, '_terrain_var'), p, w)
    c.eq('flow', 'time of the last correction', mem(fl, '_time_last_flow_terrain_fuse', t='uint64_t'), ITE(used, now, tm('_time_last_flow_terrain_fuse')), w)
    frame(c, 'frame', 'flow fusion', fl, ('_flow_innov', '_flow_innov_var', '_terrain_vpos', '_terrain_var', '_time_last_flow_terrain_fuse'))
