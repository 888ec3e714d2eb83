"""Self-contained parts of the EKF library: range finder data checks, IMU down-sampling, attitude helpers."""
from vfa.harness import *


def s(n):
    return symbol(n)


def L(n):
    return leaf(symbol(n))


def B(n):
    return bool_atom(symbol(n))


def mem(fl, *p, t='float'):
    return fl.peek(fl.S, ('this',) + p, t)


def tsyms(*names):
    for n in names:
        V.TYPE_IV[n] = (0.0, 1e18)


RF = 'estimator::sensor::SensorRangeFinder::'
RMEM = {'_is_sample_ready': 'bool', '_is_sample_valid': 'bool', '_is_regularly_sending_data': 'bool', '_time_last_valid_us': 'uint64_t', '_is_stuck': 'bool', '_stuck_threshold': 'float',
        '_stuck_min_val': 'float', '_stuck_max_val': 'float', '_dt_data_lpf': 'float', '_cos_tilt_rng_to_earth': 'float', '_range_cos_max_tilt': 'float', '_pitch_offset_rad': 'float',
        '_sin_pitch_offset': 'float', '_cos_pitch_offset': 'float', '_rng_valid_min_val': 'float', '_rng_valid_max_val': 'float', '_time_bad_quality_us': 'uint64_t', '_quality_hyst_us': 'uint64_t'}
SAMPLE = {'time_us': 'uint64_t', 'rng': 'float', 'quality': 'int8_t'}


def rstate(**fixed):
    S = State()
    for m, t in RMEM.items():
        S.d[('this', m)] = fixed[m] if m in fixed else B('this.' + m) if t == 'bool' else L('this.' + m)
        if t == 'uint64_t':
            tsyms('this.' + m)
    for m, t in SAMPLE.items():
        S.d[('this', '_sample', m)] = L('this._sample.' + m)
    tsyms('this._sample.time_us', 'arg0')
    return S


def rmem(fl, m):
    v = mem(fl, m, t=RMEM[m])
    return tobool(v) if RMEM[m] == 'bool' else v


def runchanged(c, rule, what, fl, pc, but):
    w = loc(fl.f)
    for m in RMEM:
        if m not in but:
            c.eq(rule, f'{what}: {m} unchanged', rmem(fl, m), B('this.' + m) if RMEM[m] == 'bool' else L('this.' + m), w, pc)
    for m, t in SAMPLE.items():
        if m not in but:
            c.eq(rule, f'{what}: the sample keeps its {m}', mem(fl, '_sample', m, t=t), L('this._sample.' + m), w, pc)


@prop('L01', 90)
def range_finder(c):
    c.load('EKF/sensor_range_finder.cpp')
    V.TYPE_IV.clear()
    now, st, rng = L('arg0'), L('this._sample.time_us'), L('this._sample.rng')
    tm = {m: L('this.' + m) for m in RMEM}
    R = Mat(3, 3, [L(f'r{i}{j}') for i in range(3) for j in range(3)], 'Dcm')
    fl = c.flow(RF + 'runChecks', state=rstate(), args={1: R})
    w = loc(fl.f)
    cosT = ADD(MUL(L('r20'), tm['_sin_pitch_offset']), MUL(L('r22'), tm['_cos_pitch_offset']))
    c.eq('tilt', 'cosine of the beam tilt from the attitude and the mounting pitch', rmem(fl, '_cos_tilt_rng_to_earth'), cosT, w)
    al = lc(Fraction('0.005'))
    lp = ADD(MUL(tm['_dt_data_lpf'], SUB(T, al)), MUL(al, SUB(now, st)))
    lp = FN('min', lp, lc(4000000))
    c.eq('continuity', 'the sample interval is low-pass filtered with the age of the sample and limited to 4 s', unfold(rmem(fl, '_dt_data_lpf')), unfold(lp), w)
    stale = OR(cmpdd('>', SUB(now, st), lc(400000)), cmpdd('>=', unfold(lp), lc(2000000)))
    p = TRUE.and_(stale)
    c.eq('continuity', 'an old sample or an irregular stream is not valid', rmem(fl, '_is_sample_valid'), F, w, p)
    c.eq('continuity', 'an old sample or an irregular stream is not regular', rmem(fl, '_is_regularly_sending_data'), F, w, p)
    runchanged(c, 'continuity', 'an old sample or an irregular stream', fl, p, ('_is_sample_valid', '_is_regularly_sending_data', '_dt_data_lpf', '_cos_tilt_rng_to_earth'))
    reg = TRUE.and_(NOT(stale))
    c.eq('continuity', 'a recent sample in a regular stream is regular', rmem(fl, '_is_regularly_sending_data'), T, w, reg)
    rdy = B('this._is_sample_ready')
    p = reg.and_(NOT(rdy))
    runchanged(c, 'validity', 'without a new sample', fl, p, ('_is_regularly_sending_data', '_dt_data_lpf', '_cos_tilt_rng_to_earth'))
    p0 = reg.and_(rdy)
    q0 = cmpdd('==', L('this._sample.quality'), F)
    p = p0.and_(q0)
    c.eq('quality', 'a sample of zero quality is not valid', rmem(fl, '_is_sample_valid'), F, w, p)
    c.eq('quality', 'a sample of zero quality starts the hysteresis', rmem(fl, '_time_bad_quality_us'), now, w, p)
    runchanged(c, 'quality', 'a sample of zero quality', fl, p, ('_is_sample_valid', '_time_bad_quality_us', '_is_regularly_sending_data', '_dt_data_lpf', '_cos_tilt_rng_to_earth'))
    good = p0.and_(NOT(q0))
    settled = cmpdd('>', SUB(now, tm['_time_bad_quality_us']), tm['_quality_hyst_us'])
    usable = AND(settled, AND(cmpdd('>', cosT, tm['_range_cos_max_tilt']), AND(cmpdd('>=', rng, tm['_rng_valid_min_val']), cmpdd('<=', rng, tm['_rng_valid_max_val']))))
    p = good.and_(NOT(usable))
    c.eq('validity', 'a sample during the hysteresis, too tilted or out of range is not valid', rmem(fl, '_is_sample_valid'), F, w, p)
    runchanged(c, 'validity', 'a sample during the hysteresis, too tilted or out of range', fl, p, ('_is_sample_valid', '_is_regularly_sending_data', '_dt_data_lpf', '_cos_tilt_rng_to_earth'))
    ok = good.and_(usable)
    long_ = cmpdd('>', SUB(st, tm['_time_last_valid_us']), lc(10000000))
    moved = cmpdd('>', SUB(tm['_stuck_max_val'], tm['_stuck_min_val']), tm['_stuck_threshold'])
    stuck = B('this._is_stuck')
    ns = ITE(long_, NOT(moved), stuck)
    c.eq('stuck', 'after 10 s without valid data the sensor is stuck until the readings vary', rmem(fl, '_is_stuck'), ns, w, ok)
    c.eq('stuck', 'a sample is valid unless the sensor is stuck', rmem(fl, '_is_sample_valid'), NOT(ns), w, ok)
    c.eq('stuck', 'the time of the last valid sample', rmem(fl, '_time_last_valid_us'), ITE(ns, tm['_time_last_valid_us'], st), w, ok)
    mx = ITE(long_, ITE(moved, F, ITE(cmpdd('>', rng, tm['_stuck_max_val']), rng, tm['_stuck_max_val'])), tm['_stuck_max_val'])
    mn = ITE(long_, ITE(moved, F, ITE(OR(cmpdd('<', tm['_stuck_min_val'], lc(Fraction('0.1'))), cmpdd('<', rng, tm['_stuck_min_val'])), rng, tm['_stuck_min_val'])), tm['_stuck_min_val'])
    c.eq('stuck', 'largest reading while stuck', rmem(fl, '_stuck_max_val'), mx, w, ok)
    c.eq('stuck', 'smallest reading while stuck', rmem(fl, '_stuck_min_val'), mn, w, ok)
    runchanged(c, 'stuck', 'a usable sample', fl, ok, ('_is_sample_valid', '_is_stuck', '_stuck_max_val', '_stuck_min_val', '_time_last_valid_us', '_is_regularly_sending_data', '_dt_data_lpf',
                                                       '_cos_tilt_rng_to_earth'))

    # what the rest of the estimator asks
    for q, want in (('isDataHealthy', AND(rdy, B('this._is_sample_valid'))), ('isHealthy', B('this._is_sample_valid')), ('isRegularlySendingData', B('this._is_regularly_sending_data'))):
        fl = c.flow(RF + q, state=rstate())
        c.eq('report', q, tobool(fl.rvalue(fl.v, fl.S)), want, loc(fl.f))
        runchanged(c, 'report', q, fl, TRUE, ())
    for q, want in (('getCosTilt', tm['_cos_tilt_rng_to_earth']), ('getRange', rng), ('getDistBottom', MUL(rng, tm['_cos_tilt_rng_to_earth'])), ('getValidMinVal', tm['_rng_valid_min_val']),
                    ('getValidMaxVal', tm['_rng_valid_max_val'])):
        fl = c.flow(RF + q, state=rstate())
        c.eq('report', q, fl.rvalue(fl.v, fl.S), want, loc(fl.f))
        runchanged(c, 'report', q, fl, TRUE, ())
    for q, m, want in (('setCosMaxTilt', '_range_cos_max_tilt', L('arg0')), ('setDataReadiness', '_is_sample_ready', B('arg0')), ('setValidity', '_is_sample_valid', B('arg0')), ('setRange', 'rng', L('arg0')),
                       ('setQualityHysteresis', '_quality_hyst_us', FN('trunc', MUL(L('arg0'), lc(1000000))))):
        fl = c.flow(RF + q, state=rstate())
        got = mem(fl, '_sample', 'rng') if m == 'rng' else rmem(fl, m)
        c.eq('set', f'{q} stores its argument', got, want, loc(fl.f))
        runchanged(c, 'set', q, fl, TRUE, (m,))
    fl = c.flow(RF + 'setLimits', state=rstate())
    c.eq('set', 'setLimits stores the lower limit', rmem(fl, '_rng_valid_min_val'), L('arg0'), loc(fl.f))
    c.eq('set', 'setLimits stores the upper limit', rmem(fl, '_rng_valid_max_val'), L('arg1'), loc(fl.f))
    runchanged(c, 'set', 'setLimits', fl, TRUE, ('_rng_valid_min_val', '_rng_valid_max_val'))
    fl = c.flow(RF + 'setSample', state=rstate())
    for m, t in SAMPLE.items():
        c.eq('set', f'setSample stores the {m}', mem(fl, '_sample', m, t=t), L('arg0.' + m), loc(fl.f))
    c.eq('set', 'setSample makes the sample ready', rmem(fl, '_is_sample_ready'), T, loc(fl.f))
    runchanged(c, 'set', 'setSample', fl, TRUE, ('_is_sample_ready', 'time_us', 'rng', 'quality'))
    fl = c.flow(RF + 'setPitchOffset', state=rstate())
    far = cmpdd('>', FN('abs', SUB(tm['_pitch_offset_rad'], L('arg0'))), lc(Fraction('1.1920929e-07')))
    for m, want in (('_sin_pitch_offset', FN('sin', L('arg0'))), ('_cos_pitch_offset', FN('cos', L('arg0'))), ('_pitch_offset_rad', L('arg0'))):
        c.eq('set', f'setPitchOffset updates {m} with a new angle', rmem(fl, m), want, loc(fl.f), TRUE.and_(far))
    runchanged(c, 'set', 'setPitchOffset with the angle it has', fl, TRUE.and_(NOT(far)), ())
    runchanged(c, 'set', 'setPitchOffset', fl, TRUE, ('_sin_pitch_offset', '_cos_pitch_offset', '_pitch_offset_rad'))
    # a new object has nothing to offer
    d = fl.default_struct('estimator::sensor::SensorRangeFinder', State(), True).d
    w = 'EKF/sensor_range_finder.hpp SensorRangeFinder'
    for m in ('_is_sample_ready', '_is_sample_valid', '_is_regularly_sending_data', '_is_stuck', '_time_last_valid_us', '_stuck_min_val', '_stuck_max_val', '_dt_data_lpf', '_time_bad_quality_us',
              '_sin_pitch_offset'):
        c.eq('start', f'initially {m} is zero', d.get((m,), F), F, w)
    c.eq('start', 'the initial mounting points down', d[('_cos_pitch_offset',)], lc(-1), w)
    c.eq('start', 'the initial tilt limit is 45 degrees', d[('_range_cos_max_tilt',)], lc(Fraction('0.7071')), w)
    c.eq('start', 'the initial stuck threshold is 10 cm', d[('_stuck_threshold',)], lc(Fraction('0.1')), w)


# ---------------------------------------------------------------- IMU down-sampling
def quat_mul(q, p):
    return [sub(sub(sub(mul(q[0], p[0]), mul(q[1], p[1])), mul(q[2], p[2])), mul(q[3], p[3])),
            sub(add(add(mul(q[0], p[1]), mul(q[1], p[0])), mul(q[2], p[3])), mul(q[3], p[2])),
            add(add(sub(mul(q[0], p[2]), mul(q[1], p[3])), mul(q[2], p[0])), mul(q[3], p[1])),
            add(sub(add(mul(q[0], p[3]), mul(q[1], p[2])), mul(q[2], p[1])), mul(q[3], p[0]))]


def quat_dcm(q):
    """rotation from the body to the reference frame"""
    a, b, c_, d = q
    p, two = mul, const(2)
    return [[sub(sub(add(p(a, a), p(b, b)), p(c_, c_)), p(d, d)), p(two, sub(p(b, c_), p(a, d))), p(two, add(p(a, c_), p(b, d)))],
            [p(two, add(p(b, c_), p(a, d))), sub(add(sub(p(a, a), p(b, b)), p(c_, c_)), p(d, d)), p(two, sub(p(c_, d), p(a, b)))],
            [p(two, sub(p(b, d), p(a, c_))), p(two, add(p(a, b), p(c_, d))), add(sub(sub(p(a, a), p(b, b)), p(c_, c_)), p(d, d))]]


def rotvec_quat(v):
    return [fn(f'q_aa.{i}', tuple(v)) for i in range(4)]


def qnorm(q):
    n = ZERO
    for x in q:
        n = add(n, mul(x, x))
    return fn('sqrt', (n,))


def total(xs):
    r = ZERO
    for x in xs:
        r = add(r, x)
    return r


IMU3 = ('delta_ang', 'delta_vel')


@prop('S03', 40)
def imu_down_sampler(c):
    c.load('EKF/imu_down_sampler.cpp')
    V.TYPE_IV.clear()
    V.TYPE_IV['this._target_dt'] = (1e-6, 10.0)
    half = const(Fraction(1, 2))
    for reset in (False, True):
        S = State()
        S.d[('this', '_do_reset')] = T if reset else F
        tsyms('arg0.time_us')
        fl = c.flow('ImuDownSampler::update', state=S)
        w = loc(fl.f)
        at = 'first sample after a reset' if reset else 'next sample'
        z = ZERO

        def old(n):
            return z if reset else s('this._imu_down_sampled.' + n)
        dang = [s(f'arg0.delta_ang[{i}]') for i in range(3)]
        dvel = [s(f'arg0.delta_vel[{i}]') for i in range(3)]
        for m in ('delta_ang_dt', 'delta_vel_dt'):
            c.eq('time', f'{at}: {m} adds up', mem(fl, '_imu_down_sampled', m), leaf(add(old(m), s('arg0.' + m))), w)
        c.eq('time', f'{at}: time of the newest sample', mem(fl, '_imu_down_sampled', 'time_us', t='uint64_t'), L('arg0.time_us'), w)
        for i in range(3):
            o = F if reset else B(f'this._imu_down_sampled.delta_vel_clipping[{i}]')
            c.eq('clipping', f'{at}: clipping of axis {i} is remembered', tobool(mem(fl, '_imu_down_sampled', 'delta_vel_clipping', i, t='bool')), OR(o, B(f'arg0.delta_vel_clipping[{i}]')), w)
        dq = rotvec_quat(dang)
        q0 = [ONE, z, z, z] if reset else [s(f'this._delta_angle_accumulated[{i}]') for i in range(4)]
        q1 = quat_mul(q0, dq)
        n = qnorm(q1)
        q1 = [div(x, n) for x in q1]
        for i in range(4):
            c.eq('rotation', f'{at}: accumulated rotation, component {i}', mem(fl, '_delta_angle_accumulated', (i, 0)), leaf(q1[i]), w)
        Rt = quat_dcm(dq)      # transposed: reference to body
        for i in range(3):
            rot = total(mul(Rt[k][i], add(old(f'delta_vel[{k}]'), mul(half, dvel[k]))) for k in range(3))
            c.eq('velocity', f'{at}: the accumulated delta velocity turns with the frame, component {i}', mem(fl, '_imu_down_sampled', 'delta_vel', (i, 0)), leaf(add(rot, mul(half, dvel[i]))), w)
        adj = s('this._imu_collection_time_adj')
        tgt = s('this._target_dt')
        dt = add(old('delta_ang_dt'), s('arg0.delta_ang_dt'))
        done = cmpdd('>=', leaf(dt), leaf(sub(tgt, adj)))
        c.eq('ready', f'{at}: ready when the collected time reaches the target', tobool(fl.rvalue(fl.v, fl.S)), done, w)
        nadj = ADD(leaf(adj), MUL(lc(Fraction('0.01')), SUB(leaf(dt), leaf(tgt))))
        lim = leaf(mul(half, tgt))
        c.eq('ready', f'{at}: the excess time shortens the following collections, within half the target', unfold(mem(fl, '_imu_collection_time_adj'), TRUE.and_(done)),
             unfold(ITE(cmpdd('>', nadj, lim), lim, ITE(cmpdd('<', nadj, NEG(lim)), NEG(lim), nadj)), TRUE.and_(done)), w, TRUE.and_(done))
        c.eq('ready', f'{at}: an unfinished collection leaves the adjustment alone', mem(fl, '_imu_collection_time_adj'), leaf(adj), w, TRUE.and_(NOT(done)))
        aa = fl._unint('aa_q', Mat(4, 1, [leaf(x) for x in q1]), 3, 1, 'AxisAngle')
        for i in range(3):
            c.eq('rotation', f'{at}: a finished collection reports the rotation vector of the accumulated rotation, component {i}', mem(fl, '_imu_down_sampled', 'delta_ang', (i, 0)), aa.e[i], w,
                 TRUE.and_(done))
        c.eq('reset', f'{at}: no reset is pending afterwards', tobool(mem(fl, '_do_reset', t='bool')), F, w)
    fl = c.flow('ImuDownSampler::getDownSampledImuAndTriggerReset')
    w = loc(fl.f)
    v = fl.rvalue(fl.v, fl.S)
    c.eq('report', 'handing out the sample asks for a reset', tobool(mem(fl, '_do_reset', t='bool')), T, w)
    for m in ('delta_ang_dt', 'delta_vel_dt', 'time_us'):
        c.eq('report', f'the sample is handed out: {m}', v.d[(m,)], L('this._imu_down_sampled.' + m), w)
    for m in IMU3:
        for i in range(3):
            c.eq('report', f'the sample is handed out: {m} {i}', v.d[(m, (i, 0))], L(f'this._imu_down_sampled.{m}[{i}]'), w)
    for i in range(3):
        c.eq('report', f'the sample is handed out: clipping {i}', tobool(v.d[('delta_vel_clipping', i)]), B(f'this._imu_down_sampled.delta_vel_clipping[{i}]'), w)
    fl = c.flow('ImuDownSampler::ImuDownSampler')
    w = loc(fl.f)
    for m in ('delta_ang_dt', 'delta_vel_dt'):
        c.eq('start', f'a new down-sampler has collected nothing: {m}', mem(fl, '_imu_down_sampled', m), F, w)
    c.eq('start', 'a new down-sampler has no time adjustment', mem(fl, '_imu_collection_time_adj'), F, w)
    c.eq('start', 'the target interval is the one given', mem(fl, '_target_dt'), L('arg0'), w)


# ---------------------------------------------------------------- attitude helpers
def rot312(yaw, roll, pitch):
    """Rz(yaw) Rx(roll) Ry(pitch)"""
    def m3(a, b):
        return [[total(mul(a[i][k], b[k][j]) for k in range(3)) for j in range(3)] for i in range(3)]

    def sc(x):
        return fn('sin', (x,)), fn('cos', (x,))
    (sz, cz), (sx, cx), (sy, cy) = sc(yaw), sc(roll), sc(pitch)
    Rz = [[cz, neg(sz), ZERO], [sz, cz, ZERO], [ZERO, ZERO, ONE]]
    Rx = [[ONE, ZERO, ZERO], [ZERO, cx, neg(sx)], [ZERO, sx, cx]]
    Ry = [[cy, ZERO, sy], [ZERO, ONE, ZERO], [neg(sy), ZERO, cy]]
    return m3(m3(Rz, Rx), Ry), (Rz, Rx, Ry, m3)


def overloads(c, name):
    return sorted((f for f in c.prog.funcs.values() if f.name == name and f.body is not None), key=lambda f: f.line)


@prop('E01', 60)
def attitude(c):
    c.load('EKF/utils.cpp')
    V.TYPE_IV.clear()
    # 3-1-2 sequence
    fl = c.flow('taitBryan312ToRotMat', args={0: Mat(3, 1, [L('yaw'), L('roll'), L('pitch')], 'Vector3')})
    R, (Rz, Rx, Ry, m3) = rot312(s('yaw'), s('roll'), s('pitch'))
    m = fl.rvalue(fl.v, fl.S)
    for i in range(3):
        for j in range(3):
            c.eq('312', f'rotation matrix of a yaw-roll-pitch sequence ({i},{j})', m.at(i, j), leaf(R[i][j]), loc(fl.f))
    # inverse rotation of a quaternion
    q = [s(f'q{i}') for i in range(4)]
    Q = Mat(4, 1, [leaf(x) for x in q], 'Quaternion')
    fl = c.flow('quatToInverseRotMat', args={0: Q})
    m = fl.rvalue(fl.v, fl.S)
    D = quat_dcm(q)
    for i in range(3):
        for j in range(3):
            c.eq('inverse', f'inverse rotation matrix of a quaternion ({i},{j})', m.at(i, j), leaf(D[j][i]), loc(fl.f))
    # yaw of quaternion and matrix
    RM = Mat(3, 3, [L(f'r{i}{j}') for i in range(3) for j in range(3)], 'Dcm')
    r = [[s(f'r{i}{j}') for j in range(3)] for i in range(3)]
    for nm, yx in (('getEuler321Yaw', lambda D: (D[1][0], D[0][0])), ('getEuler312Yaw', lambda D: (neg(D[0][1]), D[1][1]))):
        ov = overloads(c, nm)
        c.need(len(ov) >= 2, f'{nm} for a quaternion and for a matrix')
        for f in ov:
            isq = 'Quat' in f.params[0][2]
            fl = c.flow(nm, f=f, args={0: Q if isq else RM})
            c.eq('yaw', f'{nm} of a {"quaternion" if isq else "rotation matrix"}', fl.rvalue(fl.v, fl.S), leaf(fn('atan2', yx(D if isq else r))), loc(f))
    # choice of the sequence
    fl = c.flow('shouldUse321RotationSequence', args={0: RM})
    c.eq('choice', '3-2-1 is used with more roll than pitch', tobool(fl.rvalue(fl.v, fl.S)), cmpdd('<', FN('abs', leaf(r[2][0])), FN('abs', leaf(r[2][1]))), loc(fl.f))
    # replacing the yaw keeps the third row, the direction of gravity in the body frame; the matrix is a rotation away from gimbal lock
    # third rows away from gimbal lock in both parametrisations; u and w are the sine and (positive) cosine of the tilt that must not reach 90 degrees
    k = s('k')
    V.TYPE_IV['k'] = (-0.999, 0.999)
    den = add(ONE, mul(k, k))
    u, wc = div(mul(const(2), k), den), div(sub(ONE, mul(k, k)), den)
    SQRTS.clear()
    SQRTS[sub(ONE, mul(u, u)).fp] = wc
    SQRTS[mul(wc, wc).fp] = wc
    sn, cs = fn('sin', (s('tilt'),)), fn('cos', (s('tilt'),))
    y = s('arg0')
    for par, row in (('321', [neg(u), mul(sn, wc), mul(cs, wc)]), ('312', [neg(mul(sn, wc)), u, mul(cs, wc)])):
        M = Mat(3, 3, [L(f'r{i}{j}') for i in range(2) for j in range(3)] + [leaf(x) for x in row], 'Dcm')
        for nm in (f'updateEuler{par}YawInRotMat', 'updateYawInRotMat'):
            fl = c.flow(nm, args={1: M})
            m = fl.rvalue(fl.v, fl.S)
            w = loc(fl.f)
            is321 = cmpdd('<', FN('abs', leaf(row[0])), FN('abs', leaf(row[1])))
            pc = TRUE if par in nm else TRUE.and_(is321 if par == '321' else NOT(is321))
            for j in range(3):
                c.eq('set', f'{nm} keeps the tilt ({par}, {j})', m.at(2, j), leaf(row[j]), w, pc)
            if par == '321':
                c.eq('set', f'{nm} sets the 3-2-1 yaw (east)', m.at(1, 0), leaf(mul(fn('sin', (y,)), wc)), w, pc)
                c.eq('set', f'{nm} sets the 3-2-1 yaw (north)', m.at(0, 0), leaf(mul(fn('cos', (y,)), wc)), w, pc)
            else:
                c.eq('set', f'{nm} sets the 3-1-2 yaw (east)', NEG(m.at(0, 1)), leaf(mul(fn('sin', (y,)), wc)), w, pc)
                c.eq('set', f'{nm} sets the 3-1-2 yaw (north)', m.at(1, 1), leaf(mul(fn('cos', (y,)), wc)), w, pc)
            X = fl.mop('%', Mat(3, 1, m.e[3:6]), Mat(3, 1, m.e[6:9]))
            for i in range(3):
                c.eq('set', f'{nm} returns a right-handed matrix ({par}, {i})', X.e[i], m.e[i], w, pc)
                for j in range(i, 3):
                    c.eq('set', f'{nm} returns a rotation matrix, rows {i} and {j} ({par})', fl.mdot(Mat(3, 1, m.e[3 * i:3 * i + 3]), Mat(3, 1, m.e[3 * j:3 * j + 3])), T if i == j else F, w, pc)
    SQRTS.clear()
    # summation
    fl = c.flow('kahanSummation')
    w = loc(fl.f)
    c.eq('sum', 'the sum is the previous sum plus the input less the accumulated error', fl.rvalue(fl.v, fl.S), leaf(sub(add(s('arg0'), s('arg1')), s('arg2'))), w)
    c.eq('sum', 'without rounding the accumulated error is zero', fl.peek(fl.S, (('arg', 2),), 'float'), F, w)
    # small integer powers
    for k in (-4, -3, -2, -1, 0, 1, 2, 3, 4, 5):
        fl = c.flow('ecl::powf', args={1: lc(k)})
        p = ONE
        for _ in range(abs(k)):
            p = mul(p, s('arg0'))
        c.eq('power', f'x to the power {k}', fl.rvalue(fl.v, fl.S), leaf(div(ONE, p) if k < 0 else p), loc(fl.f))
    f = overloads(c, 'sq')
    c.need(f, 'sq')
    fl = c.flow('sq', f=f[0])
    c.eq('power', 'square', fl.rvalue(fl.v, fl.S), leaf(mul(s('arg0'), s('arg0'))), loc(fl.f))
