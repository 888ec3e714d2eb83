"""Wind and airspeed-scale estimator (airdata/WindEstimator)."""
from vfa.harness import *

SRC = 'airdata/WindEstimator.cpp'
CL = 'WindEstimator::'


def s(n):
    return symbol(n)


def prod(*a):
    r = a[0]
    for x in a[1:]:
        r = mul(r, x)
    return r


def total(xs):
    r = ZERO
    for x in xs:
        r = add(r, x)
    return r


def sq(x):
    return mul(x, x)


IJ = [(i, j) for i in range(3) for j in range(3)]


def Psym(i, j):
    return s(f'P{min(i, j)}{max(i, j)}')


STATE = [s(f'x{i}') for i in range(3)]
SCAL = {'_tas_innov': 'float', '_tas_innov_var': 'float', '_beta_innov': 'float', '_beta_innov_var': 'float', '_initialised': 'bool', '_time_last_airspeed_fuse': 'uint64_t',
        '_time_last_beta_fuse': 'uint64_t', '_time_last_update': 'uint64_t', '_time_rejected_beta': 'uint64_t', '_time_rejected_tas': 'uint64_t', '_wind_estimator_reset': 'bool',
        '_enforced_airspeed_scale': 'float', '_wind_p_var': 'float', '_tas_scale_p_var': 'float', '_tas_var': 'float', '_beta_var': 'float', '_tas_gate': 'uint8_t', '_beta_gate': 'uint8_t'}


def start(**fixed):
    S = State()
    for i, j in IJ:
        S.d[('this', '_P', (i, j))] = leaf(Psym(i, j))
    for i in range(3):
        S.d[('this', '_state', (i, 0))] = leaf(STATE[i])
    for m, t in SCAL.items():
        if m in fixed:
            v = fixed[m]
            S.d[('this', m)] = v if isinstance(v, DD) else (T if v else F) if t == 'bool' else lc(v)
        else:
            S.d[('this', m)] = bool_atom(s(m)) if t == 'bool' else leaf(s(m))
            if t.startswith('uint'):
                V.TYPE_IV[m] = (0.0, 255.0 if t == 'uint8_t' else 1e18)
    INIT.clear()
    INIT.update(S.d)
    return S


INIT = {}


def sv(fl, m):
    v = fl.peek(fl.S, ('this', m), SCAL[m])
    return tobool(v) if SCAL[m] == 'bool' else v


def P(fl, i, j):
    return fl.peek(fl.S, ('this', '_P', (i, j)), 'float')


def X(fl, i):
    return fl.peek(fl.S, ('this', '_state', (i, 0)), 'float')


def untouched(c, rule, what, fl, S0, pc, but=()):
    w = loc(fl.f)
    for i in range(3):
        if 'state' not in but:
            c.eq(rule, f'{what}: state {i} unchanged', X(fl, i), leaf(STATE[i]), w, pc)
        for j in range(3):
            if 'P' not in but:
                c.eq(rule, f'{what}: covariance ({i},{j}) unchanged', P(fl, i, j), leaf(Psym(i, j)), w, pc)
    for m in SCAL:
        if m not in but:
            c.eq(rule, f'{what}: {m} unchanged', sv(fl, m), tobool(INIT[('this', m)]) if SCAL[m] == 'bool' else INIT[('this', m)], w, pc)


VN, VE, VD = s('vn'), s('ve'), s('vd')


def vec(*e):
    return Mat(len(e), 1, [leaf(x) for x in e], 'Vector')


def gain(h, R):
    PH = [total(mul(Psym(i, j), h[j]) for j in range(3)) for i in range(3)]
    S = add(total(mul(h[i], PH[i]) for i in range(3)), R)
    return [div(x, S) for x in PH], S, PH


def fusion(c, q, args, pred, h, R, innov, gate, t0, tlast, inn, innv, trej, extra=T, tas=None):
    """obligations common to airspeed and sideslip fusion; h = d pred / d state"""
    K, S, PH = gain(h, R)
    S0 = start(_initialised=True)
    fl = c.flow(CL + q, args=args, state=S0)
    w = loc(fl.f)
    early = TRUE.and_(cmpdd('<', SUB(leaf(t0), leaf(s(tlast))), lc(100000)))
    untouched(c, 'rate', f'{q} within 100 ms of the last fusion', fl, S0, early)
    due = TRUE.and_(cmpdd('>=', SUB(leaf(t0), leaf(s(tlast))), lc(100000)))
    c.eq('rate', f'{q} records its fusion time', sv(fl, tlast), t0, w, due)
    due = due.and_(extra)
    c.eq('innovation', f'{q}: innovation is the measurement minus the prediction', sv(fl, inn), innov, w, due)
    c.eq('innovation', f'{q}: innovation variance is H P H^T plus the measurement noise', sv(fl, innv), S, w, due)
    fail = cmpdd('>', leaf(sq(innov)), leaf(prod(sq(s(gate)), S)))
    bad = due.and_(fail)
    rej0 = leaf(s(trej))
    c.eq('gate', f'{q}: the first rejection is time stamped and kept', sv(fl, trej), ITE(cmpdd('==', rej0, F), leaf(t0), rej0), w,
         bad.and_(cmpdd('>=', leaf(S), F)).and_(cmpdd('<=', SUB(leaf(t0), rej0), lc(5000000))))
    rec = bad.and_(cmpdd('>=', leaf(S), F)).and_(OR(cmpdd('==', rej0, F), cmpdd('<=', SUB(leaf(t0), rej0), lc(5000000))))
    untouched(c, 'gate', f'{q}: a rejected measurement', fl, S0, rec, (tlast, inn, innv, trej))
    # persistent rejection or a negative innovation variance: the filter starts over
    for what, p in (('after 5 s of rejection', bad.and_(cmpdd('!=', rej0, F)).and_(cmpdd('>', SUB(leaf(t0), rej0), lc(5000000)))),
                    ('for a negative innovation variance', due.and_(cmpdd('<', leaf(S), F)))):
        slow = cmpdd('<', FN('sqrt', leaf(add(sq(VN), sq(VE)))), lc(3))
        c.eq('restart', f'{q}: restarts {what} when fast enough', sv(fl, '_initialised'), NOT(slow), w, p)
        c.eq('restart', f'{q}: a restart {what} clears the rejection time', sv(fl, trej), F, w, p.and_(NOT(slow)))
        c.eq('restart', f'{q}: a restart {what} is flagged', sv(fl, '_wind_estimator_reset'), T, w, p.and_(NOT(slow)))
        c.eq('restart', f'{q}: restarts {what} with unit airspeed scale', X(fl, 2), ONE, w, p.and_(NOT(slow)))
        for i, j in IJ:
            c.eq('restart', f'{q}: restarts {what} with covariance ({i},{j}) from a velocity variance of 0.1', P(fl, i, j), init_cov(i, j, tas, [const(Fraction('0.1'))] * 2), w, p.and_(NOT(slow)))
        c.eq('restart', f'{q}: restarts {what} from the present velocity', X(fl, 0), init_state(0, tas), w, p.and_(NOT(slow)))
    # fused
    good = due.and_(NOT(fail)).and_(cmpdd('>=', leaf(S), F))
    c.eq('gate', f'{q}: an accepted measurement clears the rejection time', sv(fl, trej), F, w, good)
    xs = [leaf(add(STATE[i], mul(K[i], innov))) for i in range(3)]
    ps = {(i, j): leaf(sub(Psym(i, j), mul(K[i], PH[j]))) for i, j in IJ}
    cap = [25, 25, Fraction('0.1')]
    ok = good
    for i in range(3):
        ok = ok.and_(cmpdd('>=', ps[(i, i)], F))
    fin = T
    for i in range(3):
        fin = AND(fin, map1('isfinite', lambda e: bool_atom(fn('isfinite', (e,))), xs[i]))
    keep = leaf(s('_enforced_airspeed_scale'))
    for i in range(3):
        p = ok
        if i < 2:
            c.eq('update', f'{q}: wind state {i} is corrected by gain times innovation', X(fl, i), xs[i], w, p)
        else:
            c.eq('update', f'{q}: the airspeed scale is corrected and kept non-negative while it is learned', X(fl, i), FN('max', F, xs[i]), w, p.and_(fin).and_(cmpdd('<', keep, F)))
            c.eq('update', f'{q}: an enforced airspeed scale replaces the estimate', X(fl, i), keep, w, p.and_(fin).and_(cmpdd('>=', keep, F)))
    for i, j in IJ:
        want = FN('min', ps[(i, i)], lc(cap[i])) if i == j else ps[(i, j)]
        c.eq('update', f'{q}: covariance ({i},{j}) is P - K H P, diagonal limited', P(fl, i, j), want, w, ok.and_(fin))
    c.eq('update', f'{q}: stays initialised after a sane update', sv(fl, '_initialised'), T, w, ok.and_(fin))
    c.eq('sanity', f'{q}: a non-finite state resets the filter', sv(fl, '_initialised'), F, w, ok.and_(NOT(fin)))
    for i in range(3):
        c.eq('sanity', f'{q}: a negative variance {i} resets the filter', sv(fl, '_initialised'), F, w, good.and_(cmpdd('<', ps[(i, i)], F)))
    for e in fl.events:
        if e.kind == 'oob':
            c.ob('bounds', f'{q}: matrix access in range', False, evloc(e))
    # rounding may have made the stored covariance slightly asymmetric: fusion restores symmetry
    S0 = start(_initialised=True)
    for i, j in IJ:
        S0.d[('this', '_P', (i, j))] = leaf(s(f'A{i}{j}'))
    fa = c.flow(CL + q, args=args, state=S0)
    A = [[s(f'A{i}{j}') for j in range(3)] for i in range(3)]
    ph = [total(mul(A[i][j], h[j]) for j in range(3)) for i in range(3)]
    hp = [total(mul(h[i], A[i][j]) for i in range(3)) for j in range(3)]
    Sa = add(total(mul(h[i], ph[i]) for i in range(3)), R)
    p = TRUE.and_(cmpdd('>=', SUB(leaf(t0), leaf(s(tlast))), lc(100000))).and_(extra).and_(cmpdd('>=', leaf(Sa), F)).and_(NOT(cmpdd('>', leaf(sq(innov)), leaf(prod(sq(s(gate)), Sa)))))
    for i in range(3):
        p = p.and_(cmpdd('>=', leaf(sub(A[i][i], div(mul(ph[i], hp[i]), Sa))), F))
        p = p.and_(bool_atom(fn('isfinite', (add(STATE[i], div(mul(ph[i], innov), Sa)),))))
    for i, j in IJ:
        if i < j:
            c.eq('symmetry', f'{q}: covariance ({i},{j}) and ({j},{i}) agree after fusion', P(fa, i, j), P(fa, j, i), w, p)
            c.eq('symmetry', f'{q}: covariance ({i},{j}) becomes the mean of both halves', P(fa, i, j), div(sub(add(A[i][j], A[j][i]), add(div(mul(ph[i], hp[j]), Sa), div(mul(ph[j], hp[i]), Sa))), const(2)), w, p)
    # not initialised: only an attempt to start
    S0 = start(_initialised=False)
    fl = c.flow(CL + q, args=args, state=S0)
    slow = TRUE.and_(cmpdd('<', FN('sqrt', leaf(add(sq(VN), sq(VE)))), lc(3)))
    untouched(c, 'start', f'{q}: below 3 m/s an uninitialised filter', fl, S0, slow)
    return fl


def init_state(i, tas):
    sp = fn('sqrt', (add(sq(VN), sq(VE)),))
    v = (VN, VE)[i]
    return sub(v, div(mul(tas, v), sp))


@prop('W01', 90)
def wind(c):
    c.load(SRC)
    t0 = s('arg0')
    V.TYPE_IV['arg0'] = (0.0, 1e18)
    pv = [s(f'var{i}') for i in range(2)]
    wn, we, k = STATE
    tas = s('arg1')
    pred = mul(k, fn('sqrt', (total([sq(sub(VN, wn)), sq(sub(VE, we)), sq(VD)]),)))
    h = [diff(pred, x) for x in STATE]
    args = {2: vec(VN, VE, VD), 3: vec(*pv)}
    fl = fusion(c, 'fuse_airspeed', args, pred, h, s('_tas_var'), sub(tas, pred), '_tas_gate', t0, '_time_last_airspeed_fuse', '_tas_innov', '_tas_innov_var', '_time_rejected_tas', tas=tas)
    initial(c, fl, 'fuse_airspeed', tas, [fn('max', (const(Fraction('0.01')), x)) for x in pv])

    q = [symbol(n) for n in ('q0', 'q1', 'q2', 'q3')]
    q = V.unit_quat(['q0', 'q1', 'q2', 'q3']) or q
    q = [symbol(n) for n in ('q0', 'q1', 'q2', 'q3')]
    a, b, d, e = q
    two = const(2)
    rel = [sub(VN, wn), sub(VE, we), VD]
    # rows of the transposed rotation matrix
    r0 = [total([sq(a), sq(b), neg(sq(d)), neg(sq(e))]), mul(two, add(mul(b, d), mul(a, e))), mul(two, sub(mul(b, e), mul(a, d)))]
    r1 = [mul(two, sub(mul(b, d), mul(a, e))), total([sq(a), neg(sq(b)), sq(d), neg(sq(e))]), mul(two, add(mul(d, e), mul(a, b)))]
    bx, by = total(mul(x, y) for x, y in zip(r0, rel)), total(mul(x, y) for x, y in zip(r1, rel))
    pred = div(by, bx)
    h = [diff(pred, x) for x in STATE]
    args = {1: vec(VN, VE, VD), 2: Mat(4, 1, [leaf(x) for x in q], 'Quaternion')}
    big = cmpdd('>=', FN('abs', leaf(bx)), lc(Fraction('0.1')))
    sp3 = fn('sqrt', (total([sq(VN), sq(VE), sq(VD)]),))
    fl = fusion(c, 'fuse_beta', args, pred, h, s('_beta_var'), neg(pred), '_beta_gate', t0, '_time_last_beta_fuse', '_beta_innov', '_beta_innov_var', '_time_rejected_beta', extra=big, tas=sp3)
    initial(c, fl, 'fuse_beta', sp3, [const(Fraction('0.1'))] * 2)
    S0 = start(_initialised=True)
    fl = c.flow(CL + 'fuse_beta', args=args, state=S0)
    small = TRUE.and_(NOT(big))
    untouched(c, 'domain', 'fuse_beta with nearly no forward airspeed', fl, S0, small, ('_time_last_beta_fuse',))

    # prediction
    S0 = start(_initialised=False)
    fl = c.flow(CL + 'update', state=S0)
    untouched(c, 'predict', 'update of an uninitialised filter', fl, S0, TRUE)
    S0 = start(_initialised=True)
    fl = c.flow(CL + 'update', state=S0)
    w = loc(fl.f)
    last = leaf(s('_time_last_update'))
    dtu = SUB(leaf(t0), last)
    hold = TRUE.and_(cmpdd('!=', last, F)).and_(cmpdd('<', dtu, lc(1000000)))
    untouched(c, 'predict', 'update within a second of the last prediction', fl, S0, hold, ('_wind_estimator_reset',))
    first = TRUE.and_(cmpdd('==', last, F))
    untouched(c, 'predict', 'the first update', fl, S0, first, ('_wind_estimator_reset', '_time_last_update'))
    c.eq('predict', 'the first update starts the prediction clock', sv(fl, '_time_last_update'), t0, w, first)
    c.eq('predict', 'update clears the reset flag', sv(fl, '_wind_estimator_reset'), F, w)
    run = TRUE.and_(cmpdd('!=', last, F)).and_(cmpdd('>=', dtu, lc(1000000)))
    c.eq('predict', 'a prediction moves the prediction clock', sv(fl, '_time_last_update'), t0, w, run)
    dt = mul(sub(t0, s('_time_last_update')), const(Fraction('0.000001')))
    for i, j in IJ:
        add_ = mul(sq(dt), s('_wind_p_var')) if max(i, j) < 2 else mul(sq(dt), s('_tas_scale_p_var')) if i == j else ZERO
        c.eq('predict', f'prediction adds process noise to covariance ({i},{j})', P(fl, i, j), add(Psym(i, j), add_), w, run)
    for i in range(3):
        c.eq('predict', f'prediction leaves state {i} alone', X(fl, i), STATE[i], w)

    # accessors
    for m, path in (('get_tas_scale', STATE[2]), ('get_tas_innov', s('_tas_innov')), ('get_tas_innov_var', s('_tas_innov_var')), ('get_beta_innov', s('_beta_innov')), ('get_beta_innov_var', s('_beta_innov_var'))):
        fl = c.flow(CL + m, state=start())
        c.eq('report', f'{m} reports its quantity', fl.rvalue(fl.v, fl.S), path, loc(fl.f))
    for m, n in (('is_estimate_valid', '_initialised'), ('get_wind_estimator_reset', '_wind_estimator_reset')):
        fl = c.flow(CL + m, state=start())
        c.eq('report', f'{m} reports its flag', tobool(fl.rvalue(fl.v, fl.S)), bool_atom(s(n)), loc(fl.f))
    for m, want in (('get_wind', STATE[:2]), ('get_wind_var', [Psym(0, 0), Psym(1, 1)])):
        fl = c.flow(CL + m, state=start())
        for i in range(2):
            c.eq('report', f'{m} component {i}', fl.peek(fl.S, (('arg', 0), i), 'float') if i else first_elem(fl), want[i], loc(fl.f))
    for m, n in (('set_wind_p_noise', '_wind_p_var'), ('set_tas_scale_p_noise', '_tas_scale_p_var'), ('set_tas_noise', '_tas_var'), ('set_beta_noise', '_beta_var')):
        fl = c.flow(CL + m, state=start())
        c.eq('configure', f'{m} stores the variance', sv(fl, n), sq(s('arg0')), loc(fl.f))
    for m, n in (('set_tas_gate', '_tas_gate'), ('set_beta_gate', '_beta_gate'), ('enforce_airspeed_scale', '_enforced_airspeed_scale')):
        fl = c.flow(CL + m, state=start())
        c.eq('configure', f'{m} stores its argument', sv(fl, n), s('arg0'), loc(fl.f))


def first_elem(fl):
    for p in ((('arg', 0), 0), (('arg', 0),)):
        if p in fl.S.d:
            return fl.S.d[p]
    return fl.peek(fl.S, (('arg', 0), 0), 'float')


def initial(c, fl, q, tas, pv):
    """fl: a run from the uninitialised state; obligations for a successful start"""
    w = loc(fl.f)
    sp2 = add(sq(VN), sq(VE))
    sp = fn('sqrt', (sp2,))
    fast = TRUE.and_(cmpdd('>=', leaf(sp), lc(3)))
    c.eq('start', f'{q}: the filter starts at 3 m/s ground speed', sv(fl, '_initialised'), T, w, fast)
    c.eq('start', f'{q}: a start is flagged', sv(fl, '_wind_estimator_reset'), T, w, fast)
    for m in ('_time_rejected_tas', '_time_rejected_beta'):
        c.eq('start', f'{q}: a start clears {m}', sv(fl, m), F, w, fast)
    wind_ = [init_state(i, tas) for i in range(2)]
    for i in range(2):
        c.eq('start', f'{q}: wind {i} starts at ground velocity minus airspeed along it', X(fl, i), wind_[i], w, fast)
    c.eq('start', f'{q}: the airspeed scale starts at one', X(fl, 2), ONE, w, fast)
    for i, j in IJ:
        c.eq('start', f'{q}: covariance ({i},{j}) starts as the propagated velocity variance', P(fl, i, j), init_cov(i, j, tas, pv), w, fast)


def init_cov(i, j, tas, pv):
    """velocity variances propagated through the start formula"""
    if max(i, j) == 2:
        return const(Fraction('0.0001')) if i == j else ZERO
    sp2 = add(sq(VN), sq(VE))
    third = mul(fn('sqrt', (sp2,)), sp2)
    x = div(prod(tas, VE, VN), third)
    L = [[sub(ONE, div(prod(tas, VE, VE), third)), x], [x, sub(ONE, div(prod(tas, VN, VN), third))]]
    return total(prod(L[i][m], L[j][m], pv[m]) for m in range(2))
