"""Geodesy: map projection, great-circle helpers, track errors."""
from vfa.harness import *

SRC = 'geo/geo.cpp'
EPS = Fraction('1.1920929e-07')
RE = const(6371000)


def s(n):
    return symbol(n)


def rad(e):
    return div(mul(e, pi_const()), const(180))


def deg(e):
    return div(mul(e, const(180)), pi_const())


def sin(e):
    return fn('sin', (e,))


def cos(e):
    return fn('cos', (e,))


def F2(name, *a):
    return fn(name, a)


def sumof(*a):
    r = a[0]
    for x in a[1:]:
        r = add(r, x)
    return r


def prod(*a):
    r = a[0]
    for x in a[1:]:
        r = mul(r, x)
    return r


def sq(e):
    return mul(e, e)


def arg(i, fl=None):
    return symbol(f'arg{i}')


def out(fl, i, t):
    """value left behind a pointer parameter"""
    return fl.peek(fl.S, (('arg', i),), t)


def old(i):
    return leaf(symbol(f'arg{i}'))


def distance(lat1, lon1, lat2, lon2):
    """haversine distance, angles in degrees"""
    p, q = rad(lat1), rad(lat2)
    dl, dn = sub(q, p), sub(rad(lon2), rad(lon1))
    a = add(sq(sin(div(dl, const(2)))), prod(sq(sin(div(dn, const(2)))), cos(p), cos(q)))
    return prod(RE, const(2), F2('atan2', F2('sqrt', a), F2('sqrt', sub(ONE, a))))


def bearing_yx(lat1, lon1, lat2, lon2):
    p, q, dn = rad(lat1), rad(lat2), sub(rad(lon2), rad(lon1))
    return mul(sin(dn), cos(q)), sub(mul(cos(p), sin(q)), prod(sin(p), cos(q), cos(dn)))


def bearing(*a):
    return F2('atan2', *bearing_yx(*a))


def refs(i=0):
    return [s(f'arg{i}.{m}') for m in ('lat_rad', 'lon_rad', 'sin_lat', 'cos_lat')]


def init_done(fl):
    return bool_atom(s('arg0.init_done'))


MAP = {'lat_rad': 'double', 'lon_rad': 'double', 'sin_lat': 'double', 'cos_lat': 'double', 'timestamp': 'uint64_t', 'init_done': 'bool'}


def mapfield(fl, m):
    return fl.peek(fl.S, (('arg', 0), m), MAP[m])


def nodiv0(c, rule, fl, ok=TRUE):
    """no division by a quantity that can be zero, other than through the magnitudes listed by the caller"""
    n = 0
    for e in fl.events:
        if e.kind == 'div':
            d = e.data[1] if isinstance(e.data, tuple) else e.data
            if d.var is None and isconst(d.e):
                continue
            n += 1
            yield e, d
    return n


@prop('N01', 14)
def projection_state(c):
    c.load(SRC)
    lat, lon = arg(1), arg(2)
    for fnm, ts in (('map_projection_init_timestamped', s('arg3')), ('map_projection_init', None)):
        fl = c.flow(fnm)
        w = loc(fl.f)
        c.eq('init', f'{fnm} stores the reference latitude in radians', mapfield(fl, 'lat_rad'), rad(lat), w)
        c.eq('init', f'{fnm} stores the reference longitude in radians', mapfield(fl, 'lon_rad'), rad(lon), w)
        c.eq('init', f'{fnm} stores the sine of the reference latitude', mapfield(fl, 'sin_lat'), sin(rad(lat)), w)
        c.eq('init', f'{fnm} stores the cosine of the reference latitude', mapfield(fl, 'cos_lat'), cos(rad(lat)), w)
        c.eq('init', f'{fnm} marks the reference initialised', tobool(mapfield(fl, 'init_done')), T, w)
        c.eq('init', f'{fnm} reports success', fl.v, const(0), w)
        if ts is not None:
            c.eq('init', f'{fnm} stores the time stamp', mapfield(fl, 'timestamp'), ts, w)
    fl = c.flow('map_projection_initialized')
    c.eq('query', 'map_projection_initialized tells whether the reference was initialised', tobool(fl.rvalue(fl.v, fl.S)), init_done(fl), loc(fl.f))
    fl = c.flow('map_projection_timestamp')
    c.eq('query', 'map_projection_timestamp returns the stored time', fl.rvalue(fl.v, fl.S), s('arg0.timestamp'), loc(fl.f))
    for fnm, outs in (('map_projection_reference', ((1, 'double'), (2, 'double'))), ('map_projection_project', ((3, 'float'), (4, 'float'))), ('map_projection_reproject', ((3, 'double'), (4, 'double')))):
        fl = c.flow(fnm)
        w = loc(fl.f)
        yes = TRUE.and_(init_done(fl))
        no = TRUE.and_(NOT(init_done(fl)))
        c.eq('guard', f'{fnm} fails on an uninitialised reference', fl.v, const(-1), w, no)
        c.eq('guard', f'{fnm} succeeds on an initialised reference', fl.v, const(0), w, yes)
        for i, t in outs:
            c.eq('guard', f'{fnm} leaves output {i} alone on failure', out(fl, i, t), old(i), w, no)
        for m, t in MAP.items():
            c.eq('guard', f'{fnm} does not change the reference ({m})', mapfield(fl, m), init_done(fl) if m == 'init_done' else s(f'arg0.{m}'), w)
        if fnm == 'map_projection_reference':
            c.eq('query', f'{fnm} returns the reference latitude', out(fl, 1, 'double'), s('arg0.lat_rad'), w, yes)
            c.eq('query', f'{fnm} returns the reference longitude', out(fl, 2, 'double'), s('arg0.lon_rad'), w, yes)


@prop('N02', 8)
def projection(c):
    c.load(SRC)
    la0, lo0, s0, c0 = refs()
    fl = c.flow('map_projection_project')
    w = loc(fl.f)
    pc = TRUE.and_(init_done(fl))
    p, dn = rad(arg(1)), sub(rad(arg(2)), lo0)
    a = add(mul(s0, sin(p)), prod(c0, cos(p), cos(dn)))
    lim = F2('max', F2('min', a, ONE), neg(ONE))
    x1 = mul(sub(mul(c0, sin(p)), prod(s0, cos(p), cos(dn))), RE)
    y1 = prod(cos(p), sin(dn), RE)
    # the great-circle angle c and the scale c / sin c, case by case of the limited cosine
    inside = AND(cmpdd('>', leaf(a), leaf(neg(ONE))), cmpdd('<', leaf(a), leaf(ONE)))
    cc = fn('acos', (a,))
    xo, yo = out(fl, 3, 'float'), out(fl, 4, 'float')
    g = pc.and_(inside).and_(cmpdd('>', leaf(cc), F))
    c.eq('project', 'north coordinate is k R (cos p0 sin p - sin p0 cos p cos dl), k = c / sin c', unfold(xo, g), mul(div(cc, sin(cc)), x1), w, g)
    c.eq('project', 'east coordinate is k R cos p sin dl, k = c / sin c', unfold(yo, g), mul(div(cc, sin(cc)), y1), w, g)
    # at and beyond cosine one the angle is zero and the scale one
    g = pc.and_(cmpdd('>', leaf(a), leaf(ONE)))
    c.eq('project', 'north coordinate at the reference has scale one', unfold(xo, g), x1, w, g)
    c.eq('project', 'east coordinate at the reference has scale one', unfold(yo, g), y1, w, g)
    for e, d in nodiv0(c, 'project', fl):
        q = leaf(sin(cc))
        ok = differs(unfold(d, pc.and_(inside)), q, e.pc.and_(inside)) is None
        c.ob('division', 'the only division is by sin c', ok, evloc(e), lambda: 'divisor ' + showdd(d)[:200])
        c.never('division', 'no division when the angle is zero', AND(unfold(conj(e.pc), pc.and_(zero_angle(a))), zero_angle(a)), evloc(e))
    for e in fl.events:
        if e.kind == 'math' and e.name in ('acos', 'asin'):
            c.ob('domain', f'argument of {e.name} stays within [-1, 1]', all(-1 <= iv[0] and iv[1] <= 1 for _, iv, _ in ranges(e.data, e.pc)), evloc(e), showdd(e.data)[:300])

    fl = c.flow('map_projection_reproject')
    w = loc(fl.f)
    pc = TRUE.and_(init_done(fl))
    x, y = div(arg(1), RE), div(arg(2), RE)
    r2 = add(sq(x), sq(y))
    cc = F2('sqrt', r2)
    g = pc.and_(cmpdd('>', leaf(cc), F))
    la, lo = out(fl, 3, 'double'), out(fl, 4, 'double')
    c.eq('reproject', 'latitude is asin(cos c sin p0 + x sin c cos p0 / c)', la, deg(fn('asin', (add(mul(cos(cc), s0), div(prod(x, sin(cc), c0), cc)),))), w, g)
    want = deg(add(lo0, F2('atan2', mul(y, sin(cc)), sub(prod(cc, c0, cos(cc)), prod(x, s0, sin(cc))))))
    c.eq('reproject', 'longitude is l0 + atan2(y sin c, c cos p0 cos c - x sin p0 sin c)', lo, want, w, g)
    g = pc.and_(cmpdd('==', leaf(cc), F))
    c.eq('reproject', 'the map origin is the reference latitude', la, deg(la0), w, g)
    c.eq('reproject', 'the map origin is the reference longitude', lo, deg(lo0), w, g)
    for e, d in nodiv0(c, 'reproject', fl):
        c.never('division', 'no division by a zero angle', cmpdd('==', d, F), evloc(e), e.pc)


def zero_angle(a):
    return cmpdd('>', leaf(a), leaf(ONE))


def outs(c, fl, rule, want, w, pc=TRUE):
    for (what, got), v in want:
        c.eq(rule, what, got, v, w, pc)


@prop('N03', 20)
def great_circle(c):
    c.load(SRC)
    a = [arg(i) for i in range(8)]
    fl = c.flow('get_distance_to_next_waypoint')
    c.eq('distance', 'waypoint distance is the great-circle distance', fl.v, distance(*a[:4]), loc(fl.f))
    fl = c.flow('get_bearing_to_next_waypoint')
    b = bearing(*a[:4])
    c.eq('bearing', 'waypoint bearing is the initial great-circle course', fl.v, b, loc(fl.f))
    fl = c.flow('get_vector_to_next_waypoint')
    y, x = bearing_yx(*a[:4])
    c.eq('vector', 'north component of the waypoint vector', out(fl, 4, 'float'), mul(RE, x), loc(fl.f))
    c.eq('vector', 'east component of the waypoint vector', out(fl, 5, 'float'), mul(RE, y), loc(fl.f))
    fl = c.flow('get_vector_to_next_waypoint_fast')
    c.eq('vector', 'north component of the fast waypoint vector', out(fl, 4, 'float'), mul(RE, rad(sub(a[2], a[0]))), loc(fl.f))
    c.eq('vector', 'east component of the fast waypoint vector', out(fl, 5, 'float'), prod(RE, rad(sub(a[3], a[1])), cos(rad(a[0]))), loc(fl.f))
    fl = c.flow('add_vector_to_global_position')
    c.eq('vector', 'adding a north displacement', out(fl, 4, 'double'), add(a[0], deg(div(a[2], RE))), loc(fl.f))
    c.eq('vector', 'adding an east displacement', out(fl, 5, 'double'), add(a[1], deg(div(a[3], mul(RE, cos(rad(a[0])))))), loc(fl.f))

    fl = c.flow('waypoint_from_heading_and_distance')
    la, lo = direct(a[0], a[1], a[2], a[3])
    c.eq('target', 'latitude reached from a heading and a distance', out(fl, 4, 'double'), la, loc(fl.f))
    c.eq('target', 'longitude reached from a heading and a distance', out(fl, 5, 'double'), lo, loc(fl.f))
    fl = c.flow('create_waypoint_from_line_and_dist')
    w = loc(fl.f)
    d = leaf(a[4])
    tiny = FN('abs', d)
    g0 = TRUE.and_(cmpdd('==', d, F))
    c.eq('target', 'a zero distance along a line is its start (latitude)', out(fl, 5, 'double'), a[0], w, g0)
    c.eq('target', 'a zero distance along a line is its start (longitude)', out(fl, 6, 'double'), a[1], w, g0)
    g = TRUE.and_(cmpdd('>', tiny, lc(EPS)))
    la, lo = direct(a[0], a[1], bearing(*a[:4]), a[4])
    c.eq('target', 'point along a line: latitude', out(fl, 5, 'double'), la, w, g)
    c.eq('target', 'point along a line: longitude', out(fl, 6, 'double'), lo, w, g)

    fl = c.flow('get_distance_to_point_global_wgs84')
    w = loc(fl.f)
    dxy, dz = distance(a[0], a[1], a[3], a[4]), sub(a[2], a[5])
    c.eq('distance', 'horizontal part of the global point distance', out(fl, 6, 'float'), dxy, w, same=same_abs)
    c.eq('distance', 'vertical part of the global point distance', out(fl, 7, 'float'), F2('abs', dz), w)
    c.eq('distance', 'global point distance combines both parts', fl.v, F2('sqrt', add(sq(dxy), sq(dz))), w)
    fl = c.flow('mavlink_wpm_distance_to_point_local')
    w = loc(fl.f)
    d = [sub(a[i], a[i + 3]) for i in range(3)]
    c.eq('distance', 'horizontal part of the local point distance', out(fl, 6, 'float'), F2('sqrt', add(sq(d[0]), sq(d[1]))), w)
    c.eq('distance', 'vertical part of the local point distance', out(fl, 7, 'float'), F2('abs', d[2]), w)
    c.eq('distance', 'local point distance combines all axes', fl.v, F2('sqrt', sumof(sq(d[0]), sq(d[1]), sq(d[2]))), w)


def same_abs(x, y):
    """equal up to the sign of a quantity that is never negative"""
    return same_leaf(x, y) or (x.op == 'abs' and same_leaf(x.args[0], y)) or (y.op == 'abs' and same_leaf(y.args[0], x))


same_abs.key = 'abs'


def direct(lat, lon, brg, dist):
    """great-circle target: latitude and longitude in degrees"""
    p, r = rad(lat), div(dist, RE)
    la = fn('asin', (add(mul(sin(p), cos(r)), prod(cos(p), sin(r), cos(brg))),))
    lo = add(rad(lon), F2('atan2', prod(sin(brg), sin(r), cos(p)), sub(cos(r), mul(sin(p), sin(la)))))
    return deg(la), deg(lo)


CT = {'past_end': 'bool', 'distance': 'float', 'bearing': 'float'}


def ct(fl, m):
    v = fl.peek(fl.S, (('arg', 0), m), CT[m])
    return tobool(v) if m == 'past_end' else v


@prop('N04', 12)
def track(c):
    c.load(SRC)
    a = [arg(i) for i in range(8)]
    now, st, en = (a[1], a[2]), (a[3], a[4]), (a[5], a[6])
    fl = c.flow('get_distance_to_line')
    w = loc(fl.f)
    d = distance(*now, *en)
    diff_ = fn('wrap_pi', (sub(bearing(*st, *en), bearing(*now, *en)),))
    D, B = leaf(d), leaf(diff_)
    bad = TRUE.and_(cmpdd('<', D, lc(Fraction('0.1'))))
    c.eq('line', 'a position at the end point is reported as an error', fl.v, const(-1), w, bad)
    for m in CT:
        c.eq('line', f'{m} is cleared on error', ct(fl, m), F, w, bad)
    ok = TRUE.and_(cmpdd('>', D, lc(Fraction('0.1001'))))
    half = div(pi_const(), const(2))
    beyond = OR(cmpdd('>', B, leaf(half)), cmpdd('<', B, leaf(neg(half))))
    c.eq('line', 'a usable position gives success', fl.v, const(0), w, ok)
    p = ok.and_(beyond)
    c.eq('line', 'past_end is set beyond the end point', ct(fl, 'past_end'), T, w, p)
    c.eq('line', 'no distance is reported beyond the end point', ct(fl, 'distance'), F, w, p)
    p = ok.and_(NOT(beyond))
    c.eq('line', 'past_end is clear alongside the line', ct(fl, 'past_end'), F, w, p)
    c.eq('line', 'cross-track distance is the distance to the end times the sine of the bearing difference', ct(fl, 'distance'), mul(d, sin(diff_)), w, p)
    sn = sin(diff_)
    bt = bearing(*st, *en)
    r = p.and_(cmpdd('>', leaf(sn), F))
    c.eq('line', 'right of the track the line is to the left', ct(fl, 'bearing'), fn('wrap_pi', (sub(bt, half),)), w, r)
    r = p.and_(cmpdd('<', leaf(sn), F))
    c.eq('line', 'left of the track the line is to the right', ct(fl, 'bearing'), fn('wrap_pi', (add(bt, half),)), w, r)

    fl = c.flow('get_distance_to_arc')
    w = loc(fl.f)
    R = leaf(a[5])
    bad = TRUE.and_(cmpdd('<', R, lc(Fraction('0.1'))))
    ok = TRUE.and_(cmpdd('>', R, lc(Fraction('0.1001'))))
    c.eq('arc', 'a radius below 0.1 m is reported as an error', fl.v, const(-1), w, bad)
    for m in CT:
        c.eq('arc', f'{m} is cleared for an unusable radius', ct(fl, m), F, w, bad)
    c.eq('arc', 'a usable radius gives success', fl.v, const(0), w, ok)
    cen = (a[3], a[4])
    dc = leaf(distance(*now, *cen))
    bc = bearing(*now, *cen)
    # end points of the arc: radius away from the centre in the start direction and after the sweep
    rd = Fraction(111111)
    pts = []
    for ang in (a[6], add(a[6], a[7])):
        la = add(a[3], div(mul(a[5], cos(ang)), const(rd)))
        lo = add(a[4], div(mul(a[5], sin(ang)), mul(const(rd), cos(rad(a[3])))))
        pts.append((la, lo))
    ds, de = (leaf(distance(*now, *q)) for q in pts)
    # distance is one of: distance to the circle, distance to the start, distance to the end
    pe = ct(fl, 'past_end')
    dist, brg = unfold(ct(fl, 'distance')), ct(fl, 'bearing')
    for e in sorted(set(leaves(ok.simp(dist))), key=lambda e: e.fp):
        if isconst(e):
            continue
        known = [q for q in (sub(R.e, dc.e), sub(dc.e, R.e), ds.e, de.e) if same_leaf(q, e)]
        c.ob('arc', 'a reported distance is the distance to the circle or to an end point of the arc', bool(known), w, lambda: show(e)[:300])
    far = ok.and_(pe)
    c.eq('arc', 'past the end the distance is that to the end point', dist, de, w, far)
    c.never('arc', 'the end point is only used when it is nearer than the start point', cmpdd('<', ds, de), w, far)
    c.eq('arc', 'past the end the bearing is that to the end point', brg, bearing(*now, *pts[1]), w, far)
    near = ok.and_(NOT(pe))
    is_start = V._apply2('isst', lambda x, y: T if same_leaf(x, y) else F, near.simp(dist), ds)
    p = near.and_(is_start)
    c.must('arc', 'nearest to the start the distance to the start point is reported', p.c is not None, w)
    c.eq('arc', 'nearest to the start the bearing is that to the start point', brg, bearing(*now, *pts[0]), w, p)
    p = near.and_(NOT(is_start))
    inside = cmpdd('<', dc, R)
    q = p.and_(inside)
    c.eq('arc', 'inside the circle the distance is the radius minus the distance to the centre', dist, SUB(R, dc), w, q)
    c.eq('arc', 'inside the circle the arc lies away from the centre', brg, fn('wrap_pi', (add(bc, pi_const()),)), w, q)
    q = p.and_(cmpdd('>', dc, R))
    c.eq('arc', 'outside the circle the distance is the distance to the centre minus the radius', dist, SUB(dc, R), w, q)
    c.eq('arc', 'outside the circle the arc lies towards the centre', brg, bc, w, q)
    sector(c)


def sector(c):
    """which positions project onto the arc: cells of the position's bearing from the centre, for constant arcs"""
    V.SYM_IV.append(lambda n: CELL.get(n))
    deg_ = math.pi / 180
    now, cen = (symbol('arg1'), symbol('arg2')), (symbol('arg3'), symbol('arg4'))
    dc = leaf(distance(*now, *cen))
    for start in (-170, -90, -20, 0, 45, 135, 200, 350):
        for sweep in (-270, -100, -30, 30, 100, 180, 270):
            ends = sorted({x % 360 for x in (start, start + sweep, 0, 180)} | {360})
            for lo, hi in zip(ends, ends[1:]):
                mid = (lo + hi) / 2
                inside = ((mid - start) if sweep >= 0 else (start - mid)) % 360 <= abs(sweep)
                # bearing of the position seen from the centre, and of the centre seen from the position
                m = 0.01
                f = (lo - 360 + m, hi - 360 - m) if lo >= 180 else (lo + m, hi - m)
                b = (lo - 180 + m, hi - 180 - m)
                sf, st = (cell(q, tuple(x * deg_ for x in r)) for q, r in (('from', f), ('to', b)))

                def hook(fl, fn_, this, args, S, n):
                    v = [fl.num(fl.rvalue(fl.eval(x, S), S)) for x in args]
                    if all(x.var is None for x in v):
                        k = tuple(x.e.fp for x in v)
                        if k == tuple(x.fp for x in now + cen):
                            return leaf(st)
                        if k == tuple(x.fp for x in cen + now):
                            return leaf(sf)
                    return leaf(fn('brg', tuple(opaque(x) for x in v)))
                a6, a7 = (const(Fraction(x * deg_).limit_denominator(10 ** 6)) for x in (start, sweep))
                fl = c.flow('get_distance_to_arc', args={5: lc(100), 6: leaf(a6), 7: leaf(a7)}, hooks={'get_bearing_to_next_waypoint': hook})
                got = ct(fl, 'distance')
                want = FN('abs', SUB(lc(100), dc))
                what = f'arc of {sweep} degrees from {start}: bearings {lo}..{hi} from the centre lie {"within" if inside else "outside"} the sector'
                if inside:
                    c.eq('sector', what, unabs(got), unabs(want), loc(fl.f))
                else:
                    c.ob('sector', what, not any(same_leaf(x, sub(const(100), dc.e)) or same_leaf(x, sub(dc.e, const(100))) for x in leaves(got)), loc(fl.f), lambda: showdd(got)[:300])


def unabs(d):
    return rewrite(unfold(d), lambda e, A: V._ite(cmpdd('<', A[0], F), NEG(A[0]), A[0]) if e.op == 'abs' else None)


CELL = {}


def cell(name, iv):
    n = f'{name}[{iv[0]!r},{iv[1]!r}]'
    CELL[n] = iv
    return symbol(n)


PREC = ('get_distance_to_next_waypoint', 'get_bearing_to_next_waypoint', 'get_vector_to_next_waypoint', 'get_vector_to_next_waypoint_fast', 'map_projection_project', 'map_projection_reproject',
        'waypoint_from_heading_and_distance', 'add_vector_to_global_position', 'create_waypoint_from_line_and_dist', 'map_projection_init_timestamped', 'get_distance_to_point_global_wgs84',
        'get_distance_to_line')
# pairs of arguments that are equal when the two positions coincide
SAME = {'get_distance_to_line': {1: 5, 2: 6, 3: 5, 4: 6}, 'get_distance_to_point_global_wgs84': {0: 3, 1: 4, 2: 5}}


@prop('N05', 25)
def precision(c):
    """single precision only ever holds relative quantities"""
    c.load(SRC)
    n = 0
    for q in PREC:
        fl = c.flow(q)
        m = SAME.get(q, {0: 2, 1: 3})
        if q == 'map_projection_project':
            sub_ = {'arg1': deg(s('arg0.lat_rad')), 'arg2': deg(s('arg0.lon_rad')), 'arg0.sin_lat': sin(s('arg0.lat_rad')), 'arg0.cos_lat': cos(s('arg0.lat_rad'))}
        elif q in ('map_projection_reproject', 'waypoint_from_heading_and_distance', 'add_vector_to_global_position', 'map_projection_init_timestamped'):
            sub_ = {}
        else:
            sub_ = {f'arg{i}': symbol(f'arg{j}') for i, j in m.items()}
        c.ob('precision', f'{q} analysed for conversions to single precision', True)
        for e in fl.events:
            if e.kind != 'fnarrow':
                continue
            n += 1
            bad = [x for x in leaves(e.data) if not relative(x, sub_)]
            c.ob('precision', f'{q}: only quantities relative to another position are rounded to single precision', not bad, evloc(e), lambda: 'narrowed: ' + ', '.join(show(x)[:200] for x in bad))
    c.need(n >= 8, f'only {n} conversions to single precision found')
    t = {m: ty for p, ty, b in Flow(c.prog).struct_leaves('map_projection_reference_s') for m in p}
    for m in ('lat_rad', 'lon_rad', 'sin_lat', 'cos_lat'):
        c.ob('precision', f'map reference keeps {m} in double precision', strip_type(t.get(m, '')) == 'double', 'geo/geo.h map_projection_reference_s', t.get(m))


def relative(e, m):
    """does the quantity vanish when the positions coincide?  An argument of atan2 is relative, and so is the angle itself"""
    if isconst(e) or e.op == 'pi':
        return True
    if e.op in ('wrap_pi', 'wrap_2pi'):
        return relative(e.args[0], m)
    terms = [x for _, _, x in flat(e)[0]]
    if all(x.op == 'atan2' or isconst(x) or (x.op == 'div' and x.args[0].op == 'pi') or x.op in ('pi', 'wrap_pi', 'wrap_2pi') for x in terms) and len(terms) > 1:
        return True                 # an angle offset by a constant
    if e.op == 'atan2':
        return True                 # a direction
    if not m:
        return not mentions(e, lambda x: x.op == 'sym' and x.aux in ('arg0', 'arg1', 'arg0.lat_rad', 'arg0.lon_rad'))
    x = substitute(e, m)
    return x.fp == 0
