"""Earth magnetic field lookup."""
import struct
from vfa.harness import *

SRC = 'geo_lookup/geo_mag_declination.cpp'
LOOK = {'declination': ('get_mag_declination_radians', 'declination_table'), 'inclination': ('get_mag_inclination_radians', 'inclination_table'),
        'strength': ('get_mag_strength_gauss', 'strength_table')}


def prevf(x):
    """largest float below x"""
    b = struct.unpack('<i', struct.pack('<f', x))[0]
    b = b - 1 if x > 0 else (b + 1 if x < 0 else struct.unpack('<i', struct.pack('<f', -1e-45))[0])
    return struct.unpack('<f', struct.pack('<i', b))[0]


def ranged(name, lo, hi):
    if lo == hi:
        return const(Fraction(lo))
    n = f'{name}[{lo!r},{hi!r}]'
    RANGES[n] = (lo, hi)
    return symbol(n)


RANGES = {}


def tables(c):
    """the constant tables, read from their definitions"""
    out = {}
    fl = Flow(c.prog)
    fl.fn = c.prog.one('get_mag_declination_radians')
    for k, (fnm, t) in LOOK.items():
        q = [g for g in c.prog.globals if g.split('::')[-1] == t]
        c.need(len(q) == 1, f'table {t}: {len(q)} definitions')
        g = fl.globconst(q[0])
        c.need(g is not None, f'table {t} has no constant initialiser')
        for e in g.values():
            c.need(e.var is None and isconst(e.e), f'table {t}: element is not a constant')
        out[k] = {p: int(e.e.aux) for p, e in g.items()}
    return out


def extent(c, base, fl):
    """declared extent of the array an index expression subscripts"""
    r = base[0]
    if isinstance(r, tuple) and r[0] == 'glob':
        t = c.prog.globals[r[1]][0].type
        dims = [int(x) for x in re.findall(r'\[(\d+)\]', t)]
        d = len(base) - 1
        return dims[d] if d < len(dims) else None
    return None


def cells():
    """partition of the argument range: every float latitude/longitude lies in exactly one cell"""
    lat = [(float(a), prevf(float(a + 10)), a, (a + 90) // 10, 0) for a in range(-90, 90, 10)]
    lat.append((90.0, 90.0, 80, 17, 0))
    clampN, clampS = (90.0000076, 1e30, 'N'), (-1e30, -90.0000076, 'S')
    lon = []
    for turn in (0, 360, -360):
        for a in range(-180, 180, 10):
            lo, hi = float(a + turn), prevf(float(a + 10 + turn))
            if turn == 360:
                # exactly +180 belongs to the map itself
                lo = lo if lo > 180 else 180.0000153
            lon.append((lo, hi, a + turn, (a + 180) // 10, turn))
        if turn == 0:
            lon.append((180.0, 180.0, 170, 35, 0))
    return lat, [clampN, clampS], lon


@prop('G01', 1800)
def interpolation(c):
    """Every cell of the argument space: the lookup's value graph equals bilinear interpolation of that cell's four nodes."""
    c.load(SRC)
    V.SYM_IV.append(lambda n: RANGES.get(n))
    tb = tables(c)
    lat, clamps, lon = cells()
    for k, (fnm, t) in LOOK.items():
        f = c.prog.one(fnm)
        T_ = tb[k]
        for (lo0, lo1, la, j, turn) in lon:
            x = ranged('lon', lo0, lo1)
            u = div(sub(x, const(la)), const(10))
            rows = lat if turn == 0 or c.tier == 'thorough' else lat[::6] + lat[-1:]
            for (l0, l1, a, i, _) in rows:
                y = ranged('lat', l0, l1)
                v = div(sub(y, const(a)), const(10))
                check(c, f, k, T_, i, j, u, v, y, x)
            for (l0, l1, w) in clamps:
                y = ranged('lat', l0, l1)
                i, v = (17, ONE) if w == 'N' else (0, ZERO)
                check(c, f, k, T_, i, j, u, v, y, x)
    c.note('Argument space partitioned into grid cells (latitudes beyond +-90 clamped, longitudes up to one turn outside +-180); arithmetic over the reals.')


def check(c, f, k, T_, i, j, u, v, y, x):
    n = {d: const(T_[(i + d[0], j + d[1])]) for d in ((0, 0), (0, 1), (1, 0), (1, 1))}

    def mix(s, a, b):
        return add(a, mul(s, sub(b, a)))
    want = mul(mix(v, mix(u, n[0, 0], n[0, 1]), mix(u, n[1, 0], n[1, 1])), const(Fraction(1, 10000)))
    fl = c.flow(None, f=f, args={0: leaf(y), 1: leaf(x)})
    got = fl.v
    if not isinstance(got, DD):
        raise AnalysisBroken(f'{f.qual} does not return a scalar')
    c.eq('bilinear', f'{k} for latitude {show(y)} longitude {show(x)} interpolates nodes [{i}..{i + 1}][{j}..{j + 1}]', got, want, loc(f))
    for e in fl.events:
        if e.kind == 'index':
            base, iv = e.data[0].path, e.data[1]
            ex = extent(c, base, fl)
            iv = e.pc.simp(iv)
            if ex is not None and not (iv.var is None and isconst(iv.e) and 0 <= iv.e.aux < ex):
                c.ob('index', f'index into {pname(base)} stays inside its {ex} elements for latitude {show(y)} longitude {show(x)}', False, evloc(e), f'index is {showdd(iv)}')


@prop('G02', 24)
def total(c):
    """For all real and infinite arguments at once: every array index and every float-to-integer conversion is in range."""
    c.load(SRC)
    RANGES['lat'] = (-math.inf, math.inf)
    V.SYM_IV.append(lambda n: RANGES.get(n))
    for fnm in ('get_mag_declination_radians', 'get_mag_declination_degrees', 'get_mag_inclination_radians', 'get_mag_inclination_degrees',
                'get_mag_strength_gauss', 'get_mag_strength_tesla'):
        f = c.prog.one(fnm)
        fl = c.flow(None, f=f)
        n = 0
        for e in fl.events:
            if e.kind == 'index':
                base, iv = e.data[0].path, e.data[1]
                ex = extent_any(c, base)
                if ex is None:
                    raise AnalysisBroken(f'array bound unknown at {evloc(e)}')
                n += 1
                bad = [(x, i) for x, i, p in ranges(iv, e.pc) if not (i[0] >= 0 and i[1] <= ex - 1)]
                c.ob('index', f'{fnm}: index #{n} into an array of {ex}', not bad, evloc(e), lambda: f'index {show(bad[0][0])} ranges over {bad[0][1]}')
            elif e.kind == 'f2i':
                lo, hi = (0, 4294967295) if e.name.startswith(('unsigned', 'uint', 'size_t')) else (-2147483648, 2147483647)
                if strip_type(e.name) not in ('int', 'unsigned int', 'unsigned', 'uint32_t', 'int32_t', 'long', 'unsigned long', 'size_t'):
                    lo, hi = (0, 127) if lo == 0 else (-128, 127)
                bad = [(x, i) for x, i, p in ranges(e.data, e.pc) if not (i[0] > lo - 1 and i[1] < hi + 1)]
                c.ob('conversion', f'{fnm}: conversion of a floating value to {e.name} is in range', not bad, evloc(e), lambda: f'value {show(bad[0][0])} ranges over {bad[0][1]}')
            elif e.kind == 'div':
                pass
        c.ob('return', f'{fnm} returns a value on every path', fl.v is not None and not any(x.op == 'sym' and x.aux.startswith('uninit') for x in leaves(dd(fl.v))), loc(f))
        c.ob('anchor', f'{fnm} reads its table', n >= 2, loc(f), 'no table access found')


def extent_any(c, base):
    r = base[0]
    if isinstance(r, tuple) and r[0] == 'glob':
        t = c.prog.globals[r[1]][0].type
        dims = [int(x) for x in re.findall(r'\[(\d+)\]', t)]
        d = sum(1 for q in base[1:] if isinstance(q, int) or (isinstance(q, tuple) and q[0] == 'idx'))
        return dims[d] if d < len(dims) else None
    return None


@prop('G04', 6)
def units(c):
    """The two unit variants of each quantity are the same value graph up to the constant conversion factor."""
    c.load(SRC)
    for a, b, k, what in (('get_mag_declination_degrees', 'get_mag_declination_radians', div(const(180), pi_const()), '180/pi'),
                          ('get_mag_inclination_degrees', 'get_mag_inclination_radians', div(const(180), pi_const()), '180/pi'),
                          ('get_mag_strength_tesla', 'get_mag_strength_gauss', const(Fraction(1, 10000)), '1e-4')):
        fa, fb = c.prog.one(a), c.prog.one(b)
        va, vb = c.flow(None, f=fa).v, c.flow(None, f=fb).v
        c.eq('unit', f'{a} = {b} * {what}', va, MUL(vb, leaf(k)), loc(fa))
        c.ob('argument', f'{a} depends on both arguments', depends(va, 'arg0') and depends(va, 'arg1'), loc(fa))


def depends(v, nm):
    for e in leaves(v):
        if mentions(e, lambda n: n == nm):
            return True
    for a in support(v):
        d = ATOMS[a].d
        if isinstance(d, Expr) and mentions(d, lambda n: n == nm):
            return True
    return False


@prop('G03', 2000)
def tables_wellformed(c):
    """The constant data: seam, poles, physical ranges, and agreement of all three grids with one potential field."""
    c.load(SRC)
    tb = tables(c)
    where = 'geo_lookup/geo_magnetic_tables.hpp'
    R, Cn = 19, 37
    for k, t in tb.items():
        c.ob('shape', f'{k} grid has {R} x {Cn} nodes', set(t) == {(i, j) for i in range(R) for j in range(Cn)}, where)
        if set(t) != {(i, j) for i in range(R) for j in range(Cn)}:
            return
    D, I, H = tb['declination'], tb['inclination'], tb['strength']
    for i in range(R):
        c.ob('seam', f'declination at -180 and +180 agree (row {i})', (D[i, 0] - D[i, 36]) % 62832 in (0, 1, 62831, 2, 62830), where, f'{D[i, 0]} / {D[i, 36]}')
        c.ob('seam', f'inclination at -180 and +180 agree (row {i})', abs(I[i, 0] - I[i, 36]) <= 1, where, f'{I[i, 0]} / {I[i, 36]}')
        c.ob('seam', f'strength at -180 and +180 agree (row {i})', abs(H[i, 0] - H[i, 36]) <= 1, where, f'{H[i, 0]} / {H[i, 36]}')
    for (i, j) in sorted(D):
        c.ob('range', f'node [{i}][{j}] is a physical field vector', abs(D[i, j]) <= 31416 and abs(I[i, j]) <= 15708 and 2000 <= H[i, j] <= 7000, where, f'D {D[i, j]} I {I[i, j]} F {H[i, j]}')
    import numpy as np
    res = harmonic_residuals(np, D, I, H)
    worst = max(res.values())
    c.note(f'Largest residual against a degree-13 potential field fitted to all three grids: {worst:.2f} table units (rounding is 0.5).')
    for (k, i, j), r in sorted(res.items()):
        c.ob('field', f'{k} node [{i}][{j}] agrees with the potential field of the other nodes', r <= 6.0, where, f'off by {r:.1f} table units')


def harmonic_residuals(np, D, I, H):
    """Least-squares spherical harmonic (internal) field through all nodes; residual of each table entry in its own units."""
    N = 13
    a_ref = 6371.2
    A, f = 6378.137, 1 / 298.257223563
    e2 = f * (2 - f)
    rows, rhs, tag = [], [], []
    idx = [(n, m, p) for n in range(1, N + 1) for m in range(n + 1) for p in ((0, 1) if m else (0,))]
    geom = {}
    for i in range(19):
        lat = math.radians(-90 + 10 * i)
        if abs(abs(lat) - math.pi / 2) < 1e-9:
            lat *= (1 - 1e-7)
        Rc = A / math.sqrt(1 - e2 * math.sin(lat) ** 2)
        x, z = Rc * math.cos(lat), Rc * (1 - e2) * math.sin(lat)
        r, th = math.hypot(x, z), math.atan2(x, z)
        P, dP = legendre(N, th)
        geom[i] = (lat, r, th, P, dP)
    B0 = np.zeros((19 * 37 * 3, len(idx)))
    obs = np.zeros(19 * 37 * 3)
    w = np.zeros(19 * 37 * 3)
    for i in range(19):
        lat, r, th, P, dP = geom[i]
        psi = (math.pi / 2 - th) - lat
        for j in range(37):
            lo = math.radians(-180 + 10 * j)
            o = (i * 37 + j) * 3
            for q, (n, m, p) in enumerate(idx):
                s = (a_ref / r) ** (n + 2)
                cm, sm = math.cos(m * lo), math.sin(m * lo)
                t, dt = (cm, -m * sm) if p == 0 else (sm, m * cm)
                Bx = s * dP[n][m] * t                        # north (geocentric)
                By = -s * P[n][m] / math.sin(th) * dt        # east
                Bz = -s * (n + 1) * P[n][m] * t              # down
                B0[o, q] = Bx * math.cos(psi) - Bz * math.sin(psi)
                B0[o + 1, q] = By
                B0[o + 2, q] = Bx * math.sin(psi) + Bz * math.cos(psi)
            d, inc, h = D[i, j] * 1e-4, I[i, j] * 1e-4, H[i, j] * 1e-4
            obs[o:o + 3] = h * math.cos(inc) * math.cos(d), h * math.cos(inc) * math.sin(d), h * math.sin(inc)
    W = np.ones(len(obs))
    for it in range(8):
        g, *_ = np.linalg.lstsq(B0 * W[:, None], obs * W, rcond=None)
        r = np.abs(B0 @ g - obs)
        # robust re-weighting so that one wrong node does not bend the fit
        W = 1 / np.maximum(1, r / 3e-5)
    B = B0 @ g
    out = {}
    for i in range(19):
        for j in range(37):
            o = (i * 37 + j) * 3
            x, y, z = B[o:o + 3]
            hh = math.hypot(x, y)
            d, inc, h = math.atan2(y, x), math.atan2(z, hh), math.sqrt(x * x + y * y + z * z)
            dd_ = (d - D[i, j] * 1e-4 + math.pi) % (2 * math.pi) - math.pi
            out['declination', i, j] = abs(dd_) * 1e4 * min(1.0, hh / 0.05)
            out['inclination', i, j] = abs(inc - I[i, j] * 1e-4) * 1e4
            out['strength', i, j] = abs(h - H[i, j] * 1e-4) * 1e4
    return out


def legendre(N, th):
    """Schmidt semi-normalised associated Legendre functions and their derivatives with respect to colatitude"""
    ct, st = math.cos(th), math.sin(th)
    P = [[0.0] * (N + 2) for _ in range(N + 2)]
    dP = [[0.0] * (N + 2) for _ in range(N + 2)]
    P[0][0] = 1.0
    for n in range(1, N + 1):
        for m in range(n + 1):
            if n == m:
                k = math.sqrt(1 - 1 / (2 * n)) if n > 1 else 1.0
                P[n][n] = k * st * P[n - 1][n - 1]
                dP[n][n] = k * (st * dP[n - 1][n - 1] + ct * P[n - 1][n - 1])
            else:
                k1 = (2 * n - 1) / math.sqrt(n * n - m * m)
                k2 = math.sqrt(((n - 1) ** 2 - m * m) / (n * n - m * m)) if n > 1 and (n - 1) ** 2 > m * m else 0.0
                P[n][m] = k1 * ct * P[n - 1][m] - k2 * (P[n - 2][m] if n > 1 else 0.0)
                dP[n][m] = k1 * (ct * dP[n - 1][m] - st * P[n - 1][m]) - k2 * (dP[n - 2][m] if n > 1 else 0.0)
    return P, dP
