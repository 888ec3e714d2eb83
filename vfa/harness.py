"""Obligation bookkeeping shared by all checks: a check states obligations over value graphs, the harness decides each one,
prints counts, writes the evidence file and reports violations with the construct that fails."""
import json
import os
import sys
import time
from .cxx import AnalysisBroken, Program, REPO
from .val import *
from . import val as V
from .flow import *
from . import flow as FL

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VFA_EVID') or os.path.join(VERIF, 'evidence')
sys.setrecursionlimit(20000)


# ---------------------------------------------------------------- comparison of value graphs
def _lin(d):
    """d = k*base + c with base without constant term: (fp of base, base, k sign, c)"""
    c = Fraction(0)
    sign = 1
    while True:
        if d.op == 'sub' and isconst(d.args[1]):
            c -= d.args[1].aux * sign
            d = d.args[0]
        elif d.op == 'sub' and isconst(d.args[0]):
            c += d.args[0].aux * sign
            d = d.args[1]
            sign = -sign
        elif d.op == 'add' and isconst(d.args[0]):
            c += d.args[0].aux * sign
            d = d.args[1]
        elif d.op == 'add' and isconst(d.args[1]):
            c += d.args[1].aux * sign
            d = d.args[0]
        elif d.op == 'neg':
            d = d.args[0]
            sign = -sign
        else:
            return d, sign, c


def _bounds_of(e):
    try:
        return interval(e)
    except Exception:
        return (-math.inf, math.inf)


def flatten(e, k=Fraction(1), out=None):
    """linear form: ({fp: (coefficient, expression)}, constant)"""
    top = out is None
    if top:
        out = [{}, Fraction(0)]
    o = e.op
    if isconst(e):
        out[1] += k * e.aux
    elif o == 'add':
        flatten(e.args[0], k, out)
        flatten(e.args[1], k, out)
    elif o == 'sub':
        flatten(e.args[0], k, out)
        flatten(e.args[1], -k, out)
    elif o == 'neg':
        flatten(e.args[0], -k, out)
    elif o == 'mul' and isconst(e.args[0]):
        flatten(e.args[1], k * e.args[0].aux, out)
    elif o == 'mul' and isconst(e.args[1]):
        flatten(e.args[0], k * e.args[1].aux, out)
    elif o == 'div' and isconst(e.args[1]) and e.args[1].aux != 0:
        flatten(e.args[0], k / e.args[1].aux, out)
    else:
        c, _ = out[0].get(e.fp, (Fraction(0), e))
        if c + k == 0:
            out[0].pop(e.fp, None)
        else:
            out[0][e.fp] = (c + k, e)
    return out


_flat = {}


def flat(e):
    r = _flat.get(e.fp)
    if r is None:
        d, c = flatten(e)
        r = _flat[e.fp] = (tuple(sorted((f, k, x) for f, (k, x) in d.items())), c)
    return r


def _roots(ds):
    """square roots among the terms of linear forms"""
    out = {}
    for d in ds:
        for f, k, x in flat(d)[0]:
            if x.op == 'sqrt':
                out[f] = x
    return out


def _ratroot(c):
    if c < 0:
        return None
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    return Fraction(a, b) if a * a == c.numerator and b * b == c.denominator else None


def _rooted(st, roots):
    """The square root is monotonous: what the signs of differences of square roots say about the arguments, and the other way round."""
    for d, n, z in st.values():
        terms, c = flat(d)
        if c == 0 and len(terms) == 2 and terms[0][1] == -terms[1][1] and all(x.op == 'sqrt' for _, _, x in terms):
            (_, k, x), (_, _, y) = terms
            x, y = x.args[0], y.args[0]
            yield (V.sub(x, y) if k > 0 else V.sub(y, x)), n, z
        elif len(terms) == 1 and terms[0][2].op == 'sqrt' and -c / terms[0][1] >= 0:
            k, x = terms[0][1], terms[0][2].args[0]
            b = V.const((c / k) ** 2)
            yield (V.sub(x, b) if k > 0 else V.sub(b, x)), n, z
    R = list(roots.values())
    for i, u in enumerate(R):
        for sg in (1, -1):
            for v in R[:i]:
                d = V.sub(u.args[0], v.args[0]) if sg > 0 else V.sub(v.args[0], u.args[0])
                if d.fp in st:
                    yield (V.sub(u, v) if sg > 0 else V.sub(v, u)), *st[d.fp][1:]
        ta, ca = flat(u.args[0])
        for d, n, z in st.values():
            td, cd = flat(d)
            if len(td) == len(ta) and td and all(f == g for (f, _, _), (g, _, _) in zip(td, ta)):
                k = td[0][1] / ta[0][1]
                if all(q == k * p for (_, q, _), (_, p, _) in zip(td, ta)):
                    r = _ratroot(ca - cd / k)           # d = k * (argument - r * r)
                    if r is not None:
                        yield (V.sub(u, V.const(r)) if k > 0 else V.sub(V.const(r), u)), n, z


def feasible(cube):
    """Consistency of a conjunction of sign atoms in the zone (difference-bound) domain: closure of bounds on variables and
    on differences of two of them; no search."""
    st = {}
    for v, val in cube:
        a = ATOMS[v]
        if a.kind in ('neg', 'zero'):
            st.setdefault(a.d.fp, [a.d, None, None])[1 if a.kind == 'neg' else 2] = val
    if not st:
        return True
    W = {}          # (i, j) -> (bound, strict): i - j <= bound
    ab = []
    seen = {}
    neqs = []
    longs = []
    sums = []
    nogo = []

    def put(i, j, b, strict):
        o = W.get((i, j))
        if o is None or b < o[0] or (b == o[0] and strict and not o[1]):
            W[(i, j)] = (b, strict)

    def var(x):
        if x.fp not in seen:
            seen[x.fp] = x
            if x.op == 'abs':
                y = x.args[0]
                ab.append((x, y))
                for q in (y, neg(y)):
                    var(q)
                    put(q.fp, x.fp, Fraction(0), False)
                put(y.fp, 0, Fraction(10) ** 40, False)
                put(neg(y).fp, 0, Fraction(10) ** 40, False)
            lo, hi = _bounds_of(x)
            if hi != math.inf:
                put(x.fp, 0, Fraction(hi), False)
            if lo != -math.inf:
                put(0, x.fp, Fraction(-lo), False)

    def scaled(f, k, x):
        k = abs(k)
        var(x)
        if k == 1:
            return f
        q = hash((f, k))
        if q not in seen:
            seen[q] = None
            lo, hi = _bounds_of(x)
            if hi != math.inf:
                put(q, 0, Fraction(hi) * k, False)
            if lo != -math.inf:
                put(0, q, Fraction(-lo) * k, False)
        return q

    def le(terms, c, strict, eq):
        """sum terms + c <= 0 (or < 0), and >= 0 as well if eq"""
        if terms and all(V.integral(x) for _, _, x in terms):
            m = math.lcm(*(k.denominator for _, k, _ in terms))
            g = Fraction(math.gcd(*(int(k * m) for _, k, _ in terms)), m)
            u = -c / g
            if eq:
                if u.denominator != 1:
                    nogo.append(1)
            else:
                u = Fraction(math.ceil(u) - 1 if strict else math.floor(u))
                c, strict = -u * g, False
        if len(terms) == 1:
            f, k, x = terms[0]
            var(x)
            b = -c / k
            if k > 0 or eq:
                put(f, 0, b, strict)
            if k < 0 or eq:
                put(0, f, -b, strict)
        elif len(terms) == 2 and terms[0][1] == -terms[1][1]:
            (f, k, x), (g, _, y) = terms
            var(x)
            var(y)
            b = -c / k
            if k > 0 or eq:
                put(f, g, b, strict)
            if k < 0 or eq:
                put(g, f, -b, strict)
        elif terms:
            if len(terms) == 2 and terms[0][1] * terms[1][1] < 0:
                # different scales: a multiple of a variable is a variable of its own
                i, j = [scaled(*t) for t in (terms if terms[0][1] > 0 else terms[::-1])]
                put(i, j, -c, strict)
                if eq:
                    put(j, i, c, strict)
            if len(terms) == 2 and terms[0][1] == terms[1][1]:
                (f, k, x), (g, _, y) = terms
                var(x)
                var(y)
                if k > 0 or eq:
                    sums.append((f, g, -c / k, strict, 1))
                if k < 0 or eq:
                    sums.append((f, g, c / k, strict, -1))
            # a longer linear form is a variable of its own
            k = terms[0][1]
            f = hash(tuple((q, kk / k) for q, kk, x in terms))
            if f not in seen:
                seen[f] = None
            longs.append(({q: (kk, x) for q, kk, x in terms}, c, strict))
            if eq:
                longs.append(({q: (-kk, x) for q, kk, x in terms}, -c, strict))
            b = -c / k
            if k > 0 or eq:
                put(f, 0, b, strict)
            if k < 0 or eq:
                put(0, f, -b, strict)
    roots = _roots(d for d, _, _ in st.values())
    for d, n, z in [*st.values(), *(_rooted(st, roots) if roots else ())]:
        terms, c = flat(d)
        if not terms:
            continue
        neg_t = tuple((f, -k, x) for f, k, x in terms)
        # the difference as a whole is a variable too (its own interval)
        lo, hi = _bounds_of(d)
        if n is True:
            if lo >= 0:
                return False
            le(terms, c, True, False)
        elif n is False and z is True:
            if lo > 0 or hi < 0:
                return False
            le(terms, c, False, True)
        elif n is False and z is False:
            if hi <= 0:
                return False
            le(neg_t, -c, True, False)
        elif n is False:
            if hi < 0:
                return False
            le(neg_t, -c, False, False)
        elif z is True:
            if lo > 0 or hi < 0:
                return False
            le(terms, c, False, True)
        elif z is False:
            neqs.append((terms, c))
    if nogo:
        return False
    prods = [x for x in seen.values() if x is not None and x.op in ('mul', 'div') and (x.op == 'div' or not isconst(x.args[0]))]
    if prods:
        # the range of a product follows from those of its factors
        bd = {}
        for (i, j), (b, _) in W.items():
            if j == 0 and i != 0 or i == 0:
                o = bd.get(i or j, (-math.inf, math.inf))
                bd[i or j] = (o[0], min(o[1], float(b))) if j == 0 else (max(o[0], -float(b)), o[1])
        memo = {}
        for x in prods:
            own = bd.pop(x.fp, None)
            lo, hi = interval_under(x, bd, memo)
            if own:
                bd[x.fp] = own
            if hi < math.inf:
                put(x.fp, 0, Fraction(hi), False)
            if lo > -math.inf:
                put(0, x.fp, Fraction(-lo), False)
    if sums:
        # sums of two variables: the octagon domain, a second node ('-', x) for every variable x
        def m(i):
            return i if i == 0 else i[1] if isinstance(i, tuple) else ('-', i)
        for (i, j), (b, s_) in list(W.items()):
            put(m(j), m(i), b, s_)
        for f, g, b, s_, sign in sums:
            if sign > 0:
                put(f, m(g), b, s_)
                put(g, m(f), b, s_)
            else:
                put(m(f), g, b, s_)
                put(m(g), f, b, s_)
        for i in list(seen):
            seen[('-', i)] = None
    V_ = list(seen) + [0]
    for _ in range(2 if sums else 1):
        if _:
            for i in V_:
                if i != 0 and (i, m(i)) in W:
                    b, s_ = W[(i, m(i))]
                    put(i, 0, b / 2, s_)
                    put(0, m(i), b / 2, s_)
        if not (len(V_) > 1 and W):
            continue
        for k in V_:
            ins = [(i, W[(i, k)]) for i in V_ if (i, k) in W]
            outs = [(j, W[(k, j)]) for j in V_ if (k, j) in W]
            for i, a in ins:
                for j, b in outs:
                    t = (a[0] + b[0], a[1] or b[1])
                    if i == j:
                        if t[0] < 0 or (t[0] == 0 and t[1]):
                            return False
                        continue
                    o = W.get((i, j))
                    if o is None or t[0] < o[0] or (t[0] == o[0] and t[1] and not o[1]):
                        W[(i, j)] = t
    for x, y in ab:
        # y and -y bound |y|
        u = [W.get((q, 0)) for q in (y.fp, neg(y).fp)]
        fl_, ny = flat(y)[0], neg(y).fp
        for q, r in ((y.fp, ny), (ny, y.fp)):
            l = W.get((0, q))      # -q <= b
            if l is not None and (u[0 if r == y.fp else 1] is None or l[0] < u[0 if r == y.fp else 1][0]):
                u[0 if r == y.fp else 1] = l
        if all(t is not None for t in u):
            m = max(u, key=lambda t: (t[0], not t[1]))
            l = W.get((0, x.fp))
            if l is not None and (m[0] + l[0] < 0 or (m[0] + l[0] == 0 and (m[1] or l[1]))):
                return False
    for terms, c in neqs:
        if len(terms) == 1:
            f, g, b = terms[0][0], 0, -c / terms[0][1]
        elif len(terms) == 2 and terms[0][1] == -terms[1][1]:
            f, g, b = terms[0][0], terms[1][0], -c / terms[0][1]
        elif sums and len(terms) == 2 and terms[0][1] == terms[1][1]:
            f, g, b = terms[0][0], ('-', terms[1][0]), -c / terms[0][1]
        else:
            continue
        u, l = W.get((f, g)), W.get((g, f))
        if u is not None and l is not None and u[0] == b and l[0] == -b:
            return False
        if all(V.integral(x) for _, _, x in terms) and ((u is not None and u[0] == b and l is not None and l[0] <= 1 - b and (l[0] < 1 - b or l[1]))
                                                        or (l is not None and l[0] == -b and u is not None and u[0] <= b + 1 and (u[0] < b + 1 or u[1]))):
            return False
    # sums of two longer linear forms against the bounds of what remains
    if 1 < len(longs) <= 24:
        for i in range(len(longs)):
            for j in range(i):
                (d1, c1, s1), (d2, c2, s2) = longs[i], longs[j]
                q = next((q for q in d1 if q in d2 and (d1[q][0] > 0) != (d2[q][0] > 0)), None)
                if q is None:
                    continue
                m = -d1[q][0] / d2[q][0]
                lo = float(c1 + m * c2)
                r = {q: k for q, (k, x) in d1.items()}
                for q, (k, x) in d2.items():
                    r[q] = r.get(q, 0) + m * k
                for q, k in r.items():
                    if k:
                        l, h = _bounds_of(d1[q][1] if q in d1 else d2[q][1])
                        if (q, 0) in W:
                            h = min(h, float(W[(q, 0)][0]))
                        if (0, q) in W:
                            l = max(l, -float(W[(0, q)][0]))
                        lo += float(k) * (l if k > 0 else h)
                        if lo == -math.inf or lo != lo:
                            break
                else:
                    if lo > 1e-12 or (lo == 0 and (s1 or s2)):
                        return False
    # other linear forms against the bounds found
    for fp, (d, n, z) in st.items():
        terms, c = flat(d)
        if len(terms) <= 1 or (len(terms) == 2 and terms[0][1] == -terms[1][1]):
            continue
        lo = hi = float(c)
        for f, k, x in terms:
            l, h = _bounds_of(x)
            if (f, 0) in W:
                h = min(h, float(W[(f, 0)][0]))
            if (0, f) in W:
                l = max(l, -float(W[(0, f)][0]))
            k = float(k)
            if k < 0:
                l, h = h, l
            lo, hi = lo + k * l, hi + k * h
        if n is True and lo >= 0 or n is False and hi < 0 or (n is False and z is False and hi <= 0) or (z is True and (lo > 0 or hi < 0)):
            return False
    return True


def cube_bounds(cube):
    """bounds of the non-constant parts of the sign atoms of a conjunction: fp -> (lo, hi)"""
    st = {}
    for v, val in cube:
        a = ATOMS[v]
        if a.kind in ('neg', 'zero'):
            st.setdefault(a.d.fp, [a.d, None, None])[1 if a.kind == 'neg' else 2] = val
    out = {}

    def put(e, lo, hi):
        o = out.get(e.fp, (-math.inf, math.inf))
        out[e.fp] = (max(o[0], lo), min(o[1], hi))
        n = neg(e)
        o = out.get(n.fp, (-math.inf, math.inf))
        out[n.fp] = (max(o[0], -hi), min(o[1], -lo))
    for fp, (d, n, z) in st.items():
        lo, hi = (-math.inf, 0.0) if n is True else (0.0, 0.0) if z is True and n is False else (0.0, math.inf) if n is False else (-math.inf, math.inf)
        put(d, lo, hi)
        b, s, c = _lin(d)
        x = -float(c)
        lo, hi = lo + x, hi + x
        if s < 0:
            lo, hi = -hi, -lo
        put(b, lo, hi)
    return out


def interval_under(e, bounds, memo=None):
    """interval of e with the bounds some of its subexpressions have on a path"""
    if memo is None:
        memo = {}
    r = memo.get(e.fp)
    if r is not None:
        return r
    if not e.args or not all(isinstance(a, Expr) for a in e.args):
        r = interval(e)
    else:
        A = [interval_under(a, bounds, memo) for a in e.args]
        t = Expr()
        names = []
        # the transfer functions of `interval` on operands with the refined intervals
        args = []
        for a, i in zip(e.args, A):
            x = Expr()
            x.op, x.args, x.fp, x.aux, x._iv = ('const' if isconst(a) else 'sym'), (), a.fp, a.aux, i
            args.append(x)
        t.op, t.args, t.fp, t.aux, t._iv = e.op, tuple(args), e.fp, e.aux, None
        r = V._interval(t)
        j = interval(e)
        r = (max(r[0], j[0]), min(r[1], j[1]))
    b = bounds.get(e.fp)
    if b:
        r = (max(r[0], b[0]), min(r[1], b[1]))
    memo[e.fp] = r
    return r


def ranges(d, pc=TRUE):
    """(leaf, interval, path) for every bounds-consistent path of a value graph"""
    d = pc.simp(d)
    pre = tuple(x for g in (pc.c or ()) for x in lits(g))
    st = [(d, pre)]
    n = 0
    while st:
        x, c = st.pop()
        n += 1
        if n > 50000:
            raise AnalysisBroken('value graph too large for a range analysis')
        if not feasible(c):
            continue
        if x.var is None:
            yield x.e, interval_under(x.e, cube_bounds(c)), c
            continue
        st.append((x.lo, c + ((x.var, False),)))
        st.append((x.hi, c + ((x.var, True),)))


def lits(g):
    """literals a factor of a path condition implies"""
    out = []
    while g.var is not None:
        if g.lo is F:
            out.append((g.var, True))
            g = g.hi
        elif g.hi is F:
            out.append((g.var, False))
            g = g.lo
        else:
            break
    return out


def cubes(d, limit=20000):
    """assignments of the atoms under which the boolean diagram d is true"""
    st = [(d, ())]
    n = 0
    while st:
        x, c = st.pop()
        if x is F:
            continue
        if x.var is None:
            yield c
            n += 1
            if n > limit:
                raise AnalysisBroken('condition too large to enumerate')
            continue
        st.append((x.hi, c + ((x.var, True),)))
        st.append((x.lo, c + ((x.var, False),)))


def witness(d):
    """a bounds-consistent cube of d, or None.  Prunes infeasible prefixes."""
    if d.var is None:
        return None if d is F else () if feasible(()) else None
    key = (d.id, hash(frozenset(V.TYPE_IV.items())), len(V.INTS), len(V.NOTINT))
    if key not in _WIT:
        _WIT[key] = _witness(d)
    return _WIT[key]


_WIT = {}


_CORES = {}


def _core(c):
    """a small infeasible part of an infeasible cube"""
    c = list(c)
    k = max(1, len(c) // 2)
    while k:
        i = 0
        while i < len(c):
            r = c[:i] + c[i + k:]
            if not feasible(tuple(r)):
                c = r
            else:
                i += k
        k //= 2
    return c


def _witness(d):
    """paths of the diagram are tried one at a time; the infeasible part of one that is not consistent is removed from the diagram"""
    iv = (hash(frozenset(V.TYPE_IV.items())), len(V.NOTINT))
    cores = _CORES.setdefault(iv, {})
    sup = support(d)
    if cores:
        for k, (vs, cl) in list(cores.items()):
            if vs <= sup:
                d = AND(d, cl)
    n = 0
    while d is not F:
        n += 1
        if n > 6000:
            raise AnalysisBroken('condition too large to decide')
        x, c = d, []
        while x.var is not None:
            if x.lo is not F:
                c.append((x.var, False))
                x = x.lo
            else:
                c.append((x.var, True))
                x = x.hi
        if feasible(tuple(c)):
            return tuple(c)
        r = _core(c)
        cl = F
        for v, val in r:
            cl = OR(cl, ddnode(v, F, T) if not val else ddnode(v, T, F))
        key = tuple(sorted(r))
        cores[key] = (frozenset(v for v, _ in r), cl)
        d = AND(d, cl)
    return None


def showcube(c):
    return ' and '.join(('' if v else 'not ') + showatom(ATOMS[a]) for a, v in c) or 'always'


def same_leaf(x, y):
    if x.fp == y.fp:
        return True
    if isconst(x) and isconst(y):
        a, b = float(x.aux), float(y.aux)
        return abs(a - b) <= 2e-7 * max(abs(a), abs(b))
    return False


def _neq(x, y):
    if x.op in ('addr', 'null', 'str', 'fnptr') or y.op in ('addr', 'null', 'str', 'fnptr') or (isconst(x) and isconst(y)):
        return T
    return cmp_leaf('!=', x, y)


def differs(a, b, pc=TRUE, same=same_leaf):
    """condition under pc on which two value graphs differ (bounds-consistent witness) or None"""
    if pc.c is None:
        return None
    a, b = pc.simp(a), pc.simp(b)
    w = _differs(a, b, pc, same)
    if w is None:
        return None
    # minima and maxima spelt out: a conditional and a call of fmin agree
    try:
        gs = list(pc.c or ())
        hs = [rewrite(g, _nominmax) if ddsize(g) < 200 else g for g in gs]
        a2, b2 = rewrite(a, _nominmax), rewrite(b, _nominmax)
        if a2 is a and b2 is b and all(x is y for x, y in zip(gs, hs)):
            return w if _beyond_equalities(a, b, pc, same, w) else None
        pc2 = TRUE
        for h in hs:
            pc2 = pc2.and_(h)
        if pc2.c is None:
            return None
        a2, b2 = pc2.simp(a2), pc2.simp(b2)
        w2 = _differs(a2, b2, pc2, same)
        if w2 is None:
            return None
        return w if _beyond_equalities(a2, b2, pc2, same, w2) else None
    except (AnalysisBroken, RecursionError):
        return w


def _solved(cube):
    """the equations of a cube, solved one after the other for a term: {fp: (term, expression)}"""
    st = {}
    for v, val in cube:
        a = ATOMS[v]
        if a.kind == 'zero' and val and isinstance(a.d, Expr):
            st[v] = a.d
    out = []
    for v, d in st.items():
        for f, e in out:
            d = _subst(d, f, e)
        terms, c = flat(d)
        for f, k, x in sorted(terms, key=lambda t: (t[2].op != 'sym', t[0])):
            rest = V.const(-c / k)
            for g, q, y in terms:
                if g != f:
                    rest = V.sub(rest, V.mul(V.const(q / k), y))
            if not _occurs(x, rest):
                out.append((x, rest))
                break
    return out


def _occurs(x, e, memo=None):
    if memo is None:
        memo = {}
    if e.fp == x.fp:
        return True
    if e.fp not in memo:
        memo[e.fp] = False
        memo[e.fp] = (e.op == 'phi' and x.op == 'sym') or any(isinstance(a, Expr) and _occurs(x, a, memo) for a in e.args)
    return memo[e.fp]


def _subst(e, x, y):
    d = rewrite(leaf(e), lambda u, A: leaf(y) if u.fp == x.fp else None)
    return d.e if d.var is None else opaque(d)


def _follow(d, cube):
    """the leaf of a value graph under a cube, and the literals that select it; None if the cube leaves it open"""
    val, used = dict(cube), []
    while d.var is not None:
        if d.var not in val:
            return None
        used.append((d.var, val[d.var]))
        d = d.hi if val[d.var] else d.lo
    return d.e, used


def _beyond_equalities(a, b, pc, same, w):
    """Is there a difference besides those at the equations of a case distinction, where both values agree by the equation?"""
    for _ in range(60):
        if w is None:
            return False
        eqs = [(v, x) for v, x in w if x and ATOMS[v].kind == 'zero']
        if not eqs:
            return True
        la, lb = _follow(a, w), _follow(b, w)
        if la is None or lb is None:
            return True
        x, y = la[0], lb[0]
        for t, e in _solved(eqs):
            x, y = _subst(x, t, e), _subst(y, t, e)
        if not same(x, y):
            return True
        block = F
        for v, val in dict(la[1] + lb[1] + eqs).items():
            block = OR(block, ddnode(v, F, T) if not val else ddnode(v, T, F))
        pc = pc.and_(block)
        w = _differs(a, b, pc, same)
    return True


def _differs(a, b, pc, same):
    if a is b:
        return None
    ne = V._apply2('ne' + getattr(same, 'key', str(id(same))), lambda x, y: F if same(x, y) else _neq(x, y), a, b)
    if ne is F:
        return None
    # factors of pc connected with ne
    s = set(support(ne))
    r = ne
    todo = list(pc.c or ())
    grown = True
    while grown:
        grown = False
        for g in list(todo):
            if s & support(g):
                r = AND(r, g)
                s |= support(g)
                todo.remove(g)
                grown = True
                if r is F:
                    return None
    # remaining factors may still constrain through bounds
    for g in sorted(todo, key=ddsize):
        if ddsize(g) <= 12 and ddsize(r) < 4000:
            r = AND(r, g)
            todo.remove(g)
    w = witness(r)
    # larger ones over the same quantities
    if w is not None and todo:
        s = terms_of(r)
        for g in sorted(todo, key=ddsize):
            if ddsize(g) <= 600 and ddsize(r) < 4000 and s & terms_of(g):
                r = AND(r, g)
        w = witness(r)
    return w


def terms_of(d):
    """the quantities the sign conditions of a diagram are about"""
    return {f for v in support(d) if ATOMS[v].kind in ('neg', 'zero') for f, _, _ in flat(ATOMS[v].d)[0]}


same_leaf.key = 'std'


_RB = {'add': ADD, 'sub': SUB, 'mul': MUL, 'div': DIV, 'neg': NEG}


def rewrite(d, g, memo=None):
    """value graph with every expression e replaced by g(e, parts) where g may return None for `rebuild from the parts`;
    conditions are rewritten as well"""
    if memo is None:
        memo = {}

    def ex(e):
        r = memo.get(e.fp)
        if r is not None:
            return r
        if e.op == 'phi':
            r = node(e.aux)
        elif e.args and all(isinstance(a, Expr) for a in e.args):
            A = [ex(a) for a in e.args]
            r = g(e, A)
            if r is None:
                if all(x.var is None and x.e is a for x, a in zip(A, e.args)):
                    r = leaf(e)
                elif e.op in _RB:
                    r = _RB[e.op](*A)
                elif e.aux is None:
                    r = FN(e.op, *A)
                else:
                    r = leaf(e)
        else:
            r = g(e, [])
            if r is None:
                r = leaf(e)
        memo[e.fp] = r
        return r
    nm = {}

    def node(d):
        r = nm.get(d.id)
        if r is not None:
            return r
        if d.var is None:
            r = ex(d.e)
        else:
            a = ATOMS[d.var]
            if a.kind in ('neg', 'zero'):
                c = cmpdd('<' if a.kind == 'neg' else '==', ex(a.d), F)
            elif a.kind == 'b' and isinstance(a.d, Expr):
                x = ex(a.d)
                c = ddnode(d.var, F, T) if x.var is None and x.e is a.d else tobool(x) if a.d.op == 'phi' else map1('ba', bool_atom, x)
            else:
                c = ddnode(d.var, F, T)
            r = V._ite(c, node(d.hi), node(d.lo))
        nm[d.id] = r
        return r
    return node(d)


def _nominmax(e, A):
    if e.op == 'min':
        return V._ite(cmpdd('<', A[0], A[1]), A[0], A[1])
    if e.op == 'max':
        return V._ite(cmpdd('>', A[0], A[1]), A[0], A[1])
    if e.op == 'abs':
        return V._ite(cmpdd('<', A[0], F), NEG(A[0]), A[0])


def unfold(d, pc=TRUE):
    """spell min/max out as gates, also inside conditions, so that they simplify under a path condition"""
    return pc.simp(rewrite(pc.simp(d), _nominmax))


def conj(pc):
    r = T
    for g in pc.c or ():
        r = AND(r, g)
    return F if pc.c is None else r


def restrict_to(d, cube):
    for v, val in cube:
        if v in support(d):
            d = constrain(d, ddnode(v, F, T) if val else ddnode(v, T, F))
    return d


# ---------------------------------------------------------------- context
class Ctx:
    def __init__(self, pid, tier):
        self.id, self.tier = pid, tier
        self.t0 = time.time()
        self.viol = []
        self.n = 0
        self.ok = 0
        self.rules = {}
        self.scope = set()
        self.samples = []
        self.notes = []
        self.prog = None
        self.known = load_known().get(pid, [])
        self.flows = 0
        self.explain = None

    def load(self, *tus):
        self.prog = Program(list(tus) if tus else None)
        return self.prog

    def touch(self, fl):
        for k in fl.visited:
            f = self.prog.funcs.get(k)
            if f is not None and f.file and f.file.startswith(REPO + '/'):
                self.scope.add(f.file[len(REPO) + 1:] + ':' + f.qual)
        self.flows += 1

    def flow(self, qual, args=None, state=None, this=('this',), f=None, pc=TRUE, **kw):
        f = f or self.prog.one(qual)
        fl = Flow(self.prog, **kw)
        S, v = fl.run(f, this=this, args=args, state=state, pc=pc)
        self.touch(fl)
        fl.S, fl.v, fl.f = S, v, f
        for e in fl.events:
            if e.kind == 'uninit' and undefined(e):
                self.ob('defined', f'{e.fn} reads no variable before it has a value', False, evloc(e), f'{e.name} can be without one')
            if e.kind == 'oob' and witness(conj(e.pc)) is not None:
                self.ob('bounds', f'matrix access in {e.fn} stays inside the matrix', False, evloc(e), lambda: str(e.data[:3]))
        return fl

    # obligations
    def ob(self, rule, what, cond, where='', detail=''):
        self.n += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1
        if cond:
            self.ok += 1
            if len(self.samples) < 40 and self.rules[rule] <= 3:
                self.samples.append(f'{rule}: {what}')
        else:
            self.viol.append((rule, what, where, detail() if callable(detail) else detail))
        return cond

    def eq(self, rule, what, got, want, where='', pc=TRUE, same=same_leaf):
        got, want = dd(got), dd(want)
        w = differs(got, want, pc, same)
        return self.ob(rule, what, w is None, where, lambda: f'when {showcube(w)}:\n    code: {showdd(restrict_to(pc.simp(got), w))[:600]}\n    specified: {showdd(restrict_to(pc.simp(want), w))[:600]}')

    def holds(self, rule, what, cond, where='', pc=TRUE):
        return self.eq(rule, what, tobool(cond), T, where, pc)

    def never(self, rule, what, cond, where='', pc=TRUE):
        return self.eq(rule, what, tobool(cond), F, where, pc)

    def need(self, cond, msg):
        if not cond:
            raise AnalysisBroken(msg)

    def must(self, rule, what, cond, where):
        """an obligation the following ones rest on"""
        self.ob(rule, what, bool(cond), where, 'it never happens')
        self.need(cond, what)

    def note(self, s):
        self.notes.append(s)


def undefined(e):
    """whether the variable can be read without a value"""
    if e.state is None:
        return witness(conj(e.pc)) is not None
    # the gate under which it has none: where replacing the missing value makes a difference
    nm = 'uninit:' + e.name
    memo = {}

    def gate(d):
        if d.var is None:
            return T if d.e.op == 'sym' and d.e.aux == nm else F
        r = memo.get(d.id)
        if r is None:
            a = ATOMS[d.var]
            if a.kind == 'b' and a.d.op == 'sym' and a.d.aux == nm:
                r = T
            else:
                r = ddnode(d.var, gate(d.lo), gate(d.hi))
            memo[d.id] = r
        return r
    g = tobool(gate(e.state))
    pc = e.pc.and_(g)
    return witness(conj(pc)) is not None


def dd(x):
    if isinstance(x, DD):
        return x
    if isinstance(x, Expr):
        return leaf(x)
    if isinstance(x, bool):
        return T if x else F
    return lc(x)


def loc(f):
    return f'{rel(f.file)}:{f.line} {f.qual}'


def rel(p):
    return p[len(REPO) + 1:] if p and p.startswith(REPO + '/') else p


def evloc(e):
    return f'{rel(e.file)}:{e.line} in {e.fn}'


def load_known():
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('KNOWN property='):
                pid, rest = l[len('KNOWN property='):].split(' ', 1)
                out.setdefault(pid, []).append(rest)
    return out


PROPS = {}


def prop(pid, floor):
    def d(f):
        PROPS[pid] = (f, floor)
        return f
    return d


def run_check(pid, tier):
    fn, floor = PROPS[pid]
    c = Ctx(pid, tier)
    rc = 0
    try:
        fn(c)
        if c.n < floor:
            raise AnalysisBroken(f'only {c.n} obligations were generated, at least {floor} are expected on this code base')
    except (AnalysisBroken, AttributeError, KeyError, TypeError, ValueError, IndexError, ZeroDivisionError, RecursionError) as e:
        if not isinstance(e, AnalysisBroken):
            import traceback
            traceback.print_exc()
            e = AnalysisBroken(f'internal error: {e!r}')
        if not c.viol:
            print(f'{pid}: analysis cannot give an answer: {e}', file=sys.stderr)
            write_evidence(c, str(e))
            return 2
        c.note(f'analysis incomplete: {e}')
    known, new = [], []
    for v in c.viol:
        k = next((k for k in c.known if k.split(' :: ')[0] == f'{v[0]}|{v[1]}'), None)
        (known if k else new).append((v, k))
    for r, k in sorted(c.rules.items()):
        print(f'  {pid} {r}: {k} obligations')
    print(f'{pid}: {c.n} obligations, {c.ok} hold, {len(c.scope)} functions analysed, {time.time() - c.t0:.1f} s')
    for v, k in known:
        print(f'KNOWN-FINDING: property={pid} {k.split(" :: ", 1)[-1]}')
    write_evidence(c, None, new)
    if new:
        rp = os.path.join(EVID, f'{pid}.violation.txt')
        with open(rp, 'w') as fh:
            for (rule, what, where, det), _ in new:
                fh.write(f'rule {rule}: {what}\n  at {where}\n  {det}\n\n')
        for (rule, what, where, det), _ in new[:12]:
            print(f'{where}: {rule}: {what}\n    {det}')
        print(f'VIOLATION property={pid} replay={rp}')
        rc = 1
    return rc


def write_evidence(c, broken=None, new=()):
    os.makedirs(EVID, exist_ok=True)
    ev = {
        'property': c.id, 'tier': c.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': (c.explain or 'Static value-flow analysis of the type-checked source: every obligation is an equality or implication between value graphs (gated value '
                                         'numbers over all inputs), decided without running the code.') + ' ' + (f'NO ANSWER: {broken}. ' if broken else '') + ' '.join(c.notes),
            'obligations': c.n, 'discharged': c.ok, 'obligations_by_rule': c.rules, 'functions_analysed': len(c.scope), 'value_flow_runs': c.flows,
            'functions': sorted(c.scope)[:200], 'examples': c.samples,
        },
        'wall_s': round(time.time() - c.t0, 2),
        'violations': [f'{r}: {w} at {l}' for (r, w, l, d), _ in new],
    }
    with open(os.path.join(EVID, f'{c.id}.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
