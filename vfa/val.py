"""Value domain: gated value numbers.

A scalar is a multi-terminal decision diagram over condition atoms (the gates of a gated SSA form) whose leaves are
expressions.  Every expression carries a value number: its image in the prime field GF(2^61-1) under a fixed assignment
of the leaf symbols (random interpretation, Gulwani & Necula), so algebraically equal polynomials and rational functions
get the same number whatever their spelling.  Comparisons are put in the normal form sign(a-b)."""
import hashlib
import math
import struct
from fractions import Fraction

PR = (1 << 61) - 1


def h61(s):
    return int.from_bytes(hashlib.blake2b(s.encode(), digest_size=8).digest(), 'little') % (PR - 2) + 1


def inv(x):
    return pow(x, PR - 2, PR)


_intern = {}
_nodes = {}


class Expr:
    __slots__ = ('op', 'args', 'fp', 'aux', '_iv', 'lits')

    def __repr__(self):
        return show(self)


def mk(op, args, fp, aux=None):
    e = _intern.get(fp)
    if e is not None and fp not in _ROOTS:
        return e
    n = Expr()
    n.op, n.args, n.fp, n.aux, n._iv = op, args, fp, aux, None
    if e is not None:
        # the square of this value is the argument of a root: its sign tells which of both roots it is
        r = _ROOTS[fp]
        if op in ('sqrt', 'neg'):
            return e
        lo, hi = interval(n)
        return r if lo >= 0 else neg(r) if hi <= 0 else e
    _intern[fp] = n
    return n


_ROOTS = {}    # fingerprint of a square root or of its negative -> the root


def _fround(x):
    try:
        return struct.unpack('f', struct.pack('f', x))[0]
    except OverflowError:
        return math.inf


PI_FP = h61('const:pi')
_PIS = []


def const(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        fr = Fraction(v)
    elif isinstance(v, Fraction):
        fr = v
    else:
        if v != v:
            return mk('const', (), h61('const:nan'), float('nan'))
        if v in (math.inf, -math.inf):
            e = mk('const', (), h61('const:inf'), math.inf)
            return e if v > 0 else neg(e)
        fr = Fraction(repr(v))
    fp = fr.numerator % PR * inv(fr.denominator % PR) % PR
    return mk('const', (), fp, fr)


def pi_const():
    return mk('pi', (), PI_FP)


def literal(text, is_float):
    """A floating literal: the shortest decimal of its value in its own type; multiples of pi keep their name."""
    v = float(text)
    if v in (math.inf, -math.inf) or v != v:
        return const(v)
    f32 = _fround(v)
    if v != 0:
        for num, den, up in ((1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 4, 1), (3, 2, 1), (3, 4, 1), (1, 180, 1), (180, 1, -1)):
            w = num / den * (math.pi ** up)
            if f32 == _fround(w) and abs(v / w - 1) < 1e-7:
                base = pi_const() if up == 1 else div(ONE, pi_const())
                return mul(const(Fraction(num, den)), base)
    if is_float:
        for p in range(1, 12):
            s = '%.*g' % (p, v)
            if _fround(float(s)) == f32:
                return const(Fraction(s))
    return const(Fraction(repr(v)))


def isconst(e):
    return e.op == 'const' and isinstance(e.aux, Fraction)


def cval(e):
    return e.aux if isconst(e) else None


def sym(name, aux=None):
    return mk('sym', (), h61('sym:' + name), name) if aux is None else mk('sym', (), h61('sym:' + name), name)


_SYMFP = {}


def set_symfp(name, fp):
    """Algebraic constraints between symbols (unit quaternion) are built into their assignment."""
    _SYMFP[name] = fp % PR


def symbol(name):
    fp = _SYMFP.get(name)
    if fp is None:
        fp = h61('sym:' + name)
        e = _intern.get(fp)
        if e is not None:
            return e
    return mk('sym', (), fp, name)


def unit_quat(names):
    a, b, c = (h61('uq:' + n) for n in names[1:])
    s = (a * a + b * b + c * c) % PR
    d = inv((1 + s) % PR)
    set_symfp(names[0], (1 - s) * d)
    for n, v in zip(names[1:], (a, b, c)):
        set_symfp(n, 2 * v * d)


def add(a, b):
    if isconst(a) and isconst(b):
        return const(a.aux + b.aux)
    if a.fp == 0:
        return b
    if b.fp == 0:
        return a
    return mk('add', (a, b), (a.fp + b.fp) % PR)


def sub(a, b):
    if isconst(a) and isconst(b):
        return const(a.aux - b.aux)
    if b.fp == 0:
        return a
    if a.fp == b.fp:
        return ZERO
    if a.fp == 0:
        return neg(b)
    return mk('sub', (a, b), (a.fp - b.fp) % PR)


def neg(a):
    if isconst(a):
        return const(-a.aux)
    if a.op == 'neg':
        return a.args[0]
    return mk('neg', (a,), (-a.fp) % PR)


def mul(a, b):
    if isconst(a) and isconst(b):
        return const(a.aux * b.aux)
    if a.fp == 0 or b.fp == 0:
        return ZERO
    if a.fp == 1:
        return b
    if b.fp == 1:
        return a
    if a.op == 'sqrt' and a is b:
        return a.args[0]
    return mk('mul', (a, b), a.fp * b.fp % PR)


def div(a, b):
    if isconst(b) and b.aux == 0:
        return fn('div0', (a,))
    if isconst(a) and isconst(b):
        return const(a.aux / b.aux)
    if a.fp == 0:
        return ZERO
    if b.fp == 1:
        return a
    if a.fp == b.fp:
        return ONE
    if b.op == 'sqrt' and a is b.args[0]:
        return b
    return mk('div', (a, b), a.fp * inv(b.fp) % PR)


_EVEN = {'abs', 'cos'}
_COMM = {'max', 'min', 'bitand', 'bitor', 'bitxor', 'hypot'}


def square(a):
    """does the argument have a root in the field?"""
    return pow(a.fp, (PR - 1) // 2, PR) == 1


def _content(e, d=0):
    """positive constant factor common to the terms of an expression"""
    if isconst(e):
        return abs(e.aux)
    if d > 40:
        return Fraction(1)
    if e.op == 'mul':
        return _content(e.args[0], d + 1) * _content(e.args[1], d + 1)
    if e.op == 'div':
        b = _content(e.args[1], d + 1)
        return _content(e.args[0], d + 1) / b if b else Fraction(1)
    if e.op == 'neg':
        return _content(e.args[0], d + 1)
    if e.op in ('add', 'sub'):
        a, b = _content(e.args[0], d + 1), _content(e.args[1], d + 1)
        return Fraction(math.gcd(a.numerator * b.denominator, b.numerator * a.denominator), a.denominator * b.denominator) or Fraction(1)
    return Fraction(1)


def _factors(e, d=0):
    """{fingerprint: [expression, power]} of the non-constant factors of an expression"""
    if isconst(e):
        return {}
    if d < 40:
        if e.op in ('mul', 'div'):
            out = {f: list(x) for f, x in _factors(e.args[0], d + 1).items()}
            for f, (x, p) in _factors(e.args[1], d + 1).items():
                out.setdefault(f, [x, 0])[1] += p if e.op == 'mul' else -p
            return {f: x for f, x in out.items() if x[1]}
        if e.op == 'neg':
            return _factors(e.args[0], d + 1)
        if e.op in ('add', 'sub'):
            a = _factors(e.args[0], d + 1)
            b = _factors(e.args[1], d + 1) if a else {}
            r = {f: [x, min(p, b[f][1]) if p > 0 else max(p, b[f][1])] for f, (x, p) in a.items() if f in b and (p > 0) == (b[f][1] > 0)}
            if r:
                return r
    return {e.fp: [e, 1]}


def _quo(e, f, x, p):
    """e without the factor x ** p"""
    if p == 0:
        return e
    if e.fp == f and p == 1:
        return ONE
    if e.op == 'mul':
        a = _factors(e.args[0]).get(f, (x, 0))[1]
        a = (min(p, a) if a > 0 else 0) if p > 0 else (max(p, a) if a < 0 else 0)
        return mul(_quo(e.args[0], f, x, a), _quo(e.args[1], f, x, p - a))
    if e.op == 'div':
        a = _factors(e.args[0]).get(f, (x, 0))[1]
        a = (min(p, a) if a > 0 else 0) if p > 0 else (max(p, a) if a < 0 else 0)
        return div(_quo(e.args[0], f, x, a), _quo(e.args[1], f, x, a - p))
    if e.op == 'neg':
        return neg(_quo(e.args[0], f, x, p))
    if e.op in ('add', 'sub') and all(_factors(a).get(f, (x, 0))[1] * p >= p * p for a in e.args):
        a, b = (_quo(a, f, x, p) for a in e.args)
        return add(a, b) if e.op == 'add' else sub(a, b)
    for _ in range(abs(p)):
        e = div(e, x) if p > 0 else mul(e, x)
    return e


def _square_part(q):
    """the largest s of small factors with q / s**2 an integer, for a rational q"""
    n, s, p = q.numerator * q.denominator, Fraction(1, q.denominator), 2
    r = math.isqrt(n)
    if r * r == n:
        return s * r
    while p < 100:
        while n % (p * p) == 0:
            n //= p * p
            s *= p
        p += 1
    return s


SQRTS = {}     # fingerprint of the square of a non-negative symbol -> the symbol


def unwrap(e):
    """angle expression without inner wraps: they change it by whole turns only"""
    if e.op in ('wrap_pi', 'wrap_2pi'):
        return unwrap(e.args[0])
    if e.op in ('add', 'sub'):
        a, b = unwrap(e.args[0]), unwrap(e.args[1])
        if a is not e.args[0] or b is not e.args[1]:
            return add(a, b) if e.op == 'add' else sub(a, b)
    elif e.op == 'neg':
        a = unwrap(e.args[0])
        if a is not e.args[0]:
            return neg(a)
    return e


def fn(name, args, aux=None):
    args = tuple(args)
    if name in ('sin', 'cos', 'wrap_pi', 'wrap_2pi'):
        args = (unwrap(args[0]),)
        if name == 'wrap_pi':
            lo, hi = interval(args[0])
            if lo >= -math.pi and hi <= math.pi:
                return args[0]
        if name in ('wrap_pi', 'wrap_2pi'):
            lo, hi = interval(args[0])
            if max(abs(lo), abs(hi)) < 100:
                o = math.pi if name == 'wrap_pi' else 0.0
                k = math.floor((lo + o) / (2 * math.pi))
                if k == math.floor((hi + o) / (2 * math.pi)):
                    return sub(args[0], mul(const(2 * k), pi_const()))
    if name in ('sin', 'cos'):
        a = args[0]
        if a.op == 'atan2':
            y, x = a.args
            return div(x if name == 'cos' else y, fn('sqrt', (add(mul(x, x), mul(y, y)),)))
        if a.op == 'neg' and a.args[0].op in ('atan2', 'asin', 'acos'):
            return neg(fn('sin', a.args)) if name == 'sin' else fn('cos', a.args)
        if a.op in ('asin', 'acos'):
            x = a.args[0]
            return x if (a.op == 'asin') == (name == 'sin') else fn('sqrt', (sub(ONE, mul(x, x)),))
        if a.fp == 0:
            return ZERO if name == 'sin' else ONE
        k = min(a.fp, PR - a.fp)
        t = h61('trig:%d' % k)
        d = inv((1 + t * t) % PR)
        if name == 'cos':
            return mk('cos', args, (1 - t * t) * d % PR)
        s = 2 * t * d % PR
        return mk('sin', args, s if k == a.fp else (-s) % PR)
    if name == 'tan':
        return div(fn('sin', args), fn('cos', args))
    if name == 'acos' and isconst(args[0]) and args[0].aux == 1:
        return ZERO
    if name == 'atan2' and args[1].fp != 0:
        # the angle does not depend on the length of the vector
        g = _content(args[1])
        if g not in (0, 1):
            args = tuple(div(x, const(g)) for x in args)
    if name == 'atan2' and args[0].fp == 0 and interval(args[1])[0] > 0:
        return ZERO
    if name == 'exp' and args[0].fp == 0:
        return ONE
    if name == 'abs':
        a = args[0]
        if isconst(a):
            return const(abs(a.aux))
        if interval(a)[0] >= 0:
            return a
        g = _content(a)
        if g != 1 and g > 0:
            return mul(const(g), fn('abs', (div(a, const(g)),)))
        k = min(a.fp, PR - a.fp)
        return mk('abs', args, h61('abs:%d' % k))
    if name.startswith('q_aa.'):
        # quaternion of a rotation vector: unit norm, parallel to the vector, odd in it
        f = [a.fp for a in args]
        if not any(f):
            return ONE if name == 'q_aa.0' else ZERO
        h = h61('q_aa:' + ','.join('%d' % (f[i] * f[j] % PR) for i in range(3) for j in range(i, 3)))
        t = [x * h % PR for x in f]
        n = sum(x * x for x in t) % PR
        d = inv((1 + n) % PR)
        i = int(name[5:])
        return mk(name, args, ((1 - n) if i == 0 else 2 * t[i - 1]) * d % PR)
    if name == 'sqrt':
        a = args[0]
        if a.fp in SQRTS:
            return SQRTS[a.fp]
        if isconst(a) and a.aux >= 0:
            r = math.isqrt(a.aux.numerator), math.isqrt(a.aux.denominator)
            if r[0] ** 2 == a.aux.numerator and r[1] ** 2 == a.aux.denominator:
                return const(Fraction(*r))
        out = ONE
        for f, (x, p) in _factors(a).items():
            h = abs(p) // 2
            if h:
                a = _quo(a, f, x, 2 * h if p > 0 else -2 * h)
                y = fn('abs', (x,))
                for _ in range(h):
                    out = mul(out, y) if p > 0 else div(out, y)
        # the root of a product is the product of the roots if at most one factor may be negative
        if a.op in ('mul', 'div'):
            x, y = a.args
            if not (isconst(y) or isconst(x) and (a.op == 'mul' or x.aux < 0)) and (interval(x)[0] >= 0 or interval(y)[0] >= 0):
                r, q = fn('sqrt', (x,)), fn('sqrt', (y,))
                return mul(out, mul(r, q) if a.op == 'mul' else div(r, q))
        elif a.op in ('add', 'sub'):
            for x, p in _factors(a).values():
                if x.fp != a.fp and interval(x)[0] >= 0:
                    r, q = fn('sqrt', (x,)), fn('sqrt', (_quo(a, x.fp, x, 1 if p > 0 else -1),))
                    return mul(out, mul(r, q) if p > 0 else div(q, r))
        if out.fp != 1:
            return mul(out, fn('sqrt', (a,)))
        g = _content(a)
        if g != 1 and g > 0:
            k = _square_part(g)
            if k != 1:
                return mul(const(k), fn('sqrt', (div(a, const(k * k)),)))
        # where the argument has a root in the field, the square of the root is the argument
        if pow(a.fp, (PR - 1) // 2, PR) == 1:
            r = pow(a.fp, (PR + 1) // 4, PR)
            if r in _ROOTS:
                return _ROOTS[r]
            for q in (r, PR - r):
                e = _intern.get(q)
                if e is not None:
                    return fn('abs', (e,))
            e = mk('sqrt', args, r if r % 2 == 0 else PR - r)
            _ROOTS[r] = _ROOTS[PR - r] = e
            return e
    if name in ('atan', 'asin', 'asinh', 'sinh', 'tanh'):
        a = args[0]
        if a.fp == 0:
            return ZERO
        k = min(a.fp, PR - a.fp)
        v = h61(name + ':%d' % k)
        return mk(name, args, v if k == a.fp else (-v) % PR)
    if name in ('max', 'min'):
        a, b = args
        if isconst(a) and isconst(b):
            return const(max(a.aux, b.aux) if name == 'max' else min(a.aux, b.aux))
        if a.fp == b.fp:
            return a
        ia, ib = interval(a), interval(b)
        if name == 'max':
            if ia[0] >= ib[1]:
                return a
            if ib[0] >= ia[1]:
                return b
        else:
            if ia[1] <= ib[0]:
                return a
            if ib[1] <= ia[0]:
                return b
        if a.fp > b.fp:
            args = (b, a)
    elif name in _COMM:
        if args[0].fp > args[1].fp:
            args = (args[1], args[0])
    elif name in ('trunc', 'floor', 'ceil', 'round'):
        a = args[0]
        if isconst(a):
            v = {'trunc': math.trunc, 'floor': math.floor, 'ceil': math.ceil, 'round': lambda q: math.floor(q + Fraction(1, 2)) if q >= 0 else math.ceil(q - Fraction(1, 2))}[name](a.aux)
            return const(v)
        if _intvalued(a):
            return a
        lo, hi = interval(a)
        if not math.isinf(lo) and not math.isinf(hi):
            f = {'trunc': math.trunc, 'floor': math.floor, 'ceil': math.ceil, 'round': lambda q: math.floor(q + 0.5) if q >= 0 else math.ceil(q - 0.5)}[name]
            if f(lo) == f(hi) and not (lo == hi):
                return const(f(lo))
        if name == 'trunc' and lo >= 0:
            name = 'floor'
        if name in ('floor', 'ceil') and a.op in ('add', 'sub'):
            # integer offsets move out
            for i in (1, 0):
                b = a.args[i]
                if isconst(b) and b.aux.denominator == 1 and (a.op == 'add' or i == 1):
                    r = fn(name, (a.args[1 - i],))
                    return add(r, b) if a.op == 'add' else sub(r, b)
        args = (a,)
    elif name == 'fmod':
        a, b = args
        if isconst(b) and b.aux > 0:
            lo, hi = interval(a)
            if not math.isinf(lo) and not math.isinf(hi):
                k = math.trunc(lo / float(b.aux))
                if k == math.trunc(hi / float(b.aux)):
                    return sub(a, mul(const(k), b))
    elif name == 'idiv':
        if isconst(args[0]) and isconst(args[1]) and args[1].aux != 0:
            return const(math.trunc(args[0].aux / args[1].aux))
        if isconst(args[1]) and args[1].aux == 1:
            return args[0]
    elif name == 'mod':
        if isconst(args[0]) and isconst(args[1]) and args[1].aux != 0:
            return const(int(math.fmod(args[0].aux, args[1].aux)))
    return mk(name, args, h61(name + '(' + ','.join('%d' % a.fp for a in args) + ')' + (aux or '')), aux)


def _intvalued(e, d=0):
    if isconst(e):
        return e.aux.denominator == 1
    if e.op in ('floor', 'ceil', 'round', 'trunc', 'idiv', 'mod'):
        return True
    if e.op in ('add', 'sub', 'mul', 'neg', 'max', 'min') and d < 6:
        return all(_intvalued(a, d + 1) for a in e.args)
    return e.op == 'sym' and e.aux.startswith('int:')


INTS = set()       # symbols of integer type
NOTINT = set()     # names seen with another type as well


def integral(e, d=0):
    if e.op == 'sym':
        return (e.aux in INTS or str(e.aux).endswith('.time_us')) and e.aux not in NOTINT
    if e.op in ('add', 'sub', 'mul', 'neg', 'max', 'min') and d < 6:
        return all(integral(a, d + 1) for a in e.args)
    return _intvalued(e)


INF = math.inf


def interval(e):
    if e._iv is not None:
        return e._iv
    e._iv = (-INF, INF)
    e._iv = _interval(e)
    return e._iv


def _m(a, b):
    if a == 0 or b == 0:
        return 0.0
    return a * b


TYPE_IV = {}   # symbols of unsigned type
SYM_IV = []    # (predicate(name) -> interval or None)


def _interval(e):
    op = e.op
    if op == 'const':
        if isinstance(e.aux, Fraction):
            v = float(e.aux)
            return (v, v)
        if e.aux == INF:
            return (INF, INF)
        return (-INF, INF)
    if op == 'pi':
        return (math.pi, math.pi)
    if op == 'sym':
        for p in SYM_IV:
            r = p(e.aux)
            if r:
                return r
        # time stamps are unsigned
        return TYPE_IV.get(e.aux) or ((0.0, INF) if str(e.aux).endswith('.time_us') else (-INF, INF))
    if op in ('sin', 'cos'):
        return (-1.0, 1.0)
    if op == 'phi':
        r = None
        for l in leaves(e.aux):
            i = interval(l)
            r = i if r is None else (min(r[0], i[0]), max(r[1], i[1]))
        return r or (-INF, INF)
    A = [interval(a) for a in e.args]
    if op == 'abs':
        lo, hi = A[0]
        return (0.0 if lo <= 0 <= hi else min(abs(lo), abs(hi)), max(abs(lo), abs(hi)))
    if op == 'add':
        return (A[0][0] + A[1][0], A[0][1] + A[1][1]) if not (math.isinf(A[0][0]) and math.isinf(A[1][0]) and A[0][0] != A[1][0]) else (-INF, INF)
    if op == 'sub':
        lo = A[0][0] - A[1][1] if not (math.isinf(A[0][0]) and A[0][0] == A[1][1]) else -INF
        hi = A[0][1] - A[1][0] if not (math.isinf(A[0][1]) and A[0][1] == A[1][0]) else INF
        return (lo, hi)
    if op == 'neg':
        return (-A[0][1], -A[0][0])
    if op == 'mul':
        if e.args[0].fp == e.args[1].fp:
            lo, hi = A[0]
            m = max(abs(lo), abs(hi))
            return (0.0 if lo <= 0 <= hi else min(abs(lo), abs(hi)) ** 2, m * m)
        p = [_m(x, y) for x in A[0] for y in A[1]]
        return (min(p), max(p))
    if op == 'div':
        lo, hi = A[1]
        if lo > 0 or hi < 0:
            p = []
            for x in A[0]:
                for y in (lo, hi):
                    if math.isinf(y):
                        p.append(0.0 if not math.isinf(x) else math.copysign(INF, x) * (1 if y > 0 else -1))
                        p.append(0.0)
                    else:
                        p.append(x / y)
            return (min(p), max(p))
        if lo >= 0 and A[0][0] >= 0:
            return (0.0, INF)
        return (-INF, INF)
    if op == 'sqrt':
        return (math.sqrt(max(A[0][0], 0)), math.sqrt(A[0][1]) if A[0][1] >= 0 else INF)
    if op == 'max':
        return (max(A[0][0], A[1][0]), max(A[0][1], A[1][1]))
    if op == 'min':
        return (min(A[0][0], A[1][0]), min(A[0][1], A[1][1]))
    if op in ('trunc', 'floor', 'ceil', 'round'):
        f = {'trunc': math.trunc, 'floor': math.floor, 'ceil': math.ceil, 'round': round}[op]
        return tuple(x if math.isinf(x) else float(f(x)) for x in A[0])
    if op == 'exp':
        return (0.0, INF)
    if op == 'acos':
        return (0.0, math.pi)
    if op in ('asin', 'atan'):
        return (-math.pi / 2, math.pi / 2)
    if op == 'atan2':
        p = math.pi / 2 if A[1][0] >= 0 else math.pi
        return (0.0 if A[0][0] >= 0 else -p, 0.0 if A[0][1] < 0 else p)
    if op == 'wrap_pi':
        return (-math.pi, math.pi)
    if op == 'wrap_2pi':
        return (0.0, 2 * math.pi)
    if op == 'mod':
        if A[1][0] > 0 and A[0][0] >= 0:
            return (0.0, A[1][1])
        return (-INF, INF)
    if op == 'idiv':
        if A[0][0] >= 0 and A[1][0] > 0:
            return (0.0, A[0][1])
        return (-INF, INF)
    if op == 'hypot':
        return (0.0, INF)
    return (-INF, INF)


# ---------------------------------------------------------------- decision diagrams
class DD:
    """var is None for a leaf (then e is the expression)."""
    __slots__ = ('var', 'lo', 'hi', 'e', 'id', '_n', '_fp', '_sup')

    def __repr__(self):
        return showdd(self)


_dd = {}
_ctr = [0]


def leaf(e):
    k = ('l', e.fp)
    d = _dd.get(k)
    if d is None:
        d = DD()
        d.var, d.e, d.lo, d.hi = None, e, None, None
        d._n, d._fp, d._sup = 1, e.fp, frozenset()
        _ctr[0] += 1
        d.id = _ctr[0]
        _dd[k] = d
    return d


def ddnode(v, lo, hi):
    if lo is hi:
        return lo
    k = (v, lo.id, hi.id)
    d = _dd.get(k)
    if d is None:
        d = DD()
        d.var, d.lo, d.hi, d.e = v, lo, hi, None
        d._n = None
        d._fp = None
        d._sup = None
        _ctr[0] += 1
        d.id = _ctr[0]
        _dd[k] = d
    return d


def ddfp(d):
    if d._fp is None:
        v = h61('atom:' + ATOMS[d.var].key)
        d._fp = (v * ddfp(d.hi) + (1 - v) * ddfp(d.lo)) % PR
    return d._fp


def ddsize(d):
    if d._n is None:
        seen = set()
        st = [d]
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.var is not None:
                st += (x.lo, x.hi)
        d._n = len(seen)
    return d._n


def support(d):
    if d._sup is None:
        d._sup = support(d.lo) | support(d.hi) | {d.var}
    return d._sup


def leaves(d):
    out, seen, st = [], set(), [d]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.var is None:
            out.append(x.e)
        else:
            st += (x.lo, x.hi)
    return out


class Atom:
    __slots__ = ('kind', 'key', 'd', 'idx')

    def __repr__(self):
        return showatom(self)


ATOMS = []
_atom = {}


def atom(kind, key, d):
    k = kind + ':' + key
    i = _atom.get(k)
    if i is None:
        a = Atom()
        a.kind, a.key, a.d = kind, k, d
        i = a.idx = len(ATOMS)
        ATOMS.append(a)
        _atom[k] = i
    return i


ZERO = const(0)
ONE = const(1)
F = leaf(ZERO)
T = leaf(ONE)


def lc(v):
    return leaf(const(v))


_ap = {}
LIMIT = 600


def apply2(name, f, a, b):
    """f: (Expr, Expr) -> DD or Expr"""
    if a.var is None and b.var is None:
        r = f(a.e, b.e)
        return r if isinstance(r, DD) else leaf(r)
    if ddsize(a) * ddsize(b) > LIMIT * 60:
        return None
    return _apply2(name, f, a, b)


def _apply2(name, f, a, b):
    if a.var is None and b.var is None:
        r = f(a.e, b.e)
        return r if isinstance(r, DD) else leaf(r)
    k = (name, a.id, b.id)
    r = _ap.get(k)
    if r is not None:
        return r
    va = a.var if a.var is not None else 1 << 60
    vb = b.var if b.var is not None else 1 << 60
    v = min(va, vb)
    a0, a1 = (a.lo, a.hi) if va == v else (a, a)
    b0, b1 = (b.lo, b.hi) if vb == v else (b, b)
    lo, hi = _apply2(name, f, a0, b0), _apply2(name, f, a1, b1)
    # leaf functions may introduce atoms of any order (comparisons): compose with ite
    r = ite_v(v, hi, lo)
    _ap[k] = r
    return r


def ite_v(v, hi, lo):
    """if atom v then hi else lo, where hi/lo may mention atoms before v"""
    if hi is lo:
        return hi
    m = 1 << 60
    vh = hi.var if hi.var is not None else m
    vl = lo.var if lo.var is not None else m
    if v < vh and v < vl:
        return ddnode(v, lo, hi)
    return _ite(ddnode(v, F, T), hi, lo)


_itec = {}


def _ite(c, a, b):
    if c is T:
        return a
    if c is F:
        return b
    if a is b:
        return a
    if c.var is None:
        raise ValueError('non boolean guard')
    k = (c.id, a.id, b.id)
    r = _itec.get(k)
    if r is not None:
        return r
    m = 1 << 60
    vs = [x.var if x.var is not None else m for x in (c, a, b)]
    v = min(vs)
    c0, c1 = (c.lo, c.hi) if vs[0] == v else (c, c)
    a0, a1 = (a.lo, a.hi) if vs[1] == v else (a, a)
    b0, b1 = (b.lo, b.hi) if vs[2] == v else (b, b)
    r = ddnode(v, _ite(c0, a0, b0), _ite(c1, a1, b1))
    _itec[k] = r
    return r


def AND(a, b):
    if a is F or b is F:
        return F
    return _ite(a, b, F)


def OR(a, b):
    return _ite(a, T, b)


def NOT(a):
    return _ite(a, F, T)


def implies(a, b):
    return AND(a, NOT(b)) is F


_con = {}


def constrain(f, c):
    """generalised cofactor: f simplified with the care set c"""
    if c is T or f.var is None or c.var is None:
        return f
    k = (f.id, c.id)
    r = _con.get(k)
    if r is not None:
        return r
    if c.var < f.var:
        if c.lo is F:
            r = constrain(f, c.hi)
        elif c.hi is F:
            r = constrain(f, c.lo)
        else:
            r = constrain(f, OR(c.lo, c.hi))      # restrict: atom not in f
    elif c.var == f.var:
        if c.lo is F:
            r = constrain(f.hi, c.hi)
        elif c.hi is F:
            r = constrain(f.lo, c.lo)
        else:
            r = ddnode(f.var, constrain(f.lo, c.lo), constrain(f.hi, c.hi))
    else:
        r = ddnode(f.var, constrain(f.lo, c), constrain(f.hi, c))
    _con[k] = r
    return r


# ---- comparisons
def sign_atoms(d):
    """(is_neg, is_zero, is_pos) diagrams of an expression"""
    if isconst(d):
        return (T if d.aux < 0 else F, T if d.aux == 0 else F, T if d.aux > 0 else F)
    lo, hi = interval(d)
    if lo > 0:
        return (F, F, T)
    if hi < 0:
        return (T, F, F)
    # canonical orientation
    d, flip = canon_sign(d)
    if flip:
        lo, hi = -hi, -lo
    k = '%d' % d.fp
    n = F if lo >= 0 else ddnode(atom('neg', k, d), F, T)
    if hi <= 0:
        z = NOT(n)
        p = F
    else:
        zv = ddnode(atom('zero', k, d), F, T)
        z = AND(NOT(n), zv)
        p = AND(NOT(n), NOT(zv))
    return (p, z, n) if flip else (n, z, p)


def canon_sign(d):
    """Positive scaling and orientation of a difference: sign(d) is decided on a representative of {d, -d}."""
    f = PR - d.fp
    if d.fp <= f:
        return d, False
    return neg(d), True


def _strip(e):
    """drop positive constant factors"""
    while True:
        if e.op == 'mul' and isconst(e.args[0]) and e.args[0].aux > 0:
            e = e.args[1]
        elif e.op == 'mul' and isconst(e.args[1]) and e.args[1].aux > 0:
            e = e.args[0]
        elif e.op == 'div' and isconst(e.args[1]) and e.args[1].aux > 0:
            e = e.args[0]
        else:
            return e


def _minmax_lin(d):
    """(x, sign, c) with d = sign * x + c for a minimum or maximum x"""
    c, sg = Fraction(0), 1
    for _ in range(6):
        if d.op in ('min', 'max') and len(d.args) == 2:
            return d, sg, c
        if d.op == 'neg':
            d, sg = d.args[0], -sg
        elif d.op == 'sub' and isconst(d.args[1]):
            c -= sg * d.args[1].aux
            d = d.args[0]
        elif d.op == 'sub' and isconst(d.args[0]):
            c += sg * d.args[0].aux
            d, sg = d.args[1], -sg
        elif d.op == 'add' and isconst(d.args[0]):
            c += sg * d.args[0].aux
            d = d.args[1]
        elif d.op == 'add' and isconst(d.args[1]):
            c += sg * d.args[1].aux
            d = d.args[0]
        else:
            return None
    return None


def cmp_leaf(op, a, b):
    if a.op in ('addr', 'null', 'str') or b.op in ('addr', 'null', 'str'):
        if op in ('==', '!='):
            same = a.fp == b.fp
            if not same and (a.op in ('sym',) or b.op in ('sym',)):
                e = ddnode(atom('ptreq', '%d=%d' % tuple(sorted((a.fp, b.fp))), (a, b)), F, T)
                return e if op == '==' else NOT(e)
            return T if same == (op == '==') else F
    d = sub(a, b)
    if d.fp == 0:
        return T if op in ('==', '<=', '>=') else F
    mm = _minmax_lin(d)
    if mm is not None:
        # a comparison of a minimum or maximum with a constant is a conjunction or disjunction of comparisons
        x, sg, c = mm
        u, v = ((add(y, const(c)) if sg > 0 else sub(const(c), y)) for y in x.args)
        ismax = (x.op == 'max') == (sg > 0)
        if op in ('==', '!='):
            both, any_ = ('<=', '>=')[not ismax], '=='
            r = AND(AND(cmp_leaf(both, u, ZERO), cmp_leaf(both, v, ZERO)), OR(cmp_leaf('==', u, ZERO), cmp_leaf('==', v, ZERO)))
            return r if op == '==' else NOT(r)
        return (AND if (op in ('<', '<=')) == ismax else OR)(cmp_leaf(op, u, ZERO), cmp_leaf(op, v, ZERO))
    d = _strip(d)
    n, z, p = sign_atoms(d)
    return {'<': n, '>': p, '==': z, '<=': NOT(p), '>=': NOT(n), '!=': NOT(z)}[op]


def cmpdd(op, a, b):
    r = apply2('cmp' + op, lambda x, y: cmp_leaf(op, x, y), a, b)
    if r is None:
        r = cmp_leaf(op, opaque(a), opaque(b))
    return r


def opaque(d):
    if d.var is None:
        return d.e
    return mk('phi', (), ddfp(d), d)


def num2(name, f, a, b):
    r = apply2(name, f, a, b)
    if r is None or ddsize(r) > LIMIT:
        r = leaf(f(opaque(a), opaque(b)))
    return r


def map1(name, f, a):
    def g(x, _):
        return f(x)
    return apply2('u' + name, g, a, F)


def ADD(a, b):
    return num2('+', add, a, b)


def SUB(a, b):
    return num2('-', sub, a, b)


def MUL(a, b):
    return num2('*', mul, a, b)


def DIV(a, b):
    return num2('/', div, a, b)


def NEG(a):
    return map1('neg', neg, a)


def FN(name, *args):
    if len(args) == 1:
        return map1(name, lambda x: fn(name, (x,)), args[0])
    if len(args) == 2:
        return num2(name, lambda x, y: fn(name, (x, y)), args[0], args[1])
    return leaf(fn(name, tuple(opaque(a) for a in args)))


def is_leaf(d):
    return d.var is None


def ITE(c, a, b):
    """gated merge, with max/min recognised"""
    if c is T or a is b:
        return a
    if c is F:
        return b
    if a.var is None and b.var is None and not (isconst(a.e) and isconst(b.e)):
        s = support(c)
        if len(s) <= 2:
            r = _minmax(c, a.e, b.e)
            if r is not None:
                return leaf(r)
    return _ite(c, a, b)


def _minmax(c, a, b):
    if a.op in ('addr', 'null', 'str') or b.op in ('addr', 'null', 'str'):
        return None
    d = sub(a, b)
    try:
        n, z, p = sign_atoms(_strip(d))
    except RecursionError:
        return None
    if c is p or c is NOT(n):
        return fn('max', (a, b))
    if c is n or c is NOT(p):
        return fn('min', (a, b))
    # (v < lo) ? lo : min(v, hi)   with lo <= hi
    for (k, o, flip) in ((a, b, False), (b, a, True)):
        if o.op in ('min', 'max'):
            for v, h in ((o.args[0], o.args[1]), (o.args[1], o.args[0])):
                d2 = _strip(sub(v, k))
                if d2.fp == 0:
                    continue
                n2, z2, p2 = sign_atoms(d2)
                cc = NOT(c) if flip else c
                if o.op == 'min' and (cc is n2 or cc is NOT(p2)):
                    if interval(k)[1] <= interval(h)[0] or not (isconst(k) and isconst(h)):
                        return fn('max', (k, o))
                if o.op == 'max' and (cc is p2 or cc is NOT(n2)):
                    if interval(k)[0] >= interval(h)[1] or not (isconst(k) and isconst(h)):
                        return fn('min', (k, o))
    return None


# ---- printing
def show(e, d=0):
    if d > 6:
        return '..'
    o = e.op
    if o == 'const':
        if isinstance(e.aux, Fraction):
            return str(e.aux.numerator) if e.aux.denominator == 1 else '%g' % float(e.aux)
        return str(e.aux)
    if o == 'sym':
        return e.aux
    if o == 'pi':
        return 'pi'
    if o == 'phi':
        return 'phi{' + showdd(e.aux, d + 1) + '}'
    if o in ('add', 'sub', 'mul', 'div'):
        return '(' + show(e.args[0], d + 1) + {'add': ' + ', 'sub': ' - ', 'mul': '*', 'div': '/'}[o] + show(e.args[1], d + 1) + ')'
    if o == 'neg':
        return '-' + show(e.args[0], d + 1)
    return o + (('<%s>' % (e.aux,)) if e.aux is not None else '') + '(' + ', '.join(show(a, d + 1) for a in e.args) + ')'


def showatom(a):
    if a.kind == 'neg':
        d = a.d
        if d.op == 'sub':
            return f'({show(d.args[0])} < {show(d.args[1])})'
        return f'({show(d)} < 0)'
    if a.kind == 'zero':
        d = a.d
        if d.op == 'sub':
            return f'({show(d.args[0])} == {show(d.args[1])})'
        return f'({show(d)} == 0)'
    if a.kind == 'b':
        return show(a.d)
    return a.key


def showdd(d, depth=0):
    if d.var is None:
        return show(d.e, depth)
    if depth > 8:
        return '...'
    return f'[{showatom(ATOMS[d.var])} ? {showdd(d.hi, depth + 1)} : {showdd(d.lo, depth + 1)}]'


def bool_atom(e):
    """diagram of an uninterpreted boolean expression"""
    if isconst(e):
        return T if e.aux != 0 else F
    return ddnode(atom('b', '%d' % e.fp, e), F, T)


def tobool(d):
    def g(x):
        if x.op == 'sym' or x.op not in ('const',):
            if x.op in ('addr', 'str'):
                return T
            if x.op == 'null':
                return F
            return NOT(cmp_leaf('==', x, ZERO))
        return T if x.fp != 0 else F
    return map1('bool', g, d)


def clear():
    for t in (_intern, _nodes, _dd, _ap, _itec, _con, _atom):
        t.clear()
    ATOMS.clear()


# ---- derivatives
def diff(e, x, memo=None):
    """d e / d x for a symbol x (fp)"""
    if memo is None:
        memo = {}
    r = memo.get(e.fp)
    if r is not None:
        return r
    o = e.op
    if e.fp == x.fp:
        r = ONE
    elif o in ('const', 'pi', 'sym', 'null', 'addr'):
        r = ZERO
    else:
        D = [diff(a, x, memo) for a in e.args]
        if all(q.fp == 0 for q in D) and o != 'phi':
            r = ZERO
        elif o == 'add':
            r = add(D[0], D[1])
        elif o == 'sub':
            r = sub(D[0], D[1])
        elif o == 'neg':
            r = neg(D[0])
        elif o == 'mul':
            r = add(mul(D[0], e.args[1]), mul(e.args[0], D[1]))
        elif o == 'div':
            r = sub(div(D[0], e.args[1]), div(mul(e.args[0], D[1]), mul(e.args[1], e.args[1])))
        elif o == 'sqrt':
            r = div(D[0], mul(const(2), e))
        elif o == 'sin':
            r = mul(fn('cos', e.args), D[0])
        elif o == 'cos':
            r = neg(mul(fn('sin', e.args), D[0]))
        elif o in ('wrap_pi', 'wrap_2pi'):
            r = D[0]
        elif o == 'atan2':
            y, xx = e.args
            r = div(sub(mul(D[0], xx), mul(y, D[1])), add(mul(xx, xx), mul(y, y)))
        elif o == 'atan':
            r = div(D[0], add(ONE, mul(e.args[0], e.args[0])))
        elif o in ('asin', 'acos'):
            r = div(D[0], fn('sqrt', (sub(ONE, mul(e.args[0], e.args[0])),)))
            if o == 'acos':
                r = neg(r)
        else:
            r = fn('d_' + o, e.args + (x,))
    memo[e.fp] = r
    return r


def mentions(e, pred, memo=None):
    """names of symbols in e satisfying pred"""
    out = set()
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.fp in seen:
            continue
        seen.add(x.fp)
        if x.op == 'sym' and pred(x.aux):
            out.add(x.aux)
        elif x.op == 'phi':
            for l in leaves(x.aux):
                st.append(l)
            for v in support(x.aux):
                a = ATOMS[v]
                if isinstance(a.d, Expr):
                    st.append(a.d)
        st += [a for a in x.args if isinstance(a, Expr)]
    return out


def substitute(e, m, memo=None):
    """replace symbols (name -> Expr)"""
    if memo is None:
        memo = {}
    r = memo.get(e.fp)
    if r is not None:
        return r
    o = e.op
    if o == 'sym':
        r = m.get(e.aux, e)
    elif o in ('const', 'pi', 'null', 'addr', 'str', 'phi'):
        r = e
    else:
        A = tuple(substitute(a, m, memo) for a in e.args)
        if all(x is y for x, y in zip(A, e.args)):
            r = e
        elif o == 'add':
            r = add(*A)
        elif o == 'sub':
            r = sub(*A)
        elif o == 'mul':
            r = mul(*A)
        elif o == 'div':
            r = div(*A)
        elif o == 'neg':
            r = neg(*A)
        else:
            r = fn(o, A, e.aux)
    memo[e.fp] = r
    return r
