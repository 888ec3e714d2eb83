"""Forward value-flow analysis of a function (gated SSA over the type-checked syntax tree).

One abstract state per program point; branches fork the state and the join puts gates on the values that differ.  Calls
are followed into their definitions (or, for names in `opaque`, recorded as events and over-approximated by their
mod-set); loops with a bound the analysis can compute are unrolled, the others are summarised by their recurrence with
every location they may write set to an unknown.  Nothing is executed and no path is handed to a solver."""
import re
import time
from .cxx import AnalysisBroken
from .val import *
from . import val as V


class LV:
    __slots__ = ('path', 'type', 'bits', 'union')

    def __init__(self, path, type, bits=None):
        self.path, self.type, self.bits = path, type, bits

    def __repr__(self):
        return f'LV({pname(self.path)}:{self.type})'


class Mat:
    __slots__ = ('r', 'c', 'e', 'k')

    def __init__(self, r, c, e, k='M'):
        self.r, self.c, self.e, self.k = r, c, e, k

    def at(self, i, j=0):
        return self.e[i * self.c + j]

    def __repr__(self):
        return f'Mat{self.r}x{self.c}[' + ', '.join(showdd(x) for x in self.e[:4]) + ']'


class MatLV:
    """matrix lvalue: slice of a matrix location"""
    __slots__ = ('path', 'r0', 'c0', 'r', 'c', 'type')

    def __init__(self, path, r0, c0, r, c, type=''):
        self.path, self.r0, self.c0, self.r, self.c, self.type = path, r0, c0, r, c, type


class Struct:
    __slots__ = ('type', 'd')

    def __init__(self, type, d):
        self.type, self.d = type, d


class Bits:
    """integer known bit by bit (least significant first); width = len"""
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b


class Closure:
    __slots__ = ('body', 'params', 'env', 'this', 'tu', 'ret', 'impl')


def pname(p):
    s = ''
    for i, c in enumerate(p):
        if isinstance(c, tuple):
            if c[0] == 'L':
                s += f'${c[1]}'
            elif c[0] == 'deref':
                s += f'*{c[2]}'
            elif c[0] == 'idx':
                s += f'[{c[2]}]'
            elif c[0] == 'arg':
                s += f'arg{c[1]}'
            elif len(c) == 2 and isinstance(c[0], int):
                s += f'[{c[0]}]' if c[1] == 0 else f'[{c[0]},{c[1]}]'
            else:
                s += str(c)
        elif isinstance(c, int):
            s += f'[{c}]'
        else:
            s += ('.' if s else '') + c
    return s


class Event:
    __slots__ = ('kind', 'name', 'pc', 'data', 'line', 'file', 'fn', 'stack', 'state', 'n')

    def __repr__(self):
        return f'<{self.kind} {self.name} line {self.line} if {self.pc}>'


class PC:
    """path condition in factored form: a conjunction of diagrams"""
    __slots__ = ('c', '_b', '_s')

    def __init__(self, c=()):
        self.c, self._b, self._s = c, None, None

    @property
    def false(self):
        return self.c is None

    def sup(self):
        if self._s is None:
            self._s = frozenset().union(*[support(g) for g in self.c]) if self.c else frozenset()
        return self._s

    def simp(self, x):
        if self.c is None or x.var is None:
            return x
        s = support(x)
        if not (s & self.sup()):
            return x
        for g in self.c:
            if s & support(g):
                x = constrain(x, g)
                if x.var is None:
                    return x
                s = support(x)
        return x

    def and_(self, x):
        if self.c is None:
            return self
        x = self.simp(x)
        if x is T:
            return self
        if x is F:
            return DEAD
        # split conjunctions of literals
        out = []
        while x.var is not None:
            if x.lo is F:
                out.append(ddnode(x.var, F, T))
                x = x.hi
            elif x.hi is F:
                out.append(ddnode(x.var, T, F))
                x = x.lo
            else:
                out.append(x)
                break
        r = PC(self.c + tuple(out))
        if out and any(ddsize(o) > 3 or True for o in out):
            # re-simplify older factors that share atoms with the new literals
            ns = frozenset().union(*[support(o) for o in out])
            if any(support(g) & ns for g in self.c):
                old = list(self.c)
                changed = False
                for i, g in enumerate(old):
                    if support(g) & ns:
                        h = g
                        for o in out:
                            if support(h) & support(o):
                                h = constrain(h, o)
                        if h is not g:
                            old[i] = h
                            changed = True
                if any(h is F for h in old):
                    return DEAD
                if changed:
                    r = PC(tuple(h for h in old if h is not T) + tuple(out))
        return r

    def or_(self, o):
        """(disjunction, guard that selects self)"""
        if self.c is None:
            return o, F
        if o.c is None:
            return self, T
        if self is o:
            return self, T
        sa, sb = set(g.id for g in self.c), set(g.id for g in o.c)
        com = tuple(g for g in self.c if g.id in sb)
        ra, rb = T, T
        for g in self.c:
            if g.id not in sb:
                ra = AND(ra, g)
        for g in o.c:
            if g.id not in sa:
                rb = AND(rb, g)
        d = OR(ra, rb)
        g = constrain(ra, d)
        base = PC(com)
        g = base.simp(g)
        return base.and_(d), g

    def bdd(self):
        if self._b is None:
            if self.c is None:
                self._b = F
            else:
                r = T
                for g in sorted(self.c, key=lambda q: -q.var):
                    r = AND(r, g)
                self._b = r
        return self._b

    def entails(self, x):
        """the condition x holds wherever this path condition does"""
        y = self.simp(x)
        if y is T:
            return True
        if y is F:
            return self.false
        # exact, on the factors connected to x
        s = set(support(y))
        r = T
        todo = list(self.c)
        grown = True
        while grown:
            grown = False
            for g in list(todo):
                if s & support(g):
                    r = AND(r, g)
                    s |= support(g)
                    todo.remove(g)
                    grown = True
        return AND(r, NOT(y)) is F

    def __repr__(self):
        return ' & '.join(showdd(g) for g in self.c) if self.c else ('false' if self.c is None else 'true')


DEAD = PC(None)
TRUE = PC(())


class State:
    # w: paths written since the state was forked; up: (w, up) of the state it was forked from
    __slots__ = ('d', 'pc', 'w', 'dead', 'up')

    def __init__(self):
        self.d, self.pc, self.w, self.dead, self.up = {}, TRUE, set(), False, None

    def written(self):
        """everything written since the function was entered, for states that leave the statements they are in"""
        r, u = set(self.w), self.up
        while u is not None:
            r |= u[0]
            u = u[1]
        return r

    def fork(self, pc):
        s = State()
        s.d = dict(self.d)
        s.pc = pc
        s.w = set()
        s.dead = pc.false
        s.up = (self.w, self.up)
        return s


class Frame:
    def __init__(self, fn, this, tu, uid):
        self.fn, self.this, self.tu, self.uid = fn, this, tu, uid
        self.env = {}
        self.returns = []
        self.loops = []
        self.retlv = False
        self.parent = None


class GLV:
    """lvalue that is one of two, by a condition"""
    __slots__ = ('c', 'hi', 'lo', 'type')

    def __init__(self, c, hi, lo, type):
        self.c, self.hi, self.lo, self.type = c, hi, lo, type


class SplitOn(Exception):
    """the location a statement uses depends on a condition: the statement is analysed once for each outcome"""
    def __init__(self, c):
        Exception.__init__(self)
        self.c = c


class LoopInfo:
    pass


_FORKY = {}


def _magnitude(c, a, b):
    """c ? a : b where that is the magnitude of a"""
    if not (isinstance(a, DD) and isinstance(b, DD) and is_leaf(a) and is_leaf(b) and not isconst(a.e)) or ADD(a, b) is not F:
        return None
    for x, y in ((a, F), (F, a)):
        lt = cmpdd('<', x, y)
        if c is lt or c is NOT(lt):
            return FN('abs', a) if (c is lt) == (x is F) else NEG(FN('abs', a))
    return None


def _forky(n):
    """(locations of this statement may depend on a condition, variables it names)"""
    r = _FORKY.get(id(n))
    if r is None or r[0] is not n:
        refs = set()
        hit = [n.kind in ('ForStmt', 'WhileStmt')]

        def go(m):
            if m is None:
                return
            k = m.kind
            if k.endswith('Stmt') and k != 'DeclStmt' and m is not n:
                return
            if k == 'DeclRefExpr':
                refs.add(m.ref)
            elif k == 'ConditionalOperator':
                hit[0] |= m.vc in ('lvalue', 'xvalue')
            elif k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
                hit[0] |= (k != 'CXXOperatorCallExpr' and m.vc == 'lvalue') or any(c is not None and (c.type or '').strip().endswith('*') and '(' not in c.type and 'char' not in c.type for c in m.inner[1:])
            elif k == 'UnaryOperator':
                hit[0] |= m.op == '*'
            elif k == 'ArraySubscriptExpr':
                hit[0] |= not (m.inner[0].kind == 'ImplicitCastExpr' and m.inner[0].cast == 'ArrayToPointerDecay')
            elif k == 'MemberExpr':
                hit[0] |= bool(m.x) and m.inner[0].kind != 'CXXThisExpr'
            for c in m.inner:
                go(c)
        go(n)
        r = _FORKY[id(n)] = (n, hit[0], refs)
    return r[1], r[2]


def _samelv(a, b):
    if a is b:
        return True
    if isinstance(a, LV) and isinstance(b, LV):
        return a.path == b.path and a.type == b.type and a.bits == b.bits
    if isinstance(a, MatLV) and isinstance(b, MatLV):
        return (a.path, a.r0, a.c0, a.r, a.c) == (b.path, b.r0, b.c0, b.r, b.c)
    if isinstance(a, GLV) and isinstance(b, GLV):
        return a.c is b.c and _samelv(a.hi, b.hi) and _samelv(a.lo, b.lo)
    return False


MATRE = re.compile(r'^(?:const )?(?:class )?matrix::(\w+)<(.*)>(?: const)?\s*&*$')
_shape = {}


def mshape(t):
    """(rows, cols, class) of a matrix type or None"""
    r = _shape.get(t, 0)
    if r != 0:
        return r
    out = None
    m = re.search(r'\bSparseVector(?:24f<|f<24[uUlL]*, )([\d, uUlL]+)>', t)
    if m:
        t0, t = t, f'matrix::SparseVector<float, 24, {m.group(1)}>'
        out = _shape[t0] = mshape(t)
        return out
    m = MATRE.match(t.strip())
    if not m:
        m2 = re.match(r'^(?:const )?matrix::(Vector2f|Vector3f|Quatf|Dcmf|Eulerf|Matrix3f|AxisAnglef|SquareMatrix3f)(?: const)?\s*&*$', t.strip())
        if not m2:
            m2 = re.match(r'^(?:const )?(?:estimator::)?(Vector2f|Vector3f|Quatf|Dcmf|Eulerf|Matrix3f|AxisAnglef|SquareMatrix3f)(?: const)?\s*&*$', t.strip())
        if m2:
            n = m2.group(1)
            out = {'Vector2f': (2, 1, 'Vector2'), 'Vector3f': (3, 1, 'Vector3'), 'Quatf': (4, 1, 'Quaternion'), 'Dcmf': (3, 3, 'Dcm'),
                   'Eulerf': (3, 1, 'Euler'), 'Matrix3f': (3, 3, 'SquareMatrix'), 'AxisAnglef': (3, 1, 'AxisAngle'), 'SquareMatrix3f': (3, 3, 'SquareMatrix')}[n]
    if m:
        n, a = m.group(1), m.group(2)
        args = [x.strip() for x in a.split(',')]

        def num(x):
            x = re.sub(r'[uUlL]+$', '', x)
            return int(x) if x.isdigit() else None
        try:
            if n in ('Matrix',):
                out = (num(args[1]), num(args[2]), n)
            elif n == 'Vector':
                out = (num(args[1]), 1, n)
            elif n == 'SquareMatrix':
                out = (num(args[1]), num(args[1]), n)
            elif n == 'Vector2':
                out = (2, 1, n)
            elif n in ('Vector3', 'Euler', 'AxisAngle'):
                out = (3, 1, n)
            elif n == 'Quaternion':
                out = (4, 1, n)
            elif n == 'Dcm':
                out = (3, 3, n)
            elif n == 'SparseVector':
                out = (num(args[1]), 1, n)
            elif n == 'Slice':
                out = (num(args[1]), num(args[2]), n)
            if out and (out[0] is None or out[1] is None):
                out = None
        except (IndexError, TypeError):
            out = None
    _shape[t] = out
    return out


def sparse_idx(t, mang):
    """populated indices of a sparse vector, from its type or the mangled name of a member"""
    m = re.search(r'\bSparseVector(?:24f<|f<24[uUlL]*, |<float, 24[uUlL]*, )([\d, uUlL]+)>', t or '')
    if m:
        return [int(x) for x in re.findall(r'\d+', m.group(1))]
    m = re.search(r'SparseVectorIfLm\d+EJ((?:Lm\d+E)+)E', mang or '')
    if m:
        return [int(x) for x in re.findall(r'Lm(\d+)E', m.group(1))]
    return None


def strip_type(t):
    t = t.strip()
    while True:
        u = t
        for p in ('const ', 'volatile ', 'struct ', 'class ', 'union '):
            if t.startswith(p):
                t = t[len(p):]
        for p in (' const', '&', '*const'):
            if t.endswith(p) and p != '*const':
                t = t[:-len(p)].strip()
        if t == u:
            return t


FLOATS = {'float', 'double', 'long double'}
INTW = {'bool': 1, 'char': 8, 'signed char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'int': 32, 'unsigned int': 32, 'long': 64, 'unsigned long': 64,
        'long long': 64, 'unsigned long long': 64, 'uint8_t': 8, 'int8_t': 8, 'uint16_t': 16, 'int16_t': 16, 'uint32_t': 32, 'int32_t': 32, 'uint64_t': 64,
        'int64_t': 64, 'size_t': 64, 'unsigned': 32}


UNSIGNED = {k: (0.0, float((1 << w) - 1)) for k, w in INTW.items() if k.startswith(('u', 'size')) and 'bool' not in k}


def is_scalar(t):
    t = strip_type(t)
    return t in FLOATS or t in INTW or t.endswith('*')


class Budget(Exception):
    pass


class Flow:
    SYMMAT = {('this', 'P')}

    def __init__(self, prog, opaque=(), hooks=None, maxdepth=40, budget=400000, dyn='Ekf', inline=None, assume=None, nomod=(), until=None):
        self.prog = prog
        self.opaque = set(opaque)
        self.hooks = hooks or {}
        self.maxdepth = maxdepth
        self.budget = budget
        self.until = until
        self.dyn = dyn
        self.inline = inline
        self.events = []
        self.loops = []
        self.frames = []
        self.uid = 0
        self.callno = {}
        self.nloop = {}
        self.steps = 0
        self.dry = 0
        self.fields_cache = {}
        self.assume = assume or {}
        self.nomod = set(nomod)
        self.visited = set()
        self.unset = {}
        self.symtypes = {}
        self.heapn = 0

    # ------------------------------------------------------------ entry
    def run(self, fn, this=('this',), args=None, state=None, pc=TRUE):
        """Analyse fn with symbolic entry state; returns the joined exit state (None if it never returns) and value."""
        S = state or State()
        S.pc = pc
        fr = self._frame(fn, this)
        for i, (pid, pn, pt, dflt) in enumerate(fn.params):
            path = (('arg', i),)
            if args and i in args:
                v = args[i]
                if isinstance(v, LV):
                    fr.env[pid] = v
                    continue
                self.store(S, LV(path, strip_type(pt)), v)
            t = pt.strip()
            if t.endswith('*') and not (args and i in args):
                # pointer parameter: points to an object of its own
                fr.env[pid] = LV((('L', ('p', i)),), t)
                S.d[(('L', ('p', i)),)] = leaf(addr(path))
                continue
            fr.env[pid] = LV(path, strip_type(pt) if not t.endswith('*') else t)
        self.fn = fn
        self.entry_frame = fr
        try:
            return self._body(fr, S)
        except SplitOn:
            raise AnalysisBroken(f'conditional location outside of a statement in {fn.qual}')

    def _frame(self, fn, this):
        self.uid += 1
        fr = Frame(fn, this, fn.tu, self.uid)
        return fr

    def _body(self, fr, S):
        self.frames.append(fr)
        self.visited.add(fr.fn.key)
        if len(self.frames) > self.maxdepth:
            raise AnalysisBroken(f'call depth exceeded at {fr.fn.qual}')
        if fr.fn.inits:
            self._ctor_inits(fr, S)
        self.exec(fr.fn.body, S)
        outs = list(fr.returns)
        if not S.dead:
            outs.append((S, None))
        self.frames.pop()
        if not outs:
            S.dead = True
            return S, None
        cur, val = outs[-1]
        for st, v in reversed(outs[:-1]):
            val2 = None
            _, g = st.pc.or_(cur.pc)
            if v is None or val is None:
                val2 = val if v is None else v
            elif fr.fn.ret.endswith('&') and not fr.fn.ret.startswith('const ') and isinstance(v, (LV, MatLV, GLV)) and isinstance(val, (LV, MatLV, GLV)):
                val2 = v if _samelv(v, val) else GLV(g, v, val, '')
            else:
                val2 = self.vite(g, v, val, st, cur)
            cur = self.merge(st, cur)
            val = val2
        if len(self.frames) == 0 or True:
            # drop the callee's locals
            u = fr.uid
            for p in [p for p in cur.d if isinstance(p[0], tuple) and p[0][0] == 'L' and isinstance(p[0][1], tuple) and p[0][1][0] == u]:
                if self.frames:
                    del cur.d[p]
                    cur.w.discard(p)
        return cur, val

    # ------------------------------------------------------------ state
    def merge(self, A, B, g=None, pc=None):
        if A.dead:
            return B
        if B.dead:
            return A
        if g is None:
            pc, g = A.pc.or_(B.pc)
        R = State()
        R.d = dict(B.d)
        R.pc = pc
        R.w = A.w | B.w
        R.up = A.up if A.up is B.up or B.up is None else B.up if A.up is None else (A.written(), B.up)
        for p in R.w:
            if p[-1] == ('#',):
                a, b = A.d.get(p, TAG0), B.d.get(p, TAG0)
            else:
                ina, inb = p in A.d, p in B.d
                if not ina and not inb:
                    R.d.pop(p, None)
                    continue
                if isinstance(p[0], tuple) and p[0][0] == 'L' and not (ina and inb):
                    # local of a scope only one branch entered
                    R.d[p] = A.d[p] if ina else B.d[p]
                    continue
                a = A.d[p] if ina else self.peek(A, p, self.ptype(p, B.d.get(p)))
                b = B.d[p] if inb else self.peek(B, p, self.ptype(p, A.d.get(p)))
            if a is b:
                R.d[p] = a
            else:
                R.d[p] = self.vite(g, a, b, A, B)
        return R

    def ptype(self, p, other):
        t = self.symtypes.get(p)
        if t:
            return t
        return None

    def vite(self, g, a, b, A=None, B=None):
        if a is b:
            return a
        if isinstance(a, DD) and isinstance(b, DD):
            return ITE(g, a, b)
        if isinstance(a, Mat) or isinstance(b, Mat):
            if isinstance(a, (LV, MatLV)):
                a = self.rmat(a, A)
            if isinstance(b, (LV, MatLV)):
                b = self.rmat(b, B)
            return Mat(a.r, a.c, [ITE(g, x, y) for x, y in zip(a.e, b.e)], a.k)
        if isinstance(a, Bits) or isinstance(b, Bits):
            a, b = self.tobits(a), self.tobits(b)
            n = max(len(a.b), len(b.b))
            return Bits([ITE(g, a.b[i] if i < len(a.b) else F, b.b[i] if i < len(b.b) else F) for i in range(n)])
        if isinstance(a, Struct) or isinstance(b, Struct):
            if isinstance(a, LV):
                a = self.rstruct(a, A)
            if isinstance(b, LV):
                b = self.rstruct(b, B)
            d = {}
            for k in set(a.d) | set(b.d):
                if k in a.d and k in b.d:
                    d[k] = ITE(g, a.d[k], b.d[k])
                else:
                    d[k] = a.d.get(k, b.d.get(k))
            return Struct(a.type, d)
        if isinstance(a, LV) and isinstance(b, LV):
            if a.path == b.path:
                return a
            if is_scalar(a.type):
                return ITE(g, self.load(A, a), self.load(B, b))
            # reference to one of two objects: merge as a value
            return self.vite(g, self.rvalue(a, A), self.rvalue(b, B), A, B)
        if a is None or b is None:
            return a if b is None else b
        if isinstance(a, LV):
            return self.vite(g, self.rvalue(a, A), b, A, B)
        if isinstance(b, LV):
            return self.vite(g, a, self.rvalue(b, B), A, B)
        return a

    def tagof(self, S, p):
        for n in range(len(p), 0, -1):
            t = S.d.get(p[:n] + (('#',),))
            if t is not None:
                return t
        return TAG0

    def peek(self, S, p, t=None, bits=None):
        v = S.d.get(p)
        if v is not None:
            return v
        if t is None:
            t = self.symtypes.get(p, '')
        else:
            if bits == 1:
                t = 'bool'
            self.symtypes[p] = t
        r0 = p[0]
        if isinstance(r0, tuple) and r0[0] == 'glob' and len(p) > 1:
            g = self.globconst(r0[1])
            if g is not None and p[1:] in g:
                return g[p[1:]]
        if isinstance(r0, tuple) and r0[0] == 'L' and isinstance(r0[1], tuple) and r0[1][0] != 'p' and self.tagof(S, p) is TAG0:
            self.event('uninit', pname(p), S, p)
            return leaf(symbol('uninit:' + pname(p)))
        isb = strip_type(t) == 'bool' or bits == 1
        tag = self.tagof(S, p)
        q = p
        if len(p) >= 2 and p[:-1] in self.SYMMAT and isinstance(p[-1], tuple) and len(p[-1]) == 2 and isinstance(p[-1][0], int) and p[-1][0] > p[-1][1]:
            q = p[:-1] + ((p[-1][1], p[-1][0]),)
        nm = pname(q)

        def mk1(tg):
            n = nm if tg.aux == 'entry' else nm + '@' + tg.aux
            if isb:
                a = self.assume.get(n)
                if a is not None:
                    return T if a else F
                return bool_atom(symbol(n))
            if strip_type(t).endswith('*'):
                return leaf(symbol(n))
            a = self.assume.get(n)
            if a is not None:
                return lc(a)
            r = UNSIGNED.get(strip_type(t))
            if r is not None and n not in V.TYPE_IV:
                V.TYPE_IV[n] = r
            (V.INTS if strip_type(t) in INTW else V.NOTINT).add(n)
            return leaf(symbol(n))
        if tag.var is None:
            return mk1(tag.e)
        return self._tagmap(tag, mk1)

    def globconst(self, q):
        """elements of a constant global array or aggregate"""
        c = self.prog.__dict__.setdefault('globc', {})
        if q in c:
            return c[q]
        c[q] = None
        node, tu = self.prog.globals.get(q, (None, None))
        if node is None or 'const' not in node.type:
            return None
        init = [z for z in node.inner if z is not None and z.kind in ('InitListExpr', 'CXXConstructExpr', 'ExprWithCleanups')]
        if not init or is_scalar(strip_type(node.type)):
            return None
        fr = Frame(self.frames[-1].fn if self.frames else self.fn, ('this',), tu, -1)
        S = State()
        self.frames.append(fr)
        try:
            v = self.rvalue(self.eval(init[-1], S), S)
        finally:
            self.frames.pop()
        d = None
        if isinstance(v, Struct):
            d = dict(v.d)
        elif isinstance(v, Mat):
            d = {((i, j),): v.e[i * v.c + j] for i in range(v.r) for j in range(v.c)}
        c[q] = d
        return d

    def _tagmap(self, d, f):
        if d.var is None:
            return f(d.e)
        return ITE(ddnode(d.var, F, T), self._tagmap(d.hi, f), self._tagmap(d.lo, f))

    def load(self, S, lv):
        if isinstance(lv, DD):
            return lv
        if isinstance(lv, (Mat, Struct, Bits)):
            return lv
        p = lv.path
        if self.isunionval(p):
            return self.unionload(S, p)
        if p in self.unset and p in S.d:
            self._unset(S, p)
        return self.peek(S, p, lv.type, lv.bits)

    def _unset(self, S, p):
        v = S.d[p]
        if not isinstance(v, DD):
            return
        nm = 'uninit:' + self.unset[p]
        v = S.pc.simp(v)
        if v.var is None:
            hit = v.e.op == 'sym' and v.e.aux == nm
        elif any(e.op == 'sym' and e.aux == nm for e in leaves(v)):
            hit = True
        else:
            hit = any(ATOMS[a].kind == 'b' and ATOMS[a].d.op == 'sym' and ATOMS[a].d.aux == nm for a in support(v))
        if hit:
            e = self.event('uninit', self.unset[p], S, p)
            if e is not None:
                e.state = v

    def setp(self, S, p, v):
        S.d[p] = v
        S.w.add(p)

    def havoc(self, S, prefix, tag):
        n = len(prefix)
        for p in [p for p in S.d if p[:n] == prefix]:
            del S.d[p]
            S.w.add(p)
        self.setp(S, prefix + (('#',),), leaf(mk('tag', (), h61('tag:' + tag), tag)))

    # unions with a bit-field view
    def isunionval(self, p):
        return len(p) > 1 and p[-1] == 'value' and self.uinfo(p[:-1]) is not None

    _uc = {}

    def uinfo(self, p):
        """layout of the union at path p: list of (flag name, bit offset), width of value"""
        t = self.ptypes.get(p)
        if t is None:
            return None
        return self.union_layout(t)

    ptypes = {}

    def union_layout(self, t):
        k = strip_type(t)
        if k in self.prog.unions:
            return self.prog.unions[k]
        r = None
        c = self.prog.cls(k)
        if c is not None and c.tag == 'union':
            val = [f for f in c.fields if f.name == 'value']
            fl = [f for f in c.fields if f.name == 'flags']
            if val and fl:
                s = self.prog.cls(fl[0].type)
                if s is not None:
                    off, lay = 0, []
                    for f in s.fields:
                        lay.append((f.name, off, f.bits or 8))
                        off += f.bits or 8
                    r = (lay, INTW.get(strip_type(val[0].type), 32), off)
        self.prog.unions[k] = r
        return r

    def unionload(self, S, p):
        lay, w, tot = self.uinfo(p[:-1])
        b = [F] * w
        for n, off, bits in lay:
            if off < w and bits == 1:
                b[off] = self.peek(S, p[:-1] + ('flags', n), 'bool', 1)
        return Bits(b)

    def unionstore(self, S, p, v):
        lay, w, tot = self.uinfo(p[:-1])
        b = self.tobits(v, w)
        for n, off, bits in lay:
            if off < w and bits == 1:
                self.setp(S, p[:-1] + ('flags', n), b.b[off] if off < len(b.b) else F)

    def tobits(self, v, w=32):
        if isinstance(v, Bits):
            return v
        if isinstance(v, DD):
            if v.var is None and isconst(v.e):
                n = int(v.e.aux)
                return Bits([T if (n >> i) & 1 else F for i in range(w)])
            ls = leaves(v)
            if all(isconst(l) for l in ls):
                return Bits([map1('bit%d' % i, lambda x, i=i: T if (int(x.aux) >> i) & 1 else F, v) for i in range(w)])
            return Bits([map1('bit%d' % i, lambda x, i=i: bool_atom(fn('bit', (x, const(i)))), v) for i in range(w)])
        raise AnalysisBroken('tobits')

    def frombits(self, v):
        if not isinstance(v, Bits):
            return v
        if all(b.var is None for b in v.b):
            return lc(sum((1 << i) for i, b in enumerate(v.b) if b is T))
        nz = [(i, b) for i, b in enumerate(v.b) if b is not F]
        if len(nz) == 1:
            return ITE(nz[0][1], lc(1 << nz[0][0]), lc(0))
        return leaf(mk('bits', (), h61('bits:' + ','.join('%d:%d' % (i, ddfp(b)) for i, b in nz)), v))

    def num(self, v):
        if isinstance(v, Bits):
            return self.frombits(v)
        if isinstance(v, DD):
            return v
        if isinstance(v, Mat) and v.r * v.c == 1:
            return v.e[0]
        raise AnalysisBroken(f'scalar expected, got {v!r}')

    def bool(self, v):
        if isinstance(v, Bits):
            r = F
            for b in v.b:
                r = OR(r, b)
            return r
        return tobool(self.num(v))

    def store(self, S, lv, v):
        if isinstance(lv, GLV):
            v = self.rvalue(v, S)
            self.branch(S, lv.c, lambda s: self.store(s, lv.hi, v), lambda s: self.store(s, lv.lo, v))
            return
        if isinstance(lv, MatLV):
            return self.mstore(S, lv, v)
        p = lv.path
        if self.isunionval(p):
            return self.unionstore(S, p, v)
        sh = mshape(lv.type)
        if sh:
            return self.mstore(S, lv, v)
        if isinstance(v, Struct):
            ty = None
            for k, x in v.d.items():
                if p + k not in self.symtypes and isinstance(x, DD):
                    if ty is None:
                        ty = {q: t for q, t, b in self.struct_leaves(v.type)} if self.prog.cls(v.type) else {}
                    if ty.get(k):
                        self.symtypes[p + k] = ty[k]
                self.setp(S, p + k, x)
            return
        if isinstance(v, Closure):
            S.d[p] = v
            S.w.add(p)
            return
        if isinstance(v, LV) and not is_scalar(lv.type):
            v = self.rstruct(v, S)
            for k, x in v.d.items():
                self.setp(S, p + k, x)
            return
        if isinstance(v, Bits):
            v = self.frombits(v)
        if v is None:
            v = leaf(symbol('void'))
        if isinstance(v, Mat):
            v = v.e[0]
        if lv.bits == 1 or strip_type(lv.type) == 'bool':
            v = tobool(v)
        self.symtypes.setdefault(p, lv.type if lv.bits != 1 else 'bool')
        if any(isinstance(c, tuple) and c and c[0] == 'idx' for c in p):
            i = next(i for i, c in enumerate(p) if isinstance(c, tuple) and c and c[0] == 'idx')
            # a write through an unknown index: every other element becomes unknown
            pre = p[:i]
            keep = {q: x for q, x in S.d.items() if q[:i + 1] == p[:i + 1]}
            self.ntag = getattr(self, 'ntag', 0)
            self.havoc(S, pre, f'w{len(pre)}:{p[i][1]}')
            for q, x in keep.items():
                self.setp(S, q, x)
            self.event('idxwrite', pname(p), S, (p, v))
        self.setp(S, p, v)

    # matrices
    def mpath(self, lv, i, j):
        if isinstance(lv, MatLV):
            return lv.path + ((lv.r0 + i, lv.c0 + j),)
        return lv.path + ((i, j),)

    def rmat(self, v, S):
        if isinstance(v, Mat):
            return v
        if isinstance(v, MatLV):
            return Mat(v.r, v.c, [self.peek(S, v.path + ((v.r0 + i, v.c0 + j),), 'float') for i in range(v.r) for j in range(v.c)])
        if isinstance(v, LV):
            sh = mshape(v.type)
            if sh is None:
                raise AnalysisBroken(f'not a matrix: {v}')
            return Mat(sh[0], sh[1], [self.peek(S, v.path + ((i, j),), 'float') for i in range(sh[0]) for j in range(sh[1])], sh[2])
        if isinstance(v, DD):
            return Mat(1, 1, [v])
        raise AnalysisBroken(f'matrix expected, got {v!r}')

    def mstore(self, S, lv, v):
        r, c = (lv.r, lv.c) if isinstance(lv, MatLV) else mshape(lv.type)[:2]
        if isinstance(v, DD):
            for i in range(r):
                for j in range(c):
                    self.setp(S, self.mpath(lv, i, j), v)
            return
        m = self.rmat(v, S)
        if (m.r, m.c) == (r, c):
            for i in range(r):
                for j in range(c):
                    self.setp(S, self.mpath(lv, i, j), m.at(i, j))
        elif m.r * m.c == r * c:
            k = 0
            for i in range(r):
                for j in range(c):
                    self.setp(S, self.mpath(lv, i, j), m.e[k])
                    k += 1
        else:
            raise AnalysisBroken(f'matrix shape {m.r}x{m.c} -> {r}x{c}')

    def struct_leaves(self, t):
        """[(subpath, type, bits)] of a class type"""
        k = strip_type(t)
        r = self.fields_cache.get(k)
        if r is not None:
            return r
        out = []
        m = re.match(r'^(.*?)\s*((?:\[\d+\])+)$', k)
        sh = mshape(k)
        if sh:
            out = [(((i, j),), 'float', None) for i in range(sh[0]) for j in range(sh[1])]
        elif m:
            dims = [int(x) for x in re.findall(r'\[(\d+)\]', m.group(2))]
            sub = self.struct_leaves(m.group(1) + ''.join(f'[{d}]' for d in dims[1:]))
            for i in range(min(dims[0], 128)):
                out += [((i,) + p, tt, b) for p, tt, b in sub]
        elif is_scalar(k):
            out = [((), k, None)]
        else:
            c = self.prog.cls(k)
            if c is None:
                out = [((), k, None)]
            else:
                u = self.union_layout(k)
                if u:
                    out = [(('flags', n), 'bool', 1) for n, o, b in u[0]]
                else:
                    for b in c.bases:
                        out += self.struct_leaves(b)
                    for f in c.fields:
                        if f.bits == 1:
                            out.append(((f.name,), 'bool', 1))
                        else:
                            out += [((f.name,) + p, tt, b) for p, tt, b in self.struct_leaves(f.type)]
        self.fields_cache[k] = out
        return out

    def rstruct(self, v, S):
        if isinstance(v, Struct):
            return v
        if isinstance(v, LV):
            return Struct(strip_type(v.type), {p: self.peek(S, v.path + p, t, b) for p, t, b in self.struct_leaves(v.type)})
        raise AnalysisBroken(f'struct expected, got {v!r}')

    def rvalue(self, v, S):
        if isinstance(v, LV):
            if mshape(v.type):
                return self.rmat(v, S)
            if is_scalar(v.type) or self.isunionval(v.path):
                return self.load(S, v)
            if self.prog.cls(v.type) or '[' in v.type:
                return self.rstruct(v, S)
            return self.load(S, v)
        if isinstance(v, MatLV):
            return self.rmat(v, S)
        if isinstance(v, GLV):
            return self.vite(v.c, self.rvalue(v.hi, S), self.rvalue(v.lo, S), S, S)
        return v

    def tmp(self, S, v, t):
        """materialise a value in a temporary"""
        self.uid += 1
        lv = LV((('L', (self.frames[-1].uid, 't%d' % self.uid)),), strip_type(t))
        self.regtype(lv.path, lv.type)
        self.store(S, lv, self.rvalue(v, S) if isinstance(v, GLV) else v)
        return lv

    def regtype(self, p, t):
        k = strip_type(t)
        if self.union_layout(k):
            self.ptypes[p] = k

    # ------------------------------------------------------------ events
    def event(self, kind, name, S, data=None, node=None):
        if self.dry:
            return None
        e = Event()
        e.kind, e.name, e.pc, e.data = kind, name, S.pc, data
        n = node or getattr(self, 'cur', None)
        e.line, e.file = (n.line, n.file) if n is not None else (None, None)
        e.fn = self.frames[-1].fn.qual if self.frames else ''
        e.stack = tuple(f.fn.qual for f in self.frames)
        e.state = None
        e.n = len(self.events)
        self.events.append(e)
        return e

    # ------------------------------------------------------------ statements
    def exec(self, n, S):
        if n is None or S.dead:
            return
        self.steps += 1
        if self.steps > self.budget:
            raise AnalysisBroken(f'analysis budget exhausted in {self.fn.qual}')
        if n.kind == 'CompoundStmt':
            return self._exec(n, S)
        forky, refs = _forky(n)
        fr = self.frames[-1]
        if not forky and not any(isinstance(fr.env.get(i), GLV) for i in refs) and not getattr(fr, 'lambda_', False):
            return self._exec(n, S)
        keep = (dict(S.d), S.pc, set(S.w), S.up, len(self.frames), dict(fr.env), len(self.events), len(self.loops), dict(self.callno), dict(self.nloop),
                len(fr.returns), len(fr.loops), [(lo, list(lo['brk']), list(lo.get('cont', ()))) for lo in fr.loops], self.dry, self.heapn)
        try:
            return self._exec(n, S)
        except SplitOn as e:
            c = e.c
        S.d, S.pc, S.w, S.up, S.dead = keep[0], keep[1], keep[2], keep[3], False
        del self.frames[keep[4]:]
        env = keep[5]
        fr.env = dict(env)
        del self.events[keep[6]:]
        del self.loops[keep[7]:]
        self.callno, self.nloop = keep[8], keep[9]
        del fr.returns[keep[10]:]
        del fr.loops[keep[11]:]
        for lo, b, co in keep[12]:
            lo['brk'] = b
            if 'cont' in lo:
                lo['cont'] = co
        self.dry, self.heapn = keep[13], keep[14]
        c = S.pc.simp(c)
        if c is T or c is F:
            raise AnalysisBroken(f'location not resolved at {n.file}:{n.line}')
        envs = {}

        def side(which):
            def go(s):
                fr.env = dict(env)
                self.exec(n, s)
                envs[which] = fr.env
            return go
        self.branch(S, c, side(1), side(0))
        if len(envs) == 1:
            fr.env = list(envs.values())[0]
            return
        a, b = envs[1], envs[0]
        out = dict(a)
        for i, v in b.items():
            if i not in a:
                out[i] = v
            elif not _samelv(a[i], v):
                out[i] = GLV(c, a[i], v, getattr(a[i], 'type', ''))
        fr.env = out

    def _one(self, v, S):
        """the location a conditional reference stands for here"""
        while isinstance(v, GLV):
            c = S.pc.simp(v.c)
            if c is not T and c is not F:
                raise SplitOn(ddnode(c.var, T, F))
            v = v.hi if c is T else v.lo
        return v

    def _read(self, n, S):
        """expression of which the value is wanted: no need to know which location it comes from"""
        m = n
        while m.kind in ('ParenExpr', 'ExprWithCleanups') or m.kind == 'ImplicitCastExpr' and m.cast == 'NoOp':
            m = m.inner[0]
        return self._cond(m, S, True) if m.kind == 'ConditionalOperator' else self.eval(n, S)

    def _start(self, cond, S):
        """a loop of which the first index is chosen by a condition from a few constants is walked for each of them"""
        for i in sorted(_forky(cond)[1]) if cond is not None else ():
            lv = self.frames[-1].env.get(i)
            v = self.rvalue(lv, S) if isinstance(lv, LV) and is_scalar(lv.type) else None
            if not isinstance(v, DD) or v.var is None:
                continue
            l = leaves(v)
            if 1 < len(l) <= 4 and all(isconst(x) for x in l):
                c = S.pc.simp(ddnode(v.var, T, F))
                if c is not T and c is not F:
                    raise SplitOn(ddnode(v.var, T, F))

    def _exec(self, n, S):
        k = n.kind
        if k == 'CompoundStmt':
            for c in n.inner:
                if S.dead:
                    break
                self.exec(c, S)
        elif k == 'IfStmt':
            self._if(n, S)
        elif k == 'DeclStmt':
            for c in n.inner:
                if c is not None and c.kind == 'VarDecl':
                    self._vardecl(c, S)
        elif k == 'ReturnStmt':
            v = None
            fr = self.frames[-1]
            if n.inner and n.inner[0] is not None:
                self.cur = n
                v = self._read(n.inner[0], S) if fr.fn.ret.startswith('const ') else self.eval(n.inner[0], S)
                if not fr.fn.ret.endswith('&') and not fr.fn.ret == 'auto':
                    v = self.rvalue(v, S)
                elif isinstance(v, LV) and is_scalar(v.type) and not fr.fn.ret.endswith('&'):
                    v = self.rvalue(v, S)
            R = State()
            R.d, R.pc, R.w = S.d, S.pc, S.written()
            fr.returns.append((R, v))
            S.d = {}
            S.dead = True
        elif k == 'ForStmt':
            ini, cv, cond, inc, body = (n.inner + [None] * 5)[:5]
            if ini is not None:
                self.exec(ini, S) if ini.kind.endswith('Stmt') else self.eval(ini, S)
                self._start(cond, S)
            self._loop(n, S, cond, inc, body, False)
        elif k == 'WhileStmt':
            self._start(n.inner[0], S)
            self._loop(n, S, n.inner[0], None, n.inner[-1], False)
        elif k == 'DoStmt':
            self._loop(n, S, n.inner[1], None, n.inner[0], True)
        elif k == 'CXXForRangeStmt':
            self._rangefor(n, S)
        elif k == 'BreakStmt':
            self.frames[-1].loops[-1]['brk'].append(self._move(S))
        elif k == 'ContinueStmt':
            i = len(self.frames[-1].loops) - 1
            while self.frames[-1].loops[i].get('switch'):
                i -= 1
            self.frames[-1].loops[i]['cont'].append(self._move(S))
        elif k == 'SwitchStmt':
            self._switch(n, S)
        elif k in ('NullStmt',):
            pass
        elif k in ('CaseStmt', 'DefaultStmt'):
            self.exec(n.inner[-1], S)
        elif k == 'AttributedStmt':
            self.exec(n.inner[-1], S)
        elif k == 'LabelStmt':
            self.exec(n.inner[-1], S)
        elif k in ('GotoStmt', 'CXXTryStmt'):
            raise AnalysisBroken(f'{k} not supported at {n.file}:{n.line}')
        else:
            self.cur = n
            self.eval(n, S)

    def _move(self, S):
        R = State()
        R.d, R.pc, R.w = S.d, S.pc, S.written()
        S.d = {}
        S.dead = True
        return R

    def _assign_state(self, S, R):
        S.d, S.pc, S.dead = R.d, R.pc, R.dead
        S.w = R.w

    def _if(self, n, S):
        inner = list(n.inner)
        has_else, has_init, has_var = n.x
        if has_init:
            self.exec(inner.pop(0), S)
        if has_var:
            self.exec(inner.pop(0), S)
        self.cur = inner[0]
        c = self.bool(self.eval(inner[0], S))
        if S.dead:
            return
        self.branch(S, c, lambda s: self.exec(inner[1], s), (lambda s: self.exec(inner[2], s)) if has_else and len(inner) > 2 else None)

    def branch(self, S, c, then, els=None):
        c = S.pc.simp(c)
        if c is T:
            then(S)
            return
        if c is F:
            if els:
                els(S)
            return
        w0 = S.w
        pa, pb = S.pc.and_(c), S.pc.and_(NOT(c))
        A = S.fork(pa)
        B = S.fork(pb)
        if not A.dead:
            then(A)
        if els and not B.dead:
            els(B)
        if A.dead and B.dead:
            S.d = {}
            S.dead = True
            return
        if A.pc is pa and B.pc is pb and not A.dead and not B.dead:
            R = self.merge(A, B, c, S.pc)
        else:
            R = self.merge(A, B)
        S.d, S.pc, S.dead = R.d, R.pc, False
        S.w = w0 | R.w

    def _vardecl(self, n, S):
        fr = self.frames[-1]
        t = n.type
        self.cur = n
        init = [c for c in n.inner if c is not None and not c.kind.endswith('Attr') and not c.kind.endswith('Comment')]
        init = init[-1] if init and n.x and n.x.get('init') else None
        if n.x and n.x.get('static') == 'static':
            # function-local static: a location of its own; a constant one keeps its initialiser
            lv = LV((('L', ('s', n.name)),), strip_type(t))
            fr.env[n.id] = lv
            if init is not None and ('const' in t or 'constexpr' in t):
                v = self.eval(init, S)
                self.store(S, lv, self.rvalue(v, S))
            return
        if t.strip().endswith('&'):
            v = self._one(self.eval(init, S), S)
            if isinstance(v, (LV, MatLV)):
                fr.env[n.id] = v
            else:
                path = (('L', (fr.uid, n.id)),)
                lv = LV(path, strip_type(t))
                self.regtype(path, lv.type)
                for p in [p for p in S.d if p[0] == path[0]]:
                    del S.d[p]
                self.store(S, lv, v)
                fr.env[n.id] = lv
            return
        path = (('L', (fr.uid, n.id)),)
        st = strip_type(t)
        lv = LV(path, st)
        self.regtype(path, st)
        fr.env[n.id] = lv
        for p in [p for p in S.d if p[0] == path[0]]:
            del S.d[p]
        if init is None:
            if mshape(st):
                self.mstore(S, lv, self.default_mat(st))
            elif is_scalar(st) and not st.endswith('*') and not self.dry:
                # no value yet: a branch that assigns one leaves the other without
                u = leaf(symbol('uninit:' + n.name))
                self.setp(S, path, bool_atom(u.e) if st == 'bool' else u)
                self.unset[path] = n.name
            return
        v = self.eval(init, S)
        if isinstance(v, (LV, MatLV)):
            v = self.rvalue(v, S)
        if v is None:
            return
        self.store(S, lv, v)
        if isinstance(v, Struct):
            pass

    def default_mat(self, t):
        sh = mshape(t)
        z = [F] * (sh[0] * sh[1])
        if sh[2] == 'Quaternion':
            z[0] = T
        if sh[2] == 'Dcm':
            z = [T, F, F, F, T, F, F, F, T]
        return Mat(sh[0], sh[1], z, sh[2])

    def _rangefor(self, n, S):
        # inner: [init?, range decl, begin decl, end decl, cond, inc, loop var decl, body]
        decls = [c for c in n.inner if c is not None and c.kind == 'DeclStmt']
        body = n.inner[-1]
        rng = decls[0].inner[0]
        rinit = [c for c in rng.inner if c is not None][-1]
        base = self.eval(rinit, S)
        if isinstance(base, Struct) and '[' in base.type:
            path = (('L', (self.frames[-1].uid, rng.id)),)
            self.store(S, LV(path, base.type), base)
            base = LV(path, base.type)
        var = decls[-1].inner[0]
        fr = self.frames[-1]
        lo = {'brk': [], 'cont': []}
        m = re.search(r'\[(\d+)\]$', strip_type(base.type)) if isinstance(base, LV) else None
        if not m:
            raise AnalysisBroken(f'range-for over {base!r} at {n.file}:{n.line}')
        cnt = int(m.group(1))
        et = strip_type(base.type)
        et = re.sub(r'\s*\[\d+\]', '', et, count=1)
        fr.loops.append(lo)
        for i in range(cnt):
            if S.dead:
                break
            lv = self.elem(base, i, et)
            if var.type.strip().endswith('&'):
                fr.env[var.id] = lv
            else:
                v = self.rvalue(lv, S)
                path = (('L', (fr.uid, var.id)),)
                fr.env[var.id] = LV(path, strip_type(var.type))
                self.store(S, fr.env[var.id], v)
            self.exec(body, S)
            self._join(S, lo['cont'])
            lo['cont'] = []
        fr.loops.pop()
        self._join(S, lo['brk'])

    def elem(self, base, i, et):
        return LV(base.path + (i,), et)

    def _join(self, S, others):
        for o in others:
            if S.dead:
                w = S.w
                self._assign_state(S, o)
                S.dead = False
                S.w = w | o.w
            else:
                w = S.w
                R = self.merge(o, S)
                S.d, S.pc, S.dead = R.d, R.pc, False
                S.w = w | R.w

    MAXIT = 1200
    MAXSYM = 8

    def _loop(self, n, S, cond, inc, body, isdo):
        fr = self.frames[-1]
        lo = {'brk': [], 'cont': []}
        entry = S.fork(S.pc)
        entry.w = set(S.w)
        ev0, ret0 = len(self.events), len(fr.returns)
        nl0 = len(self.loops)
        cn0 = dict(self.callno)
        exits = []
        it = nsym = 0
        first = isdo
        cur = S.fork(S.pc)
        fr.loops.append(lo)
        ok = True
        while not cur.dead:
            if not first:
                if cond is not None:
                    self.cur = cond
                    c = cur.pc.simp(self.bool(self.eval(cond, cur)))
                else:
                    c = T
                if c is F:
                    break
                if c is not T:
                    nsym += 1
                    if nsym > self.MAXSYM or ddsize(c) > 40:
                        ok = False
                        break
                    e = cur.fork(cur.pc.and_(NOT(c)))
                    e.w = set(cur.w)
                    if not e.dead:
                        exits.append(e)
                    cur.pc = cur.pc.and_(c)
                    if cur.pc.false:
                        cur.dead = True
                        break
            first = False
            self.exec(body, cur)
            self._join(cur, lo['cont'])
            lo['cont'] = []
            if inc is not None and not cur.dead:
                self.eval(inc, cur)
            it += 1
            if it > self.MAXIT:
                ok = False
                break
        fr.loops.pop()
        if ok:
            outs = exits + lo['brk'] + ([cur] if not cur.dead else [])
            if not outs:
                S.d = {}
                S.dead = True
                return
            R = outs[-1]
            for o in reversed(outs[:-1]):
                R = self.merge(o, R)
            w = S.w
            S.d, S.pc, S.dead = R.d, R.pc, False
            S.w = w | R.w
            return
        # summarise
        del self.events[ev0:]
        del fr.returns[ret0:]
        del self.loops[nl0:]
        self.callno = cn0
        self._symloop(n, S, entry, cond, inc, body, isdo)

    def _symloop(self, n, S, entry, cond, inc, body, isdo):
        fr = self.frames[-1]
        key = fr.fn.qual
        idx = self.nloop.get(key, 0)
        self.nloop[key] = idx + 1
        lid = f'{fr.fn.name}#{idx}'
        M = set()
        inner_prefix = set()

        def outer(p):
            r = p[0]
            if isinstance(r, tuple) and r[0] == 'L':
                return p in entry.d or any(q[0] == r for q in entry.d) or (r in known)
            return True
        known = {v.path[0] for v in fr.env.values() if isinstance(v, (LV, MatLV))}

        def norm(p):
            for i, c in enumerate(p):
                if isinstance(c, tuple) and c and c[0] == 'idx':
                    return p[:i]
            if p[-1] == ('#',):
                return p[:-1]
            return p

        def once(tag, dry):
            st = entry.fork(entry.pc)
            for m in sorted(M, key=repr):
                self.havoc(st, m, tag)
            st.w, st.up = set(), None
            lo = {'brk': [], 'cont': []}
            fr.loops.append(lo)
            r0 = len(fr.returns)
            if dry:
                self.dry += 1
            try:
                c = T
                if cond is not None and not isdo:
                    c = st.pc.simp(self.bool(self.eval(cond, st)))
                pre = st.fork(st.pc)
                st.pc = st.pc.and_(c)
                ret = []
                if not st.pc.false:
                    self.exec(body, st)
                    self._join(st, lo['cont'])
                    if inc is not None and not st.dead:
                        self.eval(inc, st)
                    if isdo and cond is not None and not st.dead:
                        c = self.bool(self.eval(cond, st))
            finally:
                fr.loops.pop()
                if dry:
                    self.dry -= 1
            rets = fr.returns[r0:]
            del fr.returns[r0:]
            w = set(st.w)
            for o in lo['brk'] + [r[0] for r in rets]:
                w |= o.w
            return st, c, lo['brk'], rets, w
        for _ in range(8):
            nl, cn = dict(self.nloop), dict(self.callno)
            nL = len(self.loops)
            st, c, brk, rets, w = once(f'{lid}', True)
            self.nloop, self.callno = nl, cn
            del self.loops[nL:]
            new = {norm(p) for p in w if outer(p)}
            new = {p for p in new if not any(p[:len(q)] == q for q in M)}
            if not new:
                break
            M |= new
            M = {p for p in M if not any(q != p and p[:len(q)] == q for q in M)}
        else:
            raise AnalysisBroken(f'loop summary does not stabilise at {n.file}:{n.line}')
        ev0 = len(self.events)
        st, c, brk, rets, w = once(f'{lid}', False)
        L = LoopInfo()
        L.id, L.line, L.file, L.fn = lid, n.line, n.file, fr.fn.qual
        L.entry, L.cond, L.after, L.mod, L.pc = entry, c, st, M, entry.pc
        L.brk, L.rets, L.events = brk, rets, self.events[ev0:]
        L.isdo = isdo
        L.env = dict(fr.env)
        self.loops.append(L)
        self.event('loop', lid, entry, L, n)
        out = entry.fork(entry.pc)
        for m in sorted(M, key=repr):
            self.havoc(out, m, f'after:{lid}')
        w0 = S.w
        outw = set(out.w)
        if rets:
            ra = bool_atom(symbol(f'loopret:{lid}'))
            for r, v in rets:
                r.pc = r.pc.and_(ra)
                r.w |= entry.w | S.written()
                fr.returns.append((r, v))
            out.pc = out.pc.and_(NOT(ra))
        S.d, S.pc, S.dead = out.d, out.pc, False
        S.w = w0 | outw

    def _switch(self, n, S):
        fr = self.frames[-1]
        self.cur = n
        x = self.num(self.eval(n.inner[0], S))
        body = n.inner[-1]
        lo = {'brk': [], 'cont': [], 'switch': True}
        fr.loops.append(lo)
        # flatten: list of (labels, stmt)
        seq = []

        def flat(c, labs):
            if c.kind == 'CaseStmt':
                v = self.num(self.eval(c.inner[0], S))
                flat(c.inner[-1], labs + [v])
            elif c.kind == 'DefaultStmt':
                flat(c.inner[-1], labs + ['default'])
            else:
                seq.append((labs, c))
        for c in body.inner:
            flat(c, [])
        cases = [v for labs, _ in seq for v in labs if not isinstance(v, str)]
        anyc = F
        for v in cases:
            anyc = OR(anyc, cmpdd('==', x, v))
        live = S.fork(DEAD)
        live.dead = True
        base = S
        w0 = S.w
        matched_default = False
        for labs, c in seq:
            g = F
            for v in labs:
                if isinstance(v, str):
                    g = OR(g, NOT(anyc))
                    matched_default = True
                else:
                    g = OR(g, cmpdd('==', x, v))
            if g is not F:
                e = base.fork(base.pc.and_(g))
                if not e.dead:
                    live = self.merge(e, live) if not live.dead else e
            if not live.dead:
                self.exec(c, live)
        fr.loops.pop()
        outs = list(lo['brk'])
        if not live.dead:
            outs.append(live)
        if not matched_default:
            e = base.fork(base.pc.and_(NOT(anyc)))
            if not e.dead:
                outs.append(e)
        if not outs:
            S.d = {}
            S.dead = True
            return
        R = outs[-1]
        for o in reversed(outs[:-1]):
            R = self.merge(o, R)
        S.d, S.pc, S.dead = R.d, R.pc, False
        S.w = w0 | R.w

    # ------------------------------------------------------------ constructors
    def _ctor_inits(self, fr, S):
        for i in fr.fn.inits:
            if i.name:
                q = i.inner[0] if i.inner else None
                if q is not None and q.kind == 'CXXDefaultInitExpr' and not q.inner:
                    c = self.prog.cls(fr.fn.cls)
                    q = next((f.init for f in c.fields if f.name == i.name), None) if c else None
                v = self.eval(q, S) if q is not None else None
                if v is not None:
                    lv = LV(fr.this + (i.name,), i.type)
                    self.regtype(lv.path, lv.type)
                    self.store(S, lv, self.rvalue(v, S))

    def default_struct(self, t, S, zero=False):
        """value of `T x{}`: default member initialisers, other scalars zero (or left unset)"""
        d = {}
        c = self.prog.cls(t)
        if c is None:
            m = re.match(r'^(.*?)\s*((?:\[\d+\])+)$', strip_type(t))
            if m:
                for p, tt, b in self.struct_leaves(t):
                    if zero:
                        d[p] = F
                return Struct(t, d)
            return None
        for b in c.bases:
            s = self.default_struct(b, S, zero)
            if s:
                d.update(s.d)
        u = self.union_layout(t)
        if u:
            if zero:
                for n, o, b in u[0]:
                    d[('flags', n)] = F
            return Struct(t, d)
        for f in c.fields:
            if f.init is not None:
                v = self.eval(f.init, S)
                v = self.rvalue(v, S)
                self._put(d, (f.name,), f.type, v)
            elif mshape(f.type):
                m = self.default_mat(f.type)
                self._put(d, (f.name,), f.type, m)
            elif is_scalar(f.type):
                if zero:
                    d[(f.name,)] = F
            else:
                s = self.default_struct(f.type, S, zero)
                g = self._default_ctor(f.type)
                if g is not None:
                    s = self._constructed(g, f.type, s or Struct(f.type, {}), [], S, None)
                if s:
                    for k, v in s.d.items():
                        d[(f.name,) + k] = v
        return Struct(t, d)

    def _default_ctor(self, t):
        """the constructor without parameters that a class declares itself"""
        c = self.prog.cls(t)
        return next((f for f in self.prog.funcs.values() if f.kind == 'CXXConstructorDecl' and f.cls == c.qual and f.has_body and not f.implicit and not f.params), None) if c else None

    def _constructed(self, f, t, d, args, S, n):
        lv = self.tmp(S, d, t)
        self.call(f, lv.path, args, S, n)
        m = len(lv.path)
        return Struct(t, {p[m:]: v for p, v in S.d.items() if p[:m] == lv.path})

    def _put(self, d, p, t, v):
        sh = mshape(t)
        if isinstance(v, Struct):
            for k, x in v.d.items():
                d[p + k] = x
        elif isinstance(v, Mat):
            for i in range(v.r):
                for j in range(v.c):
                    d[p + ((i, j),)] = v.at(i, j)
        elif sh:
            for i in range(sh[0]):
                for j in range(sh[1]):
                    d[p + ((i, j),)] = v
        elif isinstance(v, Bits):
            d[p] = self.frombits(v)
        elif v is not None and isinstance(v, DD):
            d[p] = tobool(v) if strip_type(t) == 'bool' else v

    # ------------------------------------------------------------ expressions
    def eval(self, n, S):
        self.steps += 1
        if self.steps > self.budget or self.until is not None and time.time() > self.until:
            raise AnalysisBroken(f'analysis budget exhausted in {self.fn.qual}')
        return getattr(self, 'e_' + n.kind, self.e_unknown)(n, S)

    def e_unknown(self, n, S):
        raise AnalysisBroken(f'construct {n.kind} not supported at {n.file}:{n.line}')

    def e_ParenExpr(self, n, S):
        return self.eval(n.inner[0], S)

    e_ExprWithCleanups = e_ParenExpr
    e_ConstantExpr = e_ParenExpr
    e_CXXBindTemporaryExpr = e_ParenExpr
    e_SubstNonTypeTemplateParmExpr = lambda self, n, S: self.eval(n.inner[-1], S)

    def e_MaterializeTemporaryExpr(self, n, S):
        return self.eval(n.inner[0], S)

    def e_IntegerLiteral(self, n, S):
        return lc(int(n.val))

    def e_CharacterLiteral(self, n, S):
        return lc(int(n.val))

    def e_FloatingLiteral(self, n, S):
        return leaf(literal(n.val, n.type == 'float'))

    def e_CXXBoolLiteralExpr(self, n, S):
        return T if n.val else F

    def e_StringLiteral(self, n, S):
        return leaf(mk('str', (), h61('str:' + str(n.val)), str(n.val)))

    e_PredefinedExpr = lambda self, n, S: leaf(mk('str', (), h61('str:fn'), 'fn'))

    def e_CXXNullPtrLiteralExpr(self, n, S):
        return leaf(NULL)

    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_CXXThisExpr(self, n, S):
        return leaf(addr(self.frames[-1].this))

    def e_UnaryExprOrTypeTraitExpr(self, n, S):
        t = n.x or (n.inner[0].type if n.inner else '')
        k = strip_type(t or '')
        sz = {'float': 4, 'double': 8}.get(k) or (INTW.get(k, 0) + 7) // 8
        m = re.match(r'^(.*?)\s*((?:\[\d+\])+)$', k)
        if not sz and m:
            b = strip_type(m.group(1))
            sz = {'float': 4, 'double': 8}.get(b) or (INTW.get(b, 0) + 7) // 8
            for x in re.findall(r'\[(\d+)\]', m.group(2)):
                sz *= int(x)
        if sz:
            return lc(sz)
        return leaf(symbol('sizeof:' + k))

    def e_SizeOfPackExpr(self, n, S):
        m = re.search(r'IJ((?:L[a-z]\d+E)*)E', self.frames[-1].fn.key or '')
        if m is None:
            raise AnalysisBroken(f'size of an unexpanded pack at {n.file}:{n.line}')
        return lc(m.group(1).count('E'))

    def e_DeclRefExpr(self, n, S):
        for fr in reversed(self.frames):
            if n.ref in fr.env and fr.tu == self.frames[-1].tu:
                v = self._one(fr.env[n.ref], S)
                if isinstance(v, LV) and mshape(v.type) is None and mshape(n.type) is not None:
                    v = LV(v.path, strip_type(n.type))      # declared through an alias
                return v
            if not getattr(fr, 'lambda_', False):
                break
        fr = self.frames[-1]
        e = self.prog.enums.get((fr.tu, n.ref))
        if e is not None:
            return lc(e)
        q = self.prog.gid.get((fr.tu, n.ref))
        d = self.prog.decls[fr.tu].get(n.ref)
        if q is None and d and d['kind'] == 'VarDecl':
            q = d['scope'] + '::' + d['name'] if d['scope'] else d['name']
        if d and d['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return leaf(mk('fnptr', (), h61('fn:' + str(d.get('mangled') or d.get('name'))), d))
        if d and d['kind'] == 'EnumConstantDecl':
            for k, v in self.prog.enums.items():
                if isinstance(k, str) and k.endswith('::' + d['name']):
                    return lc(v)
        if q is not None:
            node, tu = self.prog.globals.get(q, (None, None))
            path = (('glob', q),)
            lv = LV(path, strip_type(n.type))
            if node is not None:
                t = node.type
                isconst_ = 'const' in t
                init = [c for c in node.inner if c is not None and not c.kind.endswith('Attr') and not c.kind.endswith('Comment')]
                if isconst_ and init and node.x and node.x.get('init') and is_scalar(strip_type(t)):
                    fr2 = Frame(fr.fn, fr.this, tu, fr.uid)
                    self.frames.append(fr2)
                    try:
                        v = self.num(self.rvalue(self.eval(init[-1], S), S))
                    finally:
                        self.frames.pop()
                    return v
                lv.type = strip_type(t)
            return lv
        if n.type and 'matrix::' in n.type:
            return LV((('glob', n.refname),), strip_type(n.type))
        return LV((('glob', n.refname or '?'),), strip_type(n.type or ''))

    def field_lv(self, base, name, n):
        """member of an lvalue"""
        if isinstance(base, Struct):
            for k in base.d:
                if k[0] == name:
                    break
            sub = {k[1:]: v for k, v in base.d.items() if k[0] == name}
            if list(sub) == [()]:
                return sub[()]
            sh = mshape(n.type)
            if sh:
                return Mat(sh[0], sh[1], [sub.get(((i, j),), F) for i in range(sh[0]) for j in range(sh[1])], sh[2])
            return Struct(strip_type(n.type), sub)
        if isinstance(base, MatLV):
            base = LV(base.path, '')
        bits = None
        d = self.prog.decls[self.frames[-1].tu].get(n.ref)
        if d:
            bits = d.get('bits')
        lv = LV(base.path + (name,), strip_type(n.type), bits)
        self.regtype(lv.path, lv.type)
        if bits == 1:
            self.symtypes[lv.path] = 'bool'
        return lv

    def deref(self, v, t, S):
        """lvalue a pointer value points to"""
        v = self.num(v)
        v = S.pc.simp(v)
        if v.var is not None:
            ls = [l for l in leaves(v) if l.op == 'addr']
            if len({l.fp for l in ls}) == 1 and all(l.op in ('addr', 'null') for l in leaves(v)):
                return LV(ls[0].aux, t)
            raise SplitOn(ddnode(v.var, T, F))
        e = v.e
        if e.op == 'addr':
            return LV(e.aux, t)
        return LV((('deref', e.fp, show(e)),), t)

    def e_MemberExpr(self, n, S):
        d = self.prog.decls[self.frames[-1].tu].get(n.ref)
        if d and d['kind'] in ('CXXMethodDecl', 'CXXConversionDecl', 'CXXDestructorDecl'):
            raise AnalysisBroken(f'bound member at {n.file}:{n.line}')
        if d and d['kind'] == 'VarDecl':
            q = self.prog.gid.get((self.frames[-1].tu, n.ref)) or (d['scope'] + '::' + d['name'])
            m = Node_like(n, 'DeclRefExpr')
            return self.e_DeclRefExpr(m, S)
        if d and d['kind'] == 'EnumConstantDecl':
            return self.e_DeclRefExpr(n, S)
        base = self.eval(n.inner[0], S)
        if n.x:
            base = self.deref(self.rvalue(base, S), '', S)
        return self.field_lv(base, n.name, n)

    def e_ArraySubscriptExpr(self, n, S):
        a, i = n.inner
        base = self.eval(a.inner[0] if a.kind == 'ImplicitCastExpr' and a.cast == 'ArrayToPointerDecay' else a, S)
        iv = self.num(self.rvalue(self.eval(i, S), S))
        ptr = False
        if not isinstance(base, LV):
            ptr = True
            base = self.rvalue(base, S)
            if isinstance(base, Struct):
                base = self.tmp(S, base, a.type)
            else:
                base = self.deref(base, '', S)
        elif is_scalar(base.type) and base.type.endswith('*'):
            base = self.deref(self.load(S, base), '', S)
            ptr = True
        if ptr and base.path and self._elem(base.path[-1]):
            # the pointer points at an element of an array
            iv = self.num(ADD(iv, self._elemidx(base.path[-1])))
            base = LV(base.path[:-1], base.type)
        elif ptr:
            iv = S.pc.simp(iv)
            if iv is F and not (isinstance(base.path[0], tuple) and base.path[0][0] in ('arg', 'heap', 'deref')):
                return LV(base.path, strip_type(n.type))   # p[0] is *p
        self.event('index', pname(base.path), S, (base, iv, a.type, a.inner[0].type if a.inner else ''), n)
        return self.index(base, iv, n.type, S)

    @staticmethod
    def _elem(c):
        return isinstance(c, int) or (isinstance(c, tuple) and len(c) == 3 and c[0] == 'idx')

    @staticmethod
    def _elemidx(c):
        return lc(c) if isinstance(c, int) else IDX[c[1]]

    def index(self, base, iv, t, S):
        iv = S.pc.simp(iv)
        if iv.var is None and isconst(iv.e):
            p = base.path + (int(iv.e.aux),)
        else:
            e = opaque(iv)
            p = base.path + (('idx', e.fp, show(e)),)
            IDX[e.fp] = iv
            g = base.path[0]
        lv = LV(p, strip_type(t))
        self.regtype(lv.path, lv.type)
        return lv

    def e_ImplicitCastExpr(self, n, S):
        c = n.cast
        if c == 'LValueToRValue':
            m = n.inner[0]
            while m.kind == 'ParenExpr':
                m = m.inner[0]
            if m.kind == 'DeclRefExpr' and isinstance(self.frames[-1].env.get(m.ref), GLV):
                return self.rvalue(self.frames[-1].env[m.ref], S)
            v = self._read(m, S)
            if isinstance(v, LV):
                if self.isunionval(v.path):
                    return self.load(S, v)
                return self.rvalue(LV(v.path, v.type or strip_type(n.type), v.bits), S)
            if isinstance(v, MatLV):
                return self.rmat(v, S)
            return v
        v = self.eval(n.inner[0], S) if n.inner else None
        if c in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'ConstructorConversion', 'UserDefinedConversion',
                 'BaseToDerived', 'ToVoid', 'BitCast', 'FloatingCast', 'LValueBitCast'):
            if c == 'FloatingCast' and strip_type(n.type) == 'float' and strip_type(n.inner[0].type) in ('double', 'long double'):
                self.event('fnarrow', 'double', S, self.num(self.rvalue(v, S)), n)
            return v
        if c == 'ArrayToPointerDecay':
            if isinstance(v, LV) and '[' in (v.type or ''):
                return leaf(addr(v.path + (0,)))
            return v
        if c == 'NullToPointer':
            return leaf(NULL)
        if c in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            return self.bool(self.rvalue(v, S))
        if c == 'IntegralCast':
            v = self.rvalue(v, S)
            if isinstance(v, Bits):
                w = INTW.get(strip_type(n.type), 64)
                return Bits(v.b[:w])
            if v.var is None and isconst(v.e):
                w = INTW.get(strip_type(n.type))
                if w:
                    x = int(v.e.aux)
                    uns = strip_type(n.type).startswith(('unsigned', 'uint', 'size_t')) or strip_type(n.type) == 'bool'
                    y = x & ((1 << w) - 1)
                    if not uns and y >> (w - 1):
                        y -= 1 << w
                    if y != x and x >= 0:
                        return lc(y)
                    if y != x and uns:
                        return lc(y) if w < 32 else lc(x)   # keep -1 readable
                    if y == x:
                        return v
            w = INTW.get(strip_type(n.type))
            sw = INTW.get(strip_type(n.inner[0].type))
            if w and sw and w < sw:
                self.event('narrow', n.type, S, (v, w, sw), n)
            return v
        if c == 'IntegralToFloating':
            v = self.num(self.rvalue(v, S))
            if strip_type(n.type) == 'float' and INTW.get(strip_type(n.inner[0].type), 0) >= 32:
                self.event('fnarrow', 'int', S, v, n)
            return v
        if c == 'FloatingToIntegral':
            v = self.num(self.rvalue(v, S))
            self.event('f2i', n.type, S, v, n)
            return FN('trunc', v)
        if c in ('PointerToIntegral', 'IntegralToPointer'):
            return v
        raise AnalysisBroken(f'cast {c} not supported at {n.file}:{n.line}')

    def e_CStyleCastExpr(self, n, S):
        if n.cast == 'ToVoid':
            self.eval(n.inner[0], S)
            return None
        return self.e_ImplicitCastExpr(n, S)

    e_CXXStaticCastExpr = e_CStyleCastExpr
    e_CXXFunctionalCastExpr = e_CStyleCastExpr
    e_CXXConstCastExpr = e_CStyleCastExpr
    e_CXXReinterpretCastExpr = e_CStyleCastExpr

    def e_CXXDefaultArgExpr(self, n, S):
        return None

    def e_CXXDefaultInitExpr(self, n, S):
        if n.inner:
            return self.eval(n.inner[0], S)
        return None

    def e_ImplicitValueInitExpr(self, n, S):
        if mshape(n.type):
            return self.default_mat(n.type)
        if is_scalar(n.type):
            return leaf(NULL) if n.type.strip().endswith('*') else F
        return self.default_struct(n.type, S, True)

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_ConditionalOperator(self, n, S):
        return self._cond(n, S, n.vc not in ('lvalue', 'xvalue'))

    def _cond(self, n, S, plain):
        ev = self._read if plain else self.eval
        c = self.bool(self.rvalue(self.eval(n.inner[0], S), S))
        c = S.pc.simp(c)
        res = {}
        if c is T:
            return ev(n.inner[1], S)
        if c is F:
            return ev(n.inner[2], S)
        if not plain:
            raise SplitOn(ddnode(c.var, T, F))

        def mk_(i):
            def go(s):
                v = ev(n.inner[i], s)
                res[i] = self.rvalue(v, s)
            return go
        self.branch(S, c, mk_(1), mk_(2))
        if 1 not in res:
            return res.get(2)
        if 2 not in res:
            return res.get(1)
        m = _magnitude(c, res[1], res[2])
        return m if m is not None else self.vite(c, res[1], res[2], S, S)

    def e_UnaryOperator(self, n, S):
        o = n.op
        if o in ('++', '--'):
            lv = self.eval(n.inner[0], S)
            old = self.rvalue(lv, S)
            if (n.type or '').strip().endswith('*'):
                new = self.binop('+', old, lc(1 if o == '++' else -1), n.type, S, n)
            else:
                new = ADD(self.num(old), lc(1 if o == '++' else -1))
            self.arith(n, '+', S, new, n.type)
            self.store(S, lv, new)
            return old if n.x else lv
        v = self.eval(n.inner[0], S)
        if o == '*':
            return self.deref(self.rvalue(v, S) if not (isinstance(v, LV) and not v.type.endswith('*')) else leaf(addr(v.path)), strip_type(n.type), S)
        if o == '&':
            if isinstance(v, MatLV):
                return leaf(addr(v.path))
            if not isinstance(v, LV):
                v = self.tmp(S, v, n.inner[0].type)
            return leaf(addr(v.path))
        v = self.rvalue(v, S)
        if o == '-':
            if isinstance(v, Mat):
                return Mat(v.r, v.c, [NEG(x) for x in v.e], v.k)
            return NEG(self.num(v))
        if o == '+':
            return v
        if o == '!':
            return NOT(self.bool(v))
        if o == '~':
            if isinstance(v, DD) and v.var is None and isconst(v.e):
                return lc(~int(v.e.aux))
            b = self.tobits(v)
            return Bits([NOT(x) for x in b.b])
        if o in ('__extension__',):
            return v
        raise AnalysisBroken(f'unary {o} at {n.file}:{n.line}')

    def arith(self, n, op, S, v, t):
        pass

    def binop(self, op, a, b, t, S, n):
        if isinstance(a, Mat) or isinstance(b, Mat):
            raise AnalysisBroken('matrix in builtin operator')
        if op in ('&', '|', '^'):
            if strip_type(t) == 'bool' or (self._isboolv(a) and self._isboolv(b)):
                x, y = self.bool(a), self.bool(b)
                return AND(x, y) if op == '&' else OR(x, y) if op == '|' else _xor(x, y)
            if isinstance(a, DD) and isinstance(b, DD) and a.var is None and b.var is None and isconst(a.e) and isconst(b.e):
                x, y = int(a.e.aux), int(b.e.aux)
                return lc(x & y if op == '&' else x | y if op == '|' else x ^ y)
            w = INTW.get(strip_type(t), 32)
            A, B = self.tobits(a, w), self.tobits(b, w)
            m = max(len(A.b), len(B.b))

            def g(q, i):
                return q.b[i] if i < len(q.b) else F
            f = AND if op == '&' else OR if op == '|' else _xor
            return Bits([f(g(A, i), g(B, i)) for i in range(m)])
        if op == '<<':
            x, y = a, self.num(b)
            if y.var is None and isconst(y.e):
                k = int(y.e.aux)
                if isinstance(x, DD) and x.var is None and isconst(x.e):
                    return lc(int(x.e.aux) << k)
                A = self.tobits(x)
                return Bits(([F] * k + A.b)[:max(len(A.b), 32)])
            return FN('shl', self.num(x), y)
        if op == '>>':
            x, y = a, self.num(b)
            if y.var is None and isconst(y.e):
                k = int(y.e.aux)
                if isinstance(x, DD) and x.var is None and isconst(x.e):
                    return lc(int(x.e.aux) >> k)
                if isinstance(x, Bits):
                    return Bits(x.b[k:])
                return FN('idiv', x, lc(1 << k))
            return FN('shr', self.num(x), y)
        if op in ('==', '!=') and (isinstance(a, Bits) or isinstance(b, Bits)):
            A, B = self.tobits(a, 64), self.tobits(b, 64)
            r = T
            for i in range(max(len(A.b), len(B.b))):
                x = A.b[i] if i < len(A.b) else F
                y = B.b[i] if i < len(B.b) else F
                r = AND(r, NOT(_xor(x, y)))
            return r if op == '==' else NOT(r)
        isint = strip_type(t) not in FLOATS
        if op in ('+', '-') and t.strip().endswith('*'):
            # pointer arithmetic
            pa = a if isinstance(a, DD) else None
            e = opaque(self.num(a))
            k = self.num(b)
            if op == '-':
                k = NEG(k)
            if e.op == 'addr':
                p = e.aux
                if self._elem(p[-1]):
                    k = S.pc.simp(self.num(ADD(k, self._elemidx(p[-1]))))
                    p = p[:-1]
                if k.var is None and isconst(k.e):
                    return leaf(addr(p + (int(k.e.aux),)))
                ke = opaque(k)
                IDX[ke.fp] = k
                return leaf(addr(p + (('idx', ke.fp, show(ke)),)))
            return leaf(fn('ptradd', (e, opaque(k))))   # k is negated for a subtraction
        a, b = self.num(a), self.num(b)
        if op in ('-', '<', '>', '<=', '>=', '==', '!=') and any(l.op == 'addr' for l in leaves(a)):
            # two places in one array
            a, b = S.pc.simp(a), S.pc.simp(b)
            x, y = a.e if a.var is None else None, b.e if b.var is None else None
            if x is not None and y is not None and x.op == 'addr' and y.op == 'addr':
                p, q = x.aux, y.aux
                if len(p) + 1 == len(q) and self._elem(q[-1]):
                    p += (0,)
                elif len(q) + 1 == len(p) and self._elem(p[-1]):
                    q += (0,)
                if p[:-1] == q[:-1] and self._elem(p[-1]) and self._elem(q[-1]):
                    a, b = self._elemidx(p[-1]), self._elemidx(q[-1])
        if op == '+':
            return ADD(a, b)
        if op == '-':
            return SUB(a, b)
        if op == '*':
            return MUL(a, b)
        if op == '/':
            self.event('div', 'int' if isint else 'float', S, (a, b), n)
            if isint:
                return FN('idiv', a, b)
            return DIV(a, b)
        if op == '%':
            self.event('div', 'mod', S, (a, b), n)
            return FN('mod', a, b)
        if op in ('<', '>', '<=', '>=', '==', '!='):
            if op in ('==', '!=') and self._isboolv(a) and self._isboolv(b):
                x = _xor(a, b)
                return x if op == '!=' else NOT(x)
            return cmpdd(op, a, b)
        raise AnalysisBroken(f'binary {op}')

    def _isboolv(self, v):
        if isinstance(v, Bits):
            return False
        if not isinstance(v, DD):
            return False
        return all(isconst(l) and l.aux in (0, 1) for l in leaves(v))

    def e_BinaryOperator(self, n, S):
        o = n.op
        if o == '=':
            lhs, rhs = n.inner
            v = self.eval(rhs, S)
            lv = self.eval(lhs, S)
            if isinstance(v, (LV, MatLV)) and is_scalar(n.type):
                v = self.rvalue(v, S)
            self.store(S, lv, v)
            return lv
        if o == ',':
            self.eval(n.inner[0], S)
            return self.eval(n.inner[1], S)
        if o in ('&&', '||'):
            a = self.bool(self.rvalue(self.eval(n.inner[0], S), S))
            ac = S.pc.simp(a)
            if ac is (F if o == '&&' else T):
                return ac
            res = {}
            g = a if o == '&&' else NOT(a)

            def go(s):
                res['v'] = self.bool(self.rvalue(self.eval(n.inner[1], s), s))
            self.branch(S, g, go)
            b = res.get('v')
            if b is None:
                return a
            return AND(a, b) if o == '&&' else OR(a, b)
        a = self.eval(n.inner[0], S)
        a = self.rvalue(a, S) if not (isinstance(a, LV) and '[' in (a.type or '')) else leaf(addr(a.path))
        b = self.rvalue(self.eval(n.inner[1], S), S)
        return self.binop(o, a, b, n.type if o not in ('<', '>', '<=', '>=', '==', '!=') else n.inner[0].type, S, n)

    def e_CompoundAssignOperator(self, n, S):
        lv = self.eval(n.inner[0], S)
        b = self.rvalue(self.eval(n.inner[1], S), S)
        a = self.rvalue(lv, S)
        v = self.binop(n.op[:-1], a, b, n.x or n.type, S, n)
        self.store(S, lv, v)
        return lv

    def e_InitListExpr(self, n, S):
        t = strip_type(n.type)
        sh = mshape(t)
        if is_scalar(t):
            return self.rvalue(self.eval(n.inner[0], S), S) if n.inner else F
        if sh:
            vals = [self.rvalue(self.eval(c, S), S) for c in n.inner if c is not None]
            return self._matctor(sh, vals, S, n)
        m = re.match(r'^(.*?)\s*((?:\[\d+\])+)$', t)
        d = {}
        if m:
            dims = [int(x) for x in re.findall(r'\[(\d+)\]', m.group(2))]
            el = n.x[1:] if isinstance(n.x, list) else n.inner
            et = m.group(1) + ''.join(f'[{q}]' for q in dims[1:])
            for i in range(dims[0]):
                if i < len(el) and el[i] is not None:
                    v = self.rvalue(self.eval(el[i], S), S)
                    self._put(d, (i,), et, v)
                else:
                    for p, tt, b in self.struct_leaves(et):
                        d[(i,) + p] = F
            return Struct(t, d)
        c = self.prog.cls(t)
        if c is None:
            return None
        if c.tag == 'union':
            u = self.union_layout(t)
            if u:
                if not n.inner:
                    return self.default_struct(t, S, True)
                v = self.rvalue(self.eval(n.inner[0], S), S) if n.inner[0].kind != 'ImplicitValueInitExpr' else lc(0)
                if isinstance(v, Struct):
                    return Struct(t, {('flags',) + k: x for k, x in v.d.items()})
                b = self.tobits(v)
                return Struct(t, {('flags', nm): (b.b[o] if o < len(b.b) else F) for nm, o, w in u[0]})
        nb = len(c.bases)
        for f, i in zip(c.fields, n.inner[nb:]):
            if i is None:
                continue
            v = self.eval(i, S)
            if v is None and f.init is not None:
                v = self.eval(f.init, S)
            if v is None:
                continue
            v = self.rvalue(v, S)
            self._put(d, (f.name,), f.type, v)
        for f in c.fields[len(n.inner) - nb:]:
            if f.init is not None:
                self._put(d, (f.name,), f.type, self.rvalue(self.eval(f.init, S), S))
        return Struct(t, d)

    def e_CXXConstructExpr(self, n, S):
        t = strip_type(n.type)
        sh = mshape(t)
        args = [c for c in n.inner if c is not None]
        if sh:
            vals = []
            for c in args:
                if c.kind == 'CXXDefaultArgExpr':
                    continue
                v = self._arrarg(c, S)
                if isinstance(v, (LV, MatLV)):
                    if isinstance(v, LV) and '[' in (v.type or ''):
                        v = self.rstruct(v, S)
                    else:
                        v = self.rvalue(v, S)
                vals.append(v)
            return self._matctor(sh, vals, S, n)
        if len(args) == 1 and strip_type(args[0].type) == t:
            v = self.eval(args[0], S)      # copy / move
            if isinstance(v, LV):
                if isinstance(S.d.get(v.path), Closure):
                    return S.d[v.path]
                return self.rstruct(v, S)
            return v
        # user constructor with a body?
        f = self._ctor(t, args, n)
        d = self.default_struct(t, S, False)
        if f is not None:
            return self._constructed(f, t, d, args, S, n) if d is not None else None
        return d

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def _ctor(self, t, args, n):
        c = self.prog.cls(t)
        if c is None:
            return None
        cand = [f for f in self.prog.funcs.values() if f.kind == 'CXXConstructorDecl' and f.cls == c.qual and f.has_body and not f.implicit and f.tqual == n.x]
        if len(cand) >= 1:
            return cand[0]
        return None

    # ---- matrices: construction and methods
    def _matctor(self, sh, vals, S, n):
        r, c, k = sh
        if not vals:
            return self.default_mat(f'matrix::{k}<float, {r}, {c}>' if k in ('Matrix',) else {'Quaternion': 'matrix::Quaternion<float>', 'Dcm': 'matrix::Dcm<float>'}.get(k, f'matrix::Matrix<float, {r}, {c}>'))
        if len(vals) == 1:
            v = vals[0]
            if isinstance(v, Struct):
                e = [v.d.get((i,), v.d.get((i // c, i % c), F)) for i in range(r * c)]
                return Mat(r, c, e, k)
            if isinstance(v, Mat):
                vk = v.k
                if k == 'Dcm' and vk == 'Quaternion':
                    return self._q2dcm(v)
                if k == 'Dcm' and vk == 'Euler':
                    return self._e2dcm(v)
                if k == 'Dcm' and vk == 'AxisAngle':
                    return self._q2dcm(self._aa2q(v))
                if k == 'Quaternion' and vk == 'AxisAngle':
                    return self._aa2q(v)
                if k == 'Quaternion' and vk == 'Euler':
                    return self._e2q(v)
                if k == 'Quaternion' and vk in ('Dcm', 'SquareMatrix', 'Matrix') and v.r == 3:
                    return self._unint('q_dcm', v, 4, 1, 'Quaternion')
                if k == 'Euler' and vk == 'Quaternion':
                    return self._dcm2e(self._q2dcm(v))
                if k == 'Euler' and v.r == 3 and v.c == 3:
                    return self._dcm2e(v)
                if k == 'AxisAngle' and vk == 'Quaternion':
                    return self._unint('aa_q', v, 3, 1, 'AxisAngle')
                if k == 'AxisAngle' and v.c == 3:
                    return self._unint('aa_dcm', v, 3, 1, 'AxisAngle')
                if v.r * v.c == r * c:
                    return Mat(r, c, v.e, k)
                if k == 'Vector2' and v.r == 3:
                    return Mat(2, 1, v.e[:2], k)
            if isinstance(v, DD) and v.var is None and v.e.op == 'addr':
                p, o = v.e.aux, 0
                if isinstance(p[-1], int):
                    p, o = p[:-1], p[-1]
                return Mat(r, c, [self.peek(S, p + (o + i,), 'float') for i in range(r * c)], k)
            if isinstance(v, DD) and r * c == 1:
                return Mat(r, c, [v], k)
        if len(vals) == r * c:
            return Mat(r, c, [self.num(x) for x in vals], k)
        if k == 'Vector3' and len(vals) == 2 and isinstance(vals[0], Mat):
            return Mat(3, 1, vals[0].e + [self.num(vals[1])], k)
        if k == 'AxisAngle' and len(vals) == 2:
            return self._unint('aa_axis_angle', Mat(4, 1, vals[0].e + [self.num(vals[1])]), 3, 1, k)
        raise AnalysisBroken(f'matrix constructor {k} from {vals!r} at {n.file}:{n.line}')

    def _unint(self, name, v, r, c, k):
        es = tuple(opaque(x) for x in v.e)
        return Mat(r, c, [leaf(fn(f'{name}.{i}', es)) for i in range(r * c)], k)

    def _aa2q(self, v):
        return self._unint('q_aa', v, 4, 1, 'Quaternion')

    def _q2dcm(self, q):
        a, b, c, d = q.e
        def s(x): return MUL(x, x)
        def p(x, y): return MUL(x, y)
        two = lc(2)
        return Mat(3, 3, [
            SUB(SUB(ADD(s(a), s(b)), s(c)), s(d)), MUL(two, SUB(p(b, c), p(a, d))), MUL(two, ADD(p(a, c), p(b, d))),
            MUL(two, ADD(p(b, c), p(a, d))), SUB(ADD(SUB(s(a), s(b)), s(c)), s(d)), MUL(two, SUB(p(c, d), p(a, b))),
            MUL(two, SUB(p(b, d), p(a, c))), MUL(two, ADD(p(a, b), p(c, d))), ADD(SUB(SUB(s(a), s(b)), s(c)), s(d))], 'Dcm')

    def _e2dcm(self, e):
        ph, th, ps = e.e
        cp, sp, ct, st, cs, ss = FN('cos', ph), FN('sin', ph), FN('cos', th), FN('sin', th), FN('cos', ps), FN('sin', ps)
        M = MUL
        return Mat(3, 3, [M(ct, cs), ADD(NEG(M(cp, ss)), M(M(sp, st), cs)), ADD(M(sp, ss), M(M(cp, st), cs)),
                          M(ct, ss), ADD(M(cp, cs), M(M(sp, st), ss)), ADD(NEG(M(sp, cs)), M(M(cp, st), ss)),
                          NEG(st), M(sp, ct), M(cp, ct)], 'Dcm')

    def _e2q(self, e):
        h = [MUL(x, lc(Fraction(1, 2))) for x in e.e]
        c1, c2, c3 = (FN('cos', x) for x in h)
        s1, s2, s3 = (FN('sin', x) for x in h)
        M = MUL
        return Mat(4, 1, [ADD(M(M(c1, c2), c3), M(M(s1, s2), s3)), SUB(M(M(s1, c2), c3), M(M(c1, s2), s3)),
                          ADD(M(M(c1, s2), c3), M(M(s1, c2), s3)), SUB(M(M(c1, c2), s3), M(M(s1, s2), c3))], 'Quaternion')

    def _dcm2e(self, R):
        return Mat(3, 1, [FN('atan2', R.at(2, 1), R.at(2, 2)), NEG(FN('asin', R.at(2, 0))), FN('atan2', R.at(1, 0), R.at(0, 0))], 'Euler')

    def madd(self, a, b):
        return Mat(a.r, a.c, [ADD(x, y) for x, y in zip(a.e, b.e)], a.k)

    def msub(self, a, b):
        return Mat(a.r, a.c, [SUB(x, y) for x, y in zip(a.e, b.e)], a.k)

    def mscale(self, a, s):
        return Mat(a.r, a.c, [MUL(x, s) for x in a.e], a.k)

    def mmul(self, a, b):
        out = []
        for i in range(a.r):
            for j in range(b.c):
                acc = F
                for k in range(a.c):
                    x, y = a.at(i, k), b.at(k, j)
                    if x is F or y is F:
                        continue
                    acc = ADD(acc, MUL(x, y))
                out.append(acc)
        k = 'Matrix'
        if b.c == 1:
            k = {3: 'Vector3', 2: 'Vector2'}.get(a.r, 'Vector')
        elif a.r == b.c:
            k = 'Dcm' if a.k == 'Dcm' and b.k == 'Dcm' else 'SquareMatrix'
        return Mat(a.r, b.c, out, k)

    def mdot(self, a, b):
        acc = F
        for x, y in zip(a.e, b.e):
            acc = ADD(acc, MUL(x, y))
        return acc

    def qmul(self, q, p):
        q, p = q.e, p.e
        M = MUL
        return Mat(4, 1, [SUB(SUB(SUB(M(q[0], p[0]), M(q[1], p[1])), M(q[2], p[2])), M(q[3], p[3])),
                          SUB(ADD(ADD(M(q[0], p[1]), M(q[1], p[0])), M(q[2], p[3])), M(q[3], p[2])),
                          ADD(ADD(SUB(M(q[0], p[2]), M(q[1], p[3])), M(q[2], p[0])), M(q[3], p[1])),
                          ADD(SUB(ADD(M(q[0], p[3]), M(q[1], p[2])), M(q[2], p[1])), M(q[3], p[0]))], 'Quaternion')

    def mop(self, op, a, b):
        if op == '*':
            if isinstance(a, DD):
                return self.mscale(b, a)
            if isinstance(b, DD):
                return self.mscale(a, b)
            if a.k == 'Quaternion' and b.k == 'Quaternion':
                return self.qmul(a, b)
            if a.c == 1 and b.c == 1 and a.r == b.r and a.r > 1:
                return self.mdot(a, b)
            return self.mmul(a, b)
        if op == '/':
            return Mat(a.r, a.c, [DIV(x, b) for x in a.e], a.k)
        if op == '+':
            return self.madd(a, b) if isinstance(b, Mat) else Mat(a.r, a.c, [ADD(x, b) for x in a.e], a.k)
        if op == '-':
            return self.msub(a, b) if isinstance(b, Mat) else Mat(a.r, a.c, [SUB(x, b) for x in a.e], a.k)
        if op == '%':
            x, y = a.e, b.e
            return Mat(3, 1, [SUB(MUL(x[1], y[2]), MUL(x[2], y[1])), SUB(MUL(x[2], y[0]), MUL(x[0], y[2])), SUB(MUL(x[0], y[1]), MUL(x[1], y[0]))], 'Vector3')
        raise AnalysisBroken(f'matrix operator {op}')

    def melem(self, obj, idx, S, n):
        """m(i) / m(i, j)"""
        idx = [S.pc.simp(self.num(self.rvalue(i, S))) for i in idx]
        if isinstance(obj, (LV, MatLV)):
            r, c = (obj.r, obj.c) if isinstance(obj, MatLV) else mshape(obj.type)[:2]
        else:
            r, c = obj.r, obj.c
        self.event('melem', pname(obj.path) if not isinstance(obj, Mat) else 'tmp', S, (r, c, idx), n)
        if all(i.var is None and isconst(i.e) for i in idx):
            ii = [int(i.e.aux) for i in idx]
            if len(ii) == 1:
                ii = [ii[0], 0] if c == 1 else [0, ii[0]]
            if not (0 <= ii[0] < r and 0 <= ii[1] < c):
                self.event('oob', 'matrix', S, (r, c, ii), n)
                return leaf(symbol('oob')) if isinstance(obj, Mat) else LV((('heap', 'oob'), len(self.events)), 'float')
            if isinstance(obj, Mat):
                return obj.at(*ii)
            return LV(self.mpath(obj, *ii), 'float')
        if isinstance(obj, Mat):
            obj = self.tmp(S, obj, f'matrix::Matrix<float, {r}, {c}>')
        if isinstance(obj, MatLV):
            raise AnalysisBroken(f'symbolic slice index at {n.file}:{n.line}')
        es = [opaque(i) for i in idx]
        for e, i in zip(es, idx):
            IDX[e.fp] = i
        return LV(obj.path + (('idx', h61(','.join(str(e.fp) for e in es)), ','.join(show(e) for e in es)),), 'float')

    def mmethod(self, name, obj, args, S, n, d):
        """method of a matrix class; obj is LV/MatLV/Mat; args are unevaluated nodes"""
        mang = (d or {}).get('mangled') or ''
        islv = isinstance(obj, (LV, MatLV))

        def A(i):
            return self.rvalue(self.eval(args[i], S), S)

        def ci(i):
            v = self.num(A(i))
            v = S.pc.simp(v)
            if not (v.var is None and isconst(v.e)):
                raise AnalysisBroken(f'non constant matrix index at {n.file}:{n.line}')
            return int(v.e.aux)
        if islv and isinstance(obj, LV) and mshape(obj.type) is None:
            raise AnalysisBroken(f'matrix method {name} on {obj} at {n.file}:{n.line}')
        R = lambda: self.rmat(obj, S)
        if islv:
            r, c = (obj.r, obj.c) if isinstance(obj, MatLV) else mshape(obj.type)[:2]
            r0, c0 = (obj.r0, obj.c0) if isinstance(obj, MatLV) else (0, 0)
        else:
            r, c, r0, c0 = obj.r, obj.c, 0, 0
        if name in ('setZero', 'zero'):
            return self.mstore(S, obj, F)
        if name in ('setAll',):
            return self.mstore(S, obj, self.num(A(0)))
        if name == 'setOne':
            return self.mstore(S, obj, T)
        if name in ('setIdentity', 'identity'):
            return self.mstore(S, obj, Mat(r, c, [T if i == j else F for i in range(r) for j in range(c)]))
        if name in ('transpose', 'T'):
            m = R()
            return Mat(m.c, m.r, [m.at(j, i) for i in range(m.c) for j in range(m.r)], m.k if m.r == m.c else 'Matrix')
        if name in ('norm', 'length'):
            m = R()
            return FN('sqrt', self.mdot(m, m))
        if name in ('norm_squared', 'length_squared'):
            m = R()
            return self.mdot(m, m)
        if name == 'longerThan':
            m = R()
            return cmpdd('>', self.mdot(m, m), MUL(self.num(A(0)), self.num(A(0))))
        if name in ('dot',):
            b = A(0)
            m = R()
            if isinstance(b, Mat):
                return self.mdot(m, b)
        if name == 'cross':
            a, b = R(), A(0)
            if a.r == 2:
                return SUB(MUL(a.e[0], b.e[1]), MUL(a.e[1], b.e[0]))
            return self.mop('%', a, b)
        if name in ('normalized', 'unit'):
            m = R()
            nn = FN('sqrt', self.mdot(m, m))
            return Mat(m.r, m.c, [DIV(x, nn) for x in m.e], m.k)
        if name == 'normalize':
            m = R()
            nn = FN('sqrt', self.mdot(m, m))
            self.event('normalize', pname(obj.path), S, m, n)
            return self.mstore(S, obj, Mat(m.r, m.c, [DIV(x, nn) for x in m.e], m.k))
        if name == 'emult':
            a, b = R(), A(0)
            return Mat(a.r, a.c, [MUL(x, y) for x, y in zip(a.e, b.e)], a.k)
        if name == 'edivide':
            a, b = R(), A(0)
            for y in b.e:
                self.event('div', 'float', S, (F, y), n)
            return Mat(a.r, a.c, [DIV(x, y) for x, y in zip(a.e, b.e)], a.k)
        if name == 'abs':
            m = R()
            return Mat(m.r, m.c, [FN('abs', x) for x in m.e], m.k)
        if name in ('max', 'min'):
            m = R()
            v = m.e[0]
            for x in m.e[1:]:
                v = FN(name, v, x)
            return v
        if name == 'isAllNan':
            return bool_atom(fn('allnan', tuple(opaque(x) for x in R().e)))
        if name in ('isAllFinite',):
            return bool_atom(fn('allfinite', tuple(opaque(x) for x in R().e)))
        if name == 'diag':
            m = R()
            return Mat(min(r, c), 1, [m.at(i, i) for i in range(min(r, c))], 'Vector')
        if name == 'trace':
            m = R()
            v = F
            for i in range(r):
                v = ADD(v, m.at(i, i))
            return v
        if name == 'xy':
            if islv:
                return MatLV(obj.path, r0, c0, 2, 1)
            return Mat(2, 1, obj.e[:2], 'Vector2')
        if name == 'slice':
            m = re.search(r'sliceILm(\d+)ELm(\d+)E', mang)
            if m:
                P, Q = int(m.group(1)), int(m.group(2))
            else:
                sh = mshape(n.type)
                P, Q = sh[:2]
            x, y = ci(0), ci(1)
            if x + P > r or y + Q > c:
                self.event('oob', 'slice', S, (r, c, x, y, P, Q), n)
            if islv:
                return MatLV(obj.path, r0 + x, c0 + y, P, Q)
            return Mat(P, Q, [obj.at(x + i, y + j) for i in range(P) for j in range(Q)])
        if name in ('row', 'col'):
            x = ci(0)
            if islv:
                return MatLV(obj.path, r0 + x, c0, 1, c) if name == 'row' else MatLV(obj.path, r0, c0 + x, r, 1)
            return Mat(1, c, [obj.at(x, j) for j in range(c)]) if name == 'row' else Mat(r, 1, [obj.at(i, x) for i in range(r)])
        if name in ('setRow', 'setCol'):
            x = ci(0)
            v = A(1)
            lv = MatLV(obj.path, r0 + x, c0, 1, c) if name == 'setRow' else MatLV(obj.path, r0, c0 + x, r, 1)
            return self.mstore(S, lv, v)
        if name == 'uncorrelateCovarianceSetVariance' or name == 'uncorrelateCovariance':
            w = int(re.search(r'ILm(\d+)E', mang[mang.find('uncorrelate'):]).group(1))
            f = ci(0)
            if name == 'uncorrelateCovariance':
                dv = [self.peek(S, obj.path + ((f + i, f + i),), 'float') for i in range(w)]
            else:
                v = A(1)
                dv = v.e if isinstance(v, Mat) else [self.num(v)] * w
            if f + w > r:
                self.event('oob', 'uncorrelate', S, (r, c, f, w), n)
                return None
            for i in range(f, f + w):
                for j in range(c):
                    self.setp(S, obj.path + ((i, j),), F)
                    self.setp(S, obj.path + ((j, i),), F)
            for i in range(w):
                self.setp(S, obj.path + ((f + i, f + i),), dv[i])
            self.event('uncorrelate', name, S, (f, w, dv), n)
            return None
        if name in ('makeBlockSymmetric', 'makeRowColSymmetric'):
            w = int(re.search(r'ILm(\d+)E', mang[mang.find('make'):]).group(1))
            f = ci(0)
            if f + w > r:
                self.event('oob', name, S, (r, c, f, w), n)
                return None
            self.event('symm', name, S, (f, w), n)
            half = lc(Fraction(1, 2))

            def avg(i, j):
                a, b = self.peek(S, obj.path + ((i, j),), 'float'), self.peek(S, obj.path + ((j, i),), 'float')
                v = a if a is b else MUL(ADD(a, b), half)
                self.setp(S, obj.path + ((i, j),), v)
                self.setp(S, obj.path + ((j, i),), v)
            for i in range(f + 1, f + w):
                for j in range(f, i):
                    avg(i, j)
            if name == 'makeRowColSymmetric':
                for i in range(f, f + w):
                    for j in list(range(0, f)) + list(range(f + w, c)):
                        avg(i, j)
            return None
        if name == 'copyTo':
            v = self.eval(args[0], S)
            lv = v if isinstance(v, LV) and not v.type.endswith('*') else self.deref(self.rvalue(v, S), 'float', S)
            m = R()
            at = lv.path
            off = 0
            if not (isinstance(v, LV) and not v.type.endswith('*')) and isinstance(at[-1], int):
                at, off = at[:-1], at[-1]
            for i, x in enumerate(m.e):
                self.setp(S, at + (off + i,), x)
            return None
        if name == 'at':
            m = re.search(r'atILm(\d+)E', mang)
            return LV(obj.path + ((int(m.group(1)), 0),), 'float') if islv else obj.at(int(m.group(1)))
        if name in ('phi', 'theta', 'psi'):
            i = ('phi', 'theta', 'psi').index(name)
            return LV(obj.path + ((i, 0),), 'float') if islv else obj.at(i)
        if name in ('inversed', 'conjugate'):
            m = R()
            s = self.mdot(m, m) if name == 'inversed' else T
            if s is not T:
                self.event('div', 'float', S, (T, s), n)
            return Mat(4, 1, [DIV(m.e[0], s)] + [NEG(DIV(x, s)) for x in m.e[1:]], 'Quaternion')
        if name == 'canonical':
            return self._unint('canonical', R(), 4, 1, 'Quaternion')
        if name == 'canonicalize':
            return self.mstore(S, obj, self._unint('canonical', R(), 4, 1, 'Quaternion'))
        if name == 'invert':
            m = self.mmethod('inversed', obj, args, S, n, d)
            return self.mstore(S, obj, m)
        if name in ('axis',):
            return self._unint('axis', R(), 3, 1, 'Vector3')
        if name == 'angle':
            m = R()
            return FN('sqrt', self.mdot(m, m))
        if name in ('unit_or_zero',):
            return self._unint('unit_or_zero', R(), r, c, 'Vector')
        if name == 'imag':
            m = R()
            return Mat(3, 1, m.e[1:], 'Vector3')
        if name == 'hat':
            x, y, z = R().e
            return Mat(3, 3, [F, NEG(z), y, z, F, NEG(x), NEG(y), x, F], 'SquareMatrix')
        if name == 'renormalize':
            return self.mstore(S, obj, self._unint('renorm', R(), r, c, 'Dcm'))
        if name in ('rotateVector', 'rotate', 'conjugate_inversed'):
            return self._unint(name, R(), 3, 1, 'Vector3')
        if name == 'operator()':
            return self.melem(obj, [self.eval(a, S) for a in args], S, n)
        if name in ('non_zeros', 'index', 'atCompressedIndex'):
            ix = sparse_idx(obj.type if islv else getattr(obj, 'cls', ''), mang)
            if ix is None:
                raise AnalysisBroken(f'populated indices of the sparse vector unknown at {n.file}:{n.line}')
            if name == 'non_zeros':
                return lc(len(ix))
            k = ci(0)
            if not 0 <= k < len(ix):
                self.event('oob', name, S, (obj, k), n)
                return leaf(self.fresh_sym('sparse')) if hasattr(self, 'fresh_sym') else leaf(symbol(f'sparse:{n.line}'))
            if name == 'index':
                return lc(ix[k])
            return LV(obj.path + ((ix[k], 0),), 'float') if islv else obj.at(ix[k])
        raise AnalysisBroken(f'matrix method {name} not modelled at {n.file}:{n.line}')

    # ---- calls
    def callee(self, n):
        """(decl dict, Func or None)"""
        x = n
        while x is not None and x.kind in ('ImplicitCastExpr', 'ParenExpr'):
            x = x.inner[0]
        d = self.prog.decls[self.frames[-1].tu].get(x.ref) if x is not None and x.ref else None
        f = None
        if d is not None:
            f = self.prog.funcs.get(d.get('mangled')) if d.get('mangled') else None
            if f is None and d.get('mangled') is None:
                f = None
        return d, f, x

    def e_CXXMemberCallExpr(self, n, S):
        m = n.inner[0]
        while m.kind == 'ParenExpr':
            m = m.inner[0]
        args = n.inner[1:]
        d = self.prog.decls[self.frames[-1].tu].get(m.ref) if m.ref else None
        name = m.name or m.refname or (d or {}).get('name')
        obj = self.eval(m.inner[0], S)
        if m.x:
            obj = self.deref(self.rvalue(obj, S), strip_type(m.inner[0].type.rstrip('* ')), S)
        ot = m.inner[0].type
        ot = ot.strip()
        if m.x and ot.endswith('*'):
            ot = ot[:-1].strip()
        scope = (d or {}).get('scope') or ''
        if scope.startswith('matrix') or mshape(ot):
            if isinstance(obj, LV) and mshape(obj.type) is None and mshape(ot):
                obj = LV(obj.path, strip_type(ot))
            if isinstance(obj, DD) and mshape(ot):
                obj = self.tmp(S, obj, ot)
            return self.mmethod(name, obj, args, S, n, d)
        f = self.prog.funcs.get((d or {}).get('mangled')) if d else None
        if f is not None and f.virtual:
            f2 = self._override(f)
            f = f2 or f
        if isinstance(obj, (Struct, Mat, DD)):
            obj = self.tmp(S, obj, ot)
        if isinstance(obj, MatLV):
            obj = LV(obj.path, '')
        return self.dispatch(name, f, obj.path, args, S, n, d)

    def _override(self, f):
        for c in (self.dyn,):
            fs = [g for g in self.prog.funcs.values() if g.cls.split('::')[-1] == c and g.name == f.name and g.has_body and g.tqual == f.tqual]
            if fs:
                return fs[0]
        return None

    def e_CallExpr(self, n, S):
        d, f, x = self.callee(n.inner[0])
        args = n.inner[1:]
        name = (d or {}).get('name') or (x.refname if x is not None else None)
        if f is None and d is None and x is not None and x.kind not in ('DeclRefExpr',):
            raise AnalysisBroken(f'indirect call at {n.file}:{n.line}')
        if name == 'non_zeros' and x.kind == 'MemberExpr':
            # static member called on an object
            return self.mmethod(name, self.eval(x.inner[0], S), args, S, n, d)
        return self.dispatch(name, f, self.frames[-1].this, args, S, n, d)

    def dispatch(self, name, f, this, args, S, n, d):
        q = f.qual if f is not None else name
        h = self.hooks.get(name)
        if h is not None:
            r = h(self, f, this, args, S, n)
            if r is not NotImplemented:
                return r
        b = self.builtin(name, args, S, n, d, f)
        if b is not NotImplemented:
            return b
        if f is None or not f.has_body or name in self.opaque or (self.inline is not None and not self.inline(f)):
            return self.opaque_call(name, f, this, args, S, n, d)
        if sum(fr.fn is f for fr in self.frames) > 8:
            return self.opaque_call(name, f, this, args, S, n, d)
        return self.call(f, this, args, S, n)

    def call(self, f, this, args, S, n):
        fr = self._frame(f, this if not f.static else None)
        fr.this = this
        vals = []
        for i, (pid, pn, pt, dflt) in enumerate(f.params):
            if '(*)' in pt:
                pt = pt.replace('(*)', '') + ' *'
            a = args[i] if i < len(args) else None
            if a is None or a.kind == 'CXXDefaultArgExpr':
                if dflt is None:
                    # default argument of another declaration of the same function
                    dflt = self._default_arg(f, i)
                self.frames.append(fr)
                v = self.eval(dflt, S) if dflt is not None else leaf(symbol(f'default:{f.name}:{i}'))
                self.frames.pop()
            else:
                v = self._read(a, S) if pt.startswith('const ') and is_scalar(strip_type(pt.strip().rstrip('&'))) else self.eval(a, S)
            t = pt.strip()
            if t.endswith('&') or t.endswith('&&'):
                if isinstance(v, (LV, MatLV, GLV)):
                    if isinstance(v, MatLV) and True:
                        # slice bound to a matrix reference makes a temporary
                        if mshape(t) and mshape(t)[2] != 'Slice':
                            v = self.tmp(S, self.rmat(v, S), t)
                    vals.append((pid, v, True, t))
                else:
                    lv = self.tmp(S, v, t)
                    vals.append((pid, lv, True, t))
            else:
                if isinstance(v, LV) and '[' in (v.type or '') and t.endswith('*'):
                    v = leaf(addr(v.path))
                v = self.rvalue(v, S)
                vals.append((pid, v, False, t))
        for pid, v, isref, t in vals:
            if isref:
                fr.env[pid] = v
            else:
                path = (('L', (fr.uid, pid)),)
                lv = LV(path, strip_type(t) if not t.endswith('*') else t)
                self.regtype(path, lv.type)
                fr.env[pid] = lv
                if v is not None:
                    self.store(S, lv, v)
        w0 = S.w
        S2 = State()
        S2.d, S2.pc, S2.w = S.d, S.pc, set()
        cur, val = self._body(fr, S2)
        if cur.dead:
            S.d = {}
            S.dead = True
            return val
        S.d, S.pc, S.dead = cur.d, cur.pc, False
        S.w = w0 | cur.w
        val = self._one(val, S)
        if isinstance(val, LV) and isinstance(val.path[0], tuple) and val.path[0][0] == 'L':
            val = self.rvalue(val, S)
        return val

    def _default_arg(self, f, i):
        for g in self.prog.funcs.values():
            if g.key == f.key and g.params[i][3] is not None:
                return g.params[i][3]
        return None

    def opaque_call(self, name, f, this, args, S, n, d):
        vals = []
        for i, a in enumerate(args):
            if a is None or a.kind == 'CXXDefaultArgExpr':
                dflt = None
                if f is not None and i < len(f.params):
                    dflt = f.params[i][3] if f.params[i][3] is not None else self._default_arg(f, i)
                vals.append(self.eval(dflt, S) if dflt is not None else None)
                continue
            v = self.eval(a, S)
            vals.append(v)
        k = self.callno.get(name, 0)
        self.callno[name] = k + 1
        rv = [self.rvalue(v, S) if v is not None else None for v in vals]
        e = self.event('call', name, S, {'args': rv, 'lv': vals, 'this': this, 'f': f, 'n': k}, n)
        if e is not None:
            e.state = S.fork(S.pc)
        tag = f'{name}#{k}'
        if f is not None and f.has_body and name not in self.nomod:
            for p in sorted(modset(self.prog, f), key=repr):
                if p[0] == 'this':
                    self.havoc(S, this + p[1:], tag)
                elif p[0] == 'arg':
                    v = vals[p[1]] if p[1] < len(vals) else None
                    if isinstance(v, DD) and v.var is None and v.e.op == 'addr':
                        self.havoc(S, v.e.aux + p[2:], tag)
                    elif isinstance(v, LV):
                        self.havoc(S, v.path + p[2:], tag)
                    elif isinstance(v, MatLV):
                        self.havoc(S, v.path, tag)
                else:
                    self.havoc(S, p, tag)
        elif f is None or not f.has_body:
            # unknown function: may write through non-const pointers/references
            if not self._harmless(name):
                for v, a in zip(vals, args):
                    t = a.type.strip() if a is not None else ''
                    if isinstance(v, DD) and v.var is None and v.e.op == 'addr' and not t.startswith('const '):
                        self.havoc(S, v.e.aux, tag)
        rt = strip_type(f.ret if f is not None else n.type)
        if rt == 'void':
            return None
        if rt == 'bool':
            return bool_atom(symbol('ret:' + tag))
        sh = mshape(rt)
        if sh:
            return Mat(sh[0], sh[1], [leaf(symbol(f'ret:{tag}[{i},{j}]')) for i in range(sh[0]) for j in range(sh[1])], sh[2])
        if is_scalar(rt):
            return leaf(symbol('ret:' + tag))
        if self.prog.cls(rt):
            return Struct(rt, {p: (bool_atom(symbol(f'ret:{tag}.{pname(p)}')) if strip_type(t) == 'bool' else leaf(symbol(f'ret:{tag}.{pname(p)}'))) for p, t, b in self.struct_leaves(rt)})
        return leaf(symbol('ret:' + tag))

    def _harmless(self, name):
        return name in ('printf', 'fprintf', 'memcmp', 'strlen')

    MATH1 = {'sinf': 'sin', 'sin': 'sin', 'cosf': 'cos', 'cos': 'cos', 'tanf': 'tan', 'tan': 'tan', 'asinf': 'asin', 'asin': 'asin', 'acosf': 'acos', 'acos': 'acos',
             'atanf': 'atan', 'atan': 'atan', 'sqrtf': 'sqrt', 'sqrt': 'sqrt', 'expf': 'exp', 'exp': 'exp', 'logf': 'log', 'log': 'log', 'fabsf': 'abs', 'fabs': 'abs', 'abs': 'abs', 'labs': 'abs',
             'floorf': 'floor', 'floor': 'floor', 'ceilf': 'ceil', 'ceil': 'ceil', 'roundf': 'round', 'round': 'round', 'lroundf': 'round', 'truncf': 'trunc', 'trunc': 'trunc'}
    MATH2 = {'fmaxf': 'max', 'fmax': 'max', 'fminf': 'min', 'fmin': 'min', 'atan2f': 'atan2', 'atan2': 'atan2', 'powf': 'pow', 'pow': 'pow', 'fmodf': 'fmod', 'fmod': 'fmod', 'hypotf': 'hypot', 'hypot': 'hypot'}

    def builtin(self, name, args, S, n, d, f):
        scope = (d or {}).get('scope') or (f.cls if f is not None else '')
        if f is not None and f.has_body and scope.split('::')[0] not in ('matrix',):
            return NotImplemented

        def A(i):
            return self.rvalue(self.eval(args[i], S), S)
        if name in self.MATH1 and len(args) == 1:
            v = self.num(A(0))
            if name.rstrip('f') in ('sqrt', 'asin', 'acos', 'log'):
                self.event('math', self.MATH1[name], S, v, n)
            return FN(self.MATH1[name], v)
        if name in ('pow', 'powf') and len(args) == 2:
            a, b = self.num(A(0)), self.num(A(1))
            if b.var is None and isconst(b.e) and b.e.aux.denominator == 1 and 0 <= b.e.aux <= 8:
                r = T
                for _ in range(int(b.e.aux)):
                    r = MUL(r, a)
                return r
            if b.var is None and isconst(b.e) and b.e.aux.denominator == 2 and 0 < b.e.aux <= 8:
                r = FN('sqrt', a)
                for _ in range(int(b.e.aux)):
                    r = MUL(r, a)
                return r
            return FN('pow', a, b)
        if name in self.MATH2 and len(args) == 2:
            return FN(self.MATH2[name], self.num(A(0)), self.num(A(1)))
        if scope.split('::')[0] in ('std', '') and f is None:
            if name in ('min', 'max') and len(args) == 2:
                return FN(name, self.num(A(0)), self.num(A(1)))
            if name in ('move', 'forward', 'as_const') and len(args) == 1:
                return self.eval(args[0], S)
            if name == 'clamp' and len(args) == 3:
                return FN('max', self.num(A(1)), FN('min', self.num(A(0)), self.num(A(2))))
            if name == 'swap' and len(args) == 2:
                a, b = self.eval(args[0], S), self.eval(args[1], S)
                va, vb = self.rvalue(a, S), self.rvalue(b, S)
                self.store(S, a, vb)
                self.store(S, b, va)
                return None
        if scope == 'matrix' or scope.startswith('matrix'):
            if name in ('wrap_pi', 'wrap_2pi') and len(args) == 1:
                return FN(name, self.num(A(0)))
            if name in ('min', 'max') and len(args) == 2:
                a, b = A(0), A(1)
                if isinstance(a, Mat):
                    return Mat(a.r, a.c, [FN(name, x, self.num(b)) for x in a.e], a.k)
                return FN(name, self.num(a), self.num(b))
            if name == 'constrain':
                a, lo, hi = A(0), A(1), A(2)
                if isinstance(a, Mat):
                    los = lo.e if isinstance(lo, Mat) else [lo] * len(a.e)
                    his = hi.e if isinstance(hi, Mat) else [hi] * len(a.e)
                    return Mat(a.r, a.c, [FN('max', l, FN('min', x, h)) for x, l, h in zip(a.e, los, his)], a.k)
                return FN('max', self.num(lo), FN('min', self.num(a), self.num(hi)))
            if name == 'diag':
                v = A(0)
                return Mat(v.r, v.r, [v.e[i] if i == j else F for i in range(v.r) for j in range(v.r)], 'SquareMatrix')
            if name == 'eye':
                sh = mshape(n.type)
                return Mat(sh[0], sh[0], [T if i == j else F for i in range(sh[0]) for j in range(sh[0])], 'SquareMatrix')
            if name == 'sign':
                return leaf(fn('sign', (opaque(self.num(A(0))),)))
            if name in ('isEqual', 'isEqualF'):
                a, b = A(0), A(1)
                xs = [opaque(x) for x in (a.e + b.e if isinstance(a, Mat) else [self.num(a), self.num(b)])]
                return bool_atom(fn('isEqual', tuple(xs)))
            if name in ('wrap',):
                return FN('wrap', *[self.num(A(i)) for i in range(3)])
        if name in ('__builtin_nanf', '__builtin_nan', 'nanf', 'nan'):
            return leaf(symbol('nan'))
        if name in ('isfinite', '__builtin_isfinite', 'isnan', '__builtin_isnan', 'isinf', '__builtin_isinf', 'isinf_sign', '__builtin_isinf_sign'):
            nm = name.replace('__builtin_', '')
            nan = symbol('nan')
            return map1(nm, lambda x: (T if nm == 'isnan' else F) if x is nan else T if (nm == 'isfinite' and isconst(x)) else F if (nm != 'isfinite' and isconst(x)) else bool_atom(fn(nm, (x,))), self.num(A(0)))
        if name in ('printf', 'fprintf', 'puts'):
            for i in range(len(args)):
                self.eval(args[i], S)
            return F
        if name == 'memcpy' and len(args) == 3:
            dst, src = self._arrarg(args[0], S), self._arrarg(args[1], S)
            dl = dst if isinstance(dst, LV) and '[' in dst.type else self.deref(self.rvalue(dst, S), '', S)
            sl = src if isinstance(src, LV) and '[' in src.type else self.deref(self.rvalue(src, S), '', S)
            self._memcpy(dl, sl, args, S, n)
            return None
        if name == 'memset' and len(args) == 3:
            dst = self._arrarg(args[0], S)
            dl = dst if isinstance(dst, LV) and '[' in dst.type else self.deref(self.rvalue(dst, S), '', S)
            v = self.num(A(1))
            t = self._ptee(args[0])
            z = v if v is F else leaf(fn('memset', (opaque(v),)))
            sz = self.num(A(2))
            part = self._memset_extent(t, sz.e) if sz.var is None else None
            for i, (p, tt, b) in enumerate(self.struct_leaves(t)):
                if part is None:
                    self.setp(S, dl.path + p, leaf(fn('memset', (opaque(v), opaque(sz), const(i)))))
                elif i < part:
                    self.setp(S, dl.path + p, z)
            return None
        return NotImplemented

    def _arrarg(self, a, S):
        """an array passed where it decays to a pointer: the array itself"""
        x = a
        while x.kind in ('ImplicitCastExpr', 'CStyleCastExpr') and x.cast in ('BitCast', 'NoOp', 'ArrayToPointerDecay'):
            if x.cast == 'ArrayToPointerDecay':
                v = self.eval(x.inner[0], S)
                if isinstance(v, LV):
                    return v
                break
            x = x.inner[0]
        return self.eval(a, S)

    def _memset_extent(self, t, sz):
        """number of leading leaves of type t the size covers, None if it cannot be told"""
        L_ = self.struct_leaves(t)
        k = strip_type(t)
        base = lambda x: re.sub(r'^.*::', '', strip_type(x).replace('struct ', ''))
        if sz.op == 'sym' and str(sz.aux).startswith('sizeof:'):
            q = str(sz.aux)[7:]
            if base(q) == base(k):
                return len(L_)
            m = re.match(r'^(.*?)\s*((?:\[\d+\])+)$', k)
            if m and base(q) == base(m.group(1)):
                return len(self.struct_leaves(m.group(1)))
            return None
        if not isconst(sz):
            return None
        n, off = int(sz.aux), 0
        for i, (p, tt, b) in enumerate(L_):
            w = {'float': 4, 'double': 8}.get(strip_type(tt)) or (INTW.get(strip_type(tt), 0) + 7) // 8
            if b or not w:
                return len(L_) if n >= 8 * len(L_) else None
            off = (off + w - 1) // w * w + w
            if off > n:
                return i
        return len(L_)

    def _ptee(self, a):
        x = a
        while x.kind in ('ImplicitCastExpr', 'CStyleCastExpr') and x.cast in ('BitCast', 'NoOp', 'ArrayToPointerDecay', 'LValueToRValue'):
            if x.cast == 'ArrayToPointerDecay':
                return x.inner[0].type
            x = x.inner[0]
        t = x.type.strip()
        m = re.match(r'^(.*?)\s*\(\*(?:const)?\)\s*((?:\[\d+\])+)$', t)
        if m:
            return m.group(1) + m.group(2)
        return t[:-1].strip() if t.endswith('*') else t

    def _memcpy(self, dl, sl, args, S, n):
        t = self._ptee(args[1])
        t2 = self._ptee(args[0])
        L1 = self.struct_leaves(t)
        sz = self.num(self.rvalue(self.eval(args[2], S), S))
        if is_scalar(strip_type(t)) and sz.var is None and isconst(sz.e):
            es = {'float': 4, 'double': 8}.get(strip_type(t)) or (INTW.get(strip_type(t), 8) // 8)
            k = int(sz.e.aux) // es
            if k > 1:
                for i in range(k):
                    self.setp(S, dl.path + (i,), self.peek(S, sl.path + (i,), t))
                return
            if dl.path and '[' in t2:
                self.setp(S, dl.path + (0,), self.peek(S, sl.path, t))
                return
        for p, tt, b in L1:
            self.setp(S, dl.path + p, self.peek(S, sl.path + p, tt, b))

    def e_CXXOperatorCallExpr(self, n, S):
        d, f, x = self.callee(n.inner[0])
        op = (x.refname or (d or {}).get('name') or '').replace('operator', '')
        args = n.inner[1:]
        t0 = args[0].type
        scope = (d or {}).get('scope') or ''
        ismat = scope.startswith('matrix') or mshape(t0) or (len(args) > 1 and mshape(args[1].type) and op != '=')
        if ismat:
            if op == '()':
                obj = self.eval(args[0], S)
                if isinstance(obj, LV) and mshape(obj.type) is None:
                    obj = LV(obj.path, strip_type(t0))
                if isinstance(obj, DD):
                    obj = Mat(1, 1, [obj])
                return self.melem(obj, [self.eval(a, S) for a in args[1:]], S, n)
            if op == '=':
                v = self.eval(args[1], S)
                v = self.rvalue(v, S)
                lv = self.eval(args[0], S)
                if isinstance(lv, LV) and mshape(lv.type) is None:
                    lv = LV(lv.path, strip_type(t0))
                sh = mshape(args[1].type)
                if isinstance(v, Mat) and isinstance(lv, LV):
                    tk = mshape(lv.type)
                    if tk and v.k != tk[2] and (tk[2] in ('Dcm', 'Quaternion', 'Euler', 'AxisAngle')) and v.r * v.c != tk[0] * tk[1]:
                        v = self._matctor(tk, [v], S, n)
                self.mstore(S, lv, v)
                return lv
            if op in ('+=', '-=', '*=', '/='):
                b = self.rvalue(self.eval(args[1], S), S)
                lv = self.eval(args[0], S)
                if isinstance(lv, LV) and mshape(lv.type) is None:
                    lv = LV(lv.path, strip_type(t0))
                a = self.rmat(lv, S)
                if op == '/=':
                    self.event('div', 'float', S, (F, self.num(b)), n)
                self.mstore(S, lv, self.mop(op[0], a, b))
                return lv
            if op in ('==', '!='):
                a, b = self.rvalue(self.eval(args[0], S), S), self.rvalue(self.eval(args[1], S), S)
                r = bool_atom(fn('isEqual', tuple(opaque(z) for z in a.e + b.e)))
                return r if op == '==' else NOT(r)
            vals = [self.rvalue(self.eval(a, S), S) for a in args]
            vals = [v if isinstance(v, (Mat, DD)) else self.num(v) for v in vals]
            if len(vals) == 1:
                if op == '-':
                    return Mat(vals[0].r, vals[0].c, [NEG(z) for z in vals[0].e], vals[0].k)
                if op == '+':
                    return vals[0]
            if op == '/':
                self.event('div', 'float', S, (F, self.num(vals[1])), n)
            if op == '<<':
                return vals[0]
            # a 1x1 result
            r = self.mop(op, vals[0], vals[1])
            sh = mshape(n.type)
            if isinstance(r, Mat) and sh is None and is_scalar(n.type):
                return r.e[0]
            if isinstance(r, Mat) and sh and sh[2] in ('Quaternion', 'Vector3', 'Vector2', 'Dcm'):
                r.k = sh[2]
            return r
        if op == '=':
            # implicit assignment of a class
            if f is not None and f.has_body and not f.implicit:
                obj = self.eval(args[0], S)
                return self.dispatch('operator=', f, obj.path, args[1:], S, n, d)
            v = self.eval(args[1], S)
            v = self.rvalue(v, S)
            lv = self.eval(args[0], S)
            self.store(S, lv, v)
            return lv
        if f is not None and f.kind == 'CXXMethodDecl':
            obj = self.eval(args[0], S)
            if isinstance(obj, LV) and isinstance(S.d.get(obj.path), Closure):
                return self._lambda_call(S.d[obj.path], args[1:], S, n)
            if isinstance(obj, Closure):
                return self._lambda_call(obj, args[1:], S, n)
            if not isinstance(obj, LV):
                obj = self.tmp(S, obj, args[0].type)
            return self.dispatch('operator' + op, f, obj.path, args[1:], S, n, d)
        if op == '()':
            obj = self.eval(args[0], S)
            if isinstance(obj, LV):
                obj = S.d.get(obj.path)
            if isinstance(obj, Closure):
                return self._lambda_call(obj, args[1:], S, n)
        if f is not None and f.has_body:
            return self.dispatch(f.name, f, self.frames[-1].this, args, S, n, d)
        raise AnalysisBroken(f'operator {op} not supported at {n.file}:{n.line}')

    def e_LambdaExpr(self, n, S):
        c = Closure()
        rec = [x for x in n.inner if x is not None and x.kind == 'CXXRecordDecl']
        c.body = [x for x in n.inner if x is not None and x.kind == 'CompoundStmt'][-1]
        c.params = []
        c.impl = {}
        for r in rec:
            for m in r.inner:
                if m is not None and m.kind == 'CXXMethodDecl' and m.name == 'operator()':
                    c.params = [(p.id, p.name, p.type, None) for p in m.inner if p is not None and p.kind == 'ParmVarDecl']
                    c.ret = None
                for q in m.inner if m is not None and m.kind == 'FunctionTemplateDecl' else ():
                    # the instances of a generic call operator
                    if q is not None and q.kind == 'CXXMethodDecl':
                        b = [x for x in q.inner if x is not None and x.kind == 'CompoundStmt']
                        if b:
                            c.impl[q.id] = ([(p.id, p.name, p.type, None) for p in q.inner if p is not None and p.kind == 'ParmVarDecl'], b[-1])
        fr = self.frames[-1]
        c.env = dict(fr.env)
        for x in n.inner:
            if x is None or x.kind in ('CXXRecordDecl', 'CompoundStmt', 'DeclRefExpr', 'CXXThisExpr'):
                continue
            # captured by copy: the value it has here
            m = x
            while m is not None and m.kind != 'DeclRefExpr' and len(m.inner) == 1:
                m = m.inner[0]
            if m is None or m.kind != 'DeclRefExpr':
                raise AnalysisBroken(f'capture not supported at {n.file}:{n.line}')
            v = self.rvalue(self.eval(x, S), S)
            lv = LV((('L', (fr.uid, 'cap', n.id, m.ref)),), strip_type(m.type))
            self.regtype(lv.path, lv.type)
            self.store(S, lv, v)
            c.env[m.ref] = lv
        c.this = self.frames[-1].this
        c.tu = self.frames[-1].tu
        return c

    def _lambda_call(self, c, args, S, n):
        from .cxx import Func
        f = Func()
        f.key, f.name, f.cls, f.qual = f'lambda@{n.line}', 'lambda', '', self.frames[-1].fn.qual
        x = n.inner[0]
        while x is not None and x.kind in ('ImplicitCastExpr', 'ParenExpr'):
            x = x.inner[0]
        if c.impl and (x is None or x.ref not in c.impl):
            raise AnalysisBroken(f'instance of a generic lambda not found at {n.file}:{n.line}')
        params, body = c.impl[x.ref] if c.impl else (c.params, c.body)
        f.params, f.body, f.file, f.line, f.ret, f.tu = params, body, n.file, n.line, 'auto', c.tu
        f.inits, f.virtual, f.kind, f.const, f.has_body, f.static, f.pure, f.tqual, f.implicit = [], False, 'Lambda', False, True, False, False, '', False
        env = c.env
        orig = self._frame

        def mkf(fn_, this):
            fr = orig(fn_, this)
            fr.env.update(env)
            return fr
        self._frame = mkf
        try:
            # the frame is created first thing in call(); restore right after
            self._lam = True
            fr_args = args

            def once(fn_, this):
                self._frame = orig
                return mkf(fn_, this)
            self._frame = once
            return self.call(f, c.this, fr_args, S, n)
        finally:
            self._frame = orig

    def e_CXXNewExpr(self, n, S):
        self.heapn += 1
        nm = f'new#{self.heapn}'
        sz = None
        if n.inner:
            for c in n.inner:
                if c is not None and is_scalar(c.type or '') and (n.x or {}).get('array'):
                    sz = self.num(self.rvalue(self.eval(c, S), S))
                    break
        init = [c for c in n.inner if c is not None and c.kind in ('InitListExpr', 'ImplicitValueInitExpr', 'ParenListExpr')]
        init += [c for c in n.inner if c is not None and c.kind == 'CXXConstructExpr' and (n.x or {}).get('array')]
        self.event('new', n.type, S, (sz, bool(init), nm), n)
        e = addr((('heap', nm),))
        t = strip_type(n.type.strip().rstrip('*'))
        if (n.x or {}).get('array') and sz is not None and init:
            if sz.var is None and isconst(sz.e) and sz.e.aux <= 512:
                z = self.default_struct(t, S, True) if not is_scalar(t) and not mshape(t) else None
                for i in range(int(sz.e.aux)):
                    for p, tt, b in self.struct_leaves(t):
                        self.setp(S, e.aux + (i,) + p, z.d.get(p, F) if z is not None else F)
        if not (n.x or {}).get('array'):
            self.regtype(e.aux, t)
            ctor = [c for c in n.inner if c is not None and c.kind == 'CXXConstructExpr']
            if ctor:
                v = self.eval(ctor[0], S)
                if v is not None:
                    self.store(S, LV(e.aux, t), v)
            return leaf(e)
        # new[] may fail in the nothrow form
        if any(c is not None and 'nothrow' in (c.refname or '') for c in n.inner):
            return ITE(bool_atom(symbol(f'allocfail:{nm}')), leaf(NULL), leaf(e))
        return leaf(e)

    def e_CXXDeleteExpr(self, n, S):
        v = self.rvalue(self.eval(n.inner[0], S), S)
        self.event('delete', '', S, v, n)
        return None

    def e_CXXStdInitializerListExpr(self, n, S):
        return self.eval(n.inner[0], S)

    def e_OpaqueValueExpr(self, n, S):
        return self.eval(n.inner[0], S)


IDX = {}
NULL = mk('null', (), h61('null'))
TAG0 = leaf(mk('tag', (), h61('tag:entry'), 'entry'))


def addr(path):
    return mk('addr', (), h61('addr:' + repr(path)), path)


def _xor(a, b):
    return OR(AND(a, NOT(b)), AND(NOT(a), b))


def Node_like(n, kind):
    from .cxx import Node
    m = Node()
    for s in Node.__slots__:
        setattr(m, s, getattr(n, s))
    m.kind = kind
    return m


# ---------------------------------------------------------------- mod-sets
_mod = {}
_MUT = {'setZero', 'zero', 'setAll', 'setOne', 'setIdentity', 'identity', 'normalize', 'setRow', 'setCol', 'uncorrelateCovarianceSetVariance', 'uncorrelateCovariance',
        'makeBlockSymmetric', 'makeRowColSymmetric', 'invert', 'canonicalize', 'renormalize'}


_ment = {}


def mentioned(prog, f, seen=None):
    """names of the members that a function or anything it calls mentions"""
    if f.key in _ment:
        return _ment[f.key]
    top = seen is None
    seen = seen if seen is not None else set()
    out = set()
    if f.key in seen:
        return out
    seen.add(f.key)

    def go(n):
        if n is None:
            return
        if n.kind in ('MemberExpr', 'CXXDependentScopeMemberExpr') and n.name:
            out.add(n.name)
        d = prog.decls[f.tu].get(n.ref) if n.ref else None
        if d and d.get('mangled'):
            g = prog.funcs.get(d['mangled'])
            if g is not None and g.has_body:
                out.update(mentioned(prog, g, seen))
                if g.virtual:
                    for h in prog.funcs.values():
                        if h.name == g.name and h.has_body and h is not g:
                            out.update(mentioned(prog, h, seen))
        for c in n.inner:
            go(c)
    go(f.body)
    if top:
        _ment[f.key] = out
    return out


def modset(prog, f, stack=()):
    """Locations a function may write, relative to this / its arguments / globals, over its whole call closure."""
    k = f.key
    if k in _mod:
        return _mod[k]
    if f in stack or len(stack) > 60:
        return set()
    out = set()
    tu = f.tu
    params = {p[0]: i for i, p in enumerate(f.params)}
    ptypes = {p[0]: p[2] for p in f.params}
    alias = {}

    def root(n):
        """path of an lvalue expression or None for a local"""
        while n is not None and n.kind in ('ParenExpr', 'ImplicitCastExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXConstCastExpr',
                                           'CXXReinterpretCastExpr', 'CXXFunctionalCastExpr', 'CXXBindTemporaryExpr', 'ConstantExpr'):
            if not n.inner:
                return None
            n = n.inner[0]
        if n is None:
            return None
        kd = n.kind
        if kd == 'CXXThisExpr':
            return ('this',)
        if kd == 'MemberExpr':
            b = root(n.inner[0])
            if b is None:
                return None
            return b + (n.name,)
        if kd == 'ArraySubscriptExpr':
            return root(n.inner[0])
        if kd == 'CXXOperatorCallExpr':
            x = n.inner[0]
            while x.kind == 'ImplicitCastExpr':
                x = x.inner[0]
            if x.refname in ('operator()', 'operator[]', 'operator=', 'operator+=', 'operator-=', 'operator*=', 'operator->', 'operator*'):
                return root(n.inner[1])
            return None
        if kd == 'CXXMemberCallExpr':
            m = n.inner[0]
            if m.kind == 'MemberExpr':
                return root(m.inner[0])
            return None
        if kd == 'UnaryOperator' and n.op in ('*', '&', '++', '--'):
            return root(n.inner[0])
        if kd in ('BinaryOperator', 'CompoundAssignOperator') and (n.op.endswith('=')):
            return root(n.inner[0])
        if kd == 'ConditionalOperator':
            return root(n.inner[1]) or root(n.inner[2])
        if kd == 'DeclRefExpr':
            if n.ref in alias:
                return alias[n.ref]
            if n.ref in params:
                t = ptypes[n.ref].strip()
                if t.endswith('&') or t.endswith('*') or t.endswith(']'):
                    return ('arg', params[n.ref])
                return None
            d = prog.decls[tu].get(n.ref)
            q = prog.gid.get((tu, n.ref))
            if q:
                return (('glob', q),)
            return None
        return None

    def wr(n):
        p = root(n)
        if p is not None:
            out.add(p)

    def visit(n):
        if n is None:
            return
        kd = n.kind
        if kd == 'VarDecl':
            t = n.type.strip()
            init = [c for c in n.inner if c is not None]
            if init and (t.endswith('&') or t.endswith('*')):
                r = root(init[-1])
                if r is not None:
                    alias[n.id] = r
        if kd in ('BinaryOperator', 'CompoundAssignOperator') and n.op.endswith('=') and n.op not in ('==', '!=', '<=', '>='):
            wr(n.inner[0])
        elif kd == 'UnaryOperator' and n.op in ('++', '--'):
            wr(n.inner[0])
        elif kd == 'CXXOperatorCallExpr':
            x = n.inner[0]
            while x.kind == 'ImplicitCastExpr':
                x = x.inner[0]
            o = (x.refname or '').replace('operator', '')
            if o in ('=', '+=', '-=', '*=', '/=', '|=', '&=', '++', '--'):
                wr(n.inner[1])
            d = prog.decls[tu].get(x.ref) if x.ref else None
            g = prog.funcs.get((d or {}).get('mangled'))
            if g is not None and g.has_body:
                sub = modset(prog, g, stack + (f,))
                ismeth = g.kind == 'CXXMethodDecl'
                for p in sub:
                    if p[0] == 'this' and ismeth:
                        r = root(n.inner[1])
                        if r is not None:
                            out.add(r + p[1:])
        elif kd == 'CXXMemberCallExpr':
            m = n.inner[0]
            if m.kind == 'MemberExpr':
                d = prog.decls[tu].get(m.ref) or {}
                if m.name in _MUT and 'matrix' in (d.get('scope') or 'matrix'):
                    wr(m.inner[0])
                if m.name == 'copyTo':
                    wr(n.inner[1])
                g = prog.funcs.get(d.get('mangled')) if d.get('mangled') else None
                cands = [g] if g is not None else []
                if g is not None and g.virtual:
                    cands = [h for h in prog.funcs.values() if h.name == g.name and h.tqual == g.tqual and h.has_body] or [g]
                for g in cands:
                    if g.has_body:
                        r = root(m.inner[0])
                        for p in modset(prog, g, stack + (f,)):
                            if p[0] == 'this':
                                if r is not None:
                                    out.add(r + p[1:])
                            elif p[0] == 'arg':
                                if p[1] + 1 < len(n.inner):
                                    q = root(n.inner[p[1] + 1])
                                    if q is not None:
                                        out.add(q + p[2:])
                            else:
                                out.add(p)
        elif kd == 'CallExpr':
            x = n.inner[0]
            while x.kind in ('ImplicitCastExpr', 'ParenExpr'):
                x = x.inner[0]
            d = prog.decls[tu].get(x.ref) if x.ref else None
            g = prog.funcs.get((d or {}).get('mangled')) if d else None
            if g is not None and g.has_body:
                for p in modset(prog, g, stack + (f,)):
                    if p[0] == 'arg' and p[1] + 1 < len(n.inner):
                        q = root(n.inner[p[1] + 1])
                        if q is not None:
                            out.add(q + p[2:])
                    elif p[0] == 'this':
                        out.add(p)
                    elif p[0] != 'arg':
                        out.add(p)
            elif (x.refname or '') in ('memcpy', 'memset'):
                wr(n.inner[1])
        for c in n.inner:
            visit(c)
    visit(f.body)
    for i in f.inits:
        if i.name:
            out.add(('this', i.name))
    # keep maximal prefixes only
    out = {p for p in out if not any(q != p and p[:len(q)] == q for q in out)}
    if not stack:
        _mod[k] = out
    elif len(stack) >= 1:
        _mod[k] = out
    return out
