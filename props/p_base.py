"""Header-only helpers: math, first-order filter, ring buffer."""
from vfa.harness import *

PROBE = '/verif/shim/probe_templates.cpp'
PROBE = os.path.join(VERIF, 'shim', 'probe_templates.cpp')


def s(n):
    return leaf(symbol(n))


def at(fl, *path, t=None):
    return fl.peek(fl.S, ('this',) + path, t)


@prop('M01', 20)
def mathlib(c):
    c.load(PROBE)
    for ty in ('float', 'double', 'int', 'unsigned'):
        V.TYPE_IV.clear()
        a, b, d = s('arg0'), s('arg1'), s('arg2')
        if ty == 'unsigned':
            for n in ('arg0', 'arg1', 'arg2'):
                V.TYPE_IV[n] = UNSIGNED['unsigned int']
        for nm, lessfirst in (('min', True), ('max', False)):
            fl = c.flow(f'probe::{nm}_{ty}')
            c.eq(nm, f'{nm}<{ty}> returns the {"smaller" if lessfirst else "larger"} argument', fl.v, FN(nm, a, b), loc(fl.f))
        fl = c.flow(f'probe::constrain_{ty}')
        sane = TRUE.and_(cmpdd('<=', b, d))
        for w, cond, want in (('below the lower limit', cmpdd('<', a, b), b), ('above the upper limit', cmpdd('>', a, d), d)):
            pc = sane.and_(cond)
            c.eq('constrain', f'constrain<{ty}> of a value {w} is that limit', unfold(fl.v, pc), want, loc(fl.f), pc)
        pc = sane.and_(AND(cmpdd('>=', a, b), cmpdd('<=', a, d)))
        c.eq('constrain', f'constrain<{ty}> of a value inside the limits is the value itself', unfold(fl.v, pc), a, loc(fl.f), pc)
    for ty in ('float', 'double'):
        a = s('arg0')
        k = leaf(div(pi_const(), const(180)))
        fl = c.flow(f'probe::radians_{ty}')
        c.eq('angle', f'radians<{ty}> multiplies by pi/180', fl.v, MUL(a, k), loc(fl.f))
        fl = c.flow(f'probe::degrees_{ty}')
        c.eq('angle', f'degrees<{ty}> multiplies by 180/pi', fl.v, DIV(a, k), loc(fl.f))
        fl = c.flow(f'probe::there_and_back_{ty}')
        c.eq('angle', f'radians<{ty}>(degrees(x)) is x', fl.v, a, loc(fl.f))


@prop('A01', 14)
def alpha_filter(c):
    c.load(PROBE)
    for ty in ('float', 'double'):
        K = f'AlphaFilter<{ty}>::'
        al, st, x = s('this._alpha'), s('this._filter_state'), s('arg0')
        fl = c.flow(K + 'update')
        want = ADD(MUL(SUB(T, al), st), MUL(al, x))
        c.eq('update', f'update<{ty}> blends state and sample with weight alpha', at(fl, '_filter_state', t=ty), want, loc(fl.f))
        c.eq('update', f'update<{ty}> returns the new state', fl.rvalue(fl.v, fl.S), want, loc(fl.f))
        c.eq('update', f'update<{ty}> leaves alpha alone', at(fl, '_alpha', t='float'), al, loc(fl.f))
        fl = c.flow(K + 'setParameters')
        dt, tc = s('arg0'), s('arg1')
        den = ADD(dt, tc)
        pc = TRUE.and_(cmpdd('>', den, lc(Fraction('1.1920929e-07'))))
        got = at(fl, '_alpha', t='float')
        c.eq('parameters', f'setParameters<{ty}>: alpha = interval / (time constant + interval)', got, DIV(dt, den), loc(fl.f), pc)
        pc = TRUE.and_(cmpdd('<=', den, F))
        c.eq('parameters', f'setParameters<{ty}>: a degenerate time base changes nothing', got, al, loc(fl.f), pc)
        c.eq('parameters', f'setParameters<{ty}> leaves the state alone', at(fl, '_filter_state', t=ty), st, loc(fl.f))
        for e in fl.events:
            if e.kind == 'div':
                z = cmpdd('==', e.data[1] if isinstance(e.data, tuple) else e.data, F)
                c.never('parameters', f'setParameters<{ty}> never divides by zero', z, evloc(e), e.pc)
        fl = c.flow(K + 'setAlpha')
        c.eq('set', f'setAlpha<{ty}> stores its argument', at(fl, '_alpha', t='float'), x, loc(fl.f))
        c.eq('set', f'setAlpha<{ty}> leaves the state alone', at(fl, '_filter_state', t=ty), st, loc(fl.f))
        fl = c.flow(K + 'reset')
        c.eq('reset', f'reset<{ty}> makes the sample the state', at(fl, '_filter_state', t=ty), x, loc(fl.f))
        c.eq('reset', f'reset<{ty}> leaves alpha alone', at(fl, '_alpha', t='float'), al, loc(fl.f))
        fl = c.flow(K + 'getState')
        c.eq('get', f'getState<{ty}> returns the state', fl.rvalue(fl.v, fl.S), st, loc(fl.f))


# ---------------------------------------------------------------- ring buffer
RB = 'RingBuffer<probe::Sample>::'
OLD = (('heap', 'old'),)


def rb_state(size, head, tail, first, null=False):
    S = State()
    S.d[('this', '_size')] = lc(size)
    S.d[('this', '_head')] = lc(head)
    S.d[('this', '_tail')] = lc(tail)
    S.d[('this', '_first_write')] = T if first else F
    S.d[('this', '_buffer')] = leaf(V_NULL()) if null else leaf(addr(OLD))
    for i in range(size):
        S.d[OLD + (i, 'time_us')] = elem_t(i)
        S.d[OLD + (i, 'value')] = s(f'v{i}')
    return S


def V_NULL():
    return FL.NULL


def elem_t(i):
    V.TYPE_IV[f't{i}'] = (1.0, 1e18)      # a stored sample has a time stamp
    return s(f't{i}')


def entries(size, head, tail, first):
    """slots holding the retained samples, oldest first"""
    if first:
        return []
    out, i = [], tail
    while True:
        out.append(i)
        if i == head:
            return out
        i = (i + 1) % size


def states(tier):
    big = [(255, h, t, f) for h, t, f in ((254, 0, False), (0, 1, False), (253, 0, False), (254, 254, True), (0, 0, False), (100, 101, False), (254, 253, False))]
    out = []
    for n in range(1, 6 if tier == 'quick' else 9):
        out += [(n, h, t, False) for h in range(n) for t in range(n)] + [(n, h, h, True) for h in range(n)]
    return out, big


def fixed(c, d, what, where):
    c.must('state', f'{what} is determined by size, head, tail and emptiness', isinstance(d, DD) and d.var is None and isconst(d.e), where)
    return int(d.e.aux)


def rb_read(fl, *p, t='uint8_t'):
    return fl.peek(fl.S, ('this',) + p, t)


def slot(fl, c, i, f, where):
    """content of slot i through the pointer member"""
    b = rb_read(fl, '_buffer', t='probe::Sample *')
    lv = fl.deref(b, 'probe::Sample', fl.S)
    return fl.peek(fl.S, lv.path + (i, f), 'uint64_t' if f == 'time_us' else 'float')


def check_bounds(c, fl, size, st):
    for e in fl.events:
        if e.kind == 'index' and e.data[0].path[:1] == OLD:
            iv = e.pc.simp(e.data[1])
            c.ob('bounds', f'{fl.f.name}: slot index within the {size} slots in state {st}', all(isconst(x) and 0 <= x.aux < size for x in leaves(iv)), evloc(e), f'index {showdd(iv)}')
        elif e.kind in ('mod', 'div') and False:
            pass


@prop('R01', 300)
def ring_store(c):
    """From every control state (size, head, tail, empty) push yields the old content plus the new sample, dropping only the oldest."""
    c.load(PROBE)
    small, big = states(c.tier)
    for st in small + big:
        size, head, tail, first = st
        old = entries(*st)
        fl = c.flow(RB + 'push', state=rb_state(*st), args={0: Struct('probe::Sample', {('time_us',): s('tnew'), ('value',): s('vnew')})})
        w = loc(fl.f)
        check_bounds(c, fl, size, st)
        h2, t2, f2 = (fixed(c, rb_read(fl, n), n, w) for n in ('_head', '_tail', '_first_write'))
        ok = c.ob('push', f'state {st}: positions stay inside the buffer and it is not empty afterwards', 0 <= h2 < size and 0 <= t2 < size and f2 == 0, w, f'head {h2} tail {t2} empty {f2}')
        if not ok:
            continue
        new = entries(size, h2, t2, False)
        want = (old + ['new'])[-size:]
        c.ob('push', f'state {st}: holds {len(want)} samples afterwards', len(new) == len(want), w, f'{len(new)} retained')
        if len(new) == len(want):
            for i, o in zip(new, want):
                if len(want) > 20 and o != 'new' and o not in (want[0], want[-2]):
                    continue
                nm = ('tnew', 'vnew') if o == 'new' else (f't{o}', f'v{o}')
                c.eq('push', f'state {st}: sample order oldest to newest (slot {i})', slot(fl, c, i, 'time_us', w), s(nm[0]), w)
                c.eq('push', f'state {st}: sample content (slot {i})', slot(fl, c, i, 'value', w), s(nm[1]), w)
        c.eq('push', f'state {st}: capacity unchanged', rb_read(fl, '_size'), lc(size), w)
    for st in small:
        size, head, tail, first = st
        if first:
            continue
        e = entries(*st)
        for m, i in (('get_newest', e[-1]), ('get_oldest', e[0])):
            fs = [f for f in c.prog.find(RB + m)]
            for f in fs:
                fl = c.flow(None, f=f, state=rb_state(*st))
                v = fl.rvalue(fl.v, fl.S)
                c.eq('access', f'{m} in state {st}', v.d[('time_us',)], s(f't{i}'), loc(f))
        fl = c.flow(RB + 'get_oldest_index', state=rb_state(*st))
        c.eq('access', f'get_oldest_index in state {st}', fl.v, lc(e[0]), loc(fl.f))
        fl = c.flow(RB + 'get_length', state=rb_state(*st))
        c.eq('access', f'get_length in state {st}', fl.v, lc(size), loc(fl.f))
        for i in range(size):
            fl = c.flow(RB + 'operator[]', state=rb_state(*st), args={0: lc(i)})
            c.eq('access', f'operator[] {i} in state {st}', fl.rvalue(fl.v, fl.S).d[('time_us',)], s(f't{i}'), loc(fl.f))
    allocation(c)


def allocation(c):
    for size in (0, 1, 3, 255):
        for n in (0, 1, 2, 3, 254, 255):
            null = size == 0
            fl = c.flow(RB + 'allocate', state=rb_state(size, 0, max(0, size - 1), False, null), args={0: lc(n)})
            w = loc(fl.f)
            dels = [e for e in fl.events if e.kind == 'delete' and not (is_leaf(e.data) and e.data.e.op == 'null')]
            news = [e for e in fl.events if e.kind == 'new']
            if n == size and not null or n == 0:
                c.eq('allocate', f'allocate({n}) with {size} slots keeps the content', rb_read(fl, '_buffer', t='probe::Sample *'), leaf(V_NULL()) if null else leaf(addr(OLD)), w)
                c.ob('allocate', f'allocate({n}) with {size} slots touches no memory', not dels and not news, w)
                if n:
                    c.eq('allocate', f'allocate({n}) with {size} slots keeps the newest position', rb_read(fl, '_head'), F, w)
                    c.eq('allocate', f'allocate({n}) with {size} slots keeps the oldest position', rb_read(fl, '_tail'), lc(max(0, size - 1)), w)
                    c.eq('allocate', f'allocate({n}) with {size} slots keeps the fill state', rb_read(fl, '_first_write'), F, w)
                c.eq('allocate', f'allocate({n}) with {size} slots result', fl.v, T if n else F, w)
                continue
            c.eq('allocate', f'allocate({n}) with {size} slots succeeds', fl.v, T, w)
            c.ob('allocate', f'allocate({n}) with {size} slots releases the old block exactly once', len(dels) == (0 if null else 1) and all(is_leaf(e.data) and e.data.e.op == 'addr' and e.data.e.aux == OLD and e.pc.entails(T) for e in dels), w)
            c.ob('allocate', f'allocate({n}) with {size} slots obtains one block of that size', len(news) == 1 and news[0].data[0] is lc(n), w, f'{[showdd(e.data[0]) for e in news]}')
            if len(news) != 1:
                continue
            h = (('heap', news[0].data[2]),)
            c.eq('allocate', f'allocate({n}) with {size} slots installs the new block', rb_read(fl, '_buffer', t='probe::Sample *'), leaf(addr(h)), w)
            c.eq('allocate', f'allocate({n}) with {size} slots: capacity', rb_read(fl, '_size'), lc(n), w)
            h2, t2, f2 = (fixed(c, rb_read(fl, q), q, w) for q in ('_head', '_tail', '_first_write'))
            c.ob('allocate', f'allocate({n}) with {size} slots: empty afterwards', f2 == 1 and h2 == t2 and 0 <= h2 < n, w, f'head {h2} tail {t2} empty {f2}')
            for i in {0, n // 2, n - 1}:
                c.eq('allocate', f'allocate({n}) with {size} slots: slot {i} starts without a time stamp', fl.peek(fl.S, h + (i, 'time_us'), 'uint64_t'), F, w)
    f = [x for x in c.prog.funcs.values() if x.cls == 'RingBuffer<probe::Sample>' and x.name.startswith('~')]
    c.need(len(f) == 1 and f[0].has_body, 'ring buffer destructor')
    fl = c.flow(None, f=f[0], state=rb_state(3, 0, 0, False))
    dels = [e for e in fl.events if e.kind == 'delete']
    c.ob('allocate', 'destruction releases the block exactly once', len(dels) == 1 and is_leaf(dels[0].data) and dels[0].data.e.aux == OLD, loc(f[0]))


@prop('R02', 300)
def ring_pop(c):
    """From every control state pop returns the newest retained sample not newer than the query and less than 100 ms old, or nothing."""
    c.load(PROBE)
    small, big = states(c.tier)
    V.TYPE_IV['now'] = (0.0, 1e18)
    now = s('now')
    for st in small:
        size, head, tail, first = st
        ent = entries(*st)
        S = rb_state(*st)
        for i in range(size):
            if i not in ent:
                # a slot outside the retained range holds whatever is left there
                S.d[OLD + (i, 'time_us')] = s(f'stale{i}')
        fl = c.flow(RB + 'pop_first_older_than', state=S, args={0: now})
        w = loc(fl.f)
        check_bounds(c, fl, size, st)
        out = (('arg', 1),)
        got = {k: fl.peek(fl.S, out + (k,), t) for k, t in (('time_us', 'uint64_t'), ('value', 'float'))}
        # the specified choice
        ret, smp = F, {k: leaf(symbol(f'arg1.{k}')) for k in got}
        for i in ent:          # oldest to newest: the newest match wins
            m = AND(cmpdd('>=', now, s(f't{i}')), cmpdd('<', now, ADD(s(f't{i}'), lc(100000))))
            ret = ITE(m, T, ret)
            smp = {'time_us': ITE(m, s(f't{i}'), smp['time_us']), 'value': ITE(m, s(f'v{i}'), smp['value'])}
        c.eq('pop', f'state {st}: reports whether a usable sample is stored', fl.bool(fl.v), ret, w)
        for k in got:
            c.eq('pop', f'state {st}: hands out that sample ({k})', got[k], smp[k], w)
        # what stays
        above = F
        for n, i in reversed(list(enumerate(ent))):
            m = AND(NOT(above), AND(cmpdd('>=', now, s(f't{i}')), cmpdd('<', now, ADD(s(f't{i}'), lc(100000)))))
            above = OR(above, m)
            pc = TRUE.and_(m)
            if pc.false:
                continue
            keep = ent[n + 1:]
            c.eq('retain', f'state {st}: newest position after taking sample {n + 1} of {len(ent)}', rb_read(fl, '_head'), lc(head), w, pc)
            c.eq('retain', f'state {st}: empty exactly when the newest was taken (sample {n + 1})', rb_read(fl, '_first_write'), F if keep else T, w, pc)
            c.eq('retain', f'state {st}: older samples dropped, newer kept (sample {n + 1})', rb_read(fl, '_tail'), lc(keep[0] if keep else head), w, pc)
            for j in keep:
                c.eq('retain', f'state {st}: kept sample in slot {j} unchanged', slot(fl, c, j, 'time_us', w), s(f't{j}'), w, pc)
                c.eq('retain', f'state {st}: kept sample in slot {j} unchanged (value)', slot(fl, c, j, 'value', w), s(f'v{j}'), w, pc)
        pc = TRUE.and_(NOT(above))
        for n, v in (('_head', head), ('_tail', tail), ('_first_write', 1 if first else 0)):
            c.eq('retain', f'state {st}: {n.strip("_")} unchanged when nothing is handed out', rb_read(fl, n), lc(v), w, pc)
        for j in ent:
            c.eq('retain', f'state {st}: stored sample in slot {j} unchanged when nothing is handed out', slot(fl, c, j, 'time_us', w), s(f't{j}'), w, pc)
