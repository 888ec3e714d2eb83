"""How the library runs: nothing outside its objects, and every call returns."""
import re
import time
from vfa.harness import *
from vfa.ir import IR, unset_reads, SYM, CALL, _args

LIBM = {'acos', 'asin', 'atan', 'atan2', 'cos', 'sin', 'tan', 'acosh', 'asinh', 'atanh', 'cosh', 'sinh', 'tanh', 'exp', 'exp2', 'expm1', 'log', 'log10', 'log1p', 'log2', 'pow', 'sqrt', 'cbrt',
        'hypot', 'fabs', 'floor', 'ceil', 'round', 'lround', 'llround', 'trunc', 'rint', 'nearbyint', 'lrint', 'llrint', 'fmod', 'remainder', 'fmin', 'fmax', 'fma', 'fdim', 'copysign', 'frexp',
        'ldexp', 'modf', 'scalbn', 'logb', 'ilogb', 'erf', 'erfc', 'nan', 'sincos', 'abs', 'labs', 'llabs', 'nextafter', 'isnan', 'isinf', 'finite', '__isnan', '__isinf', '__finite'}
LIBM |= {n + s for n in LIBM for s in 'fl'}
MEMORY = {'memcpy', 'memmove', 'memset', 'memcmp', 'strlen', 'strcmp', 'strncmp', 'strncpy', 'memchr', 'strnlen'}
HEAP = {'_Znwm', '_Znam', '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'malloc', 'calloc', 'realloc', 'free', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t', 'aligned_alloc', '_ZnwmSt11align_val_t',
        '_ZnamSt11align_val_t', '_ZdlPvSt11align_val_t', '_ZdaPvSt11align_val_t', '_ZdlPvRKSt9nothrow_t', '_ZdaPvRKSt9nothrow_t', '_ZdlPvmSt11align_val_t', '_ZdaPvmSt11align_val_t'}
GET = {h for h in HEAP if h.startswith(('_Zn', 'mal', 'cal', 'rea', 'ali'))}
LOG = {'printf', 'fprintf', 'puts', 'putchar', 'fputs', 'fputc', 'snprintf', 'vprintf', 'vfprintf', 'fwrite', 'fflush'}
RUNTIME = {'__gxx_personality_v0', '__cxa_pure_virtual', '__cxa_guard_acquire', '__cxa_guard_release', '__cxa_guard_abort', '_Unwind_Resume', '__cxa_begin_catch', '__cxa_end_catch',
           '__cxa_atexit', '__clang_call_terminate', '_ZSt9terminatev'}
# what never hands control back, or says when
LEAVE = {'abort', 'exit', '_exit', '_Exit', 'quick_exit', 'longjmp', '__cxa_throw', '__cxa_rethrow', 'raise', '__assert_fail', '_ZSt9terminatev', '__cxa_throw_bad_array_new_length'}
PURE_INTRINSIC = ('llvm.',)


def known(n):
    n = n[1:].strip('"')
    return n in LIBM or n in MEMORY or n in HEAP or n in LOG or n in RUNTIME or n.startswith('llvm.') and not n.startswith(('llvm.readcyclecounter', 'llvm.readsteadycounter', 'llvm.read_volatile', 'llvm.readsteady'))


def intrinsic_kind(n):
    return n[1:].strip('"')


@prop('P04', 150)
def instances(c):
    """Nothing outlives a call but the objects themselves: equal histories give equal results."""
    ir = IR()
    c.explain = 'Effect analysis of the LLVM IR of every translation unit (unoptimised, nothing is run): each global is constant or never written, each call leaves for a listed function of its arguments.'
    for f in ir.fns.values():
        if ir.ours(f):
            c.scope.add(f'{f.file[len(REPO) + 1:]}:{ir.pretty[f.name].split("(")[0]}')
    guards = set()
    nglob = 0
    for u in ir.units:
        for n, g in sorted(u.globs.items()):
            if ' alias ' in f' {g.text} ' or g.text.startswith('external'):
                continue
            nm = ir.pretty.get(n, n)
            if nm.startswith(('vtable for', 'typeinfo', 'VTT for')) or n.startswith(('@.str', '@__const', '@switch.table')) and g.const:
                continue
            if nm.startswith('guard variable for') or n == '@llvm.global_ctors' or n == '@__dso_handle':
                guards.add(n)
                continue
            nglob += 1
            w = f'{(g.file or u.src).replace(REPO + "/", "")}:{g.line} {nm}'
            if g.const:
                c.ob('global', f'{nm} does not change', True, w)
                continue
            ok, why = unwritten(ir, u, n, g)
            c.ob('global', f'{nm} does not change', ok, w, why)
    c.need(nglob > 5, 'globals of the library')
    # what the library calls
    for n, f in sorted(ir.fns.items()):
        if not ir.ours(f):
            continue
        outside = sorted({k for k, _ in f.calls if k not in ir.fns})
        bad = [k for k in outside if not known(k) and k not in aliases(ir)]
        c.ob('calls', f'{ir.pretty[n].split("(")[0]}: what it calls depends on its arguments alone', not bad, ir.where(f, next((l for k, l in f.calls if k in bad), 0)),
             lambda: 'calls ' + ', '.join(ir.pretty.get(k, k) for k in bad))
        asm = [ln for ln in f.lines if ' asm ' in ln and CALL.search(ln)]
        c.ob('calls', f'{ir.pretty[n].split("(")[0]}: no instructions outside the language', not asm, ir.where(f), lambda: asm[0].strip()[:120])
        vol = [ln for ln in f.lines if re.search(r'\b(load|store) volatile\b|\batomicrmw\b|\bcmpxchg\b', ln)]
        c.ob('calls', f'{ir.pretty[n].split("(")[0]}: no memory that others change', not vol, ir.where(f), lambda: vol[0].strip()[:120])
        # external objects (errno, environ, stdin, ...) may only be handed to logging
        ext = sorted({r for r in f.refs if any(r in u.globs and u.globs[r].text.startswith('external') for u in ir.units) and not r.startswith(('@_ZTV', '@_ZTI', '@_ZTS'))} - {'@stderr', '@stdout'})
        c.ob('calls', f'{ir.pretty[n].split("(")[0]}: no object of another library', not ext, ir.where(f), lambda: ', '.join(ext))
    unset(c, ir)
    copies(c)
    c.note(f'{nglob} globals, {len(c.scope)} functions.')


def unset(c, ir):
    """no local is read before it has a value: what the compiler finds possible on some path is decided under the conditions of the paths"""
    maybe = {}
    seen = set()
    for u in ir.units:
        for n, f in u.fns.items():
            if not ir.ours(f) or n in seen:
                continue
            seen.add(n)
            hits = unset_reads(f)
            sure = [h for h in hits if h[2]]
            if not hits:
                c.ob('defined', f'{ir.pretty[n].split("(")[0]} reads no variable before it has a value', True)
            elif sure:
                c.ob('defined', f'{ir.pretty[n].split("(")[0]} reads no variable before it has a value', False, ir.where(f, u.line(sure[0][0])), 'no path to this read sets it')
            else:
                maybe.setdefault(u.src, []).append(n)
    c.need(len(seen) > 300, 'functions')
    for src, ns in sorted(maybe.items()):
        c.load(src)
        for n in ns:
            q = ir.pretty[n].split('(')[0]
            fs = [f for f in c.prog.funcs.values() if f.qual == q and f.has_body]
            if len(fs) > 1:
                fs = [f for f in fs if len(f.params) + (0 if f.static or not f.cls else 1) == len(ir.fns[n].sig[1])]
            at = ir.where(ir.fns[n])
            if len(fs) != 1:
                c.note(f'{q} was not looked at along its paths.')
                continue
            k = c.n
            try:
                c.flow(None, f=fs[0], until=time.time() + 90)
            except (AnalysisBroken, AttributeError, TypeError, RecursionError) as e:
                c.note(f'{q} could not be followed along its paths ({str(e)[:80]}).')
                continue
            if c.n == k:
                c.ob('defined', f'{q} reads no variable before it has a value', True, at)


def aliases(ir):
    return {n for u in ir.units for n, g in u.globs.items() if ' alias ' in f' {g.text} '}


def unwritten(ir, u, n, g):
    """only read; or a constant of the source language whose initialiser depends on nothing"""
    for fn in u.fns.values():
        if n not in fn.refs:
            continue
        init = None
        for i, ln in enumerate(fn.lines):
            if n not in re.findall(SYM, ln):
                continue
            s = ln.strip()
            if re.search(rf'= load .*ptr {re.escape(n)}(,|$)', s):
                continue
            if '__cxx_global_var_init' in fn.name or '_GLOBAL__sub_I' in fn.name:
                if g.type_const:
                    continue
                return False, f'set by code before main: {s[:100]}'
            if g.type_const:
                init = init if init is not None else region(fn)
                if i in init[0]:
                    bad = init[1]
                    if not bad:
                        continue
                    return False, f'a value that the first call decides ({bad}), at {ir.where(fn, u.line(ln))}'
                if re.search(r'= getelementptr|call .*ptr', s) or re.search(r'\bcall\b', s):
                    continue
                return False, f'written at {ir.where(fn, u.line(ln))}'
            # a pointer into it that is only loaded from
            m = re.match(r'(%[\w.]+) = getelementptr', s)
            if m and only_read(fn, m.group(1)):
                continue
            return False, f'changed or handed out at {ir.where(fn, u.line(ln))}'
    return True, ''


def only_read(fn, reg, depth=0):
    for ln in fn.lines:
        if not re.search(rf'{re.escape(reg)}\b', ln):
            continue
        s = ln.strip()
        if s.startswith(reg + ' ='):
            continue
        if re.search(rf'= load .*ptr {re.escape(reg)}(,|$)', s) or 'llvm.dbg' in s:
            continue
        m = re.match(r'(%[\w.]+) = getelementptr', s)
        if m and depth < 5 and only_read(fn, m.group(1), depth + 1):
            continue
        return False
    return True


def region(fn):
    """lines between the acquisition and the release of a guard, and what flows into them from outside"""
    blocks, cur, order = {}, '0entry', []
    for i, ln in enumerate(fn.lines):
        m = re.match(r'([\w.$-]+):', ln)
        if m:
            cur = m.group(1)
        blocks.setdefault(cur, []).append(i)
    heads = []
    for i, ln in enumerate(fn.lines):
        if '@__cxa_guard_acquire' in ln:
            for k in range(i, min(i + 6, len(fn.lines))):
                m = re.search(r'br i1 .*label %([\w.$-]+), label', fn.lines[k])
                if m:
                    heads.append(m.group(1))
                    break
    lines, todo, seen = set(), list(heads), set()
    while todo:
        b = todo.pop()
        if b in seen or b not in blocks:
            continue
        seen.add(b)
        for i in blocks[b]:
            lines.add(i)
            if '@__cxa_guard_release' in fn.lines[i]:
                break
        else:
            todo += re.findall(r'label %([\w.$-]+)', fn.lines[blocks[b][-1]])
    own = set()
    for i in lines:
        m = re.match(r'\s*(%[\w.]+) =', fn.lines[i])
        if m:
            own.add(m.group(1))
    alloc = {m.group(1) for ln in fn.lines for m in [re.match(r'\s*(%[\w.]+) = alloca', ln)] if m}
    # temporaries of the initialiser: stack slots that are used nowhere else
    temp = {a for a in alloc if all(i in lines or re.match(rf'\s*{re.escape(a)} = alloca', ln) or 'llvm.' in ln for i, ln in enumerate(fn.lines) if re.search(rf'{re.escape(a)}\b', ln))}
    for i in sorted(lines):
        ln = fn.lines[i].split(';')[0]
        if 'label' in ln and ' br ' in f' {ln}' or 'llvm.dbg' in ln:
            ln = re.sub(r'label %[\w.$-]+', '', ln)
        for r in re.findall(r'(?<!label )%[\w.]+', ln):
            if r.startswith(('%class.', '%struct.', '%union.')) or r in own or r in temp:
                continue
            return lines, f'{r} in {ln.strip()[:80]}'
    return lines, ''


# ------------------------------------------------------------------ every call returns
OWNERS = [f'RingBuffer<estimator::{n}>' for n in ('imuSample', 'outputSample', 'outputVert', 'magSample', 'baroSample', 'gpsSample', 'rangeSample', 'flowSample', 'extVisionSample', 'airspeedSample',
                                                  'dragSample', 'auxVelSample')] + ['Ekf']
WITNESS = '''#include <EKF/ekf.h>
#include <type_traits>
%s
'''


def copies(c):
    """compile-fail witness: what owns storage has no copy that would share it"""
    import subprocess
    from vfa.cxx import VERIF
    for what, trait in (('copied', 'is_copy_constructible'), ('assigned', 'is_copy_assignable')):
        src = WITNESS % '\n'.join(f'static_assert(!std::{trait}<{o}>::value, "shared:{o}:");' for o in OWNERS)
        p = subprocess.run(['clang++', '-std=c++14', '-DECL_STANDALONE', '-w', '-fsyntax-only', f'-I{VERIF}/shim', f'-I{REPO}', f'-I{REPO}/EKF', '-ferror-limit=0', '-x', 'c++', '-'], input=src, capture_output=True, text=True)
        shared = {o for o in OWNERS if f'shared:{o}:' in p.stderr}
        c.need(p.returncode == 0 or shared, 'the copy witness compiles: ' + p.stderr[:300])
        for o in OWNERS:
            c.ob('copy', f'{o} owns its storage alone: it cannot be {what}', o not in shared, 'EKF/RingBuffer.h:44' if o.startswith('Ring') else 'EKF/ekf.h', 'a copy would use the storage of the original and release it again')


@prop('P05', 250)
def returns(c):
    """Every call returns after a bounded amount of work, and the update takes no memory."""
    ir = IR(loops=True)
    c.explain = ('Call graph of the LLVM IR of every translation unit with virtual calls resolved through the vtables, and the loop bounds proved by scalar evolution (clang and opt, nothing is run): no recursion, '
                 'every loop is bounded, nothing leaves or blocks, and no path from the cyclic update reaches an allocation.')
    ours = {n: f for n, f in ir.fns.items() if ir.ours(f)}
    for n, f in ours.items():
        c.scope.add(f'{f.file[len(REPO) + 1:]}:{ir.pretty[n].split("(")[0]}')
    short = lambda n: ir.pretty.get(n, n).split('(')[0]
    units = {}
    for u in ir.units:
        for n in u.fns:
            units.setdefault(n, u)
    # recursion
    cyc = {n: k for k in ir.cycles() for n in k}
    # a recursion (or count) that only constants enter: followed with each of them until it returns
    const = {}
    for n, f in ours.items():
        args = {}
        if f.sig[1] and 'i32' in f.sig[1]:
            at = f.sig[1].index('i32')
            for m, g in ours.items():
                if m == n:
                    continue
                for ln in g.lines:
                    i = ln.find(n + '(')
                    if i >= 0 and CALL.search(ln):
                        a = _args(ln[i + len(n) + 1:])[at].split(' ')[-1]
                        args.setdefault(int(a) if re.fullmatch(r'-?\d+', a) else None, ir.where(g, units[m].line(ln)))
        if args and None not in args and max(map(abs, args)) <= 32 and (n in cyc and cyc[n] == [n]):
            const[n] = (at, args)
    if const:
        c.load('EKF/covariance.cpp', 'EKF/EKFGSF_yaw.cpp')
    for n, (at, args) in sorted(const.items()):
        q = short(n)
        fs = [f for f in c.prog.funcs.values() if f.qual == q and f.has_body and len(f.params) == len(ours[n].sig[1])]
        for k, w in sorted(args.items()):
            end = False
            if len(fs) == 1:
                try:
                    end = c.flow(None, f=fs[0], args=[dd(lc(k)) if i == at else leaf(mk('var', (), h61(f'arg{i}'), f'arg{i}')) for i in range(len(fs[0].params))]).v is not None
                except RecursionError:
                    pass
            c.ob('recursion', f'{q} with {k} returns', end, w, 'it goes on calling itself')
    for n, f in sorted(ours.items()):
        if n in const:
            continue
        c.ob('recursion', f'{short(n)} does not call itself', n not in cyc, ir.where(f), lambda: 'cycle: ' + ', '.join(short(k) for k in cyc[n]))
        bad = [(k, l) for k, l in f.calls if k[1:] in LEAVE or k == '@llvm.trap' and not n.endswith('D0Ev')]
        c.ob('returns', f'{short(n)} neither ends the program nor throws', not bad, ir.where(f, bad[0][1] if bad else 0), lambda: short(bad[0][0]))
        stuck = [(k, l) for k, l in f.calls if k not in ir.fns and not known(k) and k not in aliases(ir)]
        c.ob('returns', f'{short(n)} waits for nothing', not stuck, ir.where(f, stuck[0][1] if stuck else 0), lambda: f'calls {short(stuck[0][0])}')
    # loops
    nloops = 0
    done = set()
    update = ir.reach([n for n in ours if short(n) in UPDATE])
    for u, out in ir.scev:
        fn = None
        for ln in out.split('\n'):
            m = re.match(rf'Determining loop execution counts for: ({SYM})', ln)
            if m:
                fn = m.group(1)
                continue
            m = re.match(r'Loop %([\w.]+): (.*)', ln)
            if not m or fn not in u.fns or not ir.ours(u.fns[fn]) or (fn, m.group(1), m.group(2)) in done:
                continue
            what = m.group(2)
            if 'constant max' not in what:
                continue
            done.add((fn, m.group(1), what))
            nloops += 1
            k = re.search(r'constant max backedge-taken count is (?:i\d+ )?(-?\d+|false|true)$', what)
            f = u.fns[fn]
            c.ob('loops', f'a loop of {short(fn)} ends', k is not None and 'Unpredictable' not in what, ir.where(f), f'no bound on its rounds can be derived (loop %{m.group(1)} after simplification)')
            if k is None or fn not in update or fn in const:
                continue
            n = {'false': 0, 'true': 1}.get(k.group(1)) if k.group(1) in ('false', 'true') else int(k.group(1))
            # an 8 bit count is shown as a signed number
            c.ob('loops', f'a loop of {short(fn)}, part of the update, is bounded by a buffer length', -256 <= n <= 300 and n != -1, ir.where(f), f'up to {n} rounds')
    c.need(nloops > 60, 'loops')
    # no allocation in the cyclic work
    roots = [n for n in ours if short(n) in UPDATE]
    c.need(len({short(n) for n in roots}) >= len(UPDATE) - 1, f'cyclic entry points missing: {set(UPDATE) - {short(n) for n in roots}}')
    for r in roots:
        via = ir.reach([r])
        got = sorted(n for n in via if n[1:] in GET)
        c.ob('memory', f'{short(r)} takes no memory from the heap', not got, ir.where(ir.fns[r]), lambda: ir.path(via, got[0]))
        c.note(f'{short(r)} reaches {sum(1 for n in via if n in ours)} functions of the library.')
    for n, f in sorted(ours.items()):
        got = sorted({k for k, _ in f.calls if k[1:] in GET})
        if got:
            c.ob('memory', f'{short(n)}: memory is taken by the ring buffers only', 'RingBuffer' in short(n) or f.file.endswith('probe_objects.cpp'), ir.where(f), lambda: short(got[0]))
    c.note(f'{nloops} loops.')


UPDATE = ('Ekf::update', 'EKFGSF_yaw::update', 'WindEstimator::update', 'WindEstimator::fuse_airspeed', 'WindEstimator::fuse_beta', 'ImuDownSampler::update',
          'map_projection_project', 'map_projection_reproject', 'get_distance_to_next_waypoint', 'get_bearing_to_next_waypoint', 'get_mag_declination_degrees', 'get_mag_inclination_degrees', 'get_mag_strength_gauss')


# the clamp of these indices to their table is a fact about floating point numbers, which the optimiser does not follow: decided elsewhere
ELSEWHERE = {'geo_lookup/geo_mag_declination.cpp': 'G02'}


@prop('P06', 120)
def inside(c):
    """Every element that is accessed exists."""
    from vfa.bounds import analyse
    c.explain = ('clang puts a check before every subscript of an array of known length (members, locals, tables, the storage of vectors and matrices), all translation units are linked, functions that nothing '
                 'outside the library can call are specialised to their callers, and the optimiser removes each check it proves. A remaining access with a definite index outside its array is a violation. Nothing is run.')
    checked, left, fns, keep = analyse()
    for f in fns:
        c.scope.add(f)
    n = sum(checked.values())
    bad, open_ = {}, {}
    for a in left:
        k = (a.at, a.kind)
        m = re.fullmatch(r'-?\d+', a.index)
        if m and a.size is not None and not 0 <= int(a.index) < a.size:
            bad.setdefault(k, []).append(a)
        else:
            open_.setdefault(k, []).append(a)
    sites = {}
    for (at, kind), k in checked.items():
        sites.setdefault((at[0], at[1], kind), at)
    hit = set()
    for (at, kind), l in sorted(bad.items()):
        a = l[0]
        way = ' < '.join(f'{n_} ({f}:{ln})' if not f.startswith('/') else n_ for f, ln, n_ in a.chain[:6])
        c.ob('element', f'{at[2]} stays inside its {kind}', False, f'{at[0]}:{at[1]}', f'element {a.index} of {a.size}, reached by {way}')
        hit |= {(x.chain[0][0], x.chain[0][1], kind) for x in l}
    for (at, kind), l in sorted(open_.items()):
        e = ELSEWHERE.get(at[0])
        c.note(f'{at[0]}:{at[1]} {at[2]}: the index of {kind} is ' + (f'bounded by arithmetic on floating point numbers: {e} decides it' if e else 'not a matter of constants, counters and comparisons: not decided'))
        hit |= {(x.chain[0][0], x.chain[0][1], kind) for x in l}
    for k in sorted(sites, key=str):
        if k not in hit:
            c.ob('element', f'{sites[k][2]}: {k[2]}', True, f'{k[0]}:{k[1]}')
    c.note(f'{n} subscripts of arrays of known length in {len(fns)} functions ({len(keep)} of them callable from outside); {len(open_)} left open')
