"""The compiler's intermediate representation of the whole library (no optimisation that moves or merges functions): globals, calls,
the call graph with virtual calls resolved through the vtables, and the loop bounds of LLVM's scalar evolution. Nothing is run."""
import glob
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from .cxx import AnalysisBroken, REPO, VERIF

PASSES = ('function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg),cgscc(inline),function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify,lcssa,'
          'loop(loop-rotate),instcombine<no-verify-fixpoint>,loop(indvars)),print<scalar-evolution>')


def sources():
    return sorted(p for d in ('EKF', 'airdata', 'geo', 'geo_lookup') for p in glob.glob(f'{REPO}/{d}/*.cpp')) + [f'{VERIF}/shim/probe_templates.cpp', f'{VERIF}/shim/probe_objects.cpp']


class Fn:
    __slots__ = ('name', 'sig', 'file', 'line', 'lines', 'calls', 'icalls', 'refs', 'pretty', 'external', 'params')


class Glob:
    __slots__ = ('name', 'const', 'text', 'type_const', 'line', 'file', 'tls')


SYM = r'@(?:"[^"]+"|[\w.$-]+)'
CALL = re.compile(r'\b(?:call|invoke)\b(.*)$')


def _args(s):
    """top level split of an argument list starting after its parenthesis"""
    d, cur, out = 0, '', []
    for ch in s:
        if ch in '([{<':
            d += 1
        elif ch in ')]}>':
            if d == 0:
                break
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return [a.strip() for a in out]


def _t(a):
    return a.split(' ')[0] if not a.startswith(('{', '[')) else a


class Unit:
    """one translation unit"""

    def __init__(self, src, text):
        self.src, self.text = src, text
        self.meta = {m.group(1): m.group(2) for m in re.finditer(r'^(![0-9]+) = (.*)$', text, re.M)}
        self.globs, self.fns, self.decls, self.vt = {}, {}, {}, {}
        cur = None
        for ln in text.split('\n'):
            if cur is not None:
                if ln == '}':
                    cur = None
                else:
                    cur.lines.append(ln)
                continue
            m = re.match(rf'({SYM}) = (.*)$', ln)
            if m:
                self._glob(m.group(1), m.group(2))
                continue
            m = re.match(rf'(define|declare) (.*?)({SYM})\((.*)$', ln)
            if m:
                f = Fn()
                f.name, f.external = m.group(3), m.group(1) == 'declare'
                ps = _args(m.group(4))
                f.params = [p.split(' ')[-1] for p in ps]
                f.sig = (_t(m.group(2).split(' ')[-2]) if m.group(2).split() else '', tuple(_t(p) for p in ps))
                f.lines, f.calls, f.icalls, f.refs = [], [], [], set()
                f.file, f.line = None, 0
                d = re.search(r'!dbg (![0-9]+) \{$', ln)
                if d:
                    sp = self.meta.get(d.group(1), '')
                    f.line = int((re.search(r'line: (\d+)', sp) or [0, 0])[1])
                    f.file = self._file((re.search(r'file: (![0-9]+)', sp) or [0, ''])[1])
                (self.decls if f.external else self.fns)[f.name] = f
                if not f.external:
                    cur = f
        for f in self.fns.values():
            for ln in f.lines:
                m = CALL.search(ln)
                if m and not ln.lstrip().startswith(';'):
                    b = m.group(1)
                    callee = re.search(rf'({SYM}|%[\w.]+)\(', b)
                    if callee and callee.group(1).startswith('@'):
                        f.calls.append((callee.group(1), self.line(ln)))
                    elif callee:
                        args = _args(b[callee.end():])
                        ret = [x for x in b[:callee.start()].split() if x not in ('noundef', 'zeroext', 'signext', 'nonnull')]
                        f.icalls.append(((_t(ret[-1] if not ret[-1].endswith(')') else ret[-1]) if ret else 'void', tuple(_t(a) for a in args)), self.line(ln)))
                    rest = b[callee.end():] if callee else b
                else:
                    rest = ln
                f.refs |= set(re.findall(SYM, rest))

    def _glob(self, name, rest):
        g = Glob()
        g.name, g.text = name, rest
        g.const = bool(re.search(r'\bconstant\b', rest.split(',')[0])) or ' alias ' in f' {rest} '
        g.tls = 'thread_local' in rest
        g.type_const, g.line, g.file = False, 0, None
        d = re.search(r'!dbg (![0-9]+)', rest)
        if d:
            ex = self.meta.get(d.group(1), '')
            v = re.search(r'var: (![0-9]+)', ex)
            gv = self.meta.get(v.group(1), '') if v else ''
            t = re.search(r'\btype: (![0-9]+)', gv)
            g.type_const = self._isconst(t.group(1)) if t else False
            g.line = int((re.search(r'line: (\d+)', gv) or [0, 0])[1])
            g.file = self._file((re.search(r'file: (![0-9]+)', gv) or [0, ''])[1])
        self.globs[name] = g
        if name.startswith('@_ZTV') and 'external' not in rest:
            self.vt[name] = set(re.findall(rf'ptr ({SYM})', rest))

    def _isconst(self, t):
        x = self.meta.get(t, '')
        if 'DW_TAG_const_type' in x:
            return True
        if 'DW_TAG_typedef' in x or 'DW_TAG_array_type' in x:
            b = re.search(r'baseType: (![0-9]+)', x)
            return self._isconst(b.group(1)) if b else False
        return False

    def _file(self, r):
        x = self.meta.get(r, '')
        n, d = re.search(r'filename: "([^"]*)"', x), re.search(r'directory: "([^"]*)"', x)
        if not n:
            return None
        p = n.group(1)
        return os.path.normpath(p if p.startswith('/') else os.path.join(d.group(1) if d else '/', p))

    def line(self, ln):
        m = re.search(r'!dbg (![0-9]+)', ln)
        x = self.meta.get(m.group(1), '') if m else ''
        m = re.search(r'line: (\d+)', x)
        return int(m.group(1)) if m else 0


def blocks(f):
    """basic blocks of a function: {label: [lines]}, entry label, {label: successors}"""
    out, cur = {}, '0entry'
    for ln in f.lines:
        m = re.match(r'([\w.$-]+):', ln)
        if m:
            cur = m.group(1)
        elif ln.strip():
            out.setdefault(cur, []).append(ln)
    succ = {b: re.findall(r'label %([\w.$-]+)', ' '.join(ls[-8:]) if ls[-1].strip() == ']' or not re.match(r'\s*(br|ret|unreachable|switch|resume|indirectbr)', ls[-1]) else ls[-1]) for b, ls in out.items()}
    for b, ls in out.items():
        sw = [i for i, l in enumerate(ls) if l.lstrip().startswith('switch ')]
        if sw:
            succ[b] = re.findall(r'label %([\w.$-]+)', ' '.join(ls[sw[0]:]))
    return out, '0entry', succ


def unset_reads(f):
    """reads of scalar locals that some path reaches before any write: [(line of IR, name, on every path)]"""
    loc = {}
    for ln in f.lines:
        m = re.match(r'\s*(%[\w.]+) = alloca (float|double|i\d+|ptr)(,|$)', ln)
        if m:
            loc[m.group(1)] = m.group(2)
    if not loc:
        return []
    store = re.compile(r'\s*store (?:volatile )?[^,]*(?:\([^)]*\))?[^,]*, ptr (%[\w.]+)(?:,|$)')
    load = re.compile(r'\s*%[\w.]+ = load (?:volatile )?[^,]*, ptr (%[\w.]+)(?:,|$)')
    acts = {}
    bl, entry, succ = blocks(f)
    for b, ls in bl.items():
        acts[b] = []
        for ln in ls:
            code = ln.split(', !dbg')[0]
            if 'alloca' in code or '@llvm.dbg' in code or '@llvm.lifetime' in code:
                continue
            toks = [t for t in re.findall(r'%[\w.]+', code) if t in loc]
            if not toks:
                continue
            m = store.match(code)
            if m and toks == [m.group(1)]:
                acts[b].append(('w', m.group(1), ln))
                continue
            m = load.match(code)
            if m and toks == [m.group(1)]:
                acts[b].append(('r', m.group(1), ln))
                continue
            for t in toks:      # its address goes elsewhere
                loc.pop(t, None)
    # may be unset (union over paths), may be set
    out = []
    may = {b: set() for b in bl}
    set_ = {b: set() for b in bl}
    may[entry] = set(loc)
    todo = [entry]
    seen = {entry}
    while todo:
        b = todo.pop()
        u, w = set(may[b]), set(set_[b])
        for k, v, _ in acts[b]:
            if k == 'w':
                u.discard(v)
                w.add(v)
        for s in succ[b]:
            if s in bl and (s not in seen or not u <= may[s] or not w <= set_[s]):
                may[s] |= u
                set_[s] |= w
                seen.add(s)
                todo.append(s)
    for b in bl:
        if b not in seen:
            continue
        u, w = set(may[b]), set(set_[b])
        for k, v, ln in acts[b]:
            if k == 'w':
                u.discard(v)
                w.add(v)
            elif v in u and v in loc:
                out.append((ln, v, v not in w))
    return out


class IR:
    def __init__(self, loops=False):
        srcs = sources()
        if len(srcs) < 20:
            raise AnalysisBroken(f'only {len(srcs)} sources of the library found')
        tmp = tempfile.mkdtemp(prefix='vfa_ir.')
        try:
            with ThreadPoolExecutor(8) as ex:
                res = list(ex.map(lambda a: self._unit(a[0], os.path.join(tmp, f'{a[1]}.ll'), loops), [(s, i) for i, s in enumerate(srcs)]))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        self.units = [Unit(s, t) for s, (t, _) in zip(srcs, res)]
        self.scev = [(u, e) for u, (_, e) in zip(self.units, res)]
        names = sorted({n for u in self.units for n in (*u.fns, *u.decls, *u.globs)})
        p = subprocess.run(['c++filt'], input='\n'.join(n[1:].strip('"') for n in names), capture_output=True, text=True)
        self.pretty = dict(zip(names, p.stdout.split('\n')))
        self.fns = {}
        for u in self.units:
            for n, f in u.fns.items():
                self.fns.setdefault(n, f)
        self.vtargets = {}
        taken = set().union(*[v for u in self.units for v in u.vt.values()], *[f.refs for f in self.fns.values()]) & set(self.fns)
        for n in taken:
            self.vtargets.setdefault(self.fns[n].sig, set()).add(n)
        alias = {}
        for u in self.units:
            for n, g in u.globs.items():
                m = re.search(rf'\balias\b.*ptr ({SYM})$', g.text)
                if m:
                    alias[n] = m.group(1)
        self.edges = {}
        for n, f in self.fns.items():
            e = {alias.get(k, k) for k, _ in f.calls}
            for s, _ in f.icalls:
                e |= self.vtargets.get(s, set())
            self.edges[n] = e

    @staticmethod
    def _unit(src, out, loops):
        inc = [f'-I{VERIF}/shim', f'-I{REPO}', f'-I{REPO}/EKF']
        p = subprocess.run(['clang++', '-std=c++14', '-DECL_STANDALONE', '-w', '-O0', '-g', '-ffinite-loops' if False else '-fno-finite-loops', '-Xclang', '-disable-O0-optnone', '-S', '-emit-llvm',
                            *inc, src, '-o', out], capture_output=True, text=True)
        if p.returncode:
            raise AnalysisBroken(f'clang cannot analyse {src}:\n{p.stderr[:1500]}')
        text = open(out).read()
        err = ''
        if loops:
            # inline only what is tiny, so that lengths behind an accessor are seen
            text2 = re.sub(r'\bnoinline\b ?', '', text)
            p = subprocess.run(['opt-18', f'-passes={PASSES}', '-inline-threshold=20', '-disable-output', '-'], input=text2, capture_output=True, text=True)
            if p.returncode:
                raise AnalysisBroken(f'opt cannot analyse {src}:\n{p.stderr[-1500:]}')
            err = '\n'.join(l for l in p.stderr.split('\n') if l.startswith(('Determining loop', 'Loop %')))
        return text, err

    def ours(self, f):
        return f.file is not None and f.file.startswith(REPO + '/')

    def where(self, f, line=0):
        p = f.file[len(REPO) + 1:] if self.ours(f) else f.file
        return f'{p}:{line or f.line} {self.pretty[f.name]}'

    def reach(self, roots):
        """functions reachable, with the edge each was first reached by"""
        via = {r: None for r in roots}
        todo = list(roots)
        while todo:
            n = todo.pop()
            for k in sorted(self.edges.get(n, ())):
                if k not in via:
                    via[k] = n
                    todo.append(k)
        return via

    def path(self, via, n):
        out = []
        while n is not None:
            out.append(self.pretty.get(n, n).split('(')[0])
            n = via[n]
        return ' <- '.join(out)

    def cycles(self):
        """strongly connected components that call themselves"""
        idx, low, st, on, out, k = {}, {}, [], set(), [], 0
        for r in sorted(self.edges):
            if r in idx:
                continue
            work = [(r, iter(sorted(self.edges[r])))]
            idx[r] = low[r] = k
            k += 1
            st.append(r)
            on.add(r)
            while work:
                n, it = work[-1]
                for c in it:
                    if c not in self.edges:
                        continue
                    if c not in idx:
                        idx[c] = low[c] = k
                        k += 1
                        st.append(c)
                        on.add(c)
                        work.append((c, iter(sorted(self.edges[c]))))
                        break
                    if c in on:
                        low[n] = min(low[n], idx[c])
                else:
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[n])
                    if low[n] == idx[n]:
                        comp = []
                        while True:
                            x = st.pop()
                            on.discard(x)
                            comp.append(x)
                            if x == n:
                                break
                        if len(comp) > 1 or n in self.edges[n]:
                            out.append(sorted(comp))
        return out
