"""Array bounds decided by the compiler: clang puts a check before every subscript of an array of known length (member, local, table,
and the storage inside vectors and matrices), all translation units are linked, functions nobody outside can call are specialised to
their callers, and LLVM's optimiser removes every check it proves.  What remains is read off the IR.  Nothing is run."""
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from .cxx import AnalysisBroken, REPO, VERIF
from .ir import sources

HANDLER = '@__ubsan_handle_out_of_bounds_abort'
CALLRE = re.compile(re.escape(HANDLER) + r'\(ptr [^@]*(@[\w.]+), i\d+ ([^)]+)\).*!dbg (![0-9]+)')


def run(cmd, **k):
    p = subprocess.run(cmd, capture_output=True, text=True, **k)
    if p.returncode:
        raise AnalysisBroken(f'{cmd[0]} cannot analyse {cmd[-1]}:\n{p.stderr[-1500:]}')
    return p.stdout


class Meta:
    def __init__(self, text):
        self.m = {m.group(1): m.group(2) for m in re.finditer(r'^(![0-9]+) = (.*)$', text, re.M)}

    def ref(self, d, k):
        m = re.search(rf'\b{k}: (![0-9]+)', d)
        return self.m.get(m.group(1), '') if m else ''

    def fld(self, d, k):
        m = re.search(rf'\b{k}: (?:"([^"]*)"|(\w+))', d)
        return (m.group(1) if m.group(1) is not None else m.group(2)) if m else ''

    def file(self, d):
        f = self.ref(d, 'file')
        if not f and 'scope:' in d:
            return self.file(self.ref(d, 'scope'))
        n, dr = self.fld(f, 'filename'), self.fld(f, 'directory')
        p = os.path.normpath(os.path.join(dr, n)) if n else ''
        return os.path.relpath(p, REPO) if p.startswith(REPO + '/') else p

    def fn(self, d):
        """the function a location lies in"""
        s = self.ref(d, 'scope')
        while s and 'DISubprogram' not in s:
            s = self.ref(s, 'scope')
        return s

    def name(self, s):
        d = self.ref(s, 'scope')
        n = self.fld(s, 'name')
        c = self.fld(d, 'name') if d and 'DICompositeType' in d else ''
        return f'{c}::{n}' if c else n

    def chain(self, r):
        """[(file, line, function)] from where an access was written outwards"""
        out, d = [], self.m.get(r, '')
        while d:
            s = self.fn(d)
            out.append((self.file(self.ref(d, 'scope')), int(self.fld(d, 'line') or 0), self.name(s)))
            d = self.ref(d, 'inlinedAt')
        return out

    def public(self, s):
        """can code outside the library call this function?"""
        decl = self.ref(s, 'declaration') or s
        sc = self.ref(decl, 'scope')
        if 'DICompositeType' not in sc:
            return True
        for fl, v in (('DIFlagPublic', True), ('DIFlagPrivate', False), ('DIFlagProtected', False)):
            if fl in decl:
                return v
        return 'DW_TAG_class_type' not in sc


class Access:
    __slots__ = ('kind', 'size', 'index', 'chain', 'fn')

    @property
    def at(self):
        return next(((f, l, n) for f, l, n in self.chain if not f.startswith('/')), self.chain[0])


def functions(text):
    cur = None
    for ln in text.split('\n'):
        if cur is None:
            m = re.match(r'define (.*?)(@(?:"[^"]+"|[\w.$-]+))\((.*)$', ln)
            if m:
                d = re.search(r'!dbg (![0-9]+)', ln)
                cur = [m.group(2), d.group(1) if d else '', []]
                internal = ' internal ' in f' {m.group(1)} '
        elif ln == '}':
            yield cur[0], cur[1], cur[2], internal
            cur = None
        else:
            cur[2].append(ln)


def accesses(text, meta):
    size = {}
    for m in re.finditer(r"^(@[\w.]+) = .*?\{ i16, i16, \[\d+ x i8\] \} \{ i16 -?\d+, i16 \d+, \[\d+ x i8\] c\"'(.*?)'", text, re.M):
        size[m.group(1)] = m.group(2)
    data = {}
    for m in re.finditer(r'^(@[\w.]+) = .*?\{ \{ ptr, i32, i32 \}, ptr, ptr \} \{ .*?, ptr (@[\w.]+), ptr (@[\w.]+) \}', text, re.M):
        data[m.group(1)] = size.get(m.group(2), '?')
    for fn, dbg, body, _ in functions(text):
        for ln in body:
            m = CALLRE.search(ln)
            if m:
                a = Access()
                a.kind = data.get(m.group(1), '?')
                n = re.search(r'\[(\d+)\]', a.kind)
                a.size = int(n.group(1)) if n else None
                a.index, a.chain, a.fn = m.group(2), meta.chain(m.group(3)), fn
                yield a


def analyse():
    tmp = tempfile.mkdtemp(prefix='vfa.bnd.')
    try:
        srcs = sources()

        def one(i):
            o = f'{tmp}/{i}.ll'
            run(['clang++', '-std=c++14', '-DECL_STANDALONE', '-w', '-g', '-O2', '-Xclang', '-disable-llvm-passes', '-fsanitize=array-bounds', '-fno-sanitize-recover=all',
                 f'-I{VERIF}/shim', f'-I{REPO}', f'-I{REPO}/EKF', '-S', '-emit-llvm', '-o', o, srcs[i]])
            # a reference to the element one past the end is not taken for a pointer to the end
            t = open(o).read()
            open(o, 'w').write(re.sub(r'^(  %\S+ = icmp )ule( i\d+ .*!nosanitize)', r'\1ult\2', t, flags=re.M))
            return o
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(one, range(len(srcs))))
        keep, checked, fns = set(), {}, set()
        for o in outs:
            t = open(o).read()
            meta = Meta(t)
            for a in accesses(t, meta):
                checked.setdefault((a.chain[0], a.kind), 0)
                checked[(a.chain[0], a.kind)] += 1
            for fn, dbg, body, internal in functions(t):
                s = meta.m.get(dbg, '')
                f = meta.file(s) if s else ''
                if f and (not f.startswith('/') or '/shim/probe' in f):
                    fns.add(fn)
                    if not internal and meta.public(s):
                        keep.add(fn[1:].strip('"'))
        if not keep or not checked:
            raise AnalysisBroken('no functions or no array accesses found')
        open(f'{tmp}/api', 'w').write('\n'.join(sorted(keep)) + '\n')
        run(['llvm-link-18', '-o', f'{tmp}/all.bc'] + outs)
        forced = []
        for _ in range(3):      # functions in which something remains are taken at their call sites
            t = run(['opt-18', '-passes=internalize,globaldce,forceattrs,always-inline,default<O2>', f'-internalize-public-api-file={tmp}/api']
                    + [f'-force-attribute={f}:alwaysinline' for f in forced] + ['-S', '-o', '-', f'{tmp}/all.bc'])
            left = list(accesses(t, Meta(t)))
            more = sorted({a.fn[1:].strip('"') for a in left} - keep - set(forced))
            if not more:
                break
            forced += more
        return checked, left, fns, keep
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    import sys
    c, l, f, k = analyse()
    print(len(c), 'accesses', len(l), 'left', len(f), 'functions', len(k), 'public')
    for a in l:
        print(a.at, a.chain[0], a.kind, a.index, a.fn)
