"""Front end: every translation unit of /repo through clang's semantic analysis (no code generation, nothing
is run); the type-checked syntax tree (-ast-dump=json) is reduced to the declarations of /repo."""
import gc
import glob
import hashlib
import json
import os
import pickle
import re
import subprocess
import sys
from concurrent.futures import ProcessPoolExecutor

sys.setrecursionlimit(200000)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VFA_REPO', '/repo')
FLAGS = ['-std=c++14', '-fsyntax-only', '-DECL_STANDALONE', '-w', '-fno-color-diagnostics']


class AnalysisBroken(Exception):
    """The analysis cannot answer (front end failed, an anchor vanished, too few instances)."""


class Node:
    __slots__ = ('kind', 'name', 'type', 'inner', 'op', 'val', 'ref', 'refname', 'line', 'file', 'cast', 'vc', 'id', 'x')

    def __repr__(self):
        return f'<{self.kind} {self.name or self.refname or self.op or ""} @{self.line}>'


class Func:
    __slots__ = ('key', 'name', 'cls', 'qual', 'params', 'body', 'file', 'line', 'ret', 'tu', 'inits', 'virtual', 'kind',
                 'const', 'has_body', 'static', 'pure', 'tqual', 'implicit')

    def __repr__(self):
        return f'<Func {self.qual}>'


class Field:
    __slots__ = ('name', 'type', 'bits', 'init', 'line', 'file', 'static', 'anon')

    def __repr__(self):
        return f'<Field {self.name}:{self.type}>'


class Class:
    __slots__ = ('name', 'qual', 'fields', 'bases', 'tag', 'file', 'line', 'id', 'statics')


def _ty(t):
    if not t:
        return ''
    return t.get('desugaredQualType') or t.get('qualType') or ''


class _TU:
    """Reduces one JSON tree."""

    def __init__(self, src, tu, d):
        self.src, self.tu = src, tu
        self.funcs, self.classes, self.globals, self.decls, self.enums = [], [], {}, {}, {}
        self.file, self.line = None, 0
        self.fmap = {}
        self.scope_by_id = {}
        self._assign_locs(d)
        self._decl_walk(d, [], False)
        self._collect(d, [])

    def _loc(self, l):
        for k in ('spellingLoc', 'expansionLoc'):
            if k in l:
                self._loc1(l[k])
                if k == 'expansionLoc':
                    pass
        if 'offset' in l or 'file' in l:
            self._loc1(l)

    def _loc1(self, l):
        if 'file' in l:
            self.file = l['file']
        if 'line' in l:
            self.line = l['line']

    def _assign_locs(self, n):
        loc = n.get('loc')
        if loc:
            self._loc(loc)
            n['_f'], n['_l'] = self.file, self.line
        r = n.get('range')
        if r:
            self._loc(r['begin'])
            if not loc or not loc.get('offset') and 'expansionLoc' not in loc:
                n['_f'], n['_l'] = self.file, self.line
            self._loc(r['end'])
        for c in n.get('inner', ()):
            self._assign_locs(c)

    def _decl_walk(self, n, scope, dep):
        """id -> (kind, name, type, mangled, scope, file, line, ...) for every declaration."""
        k = n.get('kind') or ''
        nm = n.get('name')
        if k.endswith('Decl') and 'id' in n:
            e = {'kind': k, 'name': nm, 'type': _ty(n.get('type')), 'mangled': n.get('mangledName'), 'scope': '::'.join(scope),
                 'file': n.get('_f'), 'line': n.get('_l')}
            if n.get('isBitfield'):
                for c in n.get('inner', ()):
                    if c.get('kind') == 'ConstantExpr':
                        e['bits'] = int(c.get('value'))
                        break
            if n.get('previousDecl'):
                e['prev'] = n['previousDecl']
            if k == 'EnumConstantDecl':
                e['enumc'] = True
            self.decls[n['id']] = e
        sub = scope
        if k in ('NamespaceDecl', 'CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'ClassTemplatePartialSpecializationDecl', 'EnumDecl'):
            if k == 'EnumDecl':
                sub = scope
            else:
                nm2 = nm or ('(anon)' if k != 'NamespaceDecl' else '(anonymous)')
                if k == 'ClassTemplateSpecializationDecl':
                    args = [_ty(c.get('type')) if c.get('type') else str(c.get('value', '')) for c in n.get('inner', ()) if c.get('kind') == 'TemplateArgument']
                    nm2 = f"{nm}<{', '.join(args)}>"
                sub = scope + [nm2]
            self.scope_by_id[n['id']] = sub
        for c in n.get('inner', ()):
            self._decl_walk(c, sub, dep)

    def _mine(self, f):
        return f is not None and (f.startswith(REPO + '/') or f.startswith(VERIF + '/shim/probe'))

    def _node(self, n):
        if not n or not n.get('kind'):
            return None
        x = Node()
        x.kind = n['kind']
        x.id = n.get('id')
        x.name = n.get('name')
        x.type = _ty(n.get('type'))
        x.op = n.get('opcode')
        x.cast = n.get('castKind')
        x.vc = n.get('valueCategory')
        x.val = n.get('value')
        x.line = n.get('_l')
        x.file = n.get('_f')
        x.ref = None
        x.refname = None
        x.x = None
        k = x.kind
        rd = n.get('referencedDecl')
        if rd:
            x.ref = rd.get('id')
            x.refname = rd.get('name')
            if x.ref not in self.decls:
                self.decls[x.ref] = {'kind': rd.get('kind'), 'name': rd.get('name'), 'type': _ty(rd.get('type')), 'mangled': None, 'scope': '', 'file': None, 'line': None}
        elif n.get('referencedMemberDecl'):
            x.ref = n['referencedMemberDecl']
            x.refname = n.get('name')
            x.x = n.get('isArrow')
        if k == 'UnaryOperator':
            x.x = n.get('isPostfix')
        elif k == 'IfStmt':
            x.x = (n.get('hasElse'), n.get('hasInit'), n.get('hasVar'))
        elif k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            x.x = n.get('ctorType', {}).get('qualType')
        elif k == 'UnaryExprOrTypeTraitExpr':
            x.name = n.get('name')
            x.x = _ty(n.get('argType'))
        elif k == 'VarDecl':
            x.x = {'init': n.get('init'), 'static': n.get('storageClass'), 'nrvo': n.get('nrvo')}
        elif k == 'CompoundAssignOperator':
            x.x = _ty(n.get('computeResultType'))
        elif k == 'CXXCtorInitializer':
            ai = n.get('anyInit') or {}
            x.name = ai.get('name')
            x.type = _ty(n.get('baseInit')) or _ty(ai.get('type'))
        elif k == 'CXXNewExpr':
            x.x = {'array': n.get('isArray')}
        elif k == 'SizeOfPackExpr':
            pass
        elif k == 'InitListExpr' and n.get('array_filler'):
            x.x = [self._node(c) for c in n['array_filler']]
        if k == 'LambdaExpr':
            # keep only the call operator's body and the captures
            x.inner = [self._node(c) for c in n.get('inner', ())]
            return x
        x.inner = [self._node(c) for c in n.get('inner', ())]
        return x

    def _collect(self, n, scope):
        for c in n.get('inner', ()):
            k = c.get('kind')
            if k in ('NamespaceDecl', 'LinkageSpecDecl', 'TranslationUnitDecl'):
                self._collect(c, scope + ([c.get('name') or '(anonymous)'] if k == 'NamespaceDecl' else []))
            elif k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
                self._record(c)
            elif k in ('ClassTemplateDecl', 'FunctionTemplateDecl'):
                pat = True
                for t in c.get('inner', ()):
                    if t.get('kind') in ('ClassTemplateSpecializationDecl',):
                        self._record(t)
                    elif t.get('kind') in ('FunctionDecl', 'CXXMethodDecl'):
                        if not pat or any(z.get('kind') == 'TemplateArgument' for z in t.get('inner', ())):
                            self._func(t)
                        pat = False
            elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
                self._func(c)
            elif k == 'VarDecl' and self._mine(c.get('_f')):
                self.globals[c['id']] = (c.get('name'), '::'.join(scope), self._node(c))
            elif k == 'EnumDecl' and self._mine(c.get('_f')):
                self._enum(c)

    def _enum(self, c):
        nxt = 0
        for e in c.get('inner', ()):
            if e.get('kind') == 'EnumConstantDecl':
                v = None
                for z in e.get('inner', ()):
                    v = self._constval(z)
                    if v is not None:
                        break
                if v is None:
                    v = nxt
                nxt = v + 1
                self.enums[e['id']] = v
                self.enums[(c.get('name') or '') + '::' + e['name']] = v

    def _constval(self, z):
        if z.get('value') is not None and z.get('kind') in ('ConstantExpr', 'IntegerLiteral'):
            try:
                return int(z['value'])
            except ValueError:
                return None
        for q in z.get('inner', ()):
            v = self._constval(q)
            if v is not None:
                return v
        return None

    def _record(self, c):
        if 'inner' not in c and not c.get('completeDefinition'):
            return
        f = c.get('_f')
        mine = self._mine(f)
        if mine and c.get('completeDefinition'):
            K = Class()
            K.name = c.get('name') or '(anon)'
            K.qual = '::'.join(self.scope_by_id.get(c['id'], [K.name]))
            if not c.get('name'):
                K.qual = f"(unnamed@{os.path.basename(f)}:{c.get('_l')})"
            K.tag = c.get('tagUsed')
            K.file, K.line, K.id = f, c.get('_l'), c['id']
            K.bases = [_ty(b.get('type')) for b in c.get('bases', ())]
            K.fields, K.statics = [], []
            for m in c.get('inner', ()):
                if m.get('kind') == 'FieldDecl':
                    F = Field()
                    F.name, F.type = m.get('name'), _ty(m.get('type'))
                    F.bits = self.decls.get(m['id'], {}).get('bits')
                    F.line, F.file = m.get('_l'), m.get('_f')
                    F.init = None
                    F.static = False
                    inner = [q for q in m.get('inner', ()) if q.get('kind') and not q['kind'].endswith('Comment') and not q['kind'].endswith('Attr')]
                    if F.bits is not None:
                        inner = inner[1:]
                    if m.get('hasInClassInitializer') and inner:
                        F.init = self._node(inner[-1])
                    K.fields.append(F)
                elif m.get('kind') == 'VarDecl':
                    self.globals[m['id']] = (m.get('name'), K.qual, self._node(m))
                    K.statics.append(m.get('name'))
            self.classes.append(K)
        if mine:
            for m in c.get('inner', ()):
                k = m.get('kind')
                if k in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl', 'FunctionDecl'):
                    self._func(m)
                elif k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
                    self._record(m)
                elif k == 'EnumDecl':
                    self._enum(m)
                elif k in ('FunctionTemplateDecl', 'ClassTemplateDecl'):
                    self._collect({'inner': [m]}, [])

    def _local(self, n):
        """classes and enumerations declared inside a function"""
        for c in n.get('inner', ()):
            k = c.get('kind')
            if k == 'LambdaExpr':
                for z in c.get('inner', ()):
                    if z.get('kind') == 'CompoundStmt':
                        self._local(z)
            elif k == 'CXXRecordDecl':
                self._record(c)
            elif k == 'EnumDecl':
                self._enum(c)
            else:
                self._local(c)

    def _func(self, c):
        if not self._mine(c.get('_f')):
            return
        inner = c.get('inner', ())
        body = None
        for q in inner:
            if q.get('kind') == 'CompoundStmt':
                body = q
        F = Func()
        F.key = c.get('mangledName') or c['id']
        F.name = c.get('name')
        scope = self.scope_by_id.get(c.get('parentDeclContextId'))
        if scope is None:
            scope = (self.decls.get(c['id'], {}).get('scope') or '').split('::')
        F.cls = '::'.join(s for s in scope if s)
        F.qual = (F.cls + '::' if F.cls else '') + (F.name or '')
        F.params = [(q['id'], q.get('name'), _ty(q.get('type')), self._node(q['inner'][-1]) if q.get('inner') and q.get('init') else None) for q in inner if q.get('kind') == 'ParmVarDecl']
        F.file, F.line = c.get('_f'), c.get('_l')
        F.ret = (_ty(c.get('type')) or '').split('(')[0].strip()
        F.tu = self.tu
        F.kind = c['kind']
        F.virtual = bool(c.get('virtual'))
        F.pure = bool(c.get('pure'))
        F.static = c.get('storageClass') == 'static'
        F.const = (_ty(c.get('type')) or '').rstrip().endswith('const')
        F.tqual = c.get('type', {}).get('qualType')
        F.inits = [self._node(q) for q in inner if q.get('kind') == 'CXXCtorInitializer']
        F.body = self._node(body) if body else None
        F.has_body = body is not None
        if body:
            self._local(body)
        F.implicit = bool(c.get('isImplicit') or c.get('explicitlyDefaulted'))
        self.funcs.append(F)


def _run_tu(arg):
    src, tu, cache = arg
    inc = [f'-I{VERIF}/shim', f'-I{REPO}', f'-I{REPO}/EKF']
    cf = None
    if cache:
        h = hashlib.sha256()
        dep = subprocess.run(['clang++', '-std=c++14', '-DECL_STANDALONE', '-w', '-MM', *inc, src], capture_output=True, text=True)
        for p in sorted(set(re.findall(r'\S+\.(?:h|hpp|cpp)\b', dep.stdout)) | {os.path.abspath(__file__)}):
            h.update(p.encode() + open(p, 'rb').read())
        cf = os.path.join(cache, h.hexdigest())
        if dep.returncode == 0 and os.path.exists(cf):
            return open(cf, 'rb').read()
    gc.disable()
    p = subprocess.run(['clang++', *FLAGS, *inc, '-Xclang', '-ast-dump=json', src], capture_output=True)
    if p.returncode != 0:
        return ('ERR', src, p.stderr.decode(errors='replace')[:2000])
    t = _TU(src, tu, json.loads(p.stdout))
    used = set()

    def uses(n):
        if n is None:
            return
        if n.ref:
            used.add(n.ref)
        if n.id and n.kind.endswith('Decl'):
            used.add(n.id)
        for c in n.inner:
            uses(c)
        if isinstance(n.x, list):
            for c in n.x:
                uses(c)
    for f in t.funcs:
        uses(f.body)
        for i in f.inits:
            uses(i)
        for q in f.params:
            uses(q[3])
    for c in t.classes:
        for fl in c.fields:
            uses(fl.init)
    for g in t.globals.values():
        uses(g[2])
    decls = {}
    work = list(used)
    while work:
        i = work.pop()
        if i in decls or i not in t.decls:
            continue
        decls[i] = t.decls[i]
    blob = pickle.dumps((src, tu, t.funcs, t.classes, t.globals, decls, t.enums), protocol=5)
    if cf:
        with open(cf + '.tmp%d' % os.getpid(), 'wb') as fh:
            fh.write(blob)
        os.replace(cf + '.tmp%d' % os.getpid(), cf)
    return blob


class Program:
    def __init__(self, tus=None):
        if tus is None:
            tus = []
            for d in ('EKF', 'geo', 'geo_lookup', 'airdata'):
                tus += sorted(glob.glob(f'{REPO}/{d}/*.cpp'))
        else:
            tus = [f'{REPO}/{t}' if not t.startswith('/') else t for t in tus]
        self.tus = tus
        cache = os.environ.get('VFA_CACHE')
        if cache:
            os.makedirs(cache, exist_ok=True)
        for t in tus:
            if not os.path.exists(t):
                raise AnalysisBroken(f'source file {t} is missing')
        # biggest first
        order = sorted(tus, key=lambda t: -os.path.getsize(t))
        if len(order) > 1:
            with ProcessPoolExecutor(min(8, len(order))) as ex:
                res = list(ex.map(_run_tu, [(t, i, cache) for i, t in enumerate(order)]))
        else:
            res = [_run_tu((t, i, cache)) for i, t in enumerate(order)]
        self.funcs = {}       # mangled -> Func with body (preferred)
        self.by_qual = {}     # qualified name -> [Func]
        self.classes = {}     # qualified name -> Class
        self.globals = {}     # qualified name -> (node, tu)
        self.decls = {}       # (tu, id) -> dict
        self.enums = {}
        self.gid = {}
        for r in res:
            if isinstance(r, tuple):
                raise AnalysisBroken(f'clang cannot analyse {r[1]}:\n{r[2]}')
            src, tu, funcs, classes, globs, decls, enums = pickle.loads(r)
            self.decls[tu] = decls
            for k, v in enums.items():
                if isinstance(k, str) and k.startswith('0x'):
                    self.enums[(tu, k)] = v
                else:
                    self.enums[k] = v
            for f in funcs:
                o = self.funcs.get(f.key)
                if o is None or (f.has_body and not o.has_body):
                    if o is not None:
                        f.virtual = f.virtual or o.virtual
                        f.static = f.static or o.static
                    self.funcs[f.key] = f
                elif o.has_body:
                    o.virtual = o.virtual or f.virtual
                    o.static = o.static or f.static
            for c in classes:
                self.classes.setdefault(c.qual, c)
            for i, (n, s, node) in globs.items():
                q = (s + '::' if s else '') + (n or '')
                # prefer the declaration that carries an initialiser
                o = self.globals.get(q)
                if o is None or (not [z for z in o[0].inner if z] and [z for z in node.inner if z]):
                    self.globals[q] = (node, tu)
                self.gid[(tu, i)] = q
        for f in self.funcs.values():
            self.by_qual.setdefault(f.qual, []).append(f)
        self.unions = {}

    def find(self, qual, nparams=None):
        """Definition(s) by qualified-name suffix."""
        out = []
        for q, fs in self.by_qual.items():
            if q == qual or q.endswith('::' + qual):
                out += [f for f in fs if f.has_body and (nparams is None or len(f.params) == nparams)]
        return out

    def one(self, qual, nparams=None):
        r = self.find(qual, nparams)
        if len(r) != 1:
            raise AnalysisBroken(f'anchor {qual}: {len(r)} definitions found')
        return r[0]

    def cls(self, name):
        name = name.strip()
        for p in ('const ', 'struct ', 'class ', 'union ', 'volatile '):
            while name.startswith(p):
                name = name[len(p):]
        name = name.rstrip(' &*')
        m = re.search(r'\((?:unnamed|anonymous)[^()]* at ([^():]*):(\d+):\d+\)$', name)
        if m:
            name = f"(unnamed@{os.path.basename(m.group(1))}:{m.group(2)})"
        if name in self.classes:
            return self.classes[name]
        for q, c in self.classes.items():
            if q.endswith('::' + name):
                return c
        return None
