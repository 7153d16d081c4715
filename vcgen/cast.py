"""Mechanical extraction: run clang on /repo's sources, load the JSON AST."""
import re, json, os, re, subprocess, hashlib, functools, pickle

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = REPO + '/src'
from .ctypes_ import load_aliases
if os.path.isdir(SRC):
    load_aliases(SRC)
FLAGS = ['-std=c++11', '-DNDEBUG', '-I', SRC, '-isystem', '/usr/include/eigen3', '-w']


class ExtractionError(Exception):
    pass


PRELOADED = {}


def clang_dump_text(src, filt):
    cmd = ['clang++', *FLAGS, '-fsyntax-only', '-Xclang', '-ast-dump=json',
           '-Xclang', '-ast-dump-filter=' + filt, src]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise ExtractionError('clang failed on %s: %s' % (src, p.stderr.decode()[-2000:]))
    return p.stdout.decode()


def clang_dump(src, filt):
    s = PRELOADED.pop((os.path.basename(src), filt), None)
    if s is None:
        s = clang_dump_text(src, filt)
    # node ids are addresses of this clang process: number them in order of appearance so every run is the same
    ids = {}
    s = re.sub(r'"0x[0-9a-f]+"', lambda m: ids.setdefault(m.group(0), '"#%06d"' % len(ids)), s)
    dec = json.JSONDecoder()
    out, i, n = [], 0, len(s)
    while True:
        while i < n and s[i].isspace():
            i += 1
        if i >= n:
            break
        if s[i] != '{':           # "Dumping xxx:" banner lines of some versions
            j = s.find('\n', i)
            if j < 0:
                break
            i = j + 1
            continue
        o, i = dec.raw_decode(s, i)
        out.append(o)
    return out


def simple_type(t):
    return t.get('desugaredQualType', t.get('qualType', ''))


class Fn:
    __slots__ = ('tu', 'node', 'name', 'cls', 'mangled', 'params', 'body', 'qual', 'inits', 'kind', 'virtual',
                 'static', 'rettype', 'line', 'file')

    def __repr__(self):
        return 'Fn(%s)' % self.qual

    @property
    def sig(self):
        return '(' + ', '.join(simple_type(p['type']) for p in self.params) + ')'


class Cls:
    def __init__(self, name):
        self.name = name
        self.bases = []
        self.fields = {}      # name -> (type string, init node)
        self.methods = []     # (name, mangled, virtual)
        self.tu = None


class TU:
    def __init__(self, fname):
        self.fname = fname
        self.fields = {}      # decl id -> (cls name, field name, type)
        self.decls = {}       # decl id -> decl node (functions, methods)
        self.declcls = {}     # decl id -> class name
        self.ns = {}          # decl id -> namespace prefix
        self.recname = {}     # record id -> class name
        self.fns = {}         # mangled -> Fn (with body)
        self.enums = {}       # decl id -> name
        self.classes = {}
        self.globals = {}     # VarDecl id -> node
        self.loaded = set()
        self.load('MNM')

    def load(self, filt):
        if filt in self.loaded:
            return
        nodes = clang_dump(os.path.join(SRC, self.fname), filt)
        if self.loaded:
            # ids are addresses of that clang run: keep them apart, and connect references to what is known already
            pre = 'x%d:' % len(self.loaded)
            for o in nodes:
                self.prefix(o, pre)
        # records first so that out of line definitions can be attached
        for o in nodes:
            self.index(o, None, '')
        for o in nodes:
            self.index2(o, None, '')
        if self.loaded:
            for o in nodes:
                self.connect(o, None)
        self.loaded.add(filt)
        return nodes

    def prefix(self, o, pre):
        for k, v in o.items():
            if k in ('id', 'referencedMemberDecl', 'previousDecl', 'parentDeclContextId', 'foundReferencedDecl') and isinstance(v, str):
                o[k] = pre + v
            elif isinstance(v, dict):
                self.prefix(v, pre)
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, dict):
                        self.prefix(x, pre)

    def up(self, cls):
        seen = []
        while cls in self.classes and cls not in seen:
            seen.append(cls)
            cls = next((b for b in self.classes[cls].bases if b in self.classes), None)
        return [self.classes[c] for c in seen]

    def connect(self, o, parent):
        """names of fields, methods, functions and constants in a separately dumped function"""
        k = o.get('kind')
        if k == 'MemberExpr' and o.get('inner'):
            mid = o.get('referencedMemberDecl')
            if mid not in self.fields and mid not in self.decls:
                cls = re.sub(r'\b(const|class|struct)\b|[*&]', ' ', simple_type(o['inner'][0]['type'])).strip().split('::')[-1]
                for c in self.up(cls):
                    if o['name'] in c.fields:
                        self.fields[mid] = (c.name, o['name'], c.fields[o['name']][0])
                        break
                    ms = [m for m in c.methods if m[0] == o['name']]
                    if len(ms) > 1 and parent is not None and parent.get('kind') == 'CXXMemberCallExpr':
                        na = len(parent['inner']) - 1
                        ms = [m for m in ms if sum(x.get('kind') == 'ParmVarDecl' for x in self.decls[m[3]].get('inner', [])) == na] or ms
                    if ms:
                        if len(ms) == 1:
                            self.decls[mid] = self.decls[ms[0][3]]
                            self.declcls[mid] = c.name
                            self.ns[mid] = self.ns.get(ms[0][3], '')
                        break
        elif k == 'DeclRefExpr':
            rd = o.get('referencedDecl', {})
            i, nm = rd.get('id'), rd.get('name')
            ty = rd.get('type', {}).get('qualType')
            if rd.get('kind') in ('FunctionDecl', 'CXXMethodDecl') and i not in self.decls:
                c = [(x, d) for x, d in self.decls.items() if d.get('name') == nm and d['type'].get('qualType') == ty and not x == i]
                if len({d.get('mangledName') for _, d in c}) == 1:
                    x, d = c[0]
                    self.decls[i] = d
                    if x in self.declcls:
                        self.declcls[i] = self.declcls[x]
                    self.ns[i] = self.ns.get(x, '')
            elif rd.get('kind') == 'EnumConstantDecl' and i not in self.enums and nm in self.enums.values():
                self.enums[i] = nm
            elif rd.get('kind') == 'VarDecl' and i not in self.globals:
                c = [d for d in self.globals.values() if d.get('name') == nm and d['type'].get('qualType') == ty]
                if len(c) == 1:
                    self.globals[i] = c[0]
        for x in o.get('inner', []) or []:
            if isinstance(x, dict):
                self.connect(x, o if k not in ('ImplicitCastExpr', 'ParenExpr') else parent)

    def index(self, o, cls, ns):
        k = o.get('kind')
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            name = o.get('name', '')
            self.recname[o['id']] = name
            if 'previousDecl' in o:
                self.recname[o['previousDecl']] = name
            if o.get('completeDefinition'):
                c = self.classes.setdefault(name, Cls(name))
                c.tu = self
                c.bases = [simple_type(b['type']).split('::')[-1] for b in o.get('bases', [])]
                for x in o.get('inner', []):
                    if x.get('kind') == 'FieldDecl':
                        t = simple_type(x['type'])
                        init = None
                        for y in x.get('inner', []):
                            if y.get('kind', '').endswith('Expr') or y.get('kind', '').endswith('Literal') or y.get('kind') in ('UnaryOperator', 'BinaryOperator'):
                                init = y
                        c.fields[x.get('name', '')] = (t, init)
                        self.fields[x['id']] = (name, x.get('name', ''), t)
                    elif x.get('kind') in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl'):
                        c.methods.append((x.get('name'), x.get('mangledName'), x.get('virtual', False), x['id']))
            for x in o.get('inner', []):
                if x.get('kind') != 'CXXRecordDecl' or not x.get('isImplicit'):
                    self.index(x, name, ns)
        elif k == 'NamespaceDecl':
            for x in o.get('inner', []):
                self.index(x, None, ns + o.get('name', '') + '::')
        elif k == 'EnumDecl':
            for x in o.get('inner', []):
                self.index(x, cls, ns)
        elif k == 'EnumConstantDecl':
            self.enums[o['id']] = o['name']
        elif k in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'FunctionDecl', 'CXXConversionDecl'):
            self.decls[o['id']] = o
            if cls:
                self.declcls[o['id']] = cls
            self.ns[o['id']] = ns
        elif k == 'VarDecl':
            self.globals[o['id']] = o
        elif k == 'LinkageSpecDecl':
            for x in o.get('inner', []):
                self.index(x, cls, ns)

    def index2(self, o, cls, ns):
        k = o.get('kind')
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            for x in o.get('inner', []):
                self.index2(x, o.get('name'), ns)
        elif k in ('NamespaceDecl',):
            for x in o.get('inner', []):
                self.index2(x, None, ns + o.get('name', '') + '::')
        elif k in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'FunctionDecl'):
            body = None
            params, inits = [], []
            for x in o.get('inner', []):
                if x.get('kind') == 'CompoundStmt':
                    body = x
                elif x.get('kind') == 'ParmVarDecl':
                    params.append(x)
                elif x.get('kind') == 'CXXCtorInitializer':
                    inits.append(x)
            if cls is None:
                if 'parentDeclContextId' in o and o['parentDeclContextId'] in self.recname:
                    cls = self.recname[o['parentDeclContextId']]
                elif o.get('previousDecl') in self.declcls:
                    cls = self.declcls[o['previousDecl']]
                    ns = ns or self.ns.get(o.get('previousDecl'), '')
            if not ns and o.get('previousDecl') in self.ns:
                ns = self.ns[o['previousDecl']]
            if cls:
                self.declcls[o['id']] = cls
            if body is not None:
                f = Fn()
                f.tu, f.node, f.name, f.cls = self, o, o.get('name'), cls
                f.mangled = o.get('mangledName')
                f.params, f.body, f.inits = params, body, inits
                f.kind = k
                f.virtual = o.get('virtual', False)
                f.static = o.get('storageClass') == 'static' and cls is not None
                if not f.static and 'previousDecl' in o and cls:
                    pd = self.decls.get(o['previousDecl'])
                    f.static = bool(pd and pd.get('storageClass') == 'static')
                f.qual = (cls + '::' if cls else ns) + (o.get('name') or '')
                f.rettype = simple_type(o['type']).split('(')[0].strip()
                f.line = o.get('loc', {}).get('line')
                f.file = self.fname
                self.fns[f.mangled] = f


class Program:
    """All TUs, loaded on demand."""

    def __init__(self):
        self.tus = {}
        self._defs = None

    def tu(self, fname):
        if fname not in self.tus:
            self.tus[fname] = TU(fname)
        return self.tus[fname]

    def sources(self):
        return sorted(f for f in os.listdir(SRC) if f.endswith('.cpp'))

    def src_text(self, f):
        if not hasattr(self, '_txt'):
            self._txt = {}
        if f not in self._txt:
            self._txt[f] = open(os.path.join(SRC, f), errors='replace').read()
        return self._txt[f]

    def find_body(self, mangled, cls, name, tu):
        """Find the body of a function anywhere in the program."""
        f = tu.fns.get(mangled)
        if f:
            return f
        for t in self.tus.values():
            if mangled in t.fns:
                return t.fns[mangled]
        pat = re.compile((r'\b' + re.escape(cls) + r'\s*::\s*' + re.escape(name) if cls else r'\b' + re.escape(name)) + r'\s*\(')
        pat2 = re.compile(r'\b' + re.escape(name) + r'\s*\(')
        ns = re.match(r'_ZN(\d+)', mangled or '')
        nsn = ''
        if ns:
            n = int(ns.group(1))
            nsn = mangled[ns.end():ns.end() + n]
        pat3 = re.compile(r'^' + (re.escape(cls) + r'\s*::\s*' if cls else '') + re.escape(name) + r'\s*\(', re.M)

        def rank(fn):
            t = self.src_text(fn)
            r = 0 if pat3.search(t) else 2
            if not cls and nsn and not re.search(r'namespace\s+' + nsn, t):
                r += 1
            return (r, fn)
        for fn in sorted(self.sources(), key=rank):
            if fn in self.tus:
                continue
            if pat.search(self.src_text(fn)):
                t = self.tu(fn)
                if mangled in t.fns:
                    return t.fns[mangled]
        # static helpers outside the MNM namespaces/classes
        key = (tu.fname, name)
        if not hasattr(self, '_tried'):
            self._tried = set()
        if key not in self._tried:
            self._tried.add(key)
            tu.load(name)
            if mangled in tu.fns:
                return tu.fns[mangled]
        return None

    def get_cls(self, name):
        for t in self.tus.values():
            if name in t.classes:
                return t.classes[name]
        return None

    def lookup(self, qual, fname, sig=None, nparams=None):
        """Find function by qualified name in the given file."""
        t = self.tu(fname)
        r = [f for f in t.fns.values() if f.qual == qual
             and (sig is None or sig in f.sig)
             and (nparams is None or len(f.params) == nparams)]
        if not r:
            # moved to another file?
            for fn in self.sources():
                if fn == fname:
                    continue
                if re.search(r'\b' + re.escape(qual.split('::')[-1]) + r'\s*\(', self.src_text(fn)):
                    t = self.tu(fn)
                    r = [f for f in t.fns.values() if f.qual == qual
                         and (sig is None or sig in f.sig)
                         and (nparams is None or len(f.params) == nparams)]
                    if r:
                        break
        if len(r) != 1:
            raise ExtractionError('function %s%s: %d definitions found' % (qual, sig or '', len(r)))
        return r[0]
