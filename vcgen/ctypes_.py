"""Parser for the (desugared) C++ type strings clang prints."""
import os, re, functools


class Ty:
    __slots__ = ('k', 'a', 'b', 'name')

    def __init__(self, k, a=None, b=None, name=None):
        self.k, self.a, self.b, self.name = k, a, b, name

    def key(self):
        return (self.k, self.a.key() if self.a else None, self.b.key() if self.b else None, self.name)

    def __eq__(self, o):
        return isinstance(o, Ty) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        if self.k in ('seq', 'ptr', 'ref', 'set'):
            return '%s<%r>' % (self.k, self.a)
        if self.k in ('map', 'pair'):
            return '%s<%r,%r>' % (self.k, self.a, self.b)
        if self.k in ('cls', 'opaque', 'iter'):
            return '%s:%s' % (self.k, self.name)
        return self.k


INT, UINT, BOOL, REAL, STR, VOID, LAM = (Ty(k) for k in ('int', 'uint', 'bool', 'real', 'str', 'void', 'lam'))
SCALARS = {
    'int': INT, 'TInt': INT, 'long': INT, 'long long': INT, 'short': INT, 'char': INT, 'signed char': INT,
    'unsigned char': UINT, 'int64_t': INT, 'ptrdiff_t': INT, 'std::ptrdiff_t': INT,
    'unsigned int': UINT, 'unsigned long': UINT, 'size_t': UINT, 'std::size_t': UINT, 'unsigned': UINT,
    'size_type': UINT, 'unsigned long long': UINT, 'uint64_t': UINT,
    'bool': BOOL, 'double': REAL, 'float': REAL, 'TFlt': REAL, 'long double': REAL,
    'void': VOID, 'std::string': STR, 'std::basic_string<char>': STR, 'nullptr_t': None, 'std::nullptr_t': None,
    'string': STR,
}


ALIASES = {}     # typedef names of the sources (container types only)


def load_aliases(src):
    for f in sorted(os.listdir(src)):
        if f.endswith(('.h', '.hpp')):
            t = re.sub(r'//[^\n]*|/\*.*?\*/', ' ', open(os.path.join(src, f), errors='replace').read(), flags=re.S)
            for m in re.finditer(r'\btypedef\s+(std::[^;{}]*?>)\s*(\w+)\s*;|\busing\s+(\w+)\s*=\s*(std::[^;{}]*?>)\s*;', t):
                ALIASES[m.group(2) or m.group(3)] = re.sub(r'\s+', ' ', m.group(1) or m.group(4))


def split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<([':
            d += 1
        elif ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


@functools.lru_cache(maxsize=None)
def parse(s):
    s = s.strip()
    while True:
        t = s
        for q in ('const ', 'volatile ', 'class ', 'struct ', 'enum ', 'typename '):
            if s.startswith(q):
                s = s[len(q):].strip()
        for q in (' const', '*const', '*__restrict'):
            if s.endswith(q):
                s = s[:-len(q)].strip() if q == ' const' else s[:-len(q)].strip() + ' *'
        if t == s:
            break
    if s in SCALARS:
        r = SCALARS[s]
        return r if r is not None else Ty('ptr', VOID)
    if s.endswith('&&'):
        return Ty('ref', parse(s[:-2]))
    if s.endswith('&'):
        return Ty('ref', parse(s[:-1]))
    if s.endswith('*'):
        return Ty('ptr', parse(s[:-1]))
    m = re.match(r'^(.*)\[(\d*)\]$', s)
    if m:
        return Ty('arr', parse(m.group(1)))
    if s.startswith('(lambda'):
        return LAM
    m = re.match(r'^([\w:]+)\s*<(.*)>$', s)
    if m:
        name = m.group(1).split('::')[-1]
        full = m.group(1)
        args = split_args(m.group(2))
        if name in ('deque', 'vector', 'list', 'queue', 'stack', 'initializer_list'):
            return Ty('seq', parse(args[0]), name=None)
        if name in ('unordered_map', 'map'):
            return Ty('map', parse(args[0]), parse(args[1]))
        if name in ('unordered_set', 'set'):
            return Ty('set', parse(args[0]))
        if name == 'pair':
            return Ty('pair', parse(args[0]), parse(args[1]))
        if name == 'priority_queue':
            return Ty('opaque', name='priority_queue')
        if name in ('_Deque_iterator', '__normal_iterator', '_Node_iterator', '_Node_const_iterator',
                    '_Rb_tree_iterator', '_Rb_tree_const_iterator', '_Node_iterator_base', '_List_iterator'):
            return Ty('iter', name=s)
        if name in ('unique_ptr', 'shared_ptr'):
            return Ty('ptr', parse(args[0]))
        return Ty('cls', name=full + '<>')
    if s in ALIASES:
        return parse(ALIASES[s])
    if re.match(r'^[\w:]+$', s):
        return Ty('cls', name=s.split('::')[-1])
    return Ty('opaque', name=s)
