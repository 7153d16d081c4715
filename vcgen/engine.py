"""Symbolic executor / verification-condition generator over clang's AST.

Every function body that is executed here is the body clang parsed from /repo's
working tree in this run.  Calls are replaced by contracts where the spec gives
one, and inlined otherwise.  Loops are cut with inductive invariants: generic
and spec-supplied candidates are kept only if they hold on entry and are
preserved by an arbitrary iteration (Houdini)."""
import itertools, os, re, sys, threading, time
import subprocess
import z3
z3.set_param("warning", False)
from .ctypes_ import Ty, parse, INT, UINT, BOOL, REAL, STR, VOID, LAM
from .cast import Program, simple_type, ExtractionError

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
W64 = z3.IntVal(2 ** 64)
MAXLEN = z3.IntVal(2 ** 31)     # assumption: containers hold fewer than 2^31 elements
DEBUG = False
PAR = 6


def _has(t, v, seen=None):
    seen = set() if seen is None else seen
    if t.get_id() in seen:
        return False
    seen.add(t.get_id())
    return t.eq(v) or any(_has(c, v, seen) for c in t.children())


def shifted(v, pats):
    """the terms t with which the bound variable v occurs as t + v in the triggers; None if it also occurs otherwise"""
    out, plain = [], []

    def walk(t):
        if t.eq(v):
            plain.append(t)
            return
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ADD and t.num_args() == 2 and any(c.eq(v) for c in t.children()):
            o = t.arg(0) if t.arg(1).eq(v) else t.arg(1)
            out.append((t, o))
            walk(o)
            return
        for c in t.children():
            walk(c)
    for p in pats:
        walk(p)
    return None if plain else out


_ss = {}


def ss(t):
    """select/store at the same index resolved, stores at the same index merged (valid rewriting)"""
    k = t.get_id()
    if k in _ss and _ss[k][0].eq(t):
        return _ss[k][1]
    r = t
    if z3.is_app(t) and t.num_args():
        ch = [ss(c) for c in t.children()]
        if any(not x.eq(y) for x, y in zip(ch, t.children())):
            r = t.decl()(*ch)
        if z3.is_select(r):
            a = r.arg(0)
            if z3.is_store(a) and a.arg(1).eq(r.arg(1)):
                r = a.arg(2)
        elif z3.is_store(r):
            a = r.arg(0)
            if z3.is_store(a) and a.arg(1).eq(r.arg(1)):
                r = z3.Store(a.arg(0), r.arg(1), r.arg(2))
    _ss[k] = (t, r)
    return r


def stored_at(vs, pats):
    """(v, o): a trigger reads store(_, o, _) at the bound variable v, o a term without bound variables"""
    for p in pats:
        stack = [p]
        while stack:
            x = stack.pop()
            if z3.is_select(x) and z3.is_store(x.arg(0)):
                for v in vs:
                    if x.arg(1).eq(v) and not any(_has(x.arg(0).arg(1), w) for w in vs):
                        return v, x.arg(0).arg(1)
            stack.extend(x.children())
    return None


def away(t, v, o, memo=None):
    """t for v different from o: reads at v skip stores at o"""
    memo = {} if memo is None else memo
    k = t.get_id()
    if k in memo:
        return memo[k]
    r = t
    if z3.is_app(t) and t.num_args():
        ch = [away(c, v, o, memo) for c in t.children()]
        if any(not x.eq(y) for x, y in zip(ch, t.children())):
            r = t.decl()(*ch)
        if z3.is_select(r) and r.arg(1).eq(v):
            a = r.arg(0)
            while z3.is_store(a) and a.arg(1).eq(o):
                a = a.arg(0)
            r = z3.Select(a, v)
    memo[k] = r
    return r


def FA(vs, body, pats=(), depth=0):
    """universal quantifier with a trigger where the trigger is a legal one"""
    if pats and not any(isinstance(p, z3.PatternRef) for p in pats):
        pats = [ss(p) for p in pats]
        body = ss(body)
        so = stored_at(vs, pats) if depth < 4 else None
        if so is not None:
            # one object of the heap was written: state the fact for that object and for the others, so that
            # triggers do not contain the store (which the solver may have rewritten away in the facts)
            v, o = so
            rest = FA(vs, z3.Implies(v != o, away(body, v, o)), [away(p, v, o) for p in pats], depth + 1)
            ws = [w for w in vs if not w.eq(v)]
            b1, p1 = ss(z3.substitute(body, (v, o))), [ss(z3.substitute(p, (v, o))) for p in pats]
            if ws:
                p1 = [p for p in p1 if all(_has(p, w) for w in ws)]
                one = FA(ws, b1, p1, depth + 1)
            else:
                one = b1
            return z3.And(rest, one)
    if pats and not any(isinstance(p, z3.PatternRef) for p in pats):
        for v in vs:
            ts = shifted(v, pats)
            if ts and all(o.eq(ts[0][1]) for _, o in ts) and not any(_has(ts[0][1], w) for w in vs):
                # trigger on the position itself: sums in a trigger match unreliably
                o, nv = ts[0][1], z3.Int('sh!%s' % v)
                body = z3.substitute(z3.substitute(body, *[(x, nv) for x, _ in ts]), (v, nv - o))
                pats = [z3.substitute(p, *[(x, nv) for x, _ in ts]) for p in pats]
                vs = [nv if w.eq(v) else w for w in vs]
    try:
        return z3.ForAll(vs, body, patterns=list(pats))
    except z3.Z3Exception:
        return z3.ForAll(vs, body)



class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


# ---------------------------------------------------------------- types
def scalar_sort(ty):
    if ty.k in ('int', 'uint', 'ptr', 'cls', 'str', 'opaque', 'arr', 'lam', 'iter', 'void'):
        return I
    if ty.k == 'bool':
        return B
    if ty.k == 'real':
        return R
    return None


_flat = {}


def has_bag(ety):
    return ety.k == 'ptr' or (ety.k == 'pair' and ety.a.k == 'ptr')


def key_sort(ty):
    if ty.k == 'ref':
        ty = ty.a
    s = scalar_sort(ty)
    if s is None:
        raise Unsupported('map key type %r' % ty)
    return s


def flatten(ty):
    if ty in _flat:
        return _flat[ty]
    if ty.k == 'ref':
        r = flatten(ty.a)
    elif ty.k == 'pair':
        r = [('first' + ('.' + p if p else ''), s) for p, s in flatten(ty.a)] + \
            [('second' + ('.' + p if p else ''), s) for p, s in flatten(ty.b)]
    elif ty.k == 'seq':
        r = [('lo', I), ('hi', I)] + [('e' + ('.' + p if p else ''), z3.ArraySort(I, s)) for p, s in flatten(ty.a)]
        if has_bag(ty.a):
            r.append(('bag', z3.ArraySort(I, I)))
    elif ty.k == 'map':
        K = key_sort(ty.a)
        r = [('n', I), ('dom', z3.ArraySort(K, B)), ('ord', z3.ArraySort(I, K)), ('pos', z3.ArraySort(K, I))] + \
            [('v' + ('.' + p if p else ''), z3.ArraySort(K, s)) for p, s in flatten(ty.b)]
    elif ty.k == 'set':
        K = key_sort(ty.a)
        r = [('n', I), ('dom', z3.ArraySort(K, B)), ('ord', z3.ArraySort(I, K)), ('pos', z3.ArraySort(K, I))]
    else:
        r = [('', scalar_sort(ty))]
    _flat[ty] = r
    return r


class Cv:
    """composite value: flattened components"""
    __slots__ = ('ty', 'c')

    def __init__(self, ty, c):
        self.ty, self.c = ty, c

    def sub(self, prefix, ty):
        if scalar_sort(ty) is not None:
            return self.c[prefix]
        return Cv(ty, {p: self.c[prefix + '.' + p] for p, _ in flatten(ty)})

    def with_sub(self, prefix, ty, val):
        c = dict(self.c)
        if scalar_sort(ty) is not None:
            c[prefix] = val
        else:
            for p, _ in flatten(ty):
                c[prefix + '.' + p] = val.c[p]
        return Cv(self.ty, c)

    # sequence views (used by specs too)
    @property
    def len(self):
        return self.c['hi'] - self.c['lo']

    def at(self, i):
        return self.raw(self.c['lo'] + i)

    def raw(self, j):
        ety = self.ty.a
        if scalar_sort(ety) is not None:
            return z3.Select(self.c['e'], j)
        return Cv(ety, {p: z3.Select(self.c['e' + ('.' + p if p else '')], j) for p, _ in flatten(ety)})

    @property
    def bag(self):
        return self.c['bag']

    @property
    def first(self):
        return self.sub('first', self.ty.a)

    @property
    def second(self):
        return self.sub('second', self.ty.b)

    def has(self, k):
        return z3.Select(self.c['dom'], k)

    def get(self, k):
        vty = self.ty.b
        if scalar_sort(vty) is not None:
            return z3.Select(self.c['v'], k)
        return Cv(vty, {p: z3.Select(self.c['v' + ('.' + p if p else '')], k) for p, _ in flatten(vty)})


class FnRef:
    def __init__(self, fn):
        self.fn = fn


class It:
    """iterator: container lvalue + absolute position (seq: array index; map: position in ord)"""
    __slots__ = ('lv', 'pos', 'ty')

    def __init__(self, lv, pos, ty):
        self.lv, self.pos, self.ty = lv, pos, ty


class PLv:
    """pointer to an lvalue (address-of)"""
    __slots__ = ('lv',)

    def __init__(self, lv):
        self.lv = lv


class APtr:
    """pointer into a heap array: base ref + offset"""
    __slots__ = ('ref', 'off', 'ety')

    def __init__(self, ref, off, ety):
        self.ref, self.off, self.ety = ref, off, ety


class Lam:
    __slots__ = ('node', 'frame')

    def __init__(self, node, frame):
        self.node, self.frame = node, frame


class Opaque:
    def __init__(self, what=''):
        self.what = what


class GView:
    """view returned by the graph API: kind, node"""

    def __init__(self, kind, *args):
        self.kind, self.args = kind, args


# ---------------------------------------------------------------- lvalues
class LVar:
    __slots__ = ('key', 'ty')

    def __init__(self, key, ty):
        self.key, self.ty = key, ty

    def same(self, o):
        return isinstance(o, LVar) and o.key == self.key


class LField:
    __slots__ = ('ref', 'name', 'ty')

    def __init__(self, ref, name, ty):
        self.ref, self.name, self.ty = ref, name, ty

    def same(self, o):
        return isinstance(o, LField) and o.name == self.name and o.ref.eq(self.ref)


class LElem:
    """element of a sequence lvalue; idx relative (i) or absolute"""
    __slots__ = ('base', 'pos', 'ty')

    def __init__(self, base, pos, ty):
        self.base, self.pos, self.ty = base, pos, ty

    def same(self, o):
        return isinstance(o, LElem) and self.base.same(o.base) and self.pos.eq(o.pos)


class LMapV:
    __slots__ = ('base', 'key', 'ty')

    def __init__(self, base, key, ty):
        self.base, self.key, self.ty = base, key, ty

    def same(self, o):
        return isinstance(o, LMapV) and self.base.same(o.base) and self.key.eq(o.key)


class LSub:
    __slots__ = ('base', 'which', 'ty')

    def __init__(self, base, which, ty):
        self.base, self.which, self.ty = base, which, ty

    def same(self, o):
        return isinstance(o, LSub) and self.which == o.which and self.base.same(o.base)


class LArr:
    __slots__ = ('ref', 'idx', 'ty')

    def __init__(self, ref, idx, ty):
        self.ref, self.idx, self.ty = ref, idx, ty

    def same(self, o):
        return isinstance(o, LArr) and o.ref.eq(self.ref) and o.idx.eq(self.idx)


class LTemp:
    """a temporary (rvalue bound to a reference)"""
    __slots__ = ('val', 'ty')

    def __init__(self, val, ty):
        self.val, self.ty = val, ty

    def same(self, o):
        return self is o


RDIV = z3.Function('rdiv', R, R, R)
IMUL = z3.Function('imul', I, I, I)


class State:
    __slots__ = ('loc', 'heap', 'ghost', 'pc')

    def __init__(self):
        self.loc, self.heap, self.ghost, self.pc = {}, {}, {}, []

    def copy(self):
        s = State()
        s.loc = dict(self.loc)
        s.heap = dict(self.heap)
        s.ghost = dict(self.ghost)
        s.pc = list(self.pc)
        return s


class Out:
    """outcome of executing a statement"""
    __slots__ = ('normal', 'brk', 'cont', 'ret', 'thr')

    def __init__(self, normal=None):
        self.normal = normal
        self.brk, self.cont, self.ret, self.thr = [], [], [], []

    def absorb(self, o):
        self.brk += o.brk
        self.cont += o.cont
        self.ret += o.ret
        self.thr += o.thr


class Frame:
    __slots__ = ('fn', 'tu', 'this', 'dyn', 'depth', 'thr')

    def __init__(self, fn, tu, this, dyn, depth):
        self.fn, self.tu, self.this, self.dyn, self.depth = fn, tu, this, dyn, depth
        self.thr = []


class Oblig:
    __slots__ = ('name', 'pc', 'goal', 'where', 'kind', 'result', 'solver', 'time', 'model')

    def __init__(self, name, pc, goal, where, kind):
        self.name, self.pc, self.goal, self.where, self.kind = name, pc, goal, where, kind
        self.result = None
        self.solver = None
        self.time = 0
        self.model = None


def is_true(t):
    return z3.is_true(z3.simplify(t))


def is_false(t):
    return z3.is_false(z3.simplify(t))


def toreal(t):
    if t.sort() == I:
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        return z3.ToReal(t)
    if t.sort() == B:
        return z3.If(t, z3.RealVal(1), z3.RealVal(0))
    return t


def toint(t):
    if t.sort() == B:
        return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    return t


def tobool(t):
    if isinstance(t, (PLv, APtr)):
        return z3.BoolVal(True) if isinstance(t, PLv) else t.ref != 0
    if isinstance(t, (It, Cv, Lam, Opaque)):
        raise Unsupported('tobool of %r' % t)
    if t.sort() == B:
        return t
    return t != 0


def trunc(t):
    return z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))


_const_cache = {}


def consts_of(t):
    """ids of uninterpreted constants in a term"""
    key = t.get_id()
    if key in _const_cache and _const_cache[key][0].eq(t):
        return _const_cache[key][1]
    seen, out, stack = set(), set(), [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            stack.extend(x.children())
        elif z3.is_quantifier(x):
            stack.append(x.body())
    _const_cache[key] = (t, out)
    return out


_sk = itertools.count()


def neg(g, depth=0):
    """negation of a goal with its universal variables replaced by fresh constants"""
    if z3.is_quantifier(g) and g.is_forall() and depth < 6:
        n = g.num_vars()
        vs = [z3.Const('sk!%d_%s' % (next(_sk), g.var_name(i)), g.var_sort(i)) for i in range(n)]
        return neg(z3.substitute_vars(g.body(), *reversed(vs)), depth + 1)
    if z3.is_and(g) and g.num_args():
        return z3.Or([neg(x, depth + 1) for x in g.children()])
    if z3.is_or(g) and g.num_args():
        return z3.And([neg(x, depth + 1) for x in g.children()])
    if z3.is_implies(g):
        return z3.And(g.arg(0), neg(g.arg(1), depth + 1))
    return z3.Not(g)


_hq = {}
_nc = {}


def content_consts(f):
    """names of the element-content constants (nested arrays) occurring in f"""
    k = f.get_id()
    if k in _nc and _nc[k][0].eq(f):
        return _nc[k][1]
    stack, seen, r = [f], set(), set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_array(x) and isinstance(x.sort().range(), z3.ArraySortRef):
            r.add(x.decl().name())
        stack.extend(x.children())
    r = frozenset(r)
    _nc[k] = (f, r)
    return r


def relevant(pc, goal):
    """pc without the quantified facts about element contents the goal does not speak of"""
    g = content_consts(goal)
    return [f for f in pc if (not has_quant(f) or content_consts(f) <= g) and not nonlinear(f)]


_nl = {}


def nonlinear(f):
    k = f.get_id()
    if k in _nl and _nl[k][0].eq(f):
        return _nl[k][1]
    stack, seen, r = [f], set(), False
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_mul(x) and sum(1 for y in x.children() if not (z3.is_rational_value(y) or z3.is_int_value(y))) > 1:
            r = True
            break
        if (z3.is_div(x) or z3.is_idiv(x)) and not (z3.is_rational_value(x.arg(1)) or z3.is_int_value(x.arg(1))):
            r = True
            break
        stack.extend(x.children())
    _nl[k] = (f, r)
    return r


def has_quant(f):
    k = f.get_id()
    if k in _hq and _hq[k][0].eq(f):
        return _hq[k][1]
    stack, seen, r = [f], set(), False
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            r = True
            break
        stack.extend(x.children())
    _hq[k] = (f, r)
    return r


class Engine:
    def __init__(self, prog, spec=None, opts=None):
        self.prog = prog
        self.spec = spec or {}
        self.cnt = itertools.count()
        self.obligs = []
        self.muted = 0
        self.wlog = []            # stack of write logs
        self.fieldty = {}           # heap key prefix -> Ty
        self.enum = {}
        self.strs = {}
        self.contracts = {}         # qual name -> callable
        self.inv_fns = []           # candidate invariant generators
        self.idx_inv_fns = []
        self.old = None
        self.gv = None              # ghost vehicle constant
        self.veh_fields = set()     # field names counted in the ghost total
        self.fn_used = set()
        self.maxdepth = 12
        self.solver_ms = 4000
        self.stats = dict(houdini_checks=0, houdini_time=0.0, loops=0, cand=0, kept=0)
        self.dispatch = {}          # static class -> dynamic class for virtual calls
        self.safety = True
        self.throw_ok = True
        self.assumed = set()
        self.builtins = {}
        self.write_hooks = []
        self.scalar_hooks = {}     # field -> f(eng, st, ref, new value), called before a scalar field is written
        self.cur_loop_index_terms = []
        self.frame_preds = []
        self.deadline = None
        self.axioms = []            # global axioms (lemmas over the spec's ghost functions)
        self.alloc_distinct = True
        self.depth_trace = []
        self.callpath = []
        self.elem_bounds = []
        self.ptrlocals = set()
        self.dropped = {}
        self.loop_budget_ms = None
        self.path_prune = False
        self.loop_reports = []

    # ------------------------------------------------------------ fresh
    def fresh(self, sort, hint='t'):
        return z3.Const('%s!%d' % (hint, next(self.cnt)), sort)

    def fresh_val(self, ty, hint='v'):
        if ty.k == 'ref':
            ty = ty.a
        s = scalar_sort(ty)
        if s is not None:
            return self.fresh(s, hint)
        return Cv(ty, {p: self.fresh(so, hint + '.' + p) for p, so in flatten(ty)})

    def default_val(self, ty):
        if ty.k == 'seq':
            c = {'lo': z3.IntVal(0), 'hi': z3.IntVal(0)}
            for p, s in flatten(ty):
                if p in c:
                    continue
                if p == 'bag':
                    c[p] = z3.K(I, z3.IntVal(0))
                else:
                    c[p] = self.fresh(s, 'empty')
            return Cv(ty, c)
        if ty.k in ('map', 'set'):
            c = {}
            for p, s in flatten(ty):
                if p == 'n':
                    c[p] = z3.IntVal(0)
                elif p == 'dom':
                    c[p] = z3.K(s.domain(), z3.BoolVal(False))
                else:
                    c[p] = self.fresh(s, 'emptym')
            return Cv(ty, c)
        if ty.k == 'pair':
            c = {}
            for w, t in (('first', ty.a), ('second', ty.b)):
                v = self.default_val(t)
                if scalar_sort(t) is not None:
                    c[w] = v
                else:
                    for p, x in v.c.items():
                        c[w + '.' + p] = x
            return Cv(ty, c)
        s = scalar_sort(ty)
        if s == I:
            return z3.IntVal(0)
        if s == R:
            return z3.RealVal(0)
        if s == B:
            return z3.BoolVal(False)
        raise Unsupported('default of %r' % ty)

    # ------------------------------------------------------------ obligations
    def oblige(self, st, goal, name, where=None, kind='post'):
        if z3.is_true(goal):
            if not self.muted:
                o = Oblig(name, [], goal, where, kind)
                o.result, o.solver = 'valid', 'trivial'
                self.obligs.append(o)
            return
        if not self.muted:
            self.obligs.append(Oblig(name, list(st.pc), goal, where, kind))
        if kind in ('safety', 'call-pre'):      # assert, then assume
            st.pc.append(goal)

    def quick_valid(self, pc, goal, ms=None):   # ms: rlimit
        """is goal implied? used for candidate invariants (sound to answer no)"""
        if z3.is_true(goal):
            return True
        t0 = time.time()
        self.stats['houdini_checks'] += 1
        if time.time() > self.deadline:
            raise TimeoutError('time budget exhausted')
        rp = relevant(pc, goal)
        if len(rp) < len(pc):
            s = z3.SimpleSolver()
            s.set('rlimit', (ms or self.rlimit * 2) // 2)
            if not self.child:
                s.set('timeout', 20000)
            if self.seed:
                s.set('random_seed', self.seed)
            s.add(*self.axioms)
            s.add(*rp)
            s.add(neg(goal))
            if s.check() == z3.unsat:
                self.stats['houdini_time'] += time.time() - t0
                return True
        s = z3.SimpleSolver()
        s.set('rlimit', ms or self.rlimit * 2)
        if not self.child:
            # facts with products can send the solver into a long search outside its resource counter
            s.set('timeout', 6000 if any(nonlinear(f) for f in pc) else 20000)
        if self.seed:
            s.set('random_seed', self.seed)
        s.add(*self.axioms)
        s.add(*pc)
        s.add(neg(goal))
        r = s.check()
        dt = time.time() - t0
        self.stats['houdini_time'] += dt
        if DEBUG and dt > 1:
            print('      slow check %.1fs %s' % (dt, r))
        return r == z3.unsat

    child = False
    isa = frozenset()     # classes every dynamic_cast to which is assumed to succeed (stated assumption)
    rlimit = 1500000
    weak_rlimit = 250000
    seed = 0
    retry = False
    deadline = 1e18

    def which_valid(self, pc, fms, weak=None):
        """for each formula: is it implied by pc (a no is always sound).  weak: generic guesses, checked with little effort"""
        out = [f is not None for f in fms]
        if weak is not None and any(weak):
            wi = [i for i, f in enumerate(fms) if weak[i] and f is not None and not z3.is_true(f)]
            qf = [f for f in pc if not has_quant(f) and not nonlinear(f)]
            r = self._which(qf, [fms[i] for i in wi], self.weak_rlimit, [f for f in pc if not nonlinear(f)])
            for i, ok in zip(wi, r):
                out[i] = ok
            pc = pc + [fms[i] for i in wi if out[i]]
            si = [i for i, f in enumerate(fms) if not weak[i] and f is not None]
            for i, ok in zip(si, self._which(pc, [fms[i] for i in si], self.rlimit)):
                out[i] = ok
            return out
        for i, ok in enumerate(self._which(pc, fms, self.rlimit)):
            out[i] = ok
        return out

    def _which(self, pc, fms, rl, full=None):
        idx = [i for i, f in enumerate(fms) if f is not None and not z3.is_true(f)]
        out = [f is not None for f in fms]
        live = list(idx)
        while live:
            g = z3.And([fms[i] for i in live])
            t0 = time.time()
            if time.time() > self.deadline:
                raise TimeoutError('time budget exhausted')
            self.stats['houdini_checks'] += 1
            s = z3.SimpleSolver()
            s.set('rlimit', rl)
            s.set('timeout', 20000)
            if self.seed:
                s.set('random_seed', self.seed)
            s.add(*self.axioms)
            lin = [f for f in pc if not nonlinear(f)]
            s.add(*lin)
            s.add(neg(g))
            r = s.check()
            if r == z3.sat and len(lin) < len(pc):
                r = z3.unknown
            self.stats['houdini_time'] += time.time() - t0
            if r == z3.unsat:
                return out
            rest, sus = [], []
            try:
                m = s.model()
            except z3.Z3Exception:
                m = None
            if m is not None:
                for i in live:
                    try:
                        v = m.eval(fms[i], model_completion=True)
                    except z3.Z3Exception:
                        v = None
                    if v is not None and z3.is_false(v):
                        # the model may be spurious (quantifiers): confirm individually when it is not a definite sat
                        if r == z3.sat and full is None:
                            out[i] = False
                            continue
                        sus.append(i)
                        continue
                    rest.append(i)
                for i, ok in zip(sus, self.par_valid(full if full is not None else pc, [fms[i] for i in sus], rl * 2, self.retry and full is None)):
                    out[i] = ok
                    if ok:
                        pc = pc + [fms[i]]
            else:
                rest = live
            if len(rest) == len(live):
                for i, ok in zip(live, self.par_valid(full if full is not None else pc, [fms[i] for i in live], rl * 2, self.retry and full is None)):
                    out[i] = ok
                return out
            live = rest
        return out

    def par_valid(self, pc, goals, rl, retry=False):
        """quick_valid of several goals, in threads with a solver context each"""
        if not goals:
            return []
        if (len(goals) <= 1 and not retry) or PAR <= 1:
            return [self.quick_valid(pc, g, rl) for g in goals]
        t0 = time.time()
        if t0 > self.deadline:
            raise TimeoutError('time budget exhausted')
        out = [False] * len(goals)

        gave_up = set()

        def run(jobs, seed=None, mbqi=False):
            """jobs: (index, formulas, rlimit)"""
            sol = []
            seed = self.seed if seed is None else seed
            for i, fms, lim in jobs:
                cx = z3.Context()
                s = z3.SimpleSolver(ctx=cx)
                s.set('rlimit', lim)
                s.set('timeout', 20000)
                s.set('mbqi', mbqi)
                if seed:
                    s.set('random_seed', seed)
                for f in fms:
                    s.add(f.translate(cx))
                sol.append((i, s))
            q = list(sol)
            res = {}

            def work():
                while True:
                    try:
                        i, s = q.pop(0)
                    except IndexError:
                        return
                    r = s.check()
                    res[i] = r == z3.unsat
                    if r == z3.unknown:
                        gave_up.add(i)
                    else:
                        gave_up.discard(i)
            th = [threading.Thread(target=work) for _ in range(min(PAR, len(sol)))]
            for t in th:
                t.start()
            for t in th:
                t.join()
            return res
        todo = []
        for i, g in enumerate(goals):
            if z3.is_true(g):
                out[i] = True
                continue
            todo.append(i)
        jobs = []
        for i in todo:
            rp = relevant(pc, goals[i])
            if len(rp) < len(pc):
                jobs.append((i, list(self.axioms) + rp + [neg(goals[i])], rl // 2))
        for i, ok in run(jobs).items():
            out[i] = ok
        jobs = [(i, list(self.axioms) + list(pc) + [neg(goals[i])], rl) for i in todo if not out[i]]
        for i, ok in run(jobs).items():
            out[i] = ok
        if retry:       # the solver gave up on an invariant of the contract: other search orders before dropping it
            for sd, k in ((11, 1), (23, 2), (37, 4)):
                jobs = []
                for i in todo:
                    if not out[i] and i in gave_up:
                        rp = relevant(pc, goals[i])
                        jobs.append((i, list(self.axioms) + (rp if sd != 23 else list(pc)) + [neg(goals[i])], rl * k))
                if not jobs or time.time() > self.deadline:
                    break
                self.stats['retries'] = self.stats.get('retries', 0) + len(jobs)
                keep = set(gave_up)
                for i, ok in run(jobs, sd, self.mbqi).items():
                    out[i] = ok
                gave_up |= {i for i in keep if not out[i]}
            rest = [i for i in todo if not out[i] and i in gave_up]
            if rest and time.time() < self.deadline:
                for i, ok in zip(rest, self.other_solver([list(self.axioms) + list(pc) + [neg(goals[i])] for i in rest])):
                    out[i] = ok
                self.stats['other_solver'] = self.stats.get('other_solver', 0) + len(rest)
        self.stats['houdini_checks'] += len(goals)
        self.stats['houdini_time'] += time.time() - t0
        return out

    def other_solver(self, jobs, tmo=3):
        """unsatisfiability of several sets of formulas by the newer z3 release"""
        txt = []
        for fms in jobs:
            s = z3.SimpleSolver()
            s.add(*fms)
            txt.append(s.to_smt2())
        res = [False] * len(jobs)
        q = list(range(len(jobs)))

        def work():
            while True:
                try:
                    i = q.pop(0)
                except IndexError:
                    return
                try:
                    p = subprocess.run(['z3-new', '-in', '-T:%d' % (tmo + 3), 'smt.mbqi=false', 'rlimit=%d' % (tmo * 4000000)], input=txt[i], stdout=subprocess.PIPE,
                                       stderr=subprocess.DEVNULL, universal_newlines=True, timeout=tmo + 6)
                    res[i] = p.stdout.strip().startswith('unsat')
                except (OSError, subprocess.SubprocessError):
                    pass
        th = [threading.Thread(target=work) for _ in range(min(PAR, len(jobs)))]
        for t in th:
            t.start()
        for t in th:
            t.join()
        return res

    def feasible(self, st):
        s = z3.SimpleSolver()
        s.set('timeout', 300)
        s.add(*st.pc)
        return s.check() != z3.unsat

    # ------------------------------------------------------------ heap
    def heap_get(self, st, key, sort):
        h = st.heap.get(key)
        if h is None:
            h = z3.Const('H0_' + key, z3.ArraySort(I, sort))
            st.heap[key] = h
        return h

    def read(self, st, lv):
        """read an lvalue"""
        if isinstance(lv, LTemp):
            return lv.val
        if isinstance(lv, LVar):
            v = st.loc.get(lv.key)
            if v is None:
                raise Unsupported('read of unset local %r' % (lv.key,))
            if isinstance(v, (LVar, LField, LElem, LMapV, LSub, LArr, LTemp)):
                return self.read(st, v)
            return v
        if isinstance(lv, LField):
            self.fieldty[lv.name] = lv.ty
            ty = lv.ty
            if scalar_sort(ty) is not None:
                v = z3.Select(self.heap_get(st, lv.name, scalar_sort(ty)), lv.ref)
                return v
            c = {p: z3.Select(self.heap_get(st, lv.name + '~' + p, s), lv.ref) for p, s in flatten(ty)}
            v = Cv(ty, c)
            self.wf(st, v)
            return v
        if isinstance(lv, LElem):
            b = self.read(st, lv.base)
            v = b.raw(lv.pos)
            if 'bag' in b.c:
                self.bagfact(st, b, lv.pos)
            if isinstance(v, Cv):
                self.wf(st, v)
            return v
        if isinstance(lv, LMapV):
            b = self.read(st, lv.base)
            v = b.get(lv.key)
            if isinstance(v, Cv):
                self.wf(st, v)
            return v
        if isinstance(lv, LSub):
            b = self.read(st, lv.base)
            if isinstance(b, LMapEntry):
                b = self.read(st, b)
            return b.sub(lv.which, lv.ty)
        if isinstance(lv, LArr):
            ty = lv.ty
            if scalar_sort(ty) is None:
                c = {p: z3.Select(z3.Select(self.heap_get(st, '$arr:%r~%s' % (ty, p), z3.ArraySort(I, s)), lv.ref), lv.idx)
                     for p, s in flatten(ty)}
                return Cv(ty, c)
            s = scalar_sort(ty)
            h = self.heap_get(st, '$arr:%r' % ty, z3.ArraySort(I, s))
            return z3.Select(z3.Select(h, lv.ref), lv.idx)
        raise Unsupported('read %r' % lv)

    def wf(self, st, v):
        if isinstance(v, Cv):
            if v.ty.k == 'seq':
                st.pc.append(v.c['hi'] >= v.c['lo'])
                st.pc.append(v.c['hi'] - v.c['lo'] < MAXLEN)
                if 'bag' in v.c and self.gv is not None:
                    st.pc.append(z3.Select(v.c['bag'], self.gv) >= 0)
            elif v.ty.k in ('map', 'set'):
                st.pc.append(v.c['n'] >= 0)

    def bagfact(self, st, seq, pos):
        e = seq.raw(pos)
        x = e.first if isinstance(e, Cv) else e
        st.pc.append(z3.Implies(z3.And(seq.c['lo'] <= pos, pos < seq.c['hi']), z3.Select(seq.c['bag'], x) >= 1))

    def store_heap(self, st, key, sort, ref, val):
        h = self.heap_get(st, key, sort)
        if h.sort().range() != val.sort():
            val = self.coerce_sort(val, h.sort().range())
        if val.eq(z3.Select(h, ref)):
            return
        st.heap[key] = z3.Store(h, ref, val)
        if self.wlog:
            for w in self.wlog:
                w.setdefault(key, []).append(ref)

    def coerce_sort(self, v, sort):
        if v.sort() == sort:
            return v
        if sort == R:
            return toreal(v)
        if sort == I and v.sort() == B:
            return toint(v)
        if sort == B:
            return tobool(v)
        if sort == I and v.sort() == R:
            return trunc(v)
        raise Unsupported('coerce %s to %s' % (v.sort(), sort))

    def write(self, st, lv, val):
        if isinstance(lv, LTemp):
            lv.val = val
            return
        if isinstance(lv, LVar):
            cur = st.loc.get(lv.key)
            if isinstance(cur, (LVar, LField, LElem, LMapV, LSub, LArr, LTemp)):
                return self.write(st, cur, val)
            if z3.is_expr(val) and lv.ty is not None and scalar_sort(lv.ty) is not None and lv.ty.k not in ('iter',):
                val = self.named(st, self.coerce_sort(val, scalar_sort(lv.ty)))
            st.loc[lv.key] = val
            return
        if isinstance(lv, LField):
            self.fieldty[lv.name] = lv.ty
            ty = lv.ty
            if scalar_sort(ty) is not None:
                if isinstance(val, APtr):
                    if not is_true(val.off == 0):
                        raise Unsupported('storing an offset pointer')
                    val = val.ref
                if isinstance(val, PLv):
                    raise Unsupported('storing a pointer to an lvalue in the heap')
                if not z3.is_expr(val):
                    if isinstance(val, Opaque):
                        val = self.fresh(scalar_sort(ty), 'opq')
                    else:
                        raise Unsupported('storing %r' % val)
                if lv.name in self.scalar_hooks:
                    self.scalar_hooks[lv.name](self, st, lv.ref, self.coerce_sort(val, scalar_sort(ty)))
                self.store_heap(st, lv.name, scalar_sort(ty), lv.ref, val)
                return
            if lv.name in self.veh_fields and 'Total' in st.ghost:
                old = self.read(st, lv)
                bagn = val.c['bag']
                d = z3.Select(bagn, self.gv) - z3.Select(old.c['bag'], self.gv)
                st.ghost['Total'] = st.ghost['Total'] + d
            for hk in self.write_hooks:
                hk(self, st, lv, val)
            for p, s in flatten(ty):
                self.store_heap(st, lv.name + '~' + p, s, lv.ref, val.c[p])
            return
        if isinstance(lv, LElem):
            b = self.read(st, lv.base)
            c = dict(b.c)
            ety = b.ty.a
            if 'bag' in c:
                o = b.raw(lv.pos)
                oldx = o.first if isinstance(o, Cv) else o
                newx = val.first if isinstance(val, Cv) else val
                if not (z3.is_expr(oldx) and oldx.eq(newx)):
                    bag = c['bag']
                    bag = z3.Store(bag, oldx, z3.Select(bag, oldx) - 1)
                    bag = z3.Store(bag, newx, z3.Select(bag, newx) + 1)
                    c['bag'] = bag
            if scalar_sort(ety) is not None:
                if isinstance(val, (PLv, Opaque)):
                    raise Unsupported('pointer element')
                c['e'] = z3.Store(c['e'], lv.pos, self.coerce_sort(val, scalar_sort(ety)))
            else:
                for p, s in flatten(ety):
                    k = 'e' + ('.' + p if p else '')
                    c[k] = z3.Store(c[k], lv.pos, val.c[p])
            self.write(st, lv.base, Cv(b.ty, c))
            return
        if isinstance(lv, LMapV):
            b = self.read(st, lv.base)
            c = dict(b.c)
            vty = b.ty.b
            if scalar_sort(vty) is not None:
                if isinstance(val, APtr):
                    val = val.ref
                if not z3.is_expr(val):
                    raise Unsupported('map value %r' % val)
                c['v'] = z3.Store(c['v'], lv.key, self.coerce_sort(val, scalar_sort(vty)))
            else:
                for p, s in flatten(vty):
                    k = 'v' + ('.' + p if p else '')
                    c[k] = z3.Store(c[k], lv.key, val.c[p])
            self.write(st, lv.base, Cv(b.ty, c))
            return
        if isinstance(lv, LSub):
            b = self.read(st, lv.base)
            if scalar_sort(lv.ty) is not None and z3.is_expr(val):
                val = self.coerce_sort(val, scalar_sort(lv.ty))
            self.write(st, lv.base, b.with_sub(lv.which, lv.ty, val))
            return
        if isinstance(lv, LArr):
            ty = lv.ty
            if scalar_sort(ty) is None:
                for p, s in flatten(ty):
                    key = '$arr:%r~%s' % (ty, p)
                    h = self.heap_get(st, key, z3.ArraySort(I, s))
                    a = z3.Select(h, lv.ref)
                    self.store_heap(st, key, z3.ArraySort(I, s), lv.ref, z3.Store(a, lv.idx, val.c[p]))
                return
            s = scalar_sort(ty)
            key = '$arr:%r' % ty
            h = self.heap_get(st, key, z3.ArraySort(I, s))
            a = z3.Select(h, lv.ref)
            self.store_heap(st, key, z3.ArraySort(I, s), lv.ref, z3.Store(a, lv.idx, self.coerce_sort(val, s)))
            return
        raise Unsupported('write %r' % lv)

    # ------------------------------------------------------------ merge
    def merge_val(self, g, a, b):
        if a is b:
            return a
        if z3.is_expr(a) and z3.is_expr(b):
            if a.eq(b):
                return a
            if a.sort() != b.sort():
                if a.sort() == R or b.sort() == R:
                    a, b = toreal(a), toreal(b)
                else:
                    raise Unsupported('merge sorts')
            return z3.If(g, a, b)
        if isinstance(a, Cv) and isinstance(b, Cv):
            return Cv(a.ty, {p: self.merge_val(g, a.c[p], b.c[p]) for p in a.c})
        if isinstance(a, It) and isinstance(b, It) and a.lv.same(b.lv):
            return It(a.lv, self.merge_val(g, a.pos, b.pos), a.ty)
        if isinstance(a, APtr) and isinstance(b, APtr):
            return APtr(self.merge_val(g, a.ref, b.ref), self.merge_val(g, a.off, b.off), a.ety)
        if isinstance(a, PLv) and isinstance(b, PLv) and a.lv.same(b.lv):
            return a
        if hasattr(a, 'same') and hasattr(b, 'same') and a.same(b):
            return a
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return a if isinstance(a, Opaque) else b
        if isinstance(a, LField) and isinstance(b, LField) and a.name == b.name:
            return LField(z3.If(g, a.ref, b.ref), a.name, a.ty)
        return None      # dropped: reading it later is Unsupported

    def merge(self, states):
        states = [s for s in states if s is not None]
        if not states:
            return None
        acc = states[0]
        for s in states[1:]:
            acc = self.merge2(acc, s)
        return acc

    def merge2(self, a, b):
        n = 0
        la, lb = a.pc, b.pc
        m = min(len(la), len(lb))
        while n < m and (la[n] is lb[n] or la[n].eq(lb[n])):
            n += 1
        ra, rb = la[n:], lb[n:]
        ga = z3.And(*ra) if len(ra) != 1 else ra[0]
        gb = z3.And(*rb) if len(rb) != 1 else rb[0]
        if not ra and not rb:
            g = z3.BoolVal(True)
        # a compact selector
        sel = self.fresh(B, 'sel')
        out = State()
        out.pc = la[:n] + [z3.Implies(sel, ga), z3.Implies(z3.Not(sel), gb)]
        for k in set(a.loc) | set(b.loc):
            if k in a.loc and k in b.loc:
                v = self.merge_val(sel, a.loc[k], b.loc[k])
                if v is not None:
                    out.loc[k] = v
        for k in set(a.heap) | set(b.heap):
            x, y = a.heap.get(k), b.heap.get(k)
            if x is None:
                x = z3.Const('H0_' + k, y.sort())
            if y is None:
                y = z3.Const('H0_' + k, x.sort())
            out.heap[k] = x if x.eq(y) else z3.If(sel, x, y)
        for k in set(a.ghost) | set(b.ghost):
            out.ghost[k] = self.merge_val(sel, a.ghost[k], b.ghost[k])
        return out

    # ------------------------------------------------------------ statements
    def where(self, node, frame):
        l = node.get('range', {}).get('begin', {})
        if 'expansionLoc' in l:
            l = l['expansionLoc']
        return '%s:%s' % (frame.fn.qual if frame.fn else '?', l.get('line', l.get('col', '?')))

    def exec(self, node, st, fr):
        if self.deadline and time.time() > self.deadline:
            raise TimeoutError('engine deadline')
        if not node:
            return Out(st)
        k = node['kind']
        m = getattr(self, 'x_' + k, None)
        if m:
            return m(node, st, fr)
        # expression statement
        o = Out()
        save = fr.thr
        fr.thr = []
        try:
            self.ev(node, st, fr)
            o.normal = st
        except Infeasible:
            o.normal = None
        o.thr = fr.thr
        fr.thr = save
        return o

    @staticmethod
    def pop_scope(st, keep):
        """locals declared inside a block are gone after it"""
        if st is not None and any(k not in keep for k in st.loc):
            st = st.copy()
            st.loc = {k: v for k, v in st.loc.items() if k in keep}
        return st

    def x_CompoundStmt(self, node, st, fr):
        out = Out(st)
        cur = st
        keep = set(st.loc)
        for c in node.get('inner', []):
            if cur is None:
                break
            o = self.exec(c, cur, fr)
            out.absorb(o)
            cur = o.normal
        out.normal = self.pop_scope(cur, keep)
        return out

    def x_NullStmt(self, node, st, fr):
        return Out(st)

    def x_ExprWithCleanups(self, node, st, fr):
        return self.exec(node['inner'][0], st, fr)

    def x_DeclStmt(self, node, st, fr):
        out = Out()
        save = fr.thr
        fr.thr = []
        try:
            for d in node.get('inner', []):
                if d['kind'] == 'VarDecl':
                    self.declare(d, st, fr)
                elif d['kind'] in ('TypedefDecl', 'UsingDecl', 'CXXRecordDecl', 'TypeAliasDecl', 'StaticAssertDecl'):
                    pass
                else:
                    raise Unsupported('decl ' + d['kind'])
            out.normal = st
        except Infeasible:
            out.normal = None
        out.thr = fr.thr
        fr.thr = save
        return out

    name_nl = False
    mbqi = False        # model-based quantifier instantiation in the later attempts at an invariant
    uf_mul = False      # products of two unknown integers are an uninterpreted (commutative) function
    uf_div = False      # division by an unknown is an uninterpreted function (only congruence is known)

    def named(self, st, v):
        """give a value that contains products of unknowns a name, so that facts about it stay linear"""
        if not self.name_nl or not z3.is_expr(v) or v.sort() not in (I, R) or not nonlinear(v):
            return v
        x = self.fresh(v.sort(), 'nl')
        st.pc.append(x == v)
        return x

    def declare(self, d, st, fr):
        key = (fr.tu.fname, d['id'])
        ty = parse(simple_type(d['type']))
        if ty.k == 'ptr':
            self.ptrlocals.add(key)
        inner = [x for x in d.get('inner', []) if x and x.get('kind') not in ('FullComment',)]
        self.localname = getattr(self, 'localname', {})
        self.localname[key] = d.get('name', '?')
        if ty.k == 'ref':
            st.loc[key] = self.lval(inner[0], st, fr)
            return
        if not inner or 'init' not in d and not inner:
            if ty.k in ('seq', 'map', 'set', 'pair'):
                st.loc[key] = self.default_val(ty)
            elif ty.k == 'iter' or ty.k == 'lam':
                st.loc[key] = Opaque('uninit iter')
            else:
                s = scalar_sort(ty)
                st.loc[key] = self.fresh(s, 'uninit_' + d.get('name', ''))
            return
        v = self.ev(inner[0], st, fr)
        if ty.k == 'arr':
            st.loc[key] = v
            return
        if z3.is_expr(v) and scalar_sort(ty) is not None:
            v = self.named(st, self.coerce_sort(v, scalar_sort(ty)))
        st.loc[key] = v

    def cond(self, node, st, fr):
        return tobool(self.ev(node, st, fr))

    def x_IfStmt(self, node, st, fr):
        inner = node['inner']
        out = Out()
        save = fr.thr
        fr.thr = []
        i = 0
        if node.get('hasInit'):
            o = self.exec(inner[0], st, fr)
            st = o.normal
            i += 1
        if node.get('hasVar'):
            o = self.exec(inner[i], st, fr)
            i += 1
        try:
            c = self.cond(inner[i], st, fr)
        except Infeasible:
            out.thr = fr.thr
            fr.thr = save
            return out
        out.thr += fr.thr
        fr.thr = save
        then = inner[i + 1]
        els = inner[i + 2] if node.get('hasElse') else None
        sc = z3.simplify(c)
        if z3.is_true(sc):
            o = self.exec(then, st, fr)
            o.thr += out.thr
            return o
        if z3.is_false(sc):
            if els is None:
                out.normal = st
                return out
            o = self.exec(els, st, fr)
            o.thr += out.thr
            return o
        s1 = st.copy()
        s1.pc.append(c)
        s2 = st
        s2.pc.append(z3.Not(c))
        o1 = self.exec(then, s1, fr) if (not self.path_prune or self.feasible(s1)) else Out(None)
        o2 = self.exec(els, s2, fr) if els is not None else Out(s2)
        out.absorb(o1)
        out.absorb(o2)
        out.normal = self.merge([o1.normal, o2.normal])
        return out

    def x_ReturnStmt(self, node, st, fr):
        out = Out()
        save = fr.thr
        fr.thr = []
        try:
            v = None
            if node.get('inner'):
                v = self.ev(node['inner'][0], st, fr)
                if isinstance(v, (LVar, LField, LElem, LMapV, LSub, LArr, LTemp)):
                    pass
            out.ret.append((st, v))
        except Infeasible:
            pass
        out.thr = fr.thr
        fr.thr = save
        return out

    def x_BreakStmt(self, node, st, fr):
        o = Out()
        o.brk.append(st)
        return o

    def x_ContinueStmt(self, node, st, fr):
        o = Out()
        o.cont.append(st)
        return o

    def x_CXXThrowExpr(self, node, st, fr):
        o = Out()
        o.thr.append((st, self.where(node, fr)))
        return o

    def x_CXXTryStmt(self, node, st, fr):
        # exceptions are path ends; a catch block may resume: treat conservatively
        o = self.exec(node['inner'][0], st, fr)
        if o.thr:
            raise Unsupported('try block whose body may throw')
        return o

    def x_SwitchStmt(self, node, st, fr):
        inner = [x for x in node['inner'] if x]
        v = toint(self.ev(inner[0], st, fr))
        body = inner[-1]
        out = Out()
        # flatten cases
        items = []

        def flat(s):
            if s['kind'] in ('CaseStmt', 'DefaultStmt'):
                if s['kind'] == 'CaseStmt':
                    items.append(('case', s['inner'][0]))
                    flat(s['inner'][-1])
                else:
                    items.append(('default', None))
                    flat(s['inner'][0])
            else:
                items.append(('stmt', s))
        for s in body.get('inner', []):
            flat(s)
        conds = []
        for kind, x in items:
            if kind == 'case':
                conds.append(v == toint(self.ev(x, st, fr)))
        ci = 0
        rest = []
        cur = None
        done = []
        has_default = any(k == 'default' for k, _ in items)
        for kind, x in items:
            if kind in ('case', 'default'):
                s = st.copy()
                if kind == 'case':
                    s.pc.append(conds[ci])
                    ci += 1
                else:
                    s.pc.append(z3.Not(z3.Or(*conds)))
                cur = self.merge([cur, s])
            else:
                if cur is None:
                    continue
                o = self.exec(x, cur, fr)
                done += o.brk
                o.brk = []
                out.absorb(o)
                cur = o.normal
        if not has_default:
            s = st.copy()
            s.pc.append(z3.Not(z3.Or(*conds)))
            done.append(s)
        out.normal = self.merge(done + [cur])
        return out

    # ---- loops
    def x_ForStmt(self, node, st, fr):
        init, _, cnd, inc, body = node['inner']
        out = Out()
        keep = set(st.loc)
        if init:
            o = self.exec(init, st, fr)
            out.absorb(o)
            st = o.normal
            if st is None:
                return out
        o = self.loop(node, st, fr,
                      (lambda s: self.cond(cnd, s, fr)) if cnd else (lambda s: z3.BoolVal(True)),
                      lambda s: self.exec(body, s, fr),
                      (lambda s: self.exec(inc, s, fr)) if inc else None)
        out.absorb(o)
        out.normal = self.pop_scope(o.normal, keep)
        return out

    def x_WhileStmt(self, node, st, fr):
        inner = [x for x in node['inner']]
        cnd, body = inner[-2], inner[-1]
        return self.loop(node, st, fr, lambda s: self.cond(cnd, s, fr), lambda s: self.exec(body, s, fr), None)

    def x_DoStmt(self, node, st, fr):
        body, cnd = node['inner']
        # do body while(c)  ==  body; while(c) body
        o = self.exec(body, st, fr)
        out = Out()
        out.thr += o.thr
        out.ret += o.ret
        st = self.merge([o.normal] + o.cont)
        brk = o.brk
        if st is not None:
            o2 = self.loop(node, st, fr, lambda s: self.cond(cnd, s, fr), lambda s: self.exec(body, s, fr), None)
            out.absorb(o2)
            st = o2.normal
        out.normal = self.merge([st] + brk)
        return out

    def x_CXXForRangeStmt(self, node, st, fr):
        inner = node['inner']
        rng = inner[1]['inner'][0]
        rexpr = [x for x in rng.get('inner', []) if x][0]
        var = inner[6]['inner'][0]
        body = inner[7]
        keep = set(st.loc)
        save = fr.thr
        fr.thr = []
        rv = self.lval_or_val(rexpr, st, fr)
        thr0 = fr.thr
        fr.thr = save
        ikey = (fr.tu.fname, 'rng' + node['id'], len(self.depth_trace))
        self.localname = getattr(self, 'localname', {})
        self.localname[ikey] = 'range-index'
        vkey = (fr.tu.fname, var['id'])
        self.localname[vkey] = var.get('name', '?')
        vty = parse(simple_type(var['type']))
        if isinstance(rv, GView):
            o = self.graph_range(rv, ikey, vkey, vty, node, body, st, fr)
            o.normal = self.pop_scope(o.normal, keep)
            o.thr += thr0
            return o
        if not hasattr(rv, 'ty'):
            raise Unsupported('range-for over %r' % rv)
        cty = rv.ty
        if isinstance(rv, Cv):
            rv = LTemp(rv, cty)
        lv = rv
        if cty.k == 'seq':
            st.loc[ikey] = z3.IntVal(0)

            def c(s):
                v = self.read(s, lv)
                return s.loc[ikey] < v.c['hi'] - v.c['lo']

            def b(s):
                v = self.read(s, lv)
                el = LElem(lv, v.c['lo'] + s.loc[ikey], cty.a)
                if vty.k == 'ref':
                    s.loc[vkey] = el
                else:
                    s.loc[vkey] = self.read(s, el)
                return self.exec(body, s, fr)
        elif cty.k in ('map', 'set'):
            st.loc[ikey] = z3.IntVal(0)

            def c(s):
                v = self.read(s, lv)
                return s.loc[ikey] < v.c['n']

            def b(s):
                v = self.read(s, lv)
                key = self.map_key_at(s, v, s.loc[ikey])
                if cty.k == 'set':
                    s.loc[vkey] = key
                else:
                    pty = Ty('pair', cty.a, cty.b)
                    if vty.k == 'ref':
                        s.loc[vkey] = LMapEntry(lv, key, pty)
                    else:
                        s.loc[vkey] = self.read_entry(s, lv, key, pty)
                return self.exec(body, s, fr)
        else:
            raise Unsupported('range-for over %r' % cty)

        def inc(s):
            s.loc[ikey] = s.loc[ikey] + 1
            return Out(s)
        o = self.loop(node, st, fr, c, b, inc, guard_idx=(ikey, lambda s: self.count_of(s, lv)))
        o.normal = self.pop_scope(o.normal, keep)
        o.thr += thr0
        return o

    def count_of(self, st, lv):
        v = self.read(st, lv)
        return v.c['n'] if 'n' in v.c else v.c['hi'] - v.c['lo']

    def read_entry(self, st, lv, key, pty):
        m = self.read(st, lv)
        v = m.get(key)
        c = {'first': key}
        if scalar_sort(pty.b) is not None:
            c['second'] = v
        else:
            self.wf(st, v)
            for p, x in v.c.items():
                c['second.' + p] = x
        return Cv(pty, c)

    def map_key_at(self, st, m, i):
        k = z3.Select(m.c['ord'], i)
        st.pc.append(z3.Implies(z3.And(0 <= i, i < m.c['n']),
                                z3.And(z3.Select(m.c['dom'], k), z3.Select(m.c['pos'], k) == i)))
        return k

    def map_fact(self, st, m, k):
        st.pc.append(z3.Implies(z3.Select(m.c['dom'], k),
                                z3.And(0 <= z3.Select(m.c['pos'], k), z3.Select(m.c['pos'], k) < m.c['n'],
                                       z3.Select(m.c['ord'], z3.Select(m.c['pos'], k)) == k)))

    # generic loop
    def loop(self, node, st, fr, cnd, body, inc, guard_idx=None):
        self.stats['loops'] += 1
        where = self.where(node, fr)
        entry = st
        self.depth_trace.append(where)
        self.callpath.append('loop' + node['id'])
        try:
            return self._loop(node, entry, fr, cnd, body, inc, where, guard_idx)
        finally:
            self.depth_trace.pop()
            self.callpath.pop()

    def run_iter(self, h, fr, cnd, body, inc):
        """one arbitrary iteration from h. returns (exit_state, end_state, Out)"""
        s = h.copy()
        save = fr.thr
        fr.thr = []
        c = cnd(s)
        cthr = fr.thr
        fr.thr = save
        ex = s.copy()
        ex.pc.append(z3.Not(c))
        s.pc.append(c)
        o = body(s)
        o.thr += cthr
        end = self.merge([o.normal] + o.cont)
        o.cont = []
        if end is not None and inc is not None:
            o2 = inc(end)
            o.thr += o2.thr
            end = o2.normal
        o.normal = None
        return ex, end, o, c

    def changed(self, h, e):
        ch = set()
        for k, v in e.loc.items():
            if k in h.loc and not self.same_val(h.loc[k], v):
                ch.add(('L', k))
        for k in h.loc:
            if k not in e.loc:
                ch.add(('L', k))
        for k, v in e.heap.items():
            x = h.heap.get(k)
            if x is None:
                x = z3.Const('H0_' + k, v.sort())
            if not x.eq(v):
                ch.add(('H', k))
        for k, v in e.ghost.items():
            if not v.eq(h.ghost[k]):
                ch.add(('G', k))
        return ch

    def same_val(self, a, b):
        if a is b:
            return True
        if z3.is_expr(a) and z3.is_expr(b):
            return a.eq(b)
        if isinstance(a, Cv) and isinstance(b, Cv):
            return all(a.c[p].eq(b.c[p]) for p in a.c)
        if isinstance(a, It) and isinstance(b, It):
            return a.lv.same(b.lv) and a.pos.eq(b.pos)
        if isinstance(a, APtr) and isinstance(b, APtr):
            return a.ref.eq(b.ref) and a.off.eq(b.off)
        if isinstance(a, PLv) and isinstance(b, PLv):
            return a.lv.same(b.lv)
        if hasattr(a, 'same') and hasattr(b, 'same'):
            return a.same(b)
        if isinstance(a, Lam) and isinstance(b, Lam):
            return a.node is b.node
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return True
        return False

    def havoc_val(self, v, hint):
        if z3.is_expr(v):
            return self.fresh(v.sort(), hint)
        if isinstance(v, Cv):
            return Cv(v.ty, {p: self.fresh(x.sort(), hint + '.' + p) for p, x in v.c.items()})
        if isinstance(v, It):
            return It(v.lv, self.fresh(I, hint), v.ty)
        if isinstance(v, APtr):
            return APtr(self.fresh(I, hint), self.fresh(I, hint), v.ety)
        return None

    def name_products(self, st):
        """locals whose value contains a product or quotient of unknowns: those get a name, so that facts about the
        local stay linear (the definition of the name is a fact of its own)"""
        memo = {}

        def go(t):
            k = t.get_id()
            if k in memo:
                return memo[k]
            r = t
            if z3.is_app(t) and t.num_args() and nonlinear(t):
                if z3.is_mul(t) or z3.is_div(t) or z3.is_idiv(t) or z3.is_to_int(t):
                    r = self.fresh(t.sort(), 'prod')
                    st.pc.append(r == t)
                else:
                    ch = [go(c) for c in t.children()]
                    r = t.decl()(*ch)
            memo[k] = r
            return r
        for key in sorted(st.loc, key=str):
            v = st.loc[key]
            if z3.is_expr(v) and z3.is_arith(v) and nonlinear(v):
                st.loc[key] = go(v)

    def _loop(self, node, entry, fr, cnd, body, inc, where, guard_idx):
        self.name_products(entry)
        havoc = set()      # keys
        point = {}         # heap key -> list of ref terms (pointwise) or None = whole
        locknown = set(entry.loc)
        mark = None
        lname = getattr(self, 'localname', {})

        self._hc = getattr(self, '_hc', {})

        def make_h():
            h = entry.copy()
            m = next(self.cnt)
            for kind, k in sorted(havoc, key=str):
                if kind == 'L':
                    v = self.havoc_val(entry.loc[k], 'lp_' + lname.get(k, 'x'))
                    if v is None:
                        h.loc.pop(k, None)
                    else:
                        h.loc[k] = v
                        self.wf(h, v)
                elif kind == 'G':
                    h.ghost[k] = self.fresh(entry.ghost[k].sort(), 'lpg_' + k)
            for kind, k in sorted(havoc, key=str):
                if kind == 'H':
                    b = entry.heap.get(k)
                    if b is None:
                        b = z3.Const('H0_' + k, self._heapsort[k])
                    refs = point.get(k)
                    if refs is None:
                        h.heap[k] = self.fresh(b.sort(), 'lpH_' + k)
                    else:
                        for r in refs:
                            b = z3.Store(b, r, self.fresh(b.sort().range(), 'lpc_' + k))
                        h.heap[k] = b
            return h, m

        self._heapsort = getattr(self, '_heapsort', {})
        self.muted += 1
        try:
            for rnd in range(12):
                h, m = make_h()
                log = {}
                self.wlog.append(log)
                nobl = len(self.loop_reports)
                try:
                    save_c = self.cand_mode
                    self.cand_mode = 'scan'
                    ex, end, o, c = self.run_iter(h, fr, cnd, body, inc)
                finally:
                    self.cand_mode = save_c
                    self.wlog.pop()
                if end is None:
                    ch = set()
                else:
                    ch = self.changed(h, end)
                ch = {x for x in ch if x[0] != 'L' or x[1] in locknown}
                if end is not None:
                    for kk, vv in end.heap.items():
                        self._heapsort[kk] = vv.sort()
                # refs written
                newpoint = {}
                for kind, k in ch | {x for x in havoc if x[0] == 'H'}:
                    if kind != 'H':
                        continue
                    refs = log.get(k)
                    inv = True
                    lst = []
                    if refs is None:
                        refs = []
                        if ('H', k) in ch and point.get(k, []) is not None and ('H', k) not in havoc:
                            inv = k in log
                    for r in refs:
                        if any(int(nm.split('!')[-1]) >= m for nm in consts_of(r) if '!' in nm):
                            inv = False
                            break
                        if not any(r.eq(x) for x in lst):
                            lst.append(r)
                    if point.get(k, 0) is None and k in point:
                        newpoint[k] = None
                    elif not inv or len(lst) > 6:
                        newpoint[k] = None
                    else:
                        old = point.get(k) or []
                        for r in old:
                            if not any(r.eq(x) for x in lst):
                                lst.append(r)
                        newpoint[k] = lst
                newh = havoc | ch
                samep = all(k in point and ((point[k] is None) == (newpoint[k] is None)) and
                            (point[k] is None or len(point[k]) == len(newpoint[k])) for k in newpoint)
                if newh == havoc and samep:
                    break
                havoc = newh
                point.update(newpoint)
            else:
                raise Unsupported('havoc fixpoint')
        finally:
            self.muted -= 1

        if self.cand_mode == 'scan' and self.muted:
            # only computing a modified set for an enclosing loop
            h, m = make_h()
            ex, end, o, c = self.run_iter(h, fr, cnd, body, inc)
            return self.finish_loop(ex, o)

        # candidates
        ctx = LoopCtx(self, entry, havoc, point, fr, where, lname)
        cands = self.generic_cands(ctx, guard_idx, cnd)
        weakn = {nm for nm, _ in cands}
        for g in self.inv_fns:
            for nm, f in g(ctx):
                cands.append((nm, f))
        idxs = ctx.index_terms()
        h0, _ = make_h()
        self.muted += 1
        try:
            if guard_idx:
                cc = consts_of(h0.loc[guard_idx[0]])
            else:
                cc = consts_of(cnd(h0.copy()))
        except (Unsupported, Infeasible, KeyError, AttributeError):
            cc = set()
        finally:
            self.muted -= 1
        inc_ = [(nm, get) for nm, get in idxs if consts_of(get(h0)) & cc]
        idxs = inc_ or idxs
        for g in self.idx_inv_fns:
            for nm, get in idxs:
                for nm2, f in g(ctx, get):
                    if self.idx_heap_only:
                        try:
                            ch = z3.BoolVal(True) if f(h0) is None else f(h0)
                            if not any(x.startswith('lpH_') or x.startswith('lpc_') for x in consts_of(ch) - consts_of(f(entry))):
                                continue
                        except (KeyError, AttributeError):
                            continue
                    cands.append((nm2 + '@' + nm, f))
        seen = {}
        for j, (nm, f) in enumerate(cands):
            seen[nm] = seen.get(nm, 0) + 1
            if seen[nm] > 1:
                cands[j] = ('%s#%d' % (nm, seen[nm]), f)
                if nm in weakn:
                    weakn.add(cands[j][0])
        self.stats['cand'] += len(cands)
        # entry check
        gone = self.dropped.setdefault(tuple(self.callpath), set())
        live = []
        todo = []
        for nm, f in cands:
            if nm in gone:
                continue
            try:
                fm = f(entry)
            except (KeyError, AttributeError, z3.Z3Exception):
                continue
            if fm is None:
                continue
            todo.append((nm, f, fm))
        oks = self.which_valid(entry.pc, [x[2] for x in todo], [x[0] in weakn for x in todo])
        for (nm, f, fm), ok in zip(todo, oks):
            if ok:
                live.append((nm, f))
            else:
                gone.add(nm)
                if DEBUG:
                    print('   [%s] entry drop %s' % (where, nm))
        self.muted += 1
        try:
            for rnd in range(14):
                h, m = make_h()
                good = []
                for nm, f in live:
                    try:
                        fm = f(h)
                    except (KeyError, AttributeError):
                        continue
                    h.pc.append(fm)
                    good.append((nm, f))
                dropped = len(good) != len(live)
                live = good
                save_c = self.cand_mode
                self.cand_mode = 'full'
                ex, end, o, c = self.run_iter(h, fr, cnd, body, inc)
                self.cand_mode = save_c
                if end is None:
                    break
                good = []
                fms = []
                for nm, f in live:
                    try:
                        fms.append(f(end))
                    except (KeyError, AttributeError):
                        fms.append(None)
                for (nm, f), ok in zip(live, self.which_valid(end.pc, fms, [x[0] in weakn for x in live])):
                    if ok:
                        good.append((nm, f))
                    else:
                        dropped = True
                        gone.add(nm)
                        if DEBUG:
                            print('   [%s] step drop %s' % (where, nm))
                            if os.environ.get('DUMP') and os.environ['DUMP'] in nm:
                                from .verify import smt2
                                open('/tmp/drop_%s.smt2' % nm.replace(' ', '_'), 'w').write(smt2(self.axioms, end.pc, fms[[x[0] for x in live].index(nm)]))
                live = good
                if not dropped:
                    break
            else:
                live = []
        finally:
            self.muted -= 1
        self.stats['kept'] += len(live)
        if not self.muted:
            self.loop_reports.append((where, [nm for nm, _ in live]))
        h, m = make_h()
        for nm, f in live:
            h.pc.append(f(h))
        ex, end, o, c = self.run_iter(h, fr, cnd, body, inc)
        return self.finish_loop(ex, o)

    cand_mode = 'full'
    idx_heap_only = False

    def finish_loop(self, ex, o):
        out = Out()
        out.thr, out.ret = o.thr, o.ret
        out.normal = self.merge([ex] + o.brk)
        return out

    def peek(self, st, lv):
        n = len(st.pc)
        try:
            return self.read(st, lv)
        finally:
            del st.pc[n:]

    def generic_cands(self, ctx, guard_idx, cnd):
        """candidate invariants that need no annotation"""
        out = []
        e = ctx.entry
        terms = ctx.base_terms()
        qs = ctx.len_terms()
        for nm, f in terms:
            f0 = f(e)
            out.append(('ge0 ' + nm, lambda s, f=f, f0=f0: f(s) >= f0))
            out.append(('le0 ' + nm, lambda s, f=f, f0=f0: f(s) <= f0))
        allt = terms + qs
        for (n1, f1), (n2, f2) in itertools.combinations(allt, 2):
            a0, b0 = f1(e), f2(e)
            out.append(('sum %s+%s' % (n1, n2), lambda s, f1=f1, f2=f2, a0=a0, b0=b0: f1(s) + f2(s) == a0 + b0))
            out.append(('dif %s-%s' % (n1, n2), lambda s, f1=f1, f2=f2, a0=a0, b0=b0: f1(s) - f2(s) == a0 - b0))
        for kind, k in sorted(ctx.havoc, key=str):
            v = e.loc.get(k) if kind == 'L' else None
            if isinstance(v, It) and v.ty.k != 'map':
                nm = ctx.lname.get(k, '?')

                def itc(s, k=k):
                    it = s.loc[k]
                    n = len(s.pc)
                    c = self.read(s, it.lv)
                    del s.pc[n:]
                    return it.pos, c
                if isinstance(self.peek(e, v.lv), Cv) and self.peek(e, v.lv).ty.k == 'seq':
                    out.append(('iterator %s>=begin' % nm, lambda s, itc=itc: itc(s)[0] >= itc(s)[1].c['lo']))
                    out.append(('iterator %s<=end' % nm, lambda s, itc=itc: itc(s)[0] <= itc(s)[1].c['hi']))
        # every element of an integer sequence built in the loop lies below some bound
        bnds = [(nm, f) for nm, f in terms] + list(self.elem_bounds)
        for kind, k in sorted(ctx.havoc, key=str):
            v = e.loc.get(k) if kind == 'L' else None
            if isinstance(v, Cv) and v.ty.k == 'seq' and v.ty.a.k in ('int', 'uint') and 'e' in v.c:
                for bn, bf in bnds:
                    def eb(s, k=k, bf=bf):
                        q = z3.Int('eb!q')
                        sv = s.loc[k]
                        x = z3.Select(sv.c['e'], q)
                        return FA([q], z3.Implies(z3.And(sv.c['lo'] <= q, q < sv.c['hi']), z3.And(x >= 0, x < bf(s))), [x])
                    out.append(('elements of %s below %s' % (ctx.lname.get(k, '?'), bn), eb))
        # bounds suggested by the loop condition
        if guard_idx:
            ik, cnt = guard_idx
            out.append(('range-index<=size', lambda s: s.loc[ik] <= cnt(s)))
            out.append(('range-index>=0', lambda s: s.loc[ik] >= 0))
        else:
            try:
                p = e.copy()
                self.muted += 1
                try:
                    c = cnd(p)
                finally:
                    self.muted -= 1

                def collect(c):
                    if z3.is_and(c):
                        for x in c.children():
                            yield from collect(x)
                    else:
                        yield c
                for idx, x in enumerate(collect(c)):
                    def bound(s, idx=idx):
                        q = s.copy()
                        self.muted += 1
                        try:
                            cc = list(collect(cnd(q)))
                        finally:
                            self.muted -= 1
                        y = cc[idx]
                        if z3.is_not(y) and z3.is_eq(y.arg(0)):
                            y = y.arg(0)
                            a, b = y.arg(0), y.arg(1)
                            if a.sort() != I:
                                return None
                            return a <= b
                        if z3.is_distinct(y) and y.num_args() == 2 and y.arg(0).sort() == I:
                            return y.arg(0) <= y.arg(1)
                        if z3.is_lt(y) and y.arg(0).sort() == I:
                            return y.arg(0) <= y.arg(1)
                        if z3.is_gt(y) and y.arg(0).sort() == I:
                            return y.arg(0) >= y.arg(1)
                        if z3.is_le(y) and y.arg(0).sort() == I:
                            return y.arg(0) <= y.arg(1) + 1
                        if z3.is_ge(y) and y.arg(0).sort() == I:
                            return y.arg(0) + 1 >= y.arg(1)
                        return None
                    if bound(e) is not None:
                        out.append(('bound%d' % idx, bound))
                        # a loop that may not run at all: bound, or nothing happened yet
                        for nm, f in terms[:4]:
                            f0 = f(e)
                            out.append(('bound%d or start %s' % (idx, nm),
                                        lambda s, f=f, f0=f0, bound=bound: z3.Or(bound(s), f(s) == f0)))
            except (Unsupported, Infeasible):
                pass
        for k, refs in ctx.point.items():
            if refs is None and any(x == ('H', k) for x in ctx.havoc):
                b = e.heap.get(k)
                if b is None:
                    b = z3.Const('H0_' + k, self._heapsort[k])
                for pn, pred in self.frame_preds:
                    def fr_inv(s, k=k, b=b, pred=pred):
                        r = z3.Const('fr!r', I)
                        hh = s.heap[k]
                        if hh.eq(b):
                            return z3.BoolVal(True)
                        return FA([r], z3.Implies(pred(r), z3.Select(hh, r) == z3.Select(b, r)),
                                  [z3.Select(hh, r)])
                    out.append(('frame %s %s' % (pn, k), fr_inv))
        return out

    # ------------------------------------------------------------ expressions
    def ev(self, node, st, fr):
        """evaluate to an rvalue"""
        k = node['kind']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expr kind %s at %s' % (k, self.where(node, fr)))
        return m(node, st, fr)

    def lval_or_val(self, node, st, fr):
        v = self._lv(node, st, fr)
        return v

    def lval(self, node, st, fr):
        v = self._lv(node, st, fr)
        if isinstance(v, (LVar, LField, LElem, LMapV, LSub, LArr, LTemp)):
            return v
        ty = v.ty if isinstance(v, Cv) else parse(simple_type(node['type']))
        return LTemp(v, ty)

    def deref_local(self, lv, st):
        while isinstance(lv, LVar):
            v = st.loc.get(lv.key)
            if isinstance(v, (LVar, LField, LElem, LMapV, LSub, LArr, LTemp)):
                lv = v
            else:
                break
        return lv

    PASS = {'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr',
            'SubstNonTypeTemplateParmExpr', 'FullExpr'}

    def _lv(self, node, st, fr):
        k = node['kind']
        if k in self.PASS:
            return self._lv(node['inner'][0], st, fr)
        if k == 'DeclRefExpr':
            rd = node['referencedDecl']
            if rd['kind'] in ('VarDecl', 'ParmVarDecl', 'BindingDecl'):
                key = (fr.tu.fname, rd['id'])
                if key in st.loc:
                    v = st.loc[key]
                    if isinstance(v, GView):
                        return v
                    ty = parse(simple_type(rd['type']))
                    if ty.k == 'ref':
                        ty = ty.a
                    if isinstance(v, Cv):
                        ty = v.ty
                    elif hasattr(v, 'same') and not isinstance(v, LTemp):
                        ty = v.ty
                    return self.deref_local(LVar(key, ty), st)
                if key in getattr(self, 'localname', {}):     # a local whose value is not known here (it may be assigned)
                    return LVar(key, parse(simple_type(rd['type'])))
                return self.global_var(rd, st, fr)
            return self.ev(node, st, fr)
        if k == 'MemberExpr':
            return self.member_lv(node, st, fr)
        if k == 'ArraySubscriptExpr':
            b = self.ev(node['inner'][0], st, fr)
            i = self.ev(node['inner'][1], st, fr)
            if isinstance(b, APtr):
                return LArr(b.ref, b.off + toint(i), b.ety)
            ty = parse(simple_type(node['type']))
            if z3.is_expr(b):
                return LArr(b, toint(i), ty)
            if isinstance(b, PLv):
                return LElem(b.lv, self.read(st, b.lv).c['lo'] + i, ty)
            raise Unsupported('subscript of %r' % b)
        if k == 'UnaryOperator' and node['opcode'] == '*':
            p = self.ev(node['inner'][0], st, fr)
            return self.deref_ptr(p, parse(simple_type(node['type'])), st)
        if k == 'UnaryOperator' and node['opcode'] in ('++', '--') and not node.get('isPostfix'):
            self.ev(node, st, fr)
            return self._lv(node['inner'][0], st, fr)
        if k in ('ImplicitCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'CXXConstCastExpr'):
            ck = node.get('castKind')
            if ck in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'BaseToDerived', 'ConstructorConversion'):
                r = self._lv(node['inner'][0], st, fr)
                return r
            return self.ev(node, st, fr)
        if k == 'CXXOperatorCallExpr':
            return self.op_call(node, st, fr, want_lv=True)
        if k == 'CXXMemberCallExpr':
            return self.member_call(node, st, fr, want_lv=True)
        if k == 'CallExpr':
            return self.call(node, st, fr, want_lv=True)
        if k in ('BinaryOperator', 'CompoundAssignOperator') and (node['opcode'] == '=' or k != 'BinaryOperator'):
            self.ev(node, st, fr)
            return self._lv(node['inner'][0], st, fr)
        if k == 'CXXConstructExpr' or k == 'CXXTemporaryObjectExpr':
            return self.ev(node, st, fr)
        if k == 'ConditionalOperator':
            c = self.cond(node['inner'][0], st, fr)
            a = self._lv(node['inner'][1], st, fr)
            b = self._lv(node['inner'][2], st, fr)
            if hasattr(a, 'same') and hasattr(b, 'same') and a.same(b):
                return a
            va = self.read(st, a) if hasattr(a, 'same') else a
            vb = self.read(st, b) if hasattr(b, 'same') else b
            return self.merge_val(c, va, vb)
        return self.ev(node, st, fr)

    def global_var(self, rd, st, fr):
        # a named constant
        d = fr.tu.globals.get(rd['id'])
        if d is None:
            fr.tu.load(rd['name'])
            c = [x for x in fr.tu.globals.values() if x.get('name') == rd['name'] and x.get('inner')]
            d = c[0] if len(c) == 1 else None
        if d is not None and (d.get('constexpr') or 'const' in d['type'].get('qualType', '').split()):
            init = [x for x in d.get('inner', []) if not x['kind'].endswith('Attr') and x['kind'] != 'FullComment']
            ty = parse(simple_type(d['type']))
            if len(init) == 1 and scalar_sort(ty) is not None:
                v = self.ev(init[0], st, fr)
                if hasattr(v, 'same'):
                    v = self.read(st, v)
                if z3.is_expr(v):
                    return LTemp(self.coerce_sort(v, scalar_sort(ty)) if v.sort() != scalar_sort(ty) else v, ty)
        raise Unsupported('global variable %s' % rd.get('name'))

    def deref_ptr(self, p, ty, st):
        if isinstance(p, PLv):
            return p.lv
        if isinstance(p, It):
            return self.iter_deref(st, p)
        if isinstance(p, APtr):
            return LArr(p.ref, p.off, p.ety)
        if ty.k in ('seq', 'map', 'set', 'pair'):
            # boxed container on the heap
            return LField(p, '$box:%r' % ty, ty)
        if ty.k == 'cls':
            return LTemp(p, ty)      # object identified with its reference
        return LArr(p, z3.IntVal(0), ty)

    def obj_ref(self, node, st, fr):
        """reference term of the object a member access goes through"""
        arrow = node.get('isArrow')
        base = node['inner'][0]
        if arrow:
            p = self.ev(base, st, fr)
            return p
        lv = self._lv(base, st, fr)
        return lv

    def member_lv(self, node, st, fr):
        name = node['name']
        base = node['inner'][0]
        if node.get('isArrow'):
            p = self.ev(base, st, fr)
            if isinstance(p, It):
                lv = self.iter_deref(st, p)
                return self.sub_lv(lv, name, st)
            if isinstance(p, PLv):
                t = p.lv.ty
                if t.k == 'pair':
                    return self.sub_lv(p.lv, name, st)
                p = self.read(st, p.lv)
            fid = node.get('referencedMemberDecl')
            if name in ('first', 'second') and fid not in fr.tu.fields:
                bty = parse(simple_type(base['type']))
                return self.sub_lv(self.deref_ptr(p, bty.a, st), name, st)
            return self.field_lv(p, fid, name, fr, node)
        lv = self._lv(base, st, fr)
        if isinstance(lv, Cv) and lv.ty.k == 'pair':
            return lv.sub(name, lv.ty.a if name == 'first' else lv.ty.b)
        if not z3.is_expr(lv) and hasattr(lv, 'ty') and lv.ty.k == 'pair':
            return self.sub_lv(lv, name, st)
        fid = node.get('referencedMemberDecl')
        if hasattr(lv, 'same'):
            ref = self.read(st, lv)
        else:
            ref = lv
        return self.field_lv(ref, fid, name, fr, node)

    def sub_lv(self, lv, which, st):
        if isinstance(lv, LMapEntry):
            if which == 'first':
                return LTemp(lv.key, lv.ty.a)
            return LMapV(lv.base, lv.key, lv.ty.b)
        ty = lv.ty
        if ty.k != 'pair':
            raise Unsupported('.%s of %r' % (which, ty))
        if isinstance(lv, LTemp) and isinstance(lv.val, Cv):
            t = ty.a if which == 'first' else ty.b
            return LTemp(lv.val.sub(which, t), t)
        return LSub(lv, which, ty.a if which == 'first' else ty.b)

    def field_lv(self, ref, fid, name, fr, node):
        if fid not in fr.tu.fields:
            raise Unsupported('unknown field %s' % name)
        cls, fname, t = fr.tu.fields[fid]
        if not z3.is_expr(ref):
            raise Unsupported('field %s of %r' % (name, ref))
        return LField(ref, cls + '::' + fname, parse(t))

    # literals
    def e_IntegerLiteral(self, n, st, fr):
        return z3.IntVal(int(n['value']))

    def e_CharacterLiteral(self, n, st, fr):
        return z3.IntVal(int(n['value']))

    def e_FloatingLiteral(self, n, st, fr):
        return z3.RealVal(n['value'])

    def e_CXXBoolLiteralExpr(self, n, st, fr):
        return z3.BoolVal(bool(n['value']))

    def e_CXXNullPtrLiteralExpr(self, n, st, fr):
        return z3.IntVal(0)

    def e_GNUNullExpr(self, n, st, fr):
        return z3.IntVal(0)

    def e_StringLiteral(self, n, st, fr):
        v = n.get('value', '')
        return z3.IntVal(self.strs.setdefault(v, 1000 + len(self.strs)))

    def e_ImplicitValueInitExpr(self, n, st, fr):
        return self.default_val(parse(simple_type(n['type'])))

    def e_CXXScalarValueInitExpr(self, n, st, fr):
        return self.default_val(parse(simple_type(n['type'])))

    def e_CXXThisExpr(self, n, st, fr):
        return fr.this

    def e_DeclRefExpr(self, n, st, fr):
        rd = n['referencedDecl']
        if rd['kind'] == 'EnumConstantDecl':
            return self.enum_val(rd['name'])
        if rd['kind'] in ('VarDecl', 'ParmVarDecl'):
            lv = self._lv(n, st, fr)
            if hasattr(lv, 'same'):
                return self.read(st, lv)
            return lv
        raise Unsupported('declref %s %s' % (rd['kind'], rd.get('name')))

    def enum_val(self, name):
        """enumerators are numbered by first use: only their distinctness is known"""
        return z3.IntVal(self.enum.setdefault(name, len(self.enum)))

    def e_MemberExpr(self, n, st, fr):
        lv = self.member_lv(n, st, fr)
        if hasattr(lv, 'same'):
            return self.read(st, lv)
        return lv

    def e_ArraySubscriptExpr(self, n, st, fr):
        return self.read(st, self._lv(n, st, fr))

    def _pass(self, n, st, fr):
        return self.ev(n['inner'][0], st, fr)
    e_ParenExpr = e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = e_ConstantExpr = _pass
    e_SubstNonTypeTemplateParmExpr = _pass

    def e_ImplicitCastExpr(self, n, st, fr):
        ck = n.get('castKind')
        sub = n['inner'][0]
        if ck == 'LValueToRValue':
            lv = self._lv(sub, st, fr)
            if hasattr(lv, 'same'):
                return self.read(st, lv)
            return lv
        if ck in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'BaseToDerived', 'ConstructorConversion',
                  'BitCast', 'UserDefinedConversion', 'AtomicToNonAtomic'):
            lv = self._lv(sub, st, fr)
            if hasattr(lv, 'same'):
                return self.read(st, lv)
            return lv
        if ck in ('ArrayToPointerDecay',):
            return self.ev(sub, st, fr)
        if ck in ('NullToPointer',):
            return z3.IntVal(0)
        if ck == 'IntegralToFloating':
            return toreal(self.ev(sub, st, fr))
        if ck == 'FloatingToIntegral':
            v = trunc(self.ev(sub, st, fr))
            if parse(simple_type(n['type'])).k == 'uint':
                return z3.If(v < 0, v + W64, v)
            return v
        if ck in ('FloatingCast', 'ToVoid'):
            return self.ev(sub, st, fr)
        if ck == 'IntegralCast':
            v = self.ev(sub, st, fr)
            v = toint(v)
            return self.icast(v, parse(simple_type(sub['type'])), parse(simple_type(n['type'])))
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
            return tobool(self.ev(sub, st, fr))
        if ck == 'FunctionToPointerDecay':
            d = sub.get('referencedDecl') or {}
            full = fr.tu.decls.get(d.get('id'), d)
            f = self.prog.find_body(full.get('mangledName'), None, d.get('name', ''), fr.tu) if full.get('mangledName') else None
            return FnRef(f) if f else Opaque('fn')
        if ck == 'Dynamic':
            return self.dyncast(n, st, fr)
        raise Unsupported('cast %s' % ck)
    e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CXXConstCastExpr = e_ImplicitCastExpr

    def icast(self, v, a, b):
        if a.k != 'uint' and b.k == 'uint':
            if z3.is_int_value(v):
                x = v.as_long()
                return z3.IntVal(x if x >= 0 else x + 2 ** 64)
            return z3.If(v < 0, v + W64, v)
        if a.k == 'uint' and b.k != 'uint':
            if z3.is_int_value(v):
                x = v.as_long()
                return z3.IntVal(x if x < 2 ** 63 else x - 2 ** 64)
            return z3.If(v >= z3.IntVal(2 ** 63), v - W64, v)
        return v

    def e_CXXDynamicCastExpr(self, n, st, fr):
        return self.dyncast(n, st, fr)

    def dyncast(self, n, st, fr):
        v = self.ev(n['inner'][0], st, fr)
        ty = parse(simple_type(n['type']))
        if ty.k == 'ptr':
            if ty.a.name in self.isa:
                return v
            f = z3.Function('isa_' + ty.a.name, I, B)
            return z3.If(z3.And(v != 0, f(v)), v, z3.IntVal(0))
        return v

    def e_UnaryOperator(self, n, st, fr):
        op = n['opcode']
        sub = n['inner'][0]
        if op == '-':
            return -self.arith(self.ev(sub, st, fr))
        if op == '+':
            return self.ev(sub, st, fr)
        if op == '!':
            return z3.Not(tobool(self.ev(sub, st, fr)))
        if op == '&':
            lv = self._lv(sub, st, fr)
            if isinstance(lv, LTemp) and z3.is_expr(lv.val) and lv.ty.k == 'cls':
                return lv.val
            if isinstance(lv, LArr):
                return APtr(lv.ref, lv.idx, lv.ty)
            if hasattr(lv, 'same'):
                if lv.ty.k == 'cls':
                    return self.read(st, lv)
                if isinstance(lv, LField) and lv.name.startswith('$box'):
                    return lv.ref
                return PLv(lv)
            return lv
        if op == '*':
            return self.read(st, self._lv(n, st, fr))
        if op in ('++', '--'):
            lv = self._lv(sub, st, fr)
            old = self.read(st, lv)
            if isinstance(old, It):
                new = It(old.lv, old.pos + (1 if op == '++' else -1), old.ty)
            elif isinstance(old, APtr):
                new = APtr(old.ref, old.off + (1 if op == '++' else -1), old.ety)
            else:
                d = 1 if op == '++' else -1
                new = toint(old) + d if old.sort() != R else old + d
            self.write(st, lv, new)
            return old if n.get('isPostfix') else new
        raise Unsupported('unary ' + op)

    def arith(self, v):
        if not z3.is_expr(v):
            raise Unsupported('arith on %r' % v)
        return toint(v) if v.sort() == B else v

    def e_BinaryOperator(self, n, st, fr):
        op = n['opcode']
        a, b = n['inner']
        if op == ',':
            self.ev(a, st, fr)
            return self.ev(b, st, fr)
        if op == '=':
            v = self.ev(b, st, fr)
            lv = self._lv(a, st, fr)
            self.write(st, lv, v)
            return v
        if op in ('&&', '||'):
            x = tobool(self.ev(a, st, fr))
            # side effects / safety of the right operand are guarded by the left
            s2 = st.copy()
            g = x if op == '&&' else z3.Not(x)
            s2.pc.append(g)
            base = len(st.pc)
            y = tobool(self.ev(b, s2, fr))
            if self.changed(st, s2):
                s3 = st.copy()
                s3.pc.append(z3.Not(g))
                m = self.merge2(s2, s3)
                st.loc, st.heap, st.ghost, st.pc = m.loc, m.heap, m.ghost, m.pc
            else:
                for fct in s2.pc[base + 1:]:
                    st.pc.append(z3.Implies(g, fct))
            return z3.And(x, y) if op == '&&' else z3.Or(x, y)
        x = self.ev(a, st, fr)
        y = self.ev(b, st, fr)
        return self.binop(op, x, y, parse(simple_type(n['type'])), st, self.where(n, fr))

    def binop(self, op, x, y, ty, st, where):
        if isinstance(x, APtr) and op in ('+', '-') and z3.is_expr(y):
            return APtr(x.ref, x.off + y if op == '+' else x.off - y, x.ety)
        if op in ('==', '!='):
            r = self.equal(x, y)
            return r if op == '==' else z3.Not(r)
        if op in ('<', '>', '<=', '>=') and isinstance(x, It) and isinstance(y, It):
            x, y = x.pos, y.pos
        x, y = self.arith(x), self.arith(y)
        if R in (x.sort(), y.sort()):
            x, y = toreal(x), toreal(y)
        if op == '<':
            return x < y
        if op == '>':
            return x > y
        if op == '<=':
            return x <= y
        if op == '>=':
            return x >= y
        if op == '+':
            return x + y
        if op == '-':
            r = x - y
            if ty.k == 'uint':
                r = z3.If(r < 0, r + W64, r)
            return r
        if op == '*':
            if self.uf_mul and x.sort() == I and y.sort() == I and not z3.is_int_value(z3.simplify(x)) and not z3.is_int_value(z3.simplify(y)):
                return IMUL(x, y)
            return x * y
        if op == '/':
            if x.sort() == R:
                if self.uf_div and not z3.is_rational_value(z3.simplify(y)):
                    return RDIV(x, y)
                return x / y
            q = self.intdiv(x, y)
            return q
        if op == '%':
            return x - y * self.intdiv(x, y)
        raise Unsupported('binop ' + op)

    def intdiv(self, x, y):
        # C++ truncating division, z3 div is euclidean-ish
        return z3.If(x >= 0, z3.If(y > 0, x / y, -(x / (-y))), z3.If(y > 0, -((-x) / y), (-x) / (-y)))

    def equal(self, x, y):
        if isinstance(x, It) and isinstance(y, It):
            if not x.lv.same(y.lv):
                raise Unsupported('compare iterators of different containers')
            return x.pos == y.pos
        if isinstance(x, PLv) and isinstance(y, PLv):
            return z3.BoolVal(x.lv.same(y.lv))
        if isinstance(x, PLv) and z3.is_expr(y) or isinstance(y, PLv) and z3.is_expr(x):
            return z3.BoolVal(False)
        if isinstance(x, APtr):
            x = x.ref
        if isinstance(y, APtr):
            y = y.ref
        if isinstance(x, Cv) or isinstance(y, Cv):
            raise Unsupported('composite equality')
        if not (z3.is_expr(x) and z3.is_expr(y)):
            raise Unsupported('equality of %r %r' % (x, y))
        if x.sort() != y.sort():
            if R in (x.sort(), y.sort()):
                x, y = toreal(x), toreal(y)
            else:
                x, y = toint(x), toint(y)
        return x == y

    def e_CompoundAssignOperator(self, n, st, fr):
        op = n['opcode'][:-1]
        a, b = n['inner']
        y = self.ev(b, st, fr)
        lv = self._lv(a, st, fr)
        x = self.read(st, lv)
        cty = parse(simple_type(n.get('computeResultType', n['type'])))
        lty = parse(simple_type(n['type']))
        if cty.k == 'real':
            x = toreal(x) if z3.is_expr(x) else x
        elif cty.k == 'uint' and lty.k != 'uint' and z3.is_expr(x):
            x = self.icast(x, lty, cty)
        v = self.binop(op, x, y, cty, st, self.where(n, fr))
        if cty.k == 'real' and lty.k in ('int', 'uint'):
            v = trunc(v)
        elif cty.k == 'uint' and lty.k == 'int' and z3.is_expr(v):
            v = self.icast(v, cty, lty)
        self.write(st, lv, v)
        return v

    def e_ConditionalOperator(self, n, st, fr):
        c = self.cond(n['inner'][0], st, fr)
        s1, s2 = st.copy(), st.copy()
        s1.pc.append(c)
        s2.pc.append(z3.Not(c))
        b1 = len(s1.pc)
        x = self.ev(n['inner'][1], s1, fr)
        y = self.ev(n['inner'][2], s2, fr)
        if self.changed(st, s1) or self.changed(st, s2):
            # merge side effects
            s1.loc['$cond'] = x
            s2.loc['$cond'] = y
            m = self.merge2(s1, s2)
            x = m.loc.pop('$cond')
            st.loc, st.heap, st.ghost, st.pc = m.loc, m.heap, m.ghost, m.pc
            return x
        for f in s1.pc[b1:]:
            st.pc.append(z3.Implies(c, f))
        for f in s2.pc[b1:]:
            st.pc.append(z3.Implies(z3.Not(c), f))
        return self.merge_val(c, x, y)

    def e_UnaryExprOrTypeTraitExpr(self, n, st, fr):
        return z3.IntVal(8)

    def e_LambdaExpr(self, n, st, fr):
        return Lam(n, fr)

    def e_CXXThrowExpr(self, n, st, fr):
        fr.thr.append((st.copy(), self.where(n, fr)))
        raise Infeasible()

    def e_InitListExpr(self, n, st, fr):
        ty = parse(simple_type(n['type']))
        vals = [self.ev(x, st, fr) for x in n.get('inner', [])]
        if ty.k in ('arr', 'seq'):
            return self.mkseq(Ty('seq', ty.a), vals)
        if ty.k == 'pair' and len(vals) == 2:
            return self.mkpair(ty, *vals)
        if len(vals) == 1:
            return vals[0]
        if not vals:
            return self.default_val(ty)
        raise Unsupported('init list %r' % ty)

    def e_CXXStdInitializerListExpr(self, n, st, fr):
        return self.ev(n['inner'][0], st, fr)

    def e_CXXDefaultArgExpr(self, n, st, fr):
        raise Unsupported('default argument outside a call')

    def e_CXXDefaultInitExpr(self, n, st, fr):
        raise Unsupported('default init')

    def mkseq(self, ty, vals):
        v = self.default_val(ty)
        for x in vals:
            v = self.seq_push(v, x)
        return v

    def mkpair(self, ty, a, b):
        c = {}
        for w, t, v in (('first', ty.a, a), ('second', ty.b, b)):
            if scalar_sort(t) is not None:
                if isinstance(v, APtr):
                    v = v.ref
                if not z3.is_expr(v):
                    raise Unsupported('pair of %r' % v)
                c[w] = self.coerce_sort(v, scalar_sort(t))
            else:
                for p, x in v.c.items():
                    c[w + '.' + p] = x
        return Cv(ty, c)

    # ------------------------------------------------------------ sequences
    def seq_put(self, c, ety, pos, x):
        if scalar_sort(ety) is not None:
            if isinstance(x, APtr):
                x = x.ref
            if not z3.is_expr(x):
                raise Unsupported('sequence of %r' % x)
            c['e'] = z3.Store(c['e'], pos, self.coerce_sort(x, scalar_sort(ety)))
        else:
            for p, s in flatten(ety):
                k = 'e' + ('.' + p if p else '')
                c[k] = z3.Store(c[k], pos, x.c[p])

    def elem_id(self, x):
        return x.first if isinstance(x, Cv) else x

    def seq_push(self, v, x, front=False):
        c = dict(v.c)
        if front:
            c['lo'] = z3.simplify(c['lo'] - 1)
            self.seq_put(c, v.ty.a, c['lo'], x)
        else:
            self.seq_put(c, v.ty.a, c['hi'], x)
            c['hi'] = z3.simplify(c['hi'] + 1)
        if 'bag' in c:
            e = self.elem_id(x)
            c['bag'] = z3.Store(c['bag'], e, z3.Select(c['bag'], e) + 1)
        return Cv(v.ty, c)

    def seq_pop(self, st, v, front):
        c = dict(v.c)
        pos = c['lo'] if front else c['hi'] - 1
        if 'bag' in c:
            e = self.elem_id(v.raw(pos))
            c['bag'] = z3.Store(c['bag'], e, z3.Select(c['bag'], e) - 1)
        if front:
            c['lo'] = c['lo'] + 1
        else:
            c['hi'] = c['hi'] - 1
        return Cv(v.ty, c)

    def seq_erase(self, st, v, pos):
        """erase absolute position: shift the tail down"""
        c = dict(v.c)
        if 'bag' in c:
            e = self.elem_id(v.raw(pos))
            c['bag'] = z3.Store(c['bag'], e, z3.Select(c['bag'], e) - 1)
        j = z3.Int('erase!j')
        for p in list(c):
            if p == 'e' or p.startswith('e.'):
                c[p] = z3.Lambda([j], z3.If(j < pos, z3.Select(v.c[p], j), z3.Select(v.c[p], j + 1))) if False else \
                    self.shifted(st, v.c[p], pos)
        c['hi'] = c['hi'] - 1
        nv = Cv(v.ty, c)
        for hk in self.erase_hooks:
            hk(self, st, v, nv, pos)
        return nv

    def shifted(self, st, arr, pos):
        n = self.fresh(arr.sort(), 'shift')
        j = z3.Int('sh!j')
        st.pc.append(z3.ForAll([j], z3.Select(n, j) == z3.If(j < pos, z3.Select(arr, j), z3.Select(arr, j + 1)),
                               patterns=[z3.Select(n, j)]))
        # instance that links reads on the old array to the new one
        st.pc.append(z3.ForAll([j], z3.Implies(j > pos, z3.Select(n, j - 1) == z3.Select(arr, j)),
                               patterns=[z3.Select(arr, j)]))
        return n

    def seq_insert(self, st, v, pos, x):
        c = dict(v.c)
        j = z3.Int('in!j')
        ety = v.ty.a
        for p in list(c):
            if p == 'e' or p.startswith('e.'):
                n = self.fresh(v.c[p].sort(), 'ins')
                xv = x if p == 'e' else x.c[p[2:]]
                st.pc.append(z3.ForAll([j], z3.Select(n, j) == z3.If(j < pos, z3.Select(v.c[p], j),
                                                                     z3.If(j == pos, xv, z3.Select(v.c[p], j - 1))),
                                       patterns=[z3.Select(n, j)]))
                c[p] = n
        c['hi'] = c['hi'] + 1
        if 'bag' in c:
            e = self.elem_id(x)
            c['bag'] = z3.Store(c['bag'], e, z3.Select(c['bag'], e) + 1)
        return Cv(v.ty, c)

    def seq_append(self, st, v, src, a, b):
        """v followed by the entries [a, b) of src"""
        c = dict(v.c)
        full = z3.And(a == src.c['lo'], b == src.c['hi'])
        empty = z3.is_int_value(z3.simplify(v.len)) and z3.simplify(v.len).as_long() == 0
        j = z3.Int('ap!j')
        for p in list(c):
            if p == 'e' or p.startswith('e.'):
                if empty:
                    c[p] = src.c[p]
                    continue
                n = self.fresh(v.c[p].sort(), 'app')
                hi = v.c['hi']
                st.pc.append(z3.ForAll([j], z3.Select(n, j) == z3.If(j < hi, z3.Select(v.c[p], j), z3.Select(src.c[p], j - hi + a)), patterns=[z3.Select(n, j)]))
                c[p] = n
        if empty:
            c['lo'], c['hi'] = a, b
        else:
            c['hi'] = c['hi'] + (b - a)
        if 'bag' in c:
            nb = self.fresh(c['bag'].sort(), 'appbag')
            if empty:
                st.pc.append(z3.Implies(full, nb == src.c['bag']))
            c['bag'] = nb
        return Cv(v.ty, c)

    perm_inverse = False
    erase_hooks = ()      # facts about counts over a sequence from which one element is erased
    perm_hooks = ()       # facts about sums and counts over a permuted sequence

    def permuted(self, st, v, lo=None, hi=None):
        """arbitrary permutation of v's elements (shuffle)"""
        c = dict(v.c)
        lo = c['lo'] if lo is None else lo
        hi = c['hi'] if hi is None else hi
        p = self.fresh(z3.ArraySort(I, I), 'perm')
        q = self.fresh(z3.ArraySort(I, I), 'permi')
        j = z3.Int('pm!j')
        inr = z3.And(lo <= j, j < hi)
        for arr_, inv_ in ((p, q), (q, p)) if self.perm_inverse else ((p, None),):
            x = z3.Select(arr_, j)
            st.pc.append(z3.ForAll([j], z3.And(z3.Implies(inr, z3.And(lo <= x, x < hi, *([z3.Select(inv_, x) == j] if inv_ is not None else []))),
                                               z3.Implies(z3.Not(inr), x == j)), patterns=[x]))
        for k in list(c):
            if k == 'e' or k.startswith('e.'):
                n = self.fresh(c[k].sort(), 'shuf')
                st.pc.append(z3.ForAll([j], z3.Select(n, j) == z3.Select(v.c[k], z3.Select(p, j)), patterns=[z3.Select(n, j)]))
                if self.perm_inverse:
                    st.pc.append(z3.ForAll([j], z3.Select(v.c[k], j) == z3.Select(n, z3.Select(q, j)), patterns=[z3.Select(v.c[k], j)]))
                c[k] = n
        self.last_perm = (p, q)
        nv = Cv(v.ty, c)
        for hk in self.perm_hooks:
            hk(self, st, v, nv)
        return nv

    def iter_deref(self, st, it):
        if it.lv.ty.k == 'seq':
            return LElem(it.lv, it.pos, it.lv.ty.a)
        if it.lv.ty.k == 'map':
            m = self.read(st, it.lv)
            k = self.map_key_at(st, m, it.pos)
            return LMapEntry(it.lv, k, Ty('pair', it.lv.ty.a, it.lv.ty.b))
        if it.lv.ty.k == 'set':
            m = self.read(st, it.lv)
            return LTemp(self.map_key_at(st, m, it.pos), it.lv.ty.a)
        raise Unsupported('deref iterator of %r' % it.lv.ty)

    # ------------------------------------------------------------ maps
    def map_add(self, st, m, k, v):
        """insert or assign key k"""
        c = dict(m.c)
        isnew = z3.Not(z3.Select(c['dom'], k))
        c['n'] = z3.If(isnew, c['n'] + 1, c['n'])
        c['dom'] = z3.Store(c['dom'], k, True)
        o2 = self.fresh(c['ord'].sort(), 'ord')
        p2 = self.fresh(c['pos'].sort(), 'pos')
        c['ord'] = z3.If(isnew, o2, c['ord'])
        c['pos'] = z3.If(isnew, p2, c['pos'])
        if m.ty.k == 'map' and v is not None:
            if scalar_sort(m.ty.b) is not None:
                if isinstance(v, APtr):
                    v = v.ref
                if not z3.is_expr(v):
                    raise Unsupported('map value %r' % v)
                c['v'] = z3.Store(c['v'], k, self.coerce_sort(v, scalar_sort(m.ty.b)))
            else:
                for p, s in flatten(m.ty.b):
                    kk = 'v' + ('.' + p if p else '')
                    c[kk] = z3.Store(c[kk], k, v.c[p])
        return Cv(m.ty, c)

    def map_erase(self, st, m, k):
        c = dict(m.c)
        had = z3.Select(c['dom'], k)
        pk = z3.Select(c['pos'], k)
        c['n'] = z3.If(had, c['n'] - 1, c['n'])
        c['dom'] = z3.Store(c['dom'], k, False)
        # order of the remaining elements is preserved by the standard
        o2 = self.fresh(c['ord'].sort(), 'ord')
        p2 = self.fresh(c['pos'].sort(), 'pos')
        j = z3.Int('me!j')
        kk = z3.Const('me!k', c['pos'].sort().domain())
        st.pc.append(z3.ForAll([j], z3.Select(o2, j) == z3.If(j < pk, z3.Select(c['ord'], j), z3.Select(c['ord'], j + 1)),
                               patterns=[z3.Select(o2, j)]))
        st.pc.append(z3.ForAll([kk], z3.Select(p2, kk) == z3.If(z3.Select(c['pos'], kk) > pk, z3.Select(c['pos'], kk) - 1,
                                                                z3.Select(c['pos'], kk)), patterns=[z3.Select(p2, kk)]))
        c['ord'] = z3.If(had, o2, c['ord'])
        c['pos'] = z3.If(had, p2, c['pos'])
        return Cv(m.ty, c)

    # ------------------------------------------------------------ calls
    def callee_decl(self, node):
        c = node['inner'][0]
        while c['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            c = c['inner'][0]
        return c

    def args_of(self, nodes):
        return nodes

    def e_CallExpr(self, n, st, fr):
        r = self.call(n, st, fr)
        return self.read(st, r) if hasattr(r, 'same') else r

    def e_CXXMemberCallExpr(self, n, st, fr):
        r = self.member_call(n, st, fr)
        return self.read(st, r) if hasattr(r, 'same') else r

    def e_CXXOperatorCallExpr(self, n, st, fr):
        r = self.op_call(n, st, fr)
        return self.read(st, r) if hasattr(r, 'same') else r

    def call(self, n, st, fr, want_lv=False):
        c = self.callee_decl(n)
        args = n['inner'][1:]
        if c['kind'] == 'DeclRefExpr':
            rd = c['referencedDecl']
            name = rd['name']
            if rd['kind'] in ('VarDecl', 'ParmVarDecl'):
                raise Unsupported('call through pointer %s' % name)
            if rd['id'] in fr.tu.decls or rd['id'] in fr.tu.declcls:
                d = fr.tu.decls.get(rd['id'])
                if d is not None:
                    return self.user_call(d, rd['id'], None, args, st, fr, n)
            b = getattr(self, 'f_' + name, None)
            if b:
                return b(n, args, st, fr)
            # static helper outside MNM
            fr.tu.load(name)
            cand = [f for f in fr.tu.fns.values() if f.name == name and f.cls is None
                    and simple_type(f.node['type']) == rd['type'].get('qualType')]
            if len(cand) == 1:
                return self.invoke(cand[0], None, None, args, st, fr, n)
            raise Unsupported('call to %s' % name)
        raise Unsupported('call via %s' % c['kind'])

    def decl_qual(self, tu, did, d):
        cls = tu.declcls.get(did)
        return (cls + '::' if cls else tu.ns.get(did, '')) + d['name']

    def user_call(self, d, did, this, args, st, fr, node, dyn=None, static_cls=None):
        qual = self.decl_qual(fr.tu, did, d)
        ct = self.contracts.get(qual)
        if ct is not None:
            av = self.eval_args(d, args, st, fr)
            return ct(CallCtx(self, st, fr, this, av, node, qual))
        f = self.prog.find_body(d['mangledName'], fr.tu.declcls.get(did), d['name'], fr.tu)
        if f is None:
            raise Unsupported('no body for %s' % qual)
        return self.invoke(f, this, dyn, args, st, fr, node, decl=d)

    def eval_args(self, d, args, st, fr):
        out = []
        params = [x for x in d.get('inner', []) if x.get('kind') == 'ParmVarDecl']
        for i, a in enumerate(args):
            pty = parse(simple_type(params[i]['type'])) if i < len(params) else None
            if a['kind'] == 'CXXDefaultArgExpr':
                out.append(self.default_arg(d, i, st, fr))
            elif pty is not None and pty.k == 'ref':
                lv = self._lv(a, st, fr)
                out.append(lv)
            else:
                out.append(self.ev(a, st, fr))
        return out

    def default_arg(self, d, i, st, fr):
        cur = d
        cands = [d] + [x for x in fr.tu.decls.values() if x.get('mangledName') == d.get('mangledName')]
        for c in cands:
            ps = [x for x in c.get('inner', []) if x.get('kind') == 'ParmVarDecl']
            if i < len(ps) and ps[i].get('inner'):
                ex = [x for x in ps[i]['inner'] if x.get('kind') != 'FullComment']
                if ex:
                    return self.ev(ex[0], st, fr)
        raise Unsupported('default argument %d of %s' % (i, d.get('name')))

    def invoke(self, f, this, dyn, args, st, fr, node, decl=None, argvals=None):
        if fr.depth > self.maxdepth:
            raise Unsupported('inline depth at %s' % f.qual)
        if any(x is f.mangled for x in ()):
            pass
        stack = self.callstack
        if f.mangled in stack:
            raise Unsupported('recursive call of %s without contract' % f.qual)
        self.fn_used.add(f.qual)
        d = decl or f.node
        av = argvals if argvals is not None else self.eval_args(d, args, st, fr)
        nf = Frame(f, f.tu, this, dyn or f.cls, fr.depth + 1)
        for p, v in zip(f.params, av):
            key = (f.tu.fname, p['id'])
            pty = parse(simple_type(p['type']))
            self.localname = getattr(self, 'localname', {})
            self.localname[key] = p.get('name', '?')
            if pty.k == 'ref':
                st.loc[key] = v if hasattr(v, 'same') or isinstance(v, GView) else LTemp(v, v.ty if isinstance(v, Cv) else pty.a)
            else:
                if hasattr(v, 'same'):
                    v = self.read(st, v)
                if z3.is_expr(v) and scalar_sort(pty) is not None and pty.k not in ('iter', 'lam'):
                    v = self.named(st, self.coerce_sort(v, scalar_sort(pty)))
                st.loc[key] = v
        stack.append(f.mangled)
        self.callpath.append(f.mangled + '@' + str((node or {}).get('id')))
        try:
            if f.kind == 'CXXConstructorDecl':
                o = self.ctor_body(f, st, nf)
            else:
                o = self.exec(f.body, st, nf)
        finally:
            stack.pop()
            self.callpath.pop()
        fr.thr += o.thr
        rets = list(o.ret)
        if o.normal is not None:
            rets.append((o.normal, None))
        if not rets:
            raise Infeasible()
        isref = f.rettype.endswith('&')
        for s, v in rets:
            if v is not None:
                if hasattr(v, 'same') and not isref:
                    v = self.read(s, v)
                s.loc['$ret'] = v
            else:
                s.loc.pop('$ret', None)
        m = self.merge([s for s, _ in rets])
        v = m.loc.pop('$ret', None)
        if m is not st:
            st.loc, st.heap, st.ghost, st.pc = m.loc, m.heap, m.ghost, m.pc
        if z3.is_expr(v):
            rty = parse(f.rettype)
            if scalar_sort(rty) is not None and rty.k not in ('iter', 'lam') and v.sort() != scalar_sort(rty):
                v = self.coerce_sort(v, scalar_sort(rty))
        return v

    callstack = []

    def ctor_body(self, f, st, nf):
        done = set()
        thr = []
        nf.thr = []
        for ini in f.inits:
            if 'anyInit' in ini:
                fd = ini['anyInit']
                cls, fname, t = f.tu.fields.get(fd['id'], (f.cls, fd['name'], simple_type(fd['type'])))
                ty = parse(t)
                e = [x for x in ini.get('inner', []) if x]
                lv = LField(nf.this, cls + '::' + fname, ty)
                if not e or e[0]['kind'] == 'CXXDefaultInitExpr':
                    c = f.tu.classes.get(cls)
                    init = c.fields[fname][1] if c else None
                    if init is None:
                        continue
                    v = self.ev(init, st, nf)
                else:
                    v = self.ev(e[0], st, nf)
                if isinstance(v, Opaque):
                    continue
                self.write(st, lv, v)
            elif 'baseInit' in ini:
                e = ini['inner'][0]
                self.construct(e, nf.this, parse(simple_type(ini['baseInit'])).name, st, nf)
            else:
                e = ini['inner'][0]
                self.construct(e, nf.this, f.cls, st, nf)
        thr += nf.thr
        nf.thr = []
        o = self.exec(f.body, st, nf)
        o.thr += thr
        return o

    def construct(self, e, ref, cls, st, fr):
        """run constructor expression e on object ref"""
        while e['kind'] in self.PASS or e['kind'] == 'ImplicitCastExpr':
            e = e['inner'][0]
        args = [x for x in e.get('inner', []) if x]
        ctype = e.get('ctorType', {}).get('qualType', '')
        ctq = '%s::%s' % (cls, cls)
        c = self.prog.get_cls(cls)
        if c is None:
            raise Unsupported('class %s' % cls)
        if ctq in self.contracts:
            av = [self.lval_or_val(a, st, fr) for a in args]
            av = [self.read(st, v) if hasattr(v, 'same') else v for v in av]
            return self.contracts[ctq](CallCtx(self, st, fr, ref, av, e, ctq))
        cands = []
        for t in [fr.tu] + list(self.prog.tus.values()):
            for did, d in t.decls.items():
                if d['kind'] == 'CXXConstructorDecl' and d.get('name') == cls and simple_type(d['type']).replace('const ', '') == ctype.replace('const ', ''):
                    cands.append(d)
            if cands:
                break
        for d in cands:
            f = self.prog.find_body(d['mangledName'], cls, cls, fr.tu)
            if f:
                self.invoke(f, ref, cls, args, st, fr, e, decl=d)
                return
        if not args:
            # implicit default constructor: default member initialisers
            for b in c.bases:
                pass
            for fname, (t, init) in c.fields.items():
                ty = parse(t)
                if init is not None:
                    self.write(st, LField(ref, cls + '::' + fname, ty), self.ev(init, st, Frame(None, c.tu, ref, cls, fr.depth + 1)))
                elif ty.k in ('seq', 'map', 'set'):
                    self.write(st, LField(ref, cls + '::' + fname, ty), self.default_val(ty))
            return
        raise Unsupported('constructor of %s %s' % (cls, ctype))

    def new_ref(self, st, hint='new'):
        r = self.fresh(I, hint)
        nxt = st.ghost.get('alloc')
        if nxt is not None:
            st.pc.append(r == nxt)
            st.pc.append(r > 0)
            st.ghost['alloc'] = nxt + 1
        else:
            st.pc.append(r > 0)
        return r

    def e_CXXNewExpr(self, n, st, fr):
        ty = parse(simple_type(n['type']))
        t = ty.a
        inner = [x for x in n.get('inner', []) if x]
        r = self.new_ref(st, 'new_' + (t.name or t.k))
        if n.get('isArray'):
            sz = self.ev(inner[0], st, fr)
            init = any(x['kind'] in ('ImplicitValueInitExpr', 'InitListExpr') for x in inner[1:])
            if scalar_sort(t) is not None and (n.get('initStyle') or init):
                key = '$arr:%r' % t
                s = scalar_sort(t)
                zero = self.default_val(t)
                self.store_heap(st, key, z3.ArraySort(I, s), r, z3.K(I, zero))
            elif scalar_sort(t) is not None:
                key = '$arr:%r' % t
                s = scalar_sort(t)
                self.store_heap(st, key, z3.ArraySort(I, s), r, self.fresh(z3.ArraySort(I, s), 'newarr'))
            return APtr(r, z3.IntVal(0), t)
        if t.k in ('seq', 'map', 'set', 'pair'):
            v = self.ev(inner[0], st, fr) if inner else self.default_val(t)
            self.write(st, LField(r, '$box:%r' % t, t), v)
            return r
        if t.k == 'cls':
            st.loc  # class object
            if inner:
                self.construct(inner[0], r, t.name, st, fr)
            return r
        v = self.ev(inner[0], st, fr) if inner else self.fresh(scalar_sort(t), 'newv')
        self.write(st, LArr(r, z3.IntVal(0), t), v)
        return APtr(r, z3.IntVal(0), t)

    def e_CXXDeleteExpr(self, n, st, fr):
        v = self.ev(n['inner'][0], st, fr)
        ty = parse(simple_type(n['inner'][0]['type']))
        if z3.is_expr(v) and ty.k == 'ptr' and ty.a.k == 'cls' and not n.get('isArray') and not n.get('isArrayAsWritten'):
            # the memory of a deleted object holds arbitrary values from here on (its destructor is not executed)
            todo = [self.prog.get_cls(ty.a.name)]
            while todo:
                x = todo.pop()
                if x is None:
                    continue
                for fname, (t, _) in x.fields.items():
                    fty = parse(t)
                    k = x.name + '::' + fname
                    if scalar_sort(fty) is not None and k in st.heap:
                        self.store_heap(st, k, scalar_sort(fty), v, self.fresh(scalar_sort(fty), 'deleted'))
                todo += [self.prog.get_cls(b) for b in x.bases]
        return z3.IntVal(0)

    def e_CXXConstructExpr(self, n, st, fr):
        ty = parse(simple_type(n['type']))
        args = [x for x in n.get('inner', []) if x and x['kind'] != 'CXXDefaultArgExpr']
        if ty.k == 'str' or ty.name in ('runtime_error', 'allocator', 'invalid_argument', 'out_of_range', 'basic_ofstream<>',
                                        'basic_ifstream<>', 'std::basic_ofstream<>', 'std::basic_ifstream<>', 'std::allocator<>'):
            if ty.k == 'str' and len(args) >= 1:
                try:
                    v = self.ev(args[0], st, fr)
                    if z3.is_expr(v) and v.sort() == I and (z3.is_int_value(v) or parse(simple_type(args[0]['type'])).k == 'str'):
                        return v          # a copy of a literal or of another string
                except Unsupported:
                    pass
            return self.fresh(I, 'opq')
        if ty.k == 'pair':
            if len(args) == 0:
                return self.default_val(ty)
            if len(args) == 2:
                return self.mkpair(ty, self.ev(args[0], st, fr), self.ev(args[1], st, fr))
            if len(args) == 1:
                v = self.ev(args[0], st, fr)
                if isinstance(v, Cv) and v.ty.k == 'pair':
                    return self.mkpair(ty, v.first, v.second)
                return v
        if ty.k == 'seq':
            if not args:
                return self.default_val(ty)
            ct = n.get('ctorType', {}).get('qualType', '')
            vals = [self.lval_or_val(a, st, fr) for a in args]
            vals = [self.read(st, v) if hasattr(v, 'same') else v for v in vals]
            if len(vals) == 1 and isinstance(vals[0], Cv) and vals[0].ty.k == 'seq':
                return Cv(ty, vals[0].c)
            if z3.is_expr(vals[0]) and vals[0].sort() == I and len(vals) in (1, 2):
                v = self.default_val(ty)
                c = dict(v.c)
                fill = vals[1] if len(vals) == 2 else self.default_val(ty.a)
                c['hi'] = vals[0]
                for p in c:
                    if p == 'e':
                        c[p] = z3.K(I, self.coerce_sort(fill, scalar_sort(ty.a)))
                    elif p.startswith('e.'):
                        c[p] = z3.K(I, fill.c[p[2:]])
                    elif p == 'bag':
                        e = self.elem_id(fill)
                        c[p] = z3.Store(z3.K(I, z3.IntVal(0)), e, vals[0])
                return Cv(ty, c)
            if len(vals) == 2 and isinstance(vals[0], It) and isinstance(vals[1], It):
                src = self.read(st, vals[0].lv)
                c = dict(src.c)
                full = z3.And(vals[0].pos == c['lo'], vals[1].pos == c['hi'])
                c['lo'], c['hi'] = vals[0].pos, vals[1].pos
                if 'bag' in c:
                    nb = self.fresh(c['bag'].sort(), 'subbag')
                    st.pc.append(z3.Implies(full, nb == c['bag']))
                    c['bag'] = nb
                return Cv(ty, c)
            raise Unsupported('seq ctor %s' % ct)
        if ty.k in ('map', 'set'):
            if not args:
                return self.default_val(ty)
            v = self.lval_or_val(args[0], st, fr)
            v = self.read(st, v) if hasattr(v, 'same') else v
            if isinstance(v, Cv) and v.ty.k == ty.k:
                return Cv(ty, v.c)
            raise Unsupported('map ctor')
        if ty.k in ('iter', 'lam'):
            if not args:
                return Opaque('iter')
            v = self.lval_or_val(args[0], st, fr)
            return self.read(st, v) if hasattr(v, 'same') else v
        if ty.k == 'cls':
            if ty.name in self.builtins:
                return self.builtins[ty.name](self, n, args, st, fr)
            # copy construction keeps a fresh object
            if len(args) == 1:
                v = self.lval_or_val(args[0], st, fr)
                v = self.read(st, v) if hasattr(v, 'same') else v
                if isinstance(v, (GView, Opaque, It)):
                    return v
                aty = parse(simple_type(args[0]['type']))
                if aty.k == 'cls' and aty.name == ty.name:
                    if n.get('elidable'):
                        return v
                    return self.copy_object(v, ty.name, st)
            if self.prog.get_cls(ty.name) is None:
                raise Unsupported('construct %s' % ty.name)
            r = self.new_ref(st, 'obj_' + ty.name)
            self.construct(n, r, ty.name, st, fr)
            return r
        if len(args) == 1:
            return self.ev(args[0], st, fr)
        raise Unsupported('construct %r' % ty)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def copy_object(self, v, cls, st):
        r = self.new_ref(st, 'copy_' + cls)
        c = self.prog.get_cls(cls)
        if c is None:
            raise Unsupported('copy of %s' % cls)
        todo = [c]
        while todo:
            x = todo.pop()
            for fname, (t, _) in x.fields.items():
                ty = parse(t)
                self.write(st, LField(r, x.name + '::' + fname, ty), self.read(st, LField(v, x.name + '::' + fname, ty)))
            todo += [self.prog.get_cls(b) for b in x.bases if self.prog.get_cls(b)]
        return r

    # operators
    def op_call(self, n, st, fr, want_lv=False):
        c = self.callee_decl(n)
        name = c['referencedDecl']['name']
        args = n['inner'][1:]
        if name == 'operator=':
            v = self.lval_or_val(args[1], st, fr)
            v = self.read(st, v) if hasattr(v, 'same') else v
            lv = self._lv(args[0], st, fr)
            if isinstance(v, Cv) and hasattr(lv, 'ty') and lv.ty.k in ('seq', 'map', 'set', 'pair'):
                v = Cv(lv.ty, v.c)
            self.write(st, lv, v)
            return lv
        if name == 'operator<<' or name == 'operator>>':
            t = simple_type(n['type'])
            for a in args:
                pass
            return Opaque('stream')
        base = self._lv(args[0], st, fr)
        if isinstance(base, GView):
            return self.graph_op(name, base, args, st, fr)
        bv = self.read(st, base) if hasattr(base, 'same') else base
        if name == 'operator[]':
            bty = base.ty if hasattr(base, 'ty') else bv.ty
            if not hasattr(base, 'same'):
                base = LTemp(bv, bv.ty)
            if isinstance(bv, It):
                i = self.ev(args[1], st, fr)
                return LElem(bv.lv, bv.pos + toint(i), bv.lv.ty.a)
            if bty.k == 'seq':
                i = toint(self.ev(args[1], st, fr))
                if self.safety:
                    self.oblige(st, z3.And(0 <= i, i < bv.len), 'index in range', self.where(n, fr), 'safety')
                return LElem(base, bv.c['lo'] + i, bty.a)
            if bty.k == 'map':
                k = self.ev(args[1], st, fr)
                if isinstance(k, APtr):
                    k = k.ref
                k = self.coerce_sort(k, key_sort(bty.a))
                self.map_fact(st, bv, k)
                had = bv.has(k)
                if self.quick_valid(st.pc, had, 500):
                    return LMapV(base, k, bty.b)
                dv = self.default_val(bty.b)
                nm = self.map_add(st, bv, k, dv)
                nv = Cv(bty, {p: (z3.If(had, bv.c[p], nm.c[p]) if not bv.c[p].eq(nm.c[p]) else bv.c[p]) for p in bv.c})
                self.write(st, base, nv)
                return LMapV(base, k, bty.b)
            raise Unsupported('operator[] on %r' % bty)
        if name in ('operator==', 'operator!='):
            o = self.ev(args[1], st, fr)
            if simple_type(args[0]['type']).find('basic_string') >= 0 or parse(simple_type(args[1]['type'])).k == 'str':
                bv = bv if z3.is_expr(bv) else self.fresh(I, 's')
                o = o if z3.is_expr(o) else self.fresh(I, 's')
            r = self.equal(bv, o)
            return r if name == 'operator==' else z3.Not(r)
        if name in ('operator++', 'operator--'):
            d = 1 if name == 'operator++' else -1
            if isinstance(bv, It):
                nv = It(bv.lv, bv.pos + d, bv.ty)
                self.write(st, base, nv)
                return bv if len(args) == 2 else nv
            raise Unsupported(name)
        if name in ('operator+', 'operator-', 'operator+=', 'operator-=') and isinstance(bv, It):
            o = self.ev(args[1], st, fr)
            if isinstance(o, It):
                return bv.pos - o.pos
            nv = It(bv.lv, bv.pos + o if '+' in name else bv.pos - o, bv.ty)
            if '=' in name:
                self.write(st, base, nv)
            return nv
        if name in ('operator<', 'operator>', 'operator<=', 'operator>=') and isinstance(bv, It):
            o = self.ev(args[1], st, fr)
            return self.binop(name[8:], bv, o, BOOL, st, '')
        if name == 'operator->' or name == 'operator*':
            if isinstance(bv, It):
                if name == 'operator->':
                    lv = self.iter_deref(st, bv)
                    return PLv(lv) if not (isinstance(lv, LTemp)) else PLv(lv)
                lv = self.iter_deref(st, bv)
                if self.safety and bv.lv.ty.k == 'seq':
                    s = self.read(st, bv.lv)
                    self.oblige(st, z3.And(s.c['lo'] <= bv.pos, bv.pos < s.c['hi']), 'iterator dereferenceable', self.where(n, fr), 'safety')
                return lv
            if z3.is_expr(bv):       # unique_ptr
                return bv
        if name == 'operator()':
            if isinstance(bv, Lam):
                av = [self.lval_or_val(a, st, fr) for a in args[1:]]
                return self.apply_lambda(bv, av, st)
        if name in ('operator+', 'operator+='):
            for a in args[1:]:
                pass
            t = parse(simple_type(n['type']))
            if t.k == 'str':
                v = self.fresh(I, 'str')
                if name == 'operator+=':
                    self.write(st, base, v)
                return v
        # user defined operator
        rid = c['referencedDecl']['id']
        if rid in fr.tu.decls:
            d = fr.tu.decls[rid]
            if rid in fr.tu.declcls:
                return self.user_call(d, rid, bv, args[1:], st, fr, n)
            return self.user_call(d, rid, None, args, st, fr, n)
        raise Unsupported('%s on %s' % (name, simple_type(args[0]['type'])))

    def apply_lambda(self, lam, av, st):
        node = lam.node
        rec = node['inner'][0]
        meth = [x for x in rec['inner'] if x['kind'] == 'CXXMethodDecl' and x.get('name') == 'operator()'][0]
        params = [x for x in meth['inner'] if x['kind'] == 'ParmVarDecl']
        body = [x for x in meth['inner'] if x['kind'] == 'CompoundStmt'][0]
        fr = lam.frame
        for p, v in zip(params, av):
            key = (fr.tu.fname, p['id'])
            pty = parse(simple_type(p['type']))
            if pty.k == 'ref':
                st.loc[key] = v if hasattr(v, 'same') else LTemp(v, v.ty if isinstance(v, Cv) else pty.a)
            else:
                st.loc[key] = self.read(st, v) if hasattr(v, 'same') else v
        o = self.exec(body, st, fr)
        rets = list(o.ret)
        if not rets:
            raise Unsupported('lambda without return')
        for s, v in rets:
            s.loc['$lam'] = self.read(s, v) if hasattr(v, 'same') else v
        m = self.merge([s for s, _ in rets])
        v = m.loc.pop('$lam')
        st.loc, st.heap, st.ghost, st.pc = m.loc, m.heap, m.ghost, m.pc
        return v

    # member calls
    def member_call(self, n, st, fr, want_lv=False):
        me = n['inner'][0]
        while me['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
            me = me['inner'][0]
        if me['kind'] != 'MemberExpr':
            raise Unsupported('member call via %s' % me['kind'])
        name = me['name']
        args = [a for a in n['inner'][1:]]
        base = me['inner'][0]
        mid = me.get('referencedMemberDecl')
        d = fr.tu.decls.get(mid)
        if d is not None and mid in fr.tu.declcls:
            return self.method(n, me, d, mid, base, args, st, fr)
        # library object
        if me.get('isArrow'):
            p = self.ev(base, st, fr)
            if isinstance(p, It):
                lv = self.iter_deref(st, p)
            elif isinstance(p, PLv):
                lv = p.lv
            else:
                lv = self.deref_ptr(p, parse(simple_type(base['type'])).a, st)
        else:
            lv = self._lv(base, st, fr)
        if isinstance(lv, GView):
            return self.graph_call(name, lv, args, st, fr, n)
        bty = parse(simple_type(base['type']))
        if bty.k == 'ptr' and me.get('isArrow'):
            bty = bty.a
        if hasattr(lv, 'same'):
            ty = lv.ty
        elif isinstance(lv, Cv):
            ty = lv.ty
            lv = LTemp(lv, ty)
        else:
            ty = bty
            lv = LTemp(lv, ty)
        if bty.k == 'cls' and 'Graph<' in simple_type(base['type']):
            return self.graph_call(name, lv, args, st, fr, n)
        if ty.k == 'seq':
            return self.seq_call(name, lv, args, st, fr, n)
        if ty.k in ('map', 'set'):
            return self.map_call(name, lv, args, st, fr, n)
        if ty.k == 'str' or 'stream' in simple_type(base['type']):
            return self.fresh(I, 'str')
        if ty.k == 'cls' and (ty.name, name) in self.builtins:
            return self.builtins[(ty.name, name)](self, lv, args, st, fr)
        if ty.k == 'ptr' and name in ('get',):
            return self.read(st, lv)
        if (ty.name, name) in self.builtins:
            return self.builtins[(ty.name, name)](self, lv, args, st, fr)
        raise Unsupported('method %s of %r (%s)' % (name, ty, simple_type(base['type'])))

    def all_methods(self, cls):
        out = []
        c = self.prog.get_cls(cls)
        while c is not None:
            out.append(c)
            nxt = None
            for b in c.bases:
                nb = self.prog.get_cls(b)
                if nb is not None:
                    nxt = nb
                    break
            c = nxt
        return out

    def is_virtual(self, cls, name):
        for c in self.all_methods(cls):
            for (nm, mg, v, did) in c.methods:
                if nm == name and v:
                    return True
        return False

    def overrider(self, dyn, name, d):
        """final overrider of method name in dynamic class dyn (same signature)"""
        want = simple_type(d['type'])
        for c in self.all_methods(dyn):
            for (nm, mg, v, did) in c.methods:
                if nm == name:
                    dd = c.tu.decls.get(did)
                    if dd is not None and simple_type(dd['type']) == want:
                        return c, dd, did
        return None

    def method(self, n, me, d, mid, base, args, st, fr):
        name = d['name']
        cls = fr.tu.declcls[mid]
        if me.get('isArrow'):
            ref = self.ev(base, st, fr)
        else:
            lv = self._lv(base, st, fr)
            ref = self.read(st, lv) if hasattr(lv, 'same') else lv
        if isinstance(ref, PLv):
            ref = self.read(st, ref.lv)
        b0 = base
        while b0['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            b0 = b0['inner'][0]
        isthis = b0['kind'] == 'CXXThisExpr'
        qualified = False
        virt = self.is_virtual(cls, name)
        dyn = None
        if isthis:
            dyn = fr.dyn
        sty = parse(simple_type(base['type']))
        scls = (sty.a.name if sty.k == 'ptr' else sty.name)
        tcls = parse(simple_type(b0['type']))
        rcls = (tcls.a.name if tcls.k == 'ptr' else tcls.name)
        q = cls + '::' + name
        # a call that names a base class's version although the static class has its own (Base::f()) is not virtual
        if virt and rcls:
            ov = self.overrider(rcls, name, d)
            qualified = ov is not None and ov[0].name != cls
        if qualified:
            virt = False
        # contracts first (most specific first)
        order = []
        if qualified:
            pass
        elif isthis and dyn:
            for c in self.all_methods(dyn):
                order.append(c.name + '::' + name)
        else:
            order.append(str(rcls) + '::' + name)
            for c in self.all_methods(rcls) if rcls else []:
                order.append(c.name + '::' + name)
        order.append(q)
        if not (isthis and virt is False):
            pass
        for qn in order:
            if qn in self.contracts:
                av = self.eval_args(d, args, st, fr)
                return self.contracts[qn](CallCtx(self, st, fr, ref, av, n, qn))
            # an overrider nearer to the dynamic class hides base contracts
            if isthis and dyn and not qualified:
                cc = self.prog.get_cls(qn.split('::')[0])
                if cc is not None and any(nm == name for nm, _, _, _ in cc.methods):
                    break
        if virt:
            if dyn is None:
                dyn = self.dispatch.get(rcls, self.dispatch.get(cls))
            if dyn is None:
                raise Unsupported('virtual call %s on %s' % (q, rcls))
            # explicit qualification (Base::f()) is not visible in JSON; treat as virtual
            ov = self.overrider(dyn, name, d)
            if ov is None:
                raise Unsupported('no overrider of %s in %s' % (q, dyn))
            c, dd, did = ov
            f = self.prog.find_body(dd['mangledName'], c.name, name, fr.tu)
            if f is None:
                raise Unsupported('no body for %s::%s' % (c.name, name))
            return self.invoke(f, ref, dyn, args, st, fr, n, decl=d)
        f = self.prog.find_body(d['mangledName'], cls, name, fr.tu)
        if f is None:
            raise Unsupported('no body for %s' % q)
        return self.invoke(f, ref, dyn, args, st, fr, n, decl=d)

    def rv(self, a, st, fr):
        v = self.lval_or_val(a, st, fr)
        return self.read(st, v) if hasattr(v, 'same') else v

    def seq_call(self, name, lv, args, st, fr, n):
        v = self.read(st, lv)
        w = self.where(n, fr)
        ty = lv.ty
        if name == 'size':
            return v.len
        if name == 'empty':
            return v.len == 0
        if name in ('front', 'back', 'top'):
            if self.safety:
                self.oblige(st, v.len > 0, '%s() on non-empty container' % name, w, 'safety')
            return LElem(lv, v.c['lo'] if name == 'front' else v.c['hi'] - 1, ty.a)
        if name in ('pop_front', 'pop_back', 'pop'):
            if self.safety:
                self.oblige(st, v.len > 0, '%s() on non-empty container' % name, w, 'safety')
            front = name == 'pop_front' or (name == 'pop' and 'queue' in simple_type(n['inner'][0]['inner'][0]['type']))
            if 'bag' in v.c:
                self.bagfact(st, v, v.c['lo'] if front else v.c['hi'] - 1)
            self.write(st, lv, self.seq_pop(st, v, front))
            return None
        if name in ('push_back', 'push_front', 'push', 'emplace_back'):
            x = self.rv(args[0], st, fr)
            v = self.read(st, lv)
            if isinstance(x, PLv):
                raise Unsupported('container of pointers to locals')
            self.write(st, lv, self.seq_push(v, x, name == 'push_front'))
            return None
        if name == 'clear':
            self.write(st, lv, self.default_val(ty))
            return None
        if name in ('begin', 'cbegin'):
            return It(lv, v.c['lo'], ty)
        if name in ('end', 'cend'):
            return It(lv, v.c['hi'], ty)
        if name == 'at':
            i = toint(self.ev(args[0], st, fr))
            self.throw_if(st, fr, z3.Or(i < 0, i >= v.len), w)
            return LElem(lv, v.c['lo'] + i, ty.a)
        if name == 'erase':
            it = self.rv(args[0], st, fr)
            if len(args) == 2:
                it2 = self.rv(args[1], st, fr)
                if is_true(z3.And(it.pos == v.c['lo'], it2.pos == v.c['hi'])):
                    self.write(st, lv, self.default_val(ty))
                    return It(lv, z3.IntVal(0), ty)
                raise Unsupported('range erase')
            if self.safety:
                self.oblige(st, z3.And(v.c['lo'] <= it.pos, it.pos < v.c['hi']), 'erase of valid iterator', w, 'safety')
            if 'bag' in v.c:
                self.bagfact(st, v, it.pos)
            self.write(st, lv, self.seq_erase(st, v, it.pos))
            return It(lv, it.pos, ty)
        if name == 'insert' and len(args) == 2:
            it = self.rv(args[0], st, fr)
            x = self.rv(args[1], st, fr)
            self.write(st, lv, self.seq_insert(st, v, it.pos, x))
            return It(lv, it.pos, ty)
        if name in ('insert', 'assign') and len(args) in (2, 3):
            vals = [self.rv(x, st, fr) for x in args]
            if all(isinstance(x, It) and x.lv.ty.k == 'seq' for x in vals) and len(vals) == (3 if name == 'insert' else 2):
                v = self.read(st, lv)
                if name == 'insert':
                    if not is_true(vals[0].pos == v.c['hi']):
                        raise Unsupported('insert a range in the middle')
                    vals = vals[1:]
                else:
                    v = self.default_val(ty)
                self.write(st, lv, self.seq_append(st, v, self.read(st, vals[0].lv), vals[0].pos, vals[1].pos))
                return None
        if name in ('shrink_to_fit', 'reserve'):
            return None
        if name == 'resize' and len(args) >= 1:
            k = self.ev(args[0], st, fr)
            raise Unsupported('resize')
        raise Unsupported('sequence method %s' % name)

    def throw_if(self, st, fr, c, w):
        if is_false(c):
            return
        s = st.copy()
        s.pc.append(c)
        fr.thr.append((s, w))
        st.pc.append(z3.Not(c))

    def map_call(self, name, lv, args, st, fr, n):
        m = self.read(st, lv)
        ty = lv.ty
        w = self.where(n, fr)

        def keyarg(i=0):
            k = self.rv(args[i], st, fr)
            if isinstance(k, APtr):
                k = k.ref
            return self.coerce_sort(k, key_sort(ty.a))
        if name == 'size':
            return m.c['n']
        if name == 'empty':
            return m.c['n'] == 0
        if name == 'clear':
            self.write(st, lv, self.default_val(ty))
            return None
        if name in ('begin', 'cbegin'):
            return It(lv, z3.IntVal(0), ty)
        if name in ('end', 'cend'):
            return It(lv, m.c['n'], ty)
        if name == 'count':
            k = keyarg()
            return z3.If(m.has(k), z3.IntVal(1), z3.IntVal(0))
        if name == 'find':
            k = keyarg()
            self.map_fact(st, m, k)
            return It(lv, z3.If(m.has(k), z3.Select(m.c['pos'], k), m.c['n']), ty)
        if name == 'at':
            k = keyarg()
            self.map_fact(st, m, k)
            self.throw_if(st, fr, z3.Not(m.has(k)), w)
            return LMapV(lv, k, ty.b)
        if name in ('insert', 'emplace'):
            if ty.k == 'set':
                k = keyarg()
                m = self.read(st, lv)
                self.write(st, lv, self.map_add(st, m, k, None))
                return Opaque('insert result')
            if name == 'insert':
                p = self.rv(args[0], st, fr)
                if isinstance(p, It):
                    raise Unsupported('range insert')
                k, v = p.first, p.second
            else:
                k, v = self.rv(args[0], st, fr), self.rv(args[1], st, fr)
            m = self.read(st, lv)
            k = self.coerce_sort(k, key_sort(ty.a))
            self.map_fact(st, m, k)
            had = m.has(k)
            nm = self.map_add(st, m, k, v)
            nv = Cv(ty, {p: (m.c[p] if m.c[p].eq(nm.c[p]) else z3.If(had, m.c[p], nm.c[p])) for p in m.c})
            self.write(st, lv, nv)
            return InsRes(It(lv, z3.Select(nv.c['pos'], k), ty), z3.Not(had))
        if name == 'erase':
            k = self.rv(args[0], st, fr)
            if isinstance(k, It):
                key = self.map_key_at(st, m, k.pos)
                self.map_fact(st, m, key)
                self.write(st, lv, self.map_erase(st, m, key))
                return It(lv, k.pos, ty)
            k = self.coerce_sort(k, key_sort(ty.a))
            self.map_fact(st, m, k)
            self.write(st, lv, self.map_erase(st, m, k))
            return z3.If(m.has(k), z3.IntVal(1), z3.IntVal(0))
        if name == 'reserve':
            return None
        raise Unsupported('map method %s' % name)

    # ------------------------------------------------------------ library functions
    def f_printf(self, n, args, st, fr):
        return z3.IntVal(0)
    f_fprintf = f_fflush = f_srand = f_printf

    def f_to_string(self, n, args, st, fr):
        return self.fresh(I, 'str')
    f_stoi = f_getline = f_to_string

    def f_min(self, n, args, st, fr):
        x, y = (self.arith(self.rv(a, st, fr)) for a in args[:2])
        if x.sort() != y.sort():
            x, y = toreal(x), toreal(y)
        return z3.If(y < x, y, x)

    def f_max(self, n, args, st, fr):
        x, y = (self.arith(self.rv(a, st, fr)) for a in args[:2])
        if x.sort() != y.sort():
            x, y = toreal(x), toreal(y)
        return z3.If(x < y, y, x)
    f_fmin, f_fmax = f_min, f_max

    def f_floor(self, n, args, st, fr):
        return z3.ToReal(z3.ToInt(toreal(self.ev(args[0], st, fr))))

    def f_ceil(self, n, args, st, fr):
        return -z3.ToReal(z3.ToInt(-toreal(self.ev(args[0], st, fr))))

    def f_trunc(self, n, args, st, fr):
        return z3.ToReal(trunc(toreal(self.ev(args[0], st, fr))))

    def f_round(self, n, args, st, fr):
        x = toreal(self.ev(args[0], st, fr))
        return z3.If(x >= 0, z3.ToReal(z3.ToInt(x + z3.Q(1, 2))), -z3.ToReal(z3.ToInt(-x + z3.Q(1, 2))))

    def f_abs(self, n, args, st, fr):
        x = self.ev(args[0], st, fr)
        return z3.If(x < 0, -x, x)
    f_fabs = f_abs

    def f_rand(self, n, args, st, fr):
        r = self.fresh(I, 'rand')
        st.pc.append(z3.And(r >= 0, r <= 2147483647))
        return r

    def f_swap(self, n, args, st, fr):
        a, b = self._lv(args[0], st, fr), self._lv(args[1], st, fr)
        x, y = self.read(st, a), self.read(st, b)
        self.write(st, a, y)
        self.write(st, b, x)

    def f_move(self, n, args, st, fr):
        return self._lv(args[0], st, fr)
    f_forward = f_move

    def f_make_pair(self, n, args, st, fr):
        ty = parse(simple_type(n['type']))
        return self.mkpair(ty, self.rv(args[0], st, fr), self.rv(args[1], st, fr))

    def f_shuffle(self, n, args, st, fr):
        a, b = self.rv(args[0], st, fr), self.rv(args[1], st, fr)
        v = self.read(st, a.lv)
        nv = self.permuted(st, v, a.pos, b.pos)
        self.write(st, a.lv, nv)
    f_random_shuffle = f_shuffle

    def f_distance(self, n, args, st, fr):
        a, b = self.rv(args[0], st, fr), self.rv(args[1], st, fr)
        return b.pos - a.pos

    def f_max_element(self, n, args, st, fr):
        return self.extreme(n, args, st, fr, lambda a, b: a <= b)

    def f_min_element(self, n, args, st, fr):
        return self.extreme(n, args, st, fr, lambda a, b: a >= b)

    def extreme(self, n, args, st, fr, le):
        a, b = self.rv(args[0], st, fr), self.rv(args[1], st, fr)
        if len(args) > 2:
            raise Unsupported('comparator')
        v = self.read(st, a.lv)
        p = self.fresh(I, 'ext')
        j = z3.Int('xe!j')
        st.pc.append(z3.If(a.pos < b.pos, z3.And(a.pos <= p, p < b.pos), p == b.pos))
        st.pc.append(z3.ForAll([j], z3.Implies(z3.And(a.pos <= j, j < b.pos), le(v.raw(j), v.raw(p))), patterns=[v.raw(j)]))
        return It(a.lv, p, a.ty)

    def f_find(self, n, args, st, fr):
        a, b = self.rv(args[0], st, fr), self.rv(args[1], st, fr)
        x = self.rv(args[2], st, fr)
        v = self.read(st, a.lv)
        p = self.fresh(I, 'find')
        j = z3.Int('fd!j')
        st.pc.append(z3.And(a.pos <= p, p <= b.pos))
        st.pc.append(z3.Implies(p < b.pos, v.raw(p) == x))
        st.pc.append(z3.ForAll([j], z3.Implies(z3.And(a.pos <= j, j < p), v.raw(j) != x), patterns=[v.raw(j)]))
        return It(a.lv, p, a.ty)

    def f_lower_bound(self, n, args, st, fr):
        a, b = self.rv(args[0], st, fr), self.rv(args[1], st, fr)
        x = self.rv(args[2], st, fr)
        lam = self.rv(args[3], st, fr) if len(args) > 3 else None
        v = self.read(st, a.lv)
        p = self.fresh(I, 'lb')
        j = z3.Int('lb!j!%d' % next(self.cnt))

        def less(e):
            if lam is None:
                return e < x
            s = st.copy()
            base = len(s.pc)
            r = tobool(self.apply_lambda(lam, [e, x], s))
            if len(s.pc) != base:
                # facts from evaluation are definitional only if quantifier-free of merges; be strict
                raise Unsupported('lower_bound comparator with side conditions')
            return r
        st.pc.append(z3.And(a.pos <= p, p <= b.pos))
        # contract of std::lower_bound on a range partitioned w.r.t. comp
        pat = v.raw(j)
        pt = pat if z3.is_expr(pat) else list(pat.c.values())[0]
        part = z3.ForAll([j], z3.Implies(z3.And(a.pos <= j, j < p), less(v.raw(j))), patterns=[pt])
        part2 = z3.ForAll([j], z3.Implies(z3.And(p <= j, j < b.pos), z3.Not(less(v.raw(j)))), patterns=[pt])
        # partitioned-range precondition is an obligation
        i1, i2 = z3.Int('lb!a'), z3.Int('lb!b')
        pre = z3.ForAll([i1, i2], z3.Implies(z3.And(a.pos <= i1, i1 < i2, i2 < b.pos, less(v.raw(i2))), less(v.raw(i1))))
        if self.safety:
            self.oblige(st, pre, 'std::lower_bound range is partitioned', self.where(n, fr), 'safety')
        st.pc.append(part)
        st.pc.append(part2)
        # instances at the boundary
        st.pc.append(z3.Implies(p < b.pos, z3.Not(less(v.raw(p)))))
        st.pc.append(z3.Implies(p > a.pos, less(v.raw(p - 1))))
        return It(a.lv, p, a.ty)

    def f_sort(self, n, args, st, fr):
        """std::sort over a whole container: same length, same multiset, ordered by the comparator"""
        a, b = self.rv(args[0], st, fr), self.rv(args[1], st, fr)
        lam = self.rv(args[2], st, fr) if len(args) > 2 else None
        v = self.read(st, a.lv)
        c = dict(v.c)
        for p in list(c):
            if p == 'e' or p.startswith('e.'):
                c[p] = self.fresh(c[p].sort(), 'sorted')
        nv = Cv(v.ty, c)
        i1, i2 = z3.Int('so!a'), z3.Int('so!b')
        whole = z3.And(a.pos == v.c['lo'], b.pos == v.c['hi'])
        self.oblige(st, whole, 'sort of a whole container (model limit)', self.where(n, fr), 'model')
        if lam is None or isinstance(lam, (Lam, FnRef)):
            def less(x, y):
                if lam is None:
                    return x < y
                s = st.copy()
                base = len(s.pc)
                if isinstance(lam, FnRef):
                    r = tobool(self.invoke(lam.fn, None, None, [], s, fr, n, argvals=[x, y]))
                else:
                    r = tobool(self.apply_lambda(lam, [x, y], s))
                if len(s.pc) != base:
                    raise Unsupported('sort comparator with side conditions')
                return r
            st.pc.append(z3.ForAll([i1, i2], z3.Implies(z3.And(a.pos <= i1, i1 < i2, i2 < b.pos),
                                                        z3.Not(less(nv.raw(i2), nv.raw(i1))))))
        self.write(st, a.lv, nv)
        return None

    def f_back_inserter(self, n, args, st, fr):
        lv = self._lv(args[0], st, fr)
        if lv.ty.k != 'seq':
            raise Unsupported('back_inserter')
        return BackIns(lv)

    def f_copy(self, n, args, st, fr):
        a, b, d = self.rv(args[0], st, fr), self.rv(args[1], st, fr), self.rv(args[2], st, fr)
        if not isinstance(d, BackIns) or not isinstance(a, It) or a.lv.ty.k != 'seq':
            raise Unsupported('std::copy')
        self.write(st, d.lv, self.seq_append(st, self.read(st, d.lv), self.read(st, a.lv), a.pos, b.pos))
        return d

    def f_accumulate(self, n, args, st, fr):
        raise Unsupported('accumulate')

    def f_sqrt(self, n, args, st, fr):
        x = toreal(self.ev(args[0], st, fr))
        r = self.fresh(R, 'sqrt')
        st.pc.append(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
        return r

    def f_pow(self, n, args, st, fr):
        x = toreal(self.ev(args[0], st, fr))
        y = toreal(self.ev(args[1], st, fr))
        f = z3.Function('pow', R, R, R)
        return f(x, y)

    def f_exp(self, n, args, st, fr):
        f = z3.Function('exp', R, R)
        x = toreal(self.ev(args[0], st, fr))
        st.pc.append(f(x) > 0)
        return f(x)

    def f_isnan(self, n, args, st, fr):
        self.ev(args[0], st, fr)
        return z3.BoolVal(False)
    f_isinf = f_isnan

    # graph API hooks (specs install axioms)
    def graph_call(self, name, lv, args, st, fr, n):
        h = self.builtins.get('graph.' + name)
        if h:
            return h(self, lv, args, st, fr)
        raise Unsupported('graph method %s' % name)

    def graph_op(self, name, v, args, st, fr):
        raise Unsupported('graph op %s' % name)

    def graph_range(self, gv, ikey, vkey, vty, node, body, st, fr):
        h = self.builtins.get('graph_range')
        if h:
            return h(self, gv, ikey, vkey, vty, node, body, st, fr)
        raise Unsupported('graph range')


class InsRes:
    """result of map.insert: pair<iterator,bool>"""

    def __init__(self, it, ok):
        self.it, self.ok = it, ok
        self.ty = Ty('opaque', name='insres')


class LMapEntry:
    """*it for a map iterator: pair<const K, V>"""
    __slots__ = ('base', 'key', 'ty')

    def __init__(self, base, key, ty):
        self.base, self.key, self.ty = base, key, ty

    def same(self, o):
        return isinstance(o, LMapEntry) and self.base.same(o.base) and self.key.eq(o.key)


_old_read = Engine.read


def _read(self, st, lv):
    if isinstance(lv, LMapEntry):
        return self.read_entry(st, lv.base, lv.key, lv.ty)
    return _old_read(self, st, lv)


Engine.read = _read


class BackIns:
    """std::back_inserter"""

    def __init__(self, lv):
        self.lv = lv


class CallCtx:
    """what a callee contract sees at a call site"""

    def __init__(self, eng, st, fr, this, args, node, qual):
        self.eng, self.st, self.fr, self.this, self.args, self.node, self.qual = eng, st, fr, this, args, node, qual

    def arg(self, i):
        a = self.args[i]
        return self.eng.read(self.st, a) if hasattr(a, 'same') else a

    def real(self, i):
        return self.eng.coerce_sort(self.arg(i), R)

    def boolean(self, i, default=None):
        if default is not None and i >= len(self.args):
            return z3.BoolVal(default)
        return self.eng.coerce_sort(self.arg(i), B)

    @property
    def where(self):
        return self.eng.where(self.node, self.fr)

    def requires(self, f, name):
        self.eng.oblige(self.st, f, 'precondition of %s: %s' % (self.qual, name), self.where, 'call-pre')

    def assume(self, f):
        self.st.pc.append(f)

    def may_throw(self, c):
        self.eng.throw_if(self.st, self.fr, c, self.where)

    def havoc_heap(self, name):
        """forget a field of every object"""
        if name.startswith('$arr:'):
            keys = [(name, z3.ArraySort(I, R if name == '$arr:real' else I))]
        else:
            ty = self.eng.fty(name)
            keys = [(name, scalar_sort(ty))] if scalar_sort(ty) is not None else [(name + '~' + p, so) for p, so in flatten(ty)]
        for k, so in keys:
            h = self.eng.heap_get(self.st, k, so)
            self.st.heap[k] = self.eng.fresh(h.sort(), 'frame_' + k)
            for w in self.eng.wlog:
                w.setdefault(k, []).append(self.eng.fresh(I, 'any'))

    def havoc_field(self, ref, name, ty):
        v = self.eng.fresh_val(ty, 'post_' + name)
        self.eng.write(self.st, LField(ref, name, ty), v)
        self.eng.wf(self.st, v)
        return v


class LoopCtx:
    def __init__(self, eng, entry, havoc, point, fr, where, lname):
        self.eng, self.entry, self.havoc, self.point, self.fr, self.where, self.lname = eng, entry, havoc, point, fr, where, lname

    def base_terms(self):
        """integer locals / iterator positions modified by the loop"""
        out = []
        for kind, k in sorted(self.havoc, key=str):
            if kind == 'L':
                v = self.entry.loc.get(k)
                nm = self.lname.get(k, str(k))
                if z3.is_expr(v) and v.sort() == I:
                    if k in self.eng.ptrlocals:
                        continue
                    out.append((nm, lambda s, k=k: s.loc[k]))
                elif isinstance(v, It):
                    out.append((nm + '.pos', lambda s, k=k: s.loc[k].pos))
        return out

    def index_terms(self):
        """base_terms, and, where no local counts the iterations from 0, other ways to count them"""
        base = self.base_terms()
        out, plain = list(base), False
        e = self.entry
        for nm, get in base:
            if nm.endswith('.pos'):
                plain = True
                continue
            v = z3.simplify(get(e))
            if z3.is_int_value(v):
                if v.as_long() == 0:
                    plain = True
                else:
                    out.append((nm + ' from 0', lambda s, get=get, v=v: get(s) - v))
        if not plain:
            for nm, get in base:
                if not nm.endswith('.pos') and not z3.is_int_value(z3.simplify(get(e))):
                    v = get(e)
                    out.append((nm + ' down', lambda s, get=get, v=v: v - get(s)))
            if not base:
                for kind, k in sorted(self.havoc, key=str):
                    if kind == 'H' and k.endswith('~lo'):
                        for i, r in enumerate(self.point.get(k) or []):
                            v = z3.Select(self.eng.heap_get(e, k, I), r)
                            out.append(('popped %s#%d' % (k[:-3], i), lambda s, k=k, r=r, v=v: z3.Select(self.eng.heap_get(s, k, I), r) - v))
        return out

    def len_terms(self):
        """lengths of sequences modified by the loop (locals, and pointwise-written fields)"""
        out = []
        e = self.entry
        for kind, k in sorted(self.havoc, key=str):
            if kind == 'L':
                v = e.loc.get(k)
                if isinstance(v, Cv) and v.ty.k == 'seq':
                    out.append(('|%s|' % self.lname.get(k, '?'), lambda s, k=k: s.loc[k].c['hi'] - s.loc[k].c['lo']))
        fields = set()
        for kind, k in self.havoc:
            if kind == 'H' and (k.endswith('~lo') or k.endswith('~hi')):
                fields.add(k[:-3])
        for f in sorted(fields):
            refs = []
            for sfx in ('~lo', '~hi'):
                p = self.point.get(f + sfx)
                if p:
                    for r in p:
                        if not any(r.eq(x) for x in refs):
                            refs.append(r)
            for i, r in enumerate(refs):
                def ln(s, f=f, r=r):
                    lo = self.eng.heap_get(s, f + '~lo', I)
                    hi = self.eng.heap_get(s, f + '~hi', I)
                    return z3.Select(hi, r) - z3.Select(lo, r)
                out.append(('|%s#%d|' % (f, i), ln))
        return out
