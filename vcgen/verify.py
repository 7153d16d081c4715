"""Run one function contract: generate the obligations from the real body, discharge them."""
import os, subprocess, tempfile, time, traceback
import z3
from .cast import Program, ExtractionError, simple_type
from .ctypes_ import parse, Ty, INT, BOOL, REAL
from . import engine as E
from .engine import (Engine, State, Frame, Out, Cv, LField, LVar, LTemp, Unsupported, Infeasible, scalar_sort, I, R, B,
                     flatten, CallCtx, APtr, PLv, GView)

PROG = None


def program():
    global PROG
    if PROG is None:
        PROG = Program()
    return PROG


class Ctx:
    """what a contract's requires/ensures see"""

    def __init__(self, eng, st, this, args):
        self.eng, self.st, self.this, self.args = eng, st, this, args
        self.old = None
        self.result = None

    def fld(self, ref, name, st=None):
        ty = self.eng.fty(name)
        return self.eng.read(st if st is not None else self.st, LField(ref, name, ty))

    def ofld(self, ref, name):
        ty = self.eng.fty(name)
        return self.eng.read(self.old, LField(ref, name, ty))


def fty(self, name):
    if name in self.fieldty:
        return self.fieldty[name]
    cls, f = name.split('::')
    c = self.prog.get_cls(cls)
    if c is None or f not in c.fields:
        raise ExtractionError('field %s not found' % name)
    t = parse(c.fields[f][0])
    self.fieldty[name] = t
    return t


Engine.fty = fty


def F(eng, st, ref, name):
    """read a field in a state (no facts are added to st when used from invariants)"""
    n = len(st.pc)
    v = eng.read(st, LField(ref, name, eng.fty(name)))
    del st.pc[n:]
    return v


class Contract:
    """A function contract.  Subclasses / instances give requires, ensures, candidate invariants."""
    cls_dyn = None
    sig = None
    nparams = None
    pnames = None           # our names of the parameters, by position
    veh_fields = ()
    total = False
    alloc = False
    throws = 'allowed'      # 'allowed' | 'never' (throwing under the precondition is a violation) | callable
    timeout = 20
    frame_preds = ()
    dispatch = {}
    safety = True
    budget = 240
    modifies = None         # set of fields the function may write (None: not checked)

    def __init__(self, name, qual, file, **kw):
        self.name, self.qual, self.file = name, qual, file
        for k, v in kw.items():
            setattr(self, k, v)

    def requires(self, c):
        return []

    def ensures(self, c):
        return []

    def invs(self, c):
        return None

    def idx_invs(self, c):
        return None

    def elem_bounds(self, c):
        return []

    def contracts(self):
        return {}

    def lemmas(self):
        """closed formulas the property needs on top of the postconditions, proved as obligations of their own"""
        return []

    def prepare(self, eng):
        pass

    def init_ghost(self, eng, st):
        pass

    def throw_ensures(self, c):
        return []


class Result:
    def __init__(self, contract):
        self.contract = contract
        self.status = None        # proved / failed / unsupported / error
        self.obligs = []
        self.msg = ''
        self.time = 0.0
        self.stats = {}
        self.fns = set()
        self.loops = []

    def summary(self):
        n = len(self.obligs)
        ok = sum(1 for o in self.obligs if o['result'] == 'valid')
        return '%s: %s (%d/%d obligations, %.1fs) %s' % (self.contract, self.status, ok, n, self.time, self.msg)


def smt2(axioms, pc, goal):
    s = z3.Solver()
    s.add(*axioms)
    s.add(*pc)
    s.add(E.neg(goal))
    return s.to_smt2()


def run_ext(cmd, txt, tmo):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
        p = f.name
    try:
        r = subprocess.run(cmd + [p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=tmo + 5)
        out = r.stdout.decode().strip().split('\n')[0]
    except subprocess.TimeoutExpired:
        out = 'timeout'
    finally:
        os.unlink(p)
    return out


def discharge(eng, o, tmo):
    """returns 'valid' | 'refuted' | 'unknown' | 'timeout'"""
    t0 = time.time()
    reasons = []
    if z3.is_false(o.goal) is False and z3.is_true(z3.simplify(o.goal)):
        o.result, o.solver, o.time = 'valid', 'simplifier', 0.0
        return
    for mk, ms in ((z3.SimpleSolver, tmo * 500), (z3.Solver, tmo * 500)):
        s = mk()
        s.set('timeout', int(ms))
        s.add(*eng.axioms)
        s.add(*o.pc)
        s.add(E.neg(o.goal))
        r = s.check()
        if r == z3.unsat:
            o.result, o.solver, o.time = 'valid', 'z3', time.time() - t0
            return
        if r == z3.sat:
            o.result, o.solver, o.time = 'refuted', 'z3', time.time() - t0
            try:
                o.model = s.model()
            except z3.Z3Exception:
                pass
            return
        reasons.append(s.reason_unknown())
    txt = '(set-logic ALL)\n' + smt2(eng.axioms, o.pc, o.goal)
    out = run_ext(['cvc5', '--tlimit=%d' % (tmo * 1000)], txt, tmo)
    if out == 'unsat':
        o.result, o.solver, o.time = 'valid', 'cvc5', time.time() - t0
        return
    if out == 'sat':
        o.result, o.solver, o.time = 'refuted', 'cvc5', time.time() - t0
        return
    reasons.append(out)
    out = run_ext(['z3-new', '-T:%d' % tmo], smt2(eng.axioms, o.pc, o.goal), tmo)
    if out == 'unsat':
        o.result, o.solver, o.time = 'valid', 'z3-new', time.time() - t0
        return
    o.time = time.time() - t0
    o.solver = 'z3,cvc5,z3-new: ' + '; '.join(reasons)
    o.result = 'timeout' if any('timeout' in x or 'canceled' in x for x in reasons[:2]) else 'unknown'


def verify(ct, verbose=False, attempt=0):
    res = Result(ct.name)
    t0 = time.time()
    E._const_cache.clear()
    try:
        prog = program()
        f = prog.lookup(ct.qual, ct.file, ct.sig, ct.nparams)
        eng = Engine(prog)
        eng.callstack = [f.mangled]
        eng.deadline = t0 + ct.budget
        eng.veh_fields = set(ct.veh_fields)
        eng.dispatch = dict(ct.dispatch)
        eng.safety = ct.safety
        eng.idx_heap_only = getattr(ct, 'idx_heap_only', False)
        eng.uf_mul = getattr(ct, 'uf_mul', False)
        eng.mbqi = bool(attempt) or getattr(ct, 'mbqi', False)
        if eng.uf_mul:
            mx, my = z3.Ints('mul!x mul!y')
            eng.axioms.append(z3.ForAll([mx, my], E.IMUL(mx, my) == E.IMUL(my, mx), patterns=[E.IMUL(mx, my)]))
        eng.name_nl = getattr(ct, 'name_nl', False)
        eng.uf_div = getattr(ct, 'uf_div', False)
        eng.isa = set(getattr(ct, 'isa', ()))
        if getattr(ct, 'rlimit', None):
            eng.rlimit = ct.rlimit
        eng.retry = bool(attempt) or getattr(ct, 'retry', True)
        if attempt:
            eng.rlimit *= 2
            eng.weak_rlimit *= 2
            eng.seed = 7 * attempt
        eng.contracts = dict(ct.contracts())
        eng.contracts.pop(ct.qual, None)
        eng.frame_preds = list(ct.frame_preds)
        st = State()
        if ct.total:
            eng.gv = z3.Int('gv')
            st.ghost['Total'] = z3.Int('Total0')
        if ct.alloc:
            st.ghost['alloc'] = z3.Int('alloc0')
        this = z3.Int('this') if f.cls and not f.static else None
        if this is not None:
            st.pc.append(this > 0)
        ct.prepare(eng)
        ct.init_ghost(eng, st)
        args = []
        fr = Frame(f, f.tu, this, ct.cls_dyn or f.cls, 0)
        eng.localname = {}
        for p in f.params:
            ty = parse(simple_type(p['type']))
            key = (f.tu.fname, p['id'])
            nm = p.get('name', 'arg')
            eng.localname[key] = nm
            t = ty.a if ty.k == 'ref' else ty
            custom = ct.make_arg(eng, st, nm, ty) if hasattr(ct, 'make_arg') else None
            if custom is not None:
                st.loc[key] = custom
                args.append(custom)
                continue
            if ty.k == 'ref':
                if t.k == 'cls':
                    v = z3.Int('arg_' + nm)
                    st.loc[key] = LTemp(v, t)
                    args.append(v)
                else:
                    okey = ('ext', nm)
                    v = named_val(t, 'arg_' + nm)
                    st.loc[okey] = v
                    eng.wf(st, v)
                    st.loc[key] = LVar(okey, t)
                    args.append(LVar(okey, t))
            elif ty.k == 'ptr' and ty.a.k in ('seq', 'map', 'set'):
                v = z3.Int('arg_' + nm)
                st.loc[key] = v
                args.append(v)
            elif ty.k == 'ptr' and scalar_sort(ty.a) is not None and ty.a.k in ('real', 'int', 'bool', 'ptr', 'uint'):
                v = APtr(z3.Int('arg_' + nm), z3.IntVal(0), ty.a)
                st.loc[key] = v
                args.append(v)
            else:
                v = named_val(t, 'arg_' + nm)
                st.loc[key] = v
                eng.wf(st, v)
                args.append(v)
        ctx = Ctx(eng, st, this, args)
        ctx.args0 = list(args)
        ctx.names = list(ct.pnames) if ct.pnames else [p.get('name') for p in f.params]
        ctx.fn = f
        for x in ct.requires(ctx):
            st.pc.append(x)
        old = st.copy()
        eng.old = old
        ctx.old = old
        eng.ctx = ctx
        # vacuity guard: the precondition must be satisfiable
        s = z3.SimpleSolver()
        s.set('timeout', 3000)
        s.add(*eng.axioms)
        s.add(*st.pc)
        if s.check() == z3.unsat:
            res.status, res.msg = 'error', 'precondition is contradictory'
            return res

        def inv_gen(lc):
            r = list(ct.invs(ctx) or [])
            if hasattr(ct, 'loop_invs'):
                r += ct.loop_invs(ctx, lc)
            return [(n, (lambda s, g=g: g(s))) for n, g in (r or [])]

        def idx_gen(lc, get):
            r = ct.idx_invs(ctx)
            return [(n, (lambda s, g=g: g(s, get(s)))) for n, g in (r or [])]
        eng.elem_bounds = ct.elem_bounds(ctx)
        eng.inv_fns = [inv_gen]
        eng.idx_inv_fns = [idx_gen]
        if f.kind == 'CXXConstructorDecl':
            o = eng.ctor_body(f, st, fr)
        else:
            o = eng.exec(f.body, st, fr)
        rets = list(o.ret)
        if o.normal is not None:
            rets.append((o.normal, None))
        isref = f.rettype.endswith('&')
        for s_, v in rets:
            if v is not None:
                if hasattr(v, 'same') and not isref:
                    v = eng.read(s_, v)
                s_.loc['$ret'] = v
        if rets:
            m = eng.merge([s_ for s_, _ in rets])
            ctx.st = m
            v = m.loc.get('$ret')
            if z3.is_expr(v):
                rty = parse(f.rettype)
                if scalar_sort(rty) is not None and v.sort() != scalar_sort(rty):
                    v = eng.coerce_sort(v, scalar_sort(rty))
            ctx.result = v
            # vacuity guard: the normal exit must be reachable
            s = z3.SimpleSolver()
            s.set('timeout', 3000)
            s.add(*eng.axioms)
            s.add(*m.pc)
            res.exit_reach = str(s.check())
            if ct.modifies is not None:
                for k, v in sorted(m.heap.items()):
                    if k.split('~')[0] in ct.modifies:
                        continue
                    o0 = old.heap.get(k)
                    if o0 is None:
                        o0 = z3.Const('H0_' + k, v.sort())
                    if not o0.eq(v):
                        eng.oblige(m, v == o0, 'frame: %s not modified' % k, ct.qual, 'frame')
            for nm, g in ct.ensures(ctx):
                eng.oblige(m, g, nm, ct.qual, 'post')
            if res.exit_reach == 'unsat' and not getattr(ct, 'exit_unreachable_ok', False):
                eng.oblige(State(), z3.BoolVal(False), 'normal exit reachable under the precondition', ct.qual, 'vacuity')
        elif not getattr(ct, 'must_throw', False):
            eng.oblige(State(), z3.BoolVal(False), 'function has a normal exit', ct.qual, 'vacuity')
        if ct.throws == 'never':
            for s_, w in o.thr:
                eng.oblige(s_, z3.BoolVal(False), 'no exception under the precondition', w, 'throw')
        elif ct.throws == 'checked':
            for s_, w in o.thr:
                c2 = Ctx(eng, s_, this, args)
                c2.old = old
                c2.names = ctx.names
                for nm, g in ct.throw_ensures(c2):
                    eng.oblige(s_, g, nm, w, 'throw')
        for nm, g in ct.lemmas():
            eng.oblige(State(), g, nm, ct.qual, 'lemma')
        res.fns = {ct.qual} | eng.fn_used
        res.loops = eng.loop_reports
        res.stats = dict(eng.stats)
        bad = None
        slow = 0
        for ob in eng.obligs:
            if ob.result is None:
                if slow >= 3 or time.time() > eng.deadline:     # enough open obligations to decide
                    ob.result, ob.solver = 'not tried', ''
                else:
                    discharge(eng, ob, ct.timeout)
                    slow += ob.result in ('timeout', 'unknown')
            d = dict(name=ob.name, where=ob.where, kind=ob.kind, result=ob.result, solver=ob.solver, time=round(ob.time, 3))
            if ob.result != 'valid':
                d['goal'] = str(ob.goal)[:1500]
                if ob.model is not None:
                    d['model'] = model_text(ob.model)
                    d['values'] = model_values(ob.model)
            res.obligs.append(d)
            if verbose and ob.result != 'valid':
                print('   FAILED', d['name'], d['where'], d['result'], d['solver'], d['goal'][:300])
        bads = [d for d in res.obligs if d['result'] != 'valid']
        if not res.obligs:
            res.status, res.msg = 'error', 'no obligations generated'
        elif not bads:
            res.status = 'proved'
        elif any(d['result'] in ('refuted', 'unknown') for d in bads):
            res.status = 'failed'
        else:
            res.status = 'timeout'
    except (Unsupported, ExtractionError) as e:
        verbose = verbose and E.DEBUG
        res.status, res.msg = 'unsupported', '%s: %s' % (type(e).__name__, e)
        if verbose:
            traceback.print_exc()
    except TimeoutError as e:
        res.status, res.msg = 'timeout', str(e)
    except (Infeasible, z3.Z3Exception, KeyError, AttributeError, TypeError, IndexError, ValueError, RecursionError) as e:
        res.status, res.msg = 'unsupported', 'internal %s: %s' % (type(e).__name__, e)
        if verbose:
            traceback.print_exc()
    finally:
        res.time = time.time() - t0
    return res


def named_val(ty, nm):
    s = scalar_sort(ty)
    if s is not None:
        return z3.Const(nm, s)
    return Cv(ty, {p: z3.Const(nm + '.' + p, so) for p, so in flatten(ty)})


def model_text(m, n=60):
    out = []
    for d in m.decls()[:400]:
        nm = d.name()
        if d.arity() == 0 and ('arg_' in nm or nm in ('this', 'gv')):
            out.append('%s = %s' % (nm, m[d]))
    for d in m.decls()[:400]:
        nm = d.name()
        if nm.startswith('H0_') and len(out) < n:
            out.append('%s = %s' % (nm, str(m[d])[:200]))
    return out


def model_values(m):
    v = {}
    for d in m.decls():
        if d.arity() == 0 and d.name().startswith('arg_'):
            x = m[d]
            if z3.is_int_value(x):
                v[d.name()[4:]] = x.as_long()
            elif z3.is_rational_value(x):
                v[d.name()[4:]] = float(x.numerator_as_long()) / float(x.denominator_as_long())
    return v
