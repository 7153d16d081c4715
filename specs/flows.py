"""C11: what the cumulative curves record is what the nodes move (dnode.cpp)."""
import z3
from vcgen.verify import Contract, F
from vcgen.engine import Cv, It, RDIV, IMUL, LField
from .common import *
from .nodes import FIN, INC, harr, supply_of, pure_supply

NODE = 'MNM_Dnode::'
IO = 'MNM_Dnode_Inout::'
TOMOVE = IO + 'm_veh_tomove'
SCALAR = NODE + 'm_flow_scalar'
gi, gj = z3.Ints('gi gj')                        # an arbitrary in-link and an arbitrary out-link of the node
AI = z3.ArraySort(I, I)
ROW = z3.Function('row_sum', AI, I, I, I, I)     # ghost: sum of a[i*off + j] over j < k   (a, off, i, k)
COL = z3.Function('column_sum', AI, I, I, I, I)  # ghost: sum of a[i*off + j] over i < k   (a, off, j, k)
SUMC = z3.Function('sum_in_order', AI, I, AI, I, I, I)   # ghost: sum of a[x*off + gj] over the entries x of an index sequence (a, off, e, lo, hi)
CNTC = z3.Function('count_in_order', AI, I, I, I)        # ghost: how often gi is in it (e, lo, hi)
AT = z3.Function('unfold_at', I, B)        # always true; makes the sums below unfold at the current index only
inpos = z3.Function('inpos', I, I)
outpos = z3.Function('outpos', I, I)
curve_of = z3.Function('curve_of', I, I)         # ghost: the link a curve belongs to
curve_kind = z3.Function('curve_kind', I, I)     # ghost: 0 entry, 1 exit


def links(c, st, which):
    return F(c.eng, st, c.this, NODE + 'm_%s_link_array' % which)


def tomove(c, st):
    r = F(c.eng, st, c.this, TOMOVE)
    r = getattr(r, 'ref', r)
    return z3.Select(c.eng.heap_get(st, '$arr:int', AI), r)


def sums(a, off):
    """definition of row and column sums of the plan a (the index expression is the one of a row-major matrix)"""
    i, j, k = z3.Ints('si sj sk')
    return [FA([i], ROW(a, off, i, 0) == 0, [ROW(a, off, i, 0)]), FA([j], COL(a, off, j, 0) == 0, [COL(a, off, j, 0)]),
            FA([i, k], z3.Implies(k >= 0, ROW(a, off, i, k + 1) == ROW(a, off, i, k) + z3.Select(a, IMUL(i, off) + k)), [z3.MultiPattern(ROW(a, off, i, k), AT(k))]),
            FA([j, k], z3.Implies(k >= 0, COL(a, off, j, k + 1) == COL(a, off, j, k) + z3.Select(a, IMUL(k, off) + j)), [z3.MultiPattern(COL(a, off, j, k), AT(k))]), FA([k], AT(k), [AT(k)])]


def distinct_links(c):
    i = z3.Int('dl')
    x, y = links(c, c.st, 'in'), links(c, c.st, 'out')
    return [fa_range(i, 0, x.len, z3.And(x.at(i) > 0, inpos(x.at(i)) == i), [x.at(i)]),
            fa_range(i, 0, y.len, z3.And(y.at(i) > 0, outpos(y.at(i)) == i), [y.at(i)])]


def own_curves(c):
    l = z3.Int('cl')
    ni, no = harr(c, c.st, 'MNM_Dlink::m_N_in', I), harr(c, c.st, 'MNM_Dlink::m_N_out', I)
    a, b = z3.Select(ni, l), z3.Select(no, l)
    return [FA([l], z3.And((a != 0) == (b != 0), z3.Implies(a != 0, z3.And(curve_of(a) == l, curve_kind(a) == 0))), [a]),
            FA([l], z3.And((a != 0) == (b != 0), z3.Implies(b != 0, z3.And(curve_of(b) == l, curve_kind(b) == 1))), [b])]


def add_increment(self):
    def f(cc):
        a = cc.arg(0)
        cc.requires(a.c['first'] == z3.ToReal(self.stamp(cc.eng.ctx)) + 1, 'recorded for the end of the interval')
        cc.may_throw(cc.eng.fresh(B, 'refused'))
        n = cc.st.ghost['inc']
        cc.st.ghost['inc'] = z3.Store(n, cc.this, z3.Select(n, cc.this) + a.c['second'])
        cc.havoc_field(cc.this, 'MNM_Cumulative_Curve::m_recorder', cc.eng.fty('MNM_Cumulative_Curve::m_recorder'))
        return z3.IntVal(0)
    return f


class Flows(Contract):
    safety = False
    uf_div = True
    uf_mul = True
    pnames = ('timestamp',)

    def stamp(self, c):
        return dict(zip(c.names, c.args0))['timestamp']

    def init_ghost(self, eng, st):
        st.ghost['inc'] = z3.K(I, z3.RealVal(0))

    def contracts(self):
        def add_flow(cc):
            cc.may_throw(cc.eng.fresh(B, 'throws'))
            cc.havoc_heap('MNM_Cumulative_Curve::m_recorder')
            return z3.IntVal(0)

        def miles(cc):
            cc.havoc_field(cc.this, 'MNM_Veh::m_miles_traveled', cc.eng.fty('MNM_Veh::m_miles_traveled'))
            return z3.IntVal(0)
        return {'MNM_Cumulative_Curve::add_increment': add_increment(self), 'MNM_Dlink::get_link_supply': pure_supply,
                'MNM_Tree_Cumulative_Curve::add_flow': add_flow, 'MNM_Veh::update_miles_traveled': miles}

    def vals(self, c):
        """(in-link, out-link, sizes) before the step"""
        x, y = links(c, c.old or c.st, 'in'), links(c, c.old or c.st, 'out')
        return x, y, x.at(gi), y.at(gj), x.len, y.len

    def inrange(self, c):
        x, y, L, O, n, m = self.vals(c)
        return [0 <= gi, gi < n, 0 <= gj, gj < m]

    def inc(self, s, cv):
        return z3.Select(s.ghost['inc'], cv)

    def curve(self, c, l, which):
        return F(c.eng, c.old or c.st, l, 'MNM_Dlink::m_N_' + which)

    def share(self, c, n):
        return z3.If(n > 0, RDIV(z3.ToReal(n), F(c.eng, c.old or c.st, c.this, SCALAR)), 0)


class Record(Flows):
    """the curves of an arbitrary in-link and out-link grow by the row and column sum of the plan / flow scalar"""
    modifies = {'MNM_Cumulative_Curve::m_recorder'}

    def requires(self, c):
        a = tomove(c, c.st)
        return distinct_links(c) + own_curves(c) + sums(a, links(c, c.st, 'out').len) + self.inrange(c)

    def want(self, c):
        x, y, L, O, n, m = self.vals(c)
        a = tomove(c, c.old)
        return self.share(c, COL(a, m, gj, n)), self.share(c, ROW(a, m, gi, m))

    def ensures(self, c):
        x, y, L, O, n, m = self.vals(c)
        wi, wo = self.want(c)
        ci, co = self.curve(c, O, 'in'), self.curve(c, L, 'out')
        return [('the entry curve of an out-link grows by the vehicles planned to enter it', z3.Implies(ci != 0, self.inc(c.st, ci) == wi)),
                ('the exit curve of an in-link grows by the vehicles planned to leave it', z3.Implies(co != 0, self.inc(c.st, co) == wo)),
                ('its entry curve is not touched unless it is an out-link', z3.Implies(z3.And(self.curve(c, L, 'in') != 0, z3.Not(z3.And(0 <= outpos(L), outpos(L) < m, y.at(outpos(L)) == L))), self.inc(c.st, self.curve(c, L, 'in')) == 0))]

    def loop_invs(self, c, lc):
        x, y, L, O, n, m = self.vals(c)
        a = tomove(c, c.old)
        wi, wo = self.want(c)
        ci, co, li = self.curve(c, O, 'in'), self.curve(c, L, 'out'), self.curve(c, L, 'in')
        e = lc.entry
        g = self.inc
        out = [('in same', lambda s: g(s, ci) == g(e, ci)), ('out same', lambda s: g(s, co) == g(e, co)),
               ('own in', lambda s: z3.Implies(z3.And(li != 0, z3.Not(z3.And(0 <= outpos(L), outpos(L) < m, y.at(outpos(L)) == L))), g(s, li) == 0))]
        consts = [(lc.lname.get(k, k), v) for k, v in sorted(e.loc.items(), key=str) if z3.is_expr(v) and v.sort() == I and k not in c.eng.ptrlocals
                  and ('L', k) not in lc.havoc and z3.is_const(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED and not v.eq(self.stamp(c))]
        zero = [k for kind, k in sorted(lc.havoc, key=str) if kind == 'L' and z3.is_expr(e.loc.get(k)) and z3.is_int_value(z3.simplify(e.loc[k]))
                and z3.simplify(e.loc[k]).as_long() == 0 and k not in c.eng.ptrlocals]
        for nm, get in lc.index_terms():
            if not any(lc.lname.get(k, k) == nm for k in zero) and 'range' not in nm:
                continue
            out.append(('at ' + nm, lambda s, get=get: AT(get(s))))
            out.append(('in done ' + nm, lambda s, get=get: z3.Implies(ci != 0, g(s, ci) == g(e, ci) + z3.If(get(s) > gj, wi, 0))))
            out.append(('out done ' + nm, lambda s, get=get: z3.Implies(co != 0, g(s, co) == g(e, co) + z3.If(get(s) > gi, wo, 0))))
            for k in zero:
                if lc.lname.get(k, k) == nm:
                    continue
                for jn, jv in consts:
                    out.append(('col %s %s %s' % (lc.lname.get(k, k), nm, jn), lambda s, k=k, get=get, jv=jv: s.loc[k] == COL(a, m, jv, get(s))))
                    out.append(('row %s %s %s' % (lc.lname.get(k, k), nm, jn), lambda s, k=k, get=get, jv=jv: s.loc[k] == ROW(a, m, jv, get(s))))
        return out


def order_axioms(a, off):
    """prefix sums and counts over an index sequence; the last two are proved by induction (lemmas of Move)"""
    e, f = z3.Consts('oe of', AI)
    lo, k, h, x = z3.Ints('olo ok oh ox')
    return [FA([e, lo], SUMC(a, off, e, lo, lo) == 0, [SUMC(a, off, e, lo, lo)]), FA([e, lo], CNTC(e, lo, lo) == 0, [CNTC(e, lo, lo)]),
            FA([e, lo, k], z3.Implies(k >= lo, SUMC(a, off, e, lo, k + 1) == SUMC(a, off, e, lo, k) + z3.Select(a, IMUL(z3.Select(e, k), off) + gj)), [z3.MultiPattern(SUMC(a, off, e, lo, k), AT(k))]),
            FA([e, lo, k], z3.Implies(k >= lo, CNTC(e, lo, k + 1) == CNTC(e, lo, k) + z3.If(z3.Select(e, k) == gi, 1, 0)), [z3.MultiPattern(CNTC(e, lo, k), AT(k))]), FA([k], AT(k), [AT(k)])]


def prefix_lemmas(a, off):
    e = z3.Const('oe', AI)
    lo, k, h, x = z3.Ints('olo ok oh ox')
    st = z3.Store(e, h, x)
    return [FA([e, lo, h, x], z3.Implies(lo <= h, SUMC(a, off, st, lo, h) == SUMC(a, off, e, lo, h)), [z3.MultiPattern(st, SUMC(a, off, e, lo, h))]),
            FA([e, lo, h, x], z3.Implies(lo <= h, CNTC(st, lo, h) == CNTC(e, lo, h)), [z3.MultiPattern(st, CNTC(e, lo, h))]),
            FA([e, lo, k, h], z3.Implies(z3.And(lo <= k, k <= h), z3.And(0 <= CNTC(e, lo, k), CNTC(e, lo, k) <= CNTC(e, lo, h))), [z3.MultiPattern(CNTC(e, lo, k), CNTC(e, lo, h))])]


class Move(Flows):
    """the junction moves exactly what is planned: the exit queue of an arbitrary in-link loses the row sum of the plan,
    the entry queue of an arbitrary out-link gains the column sum"""
    modifies = {FIN, INC, 'MNM_Veh::m_current_link', 'MNM_Veh::m_miles_traveled', 'MNM_Cumulative_Curve::m_recorder'}

    def prepare(self, eng):
        def shuffled(eng, st, v, w):
            if v.ty.k != 'seq' or v.c.get('e') is None or v.c['e'].sort() != AI:
                return
            c = eng.ctx
            a, m = tomove(c, c.old), links(c, c.old, 'out').len
            lo, hi = v.c['lo'], v.c['hi']
            st.pc.append(SUMC(a, m, w.c['e'], lo, hi) == SUMC(a, m, v.c['e'], lo, hi))
            st.pc.append(CNTC(w.c['e'], lo, hi) == CNTC(v.c['e'], lo, hi))
        eng.perm_hooks = [shuffled]

    def requires(self, c):
        a, off = tomove(c, c.st), links(c, c.st, 'out').len
        return distinct_links(c) + sums(a, off) + order_axioms(a, off) + prefix_lemmas(a, off) + self.inrange(c)

    def elem_bounds(self, c):
        return [('number of in-links', lambda s: links(c, s, 'in').len)]

    def ln(self, c, s, l, f):
        return F(c.eng, s, l, f).len

    def want(self, c):
        x, y, L, O, n, m = self.vals(c)
        a = tomove(c, c.old)
        return COL(a, m, gj, n), ROW(a, m, gi, m)

    def ensures(self, c):
        x, y, L, O, n, m = self.vals(c)
        wi, wo = self.want(c)
        return [('as many vehicles enter an out-link as planned for it', self.ln(c, c.st, O, INC) == self.ln(c, c.old, O, INC) + wi),
                ('as many vehicles leave an in-link as planned for it', self.ln(c, c.st, L, FIN) == self.ln(c, c.old, L, FIN) - wo)]

    def loop_invs(self, c, lc):
        x, y, L, O, n, m = self.vals(c)
        a = tomove(c, c.old)
        wi, wo = self.want(c)
        e = lc.entry
        hv = [k for kind, k in sorted(lc.havoc, key=str) if kind == 'L' and z3.is_expr(e.loc.get(k)) and e.loc[k].sort() == I and k not in c.eng.ptrlocals]
        keep = [(k, v) for k, v in sorted(e.loc.items(), key=str) if ('L', k) not in lc.havoc]
        consts = [(lc.lname.get(k, k), v) for k, v in keep if z3.is_expr(v) and v.sort() == I and k not in c.eng.ptrlocals
                  and z3.is_const(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED and not v.eq(self.stamp(c))]
        ptrs = [(lc.lname.get(k, k), v) for k, v in keep if z3.is_expr(v) and v.sort() == I and k in c.eng.ptrlocals]
        seqs = [(lc.lname.get(k, k), lambda s, k=k: s.loc[k]) for k, v in sorted(e.loc.items(), key=str) if isinstance(v, Cv) and v.ty.k == 'seq' and v.c.get('e') is not None and v.c['e'].sort() == AI]
        touched = {k for kind, k in lc.havoc if kind == 'H'}
        fin, inc = any(k.startswith(FIN) for k in touched), any(k.startswith(INC) for k in touched)
        dI = lambda s: self.ln(c, s, O, INC) - self.ln(c, e, O, INC)
        dF = lambda s: self.ln(c, e, L, FIN) - self.ln(c, s, L, FIN)
        dI0 = lambda s: self.ln(c, s, O, INC) - self.ln(c, c.old, O, INC)
        dF0 = lambda s: self.ln(c, c.old, L, FIN) - self.ln(c, s, L, FIN)
        t = lambda i, j: z3.Select(a, IMUL(i, m) + j)
        out = []
        if not fin and not inc:
            for nm, get in seqs:
                out.append(('at ' + nm, lambda s, get=get: AT(get(s).c['hi'])))
                out.append(('at len ' + nm, lambda s, get=get: AT(get(s).len)))
                out.append(('order from 0 ' + nm, lambda s, get=get: get(s).c['lo'] == 0))
                out.append(('order sum ' + nm, lambda s, get=get: SUMC(a, m, get(s).c['e'], get(s).c['lo'], get(s).c['hi']) == COL(a, m, gj, get(s).len)))
                out.append(('order count ' + nm, lambda s, get=get: CNTC(get(s).c['e'], get(s).c['lo'], get(s).c['hi']) == z3.If(get(s).len > gi, 1, 0)))
            return out
        for nm, get in seqs:
            out.append(('order all ' + nm, lambda s, get=get: z3.And(get(s).c['lo'] == 0, get(s).len == n,
                                                                    SUMC(a, m, get(s).c['e'], 0, n) == wi, CNTC(get(s).c['e'], 0, n) == 1)))
        idx = [(nm, get) for nm, get in lc.index_terms() if 'range' in nm or any(lc.lname.get(k, k) == nm and z3.is_int_value(z3.simplify(e.loc[k])) for k in hv)]
        if not idx:          # innermost: one vehicle after the other
            for k in hv:
                for pn, pv in ptrs:
                    for sg in (1, -1):
                        d = lambda s, k=k, sg=sg: (e.loc[k] - s.loc[k]) * sg
                        out.append(('fin %s %s' % (pn, sg), lambda s, pv=pv, d=d: dF(s) == z3.If(pv == L, d(s), 0)))
                        out.append(('inc %s %s' % (pn, sg), lambda s, pv=pv, d=d: dI(s) == z3.If(pv == O, d(s), 0)))
        for nm, get in idx:
            out.append(('at ' + nm, lambda s, get=get: AT(get(s))))
            out.append(('rows ' + nm, lambda s, get=get: dF0(s) == ROW(a, m, gi, get(s))))
            out.append(('cols ' + nm, lambda s, get=get: dI0(s) == z3.If(get(s) > gj, wi, 0)))
            for jn, jv in consts:
                out.append(('fin plain %s %s' % (nm, jn), lambda s, get=get, jv=jv: dF(s) == z3.If(get(s) > gi, t(gi, jv), 0)))
                out.append(('inc plain %s %s' % (nm, jn), lambda s, get=get, jv=jv: dI(s) == z3.If(jv == gj, COL(a, m, gj, get(s)), 0)))
                for qn, q in seqs:
                    out.append(('fin order %s %s' % (nm, jn), lambda s, get=get, jv=jv, q=q: dF(s) == z3.If(CNTC(q(s).c['e'], 0, get(s)) >= 1, t(gi, jv), 0)))
                    out.append(('inc order %s %s' % (nm, jn), lambda s, get=get, jv=jv, q=q: dI(s) == z3.If(jv == gj, SUMC(a, m, q(s).c['e'], 0, get(s)), 0)))
        return out

    def lemmas(self):
        a, e = z3.Consts('la le', AI)
        off, lo, k, h, x = z3.Ints('loff llo lk lh lx')
        st = z3.Store(e, h, x)
        ax = order_axioms(a, off)
        imp = lambda p, q: z3.Implies(z3.And(*p), q)
        p1 = lambda k: z3.And(SUMC(a, off, st, lo, k) == SUMC(a, off, e, lo, k), CNTC(st, lo, k) == CNTC(e, lo, k))
        p2 = lambda h: z3.And(0 <= CNTC(e, lo, k), CNTC(e, lo, k) <= CNTC(e, lo, h))
        return [('induction: appending does not change the sums and counts before (base)', imp(ax, p1(lo))),
                ('induction: appending does not change the sums and counts before (step)', imp(ax + [AT(k), AT(h), lo <= k, k < h, p1(k)], p1(k + 1))),
                ('induction: counts are not negative (base)', imp(ax, CNTC(e, lo, lo) >= 0)),
                ('induction: counts are not negative (step)', imp(ax + [AT(k), AT(h), lo <= k, CNTC(e, lo, k) >= 0], CNTC(e, lo, k + 1) >= 0)),
                ('induction: counts grow (step)', imp(ax + [AT(k), AT(h), lo <= k, k <= h, p2(h)], p2(h + 1)))]


class Frame(Contract):
    """the function writes nothing outside `modifies`"""
    safety = False
    retry = False

    def contracts(self):
        return {'MNM_Dlink::get_link_supply': pure_supply}

    def ensures(self, c):
        return [('returns', z3.BoolVal(True))]


class Evolve(Flows):
    """a junction step: what the curves record is what moved (callees by their contracts)"""

    def requires(self, c):
        return distinct_links(c) + own_curves(c) + self.inrange(c) + [self.scalar_pos(c)]

    def scalar_pos(self, c):
        return F(c.eng, c.st, c.this, SCALAR) > 0

    def contracts(self):
        r = Flows.contracts(self)
        r.pop('MNM_Cumulative_Curve::add_increment')

        def plan(*heaps):
            def f(cc):
                for h in heaps:
                    cc.havoc_heap(h)
                cc.may_throw(cc.eng.fresh(B, 'throws'))
                return z3.IntVal(0)
            return f

        def record(cc):
            c = cc.eng.ctx
            cc.requires(cc.arg(0) == self.stamp(c), 'records for the current interval')
            x, y, L, O, n, m = self.vals(c)
            a = tomove(c, cc.st)
            cc.may_throw(cc.eng.fresh(B, 'refused'))
            old = cc.st.ghost['inc']
            new = cc.eng.fresh(old.sort(), 'inc')
            ci, co = self.curve(c, O, 'in'), self.curve(c, L, 'out')
            cc.assume(z3.Implies(ci != 0, z3.Select(new, ci) == z3.Select(old, ci) + self.share(c, COL(a, m, gj, n))))
            cc.assume(z3.Implies(co != 0, z3.Select(new, co) == z3.Select(old, co) + self.share(c, ROW(a, m, gi, m))))
            cc.st.ghost['inc'] = new
            cc.havoc_heap('MNM_Cumulative_Curve::m_recorder')
            return z3.IntVal(0)

        def move(cc):
            c = cc.eng.ctx
            x, y, L, O, n, m = self.vals(c)
            a = tomove(c, cc.st)
            i0, f0 = F(c.eng, cc.st, O, INC).len, F(c.eng, cc.st, L, FIN).len
            for h in sorted(Move.modifies):
                cc.havoc_heap(h)
            cc.may_throw(cc.eng.fresh(B, 'throws'))
            cc.assume(F(c.eng, cc.st, O, INC).len == i0 + COL(a, m, gj, n))
            cc.assume(F(c.eng, cc.st, L, FIN).len == f0 - ROW(a, m, gi, m))
            return z3.IntVal(0)
        r.update({IO + 'prepare_supplyANDdemand': plan('$arr:real'), IO + 'compute_flow': plan('$arr:real'),
                  IO + 'round_flow_to_vehicle': plan('$arr:int'), IO + 'record_cumulative_curve': record, IO + 'move_vehicle': move})
        return r

    def ensures(self, c):
        x, y, L, O, n, m = self.vals(c)
        di = F(c.eng, c.st, O, INC).len - F(c.eng, c.old, O, INC).len
        do = F(c.eng, c.old, L, FIN).len - F(c.eng, c.st, L, FIN).len
        ci, co = self.curve(c, O, 'in'), self.curve(c, L, 'out')
        return [('the entry curve of an out-link grows by the vehicles that entered it', z3.Implies(ci != 0, self.inc(c.st, ci) == self.share(c, di))),
                ('the exit curve of an in-link grows by the vehicles that left it', z3.Implies(co != 0, self.inc(c.st, co) == self.share(c, do)))]


class Dest(Flows):
    """destination connector: the exit curve of an in-link grows by the vehicles that left it"""

    def requires(self, c):
        x = links(c, c.st, 'in')
        i = z3.Int('dl')
        return own_curves(c) + [0 <= gi, gi < x.len, fa_range(i, 0, x.len, z3.And(x.at(i) > 0, inpos(x.at(i)) == i), [x.at(i)])]

    def ln(self, c, s):
        return F(c.eng, s, links(c, c.old, 'in').at(gi), FIN).len

    def terms(self, c):
        L = links(c, c.old, 'in').at(gi)
        return L, self.curve(c, L, 'out')

    def ensures(self, c):
        L, co = self.terms(c)
        return [('the exit curve of an in-link grows by the vehicles that left it', z3.Implies(co != 0, self.inc(c.st, co) == self.share(c, self.ln(c, c.old) - self.ln(c, c.st)))),
                ('every waiting vehicle left', self.ln(c, c.st) == 0)]

    def loop_invs(self, c, lc):
        L, co = self.terms(c)
        e = lc.entry
        g = self.inc
        d = lambda s: self.ln(c, e) - self.ln(c, s)
        n0 = self.ln(c, c.old)
        out = [('curve same', lambda s: g(s, co) == g(e, co)), ('queue same', lambda s: self.ln(c, s) == self.ln(c, e))]
        ptrs = [v for k, v in sorted(e.loc.items(), key=str) if ('L', k) not in lc.havoc and z3.is_expr(v) and v.sort() == I and k in c.eng.ptrlocals]
        for nm, get in lc.index_terms():
            out.append(('done ' + nm, lambda s, get=get: z3.And(z3.Implies(co != 0, g(s, co) == z3.If(get(s) > gi, self.share(c, n0), 0)),
                                                                self.ln(c, s) == z3.If(get(s) > gi, 0, n0))))
            for i, p in enumerate(ptrs):
                out.append(('left %s %d' % (nm, i), lambda s, get=get, p=p: d(s) == z3.If(p == L, get(s), 0)))
        return out


PC = z3.Function('heading_for_link', AI, AI, I, I, I, I)   # ghost: vehicles with next link l among the entries [p, q) of a queue (nxt, e, l, p, q)


def pc_axioms(nxt):
    e = z3.Const('pe', AI)
    l, p, q = z3.Ints('pl pp pq')
    hit = lambda k: z3.If(z3.Select(nxt, z3.Select(e, k)) == l, 1, 0)
    return [FA([e, l, p], PC(nxt, e, l, p, p) == 0, [PC(nxt, e, l, p, p)]),
            FA([e, l, p, q], z3.Implies(p <= q, PC(nxt, e, l, p, q + 1) == PC(nxt, e, l, p, q) + hit(q)), [z3.MultiPattern(PC(nxt, e, l, p, q), AT(q))]),
            FA([p], AT(p), [AT(p)])]


def pc_lemmas(nxt):
    e = z3.Const('pe', AI)
    l, p, q = z3.Ints('pl pp pq')
    hit = lambda k: z3.If(z3.Select(nxt, z3.Select(e, k)) == l, 1, 0)
    return [FA([e, l, p, q], z3.Implies(p < q, PC(nxt, e, l, p, q) == PC(nxt, e, l, p + 1, q) + hit(p)), [z3.MultiPattern(PC(nxt, e, l, p, q), AT(p))])]


class Origin(Flows):
    """origin connector: the entry curve of an out-link grows by the vehicles that entered it"""
    VOL = 'MNM_DMOND::m_out_volume'
    Q = 'MNM_DMOND::m_in_veh_queue'

    def prepare(self, eng):
        def erased(eng, st, v, w, pos):
            if v.ty.k != 'seq' or v.c.get('e') is None or v.c['e'].sort() != AI:
                return
            c = eng.ctx
            nxt, O = self.nxt(c), self.out(c)
            lo, hi = v.c['lo'], v.c['hi']
            e, f = v.c['e'], w.c['e']
            st.pc.append(z3.Implies(z3.And(lo <= pos, pos < hi), z3.And(
                PC(nxt, f, O, lo, hi - 1) == PC(nxt, e, O, lo, hi) - z3.If(z3.Select(nxt, z3.Select(e, pos)) == O, 1, 0),
                PC(nxt, f, O, pos, hi - 1) == PC(nxt, e, O, pos + 1, hi))))
            st.pc.append(AT(pos))
        eng.erase_hooks = [erased]

    def nxt(self, c):
        return harr(c, c.old or c.st, 'MNM_Veh::m_next_link', I)

    def out(self, c):
        return links(c, c.old or c.st, 'out').at(gj)

    def vol(self, c, s):
        return F(c.eng, s, c.this, self.VOL)

    def requires(self, c):
        y = links(c, c.st, 'out')
        i = z3.Int('dl')
        q = F(c.eng, c.st, c.this, self.Q)
        vol = self.vol(c, c.st)
        nxt = self.nxt(c)
        l = z3.Int('sl')
        return own_curves(c) + [0 <= gj, gj < y.len, F(c.eng, c.st, c.this, SCALAR) > 0, FA([l], supply_of(l) >= 0, [supply_of(l)]),
                                fa_range(i, 0, y.len, z3.And(y.at(i) > 0, outpos(y.at(i)) == i, vol.has(y.at(i))), [y.at(i)]),
                                FA([i], z3.Implies(z3.And(q.c['lo'] <= i, i < q.c['hi']), vol.has(z3.Select(nxt, q.raw(i)))), [q.raw(i)])
                                ] + pc_axioms(nxt) + pc_lemmas(nxt)

    def ensures(self, c):
        O = self.out(c)
        ci = self.curve(c, O, 'in')
        di = F(c.eng, c.st, O, INC).len - F(c.eng, c.old, O, INC).len
        return [('the entry curve of an out-link grows by the vehicles that entered it', z3.Implies(ci != 0, self.inc(c.st, ci) == self.share(c, di))),
                ('no more vehicles enter a link than it can receive, rounded up', z3.ToReal(di) < supply_of(O) * F(c.eng, c.old, c.this, SCALAR) + 1)]

    def loop_invs(self, c, lc):
        O, nxt = self.out(c), self.nxt(c)
        y = links(c, c.old, 'out')
        ci = self.curve(c, O, 'in')
        e = lc.entry
        g = self.inc
        cap = supply_of(O) * F(c.eng, c.old, c.this, SCALAR) + 1
        v = lambda s: z3.Select(self.vol(c, s).c['v'], O)
        q = lambda s: F(c.eng, s, c.this, self.Q)
        ln = lambda s: F(c.eng, s, O, INC).len
        pc = lambda s, p, r: PC(nxt, q(s).c['e'], O, p, r)
        k = z3.Int('vk')
        v0 = self.vol(c, c.old)
        out = [('keys', lambda s: FA([k], self.vol(c, s).has(k) == v0.has(k), [self.vol(c, s).has(k)])),
               ('queue keys', lambda s: FA([k], z3.Implies(z3.And(q(s).c['lo'] <= k, k < q(s).c['hi']), v0.has(z3.Select(nxt, q(s).raw(k)))), [q(s).raw(k)])),
               ('volume waits', lambda s: z3.And(0 <= v(s), v(s) <= pc(s, q(s).c['lo'], q(s).c['hi']))),
               ('at end', lambda s: z3.And(AT(q(s).c['lo']), AT(q(s).c['hi']))),
               ('curve same', lambda s: g(s, ci) == g(e, ci)), ('entered same', lambda s: ln(s) == ln(e)), ('volume same', lambda s: v(s) == v(e)),
               ('volume not negative', lambda s: v(s) >= 0),
               ('entered + volume', lambda s: ln(s) + v(s) == ln(e) + v(e))]
        ptrs = [pv for kk, pv in sorted(e.loc.items(), key=str) if ('L', kk) not in lc.havoc and z3.is_expr(pv) and pv.sort() == I and kk in c.eng.ptrlocals]
        for nm, get in lc.index_terms():
            n0 = ln(c.old)
            out.append(('at ' + nm, lambda s, get=get: AT(get(s))))
            if nm.endswith('.pos'):
                out.append(('counted ' + nm, lambda s, get=get: z3.And(get(s) >= q(s).c['lo'], v(s) == pc(s, q(s).c['lo'], get(s)))))
                for i, p in enumerate(ptrs):
                    out.append(('rest waits %s %d' % (nm, i), lambda s, get=get, p=p: z3.Implies(p == O, z3.And(v(s) <= pc(s, get(s), q(s).c['hi']), q(s).c['lo'] <= get(s), get(s) <= q(s).c['hi']))))
                    out.append(('volume waits %s %d' % (nm, i), lambda s, get=get, p=p: z3.Implies(p != O, z3.And(v(s) == v(e), v(s) <= pc(s, q(s).c['lo'], q(s).c['hi'])))))
            else:
                out.append(('zero ' + nm, lambda s, get=get: z3.Implies(get(s) > gj, v(s) == 0)))
                out.append(('capped ' + nm, lambda s, get=get: z3.Implies(get(s) > gj, z3.ToReal(v(s)) < cap)))
                out.append(('moved ' + nm, lambda s, get=get: z3.And(z3.Implies(get(s) <= gj, z3.And(ln(s) == n0, v(s) == v(e), g(s, ci) == 0, v(s) <= pc(s, q(s).c['lo'], q(s).c['hi']))),
                                                                     z3.Implies(get(s) > gj, z3.And(ln(s) == n0 + v(e), z3.Implies(ci != 0, g(s, ci) == self.share(c, v(e))))))))
        return out

    def lemmas(self):
        nxt, e, f = z3.Consts('ln le lf', AI)
        l, p, q, r, k = z3.Ints('ll lp lq lr lk')
        ax = pc_axioms(nxt) + [AT(p), AT(q), AT(p + 1), AT(r), AT(r - 1), AT(r + 1)]
        hit = lambda e, k: z3.If(z3.Select(nxt, z3.Select(e, k)) == l, 1, 0)
        imp = lambda a, b: z3.Implies(z3.And(*a), b)
        suf = lambda q: PC(nxt, e, l, p, q) == PC(nxt, e, l, p + 1, q) + hit(e, p)
        # f is e without position r
        shift = [FA([k], z3.Select(f, k) == z3.If(k < r, z3.Select(e, k), z3.Select(e, k + 1)), [z3.Select(f, k)]), p <= r]
        before = lambda q: PC(nxt, f, l, p, q) == PC(nxt, e, l, p, q)
        after = lambda q: PC(nxt, f, l, p, q) == PC(nxt, e, l, p, q + 1) - hit(e, r)
        tail = lambda q: PC(nxt, f, l, r, q) == PC(nxt, e, l, r + 1, q + 1)
        return [('induction: first entry split off (base)', imp(ax, suf(p + 1))),
                ('induction: first entry split off (step)', imp(ax + [p < q, suf(q)], suf(q + 1))),
                ('induction: entries before an erased one (base)', imp(ax + shift, before(p))),
                ('induction: entries before an erased one (step)', imp(ax + shift + [p <= q, q < r, before(q)], before(q + 1))),
                ('induction: entries around an erased one (base)', imp(ax + shift + [before(r)], after(r))),
                ('induction: entries around an erased one (step)', imp(ax + shift + [r <= q, AT(q + 1), after(q)], after(q + 1))),
                ('induction: entries behind an erased one (base)', imp(ax + shift + [AT(r + 1)], tail(r))),
                ('induction: entries behind an erased one (step)', imp(ax + shift + [r <= q, AT(q + 1), tail(q)], tail(q + 1)))]


def C11():
    f = 'dnode.cpp'
    plan = {'$arr:real'}
    return [Record('junction records the planned moves', IO + 'record_cumulative_curve', f),
            Move('junction moves as planned', IO + 'move_vehicle', f),
            Evolve('junction step', IO + 'evolve', f),
            Frame('frame: supply and demand', IO + 'prepare_supplyANDdemand', f, modifies=plan),
            Frame('frame: flows, proportional junction', 'MNM_Dnode_FWJ::compute_flow', f, modifies=plan),
            Frame('frame: rounding', IO + 'round_flow_to_vehicle', f, modifies={'$arr:int'}),
            Origin('origin connector', 'MNM_DMOND::evolve', f),
            Dest('destination connector', 'MNM_DMDND::evolve', f)]


# ---------------------------------------------------------------- C05: planned flow against demand and supply
AR = z3.ArraySort(I, R)
gw = z3.Int('gw')              # an arbitrary whole number of vehicles


def idx(i, off, j):
    return IMUL(i, off) + j


def index_axioms(off):
    """row-major positions of a matrix with `off` columns are distinct (lemma of Round, proved for products of integers)"""
    i, k, j, l, x = z3.Ints('ai ak aj al ax')
    return [FA([i, k], z3.Implies(z3.And(i < k, off > 0), IMUL(i, off) + off <= IMUL(k, off)), [z3.MultiPattern(IMUL(i, off), IMUL(k, off))])]


def column_axioms(off):
    """column sums of any plan"""
    a = z3.Const('ca', AI)
    j, k = z3.Ints('cj ck')
    return [FA([a, j], COL(a, off, j, 0) == 0, [COL(a, off, j, 0)]),
            FA([a, j, k], z3.Implies(k >= 0, COL(a, off, j, k + 1) == COL(a, off, j, k) + z3.Select(a, idx(k, off, j))), [z3.MultiPattern(COL(a, off, j, k), AT(k))]),
            FA([k], AT(k), [AT(k)])]


def column_lemmas(off):
    a = z3.Const('ca', AI)
    j, k, i, x, v = z3.Ints('cj ck ci cx cv')
    jj = x - IMUL(i, off)
    st = z3.Store(a, x, v)
    return [FA([a, x, v, j, k, i], z3.Implies(z3.And(0 <= j, j < off, 0 <= jj, jj < off, 0 <= i, 0 <= k),
                                              COL(st, off, j, k) == COL(a, off, j, k) + z3.If(z3.And(j == jj, i < k), v - z3.Select(a, x), 0)),
               [z3.MultiPattern(st, COL(a, off, j, k), IMUL(i, off))])]


class Plan(Flows):
    modifies = None

    def contracts(self):
        return {'MNM_Dlink::get_link_supply': pure_supply}

    def arr(self, c, s, field, sort):
        r = F(c.eng, s, c.this, field)
        r = getattr(r, 'ref', r)
        return z3.Select(c.eng.heap_get(s, '$arr:real' if sort == AR else '$arr:int', sort), r)

    def demand(self, c, s):
        return self.arr(c, s, IO + 'm_demand', AR)

    def supply(self, c, s):
        return self.arr(c, s, IO + 'm_supply', AR)

    def flow(self, c, s):
        return self.arr(c, s, IO + 'm_veh_flow', AR)

    def at(self, c):
        return idx(gi, links(c, c.old or c.st, 'out').len, gj)

    def scalar(self, c):
        return F(c.eng, c.old or c.st, c.this, SCALAR)

    def base(self, c):
        ref = lambda f: getattr(F(c.eng, c.st, c.this, IO + f), 'ref', F(c.eng, c.st, c.this, IO + f))
        return distinct_links(c) + self.inrange(c) + index_axioms(links(c, c.st, 'out').len) + [self.scalar(c) > 0,
               z3.Distinct(ref('m_demand'), ref('m_supply'), ref('m_veh_flow')), AT(gi), AT(gj), IMUL(gi, links(c, c.st, 'out').len) >= 0]

    def counters(self, c, lc):
        e = lc.entry
        zero = [k for kind, k in sorted(lc.havoc, key=str) if kind == 'L' and z3.is_expr(e.loc.get(k)) and z3.is_int_value(z3.simplify(e.loc[k]))
                and z3.simplify(e.loc[k]).as_long() == 0 and k not in c.eng.ptrlocals]
        consts = [(lc.lname.get(k, k), v) for k, v in sorted(e.loc.items(), key=str) if z3.is_expr(v) and v.sort() == I and k not in c.eng.ptrlocals
                  and ('L', k) not in lc.havoc and z3.is_const(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED]
        ints = [k for kind, k in sorted(lc.havoc, key=str) if kind == 'L' and z3.is_expr(e.loc.get(k)) and e.loc[k].sort() == I and k not in c.eng.ptrlocals]
        idxs = [(nm, get) for nm, get in lc.index_terms() if 'range' in nm or any(lc.lname.get(k, k) == nm for k in zero)]
        return zero, consts, ints, idxs

    def lemmas(self):
        i, k, off = z3.Ints('mi mk mo')
        return [('rows of a matrix do not overlap', z3.Implies(z3.And(i < k, off > 0), i * off + off <= k * off))]


class Round(Plan):
    """rounding to whole vehicles: never negative, never above the receiving capacity, at most the flow rounded up"""
    modifies = {'$arr:int'}

    def requires(self, c):
        m = links(c, c.st, 'out').len
        x = z3.Int('fx')
        f = self.flow(c, c.st)
        l = z3.Int('sl')
        return self.base(c) + column_axioms(m) + column_lemmas(m) + [
            FA([x], z3.Select(f, x) >= 0, [z3.Select(f, x)]), FA([l], supply_of(l) >= 0, [supply_of(l)])]

    def ensures(self, c):
        x, y, L, O, n, m = self.vals(c)
        a, f, s = tomove(c, c.st), z3.Select(self.flow(c, c.old), self.at(c)), self.scalar(c)
        p = self.at(c)
        return [('the vehicles planned for a link do not exceed what it can receive', z3.ToReal(COL(a, m, gj, n)) <= supply_of(O) * s),
                ('a planned number of vehicles is not negative', z3.Select(a, p) >= 0),
                ('a planned number of vehicles is at most the flow, rounded up', z3.Implies(f * s <= z3.ToReal(gw), z3.Select(a, p) <= gw))]

    def loop_invs(self, c, lc):
        x, y, L, O, n, m = self.vals(c)
        e = lc.entry
        s0, p = self.scalar(c), self.at(c)
        f = z3.Select(self.flow(c, c.old), p)
        A = lambda s: tomove(c, s)
        zero, consts, ints, idxs = self.counters(c, lc)
        ok = lambda s: z3.And(z3.Select(A(s), p) >= 0, z3.Implies(f * s0 <= z3.ToReal(gw), z3.Select(A(s), p) <= gw))
        full = lambda s: z3.ToReal(COL(A(s), m, gj, n)) <= supply_of(O) * s0
        out = [('entry fine', ok), ('column fine', full), ('entry less', lambda s: z3.Implies(ok(e), ok(s)))]
        for jn, jv in consts:
            out.append(('other columns ' + jn, lambda s, jv=jv: z3.Implies(jv != gj, z3.And(COL(A(s), m, gj, n) == COL(A(e), m, gj, n), z3.Select(A(s), p) == z3.Select(A(e), p)))))
            for k in ints:
                out.append(('sum %s %s' % (lc.lname.get(k, k), jn), lambda s, k=k, jv=jv: s.loc[k] == COL(A(s), m, jv, n)))
        for nm, get in idxs:
            out.append(('at ' + nm, lambda s, get=get: AT(get(s))))
            out.append(('columns ' + nm, lambda s, get=get: z3.Implies(get(s) > gj, z3.And(full(s), ok(s)))))
            for jn, jv in consts:
                out.append(('entries %s %s' % (nm, jn), lambda s, get=get, jv=jv: z3.Implies(z3.And(jv == gj, get(s) > gi), ok(s))))
                for k in ints:
                    if lc.lname.get(k, k) != nm:
                        out.append(('sum %s %s %s' % (lc.lname.get(k, k), nm, jn), lambda s, get=get, k=k, jv=jv: s.loc[k] == COL(A(s), m, jv, get(s))))
        return out

    def lemmas(self):
        a = z3.Const('ca', AI)
        off, j, k, i, x, v = z3.Ints('co cj ck ci cx cv')
        jj = x - IMUL(i, off)
        st = z3.Store(a, x, v)
        ax = column_axioms(off) + index_axioms(off) + [AT(k), 0 <= j, j < off, 0 <= jj, jj < off, 0 <= i, 0 <= k]
        q = lambda k: COL(st, off, j, k) == COL(a, off, j, k) + z3.If(z3.And(j == jj, i < k), v - z3.Select(a, x), 0)
        return Plan.lemmas(self) + [('induction: changing one entry of a plan (base)', z3.Implies(z3.And(*ax), q(z3.IntVal(0)))),
                                    ('induction: changing one entry of a plan (step)', z3.Implies(z3.And(*ax, q(k)), q(k + 1)))]


class Demand(Plan):
    """demand of a pair = vehicles waiting for the out-link / flow scalar; supply = what the link can receive"""
    modifies = {'$arr:real'}

    def nxt(self, c):
        return harr(c, c.old or c.st, 'MNM_Veh::m_next_link', I)

    def requires(self, c):
        return self.base(c) + pc_axioms(self.nxt(c))

    def waiting(self, c):
        x, y, L, O, n, m = self.vals(c)
        q = F(c.eng, c.old, L, FIN)
        return PC(self.nxt(c), q.c['e'], O, q.c['lo'], q.c['hi'])

    def ensures(self, c):
        x, y, L, O, n, m = self.vals(c)
        return [('demand of a pair is the vehicles waiting for it', z3.Select(self.demand(c, c.st), self.at(c)) == RDIV(z3.ToReal(self.waiting(c)), self.scalar(c))),
                ('supply is what the link can receive', z3.Select(self.supply(c, c.st), gj) == supply_of(O))]

    def loop_invs(self, c, lc):
        x, y, L, O, n, m = self.vals(c)
        e = lc.entry
        zero, consts, ints, idxs = self.counters(c, lc)
        want = RDIV(z3.ToReal(self.waiting(c)), self.scalar(c))
        ok = lambda s: z3.Select(self.demand(c, s), self.at(c)) == want
        oks = lambda s: z3.Select(self.supply(c, s), gj) == supply_of(O)
        nxt = self.nxt(c)
        out = [('demand fine', ok), ('supply fine', oks),
               ('demand same', lambda s: z3.Select(self.demand(c, s), self.at(c)) == z3.Select(self.demand(c, e), self.at(c)))]
        ptrs = [(lc.lname.get(k, k), v) for k, v in sorted(e.loc.items(), key=str) if ('L', k) not in lc.havoc and z3.is_expr(v) and v.sort() == I and k in c.eng.ptrlocals]
        for nm, get in lc.index_terms():
            out.append(('at ' + nm, lambda s, get=get: AT(get(s))))
            if nm.endswith('.pos') or 'range' in nm:
                for kn, k in [(lc.lname.get(k, k), k) for k in zero]:
                    for pn, p in ptrs:
                        for on, o in ptrs:
                            if pn != on:
                                q = F(c.eng, c.old, p, FIN)
                                off = 0 if nm.endswith('.pos') else q.c['lo']
                                out.append(('count %s %s %s %s' % (kn, nm, pn, on), lambda s, get=get, k=k, q=q, o=o, off=off: s.loc[k] == PC(nxt, q.c['e'], o, q.c['lo'], get(s) + off)))
        for nm, get in idxs:
            out.append(('rows ' + nm, lambda s, get=get: z3.Implies(get(s) > gi, ok(s))))
            out.append(('columns ' + nm, lambda s, get=get: z3.Implies(get(s) > gj, oks(s))))
            for jn, jv in consts:
                out.append(('entries %s %s' % (nm, jn), lambda s, get=get, jv=jv: z3.If(z3.And(jv == gi, get(s) > gj), ok(s), z3.Select(self.demand(c, s), self.at(c)) == z3.Select(self.demand(c, e), self.at(c)))))
        return out


class Fwj(Plan):
    """the flow of a pair is at least 0 and at most its demand"""
    modifies = {'$arr:real'}
    uf_div = False

    def requires(self, c):
        x = z3.Int('fx')
        d, s = self.demand(c, c.st), self.supply(c, c.st)
        return self.base(c) + [FA([x], z3.Select(d, x) >= 0, [z3.Select(d, x)]), FA([x], z3.Select(s, x) >= 0, [z3.Select(s, x)])]

    def ok(self, c, s):
        f = z3.Select(self.flow(c, s), self.at(c))
        return z3.And(0 <= f, f <= z3.Select(self.demand(c, c.old), self.at(c)))

    def ensures(self, c):
        return [('the flow of a pair is at least 0 and at most its demand', self.ok(c, c.st))]

    def loop_invs(self, c, lc):
        e = lc.entry
        zero, consts, ints, idxs = self.counters(c, lc)
        ok = lambda s: self.ok(c, s)
        f = lambda s: z3.Select(self.flow(c, s), self.at(c))
        out = [('flow fine', ok), ('demand same', lambda s: self.demand(c, s) == self.demand(c, c.old)), ('supply same', lambda s: self.supply(c, s) == self.supply(c, c.old))]
        for kind, k in sorted(lc.havoc, key=str):
            v = e.loc.get(k) if kind == 'L' else None
            if z3.is_expr(v) and v.sort() == R:
                out.append(('not negative ' + str(lc.lname.get(k, k)), lambda s, k=k: s.loc[k] >= 0))
        for nm, get in idxs:
            out.append(('done ' + nm, lambda s, get=get: z3.Implies(get(s) > gj, ok(s))))
            out.append(('done row ' + nm, lambda s, get=get: z3.Implies(get(s) > gi, ok(s))))
            for jn, jv in consts:
                out.append(('entries %s %s' % (nm, jn), lambda s, get=get, jv=jv: z3.If(z3.And(jv == gj, get(s) > gi), ok(s), z3.Or(ok(s), f(s) == f(e)))))
        return out

    def lemmas(self):
        d, f, k, w, v = z3.Reals('qd qf qk qw qv')
        return Plan.lemmas(self) + [('hence no more vehicles are planned for a pair than wait for it: flow <= waiting / scalar means flow * scalar <= waiting',
                                     z3.Implies(z3.And(k > 0, f <= w / k), f * k <= w))]


def C05():
    f = 'dnode.cpp'
    return [Demand('demand and supply of a junction', IO + 'prepare_supplyANDdemand', f),
            Fwj('proportional junction', 'MNM_Dnode_FWJ::compute_flow', f),
            Round('rounding to whole vehicles', IO + 'round_flow_to_vehicle', f),
            Move('junction moves as planned', IO + 'move_vehicle', f),
            Origin('origin connector', 'MNM_DMOND::evolve', f)]
