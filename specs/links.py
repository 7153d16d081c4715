"""Contracts of the single-class link models (dlink.cpp)."""
import z3
from vcgen.verify import Contract, F, named_val
from vcgen.engine import Cv, LVar, PLv
from .common import *

QF = ('MNM_Dlink::m_finished_array', 'MNM_Dlink::m_incoming_array', 'Ctm_Cell::m_veh_queue',
      'MNM_Dlink_Pq::m_veh_queue', 'MNM_Dlink_Lq::m_veh_queue', 'MNM_Dlink_Ltm::m_veh_queue')


def qlen(c, st, f, ref=None):
    return F(c.eng, st, c.this if ref is None else ref, f).len


class CtmConserve(CtmShape, Conserve):
    veh_fields = QF
    frame_preds = CtmShape.SHAPE_FRAME

    def requires(self, c):
        return self.shape(c)

    def idx_invs(self, c):
        def rel(s, cell):
            return F(c.eng, s, cell, 'Ctm_Cell::m_out_veh') <= F(c.eng, s, cell, 'Ctm_Cell::m_veh_queue').len
        return [('out<=len ' + n, f) for n, f in self.per_cell(c, rel)]


class AllIn:
    def more(self, c):
        return [('all vehicles handed over were admitted', qlen(c, c.st, 'MNM_Dlink::m_incoming_array') == 0)]


class CtmClear(AllIn, CtmConserve):
    pass


class PlainConserve(Conserve):
    veh_fields = QF

    def requires(self, c):
        return [F(c.eng, c.st, c.this, self.qual.split('::')[0] + '::m_flow_scalar') > 0]


class PlainClear(AllIn, PlainConserve):
    pass


class VolConserve(PlainConserve):
    """queue + finished size unchanged (link neither gains nor loses vehicles in its own step)"""
    Q = None

    def more(self, c):
        def n(st):
            return qlen(c, st, self.Q) + qlen(c, st, 'MNM_Dlink::m_finished_array')
        return [('vehicle count on the link unchanged', n(c.st) == n(c.old))]


def curve_frames():
    """callee contracts of the cumulative curve that say only what the link models rely on for conservation:
    nothing but the curve's own record is written (checked below on the real bodies)"""
    REC = 'MNM_Cumulative_Curve::m_recorder'

    def add(cc):
        cc.may_throw(cc.eng.fresh(B, 'throws'))
        cc.havoc_field(cc.this, REC, cc.eng.fty(REC))
        return z3.IntVal(0)

    def get(cc):
        return cc.eng.fresh(R, 'curve')

    def shrink(cc):
        cc.havoc_field(cc.this, REC, cc.eng.fty(REC))
        return z3.IntVal(0)
    return {'MNM_Cumulative_Curve::add_increment': add, 'MNM_Cumulative_Curve::get_result': get,
            'MNM_Cumulative_Curve::shrink': shrink}


class LtmConserve(VolConserve):
    def contracts(self):
        return curve_frames()


class LtmClear(PlainClear):
    def contracts(self):
        return curve_frames()


class CurveFrame(Contract):
    safety = False
    modifies = {'MNM_Cumulative_Curve::m_recorder'}

    def ensures(self, c):
        return [('returns', z3.BoolVal(True))]


def C01():
    f = 'dlink.cpp'
    return [
        CtmConserve('cell link step', 'MNM_Dlink_Ctm::evolve', f),
        CtmClear('cell link admission', 'MNM_Dlink_Ctm::clear_incoming_array', f),
        VolConserve('point queue step', 'MNM_Dlink_Pq::evolve', f, Q='MNM_Dlink_Pq::m_veh_queue'),
        PlainConserve('point queue admission', 'MNM_Dlink_Pq::clear_incoming_array', f),
        VolConserve('link queue step', 'MNM_Dlink_Lq::evolve', f, Q='MNM_Dlink_Lq::m_veh_queue'),
        PlainClear('link queue admission', 'MNM_Dlink_Lq::clear_incoming_array', f),
        LtmConserve('link transmission step', 'MNM_Dlink_Ltm::evolve', f, Q='MNM_Dlink_Ltm::m_veh_queue'),
        LtmClear('link transmission admission', 'MNM_Dlink_Ltm::clear_incoming_array', f),
        CurveFrame('curve frame: add', 'MNM_Cumulative_Curve::add_increment', f),
        CurveFrame('curve frame: get', 'MNM_Cumulative_Curve::get_result', f, modifies=set()),
        CurveFrame('curve frame: shrink', 'MNM_Cumulative_Curve::shrink', f),
    ]


# ---------------------------------------------------------------- order within a link
rank = z3.Function('rank', I, I)      # ghost: arbitrary position of each vehicle in the line, front = smallest
FINQ, INCQ = 'MNM_Dlink::m_finished_array', 'MNM_Dlink::m_incoming_array'


def _sorted_in(e, lo, hi, get=lambda e, p: z3.Select(e, p)):
    p, q = z3.Ints('op oq')
    return FA([p, q], z3.Implies(z3.And(lo <= p, p < q, q < hi), rank(get(e, p)) < rank(get(e, q))),
              [z3.MultiPattern(get(e, p), get(e, q))])


def _before(s1, s2):
    p, q = z3.Ints('op oq')
    (e1, lo1, hi1), (e2, lo2, hi2) = s1, s2
    return FA([p, q], z3.Implies(z3.And(lo1 <= p, p < hi1, lo2 <= q, q < hi2), rank(z3.Select(e1, p)) < rank(z3.Select(e2, q))),
              [z3.MultiPattern(z3.Select(e1, p), z3.Select(e2, q))])


class LineOrder(Contract):
    """vehicles stand on the link in one line: exit queue, body, entry queue.  If the line is ordered by an arbitrary
    ranking before the operation it is ordered by the same ranking afterwards (nobody overtakes)."""
    Q = None

    def seg(self, c, st, f, comp='e'):
        v = F(c.eng, st, c.this, f)
        return (v.c['e.first'] if 'e.first' in v.c else v.c['e'], v.c['lo'], v.c['hi'])

    def parts(self, c, st):
        segs = [self.seg(c, st, f) for f in (FINQ, self.Q, INCQ)]
        r = [_sorted_in(*s) for s in segs]
        r += [_before(segs[i], segs[j]) for i in range(3) for j in range(i + 1, 3)]
        return r

    def requires(self, c):
        return self.parts(c, c.st) + [F(c.eng, c.st, c.this, self.Q.split('::')[0] + '::m_flow_scalar') > 0]

    def ensures(self, c):
        names = ['exit queue', 'body', 'entry queue', 'exit queue ahead of body', 'exit queue ahead of entry queue', 'body ahead of entry queue']
        return [('order kept: ' + n, g) for n, g in zip(names, self.parts(c, c.st))]

    def invs(self, c):
        return [('line%d' % i, lambda s, i=i: self.parts(c, s)[i]) for i in range(len(self.parts(c, c.old)))]

    def contracts(self):
        return curve_frames()


class PqStep(Contract):
    """functional contract of the point queue step, given that waiting times do not increase from front to back"""
    modifies = {FINQ, 'MNM_Dlink_Pq::m_veh_queue'}
    Q = 'MNM_Dlink_Pq::m_veh_queue'

    def qs(self, c, st):
        return F(c.eng, st, c.this, FINQ), F(c.eng, st, c.this, self.Q)

    def stamps(self, q):
        p, r = z3.Ints('sp sq')
        s = lambda p: z3.Select(q.c['e.second'], p)
        return [FA([p, r], z3.Implies(z3.And(q.c['lo'] <= p, p < r, r < q.c['hi']), s(p) >= s(r)), [z3.MultiPattern(s(p), s(r))]),
                FA([p], z3.Implies(z3.And(q.c['lo'] <= p, p < q.c['hi']), s(p) >= 0), [s(p)])]

    def bound(self, c):
        m = F(c.eng, c.old if c.old is not None else c.st, c.this, self.Q.split('::')[0] + '::m_max_stamp')
        return z3.If(m - 1 > 0, m - 1, 0)

    def requires(self, c):
        return self.stamps(self.qs(c, c.st)[1])

    def rel(self, c, st, it=None):
        """state in terms of the initial one; it = number of vehicles already kept (None: all)"""
        f, q = self.qs(c, st)
        f0, q0 = self.qs(c, c.old)
        k = f.len - f0.len
        p = z3.Int('rp')
        b = self.bound(c)
        old = lambda x: (z3.Select(q0.c['e.first'], q0.c['lo'] + x), z3.Select(q0.c['e.second'], q0.c['lo'] + x))
        el = lambda x: (z3.Select(q.c['e.first'], x), z3.Select(q.c['e.second'], x))
        done = q.c['hi'] if it is None else it
        d = p - q.c['lo'] + k
        return [('no vehicle appears or disappears', z3.And(k >= 0, q.len == q0.len - k)),
                ('the exit queue grows only at the back', FA([p], z3.Implies(z3.And(0 <= p, p < f0.len), f.at(p) == f0.at(p)), [z3.Select(f.c['e'], f.c['lo'] + p)])),
                ('vehicles that leave are the front of the line, in order', fa_range(p, 0, k, f.at(f0.len + p) == old(p)[0], [old(p)[0]])),
                ('vehicles that leave have waited the free-flow time', fa_range(p, 0, k, old(p)[1] >= b, [old(p)[1]])),
                ('vehicles that stay keep their place', FA([p], z3.Implies(z3.And(q.c['lo'] <= p, p < q.c['hi']), el(p)[0] == old(d)[0]), [el(p)[0]])),
                ('vehicles that stay wait one more interval', FA([p], z3.Implies(z3.And(q.c['lo'] <= p, p < done), el(p)[1] == old(d)[1] + 1), [el(p)[1]])),
                ('vehicles that stay have not waited the free-flow time', FA([p], z3.Implies(z3.And(q.c['lo'] <= p, p < done), old(d)[1] < b), [el(p)[1]])),
                ('untouched', FA([p], z3.Implies(z3.And(done <= p, p < q.c['hi']), el(p)[1] == old(d)[1]), [el(p)[1]]))]

    def ensures(self, c):
        r = self.rel(c, c.st)[:-1]
        r += [('waiting times stay ordered', g) for g in self.stamps(self.qs(c, c.st)[1])]
        return r

    def idx_invs(self, c):
        return [('rel%d' % i, lambda s, it, i=i: self.rel(c, s, it)[i][1]) for i in range(8)]


class PqAdmit(PqStep):
    """admission puts arriving vehicles at the back with zero waiting time and leaves the others alone"""
    modifies = {INCQ, 'MNM_Dlink_Pq::m_veh_queue', 'MNM_Dlink_Pq::m_volume'}

    def rel2(self, c, st):
        q, q0 = self.qs(c, st)[1], self.qs(c, c.old)[1]
        i, i0 = F(c.eng, st, c.this, INCQ), F(c.eng, c.old, c.this, INCQ)
        k = q.len - q0.len
        p = z3.Int('rp')
        S = z3.Select
        el = lambda x: (S(q.c['e.first'], x), S(q.c['e.second'], x))
        old = lambda x: (S(q0.c['e.first'], x), S(q0.c['e.second'], x))
        lo, hi, hi0 = q.c['lo'], q.c['hi'], q0.c['hi']
        return [('no vehicle appears or disappears', z3.And(k >= 0, i.len == i0.len - k, lo == q0.c['lo'])),
                ('vehicles already on the link are untouched', fa_range(p, lo, hi0, z3.And(el(p)[0] == old(p)[0], el(p)[1] == old(p)[1]), [el(p)[0]])),
                ('waiting times of vehicles already on the link are untouched', fa_range(p, lo, hi0, el(p)[1] == old(p)[1], [el(p)[1]])),
                ('admitted vehicles queue up in order of arrival', fa_range(p, hi0, hi, el(p)[0] == i0.at(p - hi0), [el(p)[0]])),
                ('admitted vehicles start with zero waiting time', fa_range(p, hi0, hi, el(p)[1] == 0, [el(p)[1]])),
                ('the entry queue shrinks only at the front', fa_range(p, 0, i.len, i.at(p) == i0.at(k + p), [i.at(p)]))]

    def ensures(self, c):
        return self.rel2(c, c.st) + [('waiting times stay ordered', g) for g in self.stamps(self.qs(c, c.st)[1])]

    def invs(self, c):
        return [('adm%d' % i, lambda s, i=i: self.rel2(c, s)[i][1]) for i in range(6)]

    def idx_invs(self, c):
        return []


def move_queue_call(cc):
    """contract of move_veh_queue at a call site: the first n vehicles of one queue go, in order, to the back of another"""
    eng, st = cc.eng, cc.st
    src, dst = cc.args[0].lv, cc.args[1].lv
    n = cc.arg(2)
    if z3.is_expr(n) and n.sort() != I:
        n = z3.ToInt(n)
    v, w = eng.read(st, src), eng.read(st, dst)
    m = eng.fresh(I, 'nmoved')
    st.pc.append(m == z3.If(n > 0, n, 0))
    cc.requires(m <= v.len, 'no more vehicles than are waiting')
    cc.requires(z3.BoolVal(True) if type(src) is not type(dst) or getattr(src, 'name', 0) != getattr(dst, 'name', 0)
                else src.ref != dst.ref, 'two different queues')
    e2 = eng.fresh(w.c['e'].sort(), 'moved')
    p = z3.Int('mp')
    lo, hi = w.c['lo'], w.c['hi']
    c2 = dict(w.c)
    c2['e'], c2['hi'] = e2, hi + m
    if 'bag' in c2:
        c2['bag'] = eng.fresh(c2['bag'].sort(), 'bag')
    c1 = dict(v.c)
    c1['lo'] = v.c['lo'] + m
    if 'bag' in c1:
        c1['bag'] = eng.fresh(c1['bag'].sort(), 'bag')
    eng.write(st, src, Cv(v.ty, c1))
    eng.write(st, dst, Cv(w.ty, c2))
    st.pc.append(FA([p], z3.Implies(z3.And(lo <= p, p < hi), z3.Select(e2, p) == z3.Select(w.c['e'], p)), [z3.Select(e2, p)]))
    st.pc.append(FA([p], z3.Implies(z3.And(hi <= p, p < hi + m), z3.Select(e2, p) == z3.Select(v.c['e'], v.c['lo'] + p - hi)), [z3.Select(e2, p)]))
    return z3.IntVal(0)


class MoveQueue(Contract):
    modifies = set()

    def make_arg(self, eng, st, nm, ty):
        if ty.k == 'ptr' and ty.a.k == 'seq':
            k = ('ext', nm)
            st.loc[k] = named_val(ty.a, 'arg_' + nm)
            eng.wf(st, st.loc[k])
            return PLv(LVar(k, ty.a))
        return None

    def qs(self, c, st):
        a = [x for x in c.args if isinstance(x, PLv)]
        return [st.loc[x.lv.key] for x in a[:2]]

    def requires(self, c):
        return [c.args[2] <= self.qs(c, c.st)[0].len]

    def rel(self, c, st):
        v, w = self.qs(c, st)
        v0, w0 = self.qs(c, c.old)
        k = w.len - w0.len
        p = z3.Int('mp')
        S = z3.Select
        return [('lengths', z3.And(k >= 0, v.c['lo'] == v0.c['lo'] + k, v.c['hi'] == v0.c['hi'], w.c['lo'] == w0.c['lo'])),
                ('vehicles already in the queue stay', fa_range(p, w0.c['lo'], w0.c['hi'], S(w.c['e'], p) == S(w0.c['e'], p), [S(w.c['e'], p)])),
                ('moved vehicles keep their order', fa_range(p, w0.c['hi'], w.c['hi'], S(w.c['e'], p) == S(v0.c['e'], v0.c['lo'] + p - w0.c['hi']), [S(w.c['e'], p)])),
                ('remaining vehicles keep their order', fa_range(p, v.c['lo'], v.c['hi'], S(v.c['e'], p) == S(v0.c['e'], p), [S(v.c['e'], p)]))]

    def ensures(self, c):
        n = c.args0[2]
        w, w0 = self.qs(c, c.st)[1], self.qs(c, c.old)[1]
        return self.rel(c, c.st) + [('exactly the requested number moves', w.len - w0.len == z3.If(n > 0, n, 0))]

    def invs(self, c):
        return [('mv%d' % i, lambda s, i=i: self.rel(c, s)[i][1]) for i in range(4)]


class CtmOrder(CtmShape, Contract):
    def contracts(self):
        return {'MNM_Dlink::move_veh_queue': move_queue_call}

    rlimit = 3000000
    weight = 5
    frame_preds = CtmShape.SHAPE_FRAME

    def parts(self, c, st):
        ca, n = self.cells(c, c.old if c.old is not None else c.st), self.ncells(c, c.old if c.old is not None else c.st)
        lo = c.eng.heap_get(st, 'Ctm_Cell::m_veh_queue~lo', I)
        hi = c.eng.heap_get(st, 'Ctm_Cell::m_veh_queue~hi', I)
        e = c.eng.heap_get(st, 'Ctm_Cell::m_veh_queue~e', z3.ArraySort(I, I))
        f, a = F(c.eng, st, c.this, FINQ), F(c.eng, st, c.this, INCQ)
        fs, as_ = (f.c['e'], f.c['lo'], f.c['hi']), (a.c['e'], a.c['lo'], a.c['hi'])
        x, y, p, q = z3.Ints('cx cy op oq')
        S = z3.Select
        V = lambda i, p: S(S(e, i), p)
        inr = lambda i, p: z3.And(owner(i) == c.this, 0 <= cellpos(i), cellpos(i) < n, S(lo, i) <= p, p < S(hi, i))
        return [_sorted_in(*fs), _sorted_in(*as_), _before(fs, as_),
                FA([x, p, q], z3.Implies(z3.And(inr(x, p), inr(x, q), p < q), rank(V(x, p)) < rank(V(x, q))), [z3.MultiPattern(V(x, p), V(x, q))]),
                FA([x, y, p, q], z3.Implies(z3.And(inr(x, p), inr(y, q), cellpos(x) > cellpos(y)), rank(V(x, p)) < rank(V(y, q))), [z3.MultiPattern(V(x, p), V(y, q))]),
                FA([x, p, q], z3.Implies(z3.And(inr(x, p), f.c['lo'] <= q, q < f.c['hi']), rank(S(f.c['e'], q)) < rank(V(x, p))), [z3.MultiPattern(V(x, p), S(f.c['e'], q))]),
                FA([x, p, q], z3.Implies(z3.And(inr(x, p), a.c['lo'] <= q, q < a.c['hi']), rank(V(x, p)) < rank(S(a.c['e'], q))), [z3.MultiPattern(V(x, p), S(a.c['e'], q))])]

    NAMES = ['exit queue', 'entry queue', 'exit queue ahead of entry queue', 'within each cell', 'downstream cells ahead of upstream cells',
             'exit queue ahead of all cells', 'all cells ahead of entry queue']

    def requires(self, c):
        return self.shape(c) + self.parts(c, c.st)

    def ensures(self, c):
        return [('order kept: ' + n, g) for n, g in zip(self.NAMES, self.parts(c, c.st))]

    def invs(self, c):
        return [('line%d' % i, lambda s, i=i: self.parts(c, s)[i]) for i in range(7)]

    def idx_invs(self, c):
        def rel(s, cell):
            return F(c.eng, s, cell, 'Ctm_Cell::m_out_veh') <= F(c.eng, s, cell, 'Ctm_Cell::m_veh_queue').len
        return [('out<=len ' + n, f) for n, f in self.per_cell(c, rel)]


def C03():
    f = 'dlink.cpp'
    return [
        MoveQueue('moving vehicles between queues', 'MNM_Dlink::move_veh_queue', f),
        PqStep('point queue step', 'MNM_Dlink_Pq::evolve', f),
        PqAdmit('point queue admission', 'MNM_Dlink_Pq::clear_incoming_array', f),
        LineOrder('link queue step keeps order', 'MNM_Dlink_Lq::evolve', f, Q='MNM_Dlink_Lq::m_veh_queue'),
        LineOrder('link queue admission keeps order', 'MNM_Dlink_Lq::clear_incoming_array', f, Q='MNM_Dlink_Lq::m_veh_queue'),
        LineOrder('link transmission step keeps order', 'MNM_Dlink_Ltm::evolve', f, Q='MNM_Dlink_Ltm::m_veh_queue'),
        LineOrder('link transmission admission keeps order', 'MNM_Dlink_Ltm::clear_incoming_array', f, Q='MNM_Dlink_Ltm::m_veh_queue'),
        CtmOrder('cell link step keeps order', 'MNM_Dlink_Ctm::evolve', f),
        CtmOrder('cell link admission keeps order', 'MNM_Dlink_Ctm::clear_incoming_array', f),
    ]
