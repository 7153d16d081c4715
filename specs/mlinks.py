"""Contracts of the two-class (car / truck) link models (multiclass.cpp)."""
import z3
from vcgen.verify import Contract, F
from .common import *
from .links import AllIn, VolConserve, qlen, FINQ, INCQ

CELL = 'Ctm_Cell_Multiclass'
CTM, LQ, PQ = 'MNM_Dlink_Ctm_Multiclass', 'MNM_Dlink_Lq_Multiclass', 'MNM_Dlink_Pq_Multiclass'
CLS = 'MNM_Veh_Multiclass::m_class'
QF = (FINQ, INCQ, CELL + '::m_veh_queue_car', CELL + '::m_veh_queue_truck', LQ + '::m_veh_queue_car', LQ + '::m_veh_queue_truck',
      LQ + '::m_veh_out_buffer_car', LQ + '::m_veh_out_buffer_truck', PQ + '::m_veh_pool')


def cls_of(c, st, v):
    return z3.Select(c.eng.heap_get(st, CLS, I), v)


def side(c, st, e, lo, hi, car):
    p = z3.Int('kp')
    v = z3.Select(e, p)
    k = cls_of(c, st, v)
    return FA([p], z3.Implies(z3.And(lo <= p, p < hi), (k == 0) if car else (k != 0)), [v])


class MCtm(CtmShape, Conserve):
    isa = ('MNM_Veh_Multiclass',)
    LINK, CELL = CTM, CELL
    veh_fields = QF
    frame_preds = CtmShape.SHAPE_FRAME

    def sep(self, c, st, n=None):
        """cars stand only in car queues, trucks only in truck queues"""
        r = []
        for nm, car in (('m_veh_queue_car', True), ('m_veh_queue_truck', False)):
            f = CELL + '::' + nm
            lo, hi = c.eng.heap_get(st, f + '~lo', I), c.eng.heap_get(st, f + '~hi', I)
            e = c.eng.heap_get(st, f + '~e', z3.ArraySort(I, I))
            x, p = z3.Ints('sx sp')
            v = z3.Select(z3.Select(e, x), p)
            k = cls_of(c, st, v)
            r.append(FA([x, p], z3.Implies(z3.And(owner(x) == c.this, z3.Select(lo, x) <= p, p < z3.Select(hi, x)), (k == 0) if car else (k != 0)), [v]))
        return r

    def requires(self, c):
        return self.shape(c) + self.sep(c, c.st)

    def more(self, c):
        a, b = self.sep(c, c.st)
        return [('car queues hold only cars', a), ('truck queues hold only trucks', b)]

    def invs(self, c):
        return Conserve.invs(self, c) + [('sep%d' % i, lambda s, i=i: self.sep(c, s)[i]) for i in range(2)]

    def idx_invs(self, c):
        r = []
        for k in ('car', 'truck'):
            def rel(s, cell, k=k):
                return F(c.eng, s, cell, CELL + '::m_out_veh_' + k) <= F(c.eng, s, cell, CELL + '::m_veh_queue_' + k).len
            r += [('out_%s<=len %s' % (k, n), f) for n, f in self.per_cell(c, rel)]
        return r


class MCtmClear(MCtm):
    def more(self, c):
        return MCtm.more(self, c) + AllIn.more(self, c)


class MLq(Conserve):
    isa = ('MNM_Veh_Multiclass',)
    veh_fields = QF
    NAMES = ('m_veh_queue_car', 'm_veh_queue_truck', 'm_veh_out_buffer_car', 'm_veh_out_buffer_truck')

    def sep(self, c, st):
        r = []
        for nm in self.NAMES:
            q = F(c.eng, st, c.this, LQ + '::' + nm)
            r.append(side(c, st, q.c['e'], q.c['lo'], q.c['hi'], nm.endswith('car')))
        return r

    def requires(self, c):
        return self.sep(c, c.st) + [F(c.eng, c.st, c.this, LQ + '::' + n).len == 0 for n in self.NAMES[2:]]

    def more(self, c):
        r = [('%s holds only %s' % (n, 'cars' if n.endswith('car') else 'trucks'), g) for n, g in zip(self.NAMES, self.sep(c, c.st))]
        return r + [('out buffers are empty between steps', F(c.eng, c.st, c.this, LQ + '::' + n).len == 0) for n in self.NAMES[2:]]

    def invs(self, c):
        return Conserve.invs(self, c) + [('sep%d' % i, lambda s, i=i: self.sep(c, s)[i]) for i in range(4)]


class MLqClear(MLq):
    def more(self, c):
        return MLq.more(self, c) + AllIn.more(self, c)


class MPq(Conserve):
    isa = ('MNM_Veh_Multiclass',)
    veh_fields = QF

    def more(self, c):
        def n(st):
            return qlen(c, st, PQ + '::m_veh_pool') + qlen(c, st, FINQ)
        return [('vehicle count on the link unchanged', n(c.st) == n(c.old))]


class MPqClear(Conserve):
    isa = ('MNM_Veh_Multiclass',)
    veh_fields = QF


def C02():
    f = 'multiclass.cpp'
    return [
        MCtm('two-class cell link step', CTM + '::evolve', f),
        MCtmClear('two-class cell link admission', CTM + '::clear_incoming_array', f),
        MLq('two-class link queue step', LQ + '::evolve', f),
        MLqClear('two-class link queue admission', LQ + '::clear_incoming_array', f),
        MPq('two-class point queue step', PQ + '::evolve', f),
        MPqClear('two-class point queue admission', PQ + '::clear_incoming_array', f),
    ]


# ---------------------------------------------------------------- order within a class, point-queue dwell time
from .links import PqStep, PqAdmit, rank, MoveQueue, move_queue_call


class MPqStep(PqStep):
    isa = ('MNM_Veh_Multiclass',)
    Q = PQ + '::m_veh_pool'
    modifies = {FINQ, Q, 'MNM_Dlink_Multiclass::m_tot_wait_time_at_intersection',
                'MNM_Dlink_Multiclass::m_tot_wait_time_at_intersection_car', 'MNM_Dlink_Multiclass::m_tot_wait_time_at_intersection_truck'}


class MPqAdmit(PqAdmit):
    isa = ('MNM_Veh_Multiclass',)
    Q = PQ + '::m_veh_pool'
    modifies = {INCQ, Q, PQ + '::m_volume_car', PQ + '::m_volume_truck'}


class MLqOrder(Contract):
    """vehicles of one class stand in one line (exit queue, out buffer, body, entry queue); the order is kept"""
    isa = ('MNM_Veh_Multiclass',)
    weight = 3
    SEGS = [FINQ, LQ + '::m_veh_out_buffer_car', LQ + '::m_veh_out_buffer_truck', LQ + '::m_veh_queue_car', LQ + '::m_veh_queue_truck', INCQ]
    POS = [0, 1, 1, 2, 2, 3]

    def segs(self, c, st):
        r = []
        for f in self.SEGS:
            q = F(c.eng, st, c.this, f)
            r.append((q.c['e'], q.c['lo'], q.c['hi']))
        return r

    def sep(self, c, st):
        return [side(c, st, *s, f.endswith('car')) for f, s in zip(self.SEGS, self.segs(c, st)) if f.endswith('car') or f.endswith('truck')]

    def parts(self, c, st):
        p, q = z3.Ints('op oq')
        sg = self.segs(c, st)
        S = z3.Select
        out = []
        for i, (e, lo, hi) in enumerate(sg):
            a, b = S(e, p), S(e, q)
            out.append(FA([p, q], z3.Implies(z3.And(lo <= p, p < q, q < hi, (cls_of(c, st, a) == 0) == (cls_of(c, st, b) == 0)), rank(a) < rank(b)),
                          [z3.MultiPattern(a, b)]))
        for i in range(len(sg)):
            for j in range(i + 1, len(sg)):
                if self.POS[i] == self.POS[j] or {self.SEGS[i].split('_')[-1], self.SEGS[j].split('_')[-1]} == {'car', 'truck'}:
                    continue
                (e1, l1, h1), (e2, l2, h2) = sg[i], sg[j]
                a, b = S(e1, p), S(e2, q)
                out.append(FA([p, q], z3.Implies(z3.And(l1 <= p, p < h1, l2 <= q, q < h2, (cls_of(c, st, a) == 0) == (cls_of(c, st, b) == 0)), rank(a) < rank(b)),
                              [z3.MultiPattern(a, b)]))
        return out

    def requires(self, c):
        return self.sep(c, c.st) + self.parts(c, c.st) + [F(c.eng, c.st, c.this, f).len == 0 for f in self.SEGS[1:3]]

    def ensures(self, c):
        return ([('order within a class kept [%d]' % i, g) for i, g in enumerate(self.parts(c, c.st))] +
                [('no vehicle stays in the hand-over buffer', F(c.eng, c.st, c.this, f).len == 0) for f in self.SEGS[1:3]])

    def invs(self, c):
        n, m = len(self.sep(c, c.old)), len(self.parts(c, c.old))
        return ([('sep%d' % i, lambda s, i=i: self.sep(c, s)[i]) for i in range(n)] +
                [('line%d' % i, lambda s, i=i: self.parts(c, s)[i]) for i in range(m)])


VIS = 'MNM_Veh::m_visual_position_on_link'


def mmove_call(cc):
    cc.havoc_heap(VIS)
    return move_queue_call(cc)


class MMoveQueue(MoveQueue):
    isa = ('MNM_Veh_Multiclass',)
    modifies = {VIS}


class MCtmOrder(MCtm):
    """order within one class on the two-class cell link"""
    total = False
    veh_fields = ()
    CAR = True
    retry = True
    rlimit = 3000000
    weight = 5

    def contracts(self):
        return {CTM + '::move_veh_queue': mmove_call}

    def parts(self, c, st):
        c0 = c.old if c.old is not None else c.st
        n = self.ncells(c, c0)
        Q = CELL + ('::m_veh_queue_car' if self.CAR else '::m_veh_queue_truck')
        lo = c.eng.heap_get(st, Q + '~lo', I)
        hi = c.eng.heap_get(st, Q + '~hi', I)
        e = c.eng.heap_get(st, Q + '~e', z3.ArraySort(I, I))
        f, a = F(c.eng, st, c.this, FINQ), F(c.eng, st, c.this, INCQ)
        x, y, p, q = z3.Ints('cx cy op oq')
        S = z3.Select
        V = lambda i, p: S(S(e, i), p)
        fe, ae = (lambda p: S(f.c['e'], p)), (lambda p: S(a.c['e'], p))
        k = (lambda v: cls_of(c, st, v) == 0) if self.CAR else (lambda v: cls_of(c, st, v) != 0)
        inf = lambda p: z3.And(f.c['lo'] <= p, p < f.c['hi'], k(fe(p)))
        ina = lambda p: z3.And(a.c['lo'] <= p, p < a.c['hi'], k(ae(p)))
        inr = lambda i, p: z3.And(owner(i) == c.this, 0 <= cellpos(i), cellpos(i) < n, S(lo, i) <= p, p < S(hi, i))
        MP = z3.MultiPattern
        return [FA([p, q], z3.Implies(z3.And(inf(p), inf(q), p < q), rank(fe(p)) < rank(fe(q))), [MP(fe(p), fe(q))]),
                FA([p, q], z3.Implies(z3.And(ina(p), ina(q), p < q), rank(ae(p)) < rank(ae(q))), [MP(ae(p), ae(q))]),
                FA([p, q], z3.Implies(z3.And(inf(p), ina(q)), rank(fe(p)) < rank(ae(q))), [MP(fe(p), ae(q))]),
                FA([x, p, q], z3.Implies(z3.And(inr(x, p), inr(x, q), p < q), rank(V(x, p)) < rank(V(x, q))), [MP(V(x, p), V(x, q))]),
                FA([x, y, p, q], z3.Implies(z3.And(inr(x, p), inr(y, q), cellpos(x) > cellpos(y)), rank(V(x, p)) < rank(V(y, q))), [MP(V(x, p), V(y, q))]),
                FA([x, p, q], z3.Implies(z3.And(inr(x, p), inf(q)), rank(fe(q)) < rank(V(x, p))), [MP(V(x, p), fe(q))]),
                FA([x, p, q], z3.Implies(z3.And(inr(x, p), ina(q)), rank(V(x, p)) < rank(ae(q))), [MP(V(x, p), ae(q))])]

    NAMES = ['exit queue', 'entry queue', 'exit queue ahead of entry queue', 'within each cell', 'downstream cells ahead of upstream cells',
             'exit queue ahead of all cells', 'all cells ahead of entry queue']

    def requires(self, c):
        return self.shape(c) + self.sep(c, c.st) + self.parts(c, c.st)

    def ensures(self, c):
        return [('order within a class kept: ' + n, g) for n, g in zip(self.NAMES, self.parts(c, c.st))]

    def invs(self, c):
        return ([('sep%d' % i, lambda s, i=i: self.sep(c, s)[i]) for i in range(2)] +
                [('line%d' % i, lambda s, i=i: self.parts(c, s)[i]) for i in range(7)])


def C26():
    f = 'multiclass.cpp'
    return [
        MPqStep('two-class point queue step', PQ + '::evolve', f),
        MPqAdmit('two-class point queue admission', PQ + '::clear_incoming_array', f),
        MLqOrder('two-class link queue step keeps order', LQ + '::evolve', f),
        MLqOrder('two-class link queue admission keeps order', LQ + '::clear_incoming_array', f),
        MMoveQueue('moving vehicles between cells', CTM + '::move_veh_queue', f),
        MCtmOrder('two-class cell link step keeps order of cars', CTM + '::evolve', f, CAR=True),
        MCtmOrder('two-class cell link step keeps order of trucks', CTM + '::evolve', f, CAR=False),
        MCtmOrder('two-class cell link admission keeps order of cars', CTM + '::clear_incoming_array', f, mbqi=True, CAR=True),
        MCtmOrder('two-class cell link admission keeps order of trucks', CTM + '::clear_incoming_array', f, mbqi=True, CAR=False),
    ]
