"""Contracts of the single-class nodes (dnode.cpp)."""
import z3
from vcgen.verify import Contract, F
from .common import *

QF = ('MNM_Dlink::m_finished_array', 'MNM_Dlink::m_incoming_array')
INC = 'MNM_Dlink::m_incoming_array'
FIN = 'MNM_Dlink::m_finished_array'
supply_of = z3.Function('supply_of', I, R)      # receiving capacity of a link in the current interval


def harr(c, st, key, sort):
    """heap map of a field component in a state"""
    return c.eng.heap_get(st, key, sort)


def seq_field(c, st, name):
    lo = harr(c, st, name + '~lo', I)
    hi = harr(c, st, name + '~hi', I)
    e = harr(c, st, name + '~e', z3.ArraySort(I, I))
    return lo, hi, e


def new_arrivals_right(c, st):
    """every vehicle appended to a link's entry queue in this step had chosen that link and is now on it"""
    lo, hi, e = seq_field(c, st, INC)
    lo0, hi0, e0 = seq_field(c, c.old, INC)
    nxt = harr(c, st, 'MNM_Veh::m_next_link', I)
    cur = harr(c, st, 'MNM_Veh::m_current_link', I)
    l, p = z3.Ints('nl np')
    v = z3.Select(z3.Select(e, l), p)
    rng = z3.And(z3.Select(hi0, l) <= p, p < z3.Select(hi, l))
    return [('entry queues only grow at the back', FA([l], z3.And(z3.Select(lo, l) == z3.Select(lo0, l), z3.Select(hi, l) >= z3.Select(hi0, l)), [z3.Select(hi, l)])),
            ('vehicles enter only the link they chose', FA([l, p], z3.Implies(rng, z3.Select(nxt, v) == l), [v])),
            ('entering vehicles are registered on the link', FA([l, p], z3.Implies(rng, z3.Select(cur, v) == l), [v]))]


def pure_supply(cc):
    return supply_of(cc.this)


def frame_contracts():
    REC = 'MNM_Cumulative_Curve::m_recorder'

    def add_increment(cc):
        cc.may_throw(cc.eng.fresh(B, 'throws'))
        cc.havoc_field(cc.this, REC, cc.eng.fty(REC))
        return z3.IntVal(0)

    def add_flow(cc):
        cc.may_throw(cc.eng.fresh(B, 'throws'))
        cc.havoc_heap(REC)
        return z3.IntVal(0)

    def miles(cc):
        cc.havoc_field(cc.this, 'MNM_Veh::m_miles_traveled', cc.eng.fty('MNM_Veh::m_miles_traveled'))
        return z3.IntVal(0)
    return {'MNM_Dlink::get_link_supply': pure_supply, 'MNM_Cumulative_Curve::add_increment': add_increment,
            'MNM_Tree_Cumulative_Curve::add_flow': add_flow, 'MNM_Veh::update_miles_traveled': miles}


class NodeMove(Conserve):
    veh_fields = QF
    frame_preds = ()

    def contracts(self):
        return frame_contracts()

    def elem_bounds(self, c):
        return [('number of in-links', lambda s: F(c.eng, s, c.this, 'MNM_Dnode::m_in_link_array').len),
                ('number of out-links', lambda s: F(c.eng, s, c.this, 'MNM_Dnode::m_out_link_array').len)]

    def more(self, c):
        return new_arrivals_right(c, c.st)

    def invs(self, c):
        return Conserve.invs(self, c) + [('arrivals%d' % i, lambda s, i=i: new_arrivals_right(c, s)[i][1]) for i in range(3)]


def C04():
    return [NodeMove('junction moves vehicles', 'MNM_Dnode_Inout::move_vehicle', 'dnode.cpp')]


# ---------------------------------------------------------------- origin / destination connectors
OQF = QF + ('MNM_DMOND::m_in_veh_queue', 'MNM_DMDND::m_out_veh_queue')


class OriginEvolve(NodeMove):
    veh_fields = OQF
    VOL = 'MNM_DMOND::m_out_volume'

    def vol(self, c, st):
        return F(c.eng, st, c.this, self.VOL)

    def requires(self, c):
        # class invariant: one counter per out-link; routing only assigns out-links of this node
        ol = F(c.eng, c.st, c.this, 'MNM_Dnode::m_out_link_array')
        q = F(c.eng, c.st, c.this, 'MNM_DMOND::m_in_veh_queue')
        vol = self.vol(c, c.st)
        nxt = harr(c, c.st, 'MNM_Veh::m_next_link', I)
        i = z3.Int('i')
        return [fa_range(i, 0, ol.len, vol.has(ol.at(i)), [ol.at(i)]),
                FA([i], z3.Implies(z3.And(q.c['lo'] <= i, i < q.c['hi']), vol.has(z3.Select(nxt, q.raw(i)))), [q.raw(i)])]

    def invs(self, c):
        nxt0 = harr(c, c.old, 'MNM_Veh::m_next_link', I)
        k = z3.Int('vk')

        def keys(s):
            v, v0 = self.vol(c, s), self.vol(c, c.old)
            return FA([k], v.has(k) == v0.has(k), [v.has(k)])

        def qnext(s):
            q = F(c.eng, s, c.this, 'MNM_DMOND::m_in_veh_queue')
            v0 = self.vol(c, c.old)
            return FA([k], z3.Implies(z3.And(q.c['lo'] <= k, k < q.c['hi']), v0.has(z3.Select(nxt0, q.raw(k)))), [q.raw(k)])
        return NodeMove.invs(self, c) + [('same counters', keys), ('queued vehicles head for out-links', qnext)]


class DestEvolve(Conserve):
    veh_fields = OQF

    def contracts(self):
        return frame_contracts()

    def more(self, c):
        ol = F(c.eng, c.st, c.this, 'MNM_Dnode::m_in_link_array')
        fin = lambda l: F(c.eng, c.st, l, FIN).len
        i = z3.Int('i')
        q, q0 = F(c.eng, c.st, c.this, 'MNM_DMDND::m_out_veh_queue'), F(c.eng, c.old, c.this, 'MNM_DMDND::m_out_veh_queue')
        nxt = harr(c, c.st, 'MNM_Veh::m_next_link', I)
        return [('every vehicle waiting to leave the network left', fa_range(i, 0, ol.len, fin(ol.at(i)) == 0, [ol.at(i)])),
                ('only vehicles without a further link leave', FA([i], z3.Implies(z3.And(q0.c['hi'] <= i, i < q.c['hi']), z3.Select(nxt, q.raw(i)) == 0), [q.raw(i)]))]

    def invs(self, c):
        nxt0 = harr(c, c.old, 'MNM_Veh::m_next_link', I)
        k = z3.Int('vk')

        def nonext(s):
            q, q0 = F(c.eng, s, c.this, 'MNM_DMDND::m_out_veh_queue'), F(c.eng, c.old, c.this, 'MNM_DMDND::m_out_veh_queue')
            return z3.And(q.c['lo'] == q0.c['lo'], q.c['hi'] >= q0.c['hi'],
                          FA([k], z3.Implies(z3.And(q0.c['hi'] <= k, k < q.c['hi']), z3.Select(nxt0, q.raw(k)) == 0), [q.raw(k)]))
        return Conserve.invs(self, c) + [('no next link', nonext)]

    def idx_invs(self, c):
        ol = F(c.eng, c.old, c.this, 'MNM_Dnode::m_in_link_array')
        k = z3.Int('dk')

        def emptied(s, i):
            return FA([k], z3.Implies(z3.And(0 <= k, k < i, k < ol.len), F(c.eng, s, ol.at(k), FIN).len == 0), [ol.at(k)])
        return [('processed in-links are empty', emptied)]


def C06():
    return [OriginEvolve('origin connector step', 'MNM_DMOND::evolve', 'dnode.cpp'),
            DestEvolve('destination connector step', 'MNM_DMDND::evolve', 'dnode.cpp')]
