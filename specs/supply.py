"""Capacity and storage of the single-class links (C13) and their current travel time (C14)."""
import z3
from vcgen.verify import Contract, F
from .common import *
from .links import QF, FINQ, INCQ, qlen, curve_frames, move_queue_call

CELL = 'Ctm_Cell::'


def rmin(a, b):
    return z3.If(a <= b, a, b)


def rmax(a, b):
    return z3.If(a >= b, a, b)


class G:
    """fields of one object in one state"""
    def __init__(self, c, st, ref, cls):
        self.c, self.st, self.ref, self.cls = c, st, ref, cls

    def __getattr__(self, n):
        v = F(self.c.eng, self.st, self.ref, self.cls + n)
        return v


def real(x):
    return z3.ToReal(x) if z3.is_expr(x) and x.sort() == I else x


def cell_ok(g):
    """a cell as the constructor builds it: triangular fundamental diagram with room for two capacities"""
    return [g.m_flow_scalar > 0, g.m_volume >= 0, g.m_flow_cap > 0, g.m_hold_cap >= 2 * g.m_flow_cap, g.m_wave_ratio >= 0,
            g.m_wave_ratio * (g.m_hold_cap - g.m_flow_cap) <= g.m_flow_cap]


def occupancy(g):
    return real(g.m_volume) / g.m_flow_scalar


class CellSupply(Contract):
    throws = 'never'
    modifies = set()

    def g(self, c):
        return G(c, c.old if c.old is not None else c.st, c.this, CELL)

    def requires(self, c):
        return cell_ok(self.g(c))

    def ensures(self, c):
        g = self.g(c)
        v = occupancy(g)
        r = c.result
        return [('never negative', r >= 0), ('never above the capacity of the cell', r <= g.m_flow_cap),
                ('a full cell takes in nothing', z3.Implies(v >= g.m_hold_cap, r == 0)),
                ('never above the free space', z3.Implies(v < g.m_hold_cap, r <= g.m_hold_cap - v)),
                ('a cell below its critical density takes in its full capacity', z3.Implies(v < g.m_flow_cap, r == g.m_flow_cap)),
                ('a congested cell takes in what the backward wave frees',
                 z3.Implies(z3.And(g.m_flow_cap <= v, v < g.m_hold_cap, g.m_wave_ratio <= 1), r == (g.m_hold_cap - v) * g.m_wave_ratio))]


class CellDemand(CellSupply):
    def ensures(self, c):
        g = self.g(c)
        return [('what the cell holds, up to its capacity', c.result == rmin(occupancy(g), g.m_flow_cap))]


SUP, DEM = z3.Function('cell_supply', I, R), z3.Function('cell_demand', I, R)     # ghost: values of the two functions above before the step


def cell_calls():
    """call contracts of a cell's supply and demand (checked on their bodies: CellSupply, CellDemand)"""
    def sup(cc):
        r = SUP(cc.this)
        cc.assume(z3.And(r >= 0, r <= F(cc.eng, cc.st, cc.this, CELL + 'm_flow_cap')))
        return r

    def dem(cc):
        r = DEM(cc.this)
        cc.assume(z3.And(r >= 0, r <= F(cc.eng, cc.st, cc.this, CELL + 'm_flow_cap')))
        return r
    return {'Ctm_Cell::get_supply': sup, 'Ctm_Cell::get_demand': dem}


class CtmBase(CtmShape, Contract):
    frame_preds = CtmShape.SHAPE_FRAME

    def contracts(self):
        return cell_calls()

    def s(self, c):
        return F(c.eng, c.old if c.old is not None else c.st, c.this, 'MNM_Dlink_Ctm::m_flow_scalar')

    def requires(self, c):
        ca, n = self.cells(c, c.st), self.ncells(c, c.st)
        k = z3.Int('k')
        g = G(c, c.st, ca.at(k), CELL)
        return self.shape(c) + [self.s(c) > 0, fa_range(k, 0, n, z3.And(cell_ok(g) + [g.m_flow_scalar == self.s(c)]), [ca.at(k)])]

    def cell(self, c, st, k):
        return G(c, st, self.cells(c, c.old).at(k), CELL)


class CtmOut(CtmBase):
    """update_out_veh: how many vehicles each cell passes on"""
    throws = 'never'
    modifies = {CELL + 'm_out_veh'}

    def rel(self, c, st, k):
        a, b, g = self.cell(c, c.old, k), self.cell(c, c.old, k + 1), self.cell(c, st, k)
        sup, dem = SUP(b.ref), DEM(a.ref)
        o, n = real(g.m_out_veh), real(a.m_veh_queue.len)
        return [('never negative', o >= 0), ('never more than the cell holds', o <= n),
                ('never more than its demand, rounded up', o < dem * self.s(c) + 1),
                ('never more than the next cell can take, rounded up', o < sup * self.s(c) + 1),
                ('no fewer than both allow, rounded down', z3.Or(o == n, o > rmin(dem, sup) * self.s(c) - 1))]

    def ensures(self, c):
        k = z3.Int('k')
        n = self.ncells(c, c.old)
        at = self.cells(c, c.old).at(k)
        last = self.cell(c, c.st, n - 1)
        return [(nm, fa_range(k, 0, n - 1, g, [at])) for nm, g in self.rel(c, c.st, k)] + [
            ('the last cell passes on all its vehicles', last.m_out_veh == self.cell(c, c.old, n - 1).m_veh_queue.len)]

    def idx_invs(self, c):
        n = self.ncells(c, c.old)

        def mk(j, up):
            def f(s, i):
                k = z3.Int('k')
                lo, hi = (0, i) if up == 0 else (i + up - 1, n - 1)
                return fa_range(k, lo, hi, z3.Implies(z3.And(k >= 0, k < n - 1), self.rel(c, s, k)[j][1]), [self.cells(c, c.old).at(k)])
            return f
        return [('out%d.%d' % (j, up), mk(j, up)) for up in range(3) for j in range(5)]


class CtmFlow(CtmBase):
    """one step: the counts follow the vehicles, the planned vehicles move and no others"""
    def requires(self, c):
        return self.shape(c) + [self.s(c) > 0]

    def plan(self, cc):
        """call contract of update_out_veh (checked on its body: CtmOut)"""
        c = cc.eng.ctx
        cc.havoc_heap(CELL + 'm_out_veh')
        k = z3.Int('k')
        n = self.ncells(c, c.old)
        g, l = self.cell(c, cc.st, k), self.cell(c, cc.st, n - 1)
        cc.assume(fa_range(k, 0, n, z3.And(g.m_out_veh >= 0, g.m_out_veh <= g.m_veh_queue.len), [self.cells(c, c.old).at(k)]))
        cc.assume(l.m_out_veh == l.m_veh_queue.len)
        return z3.IntVal(0)

    def contracts(self):
        return dict(cell_calls(), **{'MNM_Dlink_Ctm::update_out_veh': self.plan, 'MNM_Dlink::move_veh_queue': move_queue_call})

    def idx_invs(self, c):
        def rel(s, cell):
            return z3.And(F(c.eng, s, cell, 'Ctm_Cell::m_out_veh') <= F(c.eng, s, cell, 'Ctm_Cell::m_veh_queue').len,
                          F(c.eng, s, cell, 'Ctm_Cell::m_out_veh') >= 0)

        def vol(s, cell):
            return F(c.eng, s, cell, 'Ctm_Cell::m_volume') == F(c.eng, s, cell, 'Ctm_Cell::m_veh_queue').len

        ca, n = self.cells(c, c.old), self.ncells(c, c.old)

        def volx(last):
            def f(s, i):
                if last:
                    l = self.cell(c, s, n - 1)
                    return z3.Implies(i > n - 1, l.m_volume == l.m_veh_queue.len + qlen(c, s, FINQ))
                k = z3.Int('k')
                return FA([k], z3.Implies(z3.And(0 <= k, k < n - 1, k < i), vol(s, ca.at(k))), [ca.at(k)])
            return f

        def lens(cond, out, inn):
            def f(s, i):
                k = z3.Int('k')
                g, g0, p = self.cell(c, s, k), self.cell(c, c.old, k), self.cell(c, s, k - 1)
                return FA([k], z3.Implies(z3.And(0 <= k, k < n, cond(k, i)), g.m_veh_queue.len == g0.m_veh_queue.len
                                          - (g.m_out_veh if out else 0) + (p.m_out_veh if inn else 0)), [ca.at(k)])
            return f

        def front(f):
            def h(s, i):
                g, g0, p = self.cell(c, s, i), self.cell(c, c.old, i), self.cell(c, s, i - 1)
                return z3.Implies(z3.And(f(i), i < n), g.m_veh_queue.len == g0.m_veh_queue.len + z3.If(i > 0, p.m_out_veh, 0))
            return h
        return [('out<=len ' + n, f) for n, f in self.per_cell(c, rel)] + [('vol ' + n, f) for n, f in self.per_cell(c, vol)[:1]] + [
            ('vol but last', volx(False)), ('vol last', volx(True))] + [
            ('len first', lambda s, i: z3.Implies(i > 0, self.cell(c, s, z3.IntVal(0)).m_veh_queue.len == self.cell(c, c.old, z3.IntVal(0)).m_veh_queue.len
                                                  - self.cell(c, s, z3.IntVal(0)).m_out_veh)),
            ('len before', lens(lambda k, i: z3.And(0 < k, k < i), True, True)), ('len at', front(lambda i: i >= 0)),
            ('len after', lens(lambda k, i: k > i, False, False))]

    def length(self, c, s, k, i):
        """queue of cell k when the cells before i have passed on their vehicles"""
        g, g0, p = self.cell(c, s, k), self.cell(c, c.old, k), self.cell(c, s, k - 1)
        n = self.ncells(c, c.old)
        return g.m_veh_queue.len == g0.m_veh_queue.len - z3.If(z3.And(k < i, k < n - 1), g.m_out_veh, 0) + z3.If(z3.And(0 < k, k <= i), p.m_out_veh, 0)

    def invs(self, c):
        ca = self.cells(c, c.old)
        n = self.ncells(c, c.old)

        def last(s):
            g = self.cell(c, s, n - 1)
            return z3.And(g.m_veh_queue.len + qlen(c, s, FINQ) == z3.If(n > 1, self.cell(c, s, n - 2).m_out_veh, 0)
                          + self.cell(c, c.old, n - 1).m_veh_queue.len + qlen(c, c.old, FINQ), g.m_out_veh == self.cell(c, c.old, n - 1).m_veh_queue.len)

        def rest(s):
            k = z3.Int('k')
            return fa_range(k, 0, n - 1, self.length(c, s, k, n), [ca.at(k)])
        return [('last', last), ('rest', rest), ('fin', lambda s: qlen(c, s, FINQ) == qlen(c, c.old, FINQ))]

    def ensures(self, c):
        k = z3.Int('k')
        ca, n = self.cells(c, c.old), self.ncells(c, c.old)
        g, l = self.cell(c, c.st, k), self.cell(c, c.st, n - 1)
        return [('each cell counts the vehicles in it', fa_range(k, 0, n - 1, g.m_volume == g.m_veh_queue.len, [ca.at(k)])),
                ('the last cell counts its vehicles and those waiting to leave', l.m_volume == l.m_veh_queue.len + qlen(c, c.st, FINQ)),
                ('each cell passes on exactly the vehicles planned', fa_range(k, 0, n - 1, self.length(c, c.st, k, n), [ca.at(k)])),
                ('the vehicles of the last cell reach the exit', qlen(c, c.st, FINQ) == qlen(c, c.old, FINQ) + self.cell(c, c.old, n - 1).m_veh_queue.len)]


class CtmTakeIn(CtmBase):
    def contracts(self):
        return dict(cell_calls(), **{'MNM_Dlink::move_veh_queue': move_queue_call})

    def ensures(self, c):
        g0, g = self.cell(c, c.old, z3.IntVal(0)), self.cell(c, c.st, z3.IntVal(0))
        k = real(qlen(c, c.old, INCQ))
        return [('the first cell counts the vehicles in it', g.m_volume == g.m_veh_queue.len),
                ('no more vehicles than the supply', k <= SUP(g0.ref) * self.s(c))]


class Plain(Contract):
    def g(self, c, st=None):
        return G(c, st if st is not None else (c.old if c.old is not None else c.st), c.this, self.qual.split('::')[0] + '::')

    def lanes(self, c):
        return real(F(c.eng, c.old if c.old is not None else c.st, c.this, 'MNM_Dlink::m_number_of_lane'))

    def ffs(self, c):
        return F(c.eng, c.old if c.old is not None else c.st, c.this, 'MNM_Dlink::m_ffs')

    def length(self, c):
        return F(c.eng, c.old if c.old is not None else c.st, c.this, 'MNM_Dlink::m_length')

    def cap(self, c):
        g = self.g(c)
        return g.m_lane_flow_cap * self.lanes(c) * g.m_unit_time

    def pos(self, c):
        g = self.g(c)
        return [g.m_flow_scalar > 0, g.m_lane_flow_cap > 0, g.m_unit_time > 0, self.lanes(c) >= 1, self.ffs(c) > 0, self.length(c) > 0,
                g.m_lane_hold_cap * self.ffs(c) > g.m_lane_flow_cap, g.m_volume >= 0]

    def requires(self, c):
        return self.pos(c)

    def contracts(self):
        return curve_frames()


class PqSupply(Plain):
    throws = 'never'
    modifies = set()

    def ensures(self, c):
        return [('the capacity of the link per interval', c.result == self.cap(c))]


class LtmSupply(Plain):
    modifies = set()

    def ensures(self, c):
        return [('never negative', c.result >= 0), ('never above the capacity of the link per interval', c.result <= self.cap(c))]


class LtmDemand(Plain):
    modifies = {'MNM_Cumulative_Curve::m_recorder'}

    def ensures(self, c):
        return [('never above the capacity of the link per interval', c.result <= self.cap(c))]


class LqBase(Plain):
    """constants of the link queue as the constructor computes them"""
    def requires(self, c):
        g = self.g(c)
        return self.pos(c) + [g.m_C == g.m_lane_flow_cap * self.lanes(c), g.m_k_c * self.ffs(c) == g.m_C]

    def density(self, c):
        g = self.g(c)
        return real(g.m_volume) / g.m_flow_scalar / self.length(c)


class LqSupply(LqBase):
    throws = 'never'
    modifies = set()

    def ensures(self, c):
        g = self.g(c)
        d, jam = self.density(c), g.m_lane_hold_cap * self.lanes(c)
        full = g.m_C * g.m_unit_time
        return [('never negative while not overfull', z3.Implies(d <= jam, c.result >= 0)),
                ('never above the capacity of the link per interval', c.result <= full),
                ('full capacity up to the critical density', z3.Implies(d <= g.m_k_c, c.result == full)),
                ('beyond it, what the backward wave frees', z3.Implies(d > g.m_k_c, c.result == (jam - d) * (
                    g.m_lane_flow_cap / (g.m_lane_hold_cap - g.m_lane_flow_cap / self.ffs(c))) * g.m_unit_time)),
                ('nothing when jammed', z3.Implies(z3.And(d == jam), c.result == 0))]


class LqDemand(LqBase):
    throws = 'never'
    modifies = set()

    def ensures(self, c):
        g = self.g(c)
        d = self.density(c)
        return [('never negative', c.result >= 0), ('never above the capacity of the link per interval', c.result <= g.m_C * g.m_unit_time),
                ('full capacity from the critical density on', z3.Implies(d >= g.m_k_c, c.result == g.m_C * g.m_unit_time)),
                ('below it, density times speed', z3.Implies(d < g.m_k_c, c.result == self.ffs(c) * d * g.m_unit_time))]




def _bounded(kind):
    """call contract of supply / demand functions (checked on their bodies above)"""
    def f(cc):
        eng = cc.eng
        cls = cc.qual.split('::')[0]
        if kind == 'demand' and cls == 'MNM_Dlink_Ltm':
            h = 'MNM_Cumulative_Curve::m_recorder'
            cc.havoc_heap(h)
        r = eng.fresh(R, kind)
        fv = lambda n: F(eng, cc.st, cc.this, n)
        cc.assume(r <= fv(cls + '::m_lane_flow_cap') * real(fv('MNM_Dlink::m_number_of_lane')) * fv(cls + '::m_unit_time'))
        return r
    return f


class Bounded(Plain):
    def contracts(self):
        d = curve_frames()
        for cls in ('MNM_Dlink_Lq', 'MNM_Dlink_Ltm'):
            d[cls + '::get_demand'] = _bounded('demand')
            d[cls + '::get_link_supply'] = _bounded('supply')
        return d


class Step(Bounded):
    Q = None

    def total(self, c, s):
        return qlen(c, s, FINQ) + qlen(c, s, self.Q)

    total_ = total

    def ensures(self, c):
        return [('the exit queue holds at most the capacity per interval, rounded up',
                 real(qlen(c, c.st, FINQ)) < self.cap(c) * self.g(c).m_flow_scalar + 1)]

    def invs(self, c):
        return [('total', lambda s: self.total_(c, s) == self.total_(c, c.old))]


class Admit(Bounded):
    Q = None
    veh_fields = QF

    def contracts(self):
        d = Bounded.contracts(self)
        d['MNM_Dlink::move_veh_queue'] = move_queue_call
        return d

    def ensures(self, c):
        g = self.g(c, c.st)
        k = real(qlen(c, c.st, self.Q) - qlen(c, c.old, self.Q))
        return [('the link counts the vehicles on it', g.m_volume == qlen(c, c.st, self.Q) + qlen(c, c.st, FINQ)),
                ('no more are admitted than the capacity per interval', z3.Or(k == 0, k <= self.cap(c) * self.g(c).m_flow_scalar))]

    def invs(self, c):
        n = lambda s, q: qlen(c, s, q)
        return [('tot', lambda s: n(s, self.Q) + n(s, INCQ) == n(c.old, self.Q) + n(c.old, INCQ)),
                ('grow', lambda s: n(s, self.Q) >= n(c.old, self.Q)), ('fin', lambda s: n(s, FINQ) == n(c.old, FINQ))]


def C13():
    f = 'dlink.cpp'
    q = lambda m: 'MNM_Dlink_%s::m_veh_queue' % m
    return [
        CellSupply('supply of a cell', 'Ctm_Cell::get_supply', f),
        CellDemand('demand of a cell', 'Ctm_Cell::get_demand', f),
        CtmOut('planned moves between cells', 'MNM_Dlink_Ctm::update_out_veh', f),
        CtmFlow('cell link step', 'MNM_Dlink_Ctm::evolve', f),
        CtmTakeIn('cell link admission', 'MNM_Dlink_Ctm::clear_incoming_array', f),
        PqSupply('supply of a point queue', 'MNM_Dlink_Pq::get_link_supply', f),
        Admit('point queue admission', 'MNM_Dlink_Pq::clear_incoming_array', f, Q=q('Pq')),
        LqSupply('supply of a link queue', 'MNM_Dlink_Lq::get_link_supply', f),
        LqDemand('demand of a link queue', 'MNM_Dlink_Lq::get_demand', f),
        Admit('link queue admission', 'MNM_Dlink_Lq::clear_incoming_array', f, Q=q('Lq')),
        Step('link queue step', 'MNM_Dlink_Lq::evolve', f, Q=q('Lq')),
        LtmSupply('supply of a link transmission link', 'MNM_Dlink_Ltm::get_link_supply', f),
        LtmDemand('demand of a link transmission link', 'MNM_Dlink_Ltm::get_demand', f),
        Admit('link transmission admission', 'MNM_Dlink_Ltm::clear_incoming_array', f, Q=q('Ltm')),
        Step('link transmission step', 'MNM_Dlink_Ltm::evolve', f, Q=q('Ltm')),
    ]


# ---------------------------------------------------------------- travel time at the current density
class TT(Plain):
    """travel time at a given number of vehicles (get_link_tt_from_flow) or at the current one (get_link_tt)"""
    throws = 'never'
    modifies = set()
    timeout = 40
    cur = False

    def flow(self, c):
        if not self.cur:
            return real(c.args0[0] if getattr(c, 'args0', None) else c.args[0])
        return FLOW(c.this)

    def contracts(self):
        return {self.qual.split('::')[0] + '::get_link_flow': lambda cc: FLOW(cc.this)} if self.cur else {}

    def requires(self, c):
        g = self.g(c)
        return [g.m_lane_flow_cap > 0, self.lanes(c) >= 1, self.ffs(c) > 0, self.length(c) > 0,
                g.m_lane_hold_cap > g.m_lane_flow_cap / self.ffs(c), self.flow(c) >= 0] + ([
                    g.m_flow_scalar > 0, self.flow(c) == real(g.m_volume) / g.m_flow_scalar] if self.cur and 'Ctm' not in self.qual else [])

    def ensures(self, c):
        g = self.g(c)
        rho = self.flow(c) / self.lanes(c) / self.length(c)
        rk, rj = g.m_lane_flow_cap / self.ffs(c), g.m_lane_hold_cap
        r = c.result
        mid = z3.And(rho > rk, rho < rj)
        spd = g.m_lane_flow_cap * (rj - rho) / ((rj - rk) * rho)
        return [('free-flow time up to the critical density', z3.Implies(rho <= rk, r == self.length(c) / self.ffs(c))),
                ('beyond it, length over the speed of the fundamental diagram (or slower than a thousandth of free flow)',
                 z3.Implies(z3.And(mid, spd >= self.ffs(c) / 1000), r == self.length(c) / spd)),
                ('the largest cost when jammed', z3.Implies(rho >= rj, r == z3.RealVal(str(MAXCOST))))]


FLOW = z3.Function('link_flow', I, R)
MAXCOST = 3600


class Flow(Plain):
    throws = 'never'
    modifies = set()

    def requires(self, c):
        return [self.g(c).m_flow_scalar > 0]

    def ensures(self, c):
        g = self.g(c)
        return [('vehicles on the link over the flow scalar', c.result == real(g.m_volume) / g.m_flow_scalar)]


def C14():
    f = 'dlink.cpp'
    r = []
    for m in ('Ctm', 'Pq', 'Lq', 'Ltm'):
        r.append(TT(m + ' travel time at a given flow', 'MNM_Dlink_%s::get_link_tt_from_flow' % m, f))
        r.append(TT(m + ' current travel time', 'MNM_Dlink_%s::get_link_tt' % m, f, cur=True))
        if m != 'Ctm':
            r.append(Flow(m + ' flow on the link', 'MNM_Dlink_%s::get_link_flow' % m, f))
    return r
