"""Contracts of the vehicle registry (factory.cpp, multiclass.cpp), of the destinations and of the origins (od.cpp, multiclass.cpp)."""
import z3
from vcgen.verify import Contract, F
from vcgen.engine import It, Cv, LVar, LField
from .common import *

VF = 'MNM_Veh_Factory::'
VM = 'MNM_Veh_Factory_Multiclass::'
VMAP = VF + 'm_veh_map'


class Registry(Contract):
    """class invariant of the vehicle registry and what one operation does to it"""
    multi = False
    BASE = ('num_veh', 'enroute', 'finished')
    CLS = ('num_car', 'enroute_car', 'finished_car', 'num_truck', 'enroute_truck', 'finished_truck')

    def g(self, c, st, nm, ref=None):
        return F(c.eng, st, c.this if ref is None else ref, (VM if nm.endswith(('_car', '_truck')) else VF) + 'm_' + nm)

    def inv(self, c, st):
        m = F(c.eng, st, c.this, VMAP)
        k = z3.Int('ik')
        n = self.g(c, st, 'num_veh')
        r = [('registered = under way + finished', n == self.g(c, st, 'enroute') + self.g(c, st, 'finished')),
             ('every registered vehicle is filed under its own number, which is at most the number of vehicles made',
              FA([k], z3.Implies(m.has(k), z3.And(1 <= k, k <= n, m.get(k) > 0, F(c.eng, st, m.get(k), 'MNM_Veh::m_veh_ID') == k)), [m.has(k)])),
             ('count', z3.And(n >= 0, self.g(c, st, 'finished') >= 0))]
        if self.multi:
            for x in ('car', 'truck'):
                r.append(('%ss registered = under way + finished' % x, self.g(c, st, 'num_' + x) == self.g(c, st, 'enroute_' + x) + self.g(c, st, 'finished_' + x)))
            r.append(('cars + trucks = vehicles', n == self.g(c, st, 'num_car') + self.g(c, st, 'num_truck')))
            r.append(('cars + trucks = vehicles (finished)', self.g(c, st, 'finished') == self.g(c, st, 'finished_car') + self.g(c, st, 'finished_truck')))
            r.append(('travel time of cars + trucks = total', self.g(c, st, 'total_time') == self.g(c, st, 'total_time_car') + self.g(c, st, 'total_time_truck')))
        return r

    def requires(self, c):
        r = [x for _, x in self.inv(c, c.st)]
        if self.alloc:
            m = F(c.eng, c.st, c.this, VMAP)
            k = z3.Int('ik')
            r += [c.st.ghost['alloc'] > c.this, FA([k], z3.Implies(m.has(k), m.get(k) < c.st.ghost['alloc']), [m.has(k)])]
        return r

    def same(self, c, names):
        return [('%s unchanged' % n.replace('_', ' '), self.g(c, c.st, n) == self.g(c, c.old, n)) for n in names]

    def delta(self, c, n, d):
        return ('%s changes by %s' % (n.replace('_', ' '), d), self.g(c, c.st, n) == self.g(c, c.old, n) + d)


class NewRegistry(Registry):
    def requires(self, c):
        return []

    def ensures(self, c):
        m = F(c.eng, c.st, c.this, VMAP)
        k = z3.Int('ik')
        names = self.BASE + ('total_time',) + ((self.CLS + ('total_time_car', 'total_time_truck')) if self.multi else ())
        return self.inv(c, c.st) + [('starts empty', z3.And(m.c['n'] == 0, FA([k], z3.Not(m.has(k)), [m.has(k)])))] + \
            [('%s starts at zero' % n, self.g(c, c.st, n) == 0) for n in names]


class MakeVeh(Registry):
    alloc = True
    pnames = ('timestamp', 'veh_type', 'vehicle_cls')

    def ensures(self, c):
        a = dict(zip(c.names, c.args0))
        v = c.result
        n0 = self.g(c, c.old, 'num_veh')
        m, m0 = F(c.eng, c.st, c.this, VMAP), F(c.eng, c.old, c.this, VMAP)
        k = z3.Int('ik')
        f = lambda x: F(c.eng, c.st, v, 'MNM_Veh::' + x)
        r = [('the vehicle is a new object', v == c.old.ghost['alloc']),
             ('the vehicle number was never used before', z3.And(f('m_veh_ID') == n0 + 1, z3.Not(m0.has(n0 + 1)))),
             ('start time recorded', f('m_start_time') == a['timestamp']),
             ('not finished, on no link, no next link', z3.And(f('m_finish_time') < 0, f('m_current_link') == 0, f('m_next_link') == 0)),
             ('type recorded', f('m_type') == a['veh_type']),
             ('the new vehicle is registered', z3.And(m.has(n0 + 1), m.get(n0 + 1) == v)),
             ('no other entry changes', FA([k], z3.Implies(k != n0 + 1, z3.And(m.has(k) == m0.has(k), m.get(k) == m0.get(k))), [m.has(k)])),
             self.delta(c, 'num_veh', 1), self.delta(c, 'enroute', 1)] + self.same(c, ('finished', 'total_time'))
        if self.multi:
            cl = a['vehicle_cls']
            r.append(('class recorded', F(c.eng, c.st, v, 'MNM_Veh_Multiclass::m_class') == cl))
            for x, w in (('car', 0), ('truck', 1)):
                d = z3.If(cl == w, 1, 0)
                r += [self.delta(c, 'num_' + x, d), self.delta(c, 'enroute_' + x, d)] + self.same(c, ('finished_' + x, 'total_time_' + x))
        return r + self.inv(c, c.st)

    def requires(self, c):
        r = super().requires(c)
        if self.multi:
            cl = dict(zip(c.names, c.args))['vehicle_cls']
            r.append(z3.Or(cl == 0, cl == 1))
        return r


class RemoveVeh(Registry):
    pnames = ('veh', 'del')
    multi_cls = False

    def ensures(self, c):
        a = dict(zip(c.names, c.args0))
        v, d = a['veh'], a['del']
        if d.sort() == I:
            d = d != 0
        m, m0 = F(c.eng, c.st, c.this, VMAP), F(c.eng, c.old, c.this, VMAP)
        idn = F(c.eng, c.old, v, 'MNM_Veh::m_veh_ID')
        tt = F(c.eng, c.old, v, 'MNM_Veh::m_finish_time') - F(c.eng, c.old, v, 'MNM_Veh::m_start_time')
        tt = z3.ToReal(tt) if tt.sort() == I else tt
        k = z3.Int('ik')
        r = [('the vehicle was registered', z3.And(m0.has(idn), m0.get(idn) == v)),
             ('exactly this vehicle is taken out of the register', FA([k], z3.And(m.has(k) == z3.And(m0.has(k), z3.Not(z3.And(d, k == idn))),
                                                                                 z3.Implies(m.has(k), m.get(k) == m0.get(k))), [m.has(k)])),
             ('total travel time grows by the time under way', self.g(c, c.st, 'total_time') == self.g(c, c.old, 'total_time') + tt),
             self.delta(c, 'finished', 1), self.delta(c, 'enroute', -1)] + self.same(c, ('num_veh',))
        if self.multi:
            cl = F(c.eng, c.old, v, 'MNM_Veh_Multiclass::m_class')
            for x, w in (('car', 0), ('truck', 1)):
                e = z3.If(cl == w, 1, 0)
                r += [self.delta(c, 'finished_' + x, e), self.delta(c, 'enroute_' + x, -e)] + self.same(c, ('num_' + x,))
                r.append(('%s travel time grows by the time under way' % x, self.g(c, c.st, 'total_time_' + x) == self.g(c, c.old, 'total_time_' + x) + z3.If(cl == w, tt, 0)))
        return r + self.inv(c, c.st)

    def requires(self, c):
        r = super().requires(c) + [c.args[0] > 0, c.args[0] != c.this]
        if self.multi:
            cl = F(c.eng, c.st, c.args[0], 'MNM_Veh_Multiclass::m_class')
            r.append(z3.Or(cl == 0, cl == 1))
        return r


def C07():
    f, m = 'factory.cpp', 'multiclass.cpp'
    mk = dict(multi=True)
    return [
        NewRegistry('new register', 'MNM_Veh_Factory::MNM_Veh_Factory', f),
        MakeVeh('make a vehicle', 'MNM_Veh_Factory::make_veh', f),
        RemoveVeh('remove a finished vehicle', 'MNM_Veh_Factory::remove_finished_veh', f),
        NewRegistry('new two-class register', 'MNM_Veh_Factory_Multiclass::MNM_Veh_Factory_Multiclass', m, **mk),
        MakeVeh('make a car or truck', 'MNM_Veh_Factory_Multiclass::make_veh_multiclass', m, **mk),
        RemoveVeh('remove a finished car or truck', 'MNM_Veh_Factory_Multiclass::remove_finished_veh', m, isa=('MNM_Veh_Multiclass',), **mk),
    ]


# ---------------------------------------------------------------- destinations
OUTQ = 'MNM_DMDND::m_out_veh_queue'
VEH = ('m_finish_time', 'm_start_time', 'm_veh_ID', 'm_dest')
TRACKER = 'MNM_Routing_Fixed::m_tracker'


def remove_finished_call(cc):
    """frame contract of the routing's bookkeeping for a finished vehicle (checked on the bodies, contracts 'routing frame'):
    nothing but the routing's own link lists is written"""
    cc.may_throw(cc.eng.fresh(B, 'throws'))
    cc.havoc_heap(TRACKER)
    return z3.IntVal(0)


def registry_remove_call(cc):
    """contract of remove_finished_veh at a call site (proved in C07)"""
    eng, st = cc.eng, cc.st
    v, d = cc.arg(0), cc.arg(1)
    d = d if d.sort() == B else d != 0
    fac = cc.this
    cc.may_throw(eng.fresh(B, 'unregistered'))
    fin, start = (F(eng, st, v, 'MNM_Veh::' + x) for x in ('m_finish_time', 'm_start_time'))
    for nm, dd in (('enroute', -1), ('finished', 1), ('total_time', z3.ToReal(fin - start))):
        f = VF + 'm_' + nm
        eng.write(st, LField(fac, f, eng.fty(f)), F(eng, st, fac, f) + dd)
    cc.havoc_field(fac, VMAP, eng.fty(VMAP))
    for x in VEH + ('m_class', 'm_type', 'm_current_link', 'm_next_link', 'm_path', 'm_origin', 'm_assign_interval', 'm_label'):
        f = 'MNM_Veh::' + x
        old = F(eng, st, v, f)
        eng.write(st, LField(v, f, eng.fty(f)), z3.If(d, eng.fresh(old.sort(), 'deleted'), old))
    return z3.IntVal(0)


PSUM = z3.Function('psum', I, R)       # ghost: total time under way of the first k vehicles of the queue


class Receive(Contract):
    full = True
    pnames = ('current_interval', 'routing', 'veh_factory', 'del')

    def contracts(self):
        return {'MNM_Routing::remove_finished': remove_finished_call, 'MNM_Veh_Factory::remove_finished_veh': registry_remove_call}

    def q(self, c, st):
        node = F(c.eng, c.old if c.old is not None else c.st, c.this, 'MNM_Destination::m_dest_node')
        return F(c.eng, st, node, OUTQ)

    def start(self, c, v):
        return F(c.eng, c.old, v, 'MNM_Veh::m_start_time')

    def requires(self, c):
        q = self.q(c, c.st)
        p, r = z3.Ints('rp rq')
        S = z3.Select
        node = F(c.eng, c.st, c.this, 'MNM_Destination::m_dest_node')
        pre = [q.c['lo'] == 0, q.c['hi'] >= 0, node > 0,
               FA([p], z3.Implies(z3.And(0 <= p, p < q.len), S(q.c['e'], p) > 0), [S(q.c['e'], p)]),
               FA([p, r], z3.Implies(z3.And(0 <= p, p < r, r < q.len), S(q.c['e'], p) != S(q.c['e'], r)), [z3.MultiPattern(S(q.c['e'], p), S(q.c['e'], r))])]
        if self.full:
            fac = dict(zip(c.names, c.args))['veh_factory']
            cur = z3.ToReal(dict(zip(c.names, c.args))['current_interval'])
            st0 = c.eng.heap_get(c.st, 'MNM_Veh::m_start_time', I)
            pre += [fac > 0, PSUM(0) == 0,
                    FA([p], z3.Implies(z3.And(0 <= p, p < q.len), PSUM(p + 1) == PSUM(p) + cur - z3.ToReal(S(st0, S(q.c['e'], p)))), [PSUM(p + 1)])]
        return pre

    def rel(self, c, st):
        """state after the first k vehicles of the queue were received"""
        q, q0 = self.q(c, st), self.q(c, c.old)
        S = z3.Select
        e0 = q0.c['e']
        k = q.c['lo']
        p = z3.Int('rp')
        cur = c.args0[0]
        dest0 = c.eng.heap_get(c.old, 'MNM_Veh::m_dest', I)
        H = lambda x: c.eng.heap_get(st, 'MNM_Veh::' + x, I)
        H0 = lambda x: c.eng.heap_get(c.old, 'MNM_Veh::' + x, I)
        r = [('vehicles leave from the front only', z3.And(0 <= k, k <= q0.len, q.c['hi'] == q0.c['hi'], FA([p], z3.Implies(z3.And(k <= p, p < q0.len), S(q.c['e'], p) == S(e0, p)), [S(q.c['e'], p)]))),
             ('only vehicles heading here are received', fa_range(p, 0, k, S(dest0, S(e0, p)) == c.this, [S(e0, p)]))]
        if self.full:
            fac = dict(zip(c.names, c.args0))['veh_factory']
            g = lambda s, n: F(c.eng, s, fac, VF + 'm_' + n)
            r += [('finished vehicles counted', g(st, 'finished') == g(c.old, 'finished') + k),
                  ('vehicles under way counted', g(st, 'enroute') == g(c.old, 'enroute') - k),
                  ('number of vehicles unchanged', g(st, 'num_veh') == g(c.old, 'num_veh')),
                  ('total travel time grows by the time each was under way', g(st, 'total_time') == g(c.old, 'total_time') + PSUM(k))]
            dl = dict(zip(c.names, c.args0))['del']
            dl = dl if dl.sort() == B else dl != 0
            r += [('arrival time recorded', z3.Implies(z3.Not(dl), fa_range(p, 0, k, S(H('m_finish_time'), S(e0, p)) == cur, [S(e0, p)])))]
        else:
            r += [('arrival time recorded', fa_range(p, 0, k, S(H('m_finish_time'), S(e0, p)) == cur, [S(e0, p)]))]
        n = z3.Int('rn')
        r += [('vehicles not received keep %s' % x, FA([n], z3.Implies(S(dest0, n) != c.this, S(H(x), n) == S(H0(x), n)), [S(H(x), n)]))
              for x in VEH]
        r += [('waiting %s' % x, FA([p], z3.Implies(z3.And(k <= p, p < q0.len), S(H(x), S(e0, p)) == S(H0(x), S(e0, p))), [S(e0, p)])) for x in VEH]
        return r

    def ensures(self, c):
        q, q0 = self.q(c, c.st), self.q(c, c.old)
        return [('the arrival queue is emptied', q.len == 0), ('all were received', q.c['lo'] == q0.len)] + \
            [x for x in self.rel(c, c.st) if not x[0].startswith('waiting')]

    def invs(self, c):
        return [('rcv%d' % i, lambda s, i=i: self.rel(c, s)[i][1]) for i in range(len(self.rel(c, c.old)))]


class RoutingFrame(Contract):
    safety = False
    modifies = {TRACKER, '$box:seq<int>'}

    def contracts(self):
        r = {k: remove_finished_call for k in ('MNM_Routing_Fixed::remove_finished', 'MNM_Routing_Biclass_Fixed::remove_finished')}
        r['MNM_Veh::get_class'] = lambda cc: cc.eng.fresh(I, 'class')
        if self.qual == 'MNM_Routing_Biclass_Fixed::remove_finished':
            del r['MNM_Routing_Fixed::remove_finished']
        return r

    def ensures(self, c):
        return [('returns', z3.BoolVal(True))]


def C08():
    f, r = 'od.cpp', 'routing.cpp'
    return [
        Receive('destination receives vehicles', 'MNM_Destination::receive', f, nparams=4),
        Receive('destination marks arrivals', 'MNM_Destination::receive', f, nparams=1, full=False),
        RoutingFrame('routing frame: fixed', 'MNM_Routing_Fixed::remove_finished', r),
        RoutingFrame('routing frame: hybrid', 'MNM_Routing_Hybrid::remove_finished', r),
        RoutingFrame('routing frame: two-class hybrid', 'MNM_Routing_Biclass_Hybrid::remove_finished', r),
        RoutingFrame('routing frame: two-class fixed', 'MNM_Routing_Biclass_Fixed::remove_finished', r),
    ]


# ---------------------------------------------------------------- origins
INQ = 'MNM_DMOND::m_in_veh_queue'
gd, gc = z3.Ints('gd gc')      # ghost: an arbitrary destination and vehicle class


class Release(Contract):
    """demand of one interval: every destination gets floor or floor + 1 of (demand x scalar) vehicles"""
    total = True
    alloc = True
    veh_fields = (INQ,)
    name_nl = True
    retry = False
    classes = None             # None: single class
    DEM = {None: 'MNM_Origin::m_demand', 0: 'MNM_Origin_Multiclass::m_demand_car', 1: 'MNM_Origin_Multiclass::m_demand_truck'}
    ADR = {None: 'MNM_Origin::m_adaptive_ratio', 0: 'MNM_Origin_Multiclass::m_adaptive_ratio_car', 1: 'MNM_Origin_Multiclass::m_adaptive_ratio_truck'}
    CLASSF = 'MNM_Veh_Multiclass::m_class'
    ratio_args = {None: 'adaptive_ratio'}
    pnames = ('current_interval', 'veh_factory', 'assign_interval', 'adaptive_ratio')
    dispatch = {'MNM_Veh': 'MNM_Veh', 'MNM_Veh_Multiclass': 'MNM_Veh_Multiclass'}

    def contracts(self):
        # frame contract of generate_label (checked on its bodies: contracts 'label frame'): writes nothing; may raise an error
        def lab(cc):
            cc.may_throw(cc.eng.fresh(B, 'nolabel'))
            return cc.eng.fresh(I, 'label')
        return {'MNM_Origin::generate_label': lab, 'MNM_Origin_Multiclass::generate_label': lab}

    def prepare(self, eng):
        H = lambda s, f, r: z3.Select(eng.heap_get(s, f, I), r)

        def on_dest(e, st, ref, val):
            cl = True if self.classes is None else H(st, self.CLASSF, ref) == gc
            old = H(st, 'MNM_Veh::m_dest', ref)
            st.ghost['Cnt'] = st.ghost['Cnt'] + z3.If(z3.And(val == gd, cl), 1, 0) - z3.If(z3.And(old == gd, cl), 1, 0)

        def on_class(e, st, ref, val):
            d = H(st, 'MNM_Veh::m_dest', ref) == gd
            st.ghost['Cnt'] = st.ghost['Cnt'] + z3.If(z3.And(val == gc, d), 1, 0) - z3.If(z3.And(H(st, self.CLASSF, ref) == gc, d), 1, 0)
        eng.scalar_hooks['MNM_Veh::m_dest'] = on_dest
        if self.classes is not None:
            eng.scalar_hooks[self.CLASSF] = on_class

    def init_ghost(self, eng, st):
        st.ghost['Cnt'] = z3.Int('Cnt0')

    def a(self, c, nm):
        return dict(zip(c.names, c.args0))[nm]

    def base(self, c):
        return c.old if c.old is not None else c.st

    def demand(self, c, cl, d):
        m = F(c.eng, self.base(c), c.this, self.DEM[cl])
        arr = c.eng.heap_get(self.base(c), '$arr:real', z3.ArraySort(I, R))
        ai = self.a(c, 'assign_interval')
        return m, z3.Select(z3.Select(arr, m.get(d)), ai) * F(c.eng, self.base(c), c.this, 'MNM_Origin::m_flow_scalar')

    def ratio(self, c, cl, d):
        m = F(c.eng, self.base(c), c.this, self.ADR[cl])
        arr = c.eng.heap_get(self.base(c), '$arr:real', z3.ArraySort(I, R))
        return z3.If(m.has(d), z3.Select(z3.Select(arr, m.get(d)), self.a(c, 'assign_interval')), self.a(c, self.ratio_args[cl]))

    def node(self, c):
        return F(c.eng, self.base(c), c.this, 'MNM_Origin::m_origin_node')

    def requires(self, c):
        st = c.st
        al = st.ghost['alloc']
        fac = self.a(c, 'veh_factory')
        r = z3.Int('ur')
        H = lambda f: c.eng.heap_get(st, f, I)
        pre = [gd > 0, gd < al, c.this < al, fac > 0, fac < al, self.node(c) > 0, self.node(c) < al,
               FA([r], z3.Implies(r >= al, z3.Select(H('MNM_Veh::m_dest'), r) == 0), [z3.Select(H('MNM_Veh::m_dest'), r)]),
               F(c.eng, st, c.this, 'MNM_Origin::m_flow_scalar') > 0, F(c.eng, st, c.this, 'MNM_Origin::m_frequency') > 0,
               self.a(c, 'current_interval') >= 0]
        if self.classes is not None:
            pre += [z3.Or(gc == 0, gc == 1)]
        for cl in self.classes or (None,):
            m, d = self.demand(c, cl, gd)
            k = z3.Int('ik')
            pre += [z3.Implies(m.has(gd), z3.And(d >= 0, 0 <= z3.Select(m.c['pos'], gd), z3.Select(m.c['pos'], gd) < m.c['n'],
                                                 z3.Select(m.c['ord'], z3.Select(m.c['pos'], gd)) == gd)),
                    FA([k], z3.Implies(m.has(k), z3.And(k > 0, k < al)), [m.has(k)])]
        m = F(c.eng, st, fac, VMAP)
        k = z3.Int('ik')
        pre += [FA([k], z3.Implies(m.has(k), k <= F(c.eng, st, fac, VF + 'm_num_veh')), [m.has(k)])]
        return pre

    def fresh_rel(self, c, s):
        """facts about the vehicles made so far"""
        a0, a1 = c.old.ghost['alloc'], s.ghost['alloc']
        H = lambda f: c.eng.heap_get(s, f, I)
        r = z3.Int('vr')
        S = z3.Select
        inr = z3.And(a0 <= r, r < a1)
        fac = self.a(c, 'veh_factory')
        ty, de = S(H('MNM_Veh::m_type'), r), S(H('MNM_Veh::m_dest'), r)
        cls = S(H(self.CLASSF), r)
        STATIC_T, ADAPTIVE_T = c.eng.enum_val('MNM_TYPE_STATIC'), c.eng.enum_val('MNM_TYPE_ADAPTIVE')
        out = []

        def each(nm, body, pat):
            out.append((nm, FA([r], z3.Implies(inr, body), [pat])))
        each('each vehicle starts at this origin', S(H('MNM_Veh::m_origin'), r) == c.this, S(H('MNM_Veh::m_origin'), r))
        each('start time is the current interval', S(H('MNM_Veh::m_start_time'), r) == self.a(c, 'current_interval'), S(H('MNM_Veh::m_start_time'), r))
        fq = F(c.eng, c.old, c.this, 'MNM_Origin::m_frequency')
        each('assignment interval recorded', S(H('MNM_Veh::m_assign_interval'), r) == self.a(c, 'current_interval') / fq, S(H('MNM_Veh::m_assign_interval'), r))
        each('each vehicle is fixed or adaptive', z3.Or(ty == STATIC_T, ty == ADAPTIVE_T), ty)
        each('not yet finished', S(H('MNM_Veh::m_finish_time'), r) < 0, S(H('MNM_Veh::m_finish_time'), r))
        for cl in self.classes or (None,):
            m = F(c.eng, c.old, c.this, self.DEM[cl])
            cond = True if cl is None else cls == cl
            w = '' if cl is None else (' (cars)', ' (trucks)')[cl]
            each('each vehicle goes to a destination with demand' + w, z3.Implies(cond, m.has(de)), de)
            ra = self.ratio(c, cl, de)
            each('ratio 0 of the destination: fixed route' + w, z3.Implies(z3.And(cond, ra == 0), ty == STATIC_T), de)
            each('ratio 1 of the destination: adaptive' + w, z3.Implies(z3.And(cond, ra == 1), ty == ADAPTIVE_T), de)
        if self.classes is not None:
            each('class is car or truck', z3.Or(cls == 0, cls == 1), cls)
        old = lambda f: c.eng.heap_get(c.old, f, I)
        for f in ('m_dest', 'm_origin', 'm_type', 'm_start_time', 'm_finish_time'):
            x = z3.Int('vo')
            f = 'MNM_Veh::' + f
            out.append(('existing vehicles keep ' + f, FA([x], z3.Implies(x < a0, S(H(f), x) == S(old(f), x)), [S(H(f), x)])))
        x = z3.Int('vo')
        out.append(('not yet made', FA([x], z3.Implies(x >= a1, S(H('MNM_Veh::m_dest'), x) == 0), [S(H('MNM_Veh::m_dest'), x)])))
        g = lambda st, n: F(c.eng, st, fac, VF + 'm_' + n)
        out.append(('made', z3.And(a1 >= a0, g(s, 'num_veh') == g(c.old, 'num_veh') + a1 - a0)))
        out.append(('all registered as under way', g(s, 'enroute') == g(c.old, 'enroute') + a1 - a0))
        out.append(('every new vehicle waits at the origin exactly once, the others stay',
                    s.ghost['Total'] == c.old.ghost['Total'] + z3.If(z3.And(a0 <= c.eng.gv, c.eng.gv < a1), 1, 0)))
        m, m0 = F(c.eng, s, fac, VMAP), F(c.eng, c.old, fac, VMAP)
        k = z3.Int('ik')
        out.append(('register numbers', FA([k], z3.Implies(m.has(k), k <= g(s, 'num_veh')), [m.has(k)])))
        return out

    def count_ok(self, c, cl, s):
        m, d = self.demand(c, cl, gd)
        n = s.ghost['Cnt'] - z3.Int('Cnt0')
        fl = z3.ToInt(d)
        return z3.If(m.has(gd), z3.And(fl <= n, n <= fl + 1, z3.Implies(d == z3.ToReal(fl), n == fl)), n == 0)

    def ensures(self, c):
        ai = self.a(c, 'assign_interval')
        out = [('nothing is released for a negative interval', z3.Implies(ai < 0, z3.And(c.st.ghost['alloc'] == c.old.ghost['alloc'], c.st.ghost['Total'] == c.old.ghost['Total'],
                                                                                          c.st.ghost['Cnt'] == c.old.ghost['Cnt'])))]
        for cl in self.classes or (None,):
            cond = ai >= 0 if cl is None else z3.And(ai >= 0, gc == cl)
            w = '' if cl is None else (' (cars)', ' (trucks)')[cl]
            out.append(('each destination gets demand x scalar vehicles, rounded down or up' + w, z3.Implies(cond, self.count_ok(c, cl, c.st))))
        return out + self.fresh_rel(c, c.st)

    def invs(self, c):
        n = len(self.fresh_rel(c, c.old))
        return [('rel%d' % i, lambda s, i=i: self.fresh_rel(c, s)[i][1]) for i in range(n)]

    def loop_invs(self, c, lc):
        """how many vehicles go to the arbitrary destination, by what this loop runs over"""
        out = []
        ghost = lambda s: s.ghost['Cnt']
        e = lc.entry
        done = lambda cl: z3.If(gc == cl, 1, 0) if cl is not None else z3.IntVal(1)
        # over the destinations: those before the index have been served
        for cl in self.classes or (None,):
            m, d = self.demand(c, cl, gd)
            cond = z3.BoolVal(True) if cl is None else gc == cl
            g0 = ghost(e)
            for nm, get in lc.index_terms():
                def f(s, get=get, m=m, cond=cond, cl=cl, g0=g0):
                    pos = z3.Select(m.c['pos'], gd)
                    dd = self.demand(c, cl, gd)[1]
                    fl = z3.ToInt(dd)
                    n = ghost(s) - g0
                    return z3.If(z3.And(cond, m.has(gd), pos < get(s)), z3.And(fl <= n, n <= fl + 1, z3.Implies(dd == z3.ToReal(fl), n == fl)), n == 0)
                out.append(('served %s %s' % (cl, nm), f))
        # over the vehicles of one destination: the counter follows the index iff it is the arbitrary destination
        keys = []
        for k, v in sorted(e.loc.items(), key=str):
            if isinstance(v, It) and v.lv.ty.k == 'map':
                keys.append((str(lc.lname.get(k, k)), z3.Select(c.eng.peek(e, v.lv).c['ord'], v.pos)))
            elif isinstance(v, Cv) and v.ty.k == 'pair' and 'first' in v.c and v.c['first'].sort() == I:
                keys.append((str(lc.lname.get(k, k)), v.c['first']))
            elif z3.is_expr(v) and v.sort() == I and k in c.eng.ptrlocals:
                keys.append((str(lc.lname.get(k, k)), v))
        g0 = ghost(e)
        for kn, key in keys:
            for nm, get in lc.index_terms():
                i0 = get(e)
                for cl in self.classes or (None,):
                    cond = key == gd if cl is None else z3.And(key == gd, gc == cl)
                    out.append(('count %s %s %s' % (kn, nm, cl), lambda s, get=get, i0=i0, cond=cond, g0=g0: ghost(s) - g0 == z3.If(cond, get(s) - i0, 0)))
        return out


class Label(Contract):
    safety = False
    modifies = set()

    def ensures(self, c):
        return [('returns', z3.BoolVal(True))]


def C09():
    f = 'od.cpp'
    return [
        Label('label frame', 'MNM_Origin::generate_label', f),
        Label('label frame, two classes', 'MNM_Origin_Multiclass::generate_label', 'multiclass.cpp'),
        Release('origin releases the demand of an interval', 'MNM_Origin::release_one_interval', f),
        Release('two-class origin releases the demand of an interval', 'MNM_Origin_Multiclass::release_one_interval', 'multiclass.cpp', classes=(0, 1),
                ratio_args={0: 'adaptive_ratio', 1: 'adaptive_ratio'}, weight=2, isa=('MNM_Veh_Factory_Multiclass',)),
        Release('two-class origin, separate ratios', 'MNM_Origin_Multiclass::release_one_interval_biclass', 'multiclass.cpp', classes=(0, 1),
                pnames=Release.pnames[:3] + ('adaptive_ratio_car', 'adaptive_ratio_truck'), ratio_args={0: 'adaptive_ratio_car', 1: 'adaptive_ratio_truck'}, weight=2, isa=('MNM_Veh_Factory_Multiclass',)),
    ]
