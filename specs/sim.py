"""Contracts of the simulation loop (dta.cpp): what one step does to every part of the network, and in which order; the loading; the counts kept."""
import z3
from vcgen.verify import Contract, F
from vcgen.engine import It, Cv, LField, LMapEntry
from vcgen.ctypes_ import parse
from .common import *
from .routing import cls_of

D = 'MNM_Dta::'
DQ = parse('std::deque<int>')
BOX = '$box:%r' % DQ


def box(c, s, ref):
    return c.eng.peek(s, LField(ref, BOX, DQ))


go, gn, gl, gd = z3.Ints('go gn gl gd')              # an arbitrary origin, node, link, destination (by position in its register)
cfg_str = z3.Function('config_string', I, I, I)      # (reader, key) -> value
cfg_int = z3.Function('config_int', I, I, I)
cfg_flt = z3.Function('config_float', I, I, R)
GH = ('released', 'routed', 'node', 'cleared', 'link', 'received', 'stat', 'queue', 'attr')


def config(d):
    d['MNM_ConfReader::get_string'] = lambda cc: cfg_str(cc.this, cc.arg(0))
    d['MNM_ConfReader::get_int'] = lambda cc: cfg_int(cc.this, cc.arg(0))
    d['MNM_ConfReader::get_float'] = lambda cc: cfg_flt(cc.this, cc.arg(0))
    return d


class Step(Contract):
    pnames = ('verbose', 'load', 'assign')
    safety = False
    modifies = {D + 'm_enroute_veh_num', D + 'm_current_loading_interval', 'MNM_Veh_Factory::m_enroute', D + 'm_queue_veh_num'}

    def init_ghost(self, eng, st):
        for g in GH + ('phase',):
            st.ghost[g] = z3.IntVal(0)

    # ---- registers of the network
    def reg(self, c, owner, field, s=None):
        s = s or c.old or c.st
        return F(c.eng, s, F(c.eng, s, c.this, D + owner), field)

    def regs(self, c):
        return {'released': (self.reg(c, 'm_od_factory', 'MNM_OD_Factory::m_origin_map'), go),
                'node': (self.reg(c, 'm_node_factory', 'MNM_Node_Factory::m_node_map'), gn),
                'cleared': (self.reg(c, 'm_link_factory', 'MNM_Link_Factory::m_link_map'), gl),
                'link': (self.reg(c, 'm_link_factory', 'MNM_Link_Factory::m_link_map'), gl),
                'received': (self.reg(c, 'm_od_factory', 'MNM_OD_Factory::m_destination_map'), gd)}

    def nth(self, m, k):
        return m.get(z3.Select(m.c['ord'], k))

    def arg(self, c, n):
        return dict(zip(c.names, getattr(c, 'args0', None) or c.args))[n]

    def requires(self, c):
        k = z3.Int('wk')
        r = [self.arg(c, 'load') >= 0, F(c.eng, c.st, c.this, D + 'm_assign_freq') >= 1]
        for m, g in self.regs(c).values():
            r += [FA([k], z3.Implies(z3.And(0 <= k, k < m.c['n']), self.nth(m, k) > 0), [z3.Select(m.c['ord'], k)]),
                  FA([k], z3.Implies(z3.And(0 <= k, k < m.c['n'], k != g), self.nth(m, k) != self.nth(m, g)), [z3.Select(m.c['ord'], k)])]
        return r

    # ---- callees
    def contracts(self):
        def st_(cc):
            return cc.eng.ctx

        def phase(cc, k, what):
            cc.requires(cc.st.ghost['phase'] <= k, what)
            cc.st.ghost['phase'] = z3.IntVal(k)

        def hit(cc, name, cond=True):
            m, g = self.regs(st_(cc))[name]
            n = cc.st.ghost[name]
            c = z3.And(cond, cc.this == self.nth(m, g), 0 <= g, g < m.c['n'])
            cc.st.ghost[name] = z3.If(c, n + 1, n)

        def now(cc, i=0):
            return cc.arg(i) == self.arg(st_(cc), 'load')

        def str_(cc, s):
            return z3.IntVal(cc.eng.strs.setdefault('"%s"' % s, 1000 + len(cc.eng.strs)))

        def own(cc, f):
            c = st_(cc)
            return F(cc.eng, c.old or c.st, c.this, D + f)

        def clamp(cc, key):
            x = cfg_flt(own(cc, 'm_config'), str_(cc, key))
            return z3.If(x > 1, z3.RealVal(1), z3.If(x < 0, z3.RealVal(0), x))

        def release(bi):
            def f(cc):
                c = st_(cc)
                phase(cc, 0, 'vehicles are released before they are routed and moved')
                a = cc.arg(2)
                real = a >= 0
                ty = cfg_str(own(cc, 'm_config'), str_(cc, 'routing_type'))
                ok = [now(cc), cc.arg(1) == own(cc, 'm_veh_factory'), a == self.arg(c, 'assign'), self.due(c)]
                if bi:
                    ok += [ty == str_(cc, 'Biclass_Hybrid'), cc.real(3) == clamp(cc, 'adaptive_ratio_car'), cc.real(4) == clamp(cc, 'adaptive_ratio_truck')]
                else:
                    ok += [z3.Or(z3.And(z3.Or(ty == str_(cc, 'Fixed'), ty == str_(cc, 'Due')), cc.real(3) == 0), z3.And(ty == str_(cc, 'Adaptive'), cc.real(3) == 1),
                                 z3.And(ty == str_(cc, 'Hybrid'), cc.real(3) == clamp(cc, 'adaptive_ratio')))]
                cc.requires(z3.Implies(real, z3.And(*ok)), 'the demand of this assignment interval, at this time, with the share of adaptive vehicles of the routing type')
                hit(cc, 'released', real)
                cc.may_throw(cc.eng.fresh(B, 'thrown'))
                cc.havoc_heap('MNM_Veh_Factory::m_enroute')
                return z3.IntVal(0)
            return f

        def routing(cc):
            phase(cc, 1, 'routing after release and before any movement')
            cc.requires(z3.And(now(cc), cc.this == own(cc, 'm_routing')), 'the routing of this network, at this time')
            cc.st.ghost['routed'] = cc.st.ghost['routed'] + 1
            cc.may_throw(cc.eng.fresh(B, 'thrown'))
            return z3.IntVal(0)

        def node(cc):
            phase(cc, 2, 'junctions after routing and before links')
            cc.requires(now(cc), 'at this time')
            hit(cc, 'node')
            cc.may_throw(cc.eng.fresh(B, 'thrown'))
            return z3.IntVal(0)

        def queue(cc):
            phase(cc, 3, 'queues counted after the junctions and before the links')
            cc.st.ghost['queue'] = cc.st.ghost['queue'] + 1
            cc.havoc_heap(D + 'm_queue_veh_num')
            return z3.IntVal(0)

        def clear(cc):
            phase(cc, 4, 'links after junctions')
            cc.requires(now(cc), 'at this time')
            hit(cc, 'cleared')
            cc.may_throw(cc.eng.fresh(B, 'thrown'))
            return z3.IntVal(0)

        def link(cc):
            phase(cc, 4, 'links after junctions')
            cc.requires(now(cc), 'at this time')
            m, g = self.regs(st_(cc))['link']
            cc.requires(z3.Implies(z3.And(0 <= g, g < m.c['n'], cc.this == self.nth(m, g)), cc.st.ghost['cleared'] == 1), 'vehicles that entered the link are taken in before it moves them')
            hit(cc, 'link')
            cc.may_throw(cc.eng.fresh(B, 'thrown'))
            return z3.IntVal(0)

        def receive(cc):
            phase(cc, 5, 'arrivals after the links')
            cc.requires(z3.And(now(cc), cc.arg(1) == own(cc, 'm_routing'), cc.arg(2) == own(cc, 'm_veh_factory')), 'at this time, with the routing and the vehicle register of this network')
            hit(cc, 'received')
            cc.may_throw(cc.eng.fresh(B, 'thrown'))
            cc.havoc_heap('MNM_Veh_Factory::m_enroute')
            return z3.IntVal(0)

        def stat(cc):
            n = cc.arg(0)
            load = self.arg(st_(cc), 'load')
            cc.requires(z3.Or(n == load, z3.And(n == -1, load == 0, cc.st.ghost['phase'] == 0)), 'recorded for this time (or, before the first step, for the empty network)')
            m, g = self.regs(st_(cc))['link']
            cc.requires(z3.Implies(z3.And(n == load, 0 <= g, g < m.c['n']), cc.st.ghost['link'] == 1), 'recorded after the links have moved their vehicles')
            cc.st.ghost['stat'] = z3.If(n == load, cc.st.ghost['stat'] + 1, cc.st.ghost['stat'])
            return z3.IntVal(0)

        def attr(cc):
            phase(cc, 0, 'link attributes are set before anything else')
            cc.requires(now(cc), 'at this time')
            cc.st.ghost['attr'] = cc.st.ghost['attr'] + 1
            return z3.IntVal(0)
        z = lambda cc: z3.IntVal(0)
        d = config({'MNM_Origin::release_one_interval': release(False), 'MNM_Origin::release_one_interval_biclass': release(True)})
        d.update({'MNM_Routing::update_routing': routing, 'MNM_Dnode::evolve': node, D + 'record_queue_vehicles': queue, 'MNM_Dlink::clear_incoming_array': clear,
                  'MNM_Dlink::evolve': link, 'MNM_Destination::receive': receive, 'MNM_Statistics::update_record': stat, 'MNM_Link_Factory::update_link_attribute': attr,
                  'MNM_Gridlock_Link_Recorder::save_one_link': z, 'MNM_Cumulative_Emission::update': z, 'MNM::print_vehicle_statistics': z})
        return d

    def due(self, c):
        s = c.old or c.st
        return z3.And(self.arg(c, 'load') % F(c.eng, s, c.this, D + 'm_assign_freq') == 0, self.arg(c, 'assign') < F(c.eng, s, c.this, D + 'm_total_assign_inter'))

    def known(self, c):
        e = c.eng
        lit = lambda s: z3.IntVal(e.strs.setdefault('"%s"' % s, 1000 + len(e.strs)))
        ty = cfg_str(F(e, c.old, c.this, D + 'm_config'), lit('routing_type'))
        return z3.Or([ty == lit(x) for x in ('Fixed', 'Due', 'Adaptive', 'Hybrid', 'Biclass_Hybrid')])

    def ensures(self, c):
        g = c.st.ghost
        out = []
        name = {'released': 'every origin releases the demand of an assignment interval once, at its start', 'node': 'every junction is evaluated once',
                'cleared': 'every link takes in its new vehicles once', 'link': 'every link moves its vehicles once', 'received': 'every destination receives once'}
        for k, (m, i) in self.regs(c).items():
            inr = z3.And(0 <= i, i < m.c['n'])
            if k == 'released':
                want = z3.If(z3.And(self.due(c), self.known(c), self.arg(c, 'assign') >= 0), 1, 0)
                out.append((name[k], z3.Implies(inr, g[k] == want)))
            else:
                out.append((name[k], z3.Implies(inr, g[k] == 1)))
        en, en0 = F(c.eng, c.st, c.this, D + 'm_enroute_veh_num'), F(c.eng, c.old, c.this, D + 'm_enroute_veh_num')
        fac = F(c.eng, c.old, c.this, D + 'm_veh_factory')
        k = z3.Int('wk')
        return out + [('the vehicles are routed once', g['routed'] == 1), ('the record is updated once', g['stat'] == 1), ('the queues are counted once', g['queue'] == 1),
                      ('link attributes are set once', g['attr'] == 1),
                      ('the number of vehicles under way is noted at the end', z3.And(en.len == en0.len + 1, en.at(en0.len) == F(c.eng, c.st, fac, 'MNM_Veh_Factory::m_enroute'))),
                      ('earlier numbers stay', fa_range(k, 0, en0.len, en.at(k) == en0.at(k), [en.at(k)])),
                      ('the time moves on by one', F(c.eng, c.st, c.this, D + 'm_current_loading_interval') == self.arg(c, 'load') + 1)]

    def loop_invs(self, c, lc):
        e = lc.entry
        out = []
        for x in GH:
            out.append(('same ' + x, lambda s, x=x: s.ghost[x] == e.ghost[x]))
        for k in range(6):
            out.append(('phase %d' % k, lambda s, k=k: s.ghost['phase'] <= k))
            out.append(('phase from %d' % k, lambda s, k=k: s.ghost['phase'] >= k))
        for nm, get in lc.index_terms():
            for x, (m, g) in self.regs(c).items():
                inr = z3.And(0 <= g, g < m.c['n'])
                want = z3.If(z3.And(self.due(c), self.known(c), self.arg(c, 'assign') >= 0), 1, 0) if x == 'released' else z3.IntVal(1)
                out.append(('%s up to %s' % (x, nm), lambda s, x=x, get=get, g=g, inr=inr, want=want: z3.Implies(inr, s.ghost[x] == e.ghost[x] + z3.If(get(s) > g, want, 0))))
        return out


class Loading(Contract):
    """the whole loading: steps 0, 1, 2, ... each with its assignment interval, until it is finished and all demand was released"""
    pnames = ('verbose',)
    safety = False
    modifies = {D + 'm_current_loading_interval'}

    def init_ghost(self, eng, st):
        for g in ('steps', 'post'):
            st.ghost[g] = z3.IntVal(0)
        st.ghost['finished'] = z3.BoolVal(False)

    def f(self, c, n):
        return F(c.eng, c.old or c.st, c.this, D + n)

    def interval(self, c, n):
        return self.f(c, 'm_start_assign_interval') + n / self.f(c, 'm_assign_freq')

    def requires(self, c):
        return [self.f(c, 'm_assign_freq') >= 1]

    def contracts(self):
        def once(cc):
            c = cc.eng.ctx
            n = cc.st.ghost['steps']
            cc.requires(z3.And(cc.arg(1) == n, cc.arg(2) == self.interval(c, n)), 'steps 0, 1, 2, ..., each in its assignment interval')
            cc.requires(z3.Or(z3.Not(cc.st.ghost['finished']), self.interval(c, n) < self.f(c, 'm_total_assign_inter')), 'no step after the loading is finished')
            cc.st.ghost['steps'] = n + 1
            cc.st.ghost['finished'] = z3.BoolVal(False)
            cc.may_throw(cc.eng.fresh(B, 'thrown'))
            cc.havoc_heap(D + 'm_current_loading_interval')
            return z3.IntVal(0)

        def finished(cc):
            cc.requires(cc.arg(0) == cc.st.ghost['steps'], 'asked for the current step')
            b = cc.eng.fresh(B, 'finished')
            cc.st.ghost['finished'] = b
            return b

        def post(cc):
            cc.st.ghost['post'] = cc.st.ghost['post'] + 1
            return z3.IntVal(0)
        z = lambda cc: z3.IntVal(0)
        return config({D + 'load_once': once, D + 'finished_loading': finished, 'MNM_Statistics::post_record': post, 'MNM_Gridlock_Link_Recorder::post_record': z,
                       'MNM::print_vehicle_statistics': z, 'MNM::print_vehicle_route_results': z, 'MNM_IO::read_vehicle_tracking_setting': z})

    def ensures(self, c):
        g = c.st.ghost
        n = g['steps']
        return [('the loading ends only when finished and all demand is released', z3.And(g['finished'], self.interval(c, n) >= self.f(c, 'm_total_assign_inter'))),
                ('the number of steps is returned and kept', z3.And(c.result == n, F(c.eng, c.st, c.this, D + 'm_current_loading_interval') == n)),
                ('the record is closed once', g['post'] == 1)]

    def loop_invs(self, c, lc):
        out = [('post', lambda s: s.ghost['post'] == lc.entry.ghost['post']), ('steps', lambda s: s.ghost['steps'] >= 0)]
        ts = lc.index_terms()
        for nm, get in ts:
            out.append(('steps is ' + nm, lambda s, get=get: s.ghost['steps'] == get(s)))
            out.append(('interval is ' + nm, lambda s, get=get: get(s) == self.interval(c, s.ghost['steps'])))
        return out


QN, QM = D + 'm_queue_veh_num', D + 'm_queue_veh_map'
FINA = 'MNM_Dlink::m_finished_array'
QSUM = z3.Function('queued_up_to', I, I)             # ghost: vehicles waiting at the end of the first k links, connectors left out
boxid = z3.Function('queue_record_of', I, I)         # ghost: the link a record belongs to
CLSUM = {k: z3.Function('%s_up_to' % k, I, I) for k in ('cars', 'trucks')}   # ghost: cars (trucks) among the first k vehicles at the end of the chosen link


class Queues(Contract):
    """the vehicles waiting at the end of each link are noted per link and in total"""
    pnames = ()
    safety = False
    multi = False
    mbqi = False

    @property
    def modifies(self):
        return {QN, BOX}

    def links(self, c):
        s = c.old or c.st
        return F(c.eng, s, F(c.eng, s, c.this, D + 'm_link_factory'), 'MNM_Link_Factory::m_link_map')

    def lk(self, c, k):
        m = self.links(c)
        return m.get(z3.Select(m.c['ord'], k))

    def maps(self, c, s):
        d = {'all': F(c.eng, s, c.this, QM)}
        if self.multi:
            for k in ('car', 'truck'):
                d[k] = F(c.eng, s, c.this, 'MNM_Dta_Multiclass::m_queue_veh_map_' + k)
        return d

    def requires(self, c):
        e, s = c.eng, c.st
        m = self.links(c)
        k, u = z3.Ints('wk wu')
        inr = z3.And(0 <= k, k < m.c['n'])
        l = self.lk(c, k)
        ID = lambda l: F(e, s, l, 'MNM_Dlink::m_link_ID')
        pq = e.enum_val('MNM_TYPE_PQ_MULTICLASS' if self.multi else 'MNM_TYPE_PQ')
        pat = [z3.Select(m.c['ord'], k)]
        r = [0 <= gl, gl < m.c['n'], FA([k], z3.Implies(z3.And(inr, k != gl), ID(l) != ID(self.lk(c, gl))), pat), FA([k], z3.Implies(inr, l > 0), pat), QSUM(0) == 0,
             FA([k], z3.Implies(inr, QSUM(k + 1) == QSUM(k) + z3.If(F(e, s, l, ('MNM_Dlink_Multiclass' if self.multi else 'MNM_Dlink') + '::m_link_type') == pq, 0, F(e, s, l, FINA).len)), pat)]
        seen = []
        for j, (n, q) in enumerate(sorted(self.maps(c, s).items())):
            r += [FA([k], z3.Implies(inr, z3.And(q.has(ID(l)), q.get(ID(l)) > 0, boxid(q.get(ID(l))) == 3 * ID(l) + j)), pat)]
            r += [box(c, s, q.get(ID(self.lk(c, gl)))).len >= 0]
        if self.multi:
            f = F(e, s, self.lk(c, gl), FINA)
            for n, v in (('cars', 0), ('trucks', 1)):
                S = CLSUM[n]
                r += [S(0) == 0, FA([k], z3.Implies(z3.And(0 <= k, k < f.len), S(k + 1) == S(k) + z3.If(cls_of(f.at(k)) == v, 1, 0)), [f.at(k)])]
        return r

    def contracts(self):
        return {k + 'get_class': (lambda cc: cls_of(cc.this)) for k in ('MNM_Veh::', 'MNM_Veh_Multiclass::')}

    def noted(self, c, s, n):
        """the record of the chosen link has one more entry, the number of vehicles now waiting there"""
        e = c.eng
        l = self.lk(c, gl)
        q = self.maps(c, c.old)[n]
        ref = q.get(F(e, c.old, l, 'MNM_Dlink::m_link_ID'))
        a, b = box(c, s, ref), box(c, c.old, ref)
        f = F(e, c.old, l, FINA)
        v = f.len if n == 'all' else CLSUM['cars' if n == 'car' else 'trucks'](f.len)
        k = z3.Int('nk')
        return z3.And(a.c['lo'] == b.c['lo'], a.c['hi'] == b.c['hi'] + 1, a.c['e'] == z3.Store(b.c['e'], b.c['hi'], v))

    def unchanged(self, c, s, n):
        q = self.maps(c, c.old)[n]
        ref = q.get(F(c.eng, c.old, self.lk(c, gl), 'MNM_Dlink::m_link_ID'))
        a, b = box(c, s, ref), box(c, c.old, ref)
        return z3.And(*[a.c[x] == b.c[x] for x in ('lo', 'hi', 'e')])

    def ensures(self, c):
        a, b = F(c.eng, c.st, c.this, QN), F(c.eng, c.old, c.this, QN)
        k = z3.Int('wk')
        return [('%s waiting at the end of every link are noted' % {'all': 'the vehicles', 'car': 'the cars', 'truck': 'the trucks'}[n], self.noted(c, c.st, n)) for n in sorted(self.maps(c, c.old))] + \
            [('the total over all links but connectors is noted', z3.And(a.len == b.len + 1, a.at(b.len) == QSUM(self.links(c).c['n']))), ('earlier totals stay', fa_range(k, 0, b.len, a.at(k) == b.at(k), [a.at(k)]))]

    def loop_invs(self, c, lc):
        e = lc.entry
        out = [('total as before', lambda s: z3.And(*[F(c.eng, s, c.this, QN).c[x] == F(c.eng, e, c.this, QN).c[x] for x in ('lo', 'hi', 'e')]))]
        ts = lc.index_terms()
        for n in sorted(self.maps(c, c.old)):
            out.append(('records as before ' + n, lambda s, n=n: z3.And(*[self.maps(c, s)[n].c[x] == self.maps(c, c.old)[n].c[x] for x in self.maps(c, s)[n].c])))
            for nm, get in ts:
                out.append(('noted %s %s' % (n, nm), lambda s, n=n, get=get: z3.If(get(s) > gl, self.noted(c, s, n), self.unchanged(c, s, n))))
            out.append(('not noted ' + n, lambda s, n=n: self.unchanged(c, s, n)))
        f = F(c.eng, c.old, self.lk(c, gl), FINA)
        for nm, get in ts:
            for x, gx in ts:
                if x == nm:
                    continue
                out.append(('total %s %s' % (nm, x), lambda s, get=get, gx=gx: gx(s) == QSUM(get(s))))
                if self.multi:
                    off = f.c['lo'] if nm.endswith('.pos') else 0
                    for n in CLSUM:
                        for pn, pv in self.links_in(c, lc):
                            out.append(('%s %s %s %s' % (n, nm, x, pn), lambda s, n=n, get=get, gx=gx, off=off, pv=pv: z3.Implies(pv == self.lk(c, gl), gx(s) == CLSUM[n](get(s) - off))))
        return out

    def links_in(self, c, lc):
        e = lc.entry
        out = []
        for k, v in sorted(e.loc.items(), key=str):
            if ('L', k) in lc.havoc:
                continue
            if z3.is_expr(v) and v.sort() == I and k in c.eng.ptrlocals:
                out.append((lc.lname.get(k, k), v))
            elif isinstance(v, Cv) and v.ty.k == 'pair' and z3.is_expr(v.c.get('second')):
                out.append((lc.lname.get(k, k), v.c['second']))
            elif isinstance(v, It) and v.lv.ty.k == 'map':
                x = c.eng.peek(e, v.lv)
                out.append((lc.lname.get(k, k), x.get(z3.Select(x.c['ord'], v.pos))))
            elif isinstance(v, LMapEntry):
                out.append((lc.lname.get(k, k), c.eng.peek(e, v.base).get(v.key)))
        return out


class Finished(Contract):
    pnames = ('now',)
    safety = False
    modifies = set()

    def contracts(self):
        return config({})

    def ensures(self, c):
        e, s = c.eng, c.old
        n = dict(zip(c.names, c.args0))['now']
        fac = F(e, s, c.this, D + 'm_veh_factory')
        tot = cfg_int(F(e, s, c.this, D + 'm_config'), z3.IntVal(e.strs.setdefault('"total_interval"', 1000 + len(e.strs))))
        run = F(e, s, fac, 'MNM_Veh_Factory::m_num_veh') != F(e, s, fac, 'MNM_Veh_Factory::m_finished')
        return [('a loading of given length ends after it, one of open length when no vehicle is under way any more', c.result == z3.If(tot > 0, n >= tot, z3.And(z3.Not(run), n != 0)))]


def C19():
    f = 'dta.cpp'
    return [Step('one step', D + 'load_once', f), Loading('loading', D + 'loading', f),
            Loading('loading with tracked vehicles', 'MNM_Dta_Multiclass::loading_vehicle_tracking', 'multiclass.cpp', pnames=('verbose', 'folder', 'rate', 'frequency')),
            Queues('waiting vehicles', D + 'record_queue_vehicles', f), Queues('waiting vehicles, two classes', 'MNM_Dta_Multiclass::record_queue_vehicles', 'multiclass.cpp', multi=True, isa=('MNM_Dlink_Multiclass', 'MNM_Veh_Multiclass')),
            Finished('end of the loading', D + 'finished_loading', f)]
