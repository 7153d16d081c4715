"""Contracts of the fixed-route router (routing.cpp): a routed vehicle gets a path of its OD pair and follows its links in order."""
import z3
from vcgen.verify import Contract, F
from vcgen.engine import It, Cv, LField, LMapEntry
from vcgen.ctypes_ import parse
from .common import *
from .paths import PVEC, PP, PTABLE

RF = 'MNM_Routing_Fixed::'
TRACK = RF + 'm_tracker'
DQ = parse('std::deque<int>')
BOX = '$box:%r' % DQ
LV = 'MNM_Path::m_link_vec'
gv = z3.Int('gv')                                  # an arbitrary vehicle
ofveh = z3.Function('routed_vehicle', I, I)        # ghost: the vehicle a route tracker belongs to
pathpos = z3.Function('pathpos', I, I)             # ghost: index of a path in its path set
AR = z3.ArraySort(I, R)
AI = z3.ArraySort(I, I)
PSUM = z3.Function('portions_before', AR, AI, I, I, R)   # ghost: sum of the portions of the first k paths (portions, paths, lo, k)


def box(c, s, ref):
    return c.eng.peek(s, LField(ref, BOX, DQ))


def same_seq(a, b, skip=0):
    """a = b without its first `skip` entries"""
    k = z3.Int('sq')
    return z3.And(a.len == b.len - skip, fa_range(k, 0, a.len, a.at(k) == b.at(k + skip), [a.at(k)]))


def copying(c, lc, src):
    """candidate invariants of a loop that copies a sequence, entry by entry, into a boxed one"""
    e = lc.entry
    out = []
    j, u = z3.Int('cj'), z3.Int('tu')
    refs = [(lc.lname.get(x, x), v) for x, v in sorted(e.loc.items(), key=str) if z3.is_expr(v) and v.sort() == I and x in c.eng.ptrlocals and ('L', x) not in lc.havoc]
    refs += [(n, v) for n, v in zip(c.names, c.args0) if z3.is_expr(v) and v.sort() == I and not any(v.eq(x) for _, x in refs)]
    if any(kind == 'H' and k.startswith(BOX) for kind, k in lc.havoc):
        for an, a in refs:
            for bn, b in refs:
                if an == bn:
                    continue
                lv = src(b)
                for nm, get in lc.index_terms():
                    off = lv.c['lo'] if nm.endswith('.pos') else 0
                    out.append(('copied %s %s %s' % (an, bn, nm), lambda s, a=a, lv=lv, get=get, off=off: z3.And(
                        box(c, s, a).len == get(s) - off, fa_range(j, 0, get(s) - off, box(c, s, a).at(j) == lv.at(j), [box(c, s, a).at(j)]))))
            out.append(('fresh ' + str(an), lambda s, a=a: z3.ForAll([u], z3.Implies(u != a, z3.And(*[box(c, s, u).c[x] == box(c, e, u).c[x] for x in ('lo', 'hi', 'e')])))))
    return out


class Register(Contract):
    """a path of the OD pair is chosen by its portion; its links, in order, become the route of the vehicle"""
    pnames = ('veh', 'track')
    mbqi = False
    alloc = True
    safety = False
    modifies = {TRACK, 'MNM_Veh::m_path', BOX}

    def init_ghost(self, eng, st):
        st.ghost['drawn'] = eng.fresh(R, 'drawn')
        st.ghost['draws'] = z3.IntVal(0)

    def contracts(self):
        def draw(cc):
            r = cc.eng.fresh(R, 'drawn')
            cc.assume(z3.And(r >= 0, r <= 1))
            cc.st.ghost['drawn'] = r
            cc.st.ghost['draws'] = cc.st.ghost['draws'] + 1
            return r
        return {'MNM_Ults::rand_flt': draw}

    def a(self, c, nm):
        return dict(zip(c.names, c.args0 if hasattr(c, 'args0') and c.args0 else c.args))[nm]

    def pathset(self, c):
        s = c.old or c.st
        v = self.a(c, 'veh')
        o = F(c.eng, s, F(c.eng, s, F(c.eng, s, v, 'MNM_Veh::m_origin'), 'MNM_Origin::m_origin_node'), 'MNM_Dnode::m_node_ID')
        d = F(c.eng, s, F(c.eng, s, F(c.eng, s, v, 'MNM_Veh::m_dest'), 'MNM_Destination::m_dest_node'), 'MNM_Dnode::m_node_ID')
        t = c.eng.peek(s, LField(F(c.eng, s, c.this, RF + 'm_path_table'), '$box:%r' % PTABLE, PTABLE))
        i = c.eng.peek(s, LField(t.get(o), '$box:%r' % PTABLE.b.a, PTABLE.b.a))
        return t, i, o, d

    def paths(self, c):
        t, i, o, d = self.pathset(c)
        return F(c.eng, c.old or c.st, i.get(d), PVEC)

    def requires(self, c):
        t, i, o, d = self.pathset(c)
        pv = self.paths(c)
        c.eng.map_fact(c.st, t, o)
        c.eng.map_fact(c.st, i, d)
        k, u, e = z3.Int('pk'), z3.Int('tu'), z3.Const('pe', AI)
        pp = c.eng.heap_get(c.st, PP, R)
        tr = F(c.eng, c.st, c.this, TRACK)
        lo = z3.Int('plo')
        return [self.a(c, 'veh') > 0, t.has(o), i.has(d),
                fa_range(k, 0, pv.len, z3.And(pv.at(k) > 0, pathpos(pv.at(k)) == k, z3.Select(pp, pv.at(k)) >= 0), [pv.at(k)]),
                FA([u], z3.Implies(tr.has(u), tr.get(u) < c.st.ghost['alloc']), [tr.has(u)]),
                FA([e, lo], PSUM(pp, e, lo, 0) == 0, [PSUM(pp, e, lo, 0)]),
                FA([e, lo, k], z3.Implies(k >= 0, PSUM(pp, e, lo, k + 1) == PSUM(pp, e, lo, k) + z3.Select(pp, z3.Select(e, lo + k))), [PSUM(pp, e, lo, k)])]

    def chosen(self, c, s, k):
        """the first path whose portion covers what is left of the number drawn (up to the tolerance of 1e-4)"""
        pv = self.paths(c)
        pp = c.eng.heap_get(c.old, PP, R)
        left = s.ghost['drawn'] - PSUM(pp, pv.c['e'], pv.c['lo'], k)
        p = z3.Select(pp, pv.at(k))
        return z3.And(z3.Or(k == 0, left > 0), p >= left - z3.If(left > p, left, p) * z3.RealVal('0.0001'))

    def ensures(self, c):
        v, tk = self.a(c, 'veh'), self.a(c, 'track')
        if tk.sort() == I:
            tk = tk != 0
        pv = self.paths(c)
        p = F(c.eng, c.st, v, 'MNM_Veh::m_path')
        k = pathpos(p)
        tr, tr0 = F(c.eng, c.st, c.this, TRACK), F(c.eng, c.old, c.this, TRACK)
        u = z3.Int('tu')
        q = box(c, c.st, tr.get(v))
        return [('the path is one of the OD pair of the vehicle', z3.And(0 <= k, k < pv.len, pv.at(k) == p)),
                ('one number is drawn', c.st.ghost['draws'] == 1),
                ('the path is chosen by its portion', self.chosen(c, c.st, k)),
                ('the route of the vehicle is the links of the path in order', z3.Implies(z3.And(tk, z3.Not(tr0.has(v))), z3.And(
                    tr.has(v), tr.get(v) == c.old.ghost['alloc'], same_seq(q, F(c.eng, c.old, p, LV))))),
                ('other vehicles keep their route', FA([u], z3.Implies(z3.Or(u != v, z3.Not(tk), tr0.has(v)), z3.And(tr.has(u) == tr0.has(u), z3.Implies(tr0.has(u), tr.get(u) == tr0.get(u)))), [tr.has(u)])),
                ('no existing route is written', z3.ForAll([u], z3.Implies(z3.And(0 < u, u < c.old.ghost['alloc']), z3.And(*[box(c, c.st, u).c[x] == box(c, c.old, u).c[x] for x in ('lo', 'hi', 'e')])))),
                ('other vehicles keep their path', FA([u], z3.Implies(u != v, F(c.eng, c.st, u, 'MNM_Veh::m_path') == F(c.eng, c.old, u, 'MNM_Veh::m_path')), [F(c.eng, c.st, u, 'MNM_Veh::m_path')]))]

    def loop_invs(self, c, lc):
        pv = self.paths(c)
        pp = c.eng.heap_get(c.old, PP, R)
        e = lc.entry
        out = []
        out += copying(c, lc, lambda r: F(c.eng, c.old, r, LV))
        ptr = [k for kind, k in sorted(lc.havoc, key=str) if kind == 'L' and k in c.eng.ptrlocals]
        for x in ptr:
            out.append(('none yet ' + str(lc.lname.get(x, x)), lambda s, x=x: s.loc[x] == 0))
        for kind, x in sorted(lc.havoc, key=str):
            v = e.loc.get(x) if kind == 'L' else None
            if z3.is_expr(v) and v.sort() == R:
                for nm, get in lc.index_terms():
                    sub = 0 if not nm.endswith('.pos') else pv.c['lo']
                    out.append(('left %s %s' % (lc.lname.get(x, x), nm), lambda s, x=x, get=get, sub=sub: z3.And(
                        s.loc[x] == s.ghost['drawn'] - PSUM(pp, pv.c['e'], pv.c['lo'], get(s) - sub), get(s) - sub >= 0, z3.Or(get(s) - sub == 0, s.loc[x] > 0))))
                    out.append(('covered %s %s' % (lc.lname.get(x, x), nm), lambda s, x=x, get=get, sub=sub: z3.And(
                        s.loc[x] == PSUM(pp, pv.c['e'], pv.c['lo'], get(s) - sub), get(s) - sub >= 0, z3.Or(get(s) - sub == 0, s.loc[x] < s.ghost['drawn']))))
        return out



go, gp, gl, gq = z3.Ints('go gp gl gq')            # where the arbitrary vehicle is: origin and place in its queue, or link and place at its end
reg_path = z3.Function('registered_path', I, I)    # ghost: the path a registration gives
cls_of = z3.Function('class_of', I, I)
bus_of = z3.Function('bus_route_of', I, I)
pnr_of = z3.Function('park_and_ride', I, B)
NEXT, CUR, PATH, TYPE = ['MNM_Veh::m_' + x for x in ('next_link', 'current_link', 'path', 'type')]


class Update(Contract):
    """one routing step for an arbitrary vehicle: registered once at its origin, next link taken from its route one by one"""
    pnames = ('timestamp',)
    alloc = True
    safety = False
    mbqi = False
    bi = False
    modifies = {TRACK, PATH, NEXT, BOX, PP}

    def init_ghost(self, eng, st):
        st.ghost['reg'] = z3.K(I, z3.IntVal(0))
        st.ghost['interval'] = z3.IntVal(-1)

    def contracts(self):
        def register(cc):
            v = cc.arg(0)
            tr = F(cc.eng, cc.st, cc.this, TRACK)
            tk = cc.boolean(1)
            cc.requires(z3.Implies(tk, z3.Not(tr.has(v))), 'the vehicle has no route yet')
            cc.requires(self.interval_set(cc.eng.ctx, cc.st), 'the portions are those of the current interval')
            cc.may_throw(cc.eng.fresh(B, 'no path'))
            p = reg_path(v)
            lv = F(cc.eng, cc.st, p, LV)
            cc.assume(z3.And(p > 0, lv.len >= 1))
            r = cc.eng.new_ref(cc.st, 'route')
            cc.assume(ofveh(r) == v)
            b = cc.eng.peek(cc.st, LField(r, BOX, DQ))
            cc.eng.write(cc.st, LField(r, BOX, DQ), Cv(DQ, {x: z3.If(tk, lv.c[x], b.c[x]) if x in lv.c else b.c[x] for x in b.c}))
            t2 = cc.eng.map_add(cc.st, tr, v, r)
            cc.eng.write(cc.st, LField(cc.this, TRACK, tr.ty), Cv(tr.ty, {x: z3.If(tk, t2.c[x], tr.c[x]) for x in tr.c}))
            cc.eng.write(cc.st, LField(v, PATH, cc.eng.fty(PATH)), p)
            n = cc.st.ghost['reg']
            cc.st.ghost['reg'] = z3.Store(n, v, z3.Select(n, v) + 1)
            return z3.IntVal(0)

        def portions(cc):
            cc.may_throw(cc.eng.fresh(B, 'portions'))
            cc.havoc_heap(PP)
            cc.st.ghost['interval'] = cc.arg(0)
            return z3.IntVal(0)
        d = {RF + 'register_veh': register}
        for k in (RF, 'MNM_Routing_Biclass_Fixed::'):
            d[k + 'change_choice_portion'] = portions
        for k in ('MNM_Veh::', 'MNM_Veh_Multiclass::'):
            d[k + 'get_class'] = lambda cc: cls_of(cc.this)
            d[k + 'get_bus_route_ID'] = lambda cc: bus_of(cc.this)
            d[k + 'get_ispnr'] = lambda cc: pnr_of(cc.this)
        return d

    # ---- portions of the interval
    def interval_set(self, c, s):
        t = dict(zip(c.names, c.args0))['timestamp']
        g = lambda f: F(c.eng, c.old, c.this, RF + 'm_' + f)
        n, f = g('buffer_length'), g('routing_freq')
        if self.bi:
            n = F(c.eng, c.old, c.this, 'MNM_Routing_Biclass_Fixed::m_buffer_length') / 2
        now = s.ghost['interval']
        due = z3.And(g('buffer_as_p'), t / f < n)
        # the two classes share the portions of the path table, so a class has to put its own in force at every step
        must = due if self.bi else z3.And(due, t % f == 0)
        return z3.And(z3.Implies(must, now == t / f), z3.Implies(now != -1, z3.And(due, now == t / f)))

    # ---- where vehicles are
    def origins(self, c):
        s = c.old or c.st
        return F(c.eng, s, F(c.eng, s, c.this, 'MNM_Routing::m_od_factory'), 'MNM_OD_Factory::m_origin_map')

    def linkmap(self, c):
        s = c.old or c.st
        return F(c.eng, s, F(c.eng, s, c.this, 'MNM_Routing::m_link_factory'), 'MNM_Link_Factory::m_link_map')

    def node(self, c, k):
        m = self.origins(c)
        return F(c.eng, c.old or c.st, m.get(z3.Select(m.c['ord'], k)), 'MNM_Origin::m_origin_node')

    def link(self, c, k):
        m = self.linkmap(c)
        return m.get(z3.Select(m.c['ord'], k))

    def oq(self, c, k):
        return F(c.eng, c.old or c.st, self.node(c, k), 'MNM_DMOND::m_in_veh_queue')

    def lq(self, c, k):
        return F(c.eng, c.old or c.st, self.link(c, k), 'MNM_Dlink::m_finished_array')

    def at(self, q, n, k, p):
        return z3.And(0 <= k, k < n, q.c['lo'] <= p, p < q.c['hi'], q.raw(p) == gv)

    def at_origin(self, c):
        return self.at(self.oq(c, go), self.origins(c).c['n'], go, gp)

    def at_link(self, c):
        return self.at(self.lq(c, gl), self.linkmap(c).c['n'], gl, gq)

    def requires(self, c):
        k, p, u = z3.Int('wk'), z3.Int('wp'), z3.Int('tu')
        oq, lq = self.oq(c, k), self.lq(c, k)
        tr = F(c.eng, c.st, c.this, TRACK)
        r = [gv > 0,
             FA([k, p], z3.Implies(self.at(oq, self.origins(c).c['n'], k, p), z3.And(k == go, p == gp)), [oq.raw(p)]),
             FA([k, p], z3.Implies(self.at(lq, self.linkmap(c).c['n'], k, p), z3.And(k == gl, p == gq)), [lq.raw(p)]),
             z3.Not(z3.And(self.at_origin(c), self.at_link(c))),
             dict(zip(c.names, c.args))['timestamp'] >= 0, z3.Implies(F(c.eng, c.st, c.this, RF + 'm_buffer_as_p'), F(c.eng, c.st, c.this, RF + 'm_routing_freq') >= 1),
             z3.Implies(F(c.eng, c.st, c.this, RF + 'm_buffer_as_p'), F(c.eng, c.st, c.this, ('MNM_Routing_Biclass_Fixed::' if self.bi else RF) + 'm_buffer_length') >= 0),
             z3.Implies(z3.And(self.at_link(c), self.sel(c, 'static')), tr.has(gv))]      # registered at its origin
        return r + [f(c.st) for _, f in self.owned(c)]

    def owned(self, c):
        u = z3.Int('tu')

        def f(s):
            tr = F(c.eng, s, c.this, TRACK)
            return FA([u], z3.Implies(tr.has(u), z3.And(0 < tr.get(u), tr.get(u) < s.ghost['alloc'], ofveh(tr.get(u)) == u)), [tr.has(u)])
        return [('owned', f)]

    # ---- what is said about the vehicle
    def sel(self, c, which):
        s = c.old or c.st
        t = F(c.eng, s, gv, TYPE) == c.eng.enum_val('MNM_TYPE_STATIC' if which == 'static' else 'MNM_TYPE_ADAPTIVE')
        if self.bi:
            t = z3.And(t, cls_of(gv) == F(c.eng, s, c.this, 'MNM_Routing_Biclass_Fixed::m_veh_class'), bus_of(gv) == -1, z3.Not(pnr_of(gv)))
        return t

    def tr(self, c, s):
        return F(c.eng, s, c.this, TRACK)

    def route(self, c, s):
        return box(c, s, self.tr(c, s).get(gv))

    def same(self, c, s, e, route=True, nxt=True, path=True):
        a, b = self.tr(c, s), self.tr(c, e)
        x, y = self.route(c, s), self.route(c, e)
        r = [a.has(gv) == b.has(gv)]
        if route:
            r.append(z3.Implies(b.has(gv), z3.And(a.get(gv) == b.get(gv), *[x.c[q] == y.c[q] for q in ('lo', 'hi', 'e')])))
        else:
            r.append(z3.Implies(b.has(gv), a.get(gv) == b.get(gv)))
        if nxt:
            r.append(F(c.eng, s, gv, NEXT) == F(c.eng, e, gv, NEXT))
        if path:
            r += [F(c.eng, s, gv, PATH) == F(c.eng, e, gv, PATH), z3.Select(s.ghost['reg'], gv) == z3.Select(e.ghost['reg'], gv)]
        return z3.And(*r)

    def done_origin(self, c, s):
        o = c.old
        lv = F(c.eng, o, reg_path(gv), LV)
        m = self.linkmap(c)
        q = self.route(c, s)
        reg = z3.And(F(c.eng, s, gv, PATH) == reg_path(gv), z3.Select(s.ghost['reg'], gv) == 1)
        first = z3.And(reg, self.tr(c, s).has(gv), q.c['lo'] == lv.c['lo'] + 1, q.c['hi'] == lv.c['hi'], q.c['e'] == lv.c['e'], m.has(lv.at(0)), F(c.eng, s, gv, NEXT) == m.get(lv.at(0)))
        nominal = z3.And(reg, self.same(c, s, o, path=False))
        return z3.If(z3.And(self.sel(c, 'static'), z3.Not(self.tr(c, o).has(gv))), first,
                     z3.If(z3.And(self.sel(c, 'adaptive'), F(c.eng, o, gv, PATH) == 0), nominal, self.same(c, s, o)))

    def done_link(self, c, s):
        o = c.old
        m = self.linkmap(c)
        q0, q = self.route(c, o), self.route(c, s)
        dest = F(c.eng, o, F(c.eng, o, F(c.eng, o, gv, 'MNM_Veh::m_dest'), 'MNM_Destination::m_dest_node'), 'MNM_Dnode::m_node_ID')
        end = F(c.eng, o, F(c.eng, o, self.link(c, gl), 'MNM_Dlink::m_to_node'), 'MNM_Dnode::m_node_ID')
        arrive = z3.And(q0.len == 0, F(c.eng, s, gv, NEXT) == 0, self.same(c, s, o, nxt=False))
        step = z3.And(self.tr(c, o).has(gv), m.has(q0.at(0)), F(c.eng, s, gv, NEXT) == m.get(q0.at(0)), self.same(c, s, o, nxt=False, route=False),
                      q.c['lo'] == q0.c['lo'] + 1, q.c['hi'] == q0.c['hi'], q.c['e'] == q0.c['e'])
        wait = F(c.eng, o, gv, CUR) != F(c.eng, o, gv, NEXT)
        return z3.If(z3.Not(self.sel(c, 'static')), self.same(c, s, o),
                     z3.If(dest == end, arrive, z3.If(wait, z3.And(self.tr(c, o).has(gv), self.same(c, s, o)), step)))

    def ensures(self, c):
        s = c.st
        return [('a vehicle at its origin gets a route once: next link is the first link of its path, the rest of the links remain', z3.Implies(self.at_origin(c), self.done_origin(c, s))),
                ('a vehicle at the end of a link takes the next link of its route, ends at its destination only with the route used up, else waits', z3.Implies(self.at_link(c), self.done_link(c, s))),
                ('a vehicle elsewhere keeps route and next link', z3.Implies(z3.Not(z3.Or(self.at_origin(c), self.at_link(c))), self.same(c, s, c.old)))] + \
            [('each route belongs to one vehicle', f(s)) for _, f in self.owned(c)] + \
            [('the portions of an interval are used from its first second on, and only then', self.interval_set(c, s))]

    def loop_invs(self, c, lc):
        e = lc.entry
        o = c.old
        ptrs = [(lc.lname.get(k, k), v) for k, v in sorted(e.loc.items(), key=str) if ('L', k) not in lc.havoc and z3.is_expr(v) and v.sort() == I and k in c.eng.ptrlocals]
        for k, v in sorted(e.loc.items(), key=str):
            if ('L', k) in lc.havoc:
                continue
            w = None
            if isinstance(v, It) and v.lv.ty.k == 'map':
                x = c.eng.peek(e, v.lv)
                w = x.get(z3.Select(x.c['ord'], v.pos))
            elif isinstance(v, LMapEntry):
                w = c.eng.peek(e, v.base).get(v.key)
            elif isinstance(v, Cv) and v.ty.k == 'pair':
                w = v.c.get('second')
            if z3.is_expr(w) and w.sort() == I:
                nm = str(lc.lname.get(k, k))
                ptrs += [(nm + '->', w), (nm + '->node', F(c.eng, o, w, 'MNM_Origin::m_origin_node'))]
        ptrs = [(n, p) for i, (n, p) in enumerate(ptrs) if not any(p.eq(q) for _, q in ptrs[:i])]
        ao, al = self.at_origin(c), self.at_link(c)
        out = self.owned(c) + [('same', lambda s: self.same(c, s, e)), ('origin done', lambda s: z3.If(ao, self.done_origin(c, s), self.same(c, s, o))),
                               ('origin done, not at a link', lambda s: z3.Implies(z3.Not(al), z3.If(ao, self.done_origin(c, s), self.same(c, s, o))))]
        nodes = [('its node', self.node(c, go)), ]
        for nm, get in lc.index_terms():
            out.append(('origins ' + nm, lambda s, get=get: z3.If(z3.And(ao, get(s) > go), self.done_origin(c, s), self.same(c, s, o))))
            out.append(('links ' + nm, lambda s, get=get: z3.If(al, z3.If(get(s) > gl, self.done_link(c, s), self.same(c, s, o)), self.same(c, s, e))))
            for pn, pv in ptrs:
                ab = lambda s, get=get, nm=nm, q=None: get(s) if nm.endswith('.pos') else get(s) + q.c['lo']
                out.append(('origin queue %s %s' % (nm, pn), lambda s, get=ab, pv=pv: z3.If(z3.And(ao, pv == self.node(c, go), get(s, q=self.oq(c, go)) > gp), self.done_origin(c, s), self.same(c, s, e))))
                out.append(('link queue %s %s' % (nm, pn), lambda s, get=ab, pv=pv: z3.If(z3.And(al, pv == self.link(c, gl), get(s, q=self.lq(c, gl)) > gq), self.done_link(c, s), self.same(c, s, e))))
        return out


class Routes(Contract):
    """operations on the route of one vehicle leave those of others alone"""
    alloc = True
    safety = False

    def a(self, c, nm):
        return dict(zip(c.names, c.args0 if getattr(c, 'args0', None) else c.args))[nm]

    def requires(self, c):
        u = z3.Int('tu')
        tr = F(c.eng, c.st, c.this, TRACK)
        return [self.a(c, 'veh') > 0, FA([u], z3.Implies(tr.has(u), z3.And(0 < tr.get(u), tr.get(u) < c.st.ghost['alloc'], ofveh(tr.get(u)) == u)), [tr.has(u)])]

    def others(self, c, cond=True):
        v, u = self.a(c, 'veh'), z3.Int('tu')
        tr, tr0 = F(c.eng, c.st, c.this, TRACK), F(c.eng, c.old, c.this, TRACK)
        x, y = box(c, c.st, tr.get(u)), box(c, c.old, tr0.get(u))
        return ('other vehicles keep their route', FA([u], z3.Implies(u != v, z3.And(tr.has(u) == tr0.has(u), z3.Implies(tr0.has(u), z3.And(
            tr.get(u) == tr0.get(u), *[x.c[q] == y.c[q] for q in ('lo', 'hi', 'e')])))), [tr.has(u)]))


class Forget(Routes):
    pnames = ('veh', 'del')
    modifies = {TRACK, BOX}
    bi = False

    def contracts(self):
        return {k + 'get_class': (lambda cc: cls_of(cc.this)) for k in ('MNM_Veh::', 'MNM_Veh_Multiclass::')}

    def ensures(self, c):
        v, d = self.a(c, 'veh'), self.a(c, 'del')
        d = d != 0 if d.sort() == I else d
        tr, tr0 = F(c.eng, c.st, c.this, TRACK), F(c.eng, c.old, c.this, TRACK)
        if self.bi:
            d = z3.And(d, cls_of(v) == F(c.eng, c.old, c.this, 'MNM_Routing_Biclass_Fixed::m_veh_class'))
        x, y = box(c, c.st, tr.get(v)), box(c, c.old, tr0.get(v))
        return [('the route of a removed vehicle is forgotten, that of a kept one stays', z3.And(
            tr.has(v) == z3.And(tr0.has(v), z3.Not(d)), z3.Implies(tr.has(v), z3.And(tr.get(v) == tr0.get(v), *[x.c[q] == y.c[q] for q in ('lo', 'hi', 'e')])))), self.others(c)]


class AddRoute(Routes):
    pnames = ('veh', 'links')
    modifies = {TRACK, BOX}

    def loop_invs(self, c, lc):
        return copying(c, lc, lambda r: box(c, c.old, r))

    def requires(self, c):
        return Routes.requires(self, c) + [box(c, c.st, self.a(c, 'links')).len >= 0, 0 < self.a(c, 'links'), self.a(c, 'links') < c.st.ghost['alloc']]

    def ensures(self, c):
        v = self.a(c, 'veh')
        tr, tr0 = F(c.eng, c.st, c.this, TRACK), F(c.eng, c.old, c.this, TRACK)
        return [('the route of the vehicle is a copy of the links given', z3.Implies(z3.Not(tr0.has(v)), z3.And(
            tr.has(v), tr.get(v) == c.old.ghost['alloc'], same_seq(box(c, c.st, tr.get(v)), box(c, c.old, self.a(c, 'links')))))), self.others(c)]


class ClassPortions(Contract):
    """a class router copies the portions of its half of the buffer"""
    pnames = ('interval',)
    safety = False
    bi = False

    def init_ghost(self, eng, st):
        st.ghost['col'] = z3.IntVal(-1)
        st.ghost['normed'] = z3.BoolVal(False)

    def contracts(self):
        def copy(cc):
            cc.requires(cc.arg(0) == F(cc.eng, cc.st, cc.eng.ctx.this, RF + 'm_path_table'), 'own path table')
            cc.may_throw(cc.eng.fresh(B, 'no buffer'))
            cc.havoc_heap(PP)
            cc.st.ghost['col'] = cc.arg(1)
            cc.st.ghost['normed'] = z3.BoolVal(False)
            return z3.IntVal(0)

        def norm(cc):
            cc.requires(cc.arg(0) == F(cc.eng, cc.st, cc.eng.ctx.this, RF + 'm_path_table'), 'own path table')
            cc.may_throw(cc.eng.fresh(B, 'negative'))
            cc.havoc_heap(PP)
            cc.st.ghost['normed'] = z3.BoolVal(True)
            return z3.IntVal(0)
        return {'MNM::copy_buffer_to_p': copy, 'MNM::normalize_path_table_p': norm}

    def ensures(self, c):
        k = dict(zip(c.names, c.args0))['interval']
        if self.bi:
            k = k + F(c.eng, c.old, c.this, 'MNM_Routing_Biclass_Fixed::m_veh_class') * (F(c.eng, c.old, c.this, 'MNM_Routing_Biclass_Fixed::m_buffer_length') / 2)
        return [('the portions of the interval (of this class) are taken, and normalised', z3.And(c.st.ghost['col'] == k, c.st.ghost['normed']))]

    def requires(self, c):
        return [F(c.eng, c.st, c.this, ('MNM_Routing_Biclass_Fixed::' if self.bi else RF) + 'm_buffer_length') >= 0, dict(zip(c.names, c.args))['interval'] >= 0] + \
            ([z3.Or([F(c.eng, c.st, c.this, 'MNM_Routing_Biclass_Fixed::m_veh_class') == k for k in (0, 1)])] if self.bi else [])


class Delegate(Contract):
    """a hybrid router hands a routing step (a finished vehicle) to each of its fixed-route routers, once"""
    safety = False
    parts = ()
    step = True
    modifies = set()

    def init_ghost(self, eng, st):
        for p in self.parts:
            st.ghost[p] = z3.IntVal(0)

    def contracts(self):
        def hand(cc):
            c = cc.eng.ctx
            a = dict(zip(c.names, c.args0))
            if self.step:
                cc.requires(cc.arg(0) == a['timestamp'], 'at this time')
            else:
                cc.requires(z3.And(cc.arg(0) == a['veh'], cc.boolean(1, True) == cc.eng.coerce_sort(a['del'], B)), 'the vehicle given, to be forgotten or kept as asked')
            for p in self.parts:
                n = cc.st.ghost[p]
                cc.st.ghost[p] = z3.If(cc.this == F(cc.eng, c.old or c.st, c.this, p), n + 1, n)
            cc.may_throw(cc.eng.fresh(B, 'thrown'))
            return z3.IntVal(0)
        m = 'update_routing' if self.step else 'remove_finished'
        z = lambda cc: z3.IntVal(0)
        return {RF + m: hand, 'MNM_Routing_Biclass_Fixed::' + m: hand, 'MNM_Routing::' + m: hand, 'MNM_Routing_Adaptive::' + m: z}

    def requires(self, c):
        return [F(c.eng, c.st, c.this, p) > 0 for p in self.parts] + ([F(c.eng, c.st, c.this, self.parts[0]) != F(c.eng, c.st, c.this, self.parts[1])] if len(self.parts) > 1 else [])

    def ensures(self, c):
        return [('%s gets it once' % p, c.st.ghost[p] == 1) for p in self.parts]


def C18():
    f = 'routing.cpp'
    b = 'MNM_Routing_Biclass_Fixed::'
    return [Register('choice of a path', RF + 'register_veh', f),
            Update('routing step', RF + 'update_routing', f),
            Update('routing step, one class of two', b + 'update_routing', f, bi=True),
            Forget('a vehicle has finished', RF + 'remove_finished', f),
            Forget('a vehicle has finished, one class of two', b + 'remove_finished', f, bi=True),
            AddRoute('a given route', RF + 'add_veh_path', f),
            ClassPortions('portions of an interval', RF + 'change_choice_portion', f),
            ClassPortions('portions of an interval, one class of two', b + 'change_choice_portion', f, bi=True),
            *[Delegate('hybrid %s: %s' % (w, n), 'MNM_Routing_%sHybrid::%s' % (p, n), f, parts=ps, step=n == 'update_routing', pnames=('timestamp',) if n == 'update_routing' else ('veh', 'del'))
              for w, p, ps in (('single class', '', ('MNM_Routing_Hybrid::m_routing_fixed',)),
                               ('two classes', 'Biclass_', ('MNM_Routing_Biclass_Hybrid::m_routing_fixed_car', 'MNM_Routing_Biclass_Hybrid::m_routing_fixed_truck')))
              for n in ('update_routing', 'remove_finished')]]
