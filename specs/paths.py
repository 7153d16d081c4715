"""Contracts of the flow and travel-time readings (dta_gradient_utls.cpp, multiclass.cpp) and of paths (path.cpp)."""
import z3
from vcgen.verify import Contract, F
from vcgen.engine import RDIV, LField, Cv, It
from vcgen.ctypes_ import parse
from .common import *

CVAL = z3.Function('count_at', I, R, R)             # ghost: value of get_result (contract: C10)
CTIME = z3.Function('time_at', I, R, B, R)          # ghost: value of get_time (contract: C10)
LV = z3.Function('last_valid', I, I, I, R)          # ghost: value of get_last_valid_time
LTT = z3.Function('link_tt', I, R, I, R)            # ghost: travel time of a link when entered at a time
NS = 'MNM_DTA_GRADIENT::'


def curve_contracts():
    return {'MNM_Cumulative_Curve::get_result': lambda cc: CVAL(cc.this, cc.real(0)),
            'MNM_Cumulative_Curve::get_time': lambda cc: CTIME(cc.this, cc.real(0), cc.boolean(1, False))}


def real(x):
    return z3.ToReal(x) if x.sort() == I else x


class Named(Contract):
    def a(self, c, nm):
        v = dict(zip(c.names, c.args0))[nm]
        return v


class Flow(Named):
    """flow through the entry (exit) of a link in a time window = difference of the cumulative counts"""
    modifies = set()
    curve = 'MNM_Dlink::m_N_in'
    pnames = ('link', 'start', 'end')

    def contracts(self):
        return curve_contracts()

    def ensures(self, c):
        l = self.a(c, 'link')
        cv = F(c.eng, c.old, l, self.curve)
        return [('a link with an installed curve is required', z3.And(l != 0, cv != 0)),
                ('flow = count at the end - count at the start', c.result == CVAL(cv, real(self.a(c, 'end'))) - CVAL(cv, real(self.a(c, 'start'))))]


class FromCC(Named):
    modifies = set()
    pnames = ('start', 'nin', 'nout', 'last', 'fftt', 'up')

    def contracts(self):
        return curve_contracts()

    def requires(self, c):
        return [self.a(c, 'nin') > 0, self.a(c, 'nout') > 0, self.a(c, 'fftt') >= 0]

    @staticmethod
    def relation(res, start, nin, nout, last, fftt, up):
        """within a rounding error of an empty entry curve either reading is allowed"""
        s = z3.If(start > last, last, start)
        x = CVAL(nin, s)
        e = CTIME(nout, x, up)
        return [z3.Implies(z3.Or(last <= 0, x <= 0, e < 0, e - s < fftt), res == fftt),
                z3.Implies(z3.And(last > 0, x > z3.RealVal('0.000000001'), e >= 0, e - s >= fftt), res == e - s),
                z3.Or(res == fftt, res == e - s)]

    def ensures(self, c):
        g = [self.a(c, k) for k in self.pnames]
        return [('never less than the free-flow time', c.result >= self.a(c, 'fftt')),
                ('time until the exit curve reaches the count at entry, or the free-flow time', z3.And(self.relation(c.result, *g)))]


FCC = z3.Function('tt_from_curves', R, I, I, R, R, B, R)


def from_cc_call(cc):
    a = (cc.real(0), cc.arg(1), cc.arg(2), cc.real(3), cc.real(4), cc.boolean(5, False))
    r = FCC(*a)
    cc.requires(a[4] >= 0, 'free-flow time not negative')
    cc.assume(z3.And([r >= a[4]] + FromCC.relation(r, *a)))
    return r


class LastValid(Named):
    """the last entry time whose vehicles have left by the end of the loading"""
    pnames = ('nin', 'nout', 'end', 's')
    modifies = set()
    REC = 'MNM_Cumulative_Curve::m_recorder'

    def contracts(self):
        return curve_contracts()

    def requires(self, c):
        r = [self.a(c, 'end') >= 0, self.a(c, 'nin') > 0, self.a(c, 'nout') > 0]
        for k in ('nin', 'nout'):
            v = F(c.eng, c.st, self.a(c, k), self.REC)
            r += [v.len > 0]
        return r

    def ensures(self, c):
        x, y = (F(c.eng, c.old, self.a(c, k), self.REC) for k in ('nin', 'nout'))
        nx, ny = (z3.Select(v.c['e.second'], v.c['hi'] - 1) for v in (x, y))
        nin, nout, end = self.a(c, 'nin'), self.a(c, 'nout'), z3.ToReal(self.a(c, 'end'))
        t = CTIME(nin, ny, z3.BoolVal(False))
        return [('not negative', c.result >= 0), ('not after the end of the loading', c.result <= end),
                ('an emptied link is valid to the end of the loading', z3.Implies(nx == ny, c.result == end)),
                ('otherwise: the vehicles of this interval have left, those of the next have not',
                 z3.Implies(z3.And(nx > ny * 2, ny > 0, t >= 0), z3.And(c.result >= t, CVAL(nin, c.result + 1) > ny)))]


def last_valid_call(cc):
    cc.may_throw(cc.eng.fresh(B, 'badcurve'))
    return LV(cc.arg(0), cc.arg(1), cc.arg(2))


class LinkTT(Named):
    pnames = ('link', 'start', 'unit', 'end')
    NIN, NOUT, LAST = 'MNM_Dlink::m_N_in', 'MNM_Dlink::m_N_out', 'MNM_Dlink::m_last_valid_time'
    FFTT = ('get_link_freeflow_tt_loading',)

    def contracts(self):
        d = {NS + 'get_last_valid_time': last_valid_call,
             NS + 'get_travel_time_from_cc': from_cc_call}
        ff = z3.Function('fftt_loading_' + self.FFTT[0], I, I)
        self.ff = ff
        for cls in ('MNM_Dlink', 'MNM_Dlink_Multiclass'):
            d[cls + '::' + self.FFTT[0]] = lambda cc: ff(cc.this)
        return d

    def requires(self, c):
        l = self.a(c, 'link')
        x = z3.Int('fx')
        return [FA([x], self.ff(x) >= 0, [self.ff(x)]), l >= 0, c.args[3] >= 0,
                LV(F(c.eng, c.st, l, self.NIN), F(c.eng, c.st, l, self.NOUT), self.a(c, 'end')) >= 0]

    def ensures(self, c):
        l = self.a(c, 'link')
        nin, nout = F(c.eng, c.old, l, self.NIN), F(c.eng, c.old, l, self.NOUT)
        last = F(c.eng, c.old, l, self.LAST)
        lv = z3.If(last < 0, LV(nin, nout, self.a(c, 'end')), last)
        ff = z3.ToReal(self.ff(l))
        n = z3.Int('ln')
        H, H0 = (c.eng.heap_get(s, self.LAST, R) for s in (c.st, c.old))
        return [('the link has curves', z3.And(l != 0, nin != 0)),
                ('never less than the free-flow intervals', c.result >= ff),
                ('read from the curves of this link and class', z3.And(FromCC.relation(c.result, self.a(c, 'start'), nin, nout, lv, ff, z3.BoolVal(False)))),
                ('the valid range is kept for the link', F(c.eng, c.st, l, self.LAST) == lv),
                ('no other link is touched', FA([n], z3.Implies(n != l, z3.Select(H, n) == z3.Select(H0, n)), [z3.Select(H, n)]))]

    @property
    def modifies(self):
        return {self.LAST}



FFT = z3.Function('fftt_of', I, R)


class Robust(Named):
    """average of readings, each at least the free-flow intervals"""
    pnames = ('link', 'start', 'end_time', 'unit', 'end', 'trials')
    modifies = set()
    reading = 'get_travel_time'

    def contracts(self):
        def f(cc):
            r = cc.eng.fresh(R, 'tt')
            cc.assume(r >= FFT(cc.arg(0)))
            return r
        return {NS + self.reading: f}

    def requires(self, c):
        return [self.a(c, 'trials') >= 1, self.a(c, 'end_time') - self.a(c, 'start') >= 1, FFT(self.a(c, 'link')) >= 0]

    def loop_invs(self, c, lc):
        out = []
        for kind, k in sorted(lc.havoc, key=str):
            x = lc.entry.loc.get(k) if kind == 'L' else None
            if z3.is_expr(x) and x.sort() == R:
                for nm, get in lc.index_terms():
                    out.append(('%s >= %s * fftt' % (lc.lname.get(k, k), nm), lambda s, k=k, get=get: s.loc[k] >= z3.ToReal(get(s)) * FFT(self.a(c, 'link'))))
        return out

    def ensures(self, c):
        return [('the average is never below the free-flow intervals', c.result >= FFT(self.a(c, 'link')))]


class Intervals(Contract):
    """free-flow travel time in loading intervals"""
    modifies = set()

    def ensures(self, c):
        return [('the free-flow travel time the link itself enforces', c.result == F(c.eng, c.old, c.this, self.field))]


def C12():
    f, m = 'dta_gradient_utls.cpp', 'multiclass.cpp'
    N = 'MNM_Dlink::m_N_'
    M = 'MNM_Dlink_Multiclass::m_N_'
    r = [Flow('inflow of a link', NS + 'get_link_inflow', f, sig='double, double)'),
         Flow('inflow of a link, whole intervals', NS + 'get_link_inflow', f, sig='int, int)'),
         Flow('outflow of a link', NS + 'get_link_outflow', f, curve=N + 'out')]
    for x in ('car', 'truck'):
        r += [Flow('inflow of a link, %ss' % x, NS + 'get_link_inflow_' + x, m, curve=M + 'in_' + x, sig='double, double)'),
              Flow('inflow of a link, %ss, whole intervals' % x, NS + 'get_link_inflow_' + x, m, curve=M + 'in_' + x, sig='int, int)'),
              Flow('outflow of a link, %ss' % x, NS + 'get_link_outflow_' + x, m, curve=M + 'out_' + x)]
    r += [FromCC('travel time from curves', NS + 'get_travel_time_from_cc', f),
          LastValid('last valid time of the curves', NS + 'get_last_valid_time', f),
          LinkTT('link travel time', NS + 'get_travel_time', f)]
    r += [LinkTT('link travel time, %ss' % x, NS + 'get_travel_time_' + x, m, NIN=M + 'in_' + x, NOUT=M + 'out_' + x,
                 LAST='MNM_Dlink::m_last_valid_time' if x == 'car' else 'MNM_Dlink_Multiclass::m_last_valid_time_truck',
                 FFTT=('get_link_freeflow_tt_loading_' + x,)) for x in ('car', 'truck')]
    r += [Robust('average link travel time' + ('' if not x else ', %ss' % x[1:]), NS + 'get_travel_time%s_robust' % x, m if x else f, reading='get_travel_time' + x)
          for x in ('', '_car', '_truck')]
    for cls, fl in (('MNM_Dlink_Ctm', 'm_num_cells'), ('MNM_Dlink_Pq', 'm_max_stamp')):
        r.append(Intervals('free-flow intervals, %s' % cls, cls + '::get_link_freeflow_tt_loading', 'dlink.cpp', field=cls + '::' + fl))
        r.append(Intervals('free-flow intervals of cars, %s' % cls, cls + '_Multiclass::get_link_freeflow_tt_loading_car', m, field=cls + '_Multiclass::' + fl))
    r.append(Intervals('free-flow intervals of trucks, point queue', 'MNM_Dlink_Pq_Multiclass::get_link_freeflow_tt_loading_truck', m, field='MNM_Dlink_Pq_Multiclass::m_max_stamp'))
    return r


# ------------------------------------------------------------------ C22: sums along a path
LTT0 = z3.Function('link_tt_now', I, R)         # ghost: value of get_link_tt
RUT = z3.Function('round_up', R, I)             # ghost: value of round_up_time (contract: RoundUp)
SUM = z3.Function('sum_until', I, R)            # ghost: prefix sum over the links of the path
ARR = z3.Function('arrival', I, I)              # ghost: arrival interval at the k-th link
LTTA = {k: z3.Function('link_tt_entering_' + k, I, R, R)        # ghost: value of the link travel time for a link and a time
        for k in ('get_travel_time', 'get_travel_time_car', 'get_travel_time_truck')}


class RoundUp(Named):
    """a link is never crossed in less than one interval, and never faster than its travel time (up to the tolerance)"""
    pnames = ('time', 'p')
    modifies = set()

    def requires(self, c):
        return [self.a(c, 'p') >= 0, self.a(c, 'p') < 1]

    def ensures(self, c):
        t, r = self.a(c, 'time'), z3.ToReal(c.result)
        return [('at least one interval', c.result >= 1),
                ('not less than the time, up to the tolerance', r + self.a(c, 'p') * z3.If(t >= 0, t, 0) >= t),
                ('less than one interval more', z3.Implies(t >= 1, r < t + 1))]


class PathSum(Named):
    """value along a path = sum over its links, in order"""
    modifies = set()
    uf_div = True
    path = 'this'
    sums = ('sum',)     # ghosts used

    def contracts(self):
        d = {}
        for k in ('MNM_Dlink', 'MNM_Dlink_Ctm', 'MNM_Dlink_Pq', 'MNM_Dlink_Lq', 'MNM_Dlink_Ltm'):
            d[k + '::get_link_tt'] = lambda cc: LTT0(cc.this)
        d['MNM_Ults::round_up_time'] = self.round_up
        for k in LTTA:
            d[NS + k] = lambda cc, k=k: LTTA[k](cc.arg(0), cc.real(1))
        return d

    @staticmethod
    def round_up(cc):
        r = RUT(cc.real(0))
        cc.assume(r >= 1)
        return r

    def links(self, c, st):
        ref = c.this if self.path == 'this' else self.a(c, self.path)
        return F(c.eng, st, ref, 'MNM_Path::m_link_vec')

    def link(self, c, id_):
        f = self.a(c, 'factory')
        return F(c.eng, c.st, f, 'MNM_Link_Factory::m_link_map').get(id_)

    def field(self, c, link, nm):
        return z3.Select(c.eng.heap_get(c.st, 'MNM_Dlink::' + nm, R), link)

    def table(self, c, nm, id_, t):
        """value of a link at a time in a table of per-interval arrays, the last interval being used beyond the end"""
        m = c.eng.peek(c.st, self.a(c, nm)) if hasattr(self.a(c, nm), 'same') else self.a(c, nm)
        a = z3.Select(c.eng.heap_get(c.st, '$arr:real', z3.ArraySort(I, R)), m.get(id_))
        return z3.Select(a, z3.If(t < self.a(c, 'last'), t, self.a(c, 'last') - 1))

    def step(self, c, p, id_):
        raise NotImplementedError

    def begin(self, c):
        return []

    def more_requires(self, c):
        return []

    def requires(self, c):
        v = self.links(c, c.st)
        lo, hi, e = v.c['lo'], v.c['hi'], v.c['e']
        p = z3.Int('pp')
        el = z3.Select(e, p)
        r = [SUM(lo) == 0, FA([p], z3.Implies(z3.And(lo <= p, p < hi), z3.And(self.step(c, p, el))), [el])] + self.begin(c) + self.more_requires(c)
        if self.path != 'this':
            r.append(self.a(c, self.path) >= 0)
        return r

    def tables(self, c, *nms):
        """every link of the path has an array in the table"""
        v = self.links(c, c.st)
        p = z3.Int('pp')
        el = z3.Select(v.c['e'], p)
        out = [self.a(c, 'last') >= 1]
        for nm in nms:
            m = c.eng.peek(c.st, self.a(c, nm)) if hasattr(self.a(c, nm), 'same') else self.a(c, nm)
            out.append(FA([p], z3.Implies(z3.And(v.c['lo'] <= p, p < v.c['hi']), z3.And(m.has(el), m.get(el) > 0)), [el]))
        return out

    def round(self, c):
        x = self.a(c, 'start')
        return z3.ToInt(x + z3.Q(1, 2))

    def loop_invs(self, c, lc):
        v = self.links(c, c.old)
        lo = v.c['lo']
        out = []
        for kind, k in sorted(lc.havoc, key=str):
            if kind != 'L':
                continue
            x = lc.entry.loc.get(k)
            if isinstance(x, Cv) and x.ty.k == 'map':
                out.append(('table %s unchanged' % (k,), lambda s, k=k, x=x: z3.And([s.loc[k].c[q] == x.c[q] for q in x.c])))
            if not z3.is_expr(x) or k in c.eng.ptrlocals:
                continue
            for nm, get in lc.index_terms():
                for w, off in (('', 0), ('+lo', lo)):
                    n = '%s %s%s' % (lc.lname.get(k, k), nm, w)
                    if x.sort() == R:
                        out.append(('sum ' + n, lambda s, k=k, get=get, off=off: s.loc[k] == SUM(get(s) + off)))
                        out.append(('arr ' + n, lambda s, k=k, get=get, off=off: s.loc[k] == z3.ToReal(ARR(get(s) + off))))
                        if 'start' in c.names:
                            out.append(('arr- ' + n, lambda s, k=k, get=get, off=off: s.loc[k] == z3.ToReal(ARR(get(s) + off)) - self.a(c, 'start')))
                    elif x.sort() == I and nm != lc.lname.get(k, k):
                        out.append(('arr ' + n, lambda s, k=k, get=get, off=off: s.loc[k] == ARR(get(s) + off)))
                        out.append(('arr-0 ' + n, lambda s, k=k, get=get, off=off: s.loc[k] == ARR(get(s) + off) - ARR(lo)))
        return out

    def ensures(self, c):
        hi = self.links(c, c.old).c['hi']
        want = SUM(hi) if 'sum' in self.sums else z3.ToReal(ARR(hi)) - self.a(c, 'start')
        return [(self.what, c.result == want)]


class PathTT(PathSum):
    pnames = ('factory',)
    what = 'sum of the link travel times'

    def step(self, c, p, id_):
        return [SUM(p + 1) == SUM(p) + LTT0(self.link(c, id_))]


class PathFFTT(PathTT):
    what = 'sum of length / free-flow speed'

    def step(self, c, p, id_):
        l = self.link(c, id_)
        return [SUM(p + 1) == SUM(p) + RDIV(self.field(c, l, 'm_length'), self.field(c, l, 'm_ffs'))]


class PathLength(PathTT):
    what = 'sum of the link lengths'

    def step(self, c, p, id_):
        return [SUM(p + 1) == SUM(p) + self.field(c, self.link(c, id_), 'm_length')]


class Snapshot(PathSum):
    pnames = ('path', 'costs')
    path = 'path'
    what = 'sum of the link costs'

    def step(self, c, p, id_):
        m = c.eng.peek(c.st, self.a(c, 'costs'))
        return [SUM(p + 1) == SUM(p) + m.get(id_)]

    def more_requires(self, c):
        return [self.a(c, 'path') > 0]


class Walk(PathSum):
    """time-dependent travel time: each link is entered at the interval in which the previous one was left"""
    sums = ('arr',)
    path = 'path'
    reading = 'get_travel_time'
    pnames = ('path', 'start', 'factory', 'unit', 'last')
    what = 'arrival after walking the links one by one - departure'

    def begin(self, c):
        lo = self.links(c, c.st).c['lo']
        return [ARR(lo) == self.round(c), self.a(c, 'start') >= 0]

    def step(self, c, p, id_):
        return [ARR(p + 1) == ARR(p) + RUT(LTTA[self.reading](self.link(c, id_), z3.ToReal(ARR(p) + 1)))]

class WalkTable(Walk):
    pnames = ('path', 'start', 'tt', 'last')

    def step(self, c, p, id_):
        return [ARR(p + 1) == ARR(p) + RUT(self.table(c, 'tt', id_, ARR(p)))]

    def more_requires(self, c):
        return self.tables(c, 'tt')


class WalkRaw(WalkTable):
    """the variant without rounding: the time in a table is added and the fraction dropped"""
    pnames = ('start', 'path', 'tt', 'last')

    def step(self, c, p, id_):
        x = z3.ToReal(ARR(p)) + self.table(c, 'tt', id_, ARR(p))
        return [ARR(p + 1) == z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))]

    def more_requires(self, c):
        return self.tables(c, 'tt') + [self.a(c, 'path') > 0]


class WalkCost(WalkTable):
    sums = ('arr', 'sum')
    pnames = ('path', 'start', 'tt', 'cost', 'last')
    what = 'sum of the link costs at the interval each link is entered'

    def step(self, c, p, id_):
        return super().step(c, p, id_) + [SUM(p + 1) == SUM(p) + self.table(c, 'cost', id_, ARR(p))]

    def more_requires(self, c):
        return self.tables(c, 'tt', 'cost')


def C22():
    f, g, m = 'path.cpp', 'dta_gradient_utls.cpp', 'multiclass.cpp'
    r = [RoundUp('rounding to whole intervals', 'MNM_Ults::round_up_time', 'ults.cpp'),
         PathTT('travel time of a path', 'MNM_Path::get_path_tt', f),
         PathFFTT('free-flow time of a path', 'MNM_Path::get_path_fftt', f),
         PathLength('length of a path', 'MNM_Path::get_path_length', f),
         Snapshot('cost of a path', 'MNM::get_path_tt_snapshot', f),
         WalkRaw('time-dependent travel time from a table', 'MNM::get_path_tt', f),
         Walk('time-dependent travel time of a path', NS + 'get_path_travel_time', g, nparams=5),
         WalkTable('time-dependent travel time of a path from a table', NS + 'get_path_travel_time', g, nparams=4),
         WalkCost('time-dependent cost of a path', NS + 'get_path_travel_cost', g)]
    for x in ('car', 'truck'):
        r += [Walk('time-dependent travel time of a path, %ss' % x, NS + 'get_path_travel_time_' + x, m, nparams=5, isa=('MNM_Dlink_Multiclass',), reading='get_travel_time_' + x),
              WalkTable('time-dependent travel time of a path from a table, %ss' % x, NS + 'get_path_travel_time_' + x, m, nparams=4)]
    return r


# ------------------------------------------------------------------ C17: route choice portions
PS = z3.Function('portion_sum_until', I, R)     # ghost: prefix sum of the portions before the call
PVEC, PP = 'MNM_Pathset::m_path_vec', 'MNM_Path::m_p'


class Normalize(Contract):
    """the portions of an OD pair are divided by their sum; all zero: equal shares"""
    modifies = {PP}
    uf_div = True
    retry = False

    def v(self, c):
        return F(c.eng, c.old or c.st, c.this, PVEC)

    def p0(self, c, x):
        return z3.Select(c.eng.heap_get(c.old or c.st, PP, R), x)

    def requires(self, c):
        v = self.v(c)
        lo, hi = v.c['lo'], v.c['hi']
        p = z3.Int('pp')
        x, y = z3.Reals('dx dy')
        el = z3.Select(v.c['e'], p)
        return [PS(lo) == 0,
                FA([p], z3.Implies(z3.And(lo <= p, p < hi), z3.And(el > 0, cellpos(el) == p, PS(p + 1) == PS(p) + self.p0(c, el))), [el]),
                FA([x, y], z3.Implies(y != 0, RDIV(x, y) * y == x), [RDIV(x, y)])]

    def rel(self, c, s, k):
        """normalised value of the k-th path"""
        v = self.v(c)
        hi = v.c['hi']
        el = z3.Select(v.c['e'], k)
        T = PS(hi)
        now = z3.Select(c.eng.heap_get(s, PP, R), el)
        return z3.And(z3.Implies(T != 0, now * T == self.p0(c, el)), z3.Implies(T == 0, now * z3.ToReal(hi - v.c['lo']) == 1))

    def idx_invs(self, c):
        v = self.v(c)
        lo, hi = v.c['lo'], v.c['hi']
        k, m = z3.Int('k'), z3.Int('m')
        el = z3.Select(v.c['e'], k)
        now = lambda s, x: z3.Select(c.eng.heap_get(s, PP, R), x)
        rng = lambda i: z3.And(lo <= k, k < hi, k < i)
        out = []
        for w, off in (('', 0), ('+lo', lo)):
            out += [('not negative before' + w, lambda s, i, o=off: FA([k], z3.Implies(rng(i + o), self.p0(c, el) >= 0), [el])),
                    ('normalised before' + w, lambda s, i, o=off: FA([k], z3.Implies(rng(i + o), self.rel(c, s, k)), [el])),
                    ('not yet after' + w, lambda s, i, o=off: FA([k], z3.Implies(z3.And(i + o <= k, k < hi), now(s, el) == self.p0(c, el)), [el])),
                    ('others' + w, lambda s, i, o=off: FA([m], z3.Implies(z3.Not(z3.And(lo <= cellpos(m), cellpos(m) < i + o, z3.Select(v.c['e'], cellpos(m)) == m)), now(s, m) == self.p0(c, m)), [now(s, m)]))]
        return out

    def loop_invs(self, c, lc):
        out = []
        lo = self.v(c).c['lo']
        for kind, k in sorted(lc.havoc, key=str):
            x = lc.entry.loc.get(k) if kind == 'L' else None
            if not z3.is_expr(x) or x.sort() != R:
                continue
            out.append(('same %s' % (lc.lname.get(k, k)), lambda s, k=k, x=x: s.loc[k] == x))
            for nm, get in lc.index_terms():
                for w, off in (('', 0), ('+lo', lo)):
                    out.append(('sum %s %s%s' % (lc.lname.get(k, k), nm, w), lambda s, k=k, get=get, off=off: s.loc[k] == PS(get(s) + off)))
        return out

    def ensures(self, c):
        v = self.v(c)
        lo, hi = v.c['lo'], v.c['hi']
        k, m = z3.Int('k'), z3.Int('m')
        el = z3.Select(v.c['e'], k)
        now = lambda x: z3.Select(c.eng.heap_get(c.st, PP, R), x)
        inr = lambda k: z3.And(lo <= k, k < hi)
        return [('negative portions are refused', FA([k], z3.Implies(inr(k), self.p0(c, el) >= 0), [el])),
                ('portion * sum of the portions = portion before; equal shares if all are zero', FA([k], z3.Implies(inr(k), self.rel(c, c.st, k)), [el])),
                ('paths of other pairs keep their portion', FA([m], z3.Implies(z3.Not(z3.And(inr(cellpos(m)), z3.Select(v.c['e'], cellpos(m)) == m)), now(m) == self.p0(c, m)), [now(m)]))]

    def lemmas(self):
        q, s, a, b, T, n, k = z3.Reals('q s a b T n k')
        return [('induction: the sum of the first portions times the sum = the sum of the first portions before',
                 z3.ForAll([q, s, a, b, T], z3.Implies(z3.And(q * T == s, b * T == a), (q + b) * T == s + a))),
                ('hence the portions add up to one', z3.ForAll([q, T], z3.Implies(z3.And(q * T == T, T != 0), q == 1))),
                ('induction, equal shares', z3.ForAll([q, k, b, n], z3.Implies(z3.And(q * n == k, b * n == 1), (q + b) * n == k + 1)))]


go, gd, gi = z3.Ints('go gd gi')       # an arbitrary OD pair and an arbitrary path of it


PTABLE = parse('std::unordered_map<int, std::unordered_map<int, MNM_Pathset *> *>')


class Table(Contract):
    """an operation over the whole path table reaches an arbitrary path set (an arbitrary path) of it; `hit` is what it does there"""
    pnames = ('table', 'col')
    perpath = True
    BUF, BLEN = 'MNM_Path::m_buffer', 'MNM_Path::m_buffer_length'

    def arg(self, c, nm):
        return dict(zip(c.names, c.args0))[nm]

    def outer(self, c):
        t = PTABLE
        return c.eng.peek(c.old or c.st, LField(self.arg(c, 'table'), '$box:%r' % t, t)), t

    def inner(self, c, o):
        m, t = self.outer(c)
        return c.eng.peek(c.old or c.st, LField(m.get(o), '$box:%r' % t.b.a, t.b.a))

    def pathset(self, c):
        return self.inner(c, go).get(gd)

    def path(self, c):
        v = F(c.eng, c.old or c.st, self.pathset(c), PVEC)
        return v.at(gi)

    def member(self, c):
        m, _ = self.outer(c)
        r = [m.has(go), self.inner(c, go).has(gd)]
        if self.perpath:
            v = F(c.eng, c.old or c.st, self.pathset(c), PVEC)
            r += [0 <= gi, gi < v.len]
        return z3.And(r)

    def requires(self, c):
        c.eng.map_fact(c.st, self.outer(c)[0], go)
        c.eng.map_fact(c.st, self.inner(c, go), gd)
        return [self.arg(c, 'table') > 0]

    def hit(self, c, s):
        raise NotImplementedError

    def loop_invs(self, c, lc):
        """by what a loop runs over: the members before its index have been reached; what was reached stays so"""
        e = lc.entry
        h = lambda s: self.hit(c, s)
        m, _ = self.outer(c)
        inn = self.inner(c, go)
        ps = self.pathset(c)
        mem = self.member(c)
        out = [('stays', lambda s: z3.Implies(h(e), h(s)))]
        keys = []
        for k, v in sorted(e.loc.items(), key=str):
            if isinstance(v, Cv) and v.ty.k == 'pair':
                keys += [v.c[q] for q in v.c if z3.is_expr(v.c[q]) and v.c[q].sort() == I]
            elif isinstance(v, It) and v.lv.ty.k == 'map':
                x = c.eng.peek(e, v.lv)
                key = z3.Select(x.c['ord'], v.pos)
                keys += [key] + ([x.get(key)] if z3.is_expr(x.get(key)) else [])
            elif z3.is_expr(v) and v.sort() == I:
                keys.append(v)
        imap = m.get(go)
        for nm, get in lc.index_terms():
            out.append(('origins ' + nm, lambda s, get=get: z3.Implies(z3.And(mem, z3.Select(m.c['pos'], go) < get(s)), h(s))))
            for j, key in enumerate(keys):
                for w, x in (('o', go), ('im', imap)):
                    out.append(('destinations %s %s%d' % (nm, w, j), lambda s, get=get, key=key, x=x: z3.Implies(
                        z3.And(mem, key == x, z3.Select(inn.c['pos'], gd) < get(s)), h(s))))
                if self.perpath:
                    out.append(('paths %s %d' % (nm, j), lambda s, get=get, key=key: z3.Implies(z3.And(mem, key == ps, gi < get(s)), h(s))))
        return out

    def ensures(self, c):
        return [(self.what, z3.Implies(self.member(c), self.hit(c, c.st)))]


def normalize_call(cc):
    cc.requires(cc.this > 0, 'path set exists')
    cc.may_throw(cc.eng.fresh(B, 'negative'))
    cc.st.ghost['normed'] = z3.Store(cc.st.ghost['normed'], cc.this, z3.BoolVal(True))
    cc.havoc_heap(PP)


class NormalizeTable(Table):
    perpath = False
    safety = False
    modifies = {PP}
    what = 'the portions of every pair are normalised'

    def contracts(self):
        return {'MNM_Pathset::normalize_p': normalize_call}

    def requires(self, c):
        m, _ = self.outer(c)
        o, d = z3.Ints('ro rd')
        inn = self.inner(c, o)
        return super().requires(c) + [FA([o, d], z3.Implies(z3.And(m.has(o), inn.has(d)), inn.get(d) > 0), [inn.get(d)])]

    def init_ghost(self, eng, st):
        st.ghost['normed'] = z3.K(I, z3.BoolVal(False))

    def hit(self, c, s):
        return z3.Select(s.ghost['normed'], self.pathset(c))


class FromBuffer(Table):
    safety = False
    modifies = {PP}
    what = 'every path gets the portion of the interval from its buffer'

    def hit(self, c, s):
        x = self.path(c)
        b = F(c.eng, c.old or c.st, x, self.BUF)
        b = getattr(b, 'ref', b)
        a = z3.Select(c.eng.heap_get(c.old or c.st, '$arr:real', z3.ArraySort(I, R)), b)
        return z3.Select(c.eng.heap_get(s, PP, R), x) == z3.Select(a, self.arg(c, 'col'))


class ToBuffer(Table):
    retry = False
    safety = False
    modifies = {'$arr:real'}
    what = 'the portion of every path is kept in its buffer for the interval'

    def hit(self, c, s):
        x = self.path(c)
        b = F(c.eng, c.old or c.st, x, self.BUF)
        b = getattr(b, 'ref', b)
        a = z3.Select(c.eng.heap_get(s, '$arr:real', z3.ArraySort(I, R)), b)
        return z3.Select(c.eng.heap_get(c.old or c.st, PP, R), x) == z3.Select(a, self.arg(c, 'col'))

    def requires(self, c):
        """each path has a buffer of its own"""
        x = z3.Int('rx')
        b = F(c.eng, c.st, x, self.BUF)
        b = getattr(b, 'ref', b)
        return super().requires(c) + [FA([x], owner(b) == x, [b])]


def C17():
    f = 'path.cpp'
    return [Normalize('portions of an OD pair', 'MNM_Pathset::normalize_p', f),
            NormalizeTable('portions of all pairs', 'MNM::normalize_path_table_p', f),
            FromBuffer('portions of an interval', 'MNM::copy_buffer_to_p', f),
            ToBuffer('keeping the portions of an interval', 'MNM::copy_p_to_buffer', f)]
