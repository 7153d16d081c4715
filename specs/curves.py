"""Contracts of the cumulative curve (dlink.cpp)."""
import z3
from vcgen.verify import Contract, F
from .common import *

REC = 'MNM_Cumulative_Curve::m_recorder'
P = z3.RealVal('1/10000')


def absr(x):
    return z3.If(x < 0, -x, x)


def mx(a, b):
    return z3.If(a < b, b, a)


def a_less(a, b):
    return a + P * mx(absr(a), absr(b)) < b


def a_eq(a, b):
    return absr(a - b) <= P * mx(absr(a), absr(b))


class CurveC(Contract):
    """class invariant: record times increase (each later by more than the comparison tolerance), counts do not decrease"""
    throws = 'allowed'

    def rec(self, c, st):
        return F(c.eng, st, c.this, REC)

    def T(self, v, k):
        return z3.Select(v.c['e.first'], v.c['lo'] + k)

    def N(self, v, k):
        return z3.Select(v.c['e.second'], v.c['lo'] + k)

    def inv(self, v, counts=True):
        a, b = z3.Ints('ca cb')
        T0, N0 = (lambda k: z3.Select(v.c['e.first'], k)), (lambda k: z3.Select(v.c['e.second'], k))
        rng = z3.And(v.c['lo'] <= a, a < b, b < v.c['hi'])
        r = [FA([a, b], z3.Implies(rng, T0(a) + P * T0(b) < T0(b)), [z3.MultiPattern(T0(a), T0(b))]),
             FA([a], z3.Implies(z3.And(v.c['lo'] <= a, a < v.c['hi']), T0(a) >= 0), [T0(a)])]
        if counts:
            r += [FA([a, b], z3.Implies(rng, N0(a) <= N0(b)), [z3.MultiPattern(N0(a), N0(b))]),
                  FA([a], z3.Implies(z3.And(v.c['lo'] <= a, a < v.c['hi']), N0(a) >= 0), [N0(a)])]
        return r

    def requires(self, c):
        return self.inv(self.rec(c, c.st))


class AddIncrement(CurveC):
    modifies = {REC}

    def requires(self, c):
        r = c.args[0]
        return CurveC.requires(self, c) + [r.c['first'] >= 0, r.c['second'] >= 0]

    def ensures(self, c):
        v, v0 = self.rec(c, c.st), self.rec(c, c.old)
        r0 = c.args0[0]
        t, q = r0.c['first'], r0.c['second']
        n, n0 = v.len, v0.len
        k = z3.Int('k')
        out = [('curve stays ordered in time with non-decreasing counts [%d]' % i, g) for i, g in enumerate(self.inv(v))]
        out += [
            ('the last count grows by exactly the recorded flow',
             z3.If(n0 == 0, z3.And(n == 1, self.T(v, 0) == t, self.N(v, 0) == q),
                   self.N(v, n - 1) == self.N(v0, n0 - 1) + q)),
            ('the last record carries the time of the increment', a_eq(self.T(v, n - 1), t)),
            ('earlier records are untouched', z3.And(n >= n0, z3.Or(n == n0, n == n0 + 1), fa_range(
                k, 0, z3.If(n == n0, n0 - 1, n0), z3.And(self.T(v, k) == self.T(v0, k), self.N(v, k) == self.N(v0, k)), []))),
        ]
        return out


class GetResult(CurveC):
    modifies = set()
    throws = 'never'

    def ensures(self, c):
        v = self.rec(c, c.st)
        t = c.args[0]
        res = c.result
        n = v.len
        m = z3.Int('m')
        w = z3.Int('w')
        # the step function: count of the last record not after t (times compared with the tolerance)
        rng = z3.And(v.c['lo'] <= m, m < v.c['hi'])
        Tm, Nm = z3.Select(v.c['e.first'], m), z3.Select(v.c['e.second'], m)
        Nm1 = z3.Select(v.c['e.second'], m - 1)
        return [('empty curve counts zero', z3.Implies(n == 0, res == 0)),
                ('flow recorded up to the query time is counted', FA([m], z3.Implies(z3.And(rng, Tm <= t), Nm <= res), [Tm])),
                ('flow recorded after the query time is not counted',
                 FA([m], z3.Implies(z3.And(rng, m > v.c['lo'], Tm > t, z3.Not(a_eq(Tm, t))), res <= Nm1), [Tm])),
                ('before the first record the curve has its first count', z3.Implies(z3.And(n > 0, self.T(v, 0) >= t), res == self.N(v, 0))),
                ('result lies between the first and the last count', z3.Implies(n > 0, z3.And(self.N(v, 0) <= res, res <= self.N(v, n - 1))))]


class GetTime(CurveC):
    modifies = set()
    throws = 'never'
    UP = False

    def requires(self, c):
        return CurveC.requires(self, c) + [c.args[0] >= 0, c.args[1] == z3.BoolVal(self.UP)]

    def ensures(self, c):
        v = self.rec(c, c.st)
        x = c.args[0]
        res = c.result
        n = v.len
        m = z3.Int('m')
        w = z3.Int('w')
        Nm = z3.Select(v.c['e.second'], m)
        Tm = z3.Select(v.c['e.first'], m)
        none = z3.Or(n <= 1, self.N(v, 0) >= x, a_less(self.N(v, n - 1), x))
        if self.UP:
            is_k = lambda k: z3.And(0 <= k, k < n, res == self.T(v, k), z3.Or(self.N(v, k) >= x, a_eq(self.N(v, k), x)),
                                    FA([m], z3.Implies(z3.And(v.c['lo'] <= m, m < v.c['lo'] + k), Nm < x), [Nm]))
            nm = 'result is the first recorded time at which the count was reached'
        else:
            is_k = lambda k: z3.And(0 <= k, k < n, res == self.T(v, k), z3.Or(self.N(v, k) <= x, a_eq(self.N(v, k), x)),
                                    FA([m], z3.Implies(z3.And(v.c['lo'] <= m, m < v.c['lo'] + k), z3.And(Nm < x, Nm < self.N(v, k))), [Nm]),
                                    FA([m], z3.Implies(z3.And(v.c['lo'] + k < m, m < v.c['hi']), z3.Or(z3.Not(a_less(Nm, x)), z3.Not(a_less(self.N(v, k), Nm)))), [Nm]))
            nm = 'result is the earliest recorded time of the largest count not exceeding the queried count'
        return [('an unreached count has no time', z3.Implies(none, res == -1)),
                (nm, z3.Implies(z3.Not(none), z3.Exists([w], is_k(w))))]


def C10():
    f = 'dlink.cpp'
    return [AddIncrement('curve: add increment', 'MNM_Cumulative_Curve::add_increment', f),
            GetResult('curve: count at time', 'MNM_Cumulative_Curve::get_result', f),
            GetTime('curve: time at count, down', 'MNM_Cumulative_Curve::get_time', f, UP=False),
            GetTime('curve: time at count, up', 'MNM_Cumulative_Curve::get_time', f, UP=True)]
