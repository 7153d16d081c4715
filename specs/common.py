"""Vocabulary shared by the contracts."""
import z3
from vcgen.engine import FA, I, R, B
from vcgen.verify import Contract, F

cellpos = z3.Function('cellpos', I, I)   # ghost: index of a cell in its link's cell array (makes the cells distinct)
owner = z3.Function('owner', I, I)     # ghost: which link/node object owns a sub-object (ownership condition)


def fa_range(k, lo, hi, body, pats=()):
    return FA([k], z3.Implies(z3.And(lo <= k, k < hi), body), pats)


TOTAL_UNCHANGED = 'every vehicle occurs in the queues as often as before'


class Conserve(Contract):
    """conservation: ghost Total (occurrences of an arbitrary vehicle over all listed queues) is unchanged"""
    total = True

    def ensures(self, c):
        return [(TOTAL_UNCHANGED, c.st.ghost['Total'] == c.old.ghost['Total'])] + self.more(c)

    def more(self, c):
        return []

    def invs(self, c):
        return [('total', lambda s: s.ghost['Total'] == c.old.ghost['Total'])]


class CtmShape:
    """class invariant of the cell-based link: m_num_cells >= 1 distinct cells owned by this link"""
    LINK = 'MNM_Dlink_Ctm'
    CELL = 'Ctm_Cell'
    idx_heap_only = True
    SHAPE_FRAME = (('not-own', lambda r: owner(r) != z3.Int('this')),)

    def cells(self, c, st):
        return F(c.eng, st, c.this, self.LINK + '::m_cell_array')

    def ncells(self, c, st):
        return F(c.eng, st, c.this, self.LINK + '::m_num_cells')

    def shape(self, c):
        ca, n = self.cells(c, c.st), self.ncells(c, c.st)
        i, j = z3.Ints('i j')
        return [ca.len == n, n >= 1,
                fa_range(i, 0, n, z3.And(ca.at(i) > 0, owner(ca.at(i)) == c.this, cellpos(ca.at(i)) == i), [ca.at(i)]),
                FA([i], z3.Implies(z3.And(owner(i) == c.this, 0 <= cellpos(i), cellpos(i) < n), ca.at(cellpos(i)) == i), [cellpos(i)])]

    def per_cell(self, c, rel):
        """template: rel(state, cell) for every cell on one side of the index"""
        ca, n = self.cells(c, c.old), self.ncells(c, c.old)

        def mk(cond):
            def f(s, i):
                k = z3.Int('k')
                return FA([k], z3.Implies(z3.And(0 <= k, k < n, cond(k, i)), rel(s, ca.at(k))), [ca.at(k)])
            return f
        return [('k<i', mk(lambda k, i: k < i)), ('k>=i', mk(lambda k, i: k >= i)),
                ('k<=i', mk(lambda k, i: k <= i)), ('k>i', mk(lambda k, i: k > i))]
