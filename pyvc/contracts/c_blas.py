"""When a step may be executed by tensordot (opt_einsum/blas.py)."""
import z3

from ..spec import *
from ..ty import *
from .c_helpers import IDX

SHAPE = ListT(INT)
SHAPES = ListT(SHAPE)
SUBS = ListT(STR)


def occ(I, s, x):
    return I.th.cnt(STR, STR.arr(s), STR.len(s), x)


class CanBlas(Contract):
    """A label is only given when tensordot over the shared indices is the step's Einstein sum."""

    qual = "opt_einsum.blas:can_blas"
    props = ("C03", "C01")
    params = [
        dict(inputs=P(SUBS, "list"), result=STR, idx_removed=P(IDX), shapes=Const(None)),
        dict(inputs=P(SUBS, "list"), result=STR, idx_removed=P(IDX), shapes=P(SHAPES, "list")),
    ]
    ret = BOOL

    def requires(self, c):
        I = c.I
        ins, R, res = c["inputs"], c["idx_removed"], c["result"]
        x, k = z3.Ints("bx bk")
        two = SUBS.len(ins) == 2
        l, r = SUBS.at(ins, 0), SUBS.at(ins, 1)
        out = [("removed indices are those of the terms that the result lacks", z3.Implies(two, z3.ForAll([x], R[x] == z3.And(occ(I, l, x) + occ(I, r, x) >= 1, occ(I, res, x) == 0), patterns=[R[x]])))]
        if c.old["shapes"] is not None:
            s = c["shapes"]
            out.append(("one shape per term, one size per index", z3.And(SHAPES.len(s) == SUBS.len(ins), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < SUBS.len(ins)), SHAPE.len(SHAPES.at(s, k)) == STR.len(SUBS.at(ins, k)))))))
        return out

    def facts(self, c, vis=None):
        """what a label promises, for the indices of vis (default: all)"""
        I = c.I
        ins, res = c["inputs"], c["result"]
        l, r = SUBS.at(ins, 0), SUBS.at(ins, 1)
        x = z3.Int("fx")
        nl, nr, ne = occ(I, l, x), occ(I, r, x), occ(I, res, x)
        g = z3.Or(nl >= 1, nr >= 1) if vis is None else vis(x)
        pats = lambda *a: list(a)
        return [
            ("no repeated index in a term", z3.ForAll([x], z3.Implies(g, z3.And(nl <= 1, nr <= 1)), patterns=[nl, nr])),
            ("an index of both terms is summed", z3.ForAll([x], z3.Implies(z3.And(g, nl >= 1, nr >= 1), ne == 0), patterns=[nl, nr])),
            ("an index of one term is kept", z3.ForAll([x], z3.Implies(z3.And(g, nl + nr == 1), ne >= 1), patterns=[nl, nr])),
        ]

    def sizes(self, c, vis=None):
        I = c.I
        ins, R, s = c["inputs"], c["idx_removed"], c["shapes"]
        l, r = SUBS.at(ins, 0), SUBS.at(ins, 1)
        p, q = z3.Ints("sp sq")
        a, b = STR.at(l, p), STR.at(r, q)
        g = vis(a) if vis is not None else R[a]
        return z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < STR.len(l), 0 <= q, q < STR.len(r), a == b, g), SHAPE.at(SHAPES.at(s, 0), p) == SHAPE.at(SHAPES.at(s, 1), q)), patterns=[z3.MultiPattern(a, b)])

    def ensures(self, c):
        if c.result is False:
            return []
        lab = c.I.truth(c.result)
        lab = lab if not isinstance(lab, bool) else z3.BoolVal(lab)
        out = [("two terms", SUBS.len(c["inputs"]) == 2)] + self.facts(c)
        if c.old["shapes"] is not None:
            out.append(("no broadcasting in the summed indices", self.sizes(c)))
        return [(n, z3.Implies(lab, g)) for n, g in out]

    def setup(self, c):
        self.cv = c

    def loops(self, x):
        c = self.cv
        out = []
        if x.it is not None and x.it.kind == "set":
            for n, _ in self.facts(c):
                out.append((n, lambda y, n=n: dict(self.facts(c, lambda e: y.visited[e]))[n]))
            if c.old["shapes"] is not None:
                out.append(("sizes agree", lambda y: self.sizes(c, lambda e: y.visited[e])))
        return out


ALL = [CanBlas()]
