"""Cost model and small pieces of the path finders (opt_einsum/paths.py)."""
import z3

from ..spec import *
from ..ty import *
from .c_helpers import IDX, SIZES

M = "opt_einsum.paths:"
TERMS = ListT(IDX)
ISET = SetT(INT)


def known(S, d, dt=SIZES):
    x = z3.Const("kx", S.sort().domain())
    return z3.ForAll([x], z3.Implies(S[x], z3.Select(dt.dom(d), x)), patterns=[S[x]])


def inrange(R, n):
    r = z3.Int("ir")
    return z3.ForAll([r], z3.Implies(R[r], z3.And(0 <= r, r < n)), patterns=[R[r]])


def all_known(I, terms, d):
    """every index of every term has a size"""
    k = z3.Int("ak")
    x = z3.Int("ax")
    t = TERMS.at(terms, k)
    return z3.ForAll([k, x], z3.Implies(z3.And(0 <= k, k < TERMS.len(terms), t[x]), z3.Select(SIZES.dom(d), x)), patterns=[t[x]])


def keep_set(I, terms, output, remaining, i, j):
    rest = z3.Store(z3.Store(remaining, i, False), j, False)
    return z3.SetUnion(output, I.th.big(CHAR, TERMS.arr(terms), rest))


def pair_spec(I, terms, output, remaining, i, j, sizes):
    """(result indices, flops) of contracting terms i and j"""
    a, b = TERMS.at(terms, i), TERMS.at(terms, j)
    keep = keep_set(I, terms, output, remaining, i, j)
    either = z3.SetUnion(a, b)
    x = z3.Int("px")
    k12 = z3.SetIntersect(either, keep)
    inner = z3.SetDifference(z3.SetIntersect(a, b), keep) != IDX.empty()
    p = I.th.ps(CHAR, either, SIZES.val(sizes))
    return k12, p + z3.If(inner, p, 0)


class CalcK12(Contract):
    qual = M + "calc_k12_flops"
    props = ("C02", "C05", "C06", "C07", "C04")
    params = [dict(inputs=P(TERMS), output=P(IDX), remaining=P(ISET), i=INT, j=INT, size_dict=P(SIZES, "dict"))]
    ret = (IDX, INT)

    def requires(self, c):
        n = TERMS.len(c["inputs"])
        i, j = c["i"], c["j"]
        return [
            ("positions exist", z3.And(0 <= i, i < n, 0 <= j, j < n)),
            ("remaining in range", inrange(c["remaining"], n)),
            ("sizes known", all_known(c.I, c["inputs"], c["size_dict"])),
        ]

    def ensures(self, c):
        k12, fl = pair_spec(c.I, c["inputs"], c["output"], c["remaining"], c["i"], c["j"], c["size_dict"])
        return [("kept indices", c.part(0, IDX) == k12), ("flops of the pair", c.part(1, INT) == fl)]


def oversize_spec(I, terms, remaining, output, sizes):
    u = I.th.big(CHAR, TERMS.arr(terms), remaining)
    n = I.th.card(INT, remaining)
    inner = z3.SetDifference(u, output) != IDX.empty()
    return I.th.ps(CHAR, u, SIZES.val(sizes)) * (z3.If(n - 1 > 1, n - 1, 1) + z3.If(inner, 1, 0))


class Oversize(Contract):
    qual = M + "_compute_oversize_flops"
    props = ("C05", "C06")
    params = [dict(inputs=P(TERMS), remaining=P(ISET), output=P(IDX), size_dict=P(SIZES, "dict"))]
    ret = INT

    def requires(self, c):
        n = TERMS.len(c["inputs"])
        return [
            ("something remains", c["remaining"] != ISET.empty()),
            ("remaining in range", inrange(c["remaining"], n)),
            ("sizes known", all_known(c.I, c["inputs"], c["size_dict"])),
        ]

    def ensures(self, c):
        return [("flops of contracting all remaining terms", c.res(INT) == oversize_spec(c.I, c["inputs"], c["remaining"], c["output"], c["size_dict"]))]


XS = XINT.sort()


def xlt(a, b):
    return z3.And(z3.Not(XS.xinf(a)), z3.Or(XS.xinf(b), XS.xval(a) < XS.xval(b)))


def xle(a, b):
    return z3.Or(XS.xinf(b), z3.And(z3.Not(XS.xinf(a)), XS.xval(a) <= XS.xval(b)))


class _Better(Contract):
    params = [dict(flops=XINT, size=XINT, best_flops=XINT, best_size=XINT)]
    ret = BOOL
    props = ("C06", "C16")

    def lex(self, a, b, x, y):
        return z3.Or(xlt(a, b), z3.And(a == b, xlt(x, y)))


class BetterFlops(_Better):
    qual = M + "better_flops_first"

    def ensures(self, c):
        return [("flops first, then size", c.res(BOOL) == self.lex(c["flops"], c["best_flops"], c["size"], c["best_size"]))]


class BetterSize(_Better):
    qual = M + "better_size_first"

    def ensures(self, c):
        return [("size first, then flops", c.res(BOOL) == self.lex(c["size"], c["best_size"], c["flops"], c["best_flops"]))]


class CostRemoved(Contract):
    qual = M + "cost_memory_removed"
    props = ("C04",)
    params = [dict(size12=INT, size1=INT, size2=INT, k12=P(IDX), k1=P(IDX), k2=P(IDX))]
    ret = INT

    def ensures(self, c):
        return [("memory removed", c.res(INT) == c["size12"] - c["size1"] - c["size2"])]


class GetCandidate(Contract):
    """The key of a greedy candidate is exactly what remains after contracting the two keys,
    given that the reference counts describe how many remaining keys hold each dimension."""

    qual = M + "_get_candidate"
    props = ("C04",)
    DRC = {2: None, 3: None}
    params = [
        dict(
            output=P(IDX), sizes=P(SIZES, "dict"), remaining=P(DictT(IDX, INT), "dict"), footprints=P(DictT(IDX, INT), "dict"),
            dim_ref_counts=Build(lambda I: I.alloc("dict", {2: I.alloc("set", I.freshv("rc2", IDX)), 3: I.alloc("set", I.freshv("rc3", IDX))})),
            k1=P(IDX), k2=P(IDX), cost_fn=Build(lambda I: I.global_lookup("cost_memory_removed", load_module("opt_einsum.paths"))),
        )
    ]
    ret = (TupT(INT, INT, INT), IDX, IDX, IDX)

    def drc(self, c):
        I = c.I
        d = c.old["dim_ref_counts"]
        return I.deref(d[2]).z, I.deref(d[3]).z

    def requires(self, c):
        k1, k2, R, F = c["k1"], c["k2"], c["remaining"], c["footprints"]
        D = DictT(IDX, INT)
        return [
            ("keys remain", z3.And(D.dom(R)[k1], D.dom(R)[k2], D.dom(F)[k1], D.dom(F)[k2])),
            ("sizes known", z3.And(known(k1, c["sizes"]), known(k2, c["sizes"]))),
        ]

    def ensures(self, c):
        k1, k2, R, F = c["k1"], c["k2"], c["remaining"], c["footprints"]
        D = DictT(IDX, INT)
        rc2, rc3 = self.drc(c)
        x = z3.Int("gx")
        r1, r2, r12 = c.part(1, IDX), c.part(2, IDX), c.part(3, IDX)
        ids = D.val(R)
        T = TupT(INT, INT, INT)
        cost = c.part(0, T)
        spec = z3.And(z3.Or(k1[x], k2[x]), z3.Or(c["output"][x], z3.If(z3.And(k1[x], k2[x]), rc3[x], rc2[x])))
        return [
            ("result key", z3.ForAll([x], r12[x] == spec, patterns=[r12[x]])),
            ("same two keys, ordered by id", z3.Or(z3.And(r1 == k1, r2 == k2, ids[k1] <= ids[k2]), z3.And(r1 == k2, r2 == k1, ids[k2] < ids[k1]))),
            ("cost and tie-break", z3.And(T.get(cost, 0) == c.I.th.ps(CHAR, r12, SIZES.val(c["sizes"])) - D.val(F)[k1] - D.val(F)[k2], T.get(cost, 1) == ids[r2], T.get(cost, 2) == ids[r1])),
        ]


ALL = [CalcK12(), Oversize(), BetterFlops(), BetterSize(), CostRemoved(), GetCandidate()]
