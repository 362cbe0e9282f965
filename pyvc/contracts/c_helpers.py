import z3

from ..spec import *
from ..ty import *

IDX = SetT(CHAR)
SIZES = DictT(CHAR, INT)
H = "opt_einsum.helpers:"


def sz(I, t, z, k):
    """idx_dict[k] and presence, for a dict or a list"""


def prod_spec(I, it_t, iz, d_t, dz):
    """the specified product"""
    val = d_t.val(dz) if isinstance(d_t, DictT) else d_t.arr(dz)
    if isinstance(it_t, SetT):
        return I.th.ps(it_t.el, iz, val)
    return I.th.pl(it_t, it_t.arr(iz), it_t.len(iz), val)


class ComputeSize(Contract):
    qual = H + "compute_size_by_dict"
    props = ("C05", "C06", "C07", "C16")
    params = [
        {"indices": P(SetT(CHAR)), "idx_dict": P(SIZES, "dict")},
        {"indices": P(STR), "idx_dict": P(SIZES, "dict")},
        {"indices": P(SetT(INT)), "idx_dict": P(ListT(INT), "list")},
    ]
    ret = INT

    def shape(self, c):
        i, d = c.old["indices"], c.old["idx_dict"]
        return i.t, i.z, d.t, d.z

    def requires(self, c):
        it, iz, dt, dz = self.shape(c)
        x = z3.Const("x", it.el.sort())
        if isinstance(dt, DictT):
            inn = lambda x: z3.Select(dt.dom(dz), x)
        else:
            inn = lambda x: z3.And(0 <= x, x < dt.len(dz))
        if isinstance(it, SetT):
            return [("sizes known", z3.ForAll([x], z3.Implies(z3.Select(iz, x), inn(x)), patterns=[z3.Select(iz, x)]))]
        k = z3.Int("k")
        a = it.at(iz, k)
        return [("sizes known", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < it.len(iz)), inn(a)), patterns=[a]))]

    def ensures(self, c):
        it, iz, dt, dz = self.shape(c)
        return [("product of sizes", c.res(INT) == prod_spec(c.I, it, iz, dt, dz))]

    def loops(self, x):
        out = []
        I = x.I

        def val(y):
            for nm in ("idx_dict",):
                v = I.deref(y.raw(nm))
                return v.t.val(v.z) if isinstance(v.t, DictT) else v.t.arr(v.z)

        for nm in x.mod(INT):
            if x.it is not None and x.it.kind == "set":
                out.append((f"{nm} is the product over visited indices", lambda y, nm=nm: y.z(nm, INT) == I.th.ps(y.it.el, y.visited, val(y))))
            if x.it is not None and x.it.kind == "idx" and getattr(x.it, "src", None) is not None:
                out.append((f"{nm} is the product over the prefix", lambda y, nm=nm: y.z(nm, INT) == I.th.pl(y.it.src.t, y.it.src.t.arr(y.it.src.z), y.k, val(y))))
        return out


def flops(I, S, inner, n, val):
    """operations of a step over the indices S with n terms"""
    srt = (SetT(CHAR).sort(), z3.BoolSort(), z3.IntSort(), z3.ArraySort(z3.IntSort(), z3.IntSort()))
    f, new = I.th.fn("FLOPS", *srt, z3.IntSort())
    if new:
        a = [z3.Const(x, t) for x, t in zip("sinv", srt)]
        e = I.th.ps(CHAR, a[0], a[3]) * (z3.If(a[2] - 1 > 1, a[2] - 1, 1) + z3.If(a[1], 1, 0))
        I.th.ax("flops", z3.ForAll(a, f(*a) == e, patterns=[f(*a)]))
    return f(S, inner, n, val)


class FlopCount(Contract):
    qual = H + "flop_count"
    props = ("C07", "C16")
    params = [
        {"idx_contraction": P(IDX), "inner": BOOL, "num_terms": INT, "size_dictionary": P(SIZES, "dict")},
    ]
    ret = INT

    def requires(self, c):
        x = z3.Int("x")
        S, d = c["idx_contraction"], c["size_dictionary"]
        return [("sizes known", z3.ForAll([x], z3.Implies(z3.Select(S, x), z3.Select(SIZES.dom(d), x)), patterns=[z3.Select(S, x)]))]

    def ensures(self, c):
        return [("size times op factor", c.res(INT) == flops(c.I, c["idx_contraction"], c["inner"], c["num_terms"], SIZES.val(c["size_dictionary"])))]


ALL = [ComputeSize(), FlopCount()]
