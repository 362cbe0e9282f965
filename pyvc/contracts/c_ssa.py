"""Path format conversions."""
import z3

from .. import lib
from ..spec import *
from ..ty import *
from . import ssa
from .ssa import ISET, PATH, STEP

M = "opt_einsum.paths:"
IL = ListT(INT)


def int_lists(x):
    """(name, list) of integer lists the loop mutates"""
    out = []
    for nm in x.modcells():
        try:
            out.append((nm, x.z(nm, IL)))
        except Exception:
            pass
    return out


class SsaToLinear(Contract):
    qual = M + "ssa_to_linear"
    props = ("C04", "C08")
    params = [dict(ssa_path=P(PATH, "list"))]
    ret = PATH

    def n(self, c):
        return ssa.ninputs(c.I, c["ssa_path"])

    def requires(self, c):
        p = c["ssa_path"]
        return [("well formed path", z3.And(ssa.wf(c.I, p, self.n(c)), self.n(c) >= 1))]

    def ensures(self, c):
        p = c["ssa_path"]
        r = c.res(PATH)
        q = z3.Int("lq")
        if getattr(c, "lastpath", None) is not None:
            c.I.assume(ssa.sumlen_ext(c.I, r, c.lastpath, PATH.len(p)))
            c.I.assume(ssa.prefix_ext(c.I, r, c.lastpath, self.n(c), PATH.len(p)))
        st = ssa.linstep(c.I, PATH.at(r, q), PATH.arr(p), self.n(c), q)
        return [
            ("same number of steps", PATH.len(r) == PATH.len(p)),
            ("for the same number of inputs", ssa.ninputs(c.I, r) == self.n(c)),
            ("every step names positions that exist", ssa.linok(c.I, r, self.n(c))),
            ("every step names the positions of its ids", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < PATH.len(p)), st), patterns=[PATH.at(r, q)])),
        ]

    def setup(self, c):
        self.cv = c

    def loops(self, x):
        c, I = self.cv, self.cv.I
        p = c["ssa_path"]
        A, n = PATH.arr(p), self.n(c)
        out = []
        if x.it is None or x.it.kind != "idx":
            return out
        if I.loopstack:
            return ssa.removals(x, I)
        else:
            out.append(("next step is well formed", lambda y: z3.Implies(y.k < PATH.len(p), ssa.wf(I, p, n, y.k))))
            for nm in x.modcells():
                def srt(y, nm=nm):
                    z = y.z(nm, IL)
                    return z3.And(ssa.strict(IL.arr(z), IL.len(z)), IL.len(z) == n + y.k - I.th.sumlen(PATH, A, y.k))

                def mem(y, nm=nm):
                    z = y.z(nm, IL)
                    L = ssa.live(I, A, n, y.k)
                    I.assume(ssa.sorted_unique(I, z, L))
                    return z3.And(*ssa.same_members(I, z, L))

                def steps(y, nm=nm):
                    z = y.z(nm, PATH)
                    c.lastpath = z
                    q = z3.Int("iq")
                    st = ssa.linstep(I, PATH.at(z, q), A, n, q)
                    ok = ssa.linok(I, z, n, q)
                    return z3.And(PATH.len(z) == y.k, I.th.sumlen(PATH, PATH.arr(z), y.k) == I.th.sumlen(PATH, A, y.k), z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < y.k), ok), patterns=[ok]), z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < y.k), st), patterns=[PATH.at(z, q)]))

                out += [(f"{nm} increasing", srt), (f"{nm} holds the live ids", mem), (f"{nm} holds the steps so far", steps)]
            for nm in x.mod(INT):
                out.append((f"{nm} is the next id", lambda y, nm=nm: y.z(nm, INT) == n + y.k))
        return out


def steps_ok(I, r, src, n, upto):
    q = z3.Int("sq")
    t = ssa.ssastep(I, PATH.at(src, q), PATH.arr(r), n, q)
    w = ssa.wf(I, r, n, q)
    g = z3.And(0 <= q, q < upto)
    return z3.And(
        z3.ForAll([q], z3.Implies(g, z3.And(t, w)), patterns=[PATH.at(r, q)]),
        z3.ForAll([q], z3.Implies(g, z3.And(t, w)), patterns=[w]),
    )


class LinearToSsa(Contract):
    qual = M + "linear_to_ssa"
    props = ("C08", "C16")
    params = [dict(path=P(PATH, "list"))]
    ret = PATH

    def n(self, c):
        return ssa.ninputs(c.I, c["path"])

    def requires(self, c):
        p = c["path"]
        return [("well formed path", z3.And(ssa.linok(c.I, p, self.n(c)), self.n(c) >= 1))]

    def ensures(self, c):
        p, r = c["path"], c.res(PATH)
        return [
            ("same number of steps", PATH.len(r) == PATH.len(p)),
            ("for the same number of inputs", ssa.ninputs(c.I, r) == self.n(c)),
            ("every step names the ids at its positions", steps_ok(c.I, r, p, self.n(c), PATH.len(p))),
        ]

    def setup(self, c):
        self.cv = c

    def loops(self, x):
        c, I = self.cv, self.cv.I
        p = c["path"]
        n = self.n(c)
        out = []
        if x.it is None or x.it.kind != "idx":
            return out
        if I.loopstack:
            return ssa.removals(x, I)
        out.append(("next step is well formed", lambda y: z3.Implies(y.k < PATH.len(p), ssa.linok(I, p, n, y.k))))
        cells = x.modcells()
        for nm in cells:
            def srt(y, nm=nm):
                z = y.z(nm, IL)
                return z3.And(ssa.strict(IL.arr(z), IL.len(z)), IL.len(z) == n + y.k - I.th.sumlen(PATH, PATH.arr(p), y.k))

            def cnt(y, nm=nm):
                v = y.raw(nm)
                cl = I.cell(v) if isinstance(v, Ref) else None
                if cl is None or cl.kind != "obj" or cl.extra.get("iter") != "count":
                    return None
                return I.lift(cl.val["n"], INT) == n + y.k

            def steps(y, nm=nm):
                z = y.z(nm, PATH)
                return z3.And(PATH.len(z) == y.k, I.th.sumlen(PATH, PATH.arr(z), y.k) == I.th.sumlen(PATH, PATH.arr(p), y.k), steps_ok(I, z, p, n, y.k))

            out += [(f"{nm} counts ids", cnt), (f"{nm} increasing", srt)]
            for nm2 in cells:
                def mem(y, nm=nm, nm2=nm2):
                    z, r = y.z(nm, IL), y.z(nm2, PATH)
                    L = ssa.live(I, PATH.arr(r), n, y.k)
                    I.assume(ssa.sorted_unique(I, z, L))
                    return z3.And(*ssa.same_members(I, z, L))

                if nm2 != nm:
                    out.append((f"{nm} holds the live ids of {nm2}", mem))
            out.append((f"{nm} holds the steps so far", steps))
        return out


def same_entries(I, a, b):
    """two steps name the same things"""
    x = z3.Int("se")
    ea, eb = ssa.elems(I, a), ssa.elems(I, b)
    return z3.ForAll([x], ea[x] == eb[x])


class RoundtripLinear(Contract):
    qual = "pyvc_lemmas:roundtrip_linear"
    props = ("C08",)
    params = [dict(path=P(PATH))]
    ret = PATH

    def requires(self, c):
        p = c["path"]
        n = ssa.ninputs(c.I, p)
        return [("well formed path", z3.And(ssa.linok(c.I, p, n), n >= 1))]

    def ensures(self, c):
        p, r = c["path"], c.res(PATH)
        q = z3.Int("rq")
        a, b = PATH.at(r, q), PATH.at(p, q)
        return [
            ("same number of steps", PATH.len(r) == PATH.len(p)),
            ("every step names as many", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < PATH.len(p)), STEP.len(a) == STEP.len(b)))),
            ("every step names the same positions", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < PATH.len(p)), same_entries(c.I, a, b)))),
        ]


class RoundtripSsa(Contract):
    qual = "pyvc_lemmas:roundtrip_ssa"
    props = ("C08",)
    params = [dict(path=P(PATH))]
    ret = PATH

    def requires(self, c):
        p = c["path"]
        n = ssa.ninputs(c.I, p)
        return [("well formed path", z3.And(ssa.wf(c.I, p, n), n >= 1))]

    def ensures(self, c):
        p, r = c["path"], c.res(PATH)
        q = z3.Int("rq")
        a, b = PATH.at(r, q), PATH.at(p, q)
        return [
            ("same number of steps", PATH.len(r) == PATH.len(p)),
            ("every step names as many", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < PATH.len(p)), STEP.len(a) == STEP.len(b)))),
            ("every step names the same ids", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < PATH.len(p)), same_entries(c.I, a, b)))),
        ]

    def setup(self, c):
        self.cv = c

    def loops(self, x):
        c, I = self.cv, self.cv.I
        p = c["path"]
        n = ssa.ninputs(I, p)

        def live(y):
            r = y.z("r", PATH)
            v = z3.Int("lvx")
            a, b = ssa.live(I, PATH.arr(r), n, y.k), ssa.live(I, PATH.arr(p), n, y.k)
            return z3.And(a == b)

        def same(y):
            r = y.z("r", PATH)
            q, v = z3.Ints("rq rv")
            if y.mem.get("in"):
                y.hint(same_entries(I, PATH.at(r, y.k - 1), PATH.at(p, y.k - 1)))
            y.mem["in"] = True
            e = ssa.elems(I, PATH.at(r, q))[v]
            return z3.ForAll([q, v], z3.Implies(z3.And(0 <= q, q < y.k), e == ssa.elems(I, PATH.at(p, q))[v]), patterns=[e])

        return [("next step is well formed", lambda y: z3.Implies(y.k < PATH.len(p), ssa.wf(I, p, n, y.k))), ("the same ids are live", live), ("same steps so far", same)]


ALL = [SsaToLinear(), LinearToSsa(), RoundtripLinear(), RoundtripSsa()]
