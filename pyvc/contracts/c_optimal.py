"""optimal(): every complete plan reached is well formed, respects the memory limit, carries its
true cost, and -- without a limit -- none is cheaper."""
import z3

from .. import lib
from ..spec import *
from ..ty import *
from . import ssa
from .c_helpers import IDX, SIZES
from .c_paths import *
from .ssa import PATH, STEP


def xi(z):
    return xmk(z3.BoolVal(False), z)


def nonneg(d):
    x = z3.Int("nx")
    return z3.ForAll([x], z3.Implies(SIZES.dom(d)[x], SIZES.val(d)[x] >= 0), patterns=[SIZES.val(d)[x]])


class OptimalIterate(Contract):
    qual = M + "optimal._optimal_iterate"
    closure = True
    params = [dict(path=P(PATH), remaining=P(ISET), inputs=P(TERMS), flops=INT)]
    captures = ("best_flops", "best_ssa_path", "size_cache", "output_set", "size_dict", "memory_limit")
    modifies = ("best_flops", "best_ssa_path", "size_cache")
    types = {"best_flops.flops": XINT, "best_ssa_path.ssa_path": PATH, "size_cache": DictT(IDX, INT), "flops": XINT, "ssa_path": PATH}
    ret = None

    # ---- vocabulary
    def prepare(self, I, c, f):
        lim = c.old["memory_limit"]
        c.limited = isinstance(lim, V)
        c.lim = lim.z if isinstance(lim, V) else None
        c.out = I.deref(c.old["output_set"]).z
        c.sz = c["size_dict"]
        e = f.env.find("inputs")
        c.inputs0 = I.lift(e.vars["inputs"], TERMS)
        c.n = lib.lenof(I, e.vars["inputs"])
        c.n = c.n.z if isinstance(c.n, V) else z3.IntVal(c.n)
        self.search(I, c)

    def search(self, I, c):
        T, A = TERMS.sort(), ISET.sort()
        c.OPT = z3.Function("OPT", T, A, z3.IntSort())
        c.REACH = z3.Function("REACH", PATH.sort(), T, A, z3.IntSort(), z3.BoolSort())
        c.DONE = z3.Function("DONE", PATH.sort(), z3.IntSort(), z3.BoolSort())
        # unfolding of the recursive definition of OPT is requested explicitly (no matching loop)
        c.UNF = z3.Function("UNFOLD", T, A, z3.IntSort())
        if I.ghost.get("search"):
            return
        I.ghost["search"] = True
        ins, p = z3.Const("ins", T), z3.Const("p", PATH.sort())
        rem = z3.Const("rem", A)
        i, j, fl = z3.Ints("i j fl")
        k12, f12 = pair_spec(I, ins, c.out, rem, i, j, c.sz)
        nxt = self.next_state(ins, rem, i, j, k12)
        ok = z3.And(rem[i], rem[j], i < j)
        OPT, REACH, DONE = c.OPT, c.REACH, c.DONE
        cd = I.th.card(INT, rem)
        L = PATH.len(p)
        ext = lambda st: PATH.mk(L + 1, z3.Store(PATH.arr(p), L, st))
        q = z3.Int("q0")
        n0 = TERMS.len(c.inputs0)
        start = z3.And(L == 0, fl == 0, TERMS.len(ins) == n0, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n0), TERMS.at(ins, q) == TERMS.at(c.inputs0, q))), z3.ForAll([q], rem[q] == z3.And(0 <= q, q < n0)))
        I.assume(z3.ForAll([p, ins, rem, fl], z3.Implies(start, REACH(p, ins, rem, fl)), patterns=[REACH(p, ins, rem, fl)]))
        # the new state is named by its own variables, so that proving it reached means proving it equal
        pp, ii, rr, f2 = z3.Const("pp", PATH.sort()), z3.Const("ii", T), z3.Const("rr", A), z3.Int("f2")
        st = PATH.at(pp, L)
        grown = z3.And(PATH.len(pp) == L + 1, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < L), PATH.at(pp, q) == PATH.at(p, q))))
        si, sj = STEP.at(st, z3.IntVal(0)), STEP.at(st, z3.IntVal(1))
        k12s, f12s = pair_spec(I, ins, c.out, rem, si, sj, c.sz)
        ns = self.next_state(ins, rem, si, sj, k12s)
        oks = z3.And(grown, STEP.len(st) == 2, rem[si], rem[sj], si < sj, ii == ns[0], rr == ns[1], f2 == fl + f12s, self.step_fits(c, k12s))
        I.assume(z3.ForAll([p, ins, rem, fl, pp, ii, rr, f2], z3.Implies(z3.And(REACH(p, ins, rem, fl), oks), REACH(pp, ii, rr, f2)), patterns=[z3.MultiPattern(REACH(p, ins, rem, fl), c.UNF(ins, rem), REACH(pp, ii, rr, f2))]))
        I.assume(z3.ForAll([p, ins, rem, fl], z3.Implies(z3.And(REACH(p, ins, rem, fl), cd == 1), DONE(p, fl)), patterns=[REACH(p, ins, rem, fl)]))
        if c.limited:
            x = z3.Int("x")
            es = ssa.elems(I, st)
            allof = z3.And(grown, STEP.len(st) == cd, z3.ForAll([x], es[x] == rem[x]), f2 == fl + oversize_spec(I, ins, rem, c.out, c.sz))
            I.assume(z3.ForAll([p, ins, rem, fl, pp, f2], z3.Implies(z3.And(REACH(p, ins, rem, fl), allof), DONE(pp, f2)), patterns=[z3.MultiPattern(REACH(p, ins, rem, fl), c.UNF(ins, rem), DONE(pp, f2))]))
        wi, wj = z3.Function("opt_wi", T, A, z3.IntSort()), z3.Function("opt_wj", T, A, z3.IntSort())
        if not c.limited:
            # OPT: cheapest completion, over all orders of pairwise contractions
            I.assume(z3.ForAll([ins, rem], z3.Implies(cd == 1, OPT(ins, rem) == 0), patterns=[OPT(ins, rem)]))
            I.assume(z3.ForAll([ins, rem], OPT(ins, rem) >= 0, patterns=[OPT(ins, rem)]))
            u, ri, rj = c.UNF(ins, rem), rem[i], rem[j]
            mp = z3.MultiPattern(u, ri, rj)
            I.assume(z3.ForAll([ins, rem, i, j], z3.Implies(ok, OPT(ins, rem) <= f12 + OPT(*nxt)), patterns=[mp]))
            k12w, f12w = pair_spec(I, ins, c.out, rem, wi(ins, rem), wj(ins, rem), c.sz)
            nw = self.next_state(ins, rem, wi(ins, rem), wj(ins, rem), k12w)
            a, b = wi(ins, rem), wj(ins, rem)
            I.assume(z3.ForAll([ins, rem], z3.Implies(cd >= 2, z3.And(rem[a], rem[b], a < b, OPT(ins, rem) == f12w + OPT(*nw))), patterns=[c.UNF(ins, rem)]))

    @staticmethod
    def next_state(ins, rem, i, j, k12):
        n = TERMS.len(ins)
        return TERMS.mk(n + 1, z3.Store(TERMS.arr(ins), n, k12)), z3.Store(z3.Store(z3.Store(rem, i, False), j, False), n, True)

    def step_fits(self, c, k12):
        return c.I.th.ps(CHAR, k12, SIZES.val(c.sz)) <= c.lim if c.limited else z3.BoolVal(True)

    def best(self, c, old):
        if old:
            b, p = c.old["best_flops"]["flops"], c.old["best_ssa_path"]["ssa_path"]
        else:
            b, p = lib.content(c.I, c.vals["best_flops"])["flops"], lib.content(c.I, c.vals["best_ssa_path"])["ssa_path"]
        return c.I.lift(b, XINT), c.I.lift(p, PATH)

    def best_done(self, c, bf, bp):
        """the recorded path completes at the recorded cost; or none was found and all terms are contracted at once"""
        x = z3.Int("bd")
        first = PATH.at(bp, z3.IntVal(0))
        e = ssa.elems(c.I, first)
        one = z3.And(PATH.len(bp) == 1, STEP.len(first) == c.n, z3.ForAll([x], e[x] == z3.And(0 <= x, x < c.n), patterns=[e[x]]))
        return z3.If(XS.xinf(bf), one, c.DONE(bp, XS.xval(bf)))

    def good_path(self, c, p):
        I = c.I
        return z3.And(ssa.plen(p) >= 0, ssa.wf(I, p, c.n), ssa.balance(I, p, c.n) == 1)

    def cache_ok(self, c, d):
        D = DictT(IDX, INT)
        x = z3.Const("cx", IDX.sort())
        return z3.ForAll([x], z3.Implies(D.dom(d)[x], D.val(d)[x] == c.I.th.ps(CHAR, x, SIZES.val(c.sz))), patterns=[D.dom(d)[x]])

    def cache(self, c, old):
        v = c.old["size_cache"] if old else c.vals["size_cache"]
        if isinstance(v, dict):
            v = c.I.alloc("dict", dict(v))
        return c.I.lift(v, DictT(IDX, INT))

    def requires(self, c):
        I = c.I
        path, rem, ins, fl = c["path"], c["remaining"], c["inputs"], c["flops"]
        n = c.n
        bf, bp = self.best(c, True)
        L = ssa.plen(path)
        return [
            ("ids allocated", z3.And(n >= 1, L >= 0, TERMS.len(ins) == n + L)),
            ("remaining are the live ids", rem == ssa.live(I, PATH.arr(path), n, L)),
            ("something remains", z3.And(I.th.card(INT, rem) >= 1, I.th.card(INT, rem) == ssa.balance(I, path, n))),
            ("path well formed so far", ssa.wf(I, path, n)),
            ("cost so far", fl >= 0),
            ("reached at this cost", c.REACH(path, ins, rem, fl)),
            ("best is reached at its cost", self.best_done(c, bf, bp)),
            ("not worse than the best so far", xle(xi(fl), bf)),
            ("sizes known", all_known(I, ins, c.sz)),
            ("sizes not negative", nonneg(c.sz)),
            ("best path is complete", self.good_path(c, bp)),
            ("sizes cached are right", self.cache_ok(c, self.cache(c, True))),
        ]

    def ensures(self, c):
        I = c.I
        bf0, bp0 = self.best(c, True)
        bf, bp = self.best(c, False)
        out = [
            ("best path is complete", self.good_path(c, bp)),
            ("best is reached at its cost", self.best_done(c, bf, bp)),
            ("sizes cached are right", self.cache_ok(c, self.cache(c, False))),
            ("best never gets worse", xle(bf, bf0)),
        ]
        if not c.limited:
            tot = xi(c["flops"] + c.OPT(c["inputs"], c["remaining"]))
            out.append(("nothing cheaper is missed", xle(bf, tot)))
            out.append(("nothing impossible is claimed", z3.Or(bf == bf0, xle(tot, bf))))
        return out

    def setup(self, c):
        self.cv = c
        c.I.assume(c.UNF(c["inputs"], c["remaining"]) == 0)

    def loops(self, x):
        c = self.cv
        I = c.I
        if x.it is None or x.it.kind != "pairs":
            return []
        bf0, bp0 = self.best(c, True)
        T = TupT(INT, INT)

        def seen(y):
            a, b = z3.Ints("sa sb")
            ins, rem = c["inputs"], c["remaining"]

            def ok(lo, hi):
                k12, f12 = pair_spec(I, ins, c.out, rem, lo, hi, c.sz)
                return xle(self.best(c, False)[0], xi(c["flops"] + f12 + c.OPT(*self.next_state(ins, rem, lo, hi, k12))))

            v = y.visited[T.mk(a, b)]
            return z3.And(
                z3.ForAll([a, b], z3.Implies(z3.And(v, a < b), ok(a, b)), patterns=[v]),
                z3.ForAll([a, b], z3.Implies(z3.And(v, b < a), ok(b, a)), patterns=[v]),
            )

        out = [
            ("best path is complete", lambda y: self.good_path(c, self.best(c, False)[1])),
            ("best is reached at its cost", lambda y: self.best_done(c, *self.best(c, False))),
            ("sizes cached are right", lambda y: self.cache_ok(c, self.cache(c, False))),
            ("best never gets worse", lambda y: xle(self.best(c, False)[0], bf0)),
        ]
        if not c.limited:
            out += [
                ("pairs tried so far are covered", seen),
                ("best is not below what is possible", lambda y: z3.Or(self.best(c, False)[0] == bf0, xle(xi(c["flops"] + c.OPT(c["inputs"], c["remaining"])), self.best(c, False)[0]))),
            ]
        return out


class Optimal(Contract):
    qual = M + "optimal"
    props = ("C04", "C05", "C06")
    params = [
        dict(inputs=P(TERMS), output=P(IDX), size_dict=P(SIZES, "dict"), memory_limit=Const(None)),
        dict(inputs=P(TERMS), output=P(IDX), size_dict=P(SIZES, "dict"), memory_limit=Const(-1)),
        dict(inputs=P(TERMS), output=P(IDX), size_dict=P(SIZES, "dict"), memory_limit=INT),
    ]
    ret = PATH

    def requires(self, c):
        r = [("at least one term", TERMS.len(c["inputs"]) >= 1), ("sizes known", all_known(c.I, c["inputs"], c["size_dict"])), ("sizes not negative", nonneg(c["size_dict"]))]
        lim = c.old["memory_limit"]
        if isinstance(lim, V):
            r.append(("a limit is given", lim.z != -1))
        return r

    def ensures(self, c):
        n = TERMS.len(c["inputs"])
        r = c.res(PATH)
        out = [
            ("for all inputs", ssa.ninputs(c.I, r) == n),
            ("every step names positions that exist", ssa.linok(c.I, r, n)),
        ]
        DONE = z3.Function("DONE", PATH.sort(), z3.IntSort(), z3.BoolSort())
        OPT = z3.Function("OPT", TERMS.sort(), ISET.sort(), z3.IntSort())
        s, f, q, x = z3.Const("es", PATH.sort()), z3.Int("ef"), z3.Int("eq"), z3.Int("ex")
        same = z3.And(PATH.len(r) == PATH.len(s), z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < PATH.len(s)), ssa.linstep(c.I, PATH.at(r, q), PATH.arr(s), n, q)), patterns=[PATH.at(r, q)]))
        if isinstance(c.old["memory_limit"], V):
            st = PATH.at(r, z3.IntVal(0))
            one = z3.And(PATH.len(r) == 1, STEP.len(st) == n)
            out.append(("a path of steps within the limit, or contracting all that remains", z3.Or(one, z3.Exists([s, f], z3.And(DONE(s, f), same), patterns=[DONE(s, f)]))))
        else:
            out.append(("a path of least cost", z3.Exists([s, f], z3.And(DONE(s, f), f == OPT(c["inputs"], c.I.th.rangeset(n)), same), patterns=[DONE(s, f)])))
        return out


ALL = [OptimalIterate(), Optimal()]
