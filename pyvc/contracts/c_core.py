"""Execution of a plan (opt_einsum/contract.py:_core_contract).

STATE(k): the operands after the first k steps: each step takes out the operands at its positions, in the
order the step names them, and appends the Einstein sum of the step's string on them.  The kernels are
assumed to compute what their documentation says:
  einsum     EINF(string, operands): the Einstein sum; written into and returned as `out` if given
  tensordot  over axes that pair off the shared indices of two terms without repeated indices: the tensor
             with the remaining indices of the first term, then of the second
  transpose  reorders the indices
A step labelled for BLAS has what can_blas's contract promises."""
import os

import z3

from ..spec import *
from ..ty import *
from .c_blas import occ

M = "opt_einsum.contract:"
TENSOR = OpaqueT("Tensor")
NAME = OpaqueT("Name")
ESTR = OpaqueT("StepString")
FLAG = OpaqueT("BlasFlag")
REST = OpaqueT("Remaining")
LHS = OpaqueT("StepInputs")
TL = ListT(TENSOR)
INTS = ListT(INT)
CH = SetT(CHAR)
STEPT = TupT(INTS, CH, ESTR, REST, FLAG)
PLAN = ListT(STEPT)


def core(I):
    return isinstance(getattr(I, "cur_spec", None), CoreContract)


def ov(name):
    def get(I):
        if not core(I):
            return None
        return Builtin(name, lambda I, a, k: getattr(I.cur_spec, "k_" + name)(I, a, k))

    return get


def pops(I, l, inds, j):
    """the list l after taking out its positions inds[0], ..., inds[j-1], one after the other"""
    f, new = I.th.fn("POPS", TL.sort(), INTS.sort(), z3.IntSort(), TL.sort())
    if new:
        L, n, q = z3.Const("L", TL.sort()), z3.Const("n", INTS.sort()), z3.Int("q")
        I.th.ax("pops-start", z3.ForAll([L, n], f(L, n, 0) == L, patterns=[f(L, n, 0)]))
        I.th.ax("pops-step", z3.ForAll([L, n, q], z3.Implies(q >= 0, f(L, n, q + 1) == lib.removed_at(I, TL, f(L, n, q), INTS.at(n, q))), patterns=[f(L, n, q + 1)]))
        I.th.ax("pops-two", z3.ForAll([L, n], f(L, n, 1) == lib.removed_at(I, TL, L, INTS.at(n, 0)), patterns=[f(L, n, 1)]))
        I.th.ax("pops-len", z3.ForAll([L, n, q], z3.Implies(q >= 0, TL.len(f(L, n, q)) == TL.len(L) - q), patterns=[f(L, n, q)]))
    return f(l, inds, j)


def taken(I, l, inds, j):
    """the operand a step takes out j-th"""
    return TL.at(pops(I, l, inds, j), INTS.at(inds, j))


def labels(I, s):
    f = lambda nm: I.th.fn(nm, ESTR.sort(), STR.sort())[0](s)
    return f("LEFT"), f("RIGHT"), f("OUT")


def wellformed(I, s):
    two, _ = I.th.fn("TWOTERMS", ESTR.sort(), z3.BoolSort())
    return two(s)


def e2(I, L, R, o, x, y, b):
    """the Einstein sum of two operands with the given labels"""
    f, new = I.th.fn("E2", STR.sort(), STR.sort(), STR.sort(), TENSOR.sort(), TENSOR.sort(), NAME.sort(), TENSOR.sort())
    if new:
        l, r, p, q = z3.Consts("l r p q", STR.sort())
        u, v = z3.Consts("u v", TENSOR.sort())
        c = z3.Const("c", NAME.sort())
        k = z3.Int("k")
        same = z3.And(STR.len(p) == STR.len(q), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < STR.len(p)), STR.at(p, k) == STR.at(q, k))))
        I.th.ax("e2-labels", z3.ForAll([l, r, p, q, u, v, c], z3.Implies(same, f(l, r, p, u, v, c) == f(l, r, q, u, v, c)), patterns=[z3.MultiPattern(f(l, r, p, u, v, c), f(l, r, q, u, v, c))]))
    return f(L, R, o, x, y, b)


def einf(I, s, z, b):
    return I.th.fn("EINF", ESTR.sort(), TL.sort(), NAME.sort(), TENSOR.sort())[0](s, z, b)


def res(I, s, l, inds, b):
    """result of a step with string s on the operands l at positions inds"""
    f, new = I.th.fn("STEPRESULT", ESTR.sort(), TL.sort(), INTS.sort(), NAME.sort(), TENSOR.sort())
    if new:
        S, L, n, B = z3.Const("S", ESTR.sort()), z3.Const("L", TL.sort()), z3.Const("n", INTS.sort()), z3.Const("B", NAME.sort())
        z = z3.Const("z", TL.sort())
        j = z3.Int("j")
        e = einf(I, S, z, B)
        same = z3.And(TL.len(z) == INTS.len(n), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < INTS.len(n)), TL.at(z, j) == taken(I, L, n, j))))
        I.th.ax("stepresult", z3.ForAll([S, L, n, B, z], z3.Implies(same, e == f(S, L, n, B)), patterns=[z3.MultiPattern(e, f(S, L, n, B))]))
        sl, sr, so = labels(I, S)
        I.th.ax("stepresult-two", z3.ForAll([S, L, n, B], z3.Implies(z3.And(wellformed(I, S), INTS.len(n) == 2), f(S, L, n, B) == e2(I, sl, sr, so, taken(I, L, n, z3.IntVal(0)), taken(I, L, n, z3.IntVal(1)), B)), patterns=[f(S, L, n, B)]))
    return f(s, l, inds, b)


def state(I, A, ops, b, k):
    f, new = I.th.fn("STATE", z3.ArraySort(z3.IntSort(), STEPT.sort()), TL.sort(), NAME.sort(), z3.IntSort(), TL.sort())
    if new:
        P = z3.Const("P", z3.ArraySort(z3.IntSort(), STEPT.sort()))
        L, B, q = z3.Const("L", TL.sort()), z3.Const("B", NAME.sort()), z3.Int("q")
        I.th.ax("state-start", z3.ForAll([P, L, B], f(P, L, B, 0) == L, patterns=[f(P, L, B, 0)]))
        s = f(P, L, B, q)
        inds, es = STEPT.get(P[q], 0), STEPT.get(P[q], 2)
        p = pops(I, s, inds, INTS.len(inds))
        n = TL.len(p)
        I.th.ax("state-step", z3.ForAll([P, L, B, q], z3.Implies(q >= 0, f(P, L, B, q + 1) == TL.mk(n + 1, z3.Store(TL.arr(p), n, res(I, es, s, inds, B)))), patterns=[f(P, L, B, q + 1)]))
    return f(A, ops, b, k)


def cuts(I, goals):
    """intermediate facts, each proved before it is used"""
    for g in goals:
        if I.provable(g):
            I.assume(g)
        elif os.environ.get("PYVC_PROBE"):
            print("CUT FAILS", str(g)[:200])


class CoreContract(Contract):
    qual = M + "_core_contract"
    props = ("C01", "C20", "C14")
    weight = 20
    params = [
        dict(operands_=P(TL, "list"), contraction_list=P(PLAN, "list"), backend=P(NAME), evaluate_constants=P(BOOL), out=Const(None)),
    ]
    modifies = ("out",)

    # ---- the environment of the function
    def be(self, I):
        """the library chosen for the operands"""
        return I.th.fn("CHOSEN", NAME.sort())[0]()

    def k_parse_backend(self, I, a, k):
        return V(NAME, self.be(I))

    def k_has_einsum(self, I, a, k):
        return V(BOOL, I.th.fn("HASEINSUM", NAME.sort(), z3.BoolSort())[0](I.lift(a[0], NAME)))

    def none(self, I):
        return I.th.fn("MISSING", TENSOR.sort())[0]()

    def opaque_is_none(self, I, v):
        return v.z == self.none(I) if v.t == TENSOR else False

    def opaque_contains(self, I, x, s):
        if s.t != FLAG or not isinstance(x, str):
            raise Unsupported("in an opaque value")
        return I.th.fn("FLAGHAS_" + x, FLAG.sort(), z3.BoolSort())[0](s.z)

    def opaque_attr(self, I, base, attr):
        if base.t in (ESTR, LHS) and attr == "split":
            return Builtin("split", lambda I, a, k: self.split(I, base, a))
        raise Unsupported(f"attribute {attr}")

    def split(self, I, base, a):
        if base.t == ESTR and a == ["->"]:
            return (V(LHS, I.th.fn("LHS", ESTR.sort(), LHS.sort())[0](base.z)), V(STR, labels(I, base.z)[2]))
        if base.t == LHS and a == [","]:
            if not (base.z.num_args() == 1 and base.z.decl().name() == "LHS"):
                raise Unsupported("split")
            s = base.z.arg(0)
            I.obligation(wellformed(I, s), "a step with two terms is taken apart into two")
            L, R, o = labels(I, s)
            I.ghost.setdefault("splits", []).append((L, R))
            I.ghost.setdefault("outs", []).append(o)
            return (V(STR, L), V(STR, R))
        raise Unsupported("split of a step string")

    def ops(self, I, a, n=None):
        out = []
        for x in a:
            if isinstance(x, lib.Star):
                out.append(lib.to_list(I, x.v))
            else:
                out.append(x)
        return out

    def k__einsum(self, I, a, k):
        k = dict(k)
        a = self.ops(I, a)
        if len(a) != 2 or not (isinstance(a[0], V) and a[0].t == ESTR):
            raise Unsupported("_einsum arguments")
        z = I.lift(a[1], TL)
        out = k.pop("out", None)
        b = I.lift(k.pop("backend", "numpy"), NAME)
        if k:
            raise Unsupported("_einsum options")
        v = V(TENSOR, einf(I, a[0].z, z, b))
        if out is not None:
            if not isinstance(out, Ref):
                raise Unsupported("out")
            I.write(out).val = v
        return v

    def pair(self, I, a):
        a = self.ops(I, a)
        if len(a) == 1:
            z = I.lift(a[0], TL)
            I.obligation(TL.len(z) == 2, "tensordot gets two operands")
            return TL.at(z, z3.IntVal(0)), TL.at(z, z3.IntVal(1))
        return I.lift(a[0], TENSOR), I.lift(a[1], TENSOR)

    def k__tensordot(self, I, a, k):
        k = dict(k)
        if "axes" not in k:
            raise Unsupported("_tensordot arguments")
        x, y = self.pair(I, a)
        ax = k.pop("axes")
        b = I.lift(k.pop("backend", "numpy"), NAME)
        if k:
            raise Unsupported("_tensordot options")
        ax = lib.to_list(I, ax)
        if isinstance(ax, V):
            raise Unsupported("axes")
        if len(ax) != 2:
            I.obligation(z3.BoolVal(False), "axes are a pair")
            raise PathEnd()
        A, B = (I.lift(lib.content_of_value(I, q), INTS) for q in ax)
        t = I.fresh("dot", TENSOR)
        self.result_cuts(I, t, x, y, False)
        for L, R in I.ghost.get("splits", [])[-1:]:
            i, j, c = z3.Ints("ti tj tc")
            common = self.common(I, L, R)
            cond = z3.And(
                INTS.len(A) == INTS.len(B),
                INTS.len(A) == I.th.card(CHAR, common),
                z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < INTS.len(A)), z3.And(0 <= INTS.at(A, i), INTS.at(A, i) < STR.len(L), 0 <= INTS.at(B, i), INTS.at(B, i) < STR.len(R), STR.at(L, INTS.at(A, i)) == STR.at(R, INTS.at(B, i))))),
                z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < INTS.len(A)), INTS.at(A, i) != INTS.at(A, j))),
            )
            I.obligation(cond, "axes pair off the shared indices")
            rec = [t, L, R, None, x, y, b]
            self.label(I, rec)
            I.ghost.setdefault("dots", []).append(rec)
        return V(TENSOR, t)

    def label(self, I, rec):
        """the labels of a tensordot result: the kept indices in order of appearance.
        Lemma: there is one such sequence, so a sequence of the program shown to be it names the labels."""
        t, L, R, o, x, y, b = rec
        if o is not None:
            return
        for flt in list(reversed(I.ghost.get("filters", []))) + list(reversed(I.ghost.get("cats", []))):
            if flt[0].sort() != STR.sort():
                continue
            o = flt[0]
            kept = self.kept(I, o, L, R)
            if not I.provable_parts(kept):
                continue
            rec[3] = o
            mark = len(I.pc)
            keep = [t == e2(I, L, R, o, x, y, b)]
            for w in I.ghost.get("outs", [])[-1:]:
                q, x1 = z3.Int("uq"), z3.Int("ux")
                e = STR.at(w, q)
                rng = lambda body: z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < STR.len(w)), body), patterns=[e])
                I.assume(kept)
                f = self.first(I)(o, e)
                last = rng(z3.And(0 <= f, f < STR.len(o), STR.at(o, f) == e))
                cuts(I, [
                    rng(occ(I, w, e) >= 1),
                    rng((occ(I, L, e) >= 1) != (occ(I, R, e) >= 1)),
                    rng(occ(I, o, e) >= 1),
                ])
                if I.provable(last):
                    # every index of the result is kept, at a definite place
                    I.cnt += 1
                    pf = z3.Function(f"place!{I.cnt}", z3.IntSort(), z3.IntSort())
                    keep.append(rng(z3.And(0 <= pf(q), pf(q) < STR.len(o), STR.at(o, pf(q)) == e)))
                elif os.environ.get("PYVC_PROBE"):
                    print("CUT FAILS place")
                del I.pc[mark:]
                # lemma: two sequences of distinct indices with the same members have the same length
                n = occ(I, w, x1)
                same = z3.ForAll([x1], z3.And(n <= 1, (n >= 1) == ((occ(I, L, x1) >= 1) != (occ(I, R, x1) >= 1))), patterns=[n])
                if I.provable(same):
                    keep.append(STR.len(o) == STR.len(w))
                elif os.environ.get("PYVC_PROBE"):
                    print("CUT FAILS same")
            del I.pc[mark:]
            for g in keep:
                I.assume(g)
            return
        if os.environ.get("PYVC_PROBE"):
            print("NO LABELS")

    def k__transpose(self, I, a, k):
        k = dict(k)
        args = list(a)
        x = I.lift(args.pop(0), TENSOR)
        ax = args.pop(0) if args else k.pop("axes")
        b = I.lift(k.pop("backend", "numpy"), NAME)
        if k or args:
            raise Unsupported("_transpose options")
        p = I.lift(lib.to_list(I, ax), INTS)
        t = I.fresh("turned", TENSOR)
        i = z3.Int("ti")
        for rec in I.ghost.get("dots", []):
            self.label(I, rec)
            d, L, R, o, u, v, c = rec
            if o is None:
                continue
            o2 = I.fresh("labels", STR)
            ok = z3.And(x == d, b == c, INTS.len(p) == STR.len(o), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < INTS.len(p)), z3.And(0 <= INTS.at(p, i), INTS.at(p, i) < STR.len(o)))))
            if not I.provable_parts(ok):
                if os.environ.get("PYVC_PROBE"):
                    print("CUT FAILS ok")
                continue
            mark = len(I.pc)
            I.assume(STR.len(o2) == STR.len(o))
            I.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < STR.len(o)), STR.at(o2, i) == STR.at(o, INTS.at(p, i))), patterns=[STR.at(o2, i)]))
            done = False
            for w in I.ghost.get("outs", [])[-1:]:
                done = I.provable(STR.len(o2) == STR.len(w)) and I.provable(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < STR.len(o2)), STR.at(o2, i) == STR.at(w, i)), patterns=[STR.at(o2, i), STR.at(w, i)]))
                if done:
                    del I.pc[mark:]
                    I.assume(t == e2(I, L, R, w, u, v, c))
                    self.result_cuts(I, t, u, v, True)
            if not done:
                if os.environ.get("PYVC_PROBE"):
                    print("CUT FAILS done")
                I.assume(t == e2(I, L, R, o2, u, v, c))
        return V(TENSOR, t)

    def common(self, I, L, R):
        f, new = I.th.fn("COMMON", STR.sort(), STR.sort(), CH.sort())
        if new:
            l, r = z3.Consts("l r", STR.sort())
            x = z3.Int("x")
            I.th.ax("common", z3.ForAll([l, r, x], z3.Select(f(l, r), x) == z3.And(occ(I, l, x) >= 1, occ(I, r, x) >= 1), patterns=[z3.Select(f(l, r), x)]))
        return f(L, R)

    def first(self, I):
        """a position of an index in a term that has it"""
        f, new = I.th.fn("FIRST", STR.sort(), z3.IntSort(), z3.IntSort())
        if new:
            s, x = z3.Const("s", STR.sort()), z3.Int("x")
            I.th.ax("first", z3.ForAll([s, x], z3.Implies(occ(I, s, x) >= 1, z3.And(0 <= f(s, x), f(s, x) < STR.len(s), STR.at(s, f(s, x)) == x)), patterns=[f(s, x)]))
        return f

    def kept(self, I, o, L, R):
        """o lists the indices of L that R lacks, then those of R that L lacks, in order"""
        j, i, x = z3.Ints("kj ki kx")
        oj, oi = STR.at(o, j), STR.at(o, i)
        inl, inr = (lambda c: occ(I, L, c) >= 1), (lambda c: occ(I, R, c) >= 1)
        first = self.first(I)
        pos = lambda c: z3.If(inl(c), first(L, c), STR.len(L) + first(R, c))
        return z3.And(
            z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < STR.len(o)), inl(oj) != inr(oj)), patterns=[oj]),
            z3.ForAll([x], z3.Implies(inl(x) != inr(x), occ(I, o, x) >= 1), patterns=[occ(I, o, x)]),
            z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < STR.len(o)), pos(oi) < pos(oj)), patterns=[z3.MultiPattern(oi, oj)]),
        )

    # ---- the contract
    def st(self, c, k):
        return state(c.I, PLAN.arr(c["contraction_list"]), c["operands_"], self.be(c.I), k)

    def unfold(self, c, k):
        """the step from k to k + 1 (an instance of STATE's definition)"""
        I = c.I
        A = PLAN.arr(c["contraction_list"])
        s, inds, es = self.st(c, k), STEPT.get(A[k], 0), STEPT.get(A[k], 2)
        p = pops(I, s, inds, INTS.len(inds))
        return [self.st(c, k + 1) == TL.mk(TL.len(p) + 1, z3.Store(TL.arr(p), TL.len(p), res(I, es, s, inds, self.be(I))))]

    def result_cuts(self, I, t, x, y, final):
        """the operands of a pairwise step, and its result"""
        k = I.ghost.get("step")
        if k is None:
            return
        c = self.cv
        A = PLAN.arr(c["contraction_list"])
        s, inds, es = self.st(c, k), STEPT.get(A[k], 0), STEPT.get(A[k], 2)
        cuts(I, [x == taken(I, s, inds, z3.IntVal(0)), y == taken(I, s, inds, z3.IntVal(1))])
        if final:
            cuts(I, [t == res(I, es, s, inds, self.be(I))])

    def n(self, c):
        return PLAN.len(c["contraction_list"])

    def requires(self, c):
        I = c.I
        A = PLAN.arr(c["contraction_list"])
        q, j, x, y = z3.Ints("rq rj rx ry")
        inds = STEPT.get(A[q], 0)
        s = self.st(c, q)
        rg = z3.And(0 <= q, q < self.n(c))
        at = INTS.at(inds, j)
        rm, es, flag = STEPT.get(A[q], 1), STEPT.get(A[q], 2), STEPT.get(A[q], 4)
        L, R, o = labels(I, es)
        truthy, _ = I.th.fn("truthy_" + FLAG.key, FLAG.sort(), z3.BoolSort())
        nl, nr, ne = occ(I, L, x), occ(I, R, x), occ(I, o, x)
        blas = z3.And(
            wellformed(I, es), INTS.len(inds) == 2,
            z3.ForAll([x], z3.And(nl <= 1, nr <= 1, ne <= 1, rm[x] == z3.And(nl >= 1, nr >= 1), (ne >= 1) == ((nl >= 1) != (nr >= 1))), patterns=[nl, nr, ne, rm[x]]),
            STR.len(L) >= 0, STR.len(R) >= 0, STR.len(o) >= 0,
        )
        return [
            ("positions exist", z3.ForAll([q, j], z3.Implies(z3.And(rg, 0 <= j, j < INTS.len(inds)), z3.And(0 <= at, at < TL.len(s) - j)), patterns=[z3.MultiPattern(s, at)])),
            ("step positions", z3.ForAll([q], INTS.len(inds) >= 0, patterns=[A[q]])),
            ("plan is complete", z3.And(self.n(c) >= 1, TL.len(self.st(c, self.n(c))) == 1)),
            ("a step labelled for BLAS is fit for it", z3.ForAll([q], z3.Implies(z3.And(rg, truthy(flag)), blas), patterns=[A[q]])),
        ]

    def setup(self, c):
        self.cv = c

    def ensures(self, c):
        I, r = c.I, c.result
        n = self.n(c)
        if isinstance(r, tuple) and len(r) == 2:
            ops, rest = I.lift(r[0], TL), I.lift(r[1], PLAN)
            j = n - PLAN.len(rest)
            q = z3.Int("eq")
            i = z3.Int("ei")
            A = PLAN.arr(c["contraction_list"])
            inds = STEPT.get(A[j], 0)
            return [
                ("only constants are evaluated early", c["evaluate_constants"]),
                ("stops between two steps", z3.And(0 <= j, j < n)),
                ("hands over the operands of that point", ops == self.st(c, j)),
                ("hands over the steps that are left", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < PLAN.len(rest)), PLAN.at(rest, q) == A[j + q]))),
            ]
        out = c.vals["out"]
        fin = TL.at(self.st(c, n), 0)
        if out is None:
            return [("the value is that of the plan", I.lift(r, TENSOR) == fin)]
        return [
            ("the output array itself is returned", z3.BoolVal(isinstance(r, Ref) and r.loc == out.loc)),
            ("the output array holds the value of the plan", I.cell(out).val.z == fin),
        ]

    # ---- invariants
    def loops(self, x):
        c, I = self.cv, self.cv.I
        out = []
        it = x.it
        if it is None:
            return out
        A = PLAN.arr(c["contraction_list"])
        n = self.n(c)
        if it.kind == "set":
            for L, R in I.ghost.get("splits", [])[-1:]:
                cells = x.modcells()
                j, i = z3.Ints("vj vi")
                for nm in cells:
                    out.append((f"{nm} one entry per index", lambda y, nm=nm: INTS.len(y.z(nm, INTS)) == y.k))

                    def distinct(y, nm=nm):
                        z = y.z(nm, INTS)
                        return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < INTS.len(z)), INTS.at(z, i) != INTS.at(z, j)), patterns=[z3.MultiPattern(INTS.at(z, i), INTS.at(z, j))])

                    for w, X in (("first", L), ("second", R)):
                        def inr(y, nm=nm, X=X):
                            z = y.z(nm, INTS)
                            e = INTS.at(z, j)
                            return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < INTS.len(z)), z3.And(0 <= e, e < STR.len(X), y.visited[STR.at(X, e)])), patterns=[e])

                        out.append((f"{nm} positions in the {w} term", inr))
                    out.append((f"{nm} no position twice", distinct))
                    for n2 in cells:
                        if n2 != nm:
                            def match(y, nm=nm, n2=n2):
                                z, w = y.z(nm, INTS), y.z(n2, INTS)
                                return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < INTS.len(z)), STR.at(L, INTS.at(z, j)) == STR.at(R, INTS.at(w, j))), patterns=[INTS.at(z, j), INTS.at(w, j)])

                            out.append((f"{nm} and {n2} match", match))
            return out
        if it.kind != "idx":
            return out
        src = getattr(it, "src", None)
        if src is not None and src.t == INTS:
            pre = {}
            for nm in x.modcells():
                try:
                    pre[nm] = x.z(nm, TL)
                except Exception:
                    pass
            for nm, z0 in pre.items():
                out.append((f"{nm} loses the visited positions", lambda y, nm=nm, z0=z0: y.z(nm, TL) == pops(I, z0, src.z, y.k)))
                for n2 in x.modcells():
                    if n2 != nm:
                        def tk(y, n2=n2, z0=z0):
                            z = y.z(n2, TL)
                            j = z3.Int("kj")
                            return z3.And(TL.len(z) == y.k, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < y.k), TL.at(z, j) == taken(I, z0, src.z, j)), patterns=[TL.at(z, j)]))

                        out.append((f"{n2} holds what {nm} lost", tk))
            return out
        for nm in x.modcells():
            if I.cell(x.raw(nm)).kind == "array":
                for n2 in x.modcells():
                    if I.cell(x.raw(n2)).kind == "list":
                        out.append((f"{nm} holds the last of {n2}", lambda y, nm=nm, n2=n2: z3.Implies(y.k == n, lib.content(I, y.raw(nm)).z == TL.at(y.z(n2, TL), TL.len(y.z(n2, TL)) - 1))))
            else:

                def holds(y, nm=nm):
                    if z3.is_const(y.k):
                        I.ghost["step"] = y.k
                    elif "step" in I.ghost:
                        y.hints += self.unfold(c, I.ghost["step"])
                    return y.z(nm, TL) == self.st(c, y.k)

                out.append((f"{nm} holds the operands", holds))
        return out


OVERRIDES = {
    ("opt_einsum.contract", "parse_backend"): ov("parse_backend"),
    ("opt_einsum.backends.dispatch", "has_einsum"): ov("has_einsum"),
    ("opt_einsum.backends", "has_einsum"): ov("has_einsum"),
    ("opt_einsum.contract", "_einsum"): ov("_einsum"),
    ("opt_einsum.contract", "_tensordot"): ov("_tensordot"),
    ("opt_einsum.contract", "_transpose"): ov("_transpose"),
}


class CoreContractOut(CoreContract):
    """the same with an output array (the pre-pass over constants has none)"""

    qual = M + "_core_contract#out"
    params = [
        dict(operands_=P(TL, "list"), contraction_list=P(PLAN, "list"), backend=P(NAME), evaluate_constants=Const(False), out=Build(lambda I: I.alloc("array", I.freshv("outval", TENSOR)))),
    ]


ALL = [CoreContract(), CoreContractOut()]
