"""Planning: opt_einsum/helpers.py:find_contraction and opt_einsum/contract.py:contract_path."""
import z3

from ..spec import *
from ..ty import *

INTS = ListT(INT)
CH = SetT(CHAR)
SETS = ListT(CH)
H = "opt_einsum.helpers:"
M = "opt_einsum.contract:"


def skd(I, A, k, j):
    """where element j of a list came from, after its positions A[0], ..., A[k-1] were taken out in turn"""
    f, new = I.th.fn("SKD", z3.ArraySort(z3.IntSort(), z3.IntSort()), z3.IntSort(), z3.IntSort(), z3.IntSort())
    if new:
        B = z3.Const("B", z3.ArraySort(z3.IntSort(), z3.IntSort()))
        q, i = z3.Ints("q i")
        I.th.ax("skd-start", z3.ForAll([B, i], f(B, 0, i) == i, patterns=[f(B, 0, i)]))
        I.th.ax("skd-step", z3.ForAll([B, q, i], z3.Implies(q >= 0, f(B, q + 1, i) == f(B, q, z3.If(i < B[q], i, i + 1))), patterns=[f(B, q + 1, i)]))
    return f(A, k, j)


def skip(I, s, j):
    """the j-th natural number outside the finite set s; RANK is its inverse"""
    f, new = I.th.fn("SKIP", SetT(INT).sort(), z3.IntSort(), z3.IntSort())
    g, _ = I.th.fn("RANK", SetT(INT).sort(), z3.IntSort(), z3.IntSort())
    if new:
        S = z3.Const("S", SetT(INT).sort())
        i = z3.Int("i")
        I.th.ax("skip-out", z3.ForAll([S, i], z3.Implies(i >= 0, z3.And(z3.Not(S[f(S, i)]), f(S, i) >= i, g(S, f(S, i)) == i)), patterns=[f(S, i)]))
        I.th.ax("skip-rank", z3.ForAll([S, i], z3.Implies(z3.And(i >= 0, z3.Not(S[i])), z3.And(g(S, i) >= 0, g(S, i) <= i, f(S, g(S, i)) == i)), patterns=[g(S, i)]))
    return f(s, j)


def rank(I, s, r):
    skip(I, s, z3.IntVal(0))
    return I.th.fn("RANK", SetT(INT).sort(), z3.IntSort(), z3.IntSort())[0](s, r)


def skip_facts(I, s, m, n):
    """s has m members, all below n: the first n - m numbers outside s are exactly those below n"""
    i = z3.Int("si")
    a, b = skip(I, s, i), rank(I, s, i)
    return [
        z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n - m), a < n), patterns=[a]),
        z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, z3.Not(s[i])), z3.And(b >= 0, b < n - m)), patterns=[b]),
    ]


def falling(A, n):
    p, q = z3.Ints("fp fq")
    return z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < q, q < n), A[p] > A[q]), patterns=[z3.MultiPattern(A[p], A[q])])


def falling_lemma(I, z, s):
    """lemma: taking the members of s out in falling order leaves the numbers outside s, in order"""
    A, n = INTS.arr(z), INTS.len(z)
    j, x = z3.Ints("lj lx")
    e = lib.listset(I, INTS, z)
    same = z3.ForAll([x], e[x] == s[x], patterns=[e[x], s[x]])
    return z3.Implies(z3.And(falling(A, n), same), z3.ForAll([j], z3.Implies(j >= 0, skd(I, A, n, j) == skip(I, s, j)), patterns=[skd(I, A, n, j), skip(I, s, j)]))


def others(I, ps, n):
    """the positions below n outside ps"""
    f, new = I.th.fn("OTHERS", SetT(INT).sort(), z3.IntSort(), SetT(INT).sort())
    if new:
        S = z3.Const("S", SetT(INT).sort())
        m, x = z3.Ints("m x")
        I.th.ax("others", z3.ForAll([S, m, x], f(S, m)[x] == z3.And(0 <= x, x < m, z3.Not(S[x])), patterns=[f(S, m)[x]]))
        I.th.ax("others-rank", z3.ForAll([S, m, x], z3.Implies(f(S, m)[x], skip(I, S, rank(I, S, x)) == x), patterns=[f(S, m)[x]]))
    return f(ps, n)


def step_sets(I, A, ps, n, out):
    """indices a step takes, keeps and sums: of the terms A[ps], of n terms, with the output indices out"""
    srt = (SETS.sort().accessor(0, 1).range(), SetT(INT).sort(), z3.IntSort(), CH.sort(), CH.sort())
    f, new = I.th.fn("KEPT", *srt)
    g, _ = I.th.fn("SUMMED", *srt)
    if new:
        B, S, m, o, x = z3.Const("B", srt[0]), z3.Const("S", srt[1]), z3.Int("m"), z3.Const("o", CH.sort()), z3.Int("x")
        big = I.th.big(CHAR, B, S)
        left = I.th.big(CHAR, B, others(I, S, m))
        I.th.ax("kept", z3.ForAll([B, S, m, o, x], f(B, S, m, o)[x] == z3.And(big[x], z3.Or(o[x], left[x])), patterns=[f(B, S, m, o)[x]]))
        I.th.ax("summed", z3.ForAll([B, S, m, o, x], g(B, S, m, o)[x] == z3.And(big[x], z3.Not(o[x]), z3.Not(left[x])), patterns=[g(B, S, m, o)[x]]))
    return I.th.big(CHAR, A, ps), f(A, ps, n, out), g(A, ps, n, out)


class FindContraction(Contract):
    """What is contracted, kept and summed away, and what remains."""

    qual = H + "find_contraction"
    props = ("C02", "C07")
    params = [dict(positions=P(INTS), input_sets=P(SETS, "list"), output_set=P(CH))]
    ret = P(TupT(CH, SETS, CH, CH))

    def lay(self, c):
        I = c.I
        p, s = c["positions"], c["input_sets"]
        return I, p, s, lib.listset(I, INTS, p), INTS.len(p), SETS.len(s)

    def requires(self, c):
        I, p, s, ps, m, n = self.lay(c)
        i, j = z3.Ints("pi pj")
        return [
            ("some positions", m >= 1),
            ("positions are natural numbers", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), INTS.at(p, i) >= 0), patterns=[INTS.at(p, i)])),
            ("no position twice", z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < m), INTS.at(p, i) != INTS.at(p, j)), patterns=[z3.MultiPattern(INTS.at(p, i), INTS.at(p, j))])),
        ]

    def bad(self, c):
        I, p, s, ps, m, n = self.lay(c)
        i = z3.Int("bi")
        return z3.Exists([i], z3.And(0 <= i, i < m, INTS.at(p, i) >= n))

    def raises(self, c):
        return {"IndexError": self.bad(c)}

    def ensures(self, c):
        I, p, s, ps, m, n = self.lay(c)
        T = self.ret.t
        r = c.res(T)
        new, rem, gone, used = (T.get(r, i) for i in range(4))
        x, j = z3.Ints("ex ej")
        u, kept, summed = step_sets(I, SETS.arr(s), ps, n, c["output_set"])
        at = SETS.at(rem, j)
        i = z3.Int("bi")
        return [
            ("positions exist", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), INTS.at(p, i) < n), patterns=[INTS.at(p, i)])),
            ("indices of the step", used == u),
            ("kept: in the output or in a remaining term", new == kept),
            ("summed: all others", gone == summed),
            ("number of remaining terms", SETS.len(rem) == n - m + 1),
            ("result comes last", SETS.at(rem, n - m) == new),
            ("other terms stay, in order", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n - m), at == SETS.at(s, skip(I, ps, j))), patterns=[at])),
        ]

    def setup(self, c):
        self.cv = c

    def loops(self, x):
        c = self.cv
        I, p, s, ps, m, n = self.lay(c)
        it = x.it
        out = []
        src = getattr(it, "src", None) if it is not None else None
        if it is None or it.kind != "idx" or src is None or src.t != INTS:
            return out
        A = INTS.arr(src.z)
        j = z3.Int("ij")
        I.assume(falling_lemma(I, src.z, ps))
        for g in skip_facts(I, ps, m, n):
            # members are distinct and below n once every position was found to exist
            I.assume(z3.Implies(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), INTS.at(p, j) < n)), g))
        out.append(("positions so far exist", lambda y: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < y.k), A[j] < n - j), patterns=[A[j]])))
        out.append(("the last position exists", lambda y: z3.Or(y.k == 0, A[y.k - 1] < n - y.k + 1)))
        for nm in x.modcells():
            z = lambda y, nm=nm: y.z(nm, SETS)
            out.append((f"{nm} shrinks", lambda y, z=z: SETS.len(z(y)) == n - y.k))
            out.append((f"{nm} keeps the terms not taken", lambda y, z=z: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n - y.k), SETS.at(z(y), j) == SETS.at(s, skd(I, A, y.k, j))), patterns=[SETS.at(z(y), j), skd(I, A, y.k, j)])))
            out.append((f"{nm} is untouched below the last position", lambda y, z=z: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n - y.k, z3.Or(y.k == 0, j < A[y.k - 1])), SETS.at(z(y), j) == SETS.at(s, j)), patterns=[SETS.at(z(y), j)])))
            out.append((f"{nm} collects", lambda y, z=z: SETS.len(z(y)) == y.k))
            out.append((f"{nm} collects the terms taken", lambda y, z=z: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < y.k), SETS.at(z(y), j) == SETS.at(s, A[j])), patterns=[SETS.at(z(y), j), A[j]])))
        return out


class ChooseMemory(Contract):
    """The meaning of a memory limit."""

    qual = M + "_choose_memory_arg"
    props = ("C05", "C10")
    params = [
        dict(memory_limit=Const("max_input"), size_list=P(INTS, "list")),
        dict(memory_limit=Const(None), size_list=P(INTS, "list")),
        dict(memory_limit=INT, size_list=P(INTS, "list")),
        dict(memory_limit=STR, size_list=P(INTS, "list")),
    ]

    def ret(self, c):
        if c.old["memory_limit"] is not None:
            raise Unsupported("result of _choose_memory_arg")
        return None

    def word(self, z):
        w = "max_input"
        return z3.And(STR.len(z) == len(w), *[STR.at(z, z3.IntVal(i)) == ord(ch) for i, ch in enumerate(w)])

    def requires(self, c):
        return [("there are sizes", INTS.len(c["size_list"]) >= 1)]

    def raises(self, c):
        m = c.old["memory_limit"]
        if isinstance(m, V) and m.t == INT:
            return {"ValueError": z3.And(m.z < 1, m.z != -1)}
        if isinstance(m, V):
            return {"ValueError": z3.Not(self.word(m.z))}
        return {}

    def ensures(self, c):
        m, r = c.old["memory_limit"], c.result
        if m is None:
            return [("unset: no limit", z3.BoolVal(r is None))]
        if isinstance(m, V) and m.t == INT:
            if r is None:
                return [("no limit only for -1", m.z == -1)]
            return [("the limit itself", z3.And(c.I.lift(r, INT) == m.z, m.z >= 1))]
        if r is None:
            return [("the largest operand", z3.BoolVal(False))]
        s = c["size_list"]
        z = c.I.lift(r, INT)
        j = z3.Int("mj")
        at = INTS.at(s, j)
        rg = z3.And(0 <= j, j < INTS.len(s))
        out = [
            ("no size is larger than the largest", z3.ForAll([j], z3.Implies(rg, at <= z), patterns=[at])),
            ("the largest is one of the sizes", lib.listset(c.I, INTS, s)[z]),
        ]
        if isinstance(m, V):
            out.append(("only for this word", self.word(m.z)))
        return out

    def make_result(self, I, c):
        m = c.old["memory_limit"]
        if m is None:
            return None
        if isinstance(m, V) and m.t == INT and I.decide(m.z == -1):
            return None
        return I.freshv("limit", INT)


ALL = [FindContraction(), ChooseMemory()]
