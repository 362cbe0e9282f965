"""Spec functions for single-assignment contraction paths.

LIVE(A, n, k): the set of ids that exist after the first k steps of path A on n inputs.
REACH / DONE: inductive predicates tying a path to its cost (see c_optimal)."""
import z3

from .. import lib
from ..ty import *

STEP = ListT(INT)
PATH = ListT(STEP)
ISET = SetT(INT)


def elems(I, step):
    """the set of entries of a step"""
    return lib.listset(I, STEP, step)


def live(I, arr, n, k):
    f, new = I.th.fn("LIVE", z3.ArraySort(z3.IntSort(), STEP.sort()), z3.IntSort(), z3.IntSort(), ISET.sort())
    if new:
        A = z3.Const("A", z3.ArraySort(z3.IntSort(), STEP.sort()))
        m, q, x, p = z3.Ints("m q x p")
        s = z3.Const("s", STEP.sort())
        e = elems(I, A[q])
        I.th.ax("live-start", z3.ForAll([A, m, x], z3.Select(f(A, m, 0), x) == z3.And(0 <= x, x < m), patterns=[z3.Select(f(A, m, 0), x)]))
        I.th.ax("live-step", z3.ForAll([A, m, q, x], z3.Implies(q >= 0, z3.Select(f(A, m, q + 1), x) == z3.Or(x == m + q, z3.And(z3.Select(f(A, m, q), x), z3.Not(e[x])))), patterns=[z3.Select(f(A, m, q + 1), x)]))
        e0 = elems(I, A[0])
        I.th.ax("live-one", z3.ForAll([A, m, x], z3.Select(f(A, m, 1), x) == z3.Or(x == m, z3.And(0 <= x, x < m, z3.Not(e0[x]))), patterns=[z3.Select(f(A, m, 1), x)]))
        I.th.ax("live-range", z3.ForAll([A, m, q, x], z3.Implies(z3.And(q >= 0, m >= 0, z3.Select(f(A, m, q), x)), z3.And(0 <= x, x < m + q)), patterns=[z3.Select(f(A, m, q), x)]))
        # extending a path does not change what was live before (by induction on q)
        I.th.ax("live-prefix", z3.ForAll([A, m, q, p, s], z3.Implies(z3.And(0 <= q, q <= p), f(z3.Store(A, p, s), m, q) == f(A, m, q)), patterns=[f(z3.Store(A, p, s), m, q)]))
        sl = I.th.sumlen(PATH, A, q)
        fs, _ = I.th.fn("SUMLEN_" + PATH.key)
        I.th.ax("sumlen-prefix", z3.ForAll([A, q, p, s], z3.Implies(z3.And(0 <= q, q <= p), fs(z3.Store(A, p, s), q) == fs(A, q)), patterns=[fs(z3.Store(A, p, s), q)]))
    return f(arr, n, k)


def distinct(step):
    a, b = z3.Ints("da db")
    A = STEP.arr(step)
    return z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < STEP.len(step)), A[a] != A[b]), patterns=[z3.MultiPattern(A[a], A[b])])


def wf(I, path, n, at=None):
    """every step names distinct live ids, at least one of them"""
    f, new = I.th.fn("WFSTEP", z3.ArraySort(z3.IntSort(), STEP.sort()), z3.IntSort(), z3.IntSort(), z3.BoolSort())
    if new:
        A = z3.Const("A", z3.ArraySort(z3.IntSort(), STEP.sort()))
        m, q, p = z3.Ints("m q p")
        s = z3.Const("s", STEP.sort())
        e = elems(I, A[q])
        body = z3.And(STEP.len(A[q]) >= 1, distinct(A[q]), z3.IsSubset(e, live(I, A, m, q)))
        x = z3.Int("x")
        body2 = z3.And(STEP.len(A[q]) >= 1, distinct(A[q]), z3.ForAll([x], z3.Implies(e[x], live(I, A, m, q)[x]), patterns=[e[x]]))
        ent = STEP.at(A[q], x)
        body3 = z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < STEP.len(A[q])), live(I, A, m, q)[ent]), patterns=[ent])
        I.th.ax("wfstep-def", z3.ForAll([A, m, q], f(A, m, q) == body2, patterns=[f(A, m, q)]))
        I.th.ax("wfstep-at", z3.ForAll([A, m, q], z3.Implies(f(A, m, q), body3), patterns=[f(A, m, q)]))
        I.th.ax("wfstep-prefix", z3.ForAll([A, m, q, p, s], z3.Implies(z3.And(0 <= q, q < p), f(z3.Store(A, p, s), m, q) == f(A, m, q)), patterns=[f(z3.Store(A, p, s), m, q)]))
    if at is not None:
        return f(PATH.arr(path), n, at)
    q = z3.Int("wq")
    t = f(PATH.arr(path), n, q)
    return z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < PATH.len(path)), t), patterns=[t])


def plen(path):
    return PATH.len(path)


def balance(I, path, n):
    """number of ids still live after the whole path"""
    return n + PATH.len(path) - I.th.sumlen(PATH, PATH.arr(path), PATH.len(path))


# ------------------------------------------------------------------ linear positions
def sset(I, S):
    """IDS(S): the elements of a finite set of integers in increasing order; POS: where each one is"""
    f, new = I.th.fn("IDS", ISET.sort(), z3.ArraySort(z3.IntSort(), z3.IntSort()))
    g, _ = I.th.fn("POS", ISET.sort(), z3.IntSort(), z3.IntSort())
    if new:
        X = z3.Const("X", ISET.sort())
        i, j, x = z3.Ints("i j x")
        c = I.th.card(INT, X)
        at = lambda q: z3.Select(f(X), q)
        I.th.ax("ids-in", z3.ForAll([X, i], z3.Implies(z3.And(0 <= i, i < c), z3.And(X[at(i)], g(X, at(i)) == i)), patterns=[at(i)]))
        I.th.ax("ids-up", z3.ForAll([X, i, j], z3.Implies(z3.And(0 <= i, i < j, j < c), at(i) < at(j)), patterns=[z3.MultiPattern(at(i), at(j))]))
        I.th.ax("ids-pos", z3.ForAll([X, x], z3.Implies(X[x], z3.And(0 <= g(X, x), g(X, x) < c, at(g(X, x)) == x)), patterns=[g(X, x)]))
    return f(S), lambda x: g(S, x)


def strict(A, n):
    a, b = z3.Ints("sta stb")
    return z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < n), A[a] < A[b]), patterns=[z3.MultiPattern(A[a], A[b])])


def same_members(I, z, S):
    x = z3.Int("smx")
    e = lib.listset(I, STEP, z)
    return z3.ForAll([x], e[x] == S[x], patterns=[e[x]]), z3.ForAll([x], e[x] == S[x], patterns=[S[x]])


def sorted_unique(I, z, S):
    """lemma: the strictly increasing list with the members of S is IDS(S)"""
    A, n = STEP.arr(z), STEP.len(z)
    ids, pos = sset(I, S)
    x, i = z3.Ints("sux sui")
    e = lib.listset(I, STEP, z)
    return z3.Implies(
        z3.And(strict(A, n), z3.ForAll([x], e[x] == S[x])),
        z3.And(n == I.th.card(INT, S), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(A[i] == ids[i], pos(A[i]) == i)), patterns=[A[i]])),
    )


def linstep(I, b, arr, n, q, full=True):
    """b is step q of the path arr (on n inputs) in linear positions"""
    f, new = I.th.fn("LINSTEP", STEP.sort(), z3.ArraySort(z3.IntSort(), STEP.sort()), z3.IntSort(), z3.IntSort(), z3.BoolSort())
    if new:
        B = z3.Const("B", STEP.sort())
        A = z3.Const("A", z3.ArraySort(z3.IntSort(), STEP.sort()))
        m, k, p, x = z3.Ints("m k p x")
        L = live(I, A, m, k)
        ids, pos = sset(I, L)
        bp = STEP.at(B, p)
        e, eb = elems(I, A[k]), elems(I, B)
        body = z3.And(
            STEP.len(B) == STEP.len(A[k]),
            strict(STEP.arr(B), STEP.len(B)),
            z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < STEP.len(B)), z3.And(0 <= bp, bp < I.th.card(INT, L), e[ids[bp]])), patterns=[bp]),
            z3.ForAll([x], z3.Implies(e[x], eb[pos(x)]), patterns=[e[x]]),
        )
        I.th.ax("linstep-def", z3.ForAll([B, A, m, k], f(B, A, m, k) == body, patterns=[f(B, A, m, k)]))
    return f(b, arr, n, q)


# ------------------------------------------------------------------ deleting positions, highest first
def removals(x, I):
    """candidate invariants of a loop that deletes, from lists, the positions it visits in falling order"""
    out = []
    it = x.it
    try:
        s = lambda q: I.lift(it.fn(q), INT)
        s(z3.IntVal(0))
    except Exception:
        return out
    for nm in x.modcells():
        try:
            L0 = x.z(nm, STEP)
        except Exception:
            continue
        R = I.fresh("gone", z3.ArraySort(z3.IntSort(), z3.IntSort()))
        t = z3.Int("gt")
        I.assume(z3.ForAll([t], R[t] == STEP.at(L0, s(t)), patterns=[R[t]]))
        if z3.is_select(s(t)) and s(t).arg(1).eq(t):
            I.assume(z3.ForAll([t], R[t] == STEP.at(L0, s(t)), patterns=[s(t)]))
        if hasattr(it, "rev"):
            b = I.lift(it.rev(t), INT)
            I.assume(z3.ForAll([t], R[it.n - 1 - t] == STEP.at(L0, b), patterns=[b]))
        n0 = STEP.len(L0)

        def ln(y, nm=nm, n0=n0):
            return STEP.len(y.z(nm, STEP)) == n0 - y.k

        def srt(y, nm=nm):
            z = y.z(nm, STEP)
            return strict(STEP.arr(z), STEP.len(z))

        def low(y, nm=nm, L0=L0, n0=n0):
            z = y.z(nm, STEP)
            i = z3.Int("lo")
            top = z3.If(y.k == 0, n0, s(y.k - 1))
            return z3.And(top <= STEP.len(z), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < top), STEP.at(z, i) == STEP.at(L0, i)), patterns=[STEP.at(z, i)]))

        def mem(y, nm=nm, L0=L0, R=R):
            z = y.z(nm, STEP)
            w = z3.Int("mx")
            e, e0, g = elems(I, z), elems(I, L0), elems(I, STEP.mk(y.k, R))
            zp = y.mem.get(("prev", nm))
            if zp is not None:
                k1 = y.k - 1
                ep, gp = elems(I, zp), elems(I, STEP.mk(k1, R))
                gone = STEP.at(zp, s(k1))
                y.hint(z3.Implies(k1 > 0, s(k1) < s(k1 - 1)))
                y.hint(R[k1] == gone)
                y.hint(z3.ForAll([w], g[w] == z3.Or(gp[w], w == R[k1]), patterns=[g[w]]))
                y.hint(z3.ForAll([w], e[w] == z3.And(ep[w], w != gone), patterns=[e[w]]))
                y.hint(z3.ForAll([w], e[w] == z3.And(ep[w], w != gone), patterns=[e0[w]]))
            y.mem[("prev", nm)] = z
            return z3.And(*[z3.ForAll([w], e[w] == z3.And(e0[w], z3.Not(g[w])), patterns=[pt]) for pt in (e[w], e0[w])])

        out += [(f"{nm} shrinks", ln), (f"{nm} stays increasing", srt), (f"{nm} unchanged below", low), (f"{nm} loses the visited positions", mem)]
    return out


def ninputs(I, path):
    """the number of inputs a complete path is for"""
    f, new = I.th.fn("NIN", z3.ArraySort(z3.IntSort(), STEP.sort()), z3.IntSort(), z3.IntSort())
    if new:
        A = z3.Const("A", z3.ArraySort(z3.IntSort(), STEP.sort()))
        m = z3.Int("m")
        I.th.ax("nin-def", z3.ForAll([A, m], f(A, m) == I.th.sumlen(PATH, A, m) - m + 1, patterns=[f(A, m)]))
    return f(PATH.arr(path), PATH.len(path))


def ssastep(I, b, arr, n, q):
    """step q of the path arr (on n inputs) names, in order, the ids at the linear positions b"""
    f, new = I.th.fn("SSASTEP", STEP.sort(), z3.ArraySort(z3.IntSort(), STEP.sort()), z3.IntSort(), z3.IntSort(), z3.BoolSort())
    if new:
        B = z3.Const("B", STEP.sort())
        A = z3.Const("A", z3.ArraySort(z3.IntSort(), STEP.sort()))
        m, k, i, p = z3.Ints("m k i p")
        s = z3.Const("s", STEP.sort())
        ids, pos = sset(I, live(I, A, m, k))
        eq = z3.And(STEP.at(A[k], i) == ids[STEP.at(B, i)], 0 <= STEP.at(B, i), STEP.at(B, i) < I.th.card(INT, live(I, A, m, k)))
        rg = z3.And(0 <= i, i < STEP.len(B))
        body = z3.And(STEP.len(A[k]) == STEP.len(B), z3.ForAll([i], z3.Implies(rg, eq), patterns=[STEP.at(A[k], i)]), z3.ForAll([i], z3.Implies(rg, eq), patterns=[STEP.at(B, i)]))
        I.th.ax("ssastep-def", z3.ForAll([B, A, m, k], f(B, A, m, k) == body, patterns=[f(B, A, m, k)]))
        g = f(B, z3.Store(A, p, s), m, k)
        I.th.ax("ssastep-prefix", z3.ForAll([B, A, m, k, p, s], z3.Implies(z3.And(0 <= k, k < p), g == f(B, A, m, k)), patterns=[g]))
    return f(b, arr, n, q)


def linok(I, path, n, at=None):
    """a linear path: every step names distinct positions that exist at that point"""
    f, new = I.th.fn("LINOK", z3.ArraySort(z3.IntSort(), STEP.sort()), z3.IntSort(), z3.IntSort(), z3.BoolSort())
    if new:
        A = z3.Const("A", z3.ArraySort(z3.IntSort(), STEP.sort()))
        m, q, i = z3.Ints("m q i")
        e = STEP.at(A[q], i)
        body = z3.And(STEP.len(A[q]) >= 1, distinct(A[q]), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < STEP.len(A[q])), z3.And(0 <= e, e < m + q - I.th.sumlen(PATH, A, q))), patterns=[e]))
        s, p = z3.Const("s", STEP.sort()), z3.Int("p")
        g = f(z3.Store(A, p, s), m, q)
        I.th.ax("linok-prefix", z3.ForAll([A, m, q, p, s], z3.Implies(z3.And(0 <= q, q < p), g == f(A, m, q)), patterns=[g]))
        I.th.ax("linok-def", z3.ForAll([A, m, q], f(A, m, q) == body, patterns=[f(A, m, q)]))
    if at is not None:
        return f(PATH.arr(path), n, at)
    q = z3.Int("loq")
    t = f(PATH.arr(path), n, q)
    return z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < PATH.len(path)), t), patterns=[t])


def sumlen_ext(I, a, b, n):
    """lemma: prefixes with steps of equal length have the same total length"""
    q = z3.Int("seq")
    A, B = PATH.arr(a), PATH.arr(b)
    return z3.Implies(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), STEP.len(A[q]) == STEP.len(B[q]))), I.th.sumlen(PATH, A, n) == I.th.sumlen(PATH, B, n))


def prefix_ext(I, a, b, n, k):
    """lemma: sumlen, LINOK of step k depend only on the prefix"""
    q = z3.Int("peq")
    A, B = PATH.arr(a), PATH.arr(b)
    f, _ = I.th.fn("LINOK")
    linok(I, a, n)
    same = z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < k), A[q] == B[q]))
    j = z3.Int("pej")
    return z3.Implies(same, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), f(A, n, j) == f(B, n, j)), patterns=[f(A, n, j)]))
