"""Background theory: spec functions (cardinality, products, prefix sums...) with their
defining axioms.  Every axiom is a definitional truth about finite sets / sequences; each is
also evaluated on random concrete instances by `selftest` (pyvc/theory_test.py)."""
import z3

from .ty import *


class Theory:
    def __init__(self):
        self.axioms = []
        self.names = {}
        self._fn = {}
        self.consts = {}

    def fn(self, name, *sorts):
        if name not in self._fn:
            self._fn[name] = z3.Function(name, *sorts)
            return self._fn[name], True
        return self._fn[name], False

    def ax(self, name, f):
        if name not in self.names:
            self.names[name] = f
            self.axioms.append(f)

    # -------------------------------------------------------------- cardinality
    def card(self, el, s):
        f, new = self.fn("card_" + el.key, SetT(el).sort(), z3.IntSort())
        if new:
            S = z3.Const("S", SetT(el).sort())
            x = z3.Const("x", el.sort())
            E = SetT(el).empty()
            k = el.key
            self.ax(f"card-empty {k}", f(E) == 0)
            self.ax(f"card-nonneg {k}", z3.ForAll([S], f(S) >= 0, patterns=[f(S)]))
            self.ax(f"card-zero {k}", z3.ForAll([S], z3.Implies(f(S) == 0, S == E), patterns=[f(S)]))
            self.ax(f"card-add {k}", z3.ForAll([S, x], f(z3.Store(S, x, True)) == z3.If(S[x], f(S), f(S) + 1), patterns=[f(z3.Store(S, x, True))]))
            self.ax(f"card-del {k}", z3.ForAll([S, x], f(z3.Store(S, x, False)) == z3.If(S[x], f(S) - 1, f(S)), patterns=[f(z3.Store(S, x, False))]))
            w = z3.Function("cardw_" + k, SetT(el).sort(), el.sort())
            self.ax(f"card-one {k}", z3.ForAll([S, x], z3.Implies(z3.And(f(S) == 1, S[x]), x == w(S)), patterns=[z3.MultiPattern(f(S), S[x])]))
            self.ax(f"card-witness {k}", z3.ForAll([S], z3.Implies(f(S) > 0, S[w(S)]), patterns=[f(S)]))
        return f(s)

    def card_mono(self, el, a, b):
        """instance of: a subset is not larger"""
        return z3.Implies(z3.IsSubset(a, b), self.card(el, a) <= self.card(el, b))

    # -------------------------------------------------------------- products over a set
    def ps(self, el, s, val):
        """product of val[x] over x in s"""
        f, new = self.fn("PS_" + el.key, SetT(el).sort(), z3.ArraySort(el.sort(), z3.IntSort()), z3.IntSort())
        if new:
            S = z3.Const("S", SetT(el).sort())
            x = z3.Const("x", el.sort())
            d = z3.Const("d", z3.ArraySort(el.sort(), z3.IntSort()))
            k = el.key
            self.ax(f"prod-empty {k}", z3.ForAll([d], f(SetT(el).empty(), d) == 1, patterns=[f(SetT(el).empty(), d)]))
            self.ax(f"prod-add {k}", z3.ForAll([S, x, d], f(z3.Store(S, x, True), d) == z3.If(S[x], f(S, d), f(S, d) * d[x]), patterns=[f(z3.Store(S, x, True), d)]))
            w = z3.Function("PSw_" + k, S.sort(), d.sort(), el.sort())
            self.ax(f"prod-nonneg {k}", z3.ForAll([S, d], z3.Or(f(S, d) >= 0, z3.And(S[w(S, d)], d[w(S, d)] < 0)), patterns=[f(S, d)]))
        return f(s, val)

    def rangeset(self, n):
        """{0, ..., n-1}"""
        f, new = self.fn("RANGE", z3.IntSort(), SetT(INT).sort())
        if new:
            m, x = z3.Ints("m x")
            self.ax("range-def", z3.ForAll([m, x], z3.Select(f(m), x) == z3.And(0 <= x, x < m), patterns=[z3.Select(f(m), x)]))
            self.ax("range-card", z3.ForAll([m], self.card(INT, f(m)) == z3.If(m >= 0, m, 0), patterns=[f(m)]))
        return f(n)

    # -------------------------------------------------------------- products over a prefix
    def pl(self, t, arr, k, val):
        el = t.el
        f, new = self.fn("PL_" + el.key, z3.ArraySort(z3.IntSort(), el.sort()), z3.IntSort(), z3.ArraySort(el.sort(), z3.IntSort()), z3.IntSort())
        if new:
            A = z3.Const("A", z3.ArraySort(z3.IntSort(), el.sort()))
            n = z3.Int("n")
            d = z3.Const("d", z3.ArraySort(el.sort(), z3.IntSort()))
            self.ax(f"lprod-empty {el.key}", z3.ForAll([A, d], f(A, 0, d) == 1, patterns=[f(A, 0, d)]))
            self.ax(f"lprod-step {el.key}", z3.ForAll([A, n, d], z3.Implies(n >= 0, f(A, n + 1, d) == f(A, n, d) * d[A[n]]), patterns=[f(A, n + 1, d)]))
        return f(arr, k, val)

    # -------------------------------------------------------------- counting in a sequence
    def cnt(self, t, arr, k, x):
        """number of j < k with arr[j] == x"""
        el = t.el
        f, new = self.fn("CNT_" + el.key, z3.ArraySort(z3.IntSort(), el.sort()), z3.IntSort(), el.sort(), z3.IntSort())
        if new:
            A = z3.Const("A", z3.ArraySort(z3.IntSort(), el.sort()))
            n, m, j = z3.Ints("n m j")
            y = z3.Const("y", el.sort())
            self.ax(f"cnt-empty {el.key}", z3.ForAll([A, y], f(A, 0, y) == 0, patterns=[f(A, 0, y)]))
            self.ax(f"cnt-bounds {el.key}", z3.ForAll([A, n, y], z3.Implies(n >= 0, z3.And(f(A, n, y) >= 0, f(A, n, y) <= n)), patterns=[f(A, n, y)]))
            self.ax(f"cnt-pos {el.key}", z3.ForAll([A, n, j], z3.Implies(z3.And(0 <= j, j < n), f(A, n, A[j]) >= 1), patterns=[z3.MultiPattern(f(A, n, A[j]), A[j])]))
            self.ax(f"cnt-pos2 {el.key}", z3.ForAll([A, n, y, j], z3.Implies(z3.And(0 <= j, j < n, A[j] == y), f(A, n, y) >= 1), patterns=[z3.MultiPattern(f(A, n, y), A[j])]))
            w = z3.Function("cntw_" + el.key, A.sort(), z3.IntSort(), el.sort(), z3.IntSort())
            self.ax(f"cnt-witness {el.key}", z3.ForAll([A, n, y], z3.Implies(f(A, n, y) >= 1, z3.And(0 <= w(A, n, y), w(A, n, y) < n, A[w(A, n, y)] == y)), patterns=[f(A, n, y)]))
            self.ax(f"cnt-two {el.key}", z3.ForAll([A, n, j, m], z3.Implies(z3.And(0 <= j, j < m, m < n, A[j] == A[m]), f(A, n, A[j]) >= 2), patterns=[z3.MultiPattern(f(A, n, A[j]), f(A, n, A[m]))]))
        return f(arr, k, x)

    # -------------------------------------------------------------- sum of lengths (prefix)
    def sumlen(self, t, arr, k):
        """sum of len(arr[j]) for j < k"""
        f, new = self.fn("SUMLEN_" + t.key, z3.ArraySort(z3.IntSort(), t.el.sort()), z3.IntSort(), z3.IntSort())
        if new:
            A = z3.Const("A", z3.ArraySort(z3.IntSort(), t.el.sort()))
            n = z3.Int("n")
            self.ax(f"sumlen-empty {t.key}", z3.ForAll([A], f(A, 0) == 0, patterns=[f(A, 0)]))
            self.ax(f"sumlen-step {t.key}", z3.ForAll([A, n], z3.Implies(n >= 0, f(A, n + 1) == f(A, n) + t.el.len(A[n])), patterns=[f(A, n + 1)]))
            self.ax(f"sumlen-one {t.key}", z3.ForAll([A], f(A, 1) == t.el.len(A[0]), patterns=[f(A, 1)]))
        return f(arr, k)

    # -------------------------------------------------------------- sum of a prefix
    def suml(self, arr, k):
        f, new = self.fn("SUML", z3.ArraySort(z3.IntSort(), z3.IntSort()), z3.IntSort(), z3.IntSort())
        if new:
            A = z3.Const("A", z3.ArraySort(z3.IntSort(), z3.IntSort()))
            n, m, v = z3.Ints("n m v")
            self.ax("suml-empty", z3.ForAll([A], f(A, 0) == 0, patterns=[f(A, 0)]))
            self.ax("suml-step", z3.ForAll([A, n], z3.Implies(n >= 0, f(A, n + 1) == f(A, n) + A[n]), patterns=[f(A, n + 1)]))
            st = f(z3.Store(A, m, v), n)
            self.ax("suml-frame", z3.ForAll([A, n, m, v], z3.Implies(z3.And(0 <= n, n <= m), st == f(A, n)), patterns=[st]))
        return f(arr, k)

    # -------------------------------------------------------------- union over an index set
    def big(self, el, arr, s):
        """union of the sets arr[r] for r in s"""
        st = SetT(el).sort()
        f, new = self.fn("BIGU_" + el.key, z3.ArraySort(z3.IntSort(), st), SetT(INT).sort(), st)
        if new:
            A = z3.Const("A", z3.ArraySort(z3.IntSort(), st))
            S = z3.Const("S", SetT(INT).sort())
            r = z3.Int("r")
            x = z3.Const("x", el.sort())
            w = z3.Function("bigw_" + el.key, A.sort(), S.sort(), el.sort(), z3.IntSort())
            self.ax(f"big-in {el.key}", z3.ForAll([A, S, r, x], z3.Implies(z3.And(S[r], z3.Select(A[r], x)), z3.Select(f(A, S), x)), patterns=[z3.MultiPattern(z3.Select(f(A, S), x), z3.Select(A[r], x))]))
            self.ax(f"big-out {el.key}", z3.ForAll([A, S, x], z3.Implies(z3.Select(f(A, S), x), z3.And(S[w(A, S, x)], z3.Select(A[w(A, S, x)], x))), patterns=[z3.Select(f(A, S), x)]))
        return f(arr, s)

    # -------------------------------------------------------------- bitmaps
    def bit(self, a, j):
        f, _ = self.fn("BIT", z3.IntSort(), z3.IntSort(), z3.BoolSort())
        return f(a, j)

    def bitfn(self, nm):
        """integer and/or/xor of non-negative integers, by their bits"""
        f, new = self.fn("BIT" + nm, z3.IntSort(), z3.IntSort(), z3.IntSort())
        if new:
            a, b, j = z3.Ints("a b j")
            op = {"AND": lambda p, q: z3.And(p, q), "OR": lambda p, q: z3.Or(p, q), "XOR": lambda p, q: z3.Xor(p, q)}[nm]
            g = z3.And(a >= 0, b >= 0)
            self.ax("bit" + nm, z3.ForAll([a, b, j], z3.Implies(g, self.bit(f(a, b), j) == op(self.bit(a, j), self.bit(b, j))), patterns=[self.bit(f(a, b), j)]))
            self.ax("bit" + nm + "-nonneg", z3.ForAll([a, b], z3.Implies(g, f(a, b) >= 0), patterns=[f(a, b)]))
            w = z3.Function("bitw", z3.IntSort(), z3.IntSort())
            self.ax("bit-nonzero", z3.ForAll([a], z3.Implies(a > 0, z3.And(w(a) >= 0, self.bit(a, w(a)))), patterns=[w(a)]))
            self.ax("bit-w" + nm, z3.ForAll([a, b], w(f(a, b)) >= 0, patterns=[f(a, b)]))
            self.ax("bit-zero", z3.ForAll([j], z3.Not(self.bit(z3.IntVal(0), j)), patterns=[self.bit(z3.IntVal(0), j)]))
        return f

    # -------------------------------------------------------------- opaque values
    def opaque_const(self, t, v):
        k = (t.key, v)
        if k not in self.consts:
            c = z3.Const(f"{t.key}:{v}", t.sort())
            for (tk, w), c2 in list(self.consts.items()):
                if tk == t.key:
                    self.axioms.append(c != c2)
            self.consts[k] = c
        return self.consts[k]

    def opaque_truth(self, I, v):
        f, _ = self.fn("truthy_" + v.t.key, v.t.sort(), z3.BoolSort())
        return f(v.z)

    def opaque_is_none(self, I, v):
        h = getattr(I.cur_spec, "opaque_is_none", None)
        return h(I, v) if h else False

    def call_opaque(self, I, f, args, kw):
        h = getattr(I.reg, "opaque_call", None)
        if h:
            return h(I, f, args, kw)
        raise Unsupported("call of an opaque value")

    def tree_lift(self, I, v):
        raise Unsupported("tree")
