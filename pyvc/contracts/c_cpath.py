"""Planning: opt_einsum/contract.py:contract_path.

History of a plan: TERMS(q), INDEXSETS(q) and SHAPES(q) are the remaining terms, their index sets and their
shapes before step q.  They are ghost functions: at the head of iteration q their value there is, by definition,
the value of the program's lists.

Strings: a step string is known by the terms and the result it was made of (STEPTERMS, OUT); joining terms with
commas and an arrow can be taken apart again because terms contain neither (parse_einsum_input)."""
import ast
import os

import z3

from ..engine import Func, PathEnd
from ..spec import *
from ..ty import *
from .c_blas import SHAPE, SHAPES, SUBS, occ
from .c_helpers import SIZES, flops
from .c_core import cuts
from .c_plan import CH, INTS, SETS, falling, falling_lemma, others, rank, skd, skip, skip_facts, step_sets

M = "opt_einsum.contract:"
ISUBS = OpaqueT("InputSubscripts")
ANY = OpaqueT("Argument")
OPERAND = OpaqueT("Operand")
STRATEGY = OpaqueT("Strategy")
ESTR = OpaqueT("StepString")
JOINED = OpaqueT("JoinedTerms")
ARROWED = OpaqueT("TermsAndArrow")
PATH = ListT(INTS)
REM = OptT(SUBS)
STEPT = TupT(INTS, CH, ESTR, REM, BOOL)
PLAN = ListT(STEPT)


class Info:
    """the report built from these values"""

    def __init__(self, vals):
        self.vals = vals


def mine(I):
    return isinstance(getattr(I, "cur_spec", None), ContractPath)


def ov(name):
    def get(I):
        if not mine(I):
            return None
        return Builtin(name, lambda I, a, k: getattr(I.cur_spec, "k_" + name)(I, a, k))

    return get


def choice(name):
    def get(I):
        if not isinstance(getattr(I, "cur_spec", None), ContractPathChoice):
            return None
        return Builtin(name, lambda I, a, k: getattr(I.cur_spec, "k_" + name)(I, a, k))

    return get


def terms(I, k):
    return I.th.fn("TERMS", z3.IntSort(), SUBS.sort())[0](k)


def isets(I, k):
    return I.th.fn("INDEXSETS", z3.IntSort(), SETS.sort())[0](k)


def shapes(I, k):
    return I.th.fn("SHAPES", z3.IntSort(), SHAPES.sort())[0](k)


def ask(I, e):
    """true; marks the index whose size is asked for (a trigger)"""
    f, new = I.th.fn("ASKSIZE", z3.IntSort(), z3.BoolSort())
    if new:
        x = z3.Int("x")
        I.th.ax("asksize", z3.ForAll([x], f(x), patterns=[f(x)]))
    return f(e)


def chars(I, s):
    return lib.listset(I, STR, s)


class FindOutputShape(Contract):
    """(assumed here) one size per index of the result"""

    qual = "opt_einsum.parser:find_output_shape"
    trusted = True
    params = [dict(inputs=P(SUBS, "list"), shapes=P(SHAPES, "list"), output=STR)]
    ret = SHAPE

    def missing(self, c):
        i, j = z3.Ints("oi oj")
        o, ins = c["output"], c["inputs"]
        return z3.Exists([i], z3.And(0 <= i, i < STR.len(o), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < SUBS.len(ins)), occ(c.I, SUBS.at(ins, j), STR.at(o, i)) == 0), patterns=[SUBS.at(ins, j)])))

    def raises(self, c):
        return {"ValueError": self.missing(c)}

    def ensures(self, c):
        return [("one size per index", SHAPE.len(c.res(SHAPE)) == STR.len(c["output"]))]


class ContractPath(Contract):
    qual = M + "contract_path"
    props = ("C02", "C07", "C10", "C03")
    weight = 30
    params = [
        dict(subscripts=P(ANY), operands=P(ListT(ANY)), use_blas=P(BOOL), optimize=P(PATH, "list"), memory_limit=Const(None), shapes=Const(False), kwargs=Build(lambda I: I.alloc("dict", {"einsum_call": I.freshv("einsum_call", BOOL)}))),
    ]
    ret = lambda self, c: None
    modifies = ("kwargs",)

    def adjust_type(self, t):
        if isinstance(t, ListT) and isinstance(t.el, TupT) and len(t.el.els) == 5:
            e = list(t.el.els)
            e[3] = REM
            return ListT(TupT(*e))
        return t

    # ---- the environment
    def k_parse_einsum_input(self, I, a, k):
        c = self.cv
        args = lib.to_list(I, a[0])
        z = I.lift(args, ListT(ANY))
        o = c["operands"]
        i = z3.Int("ai")
        at = ListT(ANY).at
        I.obligation(z3.And(ListT(ANY).len(z) == ListT(ANY).len(o) + 1, at(z, 0) == c["subscripts"], z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ListT(ANY).len(o)), at(z, i + 1) == at(o, i)))), "the arguments are parsed as given")
        sh = k.get("shapes", a[1] if len(a) > 1 else False)
        I.obligation(z3.BoolVal(sh is c.vals["shapes"]), "parsed as arrays or as shapes, as asked")
        isub = I.freshv("input_subscripts", ISUBS)
        out = I.freshv("output_subscript", STR)
        ot = ListT(SHAPE) if c.vals["shapes"] else ListT(OPERAND)
        ops = I.freshv("operands", ot)
        T = self.T(I, isub.z)
        x, j = z3.Ints("px pj")
        I.assume(z3.And(SUBS.len(T) >= 1, SUBS.len(T) == ot.len(ops.z)))
        I.assume(z3.ForAll([j], STR.len(SUBS.at(T, j)) >= 0, patterns=[SUBS.at(T, j)]))
        I.assume(z3.ForAll([x], occ(I, out.z, x) <= 1, patterns=[occ(I, out.z, x)]))
        j = I.th.fn("PARSEWIT", z3.IntSort(), z3.IntSort())[0](x)
        I.assume(z3.ForAll([x], z3.Implies(occ(I, out.z, x) >= 1, z3.And(0 <= j, j < SUBS.len(T), occ(I, SUBS.at(T, j), x) >= 1)), patterns=[occ(I, out.z, x)]))
        p, k = I.th.fn("PARSEPOS", z3.IntSort(), z3.IntSort())[0](x), z3.Int("pk")
        here = z3.And(0 <= j, j < SUBS.len(T), 0 <= p, p < STR.len(SUBS.at(T, j)), STR.at(SUBS.at(T, j), p) == x)
        I.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < STR.len(out.z)), z3.substitute(here, (x, STR.at(out.z, k)))), patterns=[STR.at(out.z, k)]))
        I.ghost["parsed"] = (isub.z, out.z, ops)
        I.ghost["parsed ops"] = I.alloc("list", ops)
        return (isub, out, I.ghost["parsed ops"])

    def k_get_shape(self, I, a, k):
        return V(SHAPE, self.shapeof(I, I.lift(a[0], OPERAND)))

    def shapeof(self, I, z):
        f, new = I.th.fn("SHAPEOF", OPERAND.sort(), SHAPE.sort())
        if new:
            o = z3.Const("o", OPERAND.sort())
            I.th.ax("shapeof", z3.ForAll([o], SHAPE.len(f(o)) >= 0, patterns=[f(o)]))
        return f(z)

    def T(self, I, isub):
        return I.th.fn("SPLITTERMS", ISUBS.sort(), SUBS.sort())[0](isub)

    def opaque_attr(self, I, base, attr):
        if base.t == ISUBS and attr == "split":
            def split(I, a, k):
                if list(a) != [","]:
                    raise Unsupported("split")
                return I.alloc("list", V(SUBS, self.T(I, base.z)))
            return Builtin("split", split)
        if base.t == ISUBS and attr == "replace":
            def replace(I, a, k):
                if list(a) != [",", ""]:
                    raise Unsupported("replace")
                return V(STR, self.flat(I, base.z))
            return Builtin("replace", replace)
        raise Unsupported(f"attribute {attr}")

    def flat(self, I, z):
        f, new = I.th.fn("ALLTERMS", ISUBS.sort(), STR.sort())
        if new:
            s, x, j = z3.Const("s", ISUBS.sort()), z3.Int("x"), z3.Int("j")
            w = z3.Function("allterms_w", ISUBS.sort(), z3.IntSort(), z3.IntSort())
            T = self.T(I, s)
            n = occ(I, f(s), x)
            I.th.ax("allterms-in", z3.ForAll([s, x, j], z3.Implies(z3.And(0 <= j, j < SUBS.len(T), occ(I, SUBS.at(T, j), x) >= 1), n >= 1), patterns=[z3.MultiPattern(n, SUBS.at(T, j))]))
            I.th.ax("allterms-out", z3.ForAll([s, x], z3.Implies(n >= 1, z3.And(0 <= w(s, x), w(s, x) < SUBS.len(T), occ(I, SUBS.at(T, w(s, x)), x) >= 1)), patterns=[n]))
            I.th.ax("allterms-len", z3.ForAll([s], STR.len(f(s)) >= 0, patterns=[f(s)]))
        return f(z)

    def join(self, I, s, c):
        if c.t == SUBS and s == ",":
            return V(JOINED, I.th.fn("COMMAJOIN", SUBS.sort(), JOINED.sort())[0](c.z))

    def opaque_binop(self, I, op, a, b):
        if isinstance(op, ast.Add) and isinstance(a, V):
            if a.t == JOINED and isinstance(b, str) and b == "->":
                return V(ARROWED, I.th.fn("ARROW", JOINED.sort(), ARROWED.sort())[0](a.z))
            if a.t == ARROWED and isinstance(b, V) and b.t == STR:
                f, new = I.th.fn("STEPSTR", ARROWED.sort(), STR.sort(), ESTR.sort())
                r = f(a.z, b.z)
                l = a.z.arg(0).arg(0)
                I.assume(z3.And(self.lefts(I, r) == l, self.out(I, r) == b.z))
                return V(ESTR, r)
        raise Unsupported("operator on an opaque value")

    def lefts(self, I, e):
        return I.th.fn("STEPTERMS", ESTR.sort(), SUBS.sort())[0](e)

    def out(self, I, e):
        return I.th.fn("OUT", ESTR.sort(), STR.sort())[0](e)

    def k_PathInfo(self, I, a, k):
        m = load_module("opt_einsum.contract")
        f = Registry.find_function(None, M + "PathInfo.__init__")
        vals = I.bind_args(f, [None] + list(a), k)
        return Info(vals)

    def real(self, I, qual, a, k):
        f = I.reg.find_function(qual)
        return I.reg.by_qual[qual].apply(I, f, a, k)

    def k_can_blas(self, I, a, k):
        self.step_cuts(I, a[0])
        return self.real(I, "opt_einsum.blas:can_blas", a, k)

    def k_find_output_shape(self, I, a, k):
        self.step_cuts(I, a[0])
        o = I.lift(a[2], STR) if len(a) > 2 else None
        g = I.ghost.get("step")
        if o is not None and g is not None:
            i = z3.Int("ci")
            c, kk = self.cv, g
            U = self.sets_of(c, kk)[0]
            whole = z3.Or(kk < PATH.len(self.path(c)) - 1, self.plen(c, kk + 1) == 1)
            cuts(I, [z3.Implies(whole, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < STR.len(o)), U[STR.at(o, i)]), patterns=[STR.at(o, i)]))])
        return self.real(I, "opt_einsum.parser:find_output_shape", a, k)

    def step_cuts(self, I, tmp):
        """facts of the step being planned"""
        c, k = self.cv, I.ghost.get("step")
        if k is None or I.ghost.get("cuts done") is not None:
            return
        I.ghost["cuts done"] = True
        tmp = I.lift(tmp, SUBS)
        U, kept, gone, ps, n = self.sets_of(c, k)
        left = I.th.big(CHAR, SETS.arr(isets(I, k)), others(I, ps, n))
        j, x = z3.Ints("cj cx")
        m = INTS.len(PATH.at(self.path(c), k))
        has = lambda: z3.Not(z3.ForAll([j], z3.Not(z3.And(0 <= j, j < m, occ(I, SUBS.at(tmp, j), x) >= 1)), patterns=[SUBS.at(tmp, j)]))
        out = self.outset(I)
        cuts(I, [
            SUBS.len(tmp) == m,
            z3.ForAll([x], z3.Implies(U[x], has()), patterns=[U[x]]),
            z3.ForAll([j, x], z3.Implies(z3.And(0 <= j, j < m, occ(I, SUBS.at(tmp, j), x) >= 1), U[x]), patterns=[occ(I, SUBS.at(tmp, j), x)]),
            z3.Implies(m == 2, z3.ForAll([x], U[x] == (occ(I, SUBS.at(tmp, 0), x) + occ(I, SUBS.at(tmp, 1), x) >= 1), patterns=[U[x]])),
            z3.Implies(n == m, z3.ForAll([x], z3.Not(left[x]), patterns=[left[x]])),
            z3.ForAll([x], z3.Implies(out[x], z3.Or(U[x], left[x])), patterns=[out[x]]),
            z3.Implies(n == m, kept == out),
        ])

    # ---- specification
    def plan(self, c):
        """(parsed input, output, operands, number of terms)"""
        return c.I.ghost["parsed"]

    def path(self, c):
        return c["optimize"]

    def plen(self, c, k):
        """number of terms before step k"""
        I = c.I
        f, new = I.th.fn("PLEN", PATH.sort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
        if new:
            p, n, q = z3.Const("p", PATH.sort()), z3.Int("n"), z3.Int("q")
            I.th.ax("plen-start", z3.ForAll([p, n], f(p, n, 0) == n, patterns=[f(p, n, 0)]))
            I.th.ax("plen-step", z3.ForAll([p, n, q], z3.Implies(q >= 0, f(p, n, q + 1) == f(p, n, q) - INTS.len(PATH.at(p, q)) + 1), patterns=[f(p, n, q + 1)]))
        isub, out, ops = self.plan(c)
        return f(self.path(c), SUBS.len(self.T(I, isub)), k)

    def requires(self, c):
        p = self.path(c)
        q, i, j = z3.Ints("rq ri rj")
        s = PATH.at(p, q)
        a, b = INTS.at(s, i), INTS.at(s, j)
        rg = z3.And(0 <= q, q < PATH.len(p))
        return [
            ("every step takes something", z3.ForAll([q], z3.Implies(rg, INTS.len(s) >= 1), patterns=[s])),
            ("positions are natural numbers", z3.ForAll([q, i], z3.Implies(z3.And(rg, 0 <= i, i < INTS.len(s)), a >= 0), patterns=[a])),
            ("no position twice in a step", z3.ForAll([q, i, j], z3.Implies(z3.And(rg, 0 <= i, i < j, j < INTS.len(s)), a != b), patterns=[z3.MultiPattern(a, b)])),
        ]

    def dims(self, I, ops, j):
        e = ops.t.at(ops.z, j)
        return e if ops.t.el == SHAPE else self.shapeof(I, e)

    def rank_bad(self, c):
        I = c.I
        isub, out, ops = self.plan(c)
        T = self.T(I, isub)
        j = z3.Int("bj")
        return z3.Exists([j], z3.And(0 <= j, j < SUBS.len(T), SHAPE.len(self.dims(I, ops, j)) != STR.len(SUBS.at(T, j))))

    def size_bad(self, c):
        I = c.I
        isub, out, ops = self.plan(c)
        T = self.T(I, isub)
        j, p, i, q = z3.Ints("bj bp bi bq")
        d, e = SHAPE.at(self.dims(I, ops, j), p), SHAPE.at(self.dims(I, ops, i), q)
        a, b = STR.at(SUBS.at(T, j), p), STR.at(SUBS.at(T, i), q)
        return z3.Exists([j, p, i, q], z3.And(0 <= j, j < SUBS.len(T), 0 <= i, i < SUBS.len(T), 0 <= p, p < STR.len(SUBS.at(T, j)), 0 <= q, q < STR.len(SUBS.at(T, i)), a == b, d != e, d != 1, e != 1))

    def raises(self, c):
        if "parsed" not in c.I.ghost:
            return {}
        n = PATH.len(self.path(c))
        if "char" in c.I.ghost:
            c.I.assume(ask(c.I, c.I.ghost["char"]))
        q, i = z3.Ints("iq ii")
        at = INTS.at(PATH.at(self.path(c), q), i)
        beyond = z3.Exists([q, i], z3.And(0 <= q, q < n, 0 <= i, i < INTS.len(PATH.at(self.path(c), q)), at >= self.plen(c, q)))
        return {"IndexError": beyond, "ValueError": z3.Or(self.rank_bad(c), self.size_bad(c), self.plen(c, n) != 1)}

    def setup(self, c):
        self.cv = c
        self.plain = c.I.cell(c.vals["kwargs"]).val["einsum_call"].z

    def flops(self, c, d, q):
        """cost of step q: the sizes of its indices, once per multiplication, once more when indices are summed"""
        I = c.I
        U, kept, gone = self.sets_of(c, q)[:3]
        m = INTS.len(PATH.at(self.path(c), q))
        return flops(I, U, I.truth(V(CH, gone)), m, SIZES.val(d))

    def total(self, c, d, k):
        I = c.I
        f, new = I.th.fn("TOTALCOST", z3.IntSort(), z3.IntSort())
        return f(k)

    def total_def(self, c, d, k):
        f = lambda q: self.total(c, d, q)
        return z3.And(f(z3.IntVal(0)) == 0, z3.Implies(k >= 0, f(k + 1) == f(k) + self.flops(c, d, k)))

    def report_facts(self, c, info):
        I = c.I
        isub, out, ops = self.plan(c)
        T = self.T(I, isub)
        N = PATH.len(self.path(c))
        v = info.vals
        d = I.lift(v["size_dict"], SIZES)
        q, j, p = z3.Ints("uq uj up")
        res = []
        try:
            scale, size = I.lift(v["scale_list"], INTS), I.lift(v["size_list"], INTS)
            naive = I.lift(v["naive_cost"], INT)
            opt = I.lift(v["opt_cost"], INT)
            P = I.lift(v["path"], PATH)
            idx = I.lift(v["indices"], CH)
        except Unsupported:
            return [("the report is made of numbers and lists", z3.BoolVal(False))]
        rg = z3.And(0 <= q, q < N)
        n = SUBS.len(T)
        inr = z3.And(0 <= j, j < n, 0 <= p, p < STR.len(SUBS.at(T, j)))
        at, dim = STR.at(SUBS.at(T, j), p), SHAPE.at(self.dims(I, ops, j), p)
        return [
            ("report: the expression", z3.And(I.lift(v["input_subscripts"], ISUBS) == isub, I.lift(v["output_subscript"], STR) == out)),
            ("report: the path", P == self.path(c)),
            ("report: one scaling per step", INTS.len(scale) == N),
            ("report: scalings", z3.ForAll([q], z3.Implies(rg, INTS.at(scale, q) == I.th.card(CHAR, self.sets_of(c, q)[0])), patterns=[INTS.at(scale, q)])),
            ("report: one size per step", INTS.len(size) == N),
            ("report: sizes", z3.ForAll([q], z3.Implies(rg, INTS.at(size, q) == I.th.ps(CHAR, self.sets_of(c, q)[1], SIZES.val(d))), patterns=[INTS.at(size, q)])),
            ("report: optimized cost", opt == self.total(c, d, N)),
            ("report: all indices", z3.ForAll([p], idx[p] == (occ(I, self.flat(I, isub), p) >= 1), patterns=[idx[p]])),
            ("report: naive cost", z3.Or(*[naive == flops(I, idx, z3.BoolVal(b), n, SIZES.val(d)) for b in (False, True)])),
            ("report: sizes of indices fit the operands", z3.ForAll([j, p], z3.Implies(inr, z3.And(SIZES.dom(d)[at], z3.Or(dim == 1, dim == SIZES.val(d)[at]))), patterns=[at])),
        ]

    def ensures(self, c):
        I = c.I
        isub, out, ops = self.plan(c)
        T = self.T(I, isub)
        n = PATH.len(self.path(c))
        res = [
            ("no operand of the wrong rank", z3.Not(self.rank_bad(c))),
            ("no inconsistent sizes", z3.Not(self.size_bad(c))),
            ("everything is contracted", self.plen(c, n) == 1),
        ]
        r = c.result
        if not (isinstance(r, tuple) and len(r) == 2):
            return res + [("a pair is returned", z3.BoolVal(False))]
        if isinstance(r[1], Info):
            res.append(("a report is returned when asked for", z3.Not(self.plain)))
            res += self.report_facts(c, r[1])
            res.append(("the path is returned", I.lift(r[0], PATH) == self.path(c)))
            P = I.lift(r[1].vals["contraction_list"], PLAN)
        else:
            res.append(("a plan is returned when asked for", self.plain))
            P = I.lift(r[1], PLAN)
            res.append(("the operands are returned", z3.BoolVal(isinstance(r[0], Ref) and I.deref(r[0]) is I.deref(I.ghost["parsed ops"]))))
        res.append(("one entry per step", PLAN.len(P) == n))
        for nm, f in self.facts(c, lambda: P, n):
            res.append((nm, f()))
        return res

    def outset(self, I):
        return chars(I, self.plan(self.cv)[1])

    def sets_of(self, c, q):
        """indices step q takes, keeps and sums; positions; number of terms before it"""
        I = c.I
        ps = lib.listset(I, INTS, PATH.at(self.path(c), q))
        n = SETS.len(isets(I, q))
        return step_sets(I, SETS.arr(isets(I, q)), ps, n, self.outset(I)) + (ps, n)

    def facts(self, c, plan, k):
        """what every step q < k of the plan satisfies"""
        I = c.I
        isub, outz, ops = self.plan(c)
        N = PATH.len(self.path(c))
        q, i, x = z3.Ints("sq si sx")

        def all_(f, vs=(), free=False):
            def g():
                P = plan()
                at = PLAN.at(P, q)
                body, p = f(at)
                pats = [at] if p is None else [p] if free else [z3.MultiPattern(at, *(p if isinstance(p, tuple) else [p]))]
                return z3.ForAll([q, *vs], z3.Implies(z3.And(0 <= q, q < k), body), patterns=pats)

            return g

        def inds(at):
            return STEPT.get(at, 0)

        def m(at):
            return INTS.len(inds(at))

        path = lambda: PATH.at(self.path(c), q)
        names = []
        add = lambda nm, f, *vs, free=False: names.append((nm, all_(f, vs, free)))
        add("a step takes the positions the path names", lambda at: (z3.And(m(at) == INTS.len(path()), lib.listset(I, INTS, inds(at)) == lib.listset(I, INTS, path())), None))
        add("positions from right to left", lambda at: (falling(INTS.arr(inds(at)), m(at)), None))
        add("positions are live", lambda at: (z3.Implies(z3.And(0 <= i, i < m(at)), z3.And(0 <= INTS.at(inds(at), i), INTS.at(inds(at), i) < SUBS.len(terms(I, q)))), INTS.at(inds(at), i)), i)
        L = lambda at: self.lefts(I, STEPT.get(at, 2))
        O = lambda at: self.out(I, STEPT.get(at, 2))
        add("one term per position", lambda at: (SUBS.len(L(at)) == m(at), None))
        add("the terms are those at the positions", lambda at: (z3.Implies(z3.And(0 <= i, i < m(at)), SUBS.at(L(at), i) == SUBS.at(terms(I, q), INTS.at(inds(at), i))), SUBS.at(L(at), i)), i)
        add("the indices summed", lambda at: (STEPT.get(at, 1) == self.sets_of(c, q)[2], None))
        nxt = lambda: terms(I, q + 1)
        add("terms left after a step", lambda at: (SUBS.len(nxt()) == SUBS.len(terms(I, q)) - m(at) + 1, None))
        add("the others stay in order", lambda at: (z3.Implies(z3.And(0 <= i, i < SUBS.len(terms(I, q)) - m(at)), SUBS.at(nxt(), i) == SUBS.at(terms(I, q), skip(I, self.sets_of(c, q)[3], i))), SUBS.at(nxt(), i)), i)
        add("the result comes last", lambda at: (z3.Implies(i == SUBS.len(nxt()) - 1, SUBS.at(nxt(), i) == O(at)), SUBS.at(nxt(), i)), i)
        whole = lambda: z3.Or(q < N - 1, self.plen(c, q + 1) == 1)
        add("the result has the indices kept", lambda at: (z3.Implies(whole(), z3.And(occ(I, O(at), x) <= 1, (occ(I, O(at), x) >= 1) == self.sets_of(c, q)[1][x])), occ(I, O(at), x)), x)
        add("the last step gives the output", lambda at: (z3.Implies(z3.And(q == N - 1, self.plen(c, q + 1) == 1), O(at) == outz), None))
        add("index sets are those of the terms", lambda at: (z3.Implies(z3.And(0 <= i, i < SUBS.len(terms(I, q))), SETS.at(isets(I, q), i) == chars(I, SUBS.at(terms(I, q), i))), SETS.at(isets(I, q), i)), i, free=True)
        flag = lambda at: STEPT.get(at, 4)
        w = z3.Int("sw")
        l, r = (lambda at: SUBS.at(L(at), 0)), (lambda at: SUBS.at(L(at), 1))
        nl, nr = (lambda at: occ(I, l(at), x)), (lambda at: occ(I, r(at), x))
        add("tensordot: only when asked for", lambda at: (z3.Implies(flag(at), c["use_blas"]), None))
        add("tensordot: two terms", lambda at: (z3.Implies(flag(at), m(at) == 2), None))
        add("tensordot: no repeated index in the first term", lambda at: (z3.Implies(flag(at), nl(at) <= 1), nl(at)), x)
        add("tensordot: no repeated index in the second term", lambda at: (z3.Implies(flag(at), nr(at) <= 1), nr(at)), x)
        add("tensordot: an index of both terms is summed", lambda at: (z3.Implies(z3.And(flag(at), nl(at) >= 1, nr(at) >= 1), self.sets_of(c, q)[2][x]), nl(at)), x)
        add("tensordot: an index of the first term alone is kept", lambda at: (z3.Implies(z3.And(flag(at), nl(at) >= 1, nr(at) == 0), self.sets_of(c, q)[1][x]), nl(at)), x)
        add("tensordot: an index of the second term alone is kept", lambda at: (z3.Implies(z3.And(flag(at), nr(at) >= 1, nl(at) == 0), self.sets_of(c, q)[1][x]), nr(at)), x)
        S = lambda at, k: SHAPES.at(shapes(I, q), INTS.at(inds(at), k))
        ca, cb = (lambda at: STR.at(l(at), i)), (lambda at: STR.at(r(at), w))
        add("tensordot: no broadcasting", lambda at: (z3.Implies(z3.And(flag(at), 0 <= i, i < STR.len(l(at)), 0 <= w, w < STR.len(r(at)), ca(at) == cb(at)), SHAPE.at(S(at, 0), i) == SHAPE.at(S(at, 1), w)), (ca(at), cb(at))), i, w)
        rem = lambda at: STEPT.get(at, 3)
        add("the remaining terms listed", lambda at: (z3.Or(REM.is_none(rem(at)), REM.get(rem(at)) == nxt()), None))
        return names

    # ---- invariants
    def loops(self, x):
        c, I = self.cv, self.cv.I
        if "parsed" not in I.ghost or x.it is None or x.it.kind != "idx":
            return []
        isub, outz, ops = self.plan(c)
        T = self.T(I, isub)
        for it in [x.it] + list(getattr(x.it, "parts", ())):
            src = getattr(it, "src", None)
            if src is None:
                continue
            if src.t == SUBS and src.z.eq(T):
                return self.size_loop(x, c, I, T, ops, None)
            if src.t == STR:
                return self.size_loop(x, c, I, T, ops, src.z)
            if src.t == PATH:
                return self.step_loop(x, c, I, src.z)
            if src.t == INTS:
                return self.take_loop(x, c, I, src.z)
        return []

    def role(self, x, t):
        return [nm for nm in x.modcells() if self.ty(x, nm) == t]

    def ty(self, x, nm):
        v = x.raw(nm)
        t = x.info.types.get(("l", v.loc)) if isinstance(v, Ref) else None
        if t is not None:
            return t
        try:
            return self.cv.I.typeof(v)
        except Unsupported:
            return None

    def sizes(self, x):
        I = self.cv.I
        for e in x.envs:
            for nm, v in e.vars.items():
                if isinstance(v, Ref) and I.cell(v).kind == "dict" and isinstance(I.cell(v).val, V) and I.cell(v).val.t == SIZES:
                    return I.cell(v).val.z

    def step_loop(self, x, c, I, path):
        isub, outz, ops = self.plan(c)
        N = PATH.len(path)
        out = []
        T, S, D, Pl = self.role(x, SUBS), x.mod(SETS), self.role(x, SHAPES), self.role(x, PLAN)
        if not (T and S and D and Pl):
            I.learn()
            return out
        T, S, D, Pl = T[0], S[0], D[0], Pl[0]
        d = self.sizes(x)
        j, e = z3.Ints("mj me")
        t, s, w = (lambda y: y.z(T, SUBS)), (lambda y: y.z(S, SETS)), (lambda y: y.z(D, SHAPES))

        def history(y):
            if z3.is_const(y.k):
                I.ghost["step"] = y.k
            I.assume(terms(I, y.k) == t(y))
            I.assume(isets(I, y.k) == s(y))
            I.assume(shapes(I, y.k) == w(y))
            after(y)
            return z3.BoolVal(True)

        whole = lambda y: z3.Or(y.k < N, self.plen(c, y.k) == 1)
        rg = lambda y: z3.And(0 <= j, j < SUBS.len(t(y)))
        out.append(("history", history))

        def after(y):
            """what the step did to the terms, as intermediate facts"""
            k = I.ghost.get("step")
            if k is None or z3.is_const(y.k) or z3.is_int_value(y.k):
                return
            ps, n = self.sets_of(c, k)[3:]
            m = INTS.len(PATH.at(path, k))
            inr = z3.And(0 <= j, j < n - m)
            y.hint(z3.And(SUBS.len(t(y)) == n - m + 1, SETS.len(s(y)) == n - m + 1, self.plen(c, y.k) == n - m + 1))
            y.hint(z3.ForAll([j], z3.Implies(inr, SUBS.at(t(y), j) == SUBS.at(terms(I, k), skip(I, ps, j))), patterns=[SUBS.at(t(y), j)]))
            y.hint(z3.ForAll([j], z3.Implies(inr, SHAPES.at(w(y), j) == SHAPES.at(shapes(I, k), skip(I, ps, j))), patterns=[SHAPES.at(w(y), j)]))
            y.hint(z3.ForAll([j], z3.Implies(inr, SETS.at(s(y), j) == SETS.at(isets(I, k), skip(I, ps, j))), patterns=[SETS.at(s(y), j)]))
            y.hint(z3.ForAll([j], z3.Implies(inr, z3.And(0 <= skip(I, ps, j), skip(I, ps, j) < n)), patterns=[skip(I, ps, j)]))
            st = PATH.at(path, k)
            r = z3.Int("hr")
            for g in skip_facts(I, ps, m, n):
                # (the positions of a step are distinct)
                I.assume(z3.Implies(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), z3.And(0 <= INTS.at(st, j), INTS.at(st, j) < n))), g))
            oth, now = others(I, ps, n), I.th.big(CHAR, SETS.arr(s(y)), I.th.rangeset(SETS.len(s(y))))
            left = I.th.big(CHAR, SETS.arr(isets(I, k)), oth)
            y.hint(z3.ForAll([r], z3.Implies(oth[r], z3.And(0 <= rank(I, ps, r), rank(I, ps, r) < n - m)), patterns=[oth[r]]))
            y.hint(z3.ForAll([r], z3.Implies(oth[r], SETS.at(s(y), rank(I, ps, r)) == SETS.at(isets(I, k), r)), patterns=[oth[r]]))
            y.hint(SETS.at(s(y), n - m) == self.sets_of(c, k)[1])
            y.hint(z3.ForAll([e], z3.Implies(z3.And(left[e]), now[e]), patterns=[now[e]]))
            y.hint(z3.ForAll([e], z3.Implies(self.sets_of(c, k)[1][e], now[e]), patterns=[now[e]]))
            U = self.sets_of(c, k)[0]
            y.hint(z3.ForAll([e], z3.Implies(U[e], SIZES.dom(d)[e]), patterns=[U[e]]))
            y.hint(z3.ForAll([j, e], z3.Implies(z3.And(0 <= j, j < n, SETS.at(isets(I, k), j)[e]), SIZES.dom(d)[e]), patterns=[SETS.at(isets(I, k), j)[e]]))
            y.hint(z3.ForAll([j, e], z3.Implies(z3.And(j == n - m, SETS.at(s(y), j)[e]), SIZES.dom(d)[e]), patterns=[SETS.at(s(y), j)[e]]))
            y.hint(z3.ForAll([j, e], z3.Implies(z3.And(inr, SETS.at(s(y), j)[e]), SIZES.dom(d)[e]), patterns=[SETS.at(s(y), j)[e]]))
            new = PLAN.at(y.z(Pl, PLAN), k)
            y.hint(z3.And(INTS.len(STEPT.get(new, 0)) == m, SUBS.len(terms(I, k)) == n))
            y.hint(z3.ForAll([j], z3.Implies(j == n - m, SUBS.at(t(y), j) == self.out(I, STEPT.get(new, 2))), patterns=[SUBS.at(t(y), j)]))
            y.hint(z3.Implies(whole(y), SETS.at(s(y), n - m) == chars(I, SUBS.at(t(y), n - m))))
            y.hint(z3.Implies(whole(y), z3.ForAll([j], z3.Implies(inr, SETS.at(s(y), j) == chars(I, SUBS.at(t(y), j))), patterns=[SETS.at(s(y), j), SUBS.at(t(y), j)])))

        out.append(("number of terms", lambda y: z3.And(SUBS.len(t(y)) == self.plen(c, y.k), SETS.len(s(y)) == self.plen(c, y.k), SHAPES.len(w(y)) == self.plen(c, y.k), self.plen(c, y.k) >= 1)))
        out.append(("index sets match the terms", lambda y: z3.Implies(whole(y), z3.ForAll([j], z3.Implies(rg(y), SETS.at(s(y), j) == chars(I, SUBS.at(t(y), j))), patterns=[SETS.at(s(y), j), SUBS.at(t(y), j)]))))
        out.append(("one size per index of a term", lambda y: z3.ForAll([j], z3.Implies(rg(y), SHAPE.len(SHAPES.at(w(y), j)) == STR.len(SUBS.at(t(y), j))), patterns=[SHAPES.at(w(y), j), SUBS.at(t(y), j)])))
        out.append(("output indices are available", lambda y: z3.ForAll([e], z3.Implies(self.outset(I)[e], I.th.big(CHAR, SETS.arr(s(y)), I.th.rangeset(SETS.len(s(y))))[e]), patterns=[self.outset(I)[e]])))
        out.append(("sizes of all indices are known", lambda y: z3.ForAll([j, e], z3.Implies(z3.And(rg(y), SETS.at(s(y), j)[e]), SIZES.dom(d)[e]), patterns=[SETS.at(s(y), j)[e]])))
        out.append(("one entry per step", lambda y: PLAN.len(y.z(Pl, PLAN)) == y.k))
        out += self.cost_facts(x, c, I, d)
        names = [nm for nm, _ in self.facts(c, lambda: None, None)]
        for nm in names:
            out.append((nm, lambda y, nm=nm: dict(self.facts(c, lambda: y.z(Pl, PLAN), y.k))[nm]()))
        return out

    def cost_facts(self, x, c, I, d):
        out = []
        q = z3.Int("cq")

        def tent(nm, f):
            f.tentative = True
            out.append((nm, f))

        for nm in self.role(x, INTS):
            z = lambda y, nm=nm: y.z(nm, INTS)

            def define(y, z=z):
                I.assume(self.total_def(c, d, y.k))
                return INTS.len(z(y)) == y.k

            rg = lambda y: z3.And(0 <= q, q < y.k)
            out.append((f"{nm}: one per step", define))
            tent(f"{nm} sums to the cost", lambda y, z=z: I.th.suml(INTS.arr(z(y)), y.k) == self.total(c, d, y.k))
            tent(f"{nm}: scalings", lambda y, z=z: z3.ForAll([q], z3.Implies(rg(y), INTS.at(z(y), q) == I.th.card(CHAR, self.sets_of(c, q)[0])), patterns=[INTS.at(z(y), q)]))
            tent(f"{nm}: sizes", lambda y, z=z: z3.ForAll([q], z3.Implies(rg(y), INTS.at(z(y), q) == I.th.ps(CHAR, self.sets_of(c, q)[1], SIZES.val(d))), patterns=[INTS.at(z(y), q)]))
        return out

    def take_loop(self, x, c, I, inds):
        out = []
        A, m = INTS.arr(inds), INTS.len(inds)
        j = z3.Int("ij")
        ps = lib.listset(I, INTS, inds)
        I.assume(falling_lemma(I, inds, ps))
        cells = x.modcells()
        pre = {}
        for nm in cells:
            if I.cell(x.raw(nm)).val == []:
                continue
            for t in (SUBS, SHAPES):
                if self.ty(x, nm) == t:
                    pre[nm] = (t, x.z(nm, t))
        for nm, (t, z0) in pre.items():
            n = t.len(z0)
            for g in skip_facts(I, ps, m, n):
                I.assume(z3.Implies(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), z3.And(0 <= INTS.at(inds, j), INTS.at(inds, j) < n))), z3.Implies(falling(A, m), g)))
            z = lambda y, nm=nm, t=t: y.z(nm, t)
            out.append((f"{nm}: positions so far exist", lambda y, n=n: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < y.k), A[j] < n - j), patterns=[A[j]])))
            out.append((f"{nm}: the last position exists", lambda y, n=n: z3.Or(y.k == 0, A[y.k - 1] < n - y.k + 1)))
            out.append((f"{nm} shrinks", lambda y, z=z, t=t, n=n: t.len(z(y)) == n - y.k))
            out.append((f"{nm} keeps the terms not taken", lambda y, z=z, t=t, n=n, z0=z0: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n - y.k), t.at(z(y), j) == t.at(z0, skd(I, A, y.k, j))), patterns=[t.at(z(y), j), skd(I, A, y.k, j)])))
            out.append((f"{nm} is untouched below the last position", lambda y, z=z, t=t, n=n, z0=z0: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n - y.k, z3.Or(y.k == 0, j < A[y.k - 1])), t.at(z(y), j) == t.at(z0, j)), patterns=[t.at(z(y), j)])))
            for n2 in cells:
                if n2 not in pre:
                    z2 = lambda y, n2=n2, t=t: y.z(n2, t)
                    out.append((f"{n2} collects from {nm}", lambda y, z2=z2, t=t: t.len(z2(y)) == y.k))
                    out.append((f"{n2} collects what {nm} loses", lambda y, z2=z2, t=t, z0=z0: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < y.k), t.at(z2(y), j) == t.at(z0, A[j])), patterns=[t.at(z2(y), j), A[j]])))
        return out

    def size_loop(self, x, c, I, T, ops, term):
        """the loop over the terms, or over the indices of one"""
        out = []
        j, p, e = z3.Ints("zj zp ze")
        if term is None:
            seen = lambda y: z3.And(0 <= j, j < y.k, 0 <= p, p < STR.len(SUBS.at(T, j)))
            x.I.ghost["term"] = None
            I.ghost["outer"] = x
            out.append(("ranks agree", lambda y: (I.ghost.__setitem__("tnum", y.k), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < y.k), SHAPE.len(self.dims(I, ops, j)) == STR.len(SUBS.at(T, j))), patterns=[SUBS.at(T, j)]))[1]))
        else:
            tn = I.ghost.get("tnum")
            if tn is None:
                return out
            seen = lambda y: (I.ghost.__setitem__("char", STR.at(term, y.k)) if z3.is_const(y.k) else None, z3.And(0 <= p, z3.Or(z3.And(0 <= j, j < tn, p < STR.len(SUBS.at(T, j))), z3.And(j == tn, p < y.k))))[1]
        at = STR.at(SUBS.at(T, j), p)
        dim = SHAPE.at(self.dims(I, ops, j), p)
        for nm in x.modcells():
            d = lambda y, nm=nm: y.z(nm, SIZES)
            out.append((f"{nm} has the indices seen", lambda y, d=d: z3.ForAll([j, p], z3.Implies(seen(y), SIZES.dom(d(y))[at]), patterns=[at])))
            out.append((f"{nm} fits the sizes seen", lambda y, d=d: z3.ForAll([j, p], z3.Implies(seen(y), z3.Or(dim == 1, dim == SIZES.val(d(y))[at])), patterns=[at])))

            def some(y, d=d):
                return z3.ForAll([e], z3.Implies(z3.And(ask(I, e), SIZES.dom(d(y))[e]), z3.Not(z3.ForAll([j, p], z3.Not(z3.And(seen(y), at == e, dim == SIZES.val(d(y))[e])), patterns=[at]))), patterns=[ask(I, e)])

            out.append((f"{nm} has a size of each index", some))
        return out


def ops_args():
    return dict(subscripts=P(ANY), operands=P(ListT(ANY)), use_blas=P(BOOL), kwargs=Build(lambda I: I.alloc("dict", {})))


class ContractPathChoice(ContractPath):
    """Up to the choice of the path: the strategy asked for is given the index sets, the output, the sizes and the
    memory limit of the contraction, and the steps planned are those of the path it returns."""

    qual = M + "contract_path#choice"
    props = ("C05", "C10", "C04", "C18")
    weight = 5
    LIM = OpaqueT("MemoryArg")
    FN = OpaqueT("PathFunction")
    params = [
        dict(ops_args(), optimize=Const(o), memory_limit=m, shapes=Const(sh))
        for o, m, sh in (("greedy", P(ANY), False), (True, P(ANY), False), (None, P(ANY), True), (False, P(ANY), True))
    ] + [dict(ops_args(), optimize=P(STRATEGY), memory_limit=P(ANY), shapes=Const(False))]

    def setup(self, c):
        self.cv = c

    def opaque_isinstance(self, I, v, names):
        if v.t == STRATEGY:
            return "PathOptimizer" in names
        raise Unsupported("isinstance of an opaque value")

    def opaque_is_none(self, I, v):
        if v.t == STRATEGY:
            return False
        raise Unsupported("comparison of an opaque value with None")

    def k__choose_memory_arg(self, I, a, k):
        c = self.cv
        v = I.bind_args(I.reg.find_function(M + "_choose_memory_arg"), list(a), k)
        I.obligation(I.lift(v["memory_limit"], ANY) == c["memory_limit"], "the memory limit is the one given")
        isub, out, ops = self.plan(c)
        T = self.T(I, isub)
        s = I.lift(v["size_list"], INTS)
        d = I.ghost.get("sizes")
        n = SUBS.len(T)
        j = z3.Int("gj")
        if d is None:
            I.obligation(z3.BoolVal(False), "the memory limit is chosen after the sizes are known")
            raise PathEnd()
        t = z3.If(j < n, SUBS.at(T, j), out)
        I.obligation(z3.And(INTS.len(s) == n + 1, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j <= n), INTS.at(s, j) == I.th.pl(STR, STR.arr(t), STR.len(t), SIZES.val(d))))), "the sizes for the memory limit are those of the operands and the output")
        r = I.freshv("memory_arg", self.LIM)
        I.ghost["limit"] = r
        return r

    def k_get_path_fn(self, I, a, k):
        o = self.cv.vals["optimize"]
        want = "auto" if o is True or o is None else o
        I.obligation(z3.BoolVal(len(a) == 1 and isinstance(a[0], str) and a[0] == want), "the strategy named is looked up")
        I.ghost["fn"] = I.freshv("path_fn", self.FN)
        return I.ghost["fn"]

    def opaque_call(self, I, f, args, kw):
        c = self.cv
        if f.t not in (self.FN, STRATEGY):
            raise Unsupported("call of an opaque value")
        isub, out, ops = self.plan(c)
        T = self.T(I, isub)
        n = SUBS.len(T)
        j, x = z3.Ints("gj gx")
        ok = len(args) == 4 and not kw or len(args) == 3 and list(kw) == ["memory_limit"]
        I.obligation(z3.BoolVal(ok), "an optimizer takes terms, output, sizes and memory limit")
        if not ok:
            raise PathEnd()
        args = list(args) + list(kw.values())
        s, o, d = I.lift(args[0], SETS), I.lift(args[1], CH), I.lift(args[2], SIZES)
        I.obligation(z3.And(SETS.len(s) == n, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), SETS.at(s, j) == chars(I, SUBS.at(T, j))))), "an optimizer is given the index sets of the terms")
        I.obligation(o == chars(I, out), "an optimizer is given the output indices")
        p = z3.Int("gp")
        at, dim = STR.at(SUBS.at(T, j), p), SHAPE.at(self.dims(I, ops, j), p)
        I.obligation(z3.ForAll([j, p], z3.Implies(z3.And(0 <= j, j < n, 0 <= p, p < STR.len(SUBS.at(T, j))), z3.And(SIZES.dom(d)[at], z3.Or(dim == 1, dim == SIZES.val(d)[at]))), patterns=[at]), "an optimizer is given the sizes of the operands")
        I.obligation(z3.BoolVal(args[3] is I.ghost.get("limit")), "an optimizer is given the memory limit")
        I.obligation(n >= 2, "an optimizer is asked for two terms or more")
        I.obligation(z3.BoolVal(f is I.ghost.get("fn") or f is c.vals["optimize"]), "the strategy asked for is used")
        I.ghost["chosen"] = I.freshv("chosen_path", PATH)
        return I.alloc("list", I.ghost["chosen"])

    def k_find_contraction(self, I, a, k):
        """the first step"""
        c = self.cv
        isub, out, ops = self.plan(c)
        n = SUBS.len(self.T(I, isub))
        I.obligation(z3.BoolVal("chosen" not in I.ghost), "the path chosen by the strategy is planned")
        pos = I.lift(a[0], INTS)
        I.obligation(z3.And(INTS.len(pos) == n, lib.listset(I, INTS, pos) == I.th.rangeset(n)), "all terms are contracted at once")
        if c.vals["optimize"] is not False:
            I.obligation(n <= 2, "a strategy decides for three terms or more")
        self.done(I)

    def done(self, I):
        self.reached = True
        raise PathEnd()

    def step_loop(self, x, c, I, path):
        ch = I.ghost.get("chosen")
        I.obligation(z3.BoolVal(ch is not None and path.eq(ch.z)), "the path chosen by the strategy is planned")
        self.done(I)

    def size_loop(self, x, c, I, T, ops, term):
        for nm in x.modcells():
            I.ghost["sizes"] = None
        out = ContractPath.size_loop(self, x, c, I, T, ops, term)
        if term is None and x.modcells():
            nm = x.modcells()[0]
            def note(y):
                I.ghost["sizes"] = y.z(nm, SIZES)
                return z3.BoolVal(True)
            out.append(("sizes", note))
        return out

    def raises(self, c):
        if "parsed" not in c.I.ghost:
            return {}
        if "char" in c.I.ghost:
            c.I.assume(ask(c.I, c.I.ghost["char"]))
        return {"ValueError": z3.Or(self.rank_bad(c), self.size_bad(c))}

    def requires(self, c):
        return []

    def ensures(self, c):
        return [("the steps are planned", z3.BoolVal(False))]


OVERRIDES = {
    ("opt_einsum.contract", "_choose_memory_arg"): choice("_choose_memory_arg"),
    ("opt_einsum.paths", "get_path_fn"): choice("get_path_fn"),
    ("opt_einsum.helpers", "find_contraction"): choice("find_contraction"),
    ("opt_einsum.parser", "parse_einsum_input"): ov("parse_einsum_input"),
    ("opt_einsum.blas", "can_blas"): ov("can_blas"),
    ("opt_einsum.parser", "find_output_shape"): ov("find_output_shape"),
    ("opt_einsum.parser", "get_shape"): ov("get_shape"),
    ("opt_einsum.contract", "PathInfo"): ov("PathInfo"),
}

ALL = [FindOutputShape(), ContractPath(), ContractPathChoice()]
