"""Sharing scopes (opt_einsum/sharing.py).

View: the stack of open scopes of every thread, a map from thread id to a non-empty list of caches.  One
function call runs in one thread (get_ident() is constant during a call); other threads act on their own
entries only between calls and while a scope is open."""
import z3

from ..spec import *
from ..ty import *

M = "opt_einsum.sharing:"
CACHE = OpaqueT("Cache")
STACK = ListT(CACHE)
STACKS = DictT(INT, STACK)


def stacks_override(I):
    if "stacks" not in I.ghost and isinstance(getattr(I, "cur_spec", None), _Sharing):
        I.ghost["stacks"] = I.alloc("dict", I.freshv("stacks", STACKS), default=lambda: I.alloc("list", [], t=STACK))
    return I.ghost.get("stacks")


def me(I):
    return I.th.fn("THREAD", z3.IntSort())[0]()


def born(I, x):
    return I.th.fn("BORN_" + CACHE.key, CACHE.sort(), z3.IntSort())[0](x)


class _Sharing(Contract):
    props = ("C13",)

    def st0(self, c):
        stacks_override(c.I)
        if "st0" not in c.g:
            c.g["st0"] = lib.content(c.I, c.I.ghost["stacks"]).z
        return c.g["st0"]

    def now(self, c):
        return lib.content(c.I, c.I.ghost["stacks"]).z

    def on(self, st, t):
        return z3.Select(STACKS.dom(st), t)

    def of(self, st, t):
        return z3.Select(STACKS.val(st), t)

    def wf(self, st):
        t = z3.Int("wt")
        return z3.ForAll([t], z3.Implies(self.on(st, t), STACK.len(self.of(st, t)) >= 1), patterns=[self.on(st, t)])

    def requires(self, c):
        return [("scopes are well formed", self.wf(self.st0(c)))]

    def others(self, I, a, b):
        t = z3.Int("ot")
        return z3.ForAll([t], z3.Implies(t != me(I), z3.And(self.on(a, t) == self.on(b, t), z3.Implies(self.on(a, t), self.of(a, t) == self.of(b, t)))), patterns=[self.on(b, t), self.of(b, t)])

    def same(self, I, a, b):
        """the scopes of this thread are the same, one by one"""
        t, k = me(I), z3.Int("sk")
        return z3.And(self.on(a, t) == self.on(b, t), z3.Implies(self.on(a, t), self.stack_eq(self.of(a, t), self.of(b, t))))

    def stack_eq(self, x, y):
        k = z3.Int("sk")
        return z3.And(STACK.len(x) == STACK.len(y), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < STACK.len(x)), STACK.at(x, k) == STACK.at(y, k)), patterns=[STACK.at(y, k)]))

    def havoc_frame(self, I, c):
        if self.changes:
            cell = I.write(I.ghost["stacks"])
            cell.val = I.freshv("stacks", STACKS)

    changes = False

    def depth(self, st, t):
        return z3.If(self.on(st, t), STACK.len(self.of(st, t)), 0)


class Currently(_Sharing):
    qual = M + "currently_sharing"
    ret = BOOL
    params = [{}]

    def ensures(self, c):
        s = self.st0(c)
        return [("on exactly while this thread has an open scope", c.res(BOOL) == self.on(s, me(c.I))), ("nothing changes", self.now(c) == s)]


class GetCache(_Sharing):
    qual = M + "get_sharing_cache"
    params = [{}]
    ret = CACHE

    def raises(self, c):
        return {"IndexError": z3.Not(self.on(self.st0(c), me(c.I)))}

    def ensures(self, c):
        s = self.st0(c)
        t = me(c.I)
        return [("a scope is open", self.on(s, t)), ("the innermost scope's cache", c.res(CACHE) == STACK.at(self.of(s, t), STACK.len(self.of(s, t)) - 1)), ("nothing changes", self.now(c) == s)]

    def run_and_check(self, I, f, vals, c, frames, reach):
        s0 = self.st0(c)
        try:
            super().run_and_check(I, f, vals, c, frames, reach)
        except PathEnd:
            I.obligation(self.now(c) == s0, "a refused look-up changes nothing")
            raise


class Add(_Sharing):
    qual = M + "_add_sharing_cache"
    params = [dict(cache=P(CACHE))]
    changes = True

    def ensures(self, c):
        I = c.I
        a, b, t = self.st0(c), self.now(c), me(c.I)
        d = self.depth(a, t)
        k = z3.Int("ak")
        return [
            ("the scope is open", z3.And(self.on(b, t), STACK.len(self.of(b, t)) == d + 1)),
            ("the new scope is innermost", STACK.at(self.of(b, t), d) == c["cache"]),
            ("outer scopes stay", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < d), STACK.at(self.of(b, t), k) == STACK.at(self.of(a, t), k)), patterns=[STACK.at(self.of(b, t), k)])),
            ("other threads are not touched", self.others(I, a, b)),
            ("scopes are well formed", self.wf(b)),
        ]


class Remove(_Sharing):
    qual = M + "_remove_sharing_cache"
    params = [{}]
    changes = True

    def requires(self, c):
        return super().requires(c) + [("a scope is open", self.on(self.st0(c), me(c.I)))]

    def ensures(self, c):
        I = c.I
        a, b, t = self.st0(c), self.now(c), me(c.I)
        d = self.depth(a, t)
        k = z3.Int("ak")
        return [
            ("the innermost scope is closed", z3.And(self.on(b, t) == (d > 1), z3.Implies(d > 1, STACK.len(self.of(b, t)) == d - 1))),
            ("outer scopes stay", z3.Implies(d > 1, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < d - 1), STACK.at(self.of(b, t), k) == STACK.at(self.of(a, t), k)), patterns=[STACK.at(self.of(b, t), k)]))),
            ("other threads are not touched", self.others(I, a, b)),
            ("scopes are well formed", self.wf(b)),
        ]


class Scope(_Sharing):
    """with shared_intermediates(cache): body.  The body may open and close scopes of its own and may raise;
    other threads may do anything to their own entries meanwhile."""

    qual = M + "shared_intermediates"
    params = [dict(cache=Const(None)), dict(cache=P(CACHE))]
    changes = True

    def requires(self, c):
        t, k = z3.Ints("bt bk")
        s = self.st0(c)
        old = [("existing caches existed before", z3.ForAll([t, k], born(c.I, STACK.at(self.of(s, t), k)) <= 0, patterns=[STACK.at(self.of(s, t), k)]))]
        return super().requires(c) + old

    def setup(self, c):
        self.cv = c

    def on_yield(self, I, v):
        c = self.cv
        a, b, t = self.st0(c), self.now(c), me(I)
        d = self.depth(a, t)
        given = c.old["cache"]
        cache = I.lift(v, CACHE)
        k = z3.Int("yk")
        I.obligation(z3.And(self.on(b, t), STACK.len(self.of(b, t)) == d + 1, STACK.at(self.of(b, t), d) == cache), "inside: exactly one more scope, whose cache is the one yielded")
        if given is not None:
            I.obligation(cache == given.z, "inside: the given cache is used")
        else:
            I.obligation(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < d), STACK.at(self.of(a, t), k) != cache)), "inside: a fresh cache, none of the outer ones")
        I.obligation(self.others(I, a, b), "inside: other threads are not touched")
        # the body runs: this thread's scopes are as before when it ends (by this very contract), others arbitrary
        cell = I.write(I.ghost["stacks"])
        cell.val = I.freshv("stacks", STACKS)
        n = self.now(c)
        I.assume(self.wf(n))
        I.assume(z3.And(self.on(n, t), self.stack_eq(self.of(b, t), self.of(n, t))))
        c.g["mid"] = n
        c.g["yields"] = c.g.get("yields", 0) + 1
        I.obligation(z3.BoolVal(c.g["yields"] == 1), "the body runs once")
        if I.choose(2) == 1:
            c.g["raised"] = True
            raise PyExc("BodyError", "raised inside the scope")
        return None

    def after(self, I, c):
        a, n, b = self.st0(c), c.g.get("mid"), self.now(c)
        if n is None:
            I.obligation(z3.BoolVal(False), "the body runs")
            return
        I.obligation(self.same(I, a, b), "after: exactly the surrounding scope of this thread")
        I.obligation(self.others(I, n, b), "after: scopes of other threads are not ended")
        I.obligation(self.wf(b), "after: scopes are well formed")

    def run_and_check(self, I, f, vals, c, frames, reach):
        try:
            I.run_func(f, vals)
        except PyExc as e:
            I.obligation(z3.BoolVal(e.name == "BodyError"), f"no unexpected {e.name}")
            self.after(I, c)
            raise PathEnd()
        reach[0] += 1
        I.obligation(z3.BoolVal(not c.g.get("raised")), "the body's exception is not swallowed")
        self.after(I, c)


OVERRIDES = {("opt_einsum.sharing", "_SHARING_STACK"): stacks_override}
ALL = [Currently(), GetCache(), Add(), Remove(), Scope()]
