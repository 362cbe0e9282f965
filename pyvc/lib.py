"""Semantics (assumed contracts) of the Python built-ins and library functions the
verified code uses.  Everything here is part of the trusted base."""
import ast

import z3

from .engine import *
from .engine import UNDEF
from .ty import *
from .ty import _default

MUTATORS = {"add", "discard", "remove", "append", "update", "pop", "extend", "insert", "difference_update"}
TRUE = z3.BoolVal(True)


class Star:
    def __init__(self, v):
        self.v = v


class GenExp:
    def __init__(self, node, env, I):
        self.node, self.env = node, env


class GenFunc:
    def __init__(self, f, vals, I):
        self.f, self.vals = f, vals


def isref(I, v, *kinds):
    return isinstance(v, Ref) and I.cell(v).kind in kinds


def content(I, v):
    """container content: tuple (concrete), V, dict or frozenset"""
    if isinstance(v, Ref):
        c = I.cell(v)
        if isinstance(c.val, V):
            return c.val
        if c.kind in ("list", "deque"):
            return tuple(c.val)
        if c.kind == "set":
            return frozenset(c.val) if not isinstance(c.val, frozenset) else c.val
        return c.val
    return v


def zint(I, v):
    v = I.unopt(v)
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, V) and v.t in (INT, BOOL):
        return I.lift(v, INT)
    if isinstance(v, V) and isinstance(v.t, OpaqueT):
        raise Unsupported("opaque as int")
    if v is None or isinstance(v, (str, tuple)):
        raise PyExc("TypeError", "int expected")
    raise Unsupported(f"int of {v!r}")


def mkint(z):
    z = z3.simplify(z)
    if z3.is_int_value(z):
        return z.as_long()
    return V(INT, z)


def lenof(I, v):
    v = I.unopt(v)
    v = content(I, v)
    if isinstance(v, (tuple, str, frozenset, dict)):
        return len(v)
    if isinstance(v, V):
        t = v.t
        if isinstance(t, ListT):
            return mkint(t.len(v.z))
        if t == CHAR:
            return 1
        if isinstance(t, TupT):
            return len(t.els)
        if isinstance(t, SetT):
            return V(INT, I.th.card(t.el, v.z))
        if isinstance(t, DictT):
            return V(INT, I.th.card(t.k, t.dom(v.z)))
        if isinstance(t, OpaqueT) and hasattr(I.reg, "opaque_len"):
            return I.reg.opaque_len(I, v)
    if v is None or isinstance(v, int):
        raise PyExc("TypeError", "len")
    if isinstance(v, It):
        raise PyExc("TypeError", "len of iterator")
    raise Unsupported(f"len of {v!r}")


# ------------------------------------------------------------------ iteration
def iterate(I, v):
    v = I.unopt(v)
    if isinstance(v, It):
        return v
    if isinstance(v, GenExp):
        return iterate(I, gen_to_list(I, v))
    if isinstance(v, GenFunc):
        raise Unsupported("iteration over a generator function")
    v = content(I, v)
    if isinstance(v, (tuple, str)):
        return It("conc", items=list(v))
    if isinstance(v, frozenset):
        if len(v) <= 1:
            return It("conc", items=list(v))
        s = I.lift(v, SetT(I.join_types([I.typeof(x) for x in v])))
        t = SetT(I.join_types([I.typeof(x) for x in v]))
        return It("set", s=s, el=t.el, fn=lambda x: I.elem(V(t.el, x)))
    if isinstance(v, dict):
        return It("conc", items=list(v))
    if isinstance(v, V):
        t = v.t
        if isinstance(t, ListT):
            n = z3.simplify(t.len(v.z))
            if z3.is_int_value(n) and n.as_long() <= 8:
                return It("conc", items=[I.elem(V(t.el, t.at(v.z, z3.IntVal(k)))) for k in range(n.as_long())])
            return It("idx", n=t.len(v.z), fn=lambda k: I.elem(V(t.el, t.at(v.z, k))), src=v)
        if t == CHAR:
            return It("conc", items=[v])
        if isinstance(t, TupT):
            return It("conc", items=list(I.native_tuple(v)))
        if isinstance(t, SetT):
            return It("set", s=v.z, el=t.el, fn=lambda x: I.elem(V(t.el, x)))
        if isinstance(t, DictT):
            return It("set", s=t.dom(v.z), el=t.k, fn=lambda x: I.elem(V(t.k, x)))
    if v is None or isinstance(v, (int, float)):
        raise PyExc("TypeError", "not iterable")
    raise Unsupported(f"iterate {v!r}")


def it_map(it, f):
    if it.kind == "conc":
        return It("conc", items=[f(x) for x in it.items])
    fn = it.fn
    r = It(it.kind, **{k: v for k, v in it.__dict__.items() if k not in ("kind", "fn", "src", "range", "rev")})
    r.fn = lambda x: f(fn(x))
    if getattr(it, "src", None) is not None:
        r.over = it.src
    return r


def to_idx(I, it):
    """enumerate any iterable as (n, fn)"""
    if it.kind == "conc":
        raise Unsupported("conc to idx")
    if it.kind == "idx":
        return it.n, it.fn
    if it.kind == "set":
        L = enum_set(I, it.s, it.el)
        t = ListT(it.el)
        return t.len(L.z), (lambda k: it.fn(t.at(L.z, k)))
    raise Unsupported("enumerate " + it.kind)


def enum_set(I, s, el):
    """an arbitrary duplicate-free enumeration of a finite set"""
    t = ListT(el)
    L = I.freshv("enum", t)
    I.cnt += 1
    ix = z3.Function(f"ix!{I.cnt}", el.sort(), z3.IntSort())
    k = z3.Int("k")
    x = z3.Const("x", el.sort())
    a = t.at(L.z, k)
    I.assume(t.len(L.z) == I.th.card(el, s))
    I.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < t.len(L.z)), z3.And(z3.IsMember(a, s), ix(a) == k)), patterns=[a]))
    I.assume(z3.ForAll([x], z3.Implies(z3.IsMember(x, s), z3.And(0 <= ix(x), ix(x) < t.len(L.z), t.at(L.z, ix(x)) == x)), patterns=[z3.Select(s, x)]))
    if el == CHAR:
        e = listset(I, t, L.z)
        I.assume(z3.ForAll([x], e[x] == z3.Select(s, x), patterns=[e[x]]))
        n1 = I.th.cnt(t, t.arr(L.z), t.len(L.z), x)
        I.assume(z3.ForAll([x], n1 == z3.If(z3.Select(s, x), 1, 0), patterns=[n1]))
        if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            I.assume(z3.ForAll([x], e[x] == z3.Select(s, x), patterns=[z3.Select(s, x)]))
    return L


def to_list(I, v):
    """list content: tuple (concrete) or V(ListT)"""
    it = iterate(I, v)
    if it.kind == "conc":
        return tuple(it.items)
    if it.kind == "idx" and getattr(it, "src", None) is not None:
        return it.src
    if it.kind == "set":
        L = enum_set(I, it.s, it.el)
        probe = it.fn(z3.Const("probe", it.el.sort()))
        if isinstance(probe, V) and probe.z.eq(z3.Const("probe", it.el.sort())):
            return L
        t = ListT(it.el)
        it = It("idx", n=t.len(L.z), fn=lambda k, fn=it.fn: fn(t.at(L.z, k)))
    r = build_list(I, it)
    rg = getattr(it, "range", None)
    if rg is not None:
        x = z3.Int("rgx")
        e = listset(I, r.t, r.z)
        I.assume(z3.ForAll([x], e[x] == z3.And(rg[0] <= x, x < rg[1]), patterns=[e[x]]))
    return r


def build_list(I, it, label="lst"):
    I.cnt += 1
    k = z3.Int(f"bk!{I.cnt}")
    g = z3.And(0 <= k, k < it.n)
    v = I.under_binder([k], g, lambda: it.fn(k))
    v = I.to_sym(content_of_value(I, v))
    t = STR if v.t == CHAR and False else ListT(v.t)
    o = getattr(it, "over", None)
    if o is not None and o.t == t and v.z.eq(t.at(o.z, k)) and it.n.eq(t.len(o.z)):
        return o  # element by element the same list
    L = I.fresh(label, t)
    I.assume(t.len(L) == z3.If(it.n >= 0, it.n, 0))
    I.assume(z3.ForAll([k], z3.Implies(g, t.at(L, k) == v.z), patterns=[t.at(L, k)]))
    o = getattr(it, "over", None)
    if o is not None:
        I.assume(z3.ForAll([k], z3.Implies(g, t.at(L, k) == v.z), patterns=[o.t.at(o.z, k)]))
    for f in I.wf_el_list(t, L):
        I.assume(f)
    return V(t, L)


def content_of_value(I, v):
    if isinstance(v, Ref):
        c = content(I, v)
        if isinstance(c, (tuple, V)):
            return c
        return I.deref(v)
    return v


def to_tuple(I, v):
    x = to_list(I, v)
    return x


# ------------------------------------------------------------------ comprehensions
class _Scope:
    def __init__(self, I, env):
        self.I, self.env = I, env

    def __enter__(self):
        self.save = self.I.env
        e = Env(self.env, None)
        self.I.env = e
        return e

    def __exit__(self, *a):
        self.I.env = self.save


def assign_local(I, e, target, v):
    if isinstance(target, ast.Name):
        e.vars[target.id] = v
    elif isinstance(target, (ast.Tuple, ast.List)):
        for t, x in zip(target.elts, I.unpack(v, len(target.elts), target.elts)):
            assign_local(I, e, t, x)
    else:
        raise Unsupported("comprehension target")


def gen_to_list(I, g):
    save = I.env
    I.env = g.env
    try:
        r = comp(I, g.node, "list")
    finally:
        I.env = save
    return r


def comprehension(I, n, kind):
    v = comp(I, n, kind)
    if kind == "list":
        return I.alloc("list", list(v) if isinstance(v, tuple) else v)
    return I.alloc("set", v)


def comp(I, n, kind, elt=None):
    """list: tuple or V(ListT);  set: V(SetT) or frozenset"""
    elt = elt or n.elt
    gens = n.generators
    with _Scope(I, I.env) as e:
        it = iterate(I, I.ev(gens[0].iter))
        if it.kind == "conc" and (kind == "list" or len(gens) == 1 or True):
            out = []
            ok = True

            def rec(d, it):
                if it.kind != "conc":
                    raise _NotConc()
                for x in it.items:
                    assign_local(I, e, gens[d].target, x)
                    if all(I.cond(c) for c in gens[d].ifs):
                        if d + 1 < len(gens):
                            rec(d + 1, iterate(I, I.ev(gens[d + 1].iter)))
                        else:
                            out.append(I.ev(elt))

            try:
                rec(0, it)
            except _NotConc:
                raise Unsupported("mixed comprehension")
            if kind == "list":
                return tuple(out)
            return mkset(I, out)
        if kind == "list":
            if len(gens) != 1:
                raise Unsupported("nested list comprehension")
            return comp_list(I, e, gens[0], elt, it)
        return comp_set(I, e, gens, elt, it)


class _NotConc(Exception):
    pass


def mkset(I, out):
    if not out:
        return frozenset()
    out = [content_of_value(I, x) for x in out]
    t = SetT(I.join_types([I.typeof(x) for x in out]))
    z = t.empty()
    for x in out:
        z = z3.SetAdd(z, I.lift(x, t.el))
    return V(t, z)


def comp_list(I, e, gen, elt, it):
    if it.kind == "set":
        n, fn = to_idx(I, it)
        it = It("idx", n=n, fn=fn)
    if it.kind != "idx":
        raise Unsupported("comprehension over " + it.kind)
    if not gen.ifs:
        def fn(k):
            assign_local(I, e, gen.target, it.fn(k))
            return I.ev(elt)

        try:
            return build_list(I, It("idx", n=it.n, fn=fn, over=getattr(it, "src", None) or getattr(it, "over", None)))
        except Impure:
            return effect_comp(I, e, gen, elt, it)
    # filtered
    I.cnt += 1
    k = z3.Int(f"fk!{I.cnt}")
    g = z3.And(0 <= k, k < it.n)

    def cnd():
        assign_local(I, e, gen.target, it.fn(k))
        for c in gen.ifs:
            if not I.cond(c):
                return False
        return True

    c = I.under_binder([k], g, cnd)
    cz = c.z if isinstance(c, V) else z3.BoolVal(bool(c))
    g2 = z3.And(g, cz)

    def val():
        assign_local(I, e, gen.target, it.fn(k))
        return I.ev(elt)

    v = I.to_sym(content_of_value(I, I.under_binder([k], g2, val)))
    t = ListT(v.t)
    L = I.freshv("flt", t)
    I.cnt += 1
    sel = z3.Function(f"sel!{I.cnt}", z3.IntSort(), z3.IntSort())
    inv = z3.Function(f"inv!{I.cnt}", z3.IntSort(), z3.IntSort())
    j, j2 = z3.Ints("j j2")
    at = lambda q: t.at(L.z, q)
    sub = lambda z, q: z3.substitute(z, (k, q))
    rj = z3.And(0 <= j, j < t.len(L.z))
    I.assume(z3.ForAll([j], z3.Implies(rj, z3.And(sub(g2, sel(j)), at(j) == sub(v.z, sel(j)), inv(sel(j)) == j)), patterns=[at(j)]))
    I.assume(z3.ForAll([j], z3.Implies(rj, z3.And(sub(g2, sel(j)), at(j) == sub(v.z, sel(j)), inv(sel(j)) == j)), patterns=[sel(j)]))
    I.assume(z3.ForAll([k], z3.Implies(g2, z3.And(0 <= inv(k), inv(k) < t.len(L.z), sel(inv(k)) == k)), patterns=[inv(k)]))
    src = getattr(it, "src", None) or getattr(it, "over", None)
    if src is not None and src.t.el == CHAR:
        I.assume(z3.ForAll([k], z3.Implies(g2, z3.And(0 <= inv(k), inv(k) < t.len(L.z), sel(inv(k)) == k)), patterns=[src.t.at(src.z, k)]))
    I.assume(z3.ForAll([j, j2], z3.Implies(z3.And(0 <= j, j < j2, j2 < t.len(L.z)), sel(j) < sel(j2)), patterns=[z3.MultiPattern(sel(j), sel(j2))]))
    I.assume(z3.And(t.len(L.z) <= z3.If(it.n >= 0, it.n, 0)))
    I.ghost.setdefault("filters", []).append((L.z, sel, inv, g2, k))
    return L


def effect_comp(I, e, gen, elt, it):
    """A comprehension whose element expression has side effects: run as a loop that
    appends to a fresh list (cut by invariants like any other loop)."""
    n_loc = I.alloc("list", [], t=None)
    I.cell(n_loc).extra.pop("t", None)
    out = n_loc
    e.vars["__out__"] = out

    def body():
        x = I.ev(elt)
        list_append(I, out, x)

    I.for_loop(elt, it, lambda x: assign_local(I, e, gen.target, x), body)
    return content(I, out)


def bound_of(I, it):
    """(bound const, guard)"""
    I.cnt += 1
    if it.kind == "idx":
        k = z3.Int(f"ck!{I.cnt}")
        return k, z3.And(0 <= k, k < it.n)
    if it.kind == "set":
        k = z3.Const(f"cx!{I.cnt}", it.el.sort())
        return k, z3.IsMember(k, it.s)
    raise Unsupported("comprehension over " + it.kind)


def comp_bind(I, e, gens, it, thunk):
    """evaluate thunk under all generators; returns bound consts, guard, value"""
    bs, g = [], TRUE
    binds = []

    def scoped(f):
        def run():
            for b in binds:
                b()
            return f()

        return run

    for d, gen in enumerate(gens):
        if d > 0:

            def getit(gen=gen):
                x = iterate(I, I.ev(gen.iter))
                if x.kind == "conc":
                    s = mkset(I, x.items)
                    if isinstance(s, frozenset):
                        raise Unsupported("empty inner iteration")
                    return s
                if x.kind == "set":
                    return V(SetT(x.el), x.s)
                if x.kind == "idx" and getattr(x, "src", None) is not None:
                    return x.src
                raise Unsupported("inner iteration")

            it = iterate(I, I.under_binder(bs, g, scoped(getit)))
        b, gg = bound_of(I, it)
        bs.append(b)
        g = z3.And(g, gg)
        binds.append(lambda gen=gen, it=it, b=b: assign_local(I, e, gen.target, it.fn(b)))
        if gen.ifs:

            def cnd(gen=gen):
                for c in gen.ifs:
                    if not I.cond(c):
                        return False
                return True

            c = I.under_binder(bs, g, scoped(cnd))
            g = z3.And(g, c.z if isinstance(c, V) else z3.BoolVal(bool(c)))
    g = z3.simplify(g)
    v = I.under_binder(bs, g, scoped(thunk))
    return bs, g, v


def comp_set(I, e, gens, elt, it):
    bs, g, v = comp_bind(I, e, gens, it, lambda: content_of_value(I, I.ev(elt)))
    v = I.to_sym(v)
    return V(SetT(v.t), image_set(I, bs, g, v))


def image_set(I, bs, g, v):
    t = SetT(v.t)
    R = I.fresh("sc", t)
    x = z3.Const("sx", v.t.sort())
    if len(bs) == 1 and v.z.eq(bs[0]):
        I.assume(z3.ForAll([x], z3.Select(R, x) == z3.substitute(g, (bs[0], x)), patterns=[z3.Select(R, x)]))
        return R
    # forward
    if any(occurs(b, v.z) for b in bs):
        I.assume(z3.ForAll(bs, z3.Implies(g, z3.Select(R, v.z))))
    else:
        I.assume(z3.ForAll(bs, z3.Implies(g, z3.Select(R, v.z))))
    ws = []
    for b in bs:
        I.cnt += 1
        ws.append((b, z3.Function(f"w!{I.cnt}", v.t.sort(), b.sort())(x)))
    I.assume(z3.ForAll([x], z3.Implies(z3.Select(R, x), z3.And(z3.substitute(g, *ws), z3.substitute(v.z, *ws) == x)), patterns=[z3.Select(R, x)]))
    return R


def dict_comprehension(I, n):
    gens = n.generators
    with _Scope(I, I.env) as e:
        it = iterate(I, I.ev(gens[0].iter))
        if it.kind == "conc":
            d = {}
            r = I.alloc("dict", d)

            def rec(dd, it):
                if it.kind != "conc":
                    raise Unsupported("mixed comprehension")
                for x in it.items:
                    assign_local(I, e, gens[dd].target, x)
                    if all(I.cond(c) for c in gens[dd].ifs):
                        if dd + 1 < len(gens):
                            rec(dd + 1, iterate(I, I.ev(gens[dd + 1].iter)))
                        else:
                            set_item(I, r, I.ev(n.key), I.ev(n.value))

            rec(0, it)
            return r
        bs, g, kv = comp_bind(I, e, gens, it, lambda: (content_of_value(I, I.ev(n.key)), content_of_value(I, I.ev(n.value))))
        kv = I.native_tuple(kv)
        k, v = I.to_sym(kv[0]), I.to_sym(kv[1])
        t = DictT(k.t, v.t)
        D = I.fresh("dc", t)
        x = z3.Const("dx", k.t.sort())
        if len(bs) == 1 and k.z.eq(bs[0]):
            I.assume(z3.ForAll([x], z3.Select(t.dom(D), x) == z3.substitute(g, (bs[0], x)), patterns=[z3.Select(t.dom(D), x)]))
            I.assume(z3.ForAll([x], z3.Implies(z3.substitute(g, (bs[0], x)), z3.Select(t.val(D), x) == z3.substitute(v.z, (bs[0], x))), patterns=[z3.Select(t.val(D), x)]))
        else:
            ws = []
            for b in bs:
                I.cnt += 1
                ws.append((b, z3.Function(f"w!{I.cnt}", k.t.sort(), b.sort())(x)))
            I.assume(z3.ForAll(bs, z3.Implies(g, z3.Select(t.dom(D), k.z))))
            if len(bs) == 1 and k.z.decl().kind() == z3.Z3_OP_SELECT and k.z.arg(1).eq(bs[0]) and bs[0].sort() == z3.IntSort() and k.z.arg(0).sort().domain() == z3.IntSort():
                # keys are the elements of a list
                for n_ in range_bound(g, bs[0]):
                    E = listset(I, ListT(k.t), ListT(k.t).mk(n_, k.z.arg(0)))
                    I.assume(z3.ForAll([x], z3.Select(t.dom(D), x) == z3.Select(E, x), patterns=[z3.Select(t.dom(D), x)]))
            I.assume(z3.ForAll([x], z3.Implies(z3.Select(t.dom(D), x), z3.And(z3.substitute(g, *ws), z3.substitute(k.z, *ws) == x, z3.Select(t.val(D), x) == z3.substitute(v.z, *ws))), patterns=[z3.Select(t.dom(D), x)]))
        return I.alloc("dict", V(t, D))


def range_bound(g, b):
    """[n] when g is literally 0 <= b < n, else []"""
    cs = []

    def fl(f):
        if z3.is_and(f):
            for c in f.children():
                fl(c)
        elif not z3.is_true(f):
            cs.append(f)

    fl(g)
    lo = [c for c in cs if z3.is_ge(c) and c.arg(0).eq(b) and z3.is_int_value(c.arg(1)) and c.arg(1).as_long() == 0 or z3.is_le(c) and c.arg(1).eq(b) and z3.is_int_value(c.arg(0)) and c.arg(0).as_long() == 0]
    hi = [c.arg(1) for c in cs if z3.is_lt(c) and c.arg(0).eq(b) and not occurs(b, c.arg(1))]
    hi += [c.arg(0).arg(0) for c in cs if z3.is_not(c) and z3.is_le(c.arg(0)) and c.arg(0).arg(1).eq(b) and not occurs(b, c.arg(0).arg(0))]
    if len(cs) == 2 and len(lo) == 1 and len(hi) == 1:
        return hi
    return []


# ------------------------------------------------------------------ operators
def contains(I, x, s):
    s = I.unopt(s)
    if isinstance(s, (It, GenExp)):
        s = to_list(I, s)
    s = content(I, s)
    x0 = x
    x = content_of_value(I, x)
    if isinstance(s, str):
        if isinstance(x, str):
            return x in s
        x = I.unopt(x)
        if isinstance(x, V) and x.t == CHAR:
            return z3.Or(*[x.z == ord(c) for c in s]) if s else False
        if isinstance(x, V) and x.t == STR and len(s) == 0:
            return STR.len(x.z) == 0
        s = V(STR, I.lift(s, STR))
    if isinstance(s, (tuple, frozenset, dict)):
        ks = list(s)
        rs = []
        for k in ks:
            r = I.eq(x, k)
            if r is True:
                return True
            if r is not False:
                rs.append(r)
        return z3.Or(*rs) if rs else False
    if isinstance(s, V):
        t = s.t
        if isinstance(t, SetT):
            y = coerce_key(I, x, t.el)
            return False if y is None else z3.Select(s.z, y)
        if isinstance(t, DictT):
            y = coerce_key(I, x, t.k)
            return False if y is None else z3.Select(t.dom(s.z), y)
        if isinstance(t, ListT):
            if t == STR:
                if isinstance(x, str) and len(x) != 1 or isinstance(x, V) and x.t == STR:
                    return substr(I, x, s)
            y = coerce_key(I, x, t.el)
            if y is None:
                return False
            # membership via occurrence count keeps it quantifier free
            return I.th.cnt(t, t.arr(s.z), t.len(s.z), y) >= 1
        if t == CHAR:
            return I.eq(x, s)
        if isinstance(t, TupT):
            return contains(I, x, I.native_tuple(s))
        if isinstance(t, OpaqueT):
            return I.reg.opaque_contains(I, x0, s)
    raise Unsupported(f"in {s!r}")


def substr(I, x, s):
    if isinstance(x, str):
        if x == "":
            return True
        k = z3.Int("ss!k")
        m = len(x)
        return z3.Exists([k], z3.And(0 <= k, k + m <= STR.len(s.z), *[STR.at(s.z, k + i) == ord(c) for i, c in enumerate(x)]))
    raise Unsupported("symbolic substring test")


def coerce_key(I, x, t):
    """lift x to t, or None when the types make equality impossible"""
    x = I.unopt(x) if not isinstance(t, OptT) else x
    if x is None and not isinstance(t, OptT):
        return None
    if isinstance(t, SetT):
        if isinstance(x, frozenset) and not x:
            return t.empty()
    try:
        return I.lift(x, t)
    except Unsupported:
        if isinstance(x, V) and x.t == STR and t == CHAR:
            # a str of symbolic length compared with single characters
            if I.decide(STR.len(x.z) == 1):
                return STR.at(x.z, z3.IntVal(0))
            return None
        raise


NUM = ("Int", "Bool", "XInt")


def setlike(I, v):
    v = content(I, v)
    return isinstance(v, frozenset) or isinstance(v, V) and isinstance(v.t, SetT)


def binop(I, op, a, b):
    a, b = I.unopt(a), I.unopt(b)
    for q in (a, b):
        if isinstance(q, V) and isinstance(q.t, OpaqueT) and hasattr(I.cur_spec, "opaque_binop"):
            return I.cur_spec.opaque_binop(I, op, a, b)
    if isinstance(a, It) or isinstance(b, It):
        if isinstance(op, (ast.Sub, ast.BitOr, ast.BitAnd)):
            a = toset(I, a) if isinstance(a, It) else a
            b = toset(I, b) if isinstance(b, It) else b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        f = {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b, ast.BitAnd: lambda: a & b, ast.BitOr: lambda: a | b, ast.BitXor: lambda: a ^ b, ast.LShift: lambda: a << b, ast.RShift: lambda: a >> b, ast.Pow: lambda: a**b, ast.Div: lambda: a / b}
        return f[type(op)]()
    if setlike(I, a) and setlike(I, b):
        return set_op(I, op, a, b)
    if isinstance(op, ast.Add):
        sa, sb = seqlike(I, a), seqlike(I, b)
        if sa and sb:
            r = concat(I, content(I, a), content(I, b))
            if isref(I, a, "list", "deque"):
                return I.alloc("list", list(r) if isinstance(r, tuple) else r)
            return r
        if sa != sb:
            raise PyExc("TypeError", "+")
    if isinstance(op, ast.Mult):
        if seqlike(I, a) or seqlike(I, b):
            if seqlike(I, b):
                a, b = b, a
            return repeat(I, a, b)
    if isinstance(op, ast.Mod) and isinstance(a, str):
        return I.freshv("fmt", STR)
    return arith(I, op, a, b)


def arith(I, op, a, b):
    if a is None or b is None or isinstance(a, (str, tuple)) or isinstance(b, (str, tuple)):
        raise PyExc("TypeError", "arithmetic")
    ta, tb = I.typeof(a), I.typeof(b)
    for t in (ta, tb):
        if t not in (INT, BOOL, XINT, REAL):
            if t in (STR, CHAR) or isinstance(t, (ListT, SetT, DictT)):
                raise PyExc("TypeError", "arithmetic")
            raise Unsupported(f"arithmetic on {t}")
    if REAL in (ta, tb):
        x, y = I.as_real(a), I.as_real(b)
        if isinstance(op, ast.Add):
            return V(REAL, x + y)
        if isinstance(op, ast.Sub):
            return V(REAL, x - y)
        if isinstance(op, ast.Mult):
            return V(REAL, x * y)
        if isinstance(op, ast.Div):
            if I.decide(y == 0):
                raise PyExc("ZeroDivisionError")
            return V(REAL, x / y)
        raise Unsupported("real op")
    if XINT in (ta, tb):
        S = XINT.sort()
        x, y = I.lift(a, XINT), I.lift(b, XINT)
        xi, yi, xv, yv = S.xinf(x), S.xinf(y), S.xval(x), S.xval(y)
        if isinstance(op, ast.Add):
            return V(XINT, xmk(z3.Or(xi, yi), z3.If(z3.Or(xi, yi), 0, xv + yv)))
        if isinstance(op, ast.Mult):
            if not I.decide(z3.And(z3.Or(xi, xv > 0), z3.Or(yi, yv > 0))):
                if I.decide(z3.Or(xi, yi)):
                    return I.freshv("xprod", XINT)  # sign/NaN cases: unconstrained
                return V(XINT, xmk(z3.BoolVal(False), xv * yv))
            return V(XINT, xmk(z3.Or(xi, yi), z3.If(z3.Or(xi, yi), 0, xv * yv)))
        if isinstance(op, ast.Sub):
            if I.decide(z3.Or(xi, yi)):
                return I.freshv("xsub", XINT)
            return V(XINT, xmk(z3.BoolVal(False), xv - yv))
        raise Unsupported("inf arithmetic")
    x, y = I.lift(a, INT), I.lift(b, INT)
    if isinstance(op, ast.Add):
        return mkint(x + y)
    if isinstance(op, ast.Sub):
        return mkint(x - y)
    if isinstance(op, ast.Mult):
        return mkint(x * y)
    if isinstance(op, ast.FloorDiv) or isinstance(op, ast.Mod):
        if I.decide(y == 0):
            raise PyExc("ZeroDivisionError")
        if not I.provable(y > 0):
            raise Unsupported("division by a negative")
        return mkint(x / y) if isinstance(op, ast.FloorDiv) else mkint(x % y)
    if isinstance(op, ast.LShift):
        return V(INT, I.reg.shl(I, x, y))
    if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
        if not I.provable(z3.And(x >= 0, y >= 0)):
            raise Unsupported("bitwise operator on possibly negative integers")
        return V(INT, I.th.bitfn({ast.BitAnd: "AND", ast.BitOr: "OR", ast.BitXor: "XOR"}[type(op)])(x, y))
    if isinstance(op, ast.Div):
        if I.decide(y == 0):
            raise PyExc("ZeroDivisionError")
        return V(REAL, z3.ToReal(x) / z3.ToReal(y))
    raise Unsupported(f"operator {type(op).__name__}")


def seqlike(I, v):
    if isref(I, v, "list", "deque"):
        return True
    v = content(I, v)
    return isinstance(v, (tuple, str)) or isinstance(v, V) and isinstance(v.t, (ListT, TupT)) or isinstance(v, V) and v.t == CHAR


def seqtype(I, a):
    if isinstance(a, str):
        return STR
    if isinstance(a, tuple):
        return ListT(I.join_types([I.typeof(content_of_value(I, x)) for x in a])) if a else None
    if a.t == CHAR:
        return STR
    if isinstance(a.t, TupT):
        return ListT(I.join_types(list(a.t.els)))
    return a.t


def concat(I, a, b):
    if isinstance(a, V) and isinstance(a.t, TupT):
        a = I.native_tuple(a)
    if isinstance(b, V) and isinstance(b.t, TupT):
        b = I.native_tuple(b)
    if isinstance(a, str) and isinstance(b, str):
        return a + b
    if isinstance(a, tuple) and isinstance(b, tuple):
        return a + b
    if isinstance(a, (tuple, str)) and not a:
        return b
    if isinstance(b, (tuple, str)) and not b:
        return a
    ta, tb = seqtype(I, a), seqtype(I, b)
    if (ta == STR) != (tb == STR) and (isinstance(a, str) or isinstance(b, str)):
        raise PyExc("TypeError", "concat")
    t = ta if ta == tb else ListT(I.join(ta.el, tb.el))
    if ta == STR and tb == STR:
        t = STR
    za, zb = lift_seq(I, a, t), lift_seq(I, b, t)
    nb = z3.simplify(t.len(zb))
    if z3.is_int_value(nb) and nb.as_long() <= 8:
        arr = t.arr(za)
        for i in range(nb.as_long()):
            arr = z3.Store(arr, t.len(za) + i, t.at(zb, z3.IntVal(i)))
        return V(t, t.mk(t.len(za) + nb, arr))
    L = I.fresh("cat", t)
    I.ghost.setdefault("cats", []).append((L,))
    k = z3.Int("cat!k")
    I.assume(t.len(L) == t.len(za) + t.len(zb))
    I.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < t.len(za)), t.at(L, k) == t.at(za, k)), patterns=[t.at(L, k)]))
    I.assume(z3.ForAll([k], z3.Implies(z3.And(t.len(za) <= k, k < t.len(L)), t.at(L, k) == t.at(zb, k - t.len(za))), patterns=[t.at(L, k)]))
    I.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < t.len(za)), t.at(L, k) == t.at(za, k)), patterns=[t.at(za, k)]))
    I.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < t.len(zb)), t.at(L, t.len(za) + k) == t.at(zb, k)), patterns=[t.at(zb, k)]))
    # occurrence counts add up
    y = z3.Const("cat!y", t.el.sort())
    c = lambda Z: I.th.cnt(t, t.arr(Z), t.len(Z), y)
    I.assume(z3.ForAll([y], c(L) == c(za) + c(zb), patterns=[c(L)]))
    I.assume(z3.ForAll([y], c(L) == c(za) + c(zb), patterns=[c(za)]))
    I.assume(z3.ForAll([y], c(L) == c(za) + c(zb), patterns=[c(zb)]))
    return V(t, L)


def lift_seq(I, a, t):
    if isinstance(a, tuple):
        return clist(t, [I.lift(content_of_value(I, x), t.el) for x in a])
    return I.lift(a, t)


def repeat(I, a, n):
    c = content(I, a)
    if isinstance(n, V) and n.t == INT or isinstance(n, V) and n.t == BOOL:
        if isinstance(c, tuple) and len(c) == 1:
            t = ListT(I.typeof(c[0]))
            nn = I.lift(n, INT)
            z = t.mk(z3.If(nn >= 0, nn, 0), z3.K(z3.IntSort(), I.lift(c[0], t.el)))
            return I.alloc("list", V(t, z)) if isinstance(a, Ref) else V(t, z)
        raise Unsupported("symbolic repetition")
    if isinstance(n, int) and isinstance(c, (tuple, str)):
        return I.alloc("list", list(c) * n) if isinstance(a, Ref) else c * n
    raise Unsupported("repetition")


def set_pair(I, a, b):
    ca, cb = content(I, a), content(I, b)
    if isinstance(ca, V) and isinstance(ca.t, SetT):
        t = ca.t
    elif isinstance(cb, V) and isinstance(cb.t, SetT):
        t = cb.t
    else:
        return None, ca, cb
    return t, as_set(I, a, t), as_set(I, b, t)


def as_set(I, v, t=None):
    c = content(I, v)
    if isinstance(c, V) and isinstance(c.t, SetT):
        return c.z
    if isinstance(c, frozenset):
        z = t.empty()
        for x in c:
            z = z3.SetAdd(z, I.lift(x, t.el))
        return z
    raise Unsupported(f"set expected: {v!r}")


def set_op(I, op, a, b):
    t, x, y = set_pair(I, a, b)
    mut = isref(I, a, "set")
    if t is None:
        f = {ast.BitOr: lambda: x | y, ast.BitAnd: lambda: x & y, ast.Sub: lambda: x - y, ast.BitXor: lambda: x ^ y}
        r = f[type(op)]()
        return I.alloc("set", r) if mut else r
    if isinstance(op, ast.BitOr):
        # S | {a, b}: keep as stores so cardinality stays computable
        r = store_chain(y, x, True)
        if r is None:
            r = store_chain(x, y, True)
        if r is None:
            r = z3.SetUnion(x, y)
    elif isinstance(op, ast.BitAnd):
        r = z3.SetIntersect(x, y)
    elif isinstance(op, ast.Sub):
        r = store_chain(y, x, False)
        if r is None:
            r = z3.SetDifference(x, y)
    elif isinstance(op, ast.BitXor):
        r = z3.SetUnion(z3.SetDifference(x, y), z3.SetDifference(y, x))
    else:
        raise Unsupported("set operator")
    v = V(t, r)
    return I.alloc("set", v) if mut else v


def store_chain(chain, base, val):
    """chain = {a, b, ...} literally -> base with them added / removed"""
    els = []
    z = chain
    while z.decl().kind() == z3.Z3_OP_STORE and z3.is_true(z.arg(2)):
        els.append(z.arg(1))
        z = z.arg(0)
    if z.decl().kind() != z3.Z3_OP_CONST_ARRAY or not z3.is_false(z.arg(0)):
        return None
    for e in reversed(els):
        base = z3.Store(base, e, z3.BoolVal(val))
    return base


def toset(I, v, el=None):
    """frozenset or V(SetT) of any iterable"""
    v = I.unopt(v)
    c = content(I, v)
    if isinstance(c, frozenset) or isinstance(c, V) and isinstance(c.t, SetT):
        return c
    if isinstance(c, V) and isinstance(c.t, DictT):
        return V(SetT(c.t.k), c.t.dom(c.z))
    if isinstance(c, GenExp):
        save = I.env
        I.env = c.env
        try:
            return comp(I, c.node, "set")
        finally:
            I.env = save
    it = iterate(I, v)
    if it.kind == "conc":
        return mkset(I, it.items)
    if it.kind == "idx" and getattr(it, "src", None) is not None and isinstance(it.src.t, ListT):
        t = it.src.t
        R = listset(I, t, it.src.z)
        return V(SetT(t.el), R)
    rg = getattr(it, "range", None)
    if rg is not None and z3.is_int_value(z3.simplify(rg[0])) and z3.simplify(rg[0]).as_long() == 0:
        return V(SetT(INT), I.th.rangeset(rg[1]))
    b, g = bound_of(I, it)
    val = I.under_binder([b], g, lambda: it.fn(b))
    val = I.to_sym(content_of_value(I, val))
    return V(SetT(val.t), image_set(I, [b], g, val))


def listset(I, t, z):
    """the set of elements of a list"""
    f, new = I.th.fn("ELEMS_" + t.el.key, z3.ArraySort(z3.IntSort(), t.el.sort()), z3.IntSort(), SetT(t.el).sort())
    if new:
        A = z3.Const("A", z3.ArraySort(z3.IntSort(), t.el.sort()))
        n, j = z3.Ints("n j")
        y = z3.Const("y", t.el.sort())
        w = z3.Function("elemw_" + t.el.key, A.sort(), z3.IntSort(), t.el.sort(), z3.IntSort())
        I.th.ax("elems-wit " + t.el.key, z3.ForAll([A, n, y], z3.Implies(z3.Select(f(A, n), y), z3.And(0 <= w(A, n, y), w(A, n, y) < n, A[w(A, n, y)] == y)), patterns=[z3.Select(f(A, n), y)]))
        I.th.ax("elems-one " + t.el.key, z3.ForAll([A, y], z3.Select(f(A, 1), y) == (y == A[0]), patterns=[z3.Select(f(A, 1), y)]))
        I.th.ax("elems-two " + t.el.key, z3.ForAll([A, y], z3.Select(f(A, 2), y) == z3.Or(y == A[0], y == A[1]), patterns=[z3.Select(f(A, 2), y)]))
        I.th.ax("elems-at2 " + t.el.key, z3.ForAll([A, n, y, j], z3.Implies(z3.And(0 <= j, j < n, A[j] == y), z3.Select(f(A, n), y)), patterns=[z3.MultiPattern(z3.Select(f(A, n), y), A[j])]))
        v = z3.Const("v", t.el.sort())
        ap = z3.Select(f(z3.Store(A, n, v), n + 1), y)
        I.th.ax("elems-append " + t.el.key, z3.ForAll([A, n, v, y], z3.Implies(n >= 0, ap == z3.Or(z3.Select(f(A, n), y), y == v)), patterns=[ap]))
        if t.el != INT:
          cn = I.th.cnt(t, A, n, y)
          if t.el == CHAR:
              I.th.ax("elems-fed " + t.el.key, z3.ForAll([A, n, y], z3.Implies(n >= 0, z3.Select(f(A, n), y) == (cn >= 1)), patterns=[z3.MultiPattern(f(A, n), cn)]))
          I.th.ax("elems-def " + t.el.key, z3.ForAll([A, n, y], z3.Implies(n >= 0, z3.Select(f(A, n), y) == (cn >= 1)), patterns=[z3.Select(f(A, n), y)]))
        if t.el == CHAR:
            cd = I.th.card(t.el, f(A, n))
            I.th.ax("elems-card " + t.el.key, z3.ForAll([A, n], z3.Implies(n >= 0, cd <= n), patterns=[cd]))
        I.th.ax("elems-at " + t.el.key, z3.ForAll([A, n, j], z3.Implies(z3.And(0 <= j, j < n), z3.Select(f(A, n), A[j])), patterns=[z3.MultiPattern(f(A, n), A[j])]))
    return f(t.arr(z), t.len(z))


# ------------------------------------------------------------------ subscripts
def norm_index(I, n, idx):
    """concrete handling of negative indices; forks and raises IndexError"""
    i = zint(I, idx)
    n = z3.IntVal(n) if isinstance(n, int) else n
    si = z3.simplify(i)
    if z3.is_int_value(si):
        if si.as_long() < 0:
            i = n + si
    else:
        if I.decide(i < 0):
            i = i + n
    if not I.decide(z3.And(0 <= i, i < n)):
        raise PyExc("IndexError")
    return z3.simplify(i)


def get_item(I, base, idx):
    base = I.unopt(base)
    if base is None:
        raise PyExc("TypeError", "None subscript")
    if isref(I, base, "obj"):
        f = I.getattr_(base, "__getitem__")
        return I.call(f, [idx], {})
    if isref(I, base, "list") and I.cell(base).extra.get("heap"):
        raise Unsupported("indexing a heap")
    c = content(I, base)
    if isinstance(c, dict):
        return dict_get_conc(I, base, c, idx)
    if isinstance(c, V) and isinstance(c.t, TupT):
        c = I.native_tuple(c)
    if isinstance(c, (tuple, str)):
        i = I.unopt(idx)
        if isinstance(i, bool):
            i = int(i)
        if isinstance(i, int):
            if not -len(c) <= i < len(c):
                raise PyExc("IndexError")
            return c[i]
        if isinstance(c, tuple) and not c or isinstance(c, str) and not c:
            raise PyExc("IndexError")
        t = seqtype(I, c)
        c = V(t, lift_seq(I, c, t))
    if isinstance(c, V):
        t = c.t
        if isinstance(t, ListT):
            i = norm_index(I, t.len(c.z), idx)
            return I.elem(V(t.el, t.at(c.z, i)))
        if isinstance(t, DictT):
            k = coerce_key(I, content_of_value(I, idx), t.k)
            if k is None:
                raise PyExc("KeyError")
            if not I.decide(z3.Select(t.dom(c.z), k)):
                cell = I.cell(base) if isinstance(base, Ref) else None
                if cell is not None and "default" in cell.extra:
                    d = cell.extra["default"]()
                    set_item(I, base, idx, d)
                    return d if not isinstance(d, Ref) else V(t.v, I.lift(d, t.v))
                raise PyExc("KeyError")
            return I.elem(V(t.v, z3.Select(t.val(c.z), k)))
        if t == CHAR:
            i = norm_index(I, 1, idx)
            return c
        if isinstance(t, OpaqueT) and hasattr(I.reg, "opaque_getitem"):
            return I.reg.opaque_getitem(I, c, idx)
    if isinstance(c, It):
        raise PyExc("TypeError", "subscript of iterator")
    raise Unsupported(f"subscript {base!r}")


def conc_key(k):
    return isinstance(k, (str, int, bool, type(None), float)) or isinstance(k, tuple) and all(conc_key(x) for x in k)


def dict_get_conc(I, base, d, idx):
    idx = I.unopt(idx)
    if conc_key(idx):
        if idx in d:
            return d[idx]
        symk = [k for k in d if not conc_key(k)]
        if symk:
            raise Unsupported("symbolic keys")
        cell = I.cell(base)
        if "default" in cell.extra:
            v = cell.extra["default"]()
            set_item(I, base, idx, v)
            return v
        raise PyExc("KeyError")
    for k in d:
        r = I.eq(idx, k)
        if r is False:
            continue
        if r is True or I.decide(r):
            return d[k]
    cell = I.cell(base)
    if "default" in cell.extra:
        raise Unsupported("defaultdict with symbolic key")
    raise PyExc("KeyError")


def symbolize_dict(I, base, kt, vt):
    c = I.cell(base)
    t = c.extra.get("t") or DictT(kt, vt)
    z = I.lift(base, t)
    c.val = V(t, z)
    c.extra["t"] = t
    return t


def set_item(I, base, idx, v):
    base = I.unopt(base)
    if isref(I, base, "obj"):
        return I.call(I.getattr_(base, "__setitem__"), [idx, v], {})
    if not isinstance(base, Ref):
        raise PyExc("TypeError", "item assignment")
    c = I.write(base)
    if c.kind == "array":
        # an output array: a[()] = v and a[...] = v overwrite every element
        if idx != () and idx is not Ellipsis:
            raise Unsupported("partial write of an array")
        c.val = V(c.val.t, I.lift(v, c.val.t))
        return
    if c.kind == "dict":
        if not isinstance(c.val, V):
            if conc_key(idx) and not c.extra.get("t"):
                c.val[idx] = v
                return
            kk = I.to_sym(content_of_value(I, idx))
            t = c.extra.get("t")
            if t is None:
                vv = I.to_sym(content_of_value(I, v))
                t = DictT(kk.t, vv.t)
            symbolize_dict(I, base, t.k, t.v)
        t = c.val.t
        k = I.lift(content_of_value(I, idx), t.k)
        vz = I.lift(content_of_value(I, v), t.v)
        if isinstance(v, Ref):
            I.cell(v).extra["frozen"] = True
        z = c.val.z
        c.val = V(t, t.mk(z3.Store(t.dom(z), k, True), z3.Store(t.val(z), k, vz)))
        return
    if c.kind in ("list", "deque"):
        if not isinstance(c.val, V):
            i = I.unopt(idx)
            if isinstance(i, int):
                if not -len(c.val) <= i < len(c.val):
                    raise PyExc("IndexError")
                c.val[i] = v
                return
            c.val = I.deref(base)
        t = c.val.t
        i = norm_index(I, t.len(c.val.z), idx)
        c.val = V(t, t.mk(t.len(c.val.z), z3.Store(t.arr(c.val.z), i, I.lift(content_of_value(I, v), t.el))))
        return
    raise Unsupported(f"item assignment on {c.kind}")


def del_item(I, base, idx):
    c = I.write(base)
    if c.kind == "dict":
        pop_key(I, base, idx)
        return
    list_pop(I, base, idx)


def slice_bounds(I, n, lo, hi):
    def norm(b, dflt):
        if b is None:
            return dflt
        b = zint(I, b)
        sb = z3.simplify(b)
        if z3.is_int_value(sb):
            b = n + sb if sb.as_long() < 0 else sb
            neg = sb.as_long() < 0
            if neg:
                return z3.If(b < 0, 0, b)
            return z3.If(b > n, n, b)
        if I.provable(b >= 0, 300000):
            if I.provable(b <= n, 300000):
                return b
            return z3.If(b > n, n, b)
        return z3.If(b < 0, z3.If(b + n < 0, 0, b + n), z3.If(b > n, n, b))

    l, h = norm(lo, z3.IntVal(0)), norm(hi, n)
    return z3.simplify(l), z3.simplify(h)


def slice_(I, base, lo, hi, step):
    base = I.unopt(base)
    c = content(I, base)
    lo, hi, step = I.unopt(lo), I.unopt(hi), I.unopt(step)
    if isinstance(c, V) and isinstance(c.t, TupT):
        c = I.native_tuple(c)
    wrap = (lambda r: I.alloc("list", list(r) if isinstance(r, tuple) else r)) if isref(I, base, "list", "deque") else (lambda r: r)
    if isinstance(c, (tuple, str)) and all(isinstance(x, (int, type(None))) for x in (lo, hi, step)):
        return wrap(c[lo:hi:step])
    if isinstance(c, (tuple, str)):
        t = seqtype(I, c)
        if t is None:
            return wrap(c)
        c = V(t, lift_seq(I, c, t))
    if isinstance(c, V) and c.t == CHAR:
        c = V(STR, I.lift(c, STR))
    if not (isinstance(c, V) and isinstance(c.t, ListT)):
        raise Unsupported("slice")
    t = c.t
    n = t.len(c.z)
    if step is not None:
        if step == -1 and lo is None and hi is None:
            L = I.freshv("rev", t)
            k = z3.Int("rv!k")
            I.assume(t.len(L.z) == n)
            I.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), t.at(L.z, k) == t.at(c.z, n - 1 - k)), patterns=[t.at(L.z, k)]))
            y = z3.Const("rv!y", t.el.sort())
            return wrap(L)
        if step != 1:
            raise Unsupported("slice step")
    l, h = slice_bounds(I, n, lo, hi)
    if z3.is_int_value(l) and l.as_long() == 0:
        # a prefix: same array, shorter length
        ln = z3.simplify(z3.If(h < 0, 0, h))
        return wrap(V(t, t.mk(ln, t.arr(c.z))))
    L = I.fresh("sl", t)
    k = z3.Int("sl!k")
    I.assume(t.len(L) == z3.If(h > l, h - l, 0))
    I.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < t.len(L)), t.at(L, k) == t.at(c.z, l + k)), patterns=[t.at(L, k)]))
    I.assume(z3.ForAll([k], z3.Implies(z3.And(l <= k, k < h), t.at(L, k - l) == t.at(c.z, k)), patterns=[t.at(c.z, k)]))
    for f in I.wf_el_list(t, L):
        I.assume(f)
    return wrap(V(t, L))


def store_slice(I, base, s, v):
    if s.lower is None and s.upper is None and s.step is None and isref(I, base, "list"):
        x = to_list(I, v)
        I.write(base).val = list(x) if isinstance(x, tuple) else x
        return
    raise Unsupported("slice assignment")


# ------------------------------------------------------------------ list mutation
def list_append(I, ref, x):
    c = I.write(ref)
    if not isinstance(c.val, V):
        if c.extra.get("t") is not None and not c.val:
            t = c.extra["t"]
            c.val = V(t, I.lift(ref, t))
        else:
            c.val.append(x)
            return
    t = c.val.t
    xv = content_of_value(I, x)
    z = c.val.z
    try:
        xz = I.lift(xv, t.el)
    except Unsupported:
        t2 = ListT(I.join(t.el, I.typeof(xv)))
        raise Unsupported(f"append {I.typeof(xv)} to {t}")
    c.val = V(t, t.mk(t.len(z) + 1, z3.Store(t.arr(z), t.len(z), xz)))
    if isinstance(x, Ref):
        I.cell(x).extra["frozen"] = True


def list_extend(I, ref, v):
    x = to_list(I, v)
    if isinstance(x, V) and isinstance(x.t, TupT):
        x = I.native_tuple(x)
    if isinstance(x, tuple):
        for y in x:
            list_append(I, ref, y)
        return
    c = I.write(ref)
    cur = content(I, ref)
    if isinstance(cur, tuple) and not cur:
        c.val = x
        return
    c.val = concat(I, cur, x)


def list_pop(I, ref, idx=-1):
    c = I.write(ref)
    if not isinstance(c.val, V):
        i = I.unopt(idx)
        if isinstance(i, int):
            if not -len(c.val) <= i < len(c.val):
                raise PyExc("IndexError")
            return c.val.pop(i)
        if not c.val:
            raise PyExc("IndexError")
        c.val = I.deref(ref)
    t, z = c.val.t, c.val.z
    n = t.len(z)
    i = norm_index(I, n, idx)
    r = I.elem(V(t.el, t.at(z, i)))
    if idx == -1:
        c.val = V(t, t.mk(n - 1, t.arr(z)))
        return r
    c.val = V(t, removed_at(I, t, z, i))
    return r


def removed_at(I, t, z, i):
    """list z without position i, as a spec function with its definition"""
    f, new = I.th.fn("RM_" + t.key, t.sort(), z3.IntSort(), t.sort())
    if new:
        Z = z3.Const("Z", t.sort())
        p, k = z3.Ints("p k")
        R = f(Z, p)
        I.th.ax("rm-len " + t.key, z3.ForAll([Z, p], t.len(R) == t.len(Z) - 1, patterns=[R]))
        I.th.ax("rm-lo " + t.key, z3.ForAll([Z, p, k], z3.Implies(k < p, t.at(R, k) == t.at(Z, k)), patterns=[t.at(R, k)]))
        I.th.ax("rm-lo2 " + t.key, z3.ForAll([Z, p, k], z3.Implies(k < p, t.at(R, k) == t.at(Z, k)), patterns=[z3.MultiPattern(R, t.at(Z, k))]))
        I.th.ax("rm-hi2 " + t.key, z3.ForAll([Z, p, k], z3.Implies(k > p, t.at(R, k - 1) == t.at(Z, k)), patterns=[z3.MultiPattern(R, t.at(Z, k))]))
        I.th.ax("rm-hi " + t.key, z3.ForAll([Z, p, k], z3.Implies(k >= p, t.at(R, k) == t.at(Z, k + 1)), patterns=[t.at(R, k)]))
    return f(z, i)


def list_insert(I, ref, idx, x):
    c = I.write(ref)
    if not isinstance(c.val, V):
        i = I.unopt(idx)
        if isinstance(i, int):
            c.val.insert(i, x)
            return
        if not c.val:
            c.val.append(x)
            return
        c.val = I.deref(ref)
    t, z = c.val.t, c.val.z
    i, _ = slice_bounds(I, t.len(z), idx, None)
    xz = I.lift(content_of_value(I, x), t.el)
    L = I.fresh("ins", t)
    k = z3.Int("in!k")
    I.assume(t.len(L) == t.len(z) + 1)
    I.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < t.len(L)), t.at(L, k) == z3.If(k < i, t.at(z, k), z3.If(k == i, xz, t.at(z, k - 1)))), patterns=[t.at(L, k)]))
    I.assume(t.at(L, i) == xz)
    c.val = V(t, L)


# ------------------------------------------------------------------ sets
def set_cell_type(I, ref, x):
    c = I.cell(ref)
    if not isinstance(c.val, V):
        if "t" in c.extra and c.extra["t"]:
            t = c.extra["t"]
        else:
            t = SetT(I.typeof(content_of_value(I, x)))
        z = t.empty()
        for y in c.val or ():
            z = z3.SetAdd(z, I.lift(y, t.el))
        c.val = V(t, z)
    return c.val.t


def set_add(I, ref, x):
    c = I.write(ref)
    t = set_cell_type(I, ref, x)
    c.val = V(t, z3.Store(c.val.z, I.lift(content_of_value(I, x), t.el), True))


def set_discard(I, ref, x, strict=False):
    c = I.write(ref)
    if not isinstance(c.val, V) and not c.val:
        if strict:
            raise PyExc("KeyError")
        return
    t = set_cell_type(I, ref, x)
    k = I.lift(content_of_value(I, x), t.el)
    if strict and not I.decide(z3.Select(c.val.z, k)):
        raise PyExc("KeyError")
    c.val = V(t, z3.Store(c.val.z, k, False))


def set_update(I, ref, args):
    for a in args:
        s = toset(I, a)
        if isinstance(s, frozenset) and not s:
            continue
        c = I.write(ref)
        if isinstance(s, frozenset):
            s = mkset(I, list(s))
        t = s.t
        if not isinstance(c.val, V):
            z = t.empty()
            for y in c.val or ():
                z = z3.SetAdd(z, I.lift(y, t.el))
            c.val = V(t, z)
        c.val = V(t, store_chain(s.z, c.val.z, True) if store_chain(s.z, c.val.z, True) is not None else z3.SetUnion(c.val.z, s.z))


def set_pop(I, ref):
    c = I.write(ref)
    if not isinstance(c.val, V):
        if not c.val:
            raise PyExc("KeyError")
        c.val = I.deref(ref)
    t = c.val.t
    if not I.decide(c.val.z != t.empty()):
        raise PyExc("KeyError")
    x = I.fresh("pop", t.el)
    I.assume(z3.Select(c.val.z, x))
    c.val = V(t, z3.Store(c.val.z, x, False))
    return I.elem(V(t.el, x))


def big_union(I, args, inter=False):
    """union / intersection of argument sets (some may be starred symbolic iterables)"""
    parts = []
    for a in args:
        if isinstance(a, Star):
            it = iterate(I, a.v) if not isinstance(a.v, GenExp) else gen_iter(I, a.v)
            if it.kind == "conc":
                parts += [toset(I, x) for x in it.items]
            else:
                parts.append(("many", it))
        else:
            parts.append(toset(I, a))
    if not parts:
        raise PyExc("TypeError", "union needs an argument")
    res = None
    for p in parts:
        if isinstance(p, tuple):
            it = p[1]
            b, g = bound_of(I, it)
            v = I.under_binder([b], g, lambda: toset_v(I, it.fn(b)))
            if len(parts) == 1:
                # frozenset.union(*[]) raises TypeError
                ne = it.n > 0 if it.kind == "idx" else it.s != SetT(it.el).empty()
                if not I.decide(ne):
                    raise PyExc("TypeError", "union of nothing")
            el = v.t.el
            R = I.fresh("big", SetT(el))
            x = z3.Const("bx", el.sort())
            w = z3.Function(f"bw!{I.cnt}", el.sort(), b.sort())
            I.cnt += 1
            if not inter:
                I.assume(z3.ForAll([b, x], z3.Implies(z3.And(g, z3.Select(v.z, x)), z3.Select(R, x)), patterns=[z3.MultiPattern(trig(b, g, v.z), z3.Select(v.z, x))] if trig(b, g, v.z) is not None else []))
                I.assume(z3.ForAll([x], z3.Implies(z3.Select(R, x), z3.And(z3.substitute(g, (b, w(x))), z3.substitute(z3.Select(v.z, x), (b, w(x))))), patterns=[z3.Select(R, x)]))
            else:
                I.assume(z3.ForAll([b, x], z3.Implies(z3.And(g, z3.Select(R, x)), z3.Select(v.z, x))))
                I.assume(z3.ForAll([x], z3.Or(z3.Select(R, x), z3.And(z3.substitute(g, (b, w(x))), z3.Not(z3.substitute(z3.Select(v.z, x), (b, w(x)))))), patterns=[z3.Select(R, x)]))
            q = V(SetT(el), R)
        else:
            q = p
        if res is None:
            res = q
        else:
            res = set_op(I, ast.BitAnd() if inter else ast.BitOr(), res, q)
    return res


def trig(b, g, vz):
    """a trigger for the bound element"""
    return None


def toset_v(I, x):
    s = toset(I, x)
    if isinstance(s, frozenset):
        s = mkset(I, list(s)) if s else V(SetT(CHAR), SetT(CHAR).empty())
    return s


def gen_iter(I, g):
    """iterate a generator expression lazily; effectful ones become loops"""
    v = gen_to_list(I, g)
    return iterate(I, v)


# ------------------------------------------------------------------ dicts
def pop_key(I, ref, k, *default):
    c = I.write(ref)
    if not isinstance(c.val, V):
        kk = I.unopt(k)
        if conc_key(kk):
            if kk in c.val:
                return c.val.pop(kk)
            if default:
                return default[0]
            raise PyExc("KeyError")
        if not c.val:
            if default:
                return default[0]
            raise PyExc("KeyError")
        if "t" not in c.extra:
            raise Unsupported("pop symbolic key from concrete dict")
        symbolize_dict(I, ref, None, None)
    t, z = c.val.t, c.val.z
    kk = I.lift(content_of_value(I, k), t.k)
    if not I.decide(z3.Select(t.dom(z), kk)):
        if default:
            return default[0]
        raise PyExc("KeyError")
    r = I.elem(V(t.v, z3.Select(t.val(z), kk)))
    c.val = V(t, t.mk(z3.Store(t.dom(z), kk, False), t.val(z)))
    return r


def dict_get(I, ref, k, d=None):
    c = content(I, ref)
    if isinstance(c, dict):
        kk = I.unopt(k)
        if conc_key(kk):
            return c.get(kk, d)
        if isinstance(kk, (Func, Builtin, Partial)):
            return d
        for q in c:
            r = I.eq(kk, q)
            if r is True or r is not False and I.decide(r):
                return c[q]
        return d
    t = c.t
    kk = coerce_key(I, content_of_value(I, k), t.k)
    if kk is not None and I.decide(z3.Select(t.dom(c.z), kk)):
        return I.elem(V(t.v, z3.Select(t.val(c.z), kk)))
    return d


def dict_items(I, ref, what):
    c = content(I, ref)
    if isinstance(c, dict):
        return It("conc", items={"keys": list(c), "values": list(c.values()), "items": list(c.items())}[what])
    t = c.t
    f = {
        "keys": lambda x: I.elem(V(t.k, x)),
        "values": lambda x: I.elem(V(t.v, z3.Select(t.val(c.z), x))),
        "items": lambda x: (I.elem(V(t.k, x)), I.elem(V(t.v, z3.Select(t.val(c.z), x)))),
    }[what]
    return It("set", s=t.dom(c.z), el=t.k, fn=f, dictsrc=c)


def view_call(I, base, idx, attr, args):
    """d[k].add(x) on a container that stores sets/lists by value"""
    c = I.cell(base)
    if c.kind == "dict" and isinstance(c.val, V) and isinstance(c.val.t.v, (SetT, ListT)):
        vt = c.val.t.v
        cur = get_item(I, base, idx)
        tmp = I.alloc("set" if isinstance(vt, SetT) else "list", V(vt, I.lift(cur, vt)))
        r = I.call(method(I, tmp, attr), args, {})
        set_item(I, base, idx, I.cell(tmp).val)
        return r
    if c.kind == "dict" and not isinstance(c.val, V) and not c.val and "default" in c.extra:
        tmp = c.extra["default"]()
        r = I.call(method(I, tmp, attr), args, {})
        set_item(I, base, idx, tmp)
        I.cell(base).extra["default"] = c.extra["default"]
        return r
    if c.kind in ("list", "deque") and isinstance(c.val, V) and isinstance(c.val.t.el, (SetT, ListT)):
        et = c.val.t.el
        cur = get_item(I, base, idx)
        tmp = I.alloc("set" if isinstance(et, SetT) else "list", V(et, I.lift(cur, et)))
        r = I.call(method(I, tmp, attr), args, {})
        set_item(I, base, idx, I.cell(tmp).val)
        return r
    return NotImplemented


# ------------------------------------------------------------------ methods
def B(fn, name=""):
    return Builtin(name, fn)


def method(I, base, attr):
    base = I.unopt(base)
    if isinstance(base, Builtin):
        k = f"{base.name}.{attr}"
        if k in LIB:
            return LIB[k]
        raise Unsupported(f"attribute {k}")
    if base is None:
        raise PyExc("AttributeError", attr)
    if isinstance(base, Ref):
        c = I.cell(base)
        m = METHODS.get((c.kind, attr)) or (METHODS.get(("list", attr)) if c.kind == "deque" else None)
        if m is None:
            raise Unsupported(f"method {c.kind}.{attr}")
        return B(lambda I, a, k: m(I, base, *a, **k), f"{c.kind}.{attr}")
    kind = None
    if isinstance(base, str) or isinstance(base, V) and base.t in (STR, CHAR):
        kind = "str"
    elif isinstance(base, (tuple,)) or isinstance(base, V) and isinstance(base.t, (ListT, TupT)):
        kind = "tuple"
    elif isinstance(base, frozenset) or isinstance(base, V) and isinstance(base.t, SetT):
        kind = "frozenset"
    elif isinstance(base, V) and isinstance(base.t, DictT):
        kind = "dict"
    elif isinstance(base, V) and isinstance(base.t, OpaqueT) and hasattr(I.reg, "opaque_attr"):
        return I.reg.opaque_attr(I, base, attr)
    elif isinstance(base, Func):
        if attr == "__name__":
            return base.node.name
        raise Unsupported("function attribute")
    elif isinstance(base, (int, V)):
        raise PyExc("AttributeError", attr)
    m = METHODS.get((kind, attr))
    if m is None and kind == "frozenset":
        m = METHODS.get(("set", attr))
    if m is None:
        raise Unsupported(f"method {kind}.{attr}")
    return B(lambda I, a, k: m(I, base, *a, **k), f"{kind}.{attr}")


METHODS = {}


def meth(kind, *names):
    def deco(f):
        for n in names:
            METHODS[(kind, n)] = f
        return f

    return deco


METHODS[("list", "append")] = list_append
METHODS[("list", "pop")] = list_pop
METHODS[("list", "insert")] = list_insert
METHODS[("list", "extend")] = list_extend


@meth("list", "copy")
def _(I, r):
    c = content(I, r)
    return I.alloc("list", list(c) if isinstance(c, tuple) else c)


@meth("list", "popleft")
def _(I, r):
    return list_pop(I, r, 0)


@meth("list", "reverse")
def _(I, r):
    x = slice_(I, r, None, None, -1)
    I.mutate(r, I.cell(x).val)


@meth("list", "__getitem__")
@meth("tuple", "__getitem__")
@meth("dict", "__getitem__")
def _(I, r, i):
    return get_item(I, r, i)


METHODS[("list", "__getitem__")] = METHODS[("tuple", "__getitem__")] = METHODS[("dict", "__getitem__")] = lambda I, r, i: get_item(I, r, i)
METHODS[("dict", "get")] = dict_get
METHODS[("dict", "pop")] = pop_key


@meth("dict", "items")
def _(I, r):
    return dict_items(I, r, "items")


@meth("dict", "keys")
def _(I, r):
    return dict_items(I, r, "keys")


@meth("dict", "values")
def _(I, r):
    return dict_items(I, r, "values")


@meth("dict", "setdefault")
def _(I, r, k, d=None):
    if I.decide(contains_b(I, k, r)):
        return get_item(I, r, k)
    set_item(I, r, k, d)
    return d


@meth("dict", "copy")
def _(I, r):
    c = I.cell(r)
    n = c.copy()
    I.nloc += 1
    I.heap[I.nloc] = n
    return Ref(I.nloc)


@meth("dict", "update")
def _(I, r, o=None):
    it = dict_items(I, o, "items")
    if it.kind != "conc":
        raise Unsupported("dict.update symbolic")
    for k, v in it.items:
        set_item(I, r, k, v)


def contains_b(I, x, s):
    r = contains(I, x, s)
    return r


METHODS[("set", "add")] = set_add
METHODS[("set", "discard")] = set_discard
METHODS[("set", "remove")] = lambda I, r, x: set_discard(I, r, x, True)
METHODS[("set", "pop")] = set_pop
METHODS[("set", "update")] = lambda I, r, *a: set_update(I, r, a)


@meth("set", "difference_update")
def _(I, r, *a):
    for x in a:
        s = set_op(I, ast.Sub(), content(I, r), toset(I, x))
        I.mutate(r, s)


@meth("set", "copy")
def _(I, r):
    return I.alloc("set", content(I, r)) if isinstance(r, Ref) else r


@meth("set", "union")
def _(I, r, *a):
    res = big_union(I, [content(I, r)] + list(a))
    return I.alloc("set", res) if isref(I, r, "set") else res


@meth("set", "intersection")
def _(I, r, *a):
    res = big_union(I, [content(I, r)] + list(a), True)
    return I.alloc("set", res) if isref(I, r, "set") else res


@meth("set", "difference")
def _(I, r, *a):
    res = content(I, r)
    for x in a:
        res = set_op(I, ast.Sub(), res, toset(I, x))
    return I.alloc("set", res) if isref(I, r, "set") else res


@meth("set", "isdisjoint")
def _(I, r, o):
    o = toset(I, o)
    t, x, y = set_pair(I, r, o)
    if t is None:
        return x.isdisjoint(y)
    return V(BOOL, z3.SetIntersect(x, y) == t.empty())


@meth("set", "issubset")
def _(I, r, o):
    o = toset(I, o)
    t, x, y = set_pair(I, r, o)
    if t is None:
        return x.issubset(y)
    return V(BOOL, z3.IsSubset(x, y))


@meth("set", "issuperset")
def _(I, r, o):
    o = toset(I, o)
    t, x, y = set_pair(I, r, o)
    if t is None:
        return x.issuperset(y)
    return V(BOOL, z3.IsSubset(y, x))


# ------------------------------------------------------------------ strings
def S(I, v):
    return I.lift(v, STR)


@meth("str", "count")
@meth("list", "count")
@meth("tuple", "count")
def _(I, s, x):
    s = content(I, s)
    if isinstance(s, str) and isinstance(x, str):
        return s.count(x)
    if isinstance(s, tuple):
        s = V(seqtype(I, s), lift_seq(I, s, seqtype(I, s)))
    t = STR if s.__class__ is str or s.t in (STR, CHAR) else s.t
    if t == STR and isinstance(x, (str, V)) and I.typeof(x) == STR:
        raise Unsupported("substring count")
    z = I.lift(s, t)
    return V(INT, I.th.cnt(t, t.arr(z), t.len(z), I.lift(x, t.el)))


@meth("str", "replace")
def _(I, s, old, new):
    if isinstance(s, str) and isinstance(old, str) and isinstance(new, str):
        return s.replace(old, new)
    if not (isinstance(old, str) and len(old) == 1 and new == ""):
        return replace_sub(I, s, old, new)
    return V(STR, drop_char(I, S(I, s), old))


def drop_char(I, z, ch):
    """s.replace(ch, ""): the other characters, in order"""
    f, new = I.th.fn("DROP_" + str(ord(ch)), STR.sort(), STR.sort())
    if new:
        x = z3.Const("x", STR.sort())
        y, j, k, j2 = z3.Ints("y j k j2")
        sel = z3.Function(f"drsel_{ord(ch)}", STR.sort(), z3.IntSort(), z3.IntSort())
        inv = z3.Function(f"drinv_{ord(ch)}", STR.sort(), z3.IntSort(), z3.IntSort())
        r = f(x)
        n = STR.len(r)
        c = lambda w, y: I.th.cnt(STR, STR.arr(w), STR.len(w), y)
        I.th.ax(f"drop-len {ch}", z3.ForAll([x], z3.And(0 <= n, n <= STR.len(x)), patterns=[r]))
        I.th.ax(f"drop-cnt {ch}", z3.ForAll([x, y], c(r, y) == z3.If(y == ord(ch), 0, c(x, y)), patterns=[c(r, y)]))
        I.th.ax(f"drop-tnc {ch}", z3.ForAll([x, y], c(r, y) == z3.If(y == ord(ch), 0, c(x, y)), patterns=[z3.MultiPattern(r, c(x, y))]))
        I.th.ax(f"drop-at {ch}", z3.ForAll([x, j], z3.Implies(z3.And(0 <= j, j < n), z3.And(STR.at(r, j) == STR.at(x, sel(x, j)), 0 <= sel(x, j), sel(x, j) < STR.len(x), inv(x, sel(x, j)) == j, STR.at(r, j) != ord(ch))), patterns=[STR.at(r, j)]))
        I.th.ax(f"drop-mono {ch}", z3.ForAll([x, j, j2], z3.Implies(z3.And(0 <= j, j < j2, j2 < n), sel(x, j) < sel(x, j2)), patterns=[z3.MultiPattern(sel(x, j), sel(x, j2))]))
        I.th.ax(f"drop-all {ch}", z3.ForAll([x, k], z3.Implies(z3.And(0 <= k, k < STR.len(x), STR.at(x, k) != ord(ch)), z3.And(0 <= inv(x, k), inv(x, k) < n, sel(x, inv(x, k)) == k)), patterns=[z3.MultiPattern(r, STR.at(x, k))]))
        I.th.ax(f"drop-none {ch}", z3.ForAll([x], z3.Implies(c(x, ord(ch)) == 0, r == x), patterns=[r]))
    return f(z)


def replace_sub(I, s, old, new):
    raise Unsupported("replace of a substring")


@meth("str", "find")
def _(I, s, x):
    if isinstance(s, str) and isinstance(x, str):
        return s.find(x)
    if I.typeof(x) != CHAR:
        raise Unsupported("find of a substring")
    z = S(I, s)
    xz = I.lift(x, CHAR)
    r = I.fresh("find", INT)
    k = z3.Int("fd!k")
    n = STR.len(z)
    here = z3.And(0 <= r, r < n, STR.at(z, r) == xz)
    I.assume(z3.Or(z3.And(r == -1, I.th.cnt(STR, STR.arr(z), n, xz) == 0), here))
    I.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < z3.If(r < 0, n, r)), STR.at(z, k) != xz), patterns=[STR.at(z, k)]))
    return V(INT, r)


@meth("str", "index")
@meth("list", "index")
@meth("tuple", "index")
def _(I, s, x):
    c = content(I, s)
    if isinstance(c, (str, tuple)) and conc_key(x) and (isinstance(c, str) or all(conc_key(y) for y in c)):
        try:
            return c.index(x)
        except ValueError:
            raise PyExc("ValueError")
    t = seqtype(I, c)
    z = lift_seq(I, c, t)
    if not I.decide(contains(I, x, V(t, z))):
        raise PyExc("ValueError")
    xz = I.lift(content_of_value(I, x), t.el)
    r = I.fresh("index", INT)
    k = z3.Int("fd!k")
    I.assume(z3.And(0 <= r, r < t.len(z), t.at(z, r) == xz))
    I.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < r), t.at(z, k) != xz), patterns=[t.at(z, k)]))
    return V(INT, r)


@meth("str", "join")
def _(I, s, it):
    c = to_list(I, it)
    if isinstance(c, V) and isinstance(c.t, TupT):
        c = I.native_tuple(c)
    if isinstance(c, tuple):
        r = ""
        for i, x in enumerate(c):
            if i and s != "":
                r = concat(I, r, s)
            if not (isinstance(x, str) or isinstance(x, V) and x.t in (STR, CHAR)):
                raise PyExc("TypeError", "join")
            if isinstance(x, V) and x.t == CHAR:
                x = V(STR, I.lift(x, STR))
            r = concat(I, r, x)
        return r
    if s == "" and isinstance(c, V) and c.t.el == CHAR:
        return V(STR, I.lift(V(STR, c.z), STR))
    h = getattr(I.cur_spec, "join", None)
    if h is not None:
        r = h(I, s, c)
        if r is not None:
            return r
    f, new = I.th.fn("JOIN_" + c.t.key, c.t.sort(), STR.sort(), STR.sort())
    r = f(c.z, S(I, s))
    I.assume(STR.len(r) >= 0)
    return V(STR, r)


for _nm in ("lower", "upper", "strip"):
    def _mk(nm):
        def f(I, s, *a):
            if isinstance(s, str):
                return getattr(s, nm)(*a)
            g, new = I.th.fn("STR_" + nm, STR.sort(), STR.sort())
            if new:
                x = z3.Const("x", STR.sort())
                I.th.ax("str-" + nm, z3.ForAll([x], z3.And(STR.len(g(x)) >= 0, g(g(x)) == g(x)), patterns=[g(x)]))
            return V(STR, g(S(I, s)))

        return f

    METHODS[("str", _nm)] = _mk(_nm)


# ------------------------------------------------------------------ builtins
def b_len(I, a, k):
    return lenof(I, a[0])


def b_range(I, a, k):
    a = [I.unopt(x) for x in a]
    if all(isinstance(x, int) for x in a):
        r = range(*a)
        if len(r) <= 64:
            return It("conc", items=list(r))
    lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
    if len(a) == 3:
        raise Unsupported("range step")
    lo, hi = zint(I, lo), zint(I, hi)
    n = z3.simplify(z3.If(hi > lo, hi - lo, 0))
    if z3.is_int_value(z3.simplify(lo)) and z3.simplify(lo).as_long() == 0 and I.provable(hi >= 0, 300000):
        n = hi
    return It("idx", n=n, fn=lambda k: mkint(lo + k), range=(lo, hi))


def b_enumerate(I, a, k):
    it = iterate(I, a[0])
    start = a[1] if len(a) > 1 else k.get("start", 0)
    if it.kind == "conc":
        if isinstance(start, int):
            return It("conc", items=[(i + start, x) for i, x in enumerate(it.items)])
    n, fn = to_idx(I, it)
    return It("idx", n=n, fn=lambda q: (mkint(q + zint(I, start)), fn(q)), parts=[it])


def b_zip(I, a, k):
    if len(a) == 1 and isinstance(a[0], Star):
        # zip(*pairs): the columns, none if there are no rows
        rows = to_list(I, a[0].v)
        if isinstance(rows, V) and isinstance(rows.t.el, TupT):
            t = rows.t
            if not I.decide(t.len(rows.z) >= 1):
                return It("conc", items=[])
            return It("conc", items=[build_list(I, It("idx", n=t.len(rows.z), fn=lambda q, i=i: V(t.el.els[i], t.el.get(t.at(rows.z, q), i)), over=rows)) for i in range(len(t.el.els))])
    its = [iterate(I, x) for x in a]
    if all(i.kind == "conc" for i in its):
        return It("conc", items=list(zip(*[i.items for i in its])))
    if any(i.kind == "conc" for i in its):
        raise Unsupported("zip of mixed iterables")
    ns, fns = zip(*[to_idx(I, i) for i in its])
    n = ns[0]
    for m in ns[1:]:
        n = z3.If(n <= m, n, m)
    return It("idx", n=z3.simplify(n) if len(ns) > 1 else n, fn=lambda q: tuple(f(q) for f in fns), parts=its)


def b_map(I, a, k):
    f = a[0]
    if len(a) > 2:
        it = b_zip(I, a[1:], {})
        return it_map(it, lambda x: I.call(f, list(x), {}))
    it = iterate(I, a[1])
    r = it_map(it, lambda x: I.call(f, [x], {}))
    if it.kind == "idx" and getattr(it, "src", None) is not None:
        r.mapped = (f, it.src)
    return r


def b_reversed(I, a, k):
    it = iterate(I, a[0])
    if it.kind == "conc":
        return It("conc", items=it.items[::-1])
    n, fn = to_idx(I, it)
    return It("idx", n=n, fn=lambda q: fn(n - 1 - q), rev=fn)


def b_list(I, a, k):
    if not a:
        return I.alloc("list", [])
    c = to_list(I, a[0])
    if isinstance(c, V) and c.t == STR and False:
        c = V(ListT(CHAR), c.z)
    if isinstance(c, V) and isinstance(c.t, TupT):
        c = I.native_tuple(c)
    return I.alloc("list", list(c) if isinstance(c, tuple) else c)


def b_tuple(I, a, k):
    if not a:
        return ()
    c = to_list(I, a[0])
    if isinstance(c, V) and isinstance(c.t, TupT):
        c = I.native_tuple(c)
    return c


def b_set(I, a, k):
    return I.alloc("set", toset(I, a[0]) if a else frozenset())


def b_frozenset(I, a, k):
    return toset(I, a[0]) if a else frozenset()


def b_dict(I, a, k):
    r = I.alloc("dict", {})
    if a:
        c = content(I, a[0])
        if isinstance(c, (dict,)) or isinstance(c, V) and isinstance(c.t, DictT):
            r = METHODS[("dict", "copy")](I, a[0])
        else:
            it = iterate(I, a[0])
            if it.kind != "conc":
                raise Unsupported("dict of symbolic pairs")
            for x in it.items:
                kk, vv = I.unpack(x, 2)
                set_item(I, r, kk, vv)
    for kk, vv in k.items():
        set_item(I, r, kk, vv)
    return r


def b_sorted(I, a, k):
    key, rev = k.get("key"), k.get("reverse", False)
    c = a[0]
    it = iterate(I, c)
    if it.kind == "conc":
        items = list(it.items)
        if all(conc_key(x) for x in items) and key is None:
            return I.alloc("list", sorted(items, reverse=bool(rev)))
        if len(items) <= 3:
            ks = [I.call(key, [x], {}) if key else x for x in items]
            out = []
            for x, kx in zip(items, ks):
                p = len(out)
                while p > 0:
                    lt = I.less(kx, out[p - 1][1]) if not rev else I.less(out[p - 1][1], kx)
                    if not I.decide(lt):
                        break
                    p -= 1
                out.insert(p, (x, kx))
            return I.alloc("list", [x for x, _ in out])
        src = V(seqtype(I, tuple(items)), lift_seq(I, tuple(items), seqtype(I, tuple(items))))
    else:
        src = to_list(I, c) if it.kind != "idx" or getattr(it, "src", None) is None else it.src
    t = ListT(src.t.el) if not isinstance(src.t, ListT) else src.t
    out = I.freshv("srt", t)
    n = t.len(src.z)
    I.cnt += 1
    pi = z3.Function(f"pi!{I.cnt}", z3.IntSort(), z3.IntSort())
    pv = z3.Function(f"pv!{I.cnt}", z3.IntSort(), z3.IntSort())
    q, p = z3.Ints("q p")
    rg = z3.And(0 <= q, q < n)
    I.assume(t.len(out.z) == n)
    I.assume(z3.ForAll([q], z3.Implies(rg, z3.And(0 <= pi(q), pi(q) < n, t.at(out.z, q) == t.at(src.z, pi(q)), pv(pi(q)) == q)), patterns=[t.at(out.z, q)]))
    I.assume(z3.ForAll([q], z3.Implies(rg, z3.And(0 <= pv(q), pv(q) < n, t.at(out.z, pv(q)) == t.at(src.z, q), pi(pv(q)) == q)), patterns=[t.at(src.z, q)]))
    y = z3.Const("so!y", t.el.sort())
    cn = lambda Z: I.th.cnt(t, t.arr(Z), t.len(Z), y)
    I.assume(z3.ForAll([y], cn(out.z) == cn(src.z), patterns=[cn(out.z)]))
    I.assume(z3.ForAll([y], cn(out.z) == cn(src.z), patterns=[cn(src.z)]))
    if t.el == CHAR:
        e1, e2 = listset(I, t, out.z), listset(I, t, src.z)
        I.assume(z3.ForAll([y], e1[y] == e2[y], patterns=[e1[y]]))
        I.assume(z3.ForAll([y], e1[y] == e2[y], patterns=[e2[y]]))
    elif t.el == INT:
        I.assume(listset(I, t, out.z) == listset(I, t, src.z))
    if key is None and t.el in (INT, CHAR):
        x, z_ = t.at(out.z, q), t.at(out.z, p)
        I.assume(z3.ForAll([q, p], z3.Implies(z3.And(0 <= q, q < p, p < n), (x >= z_) if rev else (x <= z_)), patterns=[z3.MultiPattern(x, z_)]))
    elif key is not None and isinstance(t.el, (SetT, _Prim_)):
        pass
    return I.alloc("list", out)


_Prim_ = type(INT)


def b_minmax(name):
    def f(I, a, k):
        key = k.get("key")
        if len(a) == 1:
            it = iterate(I, a[0])
            if it.kind == "conc":
                items = it.items
            else:
                if it.kind == "idx":
                    ne = it.n > 0
                    if not I.decide(ne):
                        if "default" in k:
                            return k["default"]
                        raise PyExc("ValueError", "empty")
                    w = I.fresh("mm", INT)
                    I.assume(z3.And(0 <= w, w < it.n))
                    v = it.fn(w)
                elif it.kind == "set":
                    if not I.decide(it.s != SetT(it.el).empty()):
                        if "default" in k:
                            return k["default"]
                        raise PyExc("ValueError", "empty")
                    w = I.fresh("mm", it.el)
                    I.assume(z3.Select(it.s, w))
                    v = it.fn(w)
                else:
                    raise Unsupported(name)
                if key is None and isinstance(v, V) and v.t == INT:
                    b, g = bound_of(I, it)
                    u = I.under_binder([b], g, lambda: it.fn(b))
                    u = I.lift(u, INT)
                    I.assume(z3.ForAll([b], z3.Implies(g, (v.z <= u) if name == "min" else (v.z >= u))))
                return v
        else:
            items = list(a)
        if not items:
            if "default" in k:
                return k["default"]
            raise PyExc("ValueError", "empty")
        best = items[0]
        kb = I.call(key, [best], {}) if key else best
        for x in items[1:]:
            kx = I.call(key, [x], {}) if key else x
            lt = I.less(kx, kb) if name == "min" else I.less(kb, kx)
            if isinstance(lt, bool):
                if lt:
                    best, kb = x, kx
                continue
            tb, tx = I.typeof(best), I.typeof(x)
            if key is None and tb in (INT, XINT, BOOL) and tx in (INT, XINT, BOOL):
                t = I.join(tb, tx)
                best = kb = V(t, z3.If(lt, I.lift(x, t), I.lift(best, t)))
            elif I.decide(lt):
                best, kb = x, kx
        return best

    return f


def b_sum(I, a, k):
    g = a[0]
    if isinstance(g, It) and getattr(g, "mapped", None) is not None:
        f, src = g.mapped
        if isinstance(f, Builtin) and f.name == "len" and isinstance(src.t, ListT) and isinstance(src.t.el, ListT):
            return V(INT, I.th.sumlen(src.t, src.t.arr(src.z), src.t.len(src.z)))
    if isinstance(g, GenExp):
        n = g.node
        if len(n.generators) == 1 and not n.generators[0].ifs:
            with _Scope(I, g.env):
                it = iterate(I, I.ev(n.generators[0].iter))
            if it.kind == "idx" and getattr(it, "src", None) is not None and isinstance(it.src.t.el, ListT) and isinstance(n.elt, ast.Call) and isinstance(n.elt.func, ast.Name) and n.elt.func.id == "len":
                src = it.src
                return V(INT, I.th.sumlen(src.t, src.t.arr(src.z), src.t.len(src.z)))
    it = iterate(I, g)
    if it.kind == "conc":
        r = a[1] if len(a) > 1 else 0
        for x in it.items:
            r = binop(I, ast.Add(), r, x)
        return r
    if it.kind == "idx" and getattr(it, "src", None) is not None and it.src.t == ListT(INT) and len(a) == 1:
        return V(INT, I.th.suml(it.src.t.arr(it.src.z), it.src.t.len(it.src.z)))
    # generic prefix sum
    n, fn = to_idx(I, it)
    I.cnt += 1
    q = z3.Int(f"sq!{I.cnt}")
    g_ = z3.And(0 <= q, q < n)
    v = I.under_binder([q], g_, lambda: fn(q))
    vz = I.lift(v, INT)
    F = z3.Function(f"psum!{I.cnt}", z3.IntSort(), z3.IntSort())
    I.assume(F(z3.IntVal(0)) == 0)
    I.assume(z3.ForAll([q], z3.Implies(g_, F(q + 1) == F(q) + vz), patterns=[F(q + 1)]))
    return V(INT, F(z3.If(n >= 0, n, 0)))


def quantify(I, g, univ):
    if isinstance(g, GenExp):
        n = g.node
        with _Scope(I, g.env) as e:
            save = I.env
            it = iterate(I, I.ev(n.generators[0].iter))
            if it.kind == "conc":
                for x in it.items:
                    assign_local(I, e, n.generators[0].target, x)
                    if len(n.generators) != 1:
                        raise Unsupported("nested any/all")
                    if all(I.cond(c) for c in n.generators[0].ifs):
                        r = I.cond(n.elt)
                        if r != univ:
                            return r
                return univ
            bs, gd, v = comp_bind(I, e, n.generators, it, lambda: truthv(I, I.ev(n.elt)))
    else:
        it = iterate(I, g)
        if it.kind == "conc":
            for x in it.items:
                r = I.decide(I.truth(x))
                if r != univ:
                    return r
            return univ
        b, gd = bound_of(I, it)
        bs = [b]
        v = I.under_binder([b], gd, lambda: truthv(I, it.fn(b)))
    z = v.z if isinstance(v, V) else z3.BoolVal(bool(v))
    return V(BOOL, z3.ForAll(bs, z3.Implies(gd, z)) if univ else z3.Exists(bs, z3.And(gd, z)))


def truthv(I, v):
    r = I.truth(v)
    return r if isinstance(r, bool) else V(BOOL, r)


def b_isinstance(I, a, k):
    v, c = a
    cs = c if isinstance(c, tuple) else (c,)
    return isinst(I, v, cs)


def isinst(I, v, cs):
    v = I.unopt(v)
    names = [x.name if isinstance(x, (Builtin, Mod, Cls)) else str(x) for x in cs]
    names = [n.split(".")[-1] for n in names]
    if isinstance(v, Ref):
        c = I.cell(v)
        if c.kind == "obj":
            cl = c.extra.get("cls")
            while cl is not None:
                if cl.name in names:
                    return True
                bs = [b for b in cl.bases(I) if isinstance(b, Cls)]
                cl = bs[0] if bs else None
            return False
        return c.kind in names or c.kind == "dict" and "Mapping" in names
    kinds = {bool: ("bool", "int", "Number", "Integral"), int: ("int", "Number", "Integral"), str: ("str",), tuple: ("tuple",), frozenset: ("frozenset", "Set"), float: ("float",)}
    if type(v) in kinds:
        return any(n in names for n in kinds[type(v)])
    if v is None or v is Ellipsis:
        return False
    if isinstance(v, V):
        t = v.t
        if t in (STR, CHAR):
            return "str" in names
        if t == INT:
            return "int" in names or "Number" in names or "Integral" in names
        if t == BOOL:
            return "int" in names or "bool" in names or "Number" in names or "Integral" in names
        if t == XINT:
            if "int" in names and "float" in names:
                return True
            if "int" in names:
                return V(BOOL, z3.Not(XINT.sort().xinf(v.z)))
            if "float" in names:
                return V(BOOL, XINT.sort().xinf(v.z))
            return False
        if isinstance(t, TupT):
            return "tuple" in names
        if isinstance(t, SetT):
            return "frozenset" in names or "Set" in names
        if isinstance(t, ListT):
            if "tuple" in names and "list" in names:
                return True
            return "tuple" in names
        if isinstance(t, OpaqueT) and hasattr(I.reg, "opaque_isinstance"):
            return I.reg.opaque_isinstance(I, v, names)
    if isinstance(v, (Func, Builtin, Cls, Partial, It)):
        return False
    raise Unsupported("isinstance")


def b_int(I, a, k):
    v = I.unopt(a[0]) if a else 0
    if isinstance(v, (int, float, str)):
        try:
            return int(v)
        except ValueError:
            raise PyExc("ValueError")
    if isinstance(v, V) and v.t in (INT, BOOL):
        return mkint(I.lift(v, INT))
    raise Unsupported("int()")


def b_bool(I, a, k):
    r = I.truth(a[0]) if a else False
    return r if isinstance(r, bool) else V(BOOL, r)


def b_str(I, a, k):
    v = a[0] if a else ""
    if isinstance(v, str):
        return v
    if isinstance(v, V) and v.t in (STR, CHAR):
        return v
    if isinstance(v, int):
        return str(v)
    return I.freshv("str", STR)


def b_float(I, a, k):
    v = a[0]
    if isinstance(v, str):
        return float(v)
    if isinstance(v, (int, float)):
        return v
    return v


def b_ord(I, a, k):
    if isinstance(a[0], str):
        return ord(a[0])
    return V(INT, I.lift(a[0], CHAR))


def b_chr(I, a, k):
    if isinstance(a[0], int):
        try:
            return chr(a[0])
        except (ValueError, OverflowError):
            raise PyExc("ValueError")
    z = zint(I, a[0])
    if not I.decide(z3.And(0 <= z, z < 0x110000)):
        raise PyExc("ValueError")
    return V(CHAR, z)


def b_hasattr(I, a, k):
    o, n = a
    if isref(I, o, "obj"):
        if n in I.cell(o).val:
            return True
        c = I.cell(o).extra.get("cls")
        return bool(c and c.find(I, n))
    if isinstance(o, V) and isinstance(o.t, OpaqueT) and hasattr(I.reg, "opaque_hasattr"):
        return I.reg.opaque_hasattr(I, o, n)
    if isinstance(n, str) and not isinstance(o, V):
        base = {list: "list"}
        return False
    raise Unsupported("hasattr")


def b_getattr(I, a, k):
    try:
        return I.getattr_(a[0], a[1])
    except PyExc:
        if len(a) > 2:
            return a[2]
        raise


def b_callable(I, a, k):
    v = I.unopt(a[0])
    if isinstance(v, (Func, Builtin, Cls, Partial, Mod)):
        return True
    if isref(I, v, "obj"):
        c = I.cell(v).extra.get("cls")
        return bool(c and c.find(I, "__call__"))
    if isinstance(v, V) and isinstance(v.t, OpaqueT):
        f, _ = I.th.fn("callable_" + v.t.key, v.t.sort(), z3.BoolSort())
        return V(BOOL, f(v.z))
    return False


def b_next(I, a, k):
    r = a[0]
    if isref(I, r, "obj") and I.cell(r).extra.get("iter") == "count":
        c = I.cell(r)
        v = c.val["n"]
        for L in I.loopstack:
            if r.loc in L["locs"] and r.loc not in L["info"].locs:
                if L.get("binder"):
                    raise Impure()
                L["info"].locs.add(r.loc)
                raise Restart()
        c.val["n"] = binop(I, ast.Add(), v, 1)
        return v
    raise Unsupported("next")


def b_print(I, a, k):
    return None


def b_type(I, a, k):
    v = I.unopt(a[0])
    if isref(I, v, "obj"):
        return I.cell(v).extra["cls"]
    if isinstance(v, bool):
        return BUILTINS["bool"]
    if isinstance(v, int) or isinstance(v, V) and v.t == INT:
        return BUILTINS["int"]
    if isinstance(v, str) or isinstance(v, V) and v.t in (STR, CHAR):
        return BUILTINS["str"]
    if isinstance(v, tuple):
        return BUILTINS["tuple"]
    raise Unsupported("type()")


def b_id(I, a, k):
    """the identity number of an opaque object; nothing is assumed of it (objects with disjoint life
    times may have the same)"""
    v = I.unopt(a[0])
    if isinstance(v, V) and isinstance(v.t, OpaqueT):
        return V(INT, I.th.fn("ID_" + v.t.key, v.t.sort(), z3.IntSort())[0](v.z))
    raise Unsupported("id()")


def b_abs(I, a, k):
    if isinstance(a[0], int):
        return abs(a[0])
    z = zint(I, a[0])
    return V(INT, z3.If(z < 0, -z, z))


BUILTINS = {}
for _n, _f in {
    "len": b_len, "range": b_range, "enumerate": b_enumerate, "zip": b_zip, "map": b_map, "reversed": b_reversed,
    "list": b_list, "tuple": b_tuple, "set": b_set, "frozenset": b_frozenset, "dict": b_dict, "sorted": b_sorted,
    "min": b_minmax("min"), "max": b_minmax("max"), "sum": b_sum,
    "any": lambda I, a, k: quantify(I, a[0], False), "all": lambda I, a, k: quantify(I, a[0], True),
    "isinstance": b_isinstance, "int": b_int, "bool": b_bool, "str": b_str, "float": b_float, "ord": b_ord, "chr": b_chr,
    "hasattr": b_hasattr, "getattr": b_getattr, "callable": b_callable, "next": b_next, "print": b_print, "type": b_type, "abs": b_abs, "id": b_id,
    "iter": lambda I, a, k: iterate(I, a[0]),
}.items():
    BUILTINS[_n] = Builtin(_n, _f)
for _n in ("ValueError", "KeyError", "TypeError", "IndexError", "RuntimeError", "StopIteration", "AttributeError", "Exception", "NotImplementedError", "ImportError", "object", "Warning", "DeprecationWarning"):
    BUILTINS[_n] = Builtin(_n, lambda I, a, k: None)
BUILTINS["True"], BUILTINS["False"], BUILTINS["None"] = True, False, None


def h_push(I, a, k):
    I.cell(a[0]).extra["heap"] = True
    list_append(I, a[0], a[1])


def h_pop(I, a, k):
    r = a[0]
    c = I.write(r)
    c.extra["heap"] = True
    if not isinstance(c.val, V):
        if not c.val:
            raise PyExc("IndexError")
        if len(c.val) == 1:
            return c.val.pop()
        c.val = I.deref(r)
    t, z = c.val.t, c.val.z
    n = t.len(z)
    if not I.decide(n > 0):
        raise PyExc("IndexError")
    w = I.fresh("hp", INT)
    I.assume(z3.And(0 <= w, w < n))
    x = t.at(z, w)
    c.val = V(t, t.mk(n - 1, z3.Store(t.arr(z), w, t.at(z, n - 1))))
    return I.elem(V(t.el, x))


def h_heapify(I, a, k):
    I.write(a[0]).extra["heap"] = True


def h_pushpop(I, a, k):
    h_push(I, a, k)
    return h_pop(I, a[:1], k)


def i_combinations(I, a, k):
    it = iterate(I, a[0])
    if a[1] != 2:
        raise Unsupported("combinations")
    if it.kind == "conc":
        import itertools

        return It("conc", items=list(itertools.combinations(it.items, 2)))
    if it.kind == "set":
        return It("pairs", s=it.s, el=it.el)
    raise Unsupported("combinations of a symbolic list")


def i_count(I, a, k):
    r = I.alloc("obj", {"n": a[0] if a else 0}, iter="count")
    return r


def i_chain(I, a, k):
    res = ()
    for x in a:
        if isinstance(x, Star):
            raise Unsupported("chain of symbolic iterables")
        res = concat(I, res, to_list(I, x))
    return iterate(I, res)


def f_partial(I, a, k):
    return Partial(a[0], list(a[1:]), dict(k))


def f_reduce(I, a, k):
    it = iterate(I, a[1])
    if it.kind != "conc":
        h = getattr(I.reg, "reduce", None)
        if h:
            return h(I, a, it)
        raise Unsupported("reduce over symbolic sequence")
    items = list(it.items)
    if len(a) > 2:
        r = a[2]
    else:
        if not items:
            raise PyExc("TypeError")
        r = items.pop(0)
    for x in items:
        r = I.call(a[0], [r, x], {})
    return r


def m_bisect_left(I, a, k):
    c = content(I, a[0])
    if isinstance(c, tuple):
        if not c:
            return 0
        t = seqtype(I, c)
        c = V(t, lift_seq(I, c, t))
    t = c.t
    x = zint(I, a[1])
    r = I.fresh("bis", INT)
    q, p = z3.Ints("q p")
    n = t.len(c.z)
    I.assume(z3.And(0 <= r, r <= n))
    key = ("bisect", c.z.get_id())
    ok = I.ghost.get(key)
    if ok is None:
        # the result is specified only for sorted input: a caller with an unsorted list gets an arbitrary value
        srt = z3.ForAll([q, p], z3.Implies(z3.And(0 <= q, q < p, p < n), t.at(c.z, q) <= t.at(c.z, p)))
        ok = I.ghost[key] = I.provable(srt)
    if ok:
        at = t.at(c.z, q)
        I.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < r), at < x), patterns=[at]))
        I.assume(z3.ForAll([q], z3.Implies(z3.And(r <= q, q < n), at >= x), patterns=[at]))
        el = listset(I, t, c.z)
        I.assume(z3.Implies(el[x], z3.And(r < n, t.at(c.z, r) == x)))
    return V(INT, r)


def c_defaultdict(I, a, k):
    f = a[0]
    return I.alloc("dict", {}, default=lambda: I.call(f, [], {}))


def c_deque(I, a, k):
    c = to_list(I, a[0]) if a else ()
    return I.alloc("deque", list(c) if isinstance(c, tuple) else c)


LIB = {}
for _n, _f in {
    "heapq.heappush": h_push, "heapq.heappop": h_pop, "heapq.heapify": h_heapify, "heapq.heappushpop": h_pushpop,
    "itertools.combinations": i_combinations, "itertools.count": i_count, "itertools.chain": i_chain,
    "functools.partial": f_partial, "functools.reduce": f_reduce, "bisect.bisect_left": m_bisect_left,
    "collections.defaultdict": c_defaultdict, "collections.deque": c_deque,
    "frozenset.union": lambda I, a, k: big_union(I, a), "set.union": lambda I, a, k: I.alloc("set", big_union(I, a)),
    "frozenset.intersection": lambda I, a, k: big_union(I, a, True),
    "operator.mul": lambda I, a, k: binop(I, ast.Mult(), a[0], a[1]), "operator.add": lambda I, a, k: binop(I, ast.Add(), a[0], a[1]),
    "threading.get_ident": lambda I, a, k: V(INT, I.th.fn("THREAD", z3.IntSort())[0]()),
    "operator.or_": lambda I, a, k: binop(I, ast.BitOr(), a[0], a[1]),
}.items():
    LIB[_n] = Builtin(_n, _f)
