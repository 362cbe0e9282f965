"""Contracts, their registry, and the per-function verification driver."""
import ast

import z3

from . import lib
from .engine import *
from .engine import LoopCtx, UNDEF
from .theory import Theory
from .ty import *


class P:
    """How to build a parameter: a type plus a container kind (None: immutable value)."""

    def __init__(self, t, kind=None):
        self.t, self.kind = t, kind


class Const:
    """A parameter fixed to a concrete value in this variant."""

    def __init__(self, v):
        self.v = v


class Obj:
    """An instance of a repository class with the given attributes."""

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


class Build:
    """fn(I) -> value"""

    def __init__(self, fn):
        self.fn = fn


class Ctx:
    """What requires/ensures may talk about."""

    def __init__(self, I, vals):
        self.I, self.vals = I, vals
        self.old = {}
        self.result = None
        self.g = {}
        for k, v in vals.items():
            self.old[k] = self._snap(v)

    def _snap(self, v):
        I = self.I
        if isinstance(v, Ref):
            c = I.cell(v)
            if c.kind == "obj":
                return {a: self._snap(x) for a, x in c.val.items()}
            if isinstance(c.val, V):
                return c.val
            if c.kind in ("list", "deque"):
                return tuple(c.val)
            if c.kind == "dict":
                return dict(c.val)
            return c.val
        return v

    def __getitem__(self, k):
        """entry value of a parameter as an SMT term"""
        v = self.old[k]
        if isinstance(v, V):
            return v.z
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, int):
            return z3.IntVal(v)
        raise Unsupported(f"contract term for {k}: {v!r}")

    def z(self, k, t):
        return self.I.lift(self.old[k], t)

    def has(self, k):
        return k in self.old

    def now(self, k, t):
        return self.I.lift(lib.content(self.I, self.vals[k]), t)

    def res(self, t):
        r = self.result
        if isinstance(r, Ref):
            r = lib.content(self.I, r)
            if isinstance(r, (tuple, frozenset, dict)):
                r = self.result
        if isinstance(r, tuple):
            r = tuple(lib.content_of_value(self.I, x) for x in r)
        return self.I.lift(r, t)

    def part(self, i, t):
        r = self.result
        r = self.I.native_tuple(r) if isinstance(r, V) else r
        if isinstance(r, Ref):
            r = lib.content(self.I, r)
        x = r[i]
        return self.I.lift(x, t)


class Contract:
    qual = None
    params = []  # list of variants: dict name -> P | Const | Obj | Build | Type
    ret = None  # Type | P | None(=None value) | fn(ctx)->spec
    modifies = ()
    types = {}
    closure = False
    pure = False
    trusted = False
    props = ()

    def requires(self, c):
        return []

    def ensures(self, c):
        return []

    def raises(self, c):
        """exception name -> condition (over entry state) under which it may escape"""
        return {}

    def loops(self, x):
        """candidate invariants: list of (name, fn(LoopCtx) -> Bool)"""
        return []

    def setup(self, c):
        """extra facts/ghost state when verifying the body"""

    # ------------------------------------------------------------ use at call sites
    def apply(self, I, f, args, kw):
        I.S.used_contracts.add(self.qual)
        vals = I.bind_args(f, args, kw)
        vals = self.fit(I, vals)
        vals = self.with_captured(I, f, vals)
        c = Ctx(I, vals)
        self.prepare(I, c, f)
        for nm, g in self.requires(c):
            I.obligation(g, f"call {short(self.qual)} requires {nm}")
            I.assume(g)
        for exc, cond in self.raises(c).items():
            cz = cond if not isinstance(cond, bool) else z3.BoolVal(cond)
            if z3.is_false(z3.simplify(cz)):
                continue
            if I.choose(2) == 0:
                I.assume(cz)
                if not I.feasible(z3.BoolVal(True)):
                    raise PathEnd()
                raise PyExc(exc, f"from {self.qual}")
        self.havoc_frame(I, c)
        c.result = self.make_result(I, c)
        for nm, g in self.ensures(c):
            I.assume(g)
        return c.result

    def prepare(self, I, c, f):
        pass

    def fit(self, I, vals):
        """coerce actual arguments to the first matching variant"""
        last = None
        for var in self.params:
            try:
                out = {}
                for k, v in vals.items():
                    p = var.get(k)
                    if p is None:
                        out[k] = v
                        continue
                    if isinstance(p, Type):
                        p = P(p)
                    if isinstance(p, Const):
                        if isinstance(v, (V, Ref)) or v != p.v:
                            raise Unsupported("const parameter")
                        out[k] = v
                    elif isinstance(p, P):
                        if isinstance(v, Ref) and I.cell(v).kind != "obj" and p.kind and k in self.modifies:
                            z = I.lift(v, p.t)
                            cell = I.cell(v)
                            if not isinstance(cell.val, V):
                                cell.val = V(p.t, z)
                            out[k] = v
                        else:
                            vv = v
                            if isinstance(vv, (lib.It, lib.GenExp)):
                                if isinstance(p.t, SetT):
                                    vv = lib.toset(I, vv)
                                else:
                                    vv = lib.to_list(I, vv)
                            cvv = lib.content(I, vv) if isinstance(vv, Ref) else vv
                            if isinstance(cvv, frozenset) and isinstance(p.t, SetT):
                                z = lib.as_set(I, cvv, p.t)
                            elif isinstance(cvv, V) and isinstance(cvv.t, SetT) and isinstance(p.t, SetT) and cvv.t != p.t:
                                raise Unsupported("set type")
                            else:
                                if isinstance(vv, (V,)) and not compatible(vv.t, p.t):
                                    raise Unsupported("type mismatch")
                                z = I.lift(vv, p.t)
                            out[k] = V(p.t, z)
                    else:
                        out[k] = v
                return out
            except Unsupported as e:
                last = e
        raise Unsupported(f"arguments of {self.qual} fit no contract variant ({last})")

    def havoc_frame(self, I, c):
        for k in self.modifies:
            v = c.vals.get(k)
            if isinstance(v, Ref):
                self.havoc_ref(I, k, v)

    def havoc_ref(self, I, k, v):
        cell = I.write(v)
        t = self.types.get(k)
        if t is not None:
            cell.val = I.freshv(k, t)
        elif isinstance(cell.val, V):
            cell.val = I.freshv(k, cell.val.t)
        elif cell.kind == "dict" and cell.val:
            for q, x in list(cell.val.items()):
                cell.val[q] = I.native_tuple(I.freshv(f"{k}_{q}", self.types.get(f"{k}.{q}") or I.typeof(x)))
        else:
            raise Unsupported(f"havoc of {k}")

    def with_captured(self, I, f, vals):
        """captured variables of a nested function, by name"""
        if not self.closure:
            return vals
        vals = dict(vals)
        for nm in self.captures:
            e = f.env.find(nm)
            if e is None:
                raise Unsupported(f"{self.qual}: captured variable {nm} not found")
            vals[nm] = e.vars[nm]
        return vals

    captures = ()

    def verify_closure(self, I, f):
        save = I.cur_spec
        I.closures = I.closures + [f.node]
        I.cur_spec = self
        I.loopstack = []
        a = f.node.args
        var = self.params[0]
        vals = {}
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg not in var:
                raise Unsupported(f"{self.qual}: parameter {x.arg} has no contract type")
            vals[x.arg] = build_value(I, var[x.arg], x.arg)
        full = self.with_captured(I, f, vals)
        for k in self.modifies:
            if k in full:
                self.havoc_ref(I, k, full[k])
        c = Ctx(I, full)
        self.prepare(I, c, f)
        for nm, g in self.requires(c):
            I.assume(g)
        if not I.feasible_now():
            raise Vacuous(f"{self.qual}: precondition is contradictory")
        self.setup(c)
        before = {l: x.copy() for l, x in I.heap.items()}
        mods = {full[k].loc for k in self.modifies if k in full}
        task, I.task = I.task, I.task + "/" + short(self.qual).split(".")[-1]
        try:
            c.result = I.run_func(f, vals)
        except PyExc as e:
            cond = self.raises(c).get(e.name, False)
            I.obligation(cond if not isinstance(cond, bool) else z3.BoolVal(cond), f"no unexpected {e.name}")
            raise PathEnd()
        for nm, g in self.ensures(c):
            if I.obligation(g, f"ensures {nm}"):
                I.assume(g)
        for l, x in before.items():
            if l in mods:
                continue
            y = I.heap[l]
            same = (isinstance(x.val, V) and isinstance(y.val, V) and x.val.z.eq(y.val.z)) or (not isinstance(x.val, V) and not isinstance(y.val, V) and x.val == y.val)
            I.obligation(z3.BoolVal(bool(same)), "frame: nothing else modified")

    def make_result(self, I, c):
        r = self.ret(c) if callable(self.ret) and not isinstance(self.ret, Type) else self.ret
        return build_value(I, r, "res_" + short(self.qual))

    def candidates(self, ctx):
        return [Cand(n, f) for n, f in self.loops(ctx)]

    # ------------------------------------------------------------ verification
    def verify(self, I, f, only=None):
        """generate and discharge every obligation of the function"""
        I.cur_spec = self
        for vi, var in enumerate(self.params):
            I.task = short(self.qual) + (f"[{vi}]" if len(self.params) > 1 else "")
            reach = [0]

            def thunk(task=I.task):
                I.task = task
                I.cur_spec = self
                I.verifying = (f.node,)
                I.env = Env(None, f.module)
                vals = {}
                a = f.node.args
                names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
                if f.self_ is None and a.args and "self" in var and names[0] not in var:
                    var2 = dict(var)
                    var2[names[0]] = var["self"]
                else:
                    var2 = var
                for extra in (a.vararg, a.kwarg):
                    if extra:
                        names.append(extra.arg)
                for nm in names:
                    if nm in var2:
                        vals[nm] = build_value(I, var2[nm], nm)
                missing = [nm for nm in names if nm not in var2]
                if missing:
                    d = dict(zip([x.arg for x in (a.posonlyargs + a.args)][::-1], a.defaults[::-1]))
                    for nm in missing:
                        if nm in d:
                            vals[nm] = I.ev_in_module(d[nm], f.module)
                        elif a.kwarg and nm == a.kwarg.arg:
                            vals[nm] = I.alloc("dict", {})
                        elif a.vararg and nm == a.vararg.arg:
                            vals[nm] = ()
                        else:
                            raise Unsupported(f"{self.qual}: parameter {nm} has no contract type")
                for nm in var2:
                    if nm not in names and nm != "self" and not nm.startswith("_"):
                        raise Unsupported(f"{self.qual}: contract parameter {nm} not found in the source")
                c = Ctx(I, vals)
                self.prepare(I, c, f)
                for nm, g in self.requires(c):
                    I.assume(g)
                if not I.trace and not I.feasible_now():
                    raise Vacuous(f"{self.qual}: precondition is contradictory")
                self.setup(c)
                frames = self.frame_snapshot(I, c)
                self.run_and_check(I, f, vals, c, frames, reach)

            I.S.loops.clear()
            self.reached = False
            I.explore(thunk, self.qual)
            if not reach[0] and not getattr(self, "reached", False):
                raise Vacuous(f"{self.qual}: no path reaches the postcondition")

    def run_and_check(self, I, f, vals, c, frames, reach):
        try:
            c.result = I.run_func(f, vals)
        except PyExc as e:
            cond = self.raises(c).get(e.name, False)
            line = getattr(e.node or I.curnode, "lineno", 0)
            I.obligation(cond if not isinstance(cond, bool) else z3.BoolVal(cond), f"no unexpected {e.name}")
            raise PathEnd()
        reach[0] += 1
        for nm, g in self.ensures(c):
            if I.obligation(g, f"ensures {nm}"):
                I.assume(g)
        self.check_frame(I, c, frames)

    def frame_snapshot(self, I, c):
        out = []
        for k, v in c.vals.items():
            if isinstance(v, Ref) and k not in self.modifies:
                self._snap(I, k, v, out)
        return out

    def _snap(self, I, k, v, out):
        cell = I.cell(v)
        if cell.kind == "obj":
            for a, x in cell.val.items():
                if f"{k}.{a}" in self.modifies:
                    continue
                if isinstance(x, Ref):
                    self._snap(I, f"{k}.{a}", x, out)
        else:
            out.append((k, v, cell.val if isinstance(cell.val, V) else (list(cell.val) if isinstance(cell.val, list) else dict(cell.val) if isinstance(cell.val, dict) else cell.val)))

    def check_frame(self, I, c, frames):
        for k, ref, val in frames:
            now = I.cell(ref).val
            if isinstance(val, V) and isinstance(now, V):
                if now.z.eq(val.z):
                    I.obligation(z3.BoolVal(True), f"frame: {k} unchanged")
                else:
                    g = I.eq(now, val)
                    I.obligation(g if not isinstance(g, bool) else z3.BoolVal(g), f"frame: {k} unchanged")
            else:
                same = type(now) is type(val) and now == val
                I.obligation(z3.BoolVal(same), f"frame: {k} unchanged")


def compatible(a, b):
    if a == b:
        return True
    if isinstance(a, OptT) or isinstance(b, OptT):
        return True
    if {a.key, b.key} <= {"Int", "XInt", "Bool"}:
        return True
    if {a.key, b.key} <= {"Char", "List<Char>"}:
        return True
    if isinstance(a, TupT) and isinstance(b, (TupT, ListT)):
        return True
    if a is TREE or b is TREE:
        return True
    return False


class Vacuous(Exception):
    pass


def short(q):
    return q.split(":")[-1]


def build_value(I, r, nm):
    if r is None:
        return None
    if isinstance(r, Const):
        return r.v
    if isinstance(r, Build):
        return r.fn(I)
    if isinstance(r, Type):
        return I.native_tuple(I.freshv(nm, r))
    if isinstance(r, P):
        v = I.freshv(nm, r.t)
        if r.kind is None:
            return I.native_tuple(v)
        return I.alloc(r.kind, v)
    if isinstance(r, tuple):
        return tuple(build_value(I, x, f"{nm}{i}") for i, x in enumerate(r))
    if isinstance(r, Obj):
        mod, cn = r.cls.split(":")
        m = load_module(mod)
        cls = I.global_lookup(cn, m)
        if not isinstance(cls, Cls):
            raise Unsupported(f"class {r.cls}")
        return I.alloc("obj", {a: build_value(I, x, a) for a, x in r.attrs.items()}, cls=cls)
    raise Unsupported(f"contract type {r!r}")


class Registry:
    def __init__(self):
        self.by_qual = {}
        self.overrides = {}

    def add(self, c):
        self.by_qual[c.qual] = c
        return c

    # what an opaque value does is said by the contract being verified
    def _ask(self, I, what, *a):
        h = getattr(I.cur_spec, what, None)
        if h is None:
            raise Unsupported(f"{what} of an opaque value")
        return h(I, *a)

    def opaque_call(self, I, f, args, kw):
        return self._ask(I, "opaque_call", f, args, kw)

    def opaque_attr(self, I, base, attr):
        return self._ask(I, "opaque_attr", base, attr)

    def opaque_getitem(self, I, base, idx):
        return self._ask(I, "opaque_getitem", base, idx)

    def opaque_contains(self, I, x, s):
        return self._ask(I, "opaque_contains", x, s)

    def opaque_len(self, I, v):
        return self._ask(I, "opaque_len", v)

    def opaque_isinstance(self, I, v, names):
        return self._ask(I, "opaque_isinstance", v, names)

    def opaque_hasattr(self, I, v, n):
        return self._ask(I, "opaque_hasattr", v, n)

    def contract_for(self, I, f):
        c = self.by_qual.get(f.qual)
        if c is None or (I.exclude_contracts and f.qual in I.exclude_contracts):
            return None
        return c

    def global_override(self, I, mod, name):
        f = self.overrides.get((mod, name))
        return f(I) if f else None

    def find_function(self, qual):
        mod, q = qual.split("#")[0].split(":")
        m = load_module(mod)
        parts = q.split(".")
        d = m.defs.get(parts[0])
        if isinstance(d, tuple) and d[0] == "from":
            raise Unsupported(f"{qual} is imported from elsewhere")
        if isinstance(d, ast.FunctionDef):
            if len(parts) == 1:
                return Func(d, m, qual)
            raise Unsupported("nested")
        if isinstance(d, ast.ClassDef):
            cls = Cls(d, m)
            for s in d.body:
                if isinstance(s, ast.FunctionDef) and s.name == parts[1] and not any(isinstance(x, ast.Attribute) and x.attr == "setter" for x in s.decorator_list):
                    return Func(s, m, qual, cls=cls)
        raise Unsupported(f"function {qual} not found in the source")
