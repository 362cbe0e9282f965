"""Cache wrappers (opt_einsum/sharing.py): a cached kernel returns what the kernel returns.

View: the cache in force is a dict from keys to tensors.  Tensors are opaque objects with an identity
number; an object is the same as another live object with the same number, but dead objects' numbers
are given out again.  Arguments of a call are live, and so is everything a cache entry or key refers to.
The wrapped kernel is a function of its arguments (operands are not modified while a cache refers to them).

Nothing here prescribes the key the code builds: the key is captured as a term over the arguments the first
time the code looks it up or stores under it, and the invariant of the cache is, for that very key term,

    for all arguments: if the key of the arguments is in the cache, then the operands with those identity
    numbers are held by the cache, and the entry is the kernel's result for them.

A key that leaves out an argument, or an entry whose operands are not held, cannot keep that invariant."""
import z3

from ..spec import *
from ..ty import *

M = "opt_einsum.sharing:"
TENSOR = OpaqueT("Tensor")
NAME = OpaqueT("Name")  # strings used as labels: equal exactly if the same label
KERNEL = OpaqueT("Kernel")
AXES = OpaqueT("Axes")  # content of a sequence of integers
INTS = ListT(INT)


def canon(I, z):
    """content of a list of integers: equal exactly if the lists are equal"""
    f, new = I.th.fn("CANON", INTS.sort(), AXES.sort())
    if new:
        a, b = z3.Consts("a b", INTS.sort())
        k = z3.Int("k")
        w = z3.Function("canonw", INTS.sort(), INTS.sort(), z3.IntSort())
        inv = z3.Function("CONTENT", AXES.sort(), INTS.sort())
        ww = w(a, b)
        I.th.ax("canon-content", z3.ForAll([a], z3.And(INTS.len(inv(f(a))) == INTS.len(a), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < INTS.len(a)), INTS.at(inv(f(a)), k) == INTS.at(a, k)))), patterns=[f(a)]))
        I.th.ax("canon-ext", z3.ForAll([a, b], z3.Or(f(a) == f(b), INTS.len(a) != INTS.len(b), z3.And(0 <= ww, ww < INTS.len(a), INTS.at(a, ww) != INTS.at(b, ww))), patterns=[z3.MultiPattern(f(a), f(b))]))
    return f(z)


class KeyT(OpaqueT):
    """hashable tuples used as cache keys, by injective constructors, one per shape"""

    def __init__(self):
        super().__init__("CacheKey")

    def component(self, I, v):
        if isinstance(v, V):
            if v.t in (NAME, TENSOR, INT, BOOL):
                if v.t == TENSOR:
                    raise Unsupported("a tensor as part of a key")
                return v.t.key, [v.z]
            if v.t == INTS:
                return "Axes", [canon(I, v.z)]
            if isinstance(v.t, TupT):
                return self.component(I, I.native_tuple(v))
            raise Unsupported(f"{v.t} as part of a key")
        if isinstance(v, str):
            return "Name", [I.th.opaque_const(NAME, v)]
        if isinstance(v, bool):
            return "Bool", [z3.BoolVal(v)]
        if isinstance(v, int):
            return "Int", [z3.IntVal(v)]
        if isinstance(v, tuple):
            ks, zs = [], []
            for x in v:
                k, z = self.component(I, x)
                ks.append(k)
                zs += z
            return "(" + ";".join(ks) + ")", zs
        if isinstance(v, Ref):
            c = I.cell(v)
            if c.kind == "obj":
                cls = c.extra.get("cls")
                if cls is None or cls.name != "_IdentityKey" or list(c.val) != ["obj"]:
                    raise Unsupported("an object as part of a key")
                return "Held", [I.lift(c.val["obj"], TENSOR)]
            return self.component(I, lib.content_of_value(I, v))
        raise Unsupported(f"{v!r} as part of a key")

    def lift_value(self, I, v):
        if isinstance(v, V) and v.t == self:
            return v.z
        if not isinstance(v, tuple):
            raise Unsupported(f"key {v!r}")
        shape, zs = self.component(I, v)
        z = self.make(I, shape, zs)
        h = getattr(I.cur_spec, "key_used", None)
        if h:
            h(I, z)
        return z

    def make(self, I, shape, zs):
        f, new = I.th.fn("KEY" + shape, *[z.sort() for z in zs], self.sort())
        if new:
            if not hasattr(I.th, "keyshapes"):
                I.th.keyshapes = []
            for s in I.th.keyshapes:
                if not self.distinct(s, shape):
                    raise Unsupported(f"keys of shapes {s} and {shape} may be equal")
            tag, _ = I.th.fn("KEYTAG", self.sort(), z3.IntSort())
            xs = [z3.Const(f"kx{i}", z.sort()) for i, z in enumerate(zs)]
            pr = [z3.Function(f"KEYPROJ{i}{shape}", self.sort(), z.sort()) for i, z in enumerate(zs)]
            I.th.ax("key" + shape, z3.ForAll(xs, z3.And(tag(f(*xs)) == len(I.th.keyshapes), *[p(f(*xs)) == x for p, x in zip(pr, xs)]), patterns=[f(*xs)]))
            I.th.keyshapes.append(shape)
        return f(*zs)

    @staticmethod
    def distinct(a, b):
        """tuples of these shapes are never equal"""
        def parts(s):
            out, d, cur = [], 0, ""
            for ch in s[1:-1]:
                d += (ch == "(") - (ch == ")")
                if ch == ";" and d == 0:
                    out.append(cur)
                    cur = ""
                else:
                    cur += ch
            return out + [cur]

        cl = {"Int": "num", "Bool": "num"}
        p, q = parts(a), parts(b)
        if len(p) != len(q):
            return True
        for x, y in zip(p, q):
            x, y = ("seq" if k.startswith("(") or k == "Axes" else cl.get(k, k) for k in (x, y))
            if x != y:
                return True
        return False


KEY = KeyT()
CACHE = DictT(KEY, TENSOR)


def cached(I):
    return isinstance(getattr(I, "cur_spec", None), _Cached)


def get_cache(I):
    if not cached(I):
        return None
    return Builtin("get_sharing_cache", lambda I, a, k: I.ghost["cache"])


def sharing(I):
    if not cached(I):
        return None
    return Builtin("currently_sharing", lambda I, a, k: V(BOOL, I.ghost["sharing"]))


def ID(I, z):
    return I.th.fn("ID_" + TENSOR.key, TENSOR.sort(), z3.IntSort())[0](z)


def mentions(z, x):
    return z.eq(x) or any(mentions(c, x) for c in z.children())


class _Cached(Contract):
    """verified as a whole: the wrapper is applied to an unknown kernel and the function it returns is called"""

    props = ("C12",)
    variants = ()

    def args(self, I, variant):
        """name -> value of the arguments of the cached function"""

    def call_args(self, a):
        """(args, kwargs) of the call of the cached function"""

    def direct(self, I, a, variant):
        """the kernel's own result"""

    def terms(self, I, a, variant):
        """SMT terms of the arguments the kernel depends on: [(term, is a tensor)] -- first variant only"""

    def T(self, I, *zs):
        return I.th.fn("RESULT_" + self.kernel, *[z.sort() for z in zs], TENSOR.sort())[0](*zs)

    def pin(self, I, i):
        return KEY.make(I, "(Name;Int)", [I.th.opaque_const(NAME, "tensor"), i])

    def pins_ok(self, I, d):
        i = z3.Int("pi")
        k = self.pin(I, i)
        v = z3.Select(CACHE.val(d), k)
        return z3.ForAll([i], z3.Implies(z3.Select(CACHE.dom(d), k), ID(I, v) == i), patterns=[k])

    def entries_ok(self, I, d, tpl):
        """tpl: (key term, argument terms with kinds)"""
        key, args = tpl
        xs = [z3.Const(f"e{i}", z.sort()) for i, (z, _) in enumerate(args)]
        kz = z3.substitute(key, *[(z, x) for (z, _), x in zip(args, xs)])
        held = []
        eff = []
        for (z, ten), x in zip(args, xs):
            if not ten or self.kept(key, z):
                eff.append(x)
            else:
                p = self.pin(I, ID(I, x))
                o = z3.Select(CACHE.val(d), p)
                held += [z3.Select(CACHE.dom(d), p), ID(I, o) == ID(I, x)]
                eff.append(o)
        return z3.ForAll(xs, z3.Implies(z3.Select(CACHE.dom(d), kz), z3.And(*held, z3.Select(CACHE.val(d), kz) == self.T(I, *eff))), patterns=[kz] if all(mentions(kz, x) for x in xs) else [])

    def kept(self, key, z):
        """the key itself keeps the object alive"""
        return any(c.eq(z) for c in key.children())

    def key_used(self, I, z):
        if self.busy:
            return
        if z.decl().name() == "KEY(Name;Int)" and z.arg(0).eq(I.th.opaque_const(NAME, "tensor")):
            return
        if self.variant == self.variants[0]:
            if not any(z.eq(t[0]) for t in self.tpls):
                self.tpls.append((z, self.terms(I, self.a, self.variant)))
        for t in self.tpls:
            self.know(I, t)

    def know(self, I, t):
        if not any(t[0].eq(u) for u in I.ghost["known"]):
            I.ghost["known"].append(t[0])
            I.assume(self.entries_ok(I, I.ghost["cache0"], t))

    busy = False

    def verify(self, I, f, only=None):
        I.cur_spec = self
        self.tpls = []
        for rnd in range(3):
            n = len(self.tpls)
            for v in self.variants:
                self.variant = v
                I.task = f"{short(self.qual)}[{v}]"
                reach = [0]

                def thunk(task=I.task):
                    I.task = task
                    I.cur_spec = self
                    I.verifying = (f.node,)
                    I.env = Env(None, f.module)
                    c = Ctx(I, {})
                    self.one(I, f, c, v)
                    reach[0] += 1

                I.explore(thunk, self.qual)
                if not reach[0]:
                    raise Vacuous(f"{self.qual}: no path reaches the postcondition")
            if len(self.tpls) == n:
                break
        if not self.tpls:
            raise Unsupported(f"{self.qual}: no key is used")

    def wrapper(self, I, f, v):
        return I.run_func(f, {f.node.args.args[0].arg: V(KERNEL, I.th.fn("THEKERNEL", KERNEL.sort())[0]())})

    def one(self, I, f, c, v):
        I.ghost["cache"] = I.alloc("dict", I.freshv("cache", CACHE))
        I.ghost["sharing"] = I.fresh("sharing", BOOL)
        d0 = lib.content(I, I.ghost["cache"]).z
        I.ghost["cache0"] = d0
        I.ghost["known"] = []
        self.a = self.args(I, v)
        live = [x.z for x in self.a.values() if isinstance(x, V) and x.t == TENSOR]
        i = z3.Int("li")
        I.assume(self.pins_ok(I, d0))
        for x in live:
            for y in live:
                if x is not y:
                    I.assume(z3.Implies(ID(I, x) == ID(I, y), x == y))
            p = self.pin(I, ID(I, x))
            I.assume(z3.Implies(z3.And(z3.Select(CACHE.dom(d0), p), ID(I, z3.Select(CACHE.val(d0), p)) == ID(I, x)), z3.Select(CACHE.val(d0), p) == x))
        self.axioms(I, self.a, v)
        for t in self.tpls:
            self.know(I, t)
        g = self.wrapper(I, f, v)
        args, kw = self.call_args(self.a)
        try:
            r = I.call(g, args, kw)
        except PyExc as e:
            I.obligation(z3.BoolVal(False), f"no unexpected {e.name}")
            raise PathEnd()
        I.obligation(I.lift(r, TENSOR) == self.direct(I, self.a, v), "ensures the result is the kernel's result")
        d = lib.content(I, I.ghost["cache"]).z
        I.obligation(z3.Implies(z3.Not(I.ghost["sharing"]), d == d0), "ensures no cache is touched outside of a scope")
        I.obligation(self.pins_ok(I, d), "invariant: held operands are kept under their own number")
        for n, t in enumerate(self.tpls):
            for q, g2 in enumerate([self.entries_ok(I, d, t)]):
                I.obligation(g2, f"invariant: entries are results for the operands held (key form {n})")

    def axioms(self, I, a, v):
        pass

    def same_args(self, I, a, names):
        raise NotImplementedError

    def opaque_attr(self, I, base, attr):
        if base.t == KERNEL and attr == "__name__":
            return V(NAME, I.th.fn("KERNELNAME", KERNEL.sort(), NAME.sort())[0](base.z))
        if base.t == TENSOR and attr == "shape":
            return V(INTS, self.shape(I, base.z))
        if base.t == TENSOR and attr == "ndim":
            return V(INT, INTS.len(self.shape(I, base.z)))
        raise Unsupported(f"attribute {attr}")

    def shape(self, I, z):
        f, new = I.th.fn("SHAPE", TENSOR.sort(), INTS.sort())
        if new:
            t = z3.Const("t", TENSOR.sort())
            I.th.ax("shape-len", z3.ForAll([t], INTS.len(f(t)) >= 0, patterns=[f(t)]))
        return f(z)

    def pick(self, I, args, kw, names, defaults):
        """arguments of a kernel call by the kernel's parameter names"""
        out = dict(zip(names, args))
        if len(args) > len(names):
            raise PyExc("TypeError", "too many arguments")
        for k, v in kw.items():
            if k in out or k not in names:
                raise PyExc("TypeError", f"argument {k}")
            out[k] = v
        for k, v in defaults.items():
            out.setdefault(k, v)
        for k in names:
            if k not in out:
                raise PyExc("TypeError", f"missing {k}")
        return out

    def axesz(self, I, v):
        v = lib.content_of_value(I, v) if isinstance(v, Ref) else v
        return canon(I, I.lift(v, INTS))


class Transpose(_Cached):
    qual = M + "transpose_cache_wrap"
    kernel = "transpose"
    variants = ("axes",)

    def args(self, I, v):
        return dict(a=I.freshv("a", TENSOR), axes=I.freshv("axes", INTS), backend=I.freshv("backend", NAME))

    def call_args(self, a):
        return [a["a"], a["axes"]], dict(backend=a["backend"])

    def terms(self, I, a, v):
        return [(a["a"].z, True), (canon(I, a["axes"].z), False), (a["backend"].z, False)]

    def direct(self, I, a, v):
        return self.T(I, *[z for z, _ in self.terms(I, a, v)])

    def opaque_call(self, I, f, args, kw):
        p = self.pick(I, args, kw, ["a", "axes", "backend"], {"backend": "numpy"})
        return V(TENSOR, self.T(I, I.lift(p["a"], TENSOR), self.axesz(I, p["axes"]), I.lift(p["backend"], NAME)))


class Tensordot(_Cached):
    qual = M + "tensordot_cache_wrap"
    kernel = "tensordot"
    variants = ("pair of axes lists", "number of axes")

    def args(self, I, v):
        a = dict(x=I.freshv("x", TENSOR), y=I.freshv("y", TENSOR), backend=I.freshv("backend", NAME))
        if v == "number of axes":
            a["n"] = I.freshv("n", INT)
            for t in "xy":
                I.assume(z3.And(0 <= a["n"].z, a["n"].z <= INTS.len(self.shape(I, a[t].z))))
        else:
            a["ax"], a["ay"] = I.freshv("ax", INTS), I.freshv("ay", INTS)
        return a

    def call_args(self, a):
        return [a["x"], a["y"], a["n"] if "n" in a else (a["ax"], a["ay"])], dict(backend=a["backend"])

    def terms(self, I, a, v):
        return [(a["x"].z, True), (a["y"].z, True), (canon(I, a["ax"].z), False), (canon(I, a["ay"].z), False), (a["backend"].z, False)]

    def N(self, I, x, y, n, b):
        return I.th.fn("RESULT_tensordot_n", TENSOR.sort(), TENSOR.sort(), z3.IntSort(), NAME.sort(), TENSOR.sort())[0](x, y, n, b)

    def axioms(self, I, a, v):
        if "n" not in a:
            return
        # what a number of axes means: the last n of x with the first n of y
        p, q = z3.Consts("p q", INTS.sort())
        k = z3.Int("k")
        x, y, n, b = a["x"].z, a["y"].z, a["n"].z, a["backend"].z
        r = INTS.len(self.shape(I, x))
        last = z3.And(INTS.len(p) == n, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), INTS.at(p, k) == r - n + k)))
        first = z3.And(INTS.len(q) == n, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), INTS.at(q, k) == k)))
        t = self.T(I, x, y, canon(I, p), canon(I, q), b)
        I.assume(z3.ForAll([p, q], z3.Implies(z3.And(last, first), t == self.N(I, x, y, n, b)), patterns=[t, z3.MultiPattern(canon(I, p), canon(I, q))]))

    def direct(self, I, a, v):
        if "n" in a:
            return self.N(I, a["x"].z, a["y"].z, a["n"].z, a["backend"].z)
        return self.T(I, *[z for z, _ in self.terms(I, a, v)])

    def opaque_call(self, I, f, args, kw):
        p = self.pick(I, args, kw, ["x", "y", "axes", "backend"], {"backend": "numpy", "axes": 2})
        x, y, b = I.lift(p["x"], TENSOR), I.lift(p["y"], TENSOR), I.lift(p["backend"], NAME)
        ax = p["axes"]
        ax = lib.content(I, ax) if isinstance(ax, Ref) else ax
        if isinstance(ax, V) and ax.t == INT or isinstance(ax, int):
            return V(TENSOR, self.N(I, x, y, I.lift(ax, INT), b))
        if isinstance(ax, V):
            ax = I.native_tuple(ax)
        if isinstance(ax, list):
            ax = tuple(ax)
        if not isinstance(ax, tuple) or len(ax) != 2:
            raise Unsupported("axes")
        return V(TENSOR, self.T(I, x, y, self.axesz(I, ax[0]), self.axesz(I, ax[1]), b))


class ToBackend(_Cached):
    qual = M + "to_backend_cache_wrap"
    kernel = "to_backend"
    variants = ("without constants",)
    constants = False

    def wrapper(self, I, f, v):
        return I.run_func(f, I.bind_args(f, [V(KERNEL, I.th.fn("THEKERNEL", KERNEL.sort())[0]())], dict(constants=True) if self.constants else {}))

    def args(self, I, v):
        a = dict(array=I.freshv("array", TENSOR))
        if self.constants:
            a["constant"] = I.freshv("constant", BOOL)
        return a

    def call_args(self, a):
        return [a["array"]], ({"constant": a["constant"]} if self.constants else {})

    def terms(self, I, a, v):
        return [(a["array"].z, True)] + ([(a["constant"].z, False)] if self.constants else [])

    def direct(self, I, a, v):
        return self.T(I, *[z for z, _ in self.terms(I, a, v)])

    def opaque_call(self, I, f, args, kw):
        p = self.pick(I, args, kw, ["array", "constant"] if self.constants else ["array"], {"constant": False} if self.constants else {})
        return V(TENSOR, self.T(I, I.lift(p["array"], TENSOR), *([I.lift(p["constant"], BOOL)] if self.constants else [])))


class ToBackendConst(ToBackend):
    qual = M + "to_backend_cache_wrap#constants"
    constants = True
    variants = ("with constants",)


class _Ident(Contract):
    props = ("C12",)
    CLS = M + "_IdentityKey"


class IdentEq(_Ident):
    qual = M + "_IdentityKey.__eq__"
    params = [dict(self=Obj(_Ident.CLS, {"obj": TENSOR}), other=Obj(_Ident.CLS, {"obj": TENSOR})), dict(self=Obj(_Ident.CLS, {"obj": TENSOR}), other=INT)]
    ret = BOOL

    def ensures(self, c):
        o = c.old["other"]
        if isinstance(o, dict):
            return [("equal exactly if the same object", c.res(BOOL) == (c.old["self"]["obj"].z == o["obj"].z))]
        return [("never equal to a number", z3.Not(c.res(BOOL)))]


class IdentHash(_Ident):
    qual = M + "_IdentityKey.__hash__"
    params = [dict(self=Obj(_Ident.CLS, {"obj": TENSOR}))]
    ret = INT

    def ensures(self, c):
        f, new = c.I.th.fn("HASHOF", TENSOR.sort(), z3.IntSort())
        return [("a function of the object alone", c.res(INT) == ID(c.I, c.old["self"]["obj"].z))]


OVERRIDES = {("opt_einsum.sharing", "get_sharing_cache"): get_cache, ("opt_einsum.sharing", "currently_sharing"): sharing}
ALL = [Transpose(), Tensordot(), ToBackend(), ToBackendConst(), IdentEq(), IdentHash()]
