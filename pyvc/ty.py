"""Types of the verified Python subset and their SMT sorts; values; lifting."""
import z3


def _multipattern(*args):
    """z3.MultiPattern drops its last reference to temporaries before using them"""
    keep = list(args)
    a, sz = z3.z3._to_ast_array(keep)
    r = z3.PatternRef(z3.Z3_mk_pattern(keep[0].ctx.ref(), sz, a), keep[0].ctx)
    del keep
    return r


z3.MultiPattern = _multipattern


class Unsupported(Exception):
    """The source uses something outside the verifier's reach (not a violation)."""


class Type:
    key = "?"

    def __eq__(self, o):
        return isinstance(o, Type) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return self.key


class _Prim(Type):
    def __init__(self, key, sort):
        self.key, self._sort = key, sort

    def sort(self):
        return self._sort


INT = _Prim("Int", z3.IntSort())
BOOL = _Prim("Bool", z3.BoolSort())
CHAR = _Prim("Char", z3.IntSort())  # a one-character str, by code point
REAL = _Prim("Real", z3.RealSort())
_X = z3.Datatype("XInt")
_X.declare("xmk", ("xinf", z3.BoolSort()), ("xval", z3.IntSort()))
_X = _X.create()
XINT = _Prim("XInt", _X)  # int or +inf (canonical: xval = 0 when infinite)
XZERO = z3.IntVal(0)


def xmk(inf, val):
    return _X.xmk(inf, val)


_sorts = {}


def _dt(key, ctor, fields):
    if key not in _sorts:
        d = z3.Datatype(key)
        d.declare(ctor, *fields)
        _sorts[key] = d.create()
    return _sorts[key]


class ListT(Type):
    """list or tuple of one element type and symbolic length."""

    def __init__(self, el):
        self.el = el
        self.key = f"List<{el.key}>"

    def sort(self):
        return _dt(self.key, "mk_" + self.key, [("len_" + self.key, z3.IntSort()), ("arr_" + self.key, z3.ArraySort(z3.IntSort(), self.el.sort()))])

    def mk(self, n, arr):
        return self.sort().constructor(0)(n, arr)

    def len(self, z):
        return z3.simplify(self.sort().accessor(0, 0)(z)) if z.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR else self.sort().accessor(0, 0)(z)

    def arr(self, z):
        if z.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
            return z.arg(1)
        return self.sort().accessor(0, 1)(z)

    def at(self, z, i):
        return z3.Select(self.arr(z), i)


class StrT_(ListT):
    """str of symbolic length: a list of code points."""

    def __init__(self):
        self.el = CHAR
        self.key = "List<Char>"


STR = StrT_()


class SetT(Type):
    def __init__(self, el):
        self.el = el
        self.key = f"Set<{el.key}>"

    def sort(self):
        return z3.ArraySort(self.el.sort(), z3.BoolSort())

    def empty(self):
        return z3.K(self.el.sort(), z3.BoolVal(False))


class DictT(Type):
    def __init__(self, k, v):
        self.k, self.v = k, v
        self.key = f"Dict<{k.key},{v.key}>"

    def sort(self):
        return _dt(self.key, "mk_" + self.key, [("dom_" + self.key, z3.ArraySort(self.k.sort(), z3.BoolSort())), ("val_" + self.key, z3.ArraySort(self.k.sort(), self.v.sort()))])

    def mk(self, d, v):
        return self.sort().constructor(0)(d, v)

    def dom(self, z):
        if z.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
            return z.arg(0)
        return self.sort().accessor(0, 0)(z)

    def val(self, z):
        if z.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
            return z.arg(1)
        return self.sort().accessor(0, 1)(z)


class TupT(Type):
    def __init__(self, *els):
        self.els = els
        self.key = "Tup<" + ",".join(e.key for e in els) + ">"

    def sort(self):
        return _dt(self.key, "mk_" + self.key, [(f"t{i}_" + self.key, e.sort()) for i, e in enumerate(self.els)])

    def mk(self, *xs):
        return self.sort().constructor(0)(*xs)

    def get(self, z, i):
        if z.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
            return z.arg(i)
        return self.sort().accessor(0, i)(z)


class OptT(Type):
    def __init__(self, el):
        self.el = el
        self.key = f"Opt<{el.key}>"

    def sort(self):
        if self.key not in _sorts:
            d = z3.Datatype(self.key)
            d.declare("none_" + self.key)
            d.declare("some_" + self.key, ("get_" + self.key, self.el.sort()))
            _sorts[self.key] = d.create()
        return _sorts[self.key]

    def none(self):
        return self.sort().constructor(0)()

    def some(self, z):
        return self.sort().constructor(1)(z)

    def is_none(self, z):
        return self.sort().recognizer(0)(z)

    def get(self, z):
        return self.sort().accessor(1, 0)(z)


class OpaqueT(Type):
    """An uninterpreted sort (tensors, callables the proof knows only by contract...)."""

    def __init__(self, name):
        self.key = name

    def sort(self):
        if self.key not in _sorts:
            _sorts[self.key] = z3.DeclareSort(self.key)
        return _sorts[self.key]


class TreeT_(Type):
    """Contraction trees of the dp optimizer: int leaf | 1-tuple | 2-tuple."""

    key = "Tree"

    def sort(self):
        if "Tree" not in _sorts:
            d = z3.Datatype("Tree")
            d.declare("leaf", ("leaf_id", z3.IntSort()))
            d.declare("node1", ("n1", d))
            d.declare("node2", ("n2l", d), ("n2r", d))
            _sorts["Tree"] = d.create()
        return _sorts["Tree"]


TREE = TreeT_()


class V:
    """A symbolic immutable value: type + SMT term."""

    __slots__ = ("t", "z")

    def __init__(self, t, z):
        self.t, self.z = t, z

    def __repr__(self):
        return f"V<{self.t}>({self.z})"


class Ref:
    """Reference to a heap cell (list, dict, set, deque, object)."""

    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc

    def __repr__(self):
        return f"Ref({self.loc})"


def clist(t, zs):
    """A symbolic list term of type t with concretely known elements."""
    arr = z3.K(z3.IntSort(), _default(t.el))
    for i, z in enumerate(zs):
        arr = z3.Store(arr, i, z)
    return t.mk(z3.IntVal(len(zs)), arr)


_defaults = {}


def _default(t):
    if t.key not in _defaults:
        _defaults[t.key] = z3.Const("default!" + t.key, t.sort())
    return _defaults[t.key]
