"""The registry of strategies and the automatic strategies (opt_einsum/paths.py)."""
import z3

from ..engine import Builtin
from ..spec import *
from ..ty import *

M = "opt_einsum.paths:"
FN = OpaqueT("Strategy")
REG = DictT(STR, FN)
OPQ = OpaqueT("Anything")


def lower(I, z):
    """str.lower of an arbitrary string"""
    return I.lift(lib.METHODS[("str", "lower")](I, V(STR, z)), STR)


def registry_override(I):
    if "registry" not in I.ghost and isinstance(getattr(I, "cur_spec", None), _Registry):
        I.ghost["registry"] = I.alloc("dict", I.freshv("registry", REG))
        I.ghost["registry0"] = I.cell(I.ghost["registry"]).val.z
    return I.ghost.get("registry")


class _Registry(Contract):
    props = ("C18",)

    def reg0(self, c):
        """the registry at entry"""
        registry_override(c.I)
        if "reg0" not in c.g:
            c.g["reg0"] = lib.content(c.I, c.I.ghost["registry"]).z
        return c.g["reg0"]

    def regnow(self, c):
        return lib.content(c.I, c.I.ghost["registry"]).z

    def havoc_frame(self, I, c):
        if self.changes:
            cell = I.write(I.ghost["registry"])
            cell.val = I.freshv("registry", REG)

    changes = False


class Register(_Registry):
    """A new name is added under its lower-case spelling, all other entries stay; a name that exists in
    any letter case is refused and nothing changes."""

    qual = M + "register_path_fn"
    params = [dict(name=STR, fn=P(FN))]
    changes = True

    def raises(self, c):
        return {"KeyError": z3.Select(REG.dom(self.reg0(c)), lower(c.I, c["name"]))}

    def ensures(self, c):
        r0, r1, k = self.reg0(c), self.regnow(c), lower(c.I, c["name"])
        return [
            ("the name was free", z3.Not(z3.Select(REG.dom(r0), k))),
            ("exactly one entry is added", REG.dom(r1) == z3.Store(REG.dom(r0), k, True)),
            ("existing entries keep their strategy", REG.val(r1) == z3.Store(REG.val(r0), k, c["fn"])),
        ]

    def run_and_check(self, I, f, vals, c, frames, reach):
        r0 = self.reg0(c)
        try:
            super().run_and_check(I, f, vals, c, frames, reach)
        except PathEnd:
            # left by an exception: the registry is untouched
            I.obligation(self.regnow(c) == r0, "refused registration changes nothing")
            raise


class Get(_Registry):
    """Look-up ignores letter case, returns the registered strategy, and rejects unknown names."""

    qual = M + "get_path_fn"
    params = [dict(path_type=STR)]
    ret = FN

    def raises(self, c):
        return {"KeyError": z3.Not(z3.Select(REG.dom(self.reg0(c)), lower(c.I, c["path_type"])))}

    def ensures(self, c):
        r0, k = self.reg0(c), lower(c.I, c["path_type"])
        return [
            ("known name", z3.Select(REG.dom(r0), k)),
            ("the registered strategy", c.res(FN) == z3.Select(REG.val(r0), k)),
            ("look-up changes nothing", self.regnow(c) == r0),
        ]


class RegisterThenGet(_Registry):
    """lemma: a strategy just registered is found under every letter case of its name, and every
    other name resolves as before"""

    qual = "pyvc_lemmas:register_then_get"
    params = [dict(name=STR, fn=P(FN), other=STR)]
    ret = FN
    changes = True

    def raises(self, c):
        r0 = self.reg0(c)
        n, o = lower(c.I, c["name"]), lower(c.I, c["other"])
        return {"KeyError": z3.Or(z3.Select(REG.dom(r0), n), z3.And(n != o, z3.Not(z3.Select(REG.dom(r0), o))))}

    def ensures(self, c):
        r0 = self.reg0(c)
        n, o = lower(c.I, c["name"]), lower(c.I, c["other"])
        return [("found in every letter case", z3.Implies(n == o, c.res(FN) == c["fn"])), ("other names unaffected", z3.Implies(n != o, c.res(FN) == z3.Select(REG.val(r0), o)))]


# ------------------------------------------------------------------ automatic strategies
PATHV = OpaqueT("PathOf")
NAMES = ["optimal", "branch_all", "branch_2", "branch_1", "greedy", "dynamic_programming", "random_greedy_128"]


def strategy_result(I, name, a):
    f, _ = I.th.fn("PATH_BY_" + name, OPQ.sort(), OPQ.sort(), OPQ.sort(), OPQ.sort(), PATHV.sort())
    return f(*a)


def strategy(name):
    def ov(I):
        if not isinstance(getattr(I, "cur_spec", None), _Auto):
            return None

        def call(I, a, k):
            order = ["inputs", "output", "size_dict", "memory_limit"]
            a = list(a) + [k.get(n) for n in order[len(a):]]
            I.obligation(z3.BoolVal(len(a) == 4 and all(x is y for x, y in zip(a, I.ghost["auto_args"]))), f"{name} is called with the arguments given")
            return V(PATHV, strategy_result(I, name, I.ghost["auto_z"]))

        return Builtin(name, call)

    return ov


TERMS0 = ListT(SetT(CHAR))


class _Auto(Contract):
    props = ("C18", "C04")
    params = [dict(inputs=P(TERMS0), output=P(OPQ), size_dict=P(OPQ), memory_limit=P(OPQ))]
    ret = PATHV

    def prepare(self, I, c, f):
        order = ["inputs", "output", "size_dict", "memory_limit"]
        I.ghost["auto_args"] = [c.vals[n] for n in order]
        I.ghost["auto_z"] = [z3.Const("arg_" + n, OPQ.sort()) for n in order]

    def ensures(self, c):
        I = c.I
        n = TERMS0.len(c["inputs"])
        z = I.ghost["auto_z"]
        spec = strategy_result(I, self.last, z)
        for lo, hi, nm in reversed(self.table):
            spec = z3.If(z3.And(lo <= n, n <= hi), strategy_result(I, nm, z), spec)
        return [("the documented strategy for this number of terms", c.res(PATHV) == spec)]

    def requires(self, c):
        return [("at least one term", TERMS0.len(c["inputs"]) >= 1)]


class Auto(_Auto):
    qual = M + "auto"
    table = [(1, 4, "optimal"), (5, 6, "branch_all"), (7, 8, "branch_2"), (9, 14, "branch_1")]
    last = "greedy"


class AutoHq(_Auto):
    qual = M + "auto_hq"
    table = [(1, 5, "optimal"), (6, 16, "dynamic_programming")]
    last = "random_greedy_128"


OVERRIDES = {("opt_einsum.paths", "_PATH_OPTIONS"): registry_override}
for _n in NAMES:
    OVERRIDES[("opt_einsum.path_random" if _n.startswith("random") else "opt_einsum.paths", _n)] = strategy(_n)
ALL = [Register(), Get(), RegisterThenGet(), Auto(), AutoHq()]
