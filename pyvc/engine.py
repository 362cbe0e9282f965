"""Symbolic executor and verification-condition generator for a subset of Python.

The text that is verified is the text that runs: modules are parsed from /repo on
every run.  Execution is direct style; every branch on a symbolic condition consults
a decision trace and the driver re-executes the function once per trace.  Loops are cut
by invariants (candidate invariants are dropped when they are not inductive, Houdini
style, so only inductive ones are ever assumed), calls to functions under contract use
the contract, other calls of repository functions are inlined.
"""
import ast
import copy
import hashlib
import os
import time

import z3

from .ty import *
from .ty import _default

REPO = os.environ.get("VERIF_REPO", "/repo")
MAXPATHS = int(os.environ.get("PYVC_MAXPATHS", "4000"))


class PathEnd(Exception):
    pass


class OutOfTime(BaseException):
    pass


class Restart(Exception):
    pass


class PyExc(Exception):
    def __init__(self, name, msg="", node=None):
        self.name, self.msg, self.node = name, msg, node
        super().__init__(name, msg)


class ReturnExc(Exception):
    def __init__(self, v):
        self.v = v


class BreakExc(Exception):
    pass


class ContinueExc(Exception):
    pass


class Impure(Exception):
    pass


EXC_BASES = {
    "KeyError": ("LookupError", "Exception"),
    "IndexError": ("LookupError", "Exception"),
    "ValueError": ("Exception",),
    "TypeError": ("Exception",),
    "AttributeError": ("Exception",),
    "RuntimeError": ("Exception",),
    "StopIteration": ("Exception",),
    "NotImplementedError": ("RuntimeError", "Exception"),
    "ModuleNotFoundError": ("ImportError", "Exception"),
    "ZeroDivisionError": ("ArithmeticError", "Exception"),
    "UserException": ("Exception",),
}


# ---------------------------------------------------------------- program text
class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        with open(path) as f:
            self.src = f.read()
        self.tree = ast.parse(self.src)
        self.globals = {}
        self.defs = {}
        self._load()

    def _load(self):
        for node in self.tree.body:
            self._load_stmt(node)

    def _load_stmt(self, node):
        if isinstance(node, ast.FunctionDef):
            if any(isinstance(d, ast.Name) and d.id == "overload" for d in node.decorator_list):
                return
            self.defs[node.name] = node
        elif isinstance(node, ast.ClassDef):
            self.defs[node.name] = node
        elif isinstance(node, (ast.Import, ast.ImportFrom)):
            self.globals.setdefault("__imports__", []).append(node)
            for a in node.names:
                nm = a.asname or a.name.split(".")[0]
                if isinstance(node, ast.Import):
                    self.defs[nm] = ("module", a.name if a.asname else a.name.split(".")[0])
                else:
                    self.defs[nm] = ("from", node.module, a.name)
        elif isinstance(node, (ast.Assign, ast.AnnAssign)):
            tg = node.targets[0] if isinstance(node, ast.Assign) else node.target
            if isinstance(tg, ast.Name) and node.value is not None:
                self.defs[tg.id] = node
        elif isinstance(node, ast.Try):
            for s in node.body:
                self._load_stmt(s)


_MODS = {}


def load_module(name):
    """opt_einsum.xxx -> Module"""
    if name not in _MODS:
        rel = name.replace(".", "/")
        p = os.path.join(REPO, rel + ".py")
        if name == "pyvc_lemmas":
            # ghost client code: each function composes calls of repository functions under contract
            p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "lemmas.py")
        if not os.path.exists(p):
            p = os.path.join(REPO, rel, "__init__.py")
        if not os.path.exists(p):
            raise Unsupported(f"module {name}")
        _MODS[name] = Module(name, p)
    return _MODS[name]


class Func:
    """A repository function (possibly a closure or bound method)."""

    def __init__(self, node, module, qual, env=None, self_=None, cls=None):
        self.node, self.module, self.qual, self.env, self.self_, self.cls = node, module, qual, env, self_, cls

    def bind(self, obj):
        return Func(self.node, self.module, self.qual, self.env, obj, self.cls)

    def __repr__(self):
        return f"Func({self.qual})"


class Cls:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name

    def bases(self, I):
        out = []
        for b in self.node.bases:
            v = I.ev_in_module(b, self.module)
            out.append(v)
        return out

    def find(self, I, attr):
        for s in self.node.body:
            if isinstance(s, ast.FunctionDef) and s.name == attr:
                deco = [d.id if isinstance(d, ast.Name) else (d.attr if isinstance(d, ast.Attribute) else "") for d in s.decorator_list]
                if "setter" in deco:
                    continue
                return Func(s, self.module, f"{self.module.name}:{self.name}.{attr}", cls=self), deco
        for b in self.bases(I):
            if isinstance(b, Cls):
                r = b.find(I, attr)
                if r:
                    return r
        return None


class Builtin:
    """A library function with a built-in contract."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"Builtin({self.name})"


class Mod:
    """A non-repository module (math, heapq...)."""

    def __init__(self, name):
        self.name = name


class Partial:
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class It:
    """Iterable descriptor."""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


class Env:
    def __init__(self, parent=None, module=None):
        self.vars, self.parent, self.module = {}, parent, module
        self.nonlocals = set()
        self.locals = set()

    def find(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return e
            e = e.parent
        return None


class Cell:
    """Mutable heap object.  kind: list|dict|set|obj|deque ; val: python list (concrete
    spine) or V (symbolic) for containers; dict for obj."""

    def __init__(self, kind, val, extra=None):
        self.kind, self.val = kind, val
        self.extra = extra or {}

    def copy(self):
        v = self.val
        if isinstance(v, list):
            v = list(v)
        elif isinstance(v, dict):
            v = dict(v)
        return Cell(self.kind, v, dict(self.extra))


class Obligation:
    __slots__ = ("name", "status", "time", "detail", "line")

    def __init__(self, name, status, t, detail="", line=0):
        self.name, self.status, self.time, self.detail, self.line = name, status, t, detail, line


class LoopInfo:
    def __init__(self):
        self.vars = set()
        self.locs = set()
        self.types = {}
        self.dropped = {}


class Session:
    """Persistent (across re-executions) information of one verification task."""

    def __init__(self):
        self.loops = {}
        self.memo = {}
        self.keep = []
        self.obl = {}
        self.solver_time = 0.0
        self.queries = 0
        self.paths = 0
        self.reach = 0
        self.failed = {}
        self.notes = set()
        self.used_contracts = set()
        self.inlined = set()
        self.assumed_lib = set()
        self.verify_done = set()
        self.nonce = 0


DEADLINE = 0
DUMP_UNSAT = ""
RLIMIT = int(os.environ.get("PYVC_RLIMIT", "12000000"))
RLIMIT_FEAS = int(os.environ.get("PYVC_RLIMIT_FEAS", "700000"))

z3.set_param("auto_config", False)
z3.set_param("smt.mbqi", False)
z3.set_param("smt.random_seed", 7)


PROBE = None


class Interp:
    def __init__(self, sess, registry, theory):
        self.S = sess
        self.reg = registry
        self.th = theory
        self.task = None

    # ------------------------------------------------------------ exploration
    def explore(self, thunk, label):
        """Run thunk once per decision trace until all are covered."""
        done, bad = dict(self.S.obl), dict(self.S.failed)
        self.may_learn = True
        while True:
            # a restart changes the loop cuts: obligations of the abandoned pass do not count
            self.S.obl, self.S.failed = {k: copy.copy(o) for k, o in done.items()}, {}
            self.S.failed.update({k: self.S.obl[k] for k in bad})
            try:
                stack = [[]]
                n = 0
                self.untyped = []
                self.learning = False
                while stack:
                    self.reset(stack.pop())
                    self.pending = stack
                    n += 1
                    if n > MAXPATHS:
                        raise Unsupported("too many paths")
                    try:
                        thunk()
                    except PathEnd:
                        pass
                for info, loc, nm in self.untyped:
                    if ("l", loc) not in info.types:
                        raise Unsupported(f"untyped container {nm} modified in loop")
                if self.untyped:
                    raise Restart()
                if self.learning:
                    self.may_learn = False
                    raise Restart()
                self.S.paths += n
                return
            except Restart:
                self.S.nonce += 1
                if self.S.nonce > 300:
                    raise Unsupported("no fixpoint")
                continue

    def learn(self):
        """the invariants of a loop cannot be stated yet (what it modifies is not known): only a learning pass"""
        self.learning = self.may_learn

    def reset(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.pc = []
        self.hinted = []
        self.cnt = 0
        self.heap = {}
        self.nloc = 0
        self.loopstack = []
        self.callstack = []
        self.env = None
        self.binder_depth = 0
        self.freshlog = []
        self.curnode = None
        self.ghost = {}
        self.prelocs = {}
        self.closures = []
        self.modvals = {}

    def fresh(self, name, t):
        self.cnt += 1
        s = t.sort() if isinstance(t, Type) else t
        c = z3.Const(f"{name}!{self.cnt}", s)
        self.freshlog.append(c)
        return c

    def freshv(self, name, t):
        v = V(t, self.fresh(name, t))
        for f in self.wf(v):
            self.assume(f)
        return v

    def wf(self, v):
        """Well-formedness facts of a fresh symbolic value."""
        t, z = v.t, v.z
        if isinstance(t, ListT):
            yield t.len(z) >= 0
            yield from self.wf_el_list(t, z)
        elif t == XINT:
            S = XINT.sort()
            yield z3.Implies(S.xinf(z), S.xval(z) == 0)
        elif isinstance(t, TupT):
            for i, e in enumerate(t.els):
                yield from self.wf(V(e, t.get(z, i)))

    def wf_el_list(self, t, z):
        if isinstance(t.el, ListT):
            k = z3.Int("wf!k")
            e = t.at(z, k)
            yield z3.ForAll([k], t.el.len(e) >= 0, patterns=[e])

    # ------------------------------------------------------------ solver
    def _solve(self, assumptions, rlimit, plain=True):
        s = z3.SimpleSolver() if plain else z3.Then("simplify", "propagate-values", "solve-eqs", "smt").solver()
        s.set("rlimit", rlimit)
        for a in self.th.axioms:
            s.add(a)
        for a in assumptions:
            s.add(a)
        t0 = time.time()
        r = s.check()
        dt = time.time() - t0
        self.S.solver_time += dt
        self.S.queries += 1
        if DEADLINE and time.time() > DEADLINE:
            raise OutOfTime()
        if os.environ.get("PYVC_DUMP") and dt > float(os.environ["PYVC_DUMP"]):
            with open(f"/tmp/slow_{self.S.queries}.smt2", "w") as f:
                f.write(s.sexpr() + "\n(check-sat)\n")
        return r, s

    def _key(self, assumptions, tag):
        return (tag, len(self.th.axioms)) + tuple(a.get_id() for a in assumptions)

    def check(self, assumptions, rlimit, tag):
        k = self._key(assumptions, tag)
        if k in self.S.memo:
            return self.S.memo[k]
        r, s = self._solve(assumptions, rlimit)
        if r == z3.unknown and tag == "p":
            # the same query after equation solving
            r, s = self._solve(assumptions, rlimit // 2, plain=False)
        if DUMP_UNSAT and tag in "ph" and r == z3.unsat:
            with open(f"{DUMP_UNSAT}/{self.S.queries}.smt2", "w") as f:
                f.write("(set-logic ALL)\n" + s.to_smt2())
        self.S.memo[k] = r
        self.S.keep.append(list(assumptions))
        return r

    def assume(self, f):
        if f is True or (z3.is_expr(f) and z3.is_true(f)):
            return
        if f is False:
            f = z3.BoolVal(False)
        self.pc.append(f)

    def feasible(self, extra):
        # quick syntactic test first
        e = z3.simplify(extra)
        if z3.is_false(e):
            return False
        if z3.is_true(e):
            return True
        r = self.check(self.pc + [extra], RLIMIT_FEAS, "f")
        return r != z3.unsat

    def decide(self, cond):
        """Branch on a condition; returns a python bool and extends the path condition."""
        if isinstance(cond, bool):
            return cond
        if isinstance(cond, V):
            cond = cond.z
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        i = len(self.trace)
        if i < len(self.prefix):
            b = self.prefix[i]
            self.trace.append(b)
            self.pc.append(cond if b == "T" or b == "t" else z3.Not(cond))
            return b in "Tt"
        ft = self.feasible(cond)
        ff = self.feasible(z3.Not(cond)) if ft else True
        if not ft and not self.feasible(z3.Not(cond)):
            raise PathEnd()
        if ft and ff:
            self.pending.append(self.trace + ["F"])
            self.trace.append("T")
            self.pc.append(cond)
            return True
        if ft:
            self.trace.append("t")
            self.pc.append(cond)
            return True
        self.trace.append("f")
        self.pc.append(z3.Not(cond))
        return False

    def choose(self, n=2):
        """Nondeterministic choice without condition: returns 0..n-1."""
        i = len(self.trace)
        if i < len(self.prefix):
            b = self.prefix[i]
            self.trace.append(b)
            return int(b)
        for j in range(n - 1, 0, -1):
            self.pending.append(self.trace + [str(j)])
        self.trace.append("0")
        return 0

    def provable(self, goal, rlimit=None):
        if goal is True:
            return True
        if goal is False:
            goal = z3.BoolVal(False)
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        r = self.check(self.pc + [z3.Not(goal)], rlimit or RLIMIT, "p")
        return r == z3.unsat

    def use_hints(self, ctx):
        for h in ctx.hints:
            if self.provable_parts(h):
                self.assume(h)
                self.hinted.append(h)
            elif os.environ.get("PYVC_TRACE"):
                print("HINT failed", str(z3.simplify(h))[:300])
        ctx.hints = []

    def provable_parts(self, goal, like=None, tentative=False):
        if tentative:
            return all(self.focused(p, like) for p in self.split_goal(goal))
        return all((like is not None and self.hinted and self.focused(p, like)) or self.provable(p) for p in self.split_goal(goal))

    def focused(self, goal, like):
        """provable from the intermediate assertions, the facts without quantifiers and the same assertion before?"""
        return self.check([p for p in self.pc if not has_quantifier(p)] + self.hinted + like + [z3.Not(goal)], RLIMIT // 8, "h") == z3.unsat

    def obligation(self, goal, name):
        """A proof obligation of the current task."""
        t0 = time.time()
        if self.untyped or self.learning:
            return True  # this pass is abandoned (explore)
        if f"{self.task}::{name}" in self.S.failed:
            return False  # already failed on another path
        parts = self.split_goal(goal)
        ok = True
        bad = None
        for p in parts:
            if not self.provable(p):
                ok = False
                bad = p
                break
        line = getattr(self.curnode, "lineno", 0)
        fn = self.callstack[-1] if self.callstack else "?"
        key = f"{self.task}::{name}"
        o = self.S.obl.get(key)
        dt = time.time() - t0
        if o is None:
            o = self.S.obl[key] = Obligation(key, "discharged", 0.0, "", line)
        o.time += dt
        if not ok:
            o.status = "failed"
            o.detail = f"in {fn} near line {line}; path {''.join(self.trace)}; goal: " + str(z3.simplify(bad) if not isinstance(bad, bool) else bad)[:1500]
            self.S.failed[key] = o
        return ok

    def split_goal(self, g):
        if isinstance(g, bool):
            return [g]
        if z3.is_and(g):
            out = []
            for c in g.children():
                out += self.split_goal(c)
            return out
        if z3.is_implies(g):
            return [z3.Implies(g.arg(0), x) for x in self.split_goal(g.arg(1))]
        return [g]

    # ------------------------------------------------------------ heap
    def alloc(self, kind, val, **extra):
        self.nloc += 1
        self.heap[self.nloc] = Cell(kind, val, extra)
        return Ref(self.nloc)

    def cell(self, ref):
        return self.heap[ref.loc]

    def write(self, ref):
        """Called before mutating a cell; loop/frame bookkeeping."""
        loc = ref.loc
        for L in self.loopstack:
            if loc in L["locs"] and loc not in L["info"].locs:
                if L.get("binder"):
                    raise Impure()
                L["info"].locs.add(loc)
                raise Restart()
        c = self.heap[loc]
        if c.extra.get("frozen"):
            raise Unsupported("mutation of a list after it was stored in another container")
        return c

    def mutate(self, ref, val):
        self.write(ref).val = val

    # ------------------------------------------------------------ typing/lifting
    def typeof(self, v):
        if isinstance(v, V):
            return v.t
        if isinstance(v, bool):
            return BOOL
        if isinstance(v, int):
            return INT
        if isinstance(v, float) and v == float("inf"):
            return XINT
        if isinstance(v, str):
            return CHAR if len(v) == 1 else STR
        if isinstance(v, Ref):
            c = self.cell(v)
            if c.kind == "obj":
                raise Unsupported("object as a first-class symbolic value")
            if isinstance(c.val, V):
                return c.val.t
            if "t" in c.extra:
                return c.extra["t"]
            if c.kind in ("list", "deque"):
                return self.list_type(c.val)
            raise Unsupported(f"untyped {c.kind}")
        if isinstance(v, tuple):
            return TupT(*[self.typeof(x) for x in v])
        if isinstance(v, (frozenset,)):
            return SetT(self.join_types([self.typeof(x) for x in v]))
        if v is None:
            return OptT(INT)
        raise Unsupported(f"no type for {v!r}")

    def list_type(self, vals):
        if not vals:
            raise Unsupported("untyped empty list")
        return ListT(self.join_types([self.typeof(x) for x in vals]))

    def join_types(self, ts):
        ts = list(dict.fromkeys(ts))
        if len(ts) == 1:
            return ts[0]
        t = ts[0]
        for u in ts[1:]:
            t = self.join(t, u)
        return t

    def join(self, a, b):
        if a == b:
            return a
        s = {a.key, b.key}
        if s == {"Int", "XInt"}:
            return XINT
        if s == {"Bool", "Int"}:
            return INT
        if s <= {"Char", "List<Char>"}:
            return STR
        if isinstance(a, TupT) and isinstance(b, TupT) and len(a.els) == len(b.els):
            return TupT(*[self.join(x, y) for x, y in zip(a.els, b.els)])
        if isinstance(a, TupT) and isinstance(b, ListT):
            return ListT(self.join_types(list(a.els) + [b.el])) if a.els else b
        if isinstance(b, TupT) and isinstance(a, ListT):
            return self.join(b, a)
        if isinstance(a, TupT) and isinstance(b, TupT):
            els = list(a.els) + list(b.els)
            return ListT(self.join_types(els))
        if isinstance(a, OptT) or isinstance(b, OptT):
            x = a.el if isinstance(a, OptT) else a
            y = b.el if isinstance(b, OptT) else b
            return OptT(self.join(x, y))
        raise Unsupported(f"cannot join types {a} and {b}")

    def lift(self, v, t):
        """SMT term of type t for value v."""
        if isinstance(v, V):
            if v.t == t:
                return v.z
            if t == XINT and v.t in (INT,):
                return xmk(z3.BoolVal(False), v.z)
            if t == INT and v.t == BOOL:
                return z3.If(v.z, 1, 0)
            if t == INT and v.t == CHAR or t == CHAR and v.t == INT:
                return v.z
            if t == STR and v.t == CHAR:
                return clist(STR, [v.z])
            if isinstance(t, OptT) and not isinstance(v.t, OptT):
                return t.some(self.lift(v, t.el))
            if isinstance(v.t, OptT) and not isinstance(t, OptT):
                self.obligation(z3.Not(v.t.is_none(v.z)), "type: value is not None")
                return self.lift(V(v.t.el, v.t.get(v.z)), t)
            if isinstance(t, OptT) and isinstance(v.t, OptT):
                return z3.If(v.t.is_none(v.z), t.none(), t.some(self.lift(V(v.t.el, v.t.get(v.z)), t.el)))
            if isinstance(t, TupT) and isinstance(v.t, TupT) and len(t.els) == len(v.t.els):
                return t.mk(*[self.lift(V(e, v.t.get(v.z, i)), u) for i, (e, u) in enumerate(zip(v.t.els, t.els))])
            if isinstance(t, ListT) and isinstance(v.t, TupT):
                return clist(t, [self.lift(V(e, v.t.get(v.z, i)), t.el) for i, e in enumerate(v.t.els)])
            if t is TREE or v.t is TREE:
                return self.th.tree_lift(self, v)
            raise Unsupported(f"lift {v.t} to {t}")
        if t is TREE:
            return self.th.tree_lift(self, v)
        if hasattr(t, "lift_value"):
            return t.lift_value(self, v)
        if isinstance(t, OptT):
            if v is None:
                return t.none()
            return t.some(self.lift(v, t.el))
        if isinstance(v, bool):
            if t == BOOL:
                return z3.BoolVal(v)
            if t == INT:
                return z3.IntVal(int(v))
        if isinstance(v, int):
            if t == INT:
                return z3.IntVal(v)
            if t == XINT:
                return xmk(z3.BoolVal(False), z3.IntVal(v))
            if t == REAL:
                return z3.RealVal(v)
        if isinstance(v, float):
            if v == float("inf") and t == XINT:
                return xmk(z3.BoolVal(True), z3.IntVal(0))
            if t == REAL:
                return z3.RealVal(v)
        if isinstance(v, str):
            if t == CHAR and len(v) == 1:
                return z3.IntVal(ord(v))
            if t == STR:
                return clist(STR, [z3.IntVal(ord(c)) for c in v])
            if isinstance(t, OpaqueT):
                return self.th.opaque_const(t, v)
        if isinstance(v, tuple):
            if isinstance(t, TupT) and len(t.els) == len(v):
                return t.mk(*[self.lift(x, e) for x, e in zip(v, t.els)])
            if isinstance(t, ListT):
                return clist(t, [self.lift(x, t.el) for x in v])
        if isinstance(v, frozenset) and isinstance(t, SetT):
            z = t.empty()
            for x in v:
                z = z3.SetAdd(z, self.lift(x, t.el))
            return z
        if isinstance(v, Ref) and isinstance(t, OpaqueT):
            # the identity of an object created here
            f, new = self.th.fn("OBJ_" + t.key, z3.IntSort(), t.sort())
            g, _ = self.th.fn("BORN_" + t.key, t.sort(), z3.IntSort())
            if new:
                n = z3.Int("n")
                self.th.ax("object identity " + t.key, z3.ForAll([n], g(f(n)) == n, patterns=[f(n)]))
            return f(z3.IntVal(v.loc))
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c.val, V):
                return self.lift(c.val, t)
            if c.kind in ("list", "deque") and isinstance(t, ListT):
                return clist(t, [self.lift(x, t.el) for x in c.val])
            if c.kind in ("dict", "set") and not c.val:
                if isinstance(t, DictT):
                    return t.mk(z3.K(t.k.sort(), z3.BoolVal(False)), z3.K(t.k.sort(), _default(t.v)))
                if isinstance(t, SetT):
                    return t.empty()
            if c.kind == "set" and isinstance(t, SetT):
                z = t.empty()
                for x in c.val:
                    z = z3.SetAdd(z, self.lift(x, t.el))
                return z
            if c.kind == "dict" and isinstance(t, DictT):
                d = z3.K(t.k.sort(), z3.BoolVal(False))
                w = z3.K(t.k.sort(), _default(t.v))
                for k, x in c.val.items():
                    kk = self.lift(k, t.k)
                    d, w = z3.Store(d, kk, True), z3.Store(w, kk, self.lift(x, t.v))
                return t.mk(d, w)
        raise Unsupported(f"lift {v!r} to {t}")

    def to_sym(self, v, t=None):
        """V for any first-class value."""
        if isinstance(v, V) and (t is None or v.t == t):
            return v
        t = t or self.typeof(v)
        return V(t, self.lift(v, t))

    def deref(self, v):
        """Content of a container reference as a V (symbolising a concrete spine)."""
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c.val, V):
                return c.val
            return V(self.typeof(v), self.lift(v, self.typeof(v)))
        return v

    def unopt(self, v):
        """Case split an optional value."""
        if isinstance(v, V) and isinstance(v.t, OptT):
            if self.decide(v.t.is_none(v.z)):
                return None
            return self.native_tuple(V(v.t.el, v.t.get(v.z)))
        return v

    def native_tuple(self, v):
        if isinstance(v, V) and isinstance(v.t, TupT):
            return tuple(self.native_tuple(V(e, v.t.get(v.z, i))) for i, e in enumerate(v.t.els))
        return v

    # ------------------------------------------------------------ truth / eq / order
    def truth(self, v):
        """python bool or z3 Bool"""
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, str, tuple, frozenset, float)):
            return bool(v)
        if isinstance(v, Ref):
            c = self.cell(v)
            if c.kind == "obj":
                return True
            if isinstance(c.val, V):
                return self.truth(c.val)
            return bool(c.val)
        if isinstance(v, V):
            t = v.t
            if t == BOOL:
                return v.z
            if t == INT:
                return v.z != 0
            if t == XINT:
                return z3.Or(XINT.sort().xinf(v.z), XINT.sort().xval(v.z) != 0)
            if t == CHAR:
                return True
            if isinstance(t, ListT):
                return t.len(v.z) > 0
            if isinstance(t, SetT):
                return v.z != t.empty()
            if isinstance(t, DictT):
                return t.dom(v.z) != z3.K(t.k.sort(), z3.BoolVal(False))
            if isinstance(t, TupT):
                return len(t.els) > 0
            if isinstance(t, OptT):
                inner = self.truth(V(t.el, t.get(v.z)))
                return z3.And(z3.Not(t.is_none(v.z)), inner) if not isinstance(inner, bool) else (z3.Not(t.is_none(v.z)) if inner else False)
            if isinstance(t, OpaqueT):
                return self.th.opaque_truth(self, v)
        if isinstance(v, (Func, Builtin, Cls, Partial)):
            return True
        raise Unsupported(f"truth of {v!r}")

    def eq(self, a, b):
        """python bool or z3 Bool for a == b"""
        if isinstance(a, (Func, Builtin, Cls, Mod, Partial)) or isinstance(b, (Func, Builtin, Cls, Mod, Partial)):
            return a is b or (isinstance(a, Func) and isinstance(b, Func) and a.node is b.node)
        if isinstance(a, Ref) and isinstance(b, Ref) and a.loc == b.loc:
            return True
        if not isinstance(a, (V, Ref, tuple)) and not isinstance(b, (V, Ref, tuple)):
            return a == b
        if a is None or b is None:
            o = b if a is None else a
            if isinstance(o, V) and isinstance(o.t, OptT):
                return o.t.is_none(o.z)
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            rs = [self.eq(x, y) for x, y in zip(a, b)]
            if any(r is False for r in rs):
                return False
            rs = [r for r in rs if r is not True]
            return z3.And(*rs) if rs else True
        if isinstance(a, Ref):
            a = self.deref_or_conc(a)
        if isinstance(b, Ref):
            b = self.deref_or_conc(b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return self.eq(a, b)
        if not isinstance(a, V) and not isinstance(b, V):
            return a == b
        ta, tb = self.typeof(a), self.typeof(b)
        if isinstance(ta, OptT) and not isinstance(tb, OptT):
            r = self.eq(V(ta.el, ta.get(a.z)), b)
            return False if r is False else (z3.Not(ta.is_none(a.z)) if r is True else z3.And(z3.Not(ta.is_none(a.z)), r))
        if isinstance(tb, OptT) and not isinstance(ta, OptT):
            return self.eq(b, a)
        num = {"Int", "XInt", "Bool"}
        if ta.key in num and tb.key in num:
            t = self.join(ta, tb)
            return self.lift(a, t) == self.lift(b, t)
        if REAL in (ta, tb):
            return self.as_real(a) == self.as_real(b)
        strs = {"Char", "List<Char>"}
        if ta.key in strs and tb.key in strs:
            if ta == CHAR and tb == CHAR:
                return self.lift(a, CHAR) == self.lift(b, CHAR)
            return self.list_eq(STR, self.lift(a, STR), self.lift(b, STR))
        if (ta.key in strs) != (tb.key in strs) and not isinstance(ta, OpaqueT) and not isinstance(tb, OpaqueT):
            return False
        if ta.key in num and not tb.key in num or tb.key in num and not ta.key in num:
            return False
        try:
            t = self.join(ta, tb)
        except Unsupported:
            if isinstance(ta, SetT) and isinstance(b, frozenset) and not b:
                return a.z == ta.empty()
            if isinstance(tb, SetT) and isinstance(a, frozenset) and not a:
                return b.z == tb.empty()
            raise
        za, zb = self.lift(a, t), self.lift(b, t)
        if isinstance(t, ListT):
            return self.list_eq(t, za, zb)
        return za == zb

    def deref_or_conc(self, r):
        c = self.cell(r)
        if isinstance(c.val, V):
            return c.val
        if c.kind in ("list", "deque"):
            return tuple(c.val)
        if c.kind == "set":
            return frozenset(c.val)
        return self.deref(r)

    def list_eq(self, t, a, b):
        k = z3.Int("leq!k")
        la, lb = z3.simplify(t.len(a)), z3.simplify(t.len(b))
        if z3.is_int_value(la) or z3.is_int_value(lb):
            n = (la if z3.is_int_value(la) else lb).as_long()
            if z3.is_int_value(la) and z3.is_int_value(lb) and la.as_long() != lb.as_long():
                return False
            if n <= 16:
                return z3.And(t.len(a) == t.len(b), *[t.at(a, z3.IntVal(i)) == t.at(b, z3.IntVal(i)) for i in range(n)])
        return z3.And(t.len(a) == t.len(b), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < t.len(a)), t.at(a, k) == t.at(b, k))))

    def as_real(self, a):
        if isinstance(a, V):
            if a.t == REAL:
                return a.z
            return z3.ToReal(self.lift(a, INT))
        return z3.RealVal(a)

    def less(self, a, b, strict=True):
        if isinstance(a, tuple) and isinstance(b, tuple):
            # lexicographic
            if not a or not b:
                return (len(a) < len(b)) if strict else (len(a) <= len(b))
            e = self.eq(a[0], b[0])
            l = self.less(a[0], b[0], True)
            rest = self.less(a[1:], b[1:], strict)
            f = lambda x: z3.BoolVal(x) if isinstance(x, bool) else x
            return z3.Or(f(l), z3.And(f(e), f(rest)))
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return a < b if strict else a <= b
        if isinstance(a, str) and isinstance(b, str):
            return a < b if strict else a <= b
        ta, tb = self.typeof(a), self.typeof(b)
        if isinstance(ta, OptT) or isinstance(tb, OptT):
            return self.less(self.unopt(a), self.unopt(b), strict)
        if a is None or b is None:
            raise PyExc("TypeError", "None comparison")
        if isinstance(ta, TupT) and isinstance(tb, TupT):
            return self.less(self.native_tuple(a) if isinstance(a, V) else a, self.native_tuple(b) if isinstance(b, V) else b, strict)
        if REAL in (ta, tb):
            x, y = self.as_real(a), self.as_real(b)
            return x < y if strict else x <= y
        if XINT in (ta, tb):
            S = XINT.sort()
            x, y = self.lift(a, XINT), self.lift(b, XINT)
            xi, yi, xv, yv = S.xinf(x), S.xinf(y), S.xval(x), S.xval(y)
            if strict:
                return z3.simplify(z3.And(z3.Not(xi), z3.Or(yi, xv < yv)))
            return z3.simplify(z3.Or(yi, z3.And(z3.Not(xi), xv <= yv)))
        if isinstance(ta, SetT) or isinstance(tb, SetT):
            t = ta if isinstance(ta, SetT) else tb
            sub = z3.IsSubset(self.lift(a, t), self.lift(b, t))
            return z3.And(sub, self.lift(a, t) != self.lift(b, t)) if strict else sub
        if ta.key in ("Int", "Bool", "Char") and tb.key in ("Int", "Bool", "Char"):
            x, y = self.lift(a, INT if ta != CHAR else CHAR), self.lift(b, INT if tb != CHAR else CHAR)
            return x < y if strict else x <= y
        raise Unsupported(f"ordering {ta} {tb}")

    # ------------------------------------------------------------ environment
    def lookup(self, name):
        e = self.env.find(name)
        if e is not None:
            v = e.vars[name]
            if v is UNDEF:
                raise Unsupported(f"variable {name} possibly undefined after loop")
            return v
        return self.global_lookup(name, self.env_module())

    def env_module(self):
        e = self.env
        while e is not None:
            if e.module is not None:
                return e.module
            e = e.parent
        return None

    def global_lookup(self, name, module):
        if module is not None:
            g = module.globals
            ov = self.reg.global_override(self, module.name, name)
            if ov is not None:
                return ov
            if name in module.defs:
                d = module.defs[name]
                if isinstance(d, ast.FunctionDef):
                    return self.decorate(Func(d, module, f"{module.name}:{name}"), d)
                if isinstance(d, ast.ClassDef):
                    return Cls(d, module)
                if isinstance(d, tuple):
                    if d[0] == "module":
                        return self.import_mod(d[1])
                    return self.import_from(d[1], d[2])
                if isinstance(d, (ast.Assign, ast.AnnAssign)):
                    return self.module_value(name, d, module)
        from . import lib

        if name in lib.BUILTINS:
            return lib.BUILTINS[name]
        raise Unsupported(f"unknown name {name}")

    def decorate(self, fn, d):
        return fn

    def import_mod(self, name):
        if name.startswith("opt_einsum"):
            return load_module(name)
        return Mod(name)

    def import_from(self, mod, name):
        if mod and mod.startswith("opt_einsum"):
            try:
                return load_module(mod + "." + name)
            except Unsupported:
                pass
            return self.global_lookup(name, load_module(mod))
        from . import lib

        k = f"{mod}.{name}"
        if k in lib.LIB:
            return lib.LIB[k]
        return Mod(k)

    def ev_in_module(self, node, module):
        save = self.env
        self.env = Env(None, module)
        try:
            return self.ev(node)
        finally:
            self.env = save

    def module_value(self, name, d, module):
        """value of a module-level name as import leaves it (tables filled by top-level loops included)"""
        k = (module.name, name)
        if k in self.modvals:
            return self.modvals[k]
        more = [n for n in module.tree.body if n is not d and not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)) and touches(n, name)]
        v = self.ev_in_module(d.value, module)
        if isinstance(v, Ref):
            for fn in ast.walk(module.tree):
                if isinstance(fn, (ast.FunctionDef, ast.Lambda)) and touches(fn, name) and (module.name, name) not in self.reg.overrides:
                    raise Unsupported(f"module-level {name} is modified by {getattr(fn, 'name', 'a function')}")
        if more:
            save, stack = self.env, self.loopstack
            self.env = Env(None, module)
            self.env.vars[name] = v
            self.loopstack = []
            try:
                for n in more:
                    self.ex(n)
                v = self.env.vars[name]
            finally:
                self.env, self.loopstack = save, stack
        if not self.binder_depth:
            self.modvals[k] = v
        return v

    def assign_name(self, name, v):
        e = self.env
        if name in e.nonlocals:
            e = e.parent.find(name)
        self.note_write(e, name)
        e.vars[name] = v

    def note_write(self, e, name):
        for L in self.loopstack:
            if (id(e), name) in L["names"]:
                key = (L["names"][(id(e), name)], name)
                if key not in L["info"].vars:
                    if L.get("binder"):
                        raise Impure()
                    L["info"].vars.add(key)
                    raise Restart()

    # ------------------------------------------------------------ statements
    def run_body(self, body):
        for s in body:
            self.ex(s)

    def ex(self, s):
        self.curnode = s
        m = getattr(self, "ex_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        m(s)

    def ex_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            return self.ex_yield(s.value)
        self.ev(s.value)

    def ex_Pass(self, s):
        pass

    def ex_Global(self, s):
        raise Unsupported("global statement")

    def ex_Nonlocal(self, s):
        self.env.nonlocals.update(s.names)

    def ex_Import(self, s):
        for a in s.names:
            self.env.vars[a.asname or a.name.split(".")[0]] = self.import_mod(a.name if a.asname else a.name.split(".")[0])

    def ex_ImportFrom(self, s):
        for a in s.names:
            self.env.vars[a.asname or a.name] = self.import_from(s.module, a.name)

    def ex_FunctionDef(self, s):
        qual = self.callstack[-1] + "." + s.name
        for d in s.decorator_list:
            if not (isinstance(d, ast.Call) and ast.unparse(d.func) in ("functools.wraps", "wraps")):
                raise Unsupported(f"decorator {ast.unparse(d)} of a nested function")
        f = Func(s, self.env_module(), qual, env=self.env)
        self.assign_name(s.name, f)

    def ex_Return(self, s):
        raise ReturnExc(None if s.value is None else self.ev(s.value))

    def ex_Assert(self, s):
        c = self.truth(self.ev(s.test))
        if not self.decide(c):
            raise PyExc("AssertionError")

    def ex_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                from . import lib

                base = self.ev(t.value)
                lib.del_item(self, base, self.ev(t.slice))
            else:
                raise Unsupported("del")

    def ex_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def ex_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def ex_AugAssign(self, s):
        if isinstance(s.target, ast.Name):
            cur = self.lookup(s.target.id)
            v = self.ev(s.value)
            if isinstance(cur, Ref) and self.cell(cur).kind in ("list", "set") and isinstance(s.op, (ast.Add, ast.BitOr)):
                from . import lib

                if isinstance(s.op, ast.Add):
                    return lib.list_extend(self, cur, v)
                return lib.set_update(self, cur, [v])
            self.assign_name(s.target.id, self.binop(s.op, cur, v))
        elif isinstance(s.target, ast.Subscript):
            base = self.ev(s.target.value)
            idx = self.ev(s.target.slice)
            cur = self.subscript(base, idx)
            self.store_sub(base, idx, self.binop(s.op, cur, self.ev(s.value)))
        elif isinstance(s.target, ast.Attribute):
            base = self.ev(s.target.value)
            cur = self.getattr_(base, s.target.attr)
            self.setattr_(base, s.target.attr, self.binop(s.op, cur, self.ev(s.value)))
        else:
            raise Unsupported("augassign")

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts), t.elts)
            for x, y in zip(t.elts, vals):
                self.assign(x, y)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            if isinstance(t.slice, ast.Slice):
                from . import lib

                return lib.store_slice(self, base, t.slice, v)
            self.store_sub(base, self.ev(t.slice), v)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(t.value), t.attr, v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n, elts=None):
        if elts and any(isinstance(e, ast.Starred) for e in elts):
            raise Unsupported("starred target")
        v = self.native_tuple(self.unopt(v))
        if isinstance(v, tuple):
            if len(v) != n:
                raise PyExc("ValueError", "unpack")
            return list(v)
        if v is None:
            raise PyExc("TypeError", "cannot unpack None")
        if isinstance(v, Ref):
            c = self.cell(v)
            if not isinstance(c.val, V):
                if len(c.val) != n:
                    raise PyExc("ValueError", "unpack")
                return list(c.val)
            v = c.val
        if isinstance(v, V) and isinstance(v.t, ListT):
            if not self.decide(v.t.len(v.z) == n):
                raise PyExc("ValueError", "unpack")
            return [self.elem(V(v.t.el, v.t.at(v.z, z3.IntVal(i)))) for i in range(n)]
        from . import lib

        it = lib.iterate(self, v)
        if it.kind == "conc":
            if len(it.items) != n:
                raise PyExc("ValueError", "unpack")
            return list(it.items)
        if it.kind == "idx":
            if not self.decide(it.n == n):
                raise PyExc("ValueError", "unpack")
            return [it.fn(z3.IntVal(i)) for i in range(n)]
        if it.kind == "set":
            # arbitrary enumeration of a set of known size n
            if not self.decide(self.th.card(it.el, it.s) == n):
                raise PyExc("ValueError", "unpack")
            out = []
            for i in range(n):
                x = self.fresh("u", it.el)
                out.append(x)
            self.assume(z3.Distinct(*out) if n > 1 else z3.BoolVal(True))
            s = SetT(it.el).empty()
            for x in out:
                s = z3.SetAdd(s, x)
            self.assume(it.s == s)
            return [it.fn(x) for x in out]
        raise Unsupported(f"unpack {v!r}")

    def elem(self, v):
        return self.native_tuple(v)

    def ex_If(self, s):
        c = self.cond(s.test)
        if c:
            self.run_body(s.body)
        else:
            self.run_body(s.orelse)

    def cond(self, node):
        """Evaluate a test with short-circuit branching; returns python bool."""
        if isinstance(node, ast.BoolOp):
            if isinstance(node.op, ast.And):
                for v in node.values:
                    if not self.cond(v):
                        return False
                return True
            for v in node.values:
                if self.cond(v):
                    return True
            return False
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return not self.cond(node.operand)
        return self.decide(self.truth(self.ev(node)))

    def ex_Raise(self, s):
        if s.exc is None:
            cur = self.ghost.get("handling")
            if cur is None:
                raise Unsupported("bare raise")
            raise cur
        e = s.exc
        name = None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            name = e.func.id
        elif isinstance(e, ast.Name):
            v = self.env.find(e.id)
            if v is not None and isinstance(v.vars[e.id], PyExc):
                raise v.vars[e.id]
            name = e.id
        else:
            raise Unsupported("raise")
        raise PyExc(name, "", s)

    def ex_Try(self, s):
        try:
            try:
                self.run_body(s.body)
            except PyExc as e:
                for h in s.handlers:
                    if self.handler_matches(h, e):
                        saved = self.ghost.get("handling")
                        self.ghost["handling"] = e
                        if h.name:
                            self.env.vars[h.name] = e
                        try:
                            self.run_body(h.body)
                        finally:
                            self.ghost["handling"] = saved
                        break
                else:
                    raise
            else:
                self.run_body(s.orelse)
        except (PathEnd, Restart, Unsupported, Impure):
            raise
        except BaseException:
            if s.finalbody:
                self.run_body(s.finalbody)
            raise
        else:
            self.run_body(s.finalbody)

    def handler_matches(self, h, e):
        if h.type is None:
            return True
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for t in ts:
            n = t.id if isinstance(t, ast.Name) else t.attr
            if n == e.name or n in EXC_BASES.get(e.name, ("Exception",)) or n == "BaseException":
                return True
        return False

    def ex_With(self, s):
        raise Unsupported("with")

    def ex_Break(self, s):
        raise BreakExc()

    def ex_Continue(self, s):
        raise ContinueExc()

    # ------------------------------------------------------------ loops
    def loop_key(self, node):
        return (node.lineno, node.col_offset, type(node).__name__, tuple(self.callstack))

    def ex_For(self, s):
        from . import lib

        it = lib.iterate(self, self.ev(s.iter))
        self.for_loop(s, it, lambda x: self.assign(s.target, x), s.body, s.orelse)

    def for_loop(self, node, it, bind, body, orelse=()):
        runner = body if callable(body) else (lambda: self.run_body(body))
        if it.kind == "conc":
            broke = False
            for x in it.items:
                bind(x)
                try:
                    runner()
                except ContinueExc:
                    pass
                except BreakExc:
                    broke = True
                    break
            if not broke and orelse:
                self.run_body(orelse)
            return
        self.cut_loop(node, it, bind, runner, orelse)

    def ex_While(self, s):
        self.cut_loop(s, None, None, lambda: self.run_body(s.body), s.orelse, test=s.test)

    def cut_loop(self, node, it, bind, runner, orelse, test=None):
        key = self.loop_key(node)
        info = self.S.loops.setdefault(key, LoopInfo())
        names = {}
        e = self.env
        depth = 0
        while e is not None:
            for nm in e.vars:
                names[(id(e), nm)] = depth
            e = e.parent
            depth += 1
        envs = []
        e = self.env
        while e is not None:
            envs.append(e)
            e = e.parent
        pre_vars = {nm: v for e in reversed(envs) for nm, v in e.vars.items()}
        pre_heap = {l: c.copy() for l, c in self.heap.items()}
        pre = (pre_vars, pre_heap)
        ctx0 = LoopCtx(self, it, pre, key, node)
        ctx0.info, ctx0.envs = info, envs
        ctx0.start()
        # while the type of a modified container is still being learnt the pass is repeated anyway
        cands = self.candidates(ctx0) if not self.untyped else []
        for c in cands:
            if c.name in info.dropped:
                continue
            g = c.eval(ctx0)
            self.use_hints(ctx0)
            if g is None:
                info.dropped[c.name] = "not applicable"
                continue
            if not self.provable_parts(g):
                info.dropped[c.name] = "not established on entry"
                self.S.notes.add(f"{self.task}: candidate {c.name} not established at loop line {node.lineno}")
                raise Restart()
            self.S.obl.setdefault(f"{self.task}::loop@{self.loop_name(key)}:{c.name}:init", Obligation(f"{self.task}::loop@{self.loop_name(key)}:{c.name}:init", "discharged", 0, "", node.lineno))
        # havoc
        for d, nm in sorted(info.vars):
            if d >= len(envs) or nm not in envs[d].vars:
                continue
            cur = envs[d].vars[nm]
            envs[d].vars[nm] = self.havoc(cur, nm, info.types.get(("v", d, nm)))
        for loc in sorted(info.locs):
            if loc in self.heap:
                c = self.heap[loc]
                self.heap[loc] = self.havoc_cell(c, f"h{loc}", info.types.get(("l", loc)), info, loc)
        ctx = LoopCtx(self, it, pre, key, node)
        ctx.info, ctx.envs = info, envs
        ctx.havoc()
        active = [c for c in cands if c.name not in info.dropped]
        before = {}
        for c in active:
            g = c.eval(ctx)
            ctx.hints = []
            if g is not None:
                self.assume(g)
                before[c.name] = [g]
        rec = {"names": names, "locs": set(pre_heap), "info": info}
        if it is not None:
            take_body = self.choose(2) == 0
            if take_body:
                x = ctx.enter()
                if not self.feasible(z3.BoolVal(True)):
                    raise PathEnd()
        else:
            self.loopstack.append(rec)
            take_body = self.cond(test)
            self.loopstack.pop()
        if take_body:
            self.loopstack.append(rec)
            try:
                if bind is not None:
                    bind(x)
                try:
                    runner()
                except ContinueExc:
                    pass
            except BreakExc:
                self.loopstack.pop()
                return
            except (PyExc, ReturnExc):
                self.loopstack.pop()
                raise
            self.loopstack.pop()
            # record types for havoc'd things whose type was unknown
            self.record_types(info, envs)
            ctx.advance()
            self.hinted = []
            again = False
            for c in active:
                g = c.eval(ctx)
                self.use_hints(ctx)
                if g is None:
                    continue
                tentative = getattr(c.fn, "tentative", False)
                if not self.provable_parts(g, before.get(c.name, []), tentative):
                    if os.environ.get("PYVC_PROBE"):
                        PROBE(self, ctx, c, g)
                    info.dropped[c.name] = "not preserved"
                    self.S.notes.add(f"{self.task}: candidate {c.name} not preserved at loop line {node.lineno}, path {''.join(self.trace)}")
                    if os.environ.get("PYVC_TRACE"):
                        print("DROP", c.name, "line", node.lineno, "path", "".join(self.trace))
                        if os.environ.get("PYVC_TRACE") == "2":
                            print("   goal", z3.simplify(g))
                    again = True
                    if tentative:
                        continue
                    raise Restart()
                n = f"{self.task}::loop@{self.loop_name(key)}:{c.name}:preserved"
                self.S.obl.setdefault(n, Obligation(n, "discharged", 0, "", node.lineno))
            if again:
                raise Restart()
            raise PathEnd()
        # exit
        if it is not None:
            ctx.exit()
            if not self.feasible(z3.BoolVal(True)):
                raise PathEnd()
        if orelse:
            self.run_body(orelse)

    def loop_name(self, key):
        same = sorted(k for k in self.S.loops if k[3] == key[3])
        return f"{key[3][-1].split(':')[-1]}#{same.index(key)}"

    def record_types(self, info, envs):
        for d, nm in sorted(info.vars):
            if ("v", d, nm) in info.types or d >= len(envs) or nm not in envs[d].vars:
                continue
            v = envs[d].vars[nm]
            try:
                t = self.typeof(v)
            except Unsupported:
                continue
            if ("v?", d, nm) in info.types and info.types[("v?", d, nm)] != t:
                info.types[("v", d, nm)] = self.join(t, info.types[("v?", d, nm)]) if info.types[("v?", d, nm)] is not None else t
                raise Restart()
        for loc in sorted(info.locs):
            if ("l", loc) in info.types or loc not in self.heap:
                continue
            if ("l?", loc) in info.types:
                c = self.heap[loc]
                try:
                    t = self.typeof(Ref(loc))
                except Unsupported:
                    continue
                h = getattr(self.cur_spec, "adjust_type", None)
                info.types[("l", loc)] = h(t) if h else t
                raise Restart()

    def havoc(self, cur, nm, t):
        if t is None:
            if isinstance(cur, Ref):
                # rebinding of a reference inside the loop: need a fresh container
                c = self.cell(cur)
                ty = self.typeof(cur)
                return self.alloc(c.kind, self.freshv(nm, ty), **{k: v for k, v in c.extra.items() if k != "frozen"})
            if isinstance(cur, (Func, Cls, Builtin, Mod)):
                raise Unsupported(f"loop rebinds function {nm}")
            t = self.typeof(cur)
        if isinstance(cur, Ref):
            return self.alloc(self.cell(cur).kind, self.freshv(nm, t))
        return self.native_tuple(self.freshv(nm, t))

    def havoc_cell(self, c, nm, t, info=None, loc=None):
        if c.kind == "obj":
            if c.extra.get("iter") == "count":
                n = c.copy()
                n.val["n"] = self.freshv(nm, INT)
                return n
            raise Unsupported("object havoc")
        if c.kind == "dict" and isinstance(c.val, dict) and c.val and t is None:
            n = c.copy()
            for k, v in c.val.items():
                if isinstance(v, Ref):
                    raise Unsupported("havoc of nested references")
                ty = self.type_hint(k) or self.typeof(v)
                n.val[k] = self.native_tuple(self.freshv(f"{nm}_{k}", ty))
            return n
        if t is None:
            if isinstance(c.val, V):
                t = c.val.t
            elif "t" in c.extra:
                t = c.extra["t"]
            elif c.val and c.kind in ("list", "deque"):
                t = self.list_type(c.val)
            else:
                # not yet typed: learn the type from this pass, then restart
                self.untyped.append((info, loc, nm))
                info.types[("l?", loc)] = True
                return c
        n = c.copy()
        n.val = self.freshv(nm, t)
        return n

    def type_hint(self, name):
        h = getattr(self.cur_spec, "types", None) or {}
        return h.get(name)

    def candidates(self, ctx):
        spec = self.cur_spec
        if spec is None:
            return []
        return spec.candidates(ctx)

    # ------------------------------------------------------------ expressions
    def ev(self, n):
        m = getattr(self, "ev_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__}")
        return m(n)

    def ev_Constant(self, n):
        if n.value is Ellipsis:
            return Ellipsis
        return n.value

    def ev_Name(self, n):
        return self.lookup(n.id)

    def ev_Tuple(self, n):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                from . import lib

                it = lib.iterate(self, self.ev(e.value))
                if it.kind != "conc":
                    raise Unsupported("star of symbolic sequence in tuple display")
                out += list(it.items)
            else:
                out.append(self.ev(e))
        return tuple(self.freeze(x) for x in out)

    def freeze(self, x):
        return x

    def ev_List(self, n):
        vals = list(self.ev_Tuple(n))
        return self.alloc("list", vals)

    def ev_Set(self, n):
        vals = [self.ev(e) for e in n.elts]
        if all(not isinstance(v, (V, Ref)) for v in vals):
            try:
                return self.alloc("set", frozenset(vals), conc=True) if False else self._mkset(vals)
            except TypeError:
                pass
        return self._mkset(vals)

    def _mkset(self, vals):
        if all(isinstance(v, (int, str, float, type(None))) for v in vals) and not any(isinstance(v, V) for v in vals):
            ts = {self.typeof(v).key if v is not None else "None" for v in vals}
            if len(ts) != 1:
                return frozenset(vals)
        t = SetT(self.join_types([self.typeof(v) for v in vals]))
        z = t.empty()
        for v in vals:
            z = z3.SetAdd(z, self.lift(v, t.el))
        return self.alloc("set", V(t, z))

    def ev_Dict(self, n):
        if not n.keys:
            return self.alloc("dict", {})
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                raise Unsupported("dict unpack")
            kk = self.ev(k)
            if isinstance(kk, (V, Ref)):
                raise Unsupported("symbolic dict display")
            d[kk] = self.ev(v)
        return self.alloc("dict", d)

    def ev_JoinedStr(self, n):
        parts = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                v = self.ev(p.value)
                if isinstance(v, str):
                    parts.append(v)
                elif isinstance(v, V) and (v.t in (STR, CHAR) or isinstance(v.t, OpaqueT) and hasattr(self.cur_spec, "opaque_binop") and not p.format_spec and p.conversion == -1):
                    parts.append(v)
                elif isinstance(v, int):
                    parts.append(str(v))
                else:
                    return self.freshv("fstr", STR)
        r = ""
        for p in parts:
            r = p if r == "" else self.binop(ast.Add(), r, p)
        return r

    def ev_NamedExpr(self, n):
        v = self.ev(n.value)
        self.assign_name(n.target.id, v)
        return v

    def ev_Lambda(self, n):
        return Func(n, self.env_module(), self.callstack[-1] + ".<lambda>" if self.callstack else "<lambda>", env=self.env)

    def ev_IfExp(self, n):
        if self.binder_depth and False:
            pass
        if self.cond(n.test):
            return self.ev(n.body)
        return self.ev(n.orelse)

    def ev_BoolOp(self, n):
        # value semantics with short circuit; merge when both sides are pure booleans
        vals = n.values
        v = self.ev(vals[0])
        for nxt in vals[1:]:
            c = self.truth(v)
            if isinstance(c, bool):
                if isinstance(n.op, ast.And):
                    if not c:
                        return v
                else:
                    if c:
                        return v
                v = self.ev(nxt)
                continue
            b = self.decide(c)
            if isinstance(n.op, ast.And):
                if not b:
                    return v if not (isinstance(v, V) and v.t == BOOL) else False
            else:
                if b:
                    return v if not (isinstance(v, V) and v.t == BOOL) else True
            v = self.ev(nxt)
        return v

    def ev_UnaryOp(self, n):
        v = self.ev(n.operand)
        if isinstance(n.op, ast.Not):
            c = self.truth(v)
            return (not c) if isinstance(c, bool) else V(BOOL, z3.Not(c))
        if isinstance(n.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            if isinstance(v, V) and v.t == INT:
                return V(INT, -v.z)
            if isinstance(v, V) and v.t == REAL:
                return V(REAL, -v.z)
        raise Unsupported("unary op")

    def ev_Compare(self, n):
        left = self.ev(n.left)
        res = None
        for op, rn in zip(n.ops, n.comparators):
            right = self.ev(rn)
            r = self.compare(op, left, right)
            if res is None:
                res = r
            else:
                if res is False or r is False:
                    res = False
                elif res is True:
                    res = r
                elif r is not True:
                    res = z3.And(res, r)
            left = right
        return res if isinstance(res, bool) else V(BOOL, res)

    def compare(self, op, a, b):
        neg = lambda r: (not r) if isinstance(r, bool) else z3.Not(r)
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return neg(self.eq(a, b))
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return neg(self.is_(a, b))
        if isinstance(op, ast.In):
            return self.contains(a, b)
        if isinstance(op, ast.NotIn):
            return neg(self.contains(a, b))
        a, b = self.unopt(a), self.unopt(b)
        if isinstance(a, Ref):
            a = self.deref(a)
        if isinstance(b, Ref):
            b = self.deref(b)
        if isinstance(op, ast.Lt):
            return self.less(a, b)
        if isinstance(op, ast.LtE):
            return self.less(a, b, False)
        if isinstance(op, ast.Gt):
            return self.less(b, a)
        if isinstance(op, ast.GtE):
            return self.less(b, a, False)
        raise Unsupported("comparison")

    def is_(self, a, b):
        if a is None or b is None:
            o = b if a is None else a
            if o is None:
                return True
            if isinstance(o, V) and isinstance(o.t, OptT):
                return o.t.is_none(o.z)
            if isinstance(o, V) and isinstance(o.t, OpaqueT):
                return self.th.opaque_is_none(self, o)
            return False
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
            o = b if isinstance(a, bool) else a
            if isinstance(o, V) and o.t == BOOL:
                return self.eq(a, b)
            return False
        if a is Ellipsis or b is Ellipsis:
            return a is b
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.loc == b.loc
        if isinstance(a, V) and isinstance(b, V) and isinstance(a.t, OpaqueT) and a.t == b.t:
            return a.z == b.z
        if isinstance(a, (Func, Builtin, Cls, Mod)) or isinstance(b, (Func, Builtin, Cls, Mod)):
            return self.eq(a, b)
        raise Unsupported("is")

    def contains(self, x, s):
        from . import lib

        return lib.contains(self, x, s)

    def ev_BinOp(self, n):
        a, b = self.ev(n.left), self.ev(n.right)
        return self.binop(n.op, a, b)

    def binop(self, op, a, b):
        from . import lib

        return lib.binop(self, op, a, b)

    def ev_Subscript(self, n):
        base = self.ev(n.value)
        if isinstance(n.slice, ast.Slice):
            from . import lib

            s = n.slice
            return lib.slice_(self, base, s.lower and self.ev(s.lower), s.upper and self.ev(s.upper), s.step and self.ev(s.step))
        return self.subscript(base, self.ev(n.slice))

    def subscript(self, base, idx):
        from . import lib

        return lib.get_item(self, base, idx)

    def store_sub(self, base, idx, v):
        from . import lib

        lib.set_item(self, base, idx, v)

    def ev_Attribute(self, n):
        return self.getattr_(self.ev(n.value), n.attr)

    def getattr_(self, base, attr):
        from . import lib

        if isinstance(base, Ref) and self.cell(base).kind == "obj":
            c = self.cell(base)
            if attr in c.val:
                return c.val[attr]
            cls = c.extra.get("cls")
            if cls is not None:
                r = cls.find(self, attr)
                if r:
                    f, deco = r
                    if "property" in deco:
                        return self.call(f.bind(base), [], {})
                    if "staticmethod" in deco:
                        return f
                    return f.bind(base)
            if attr == "__class__":
                return c.extra.get("cls")
            raise PyExc("AttributeError", attr)
        if isinstance(base, Module):
            return self.global_lookup(attr, base)
        if isinstance(base, Mod):
            k = f"{base.name}.{attr}"
            if k in lib.LIB:
                return lib.LIB[k]
            return Mod(k)
        return lib.method(self, base, attr)

    def setattr_(self, base, attr, v):
        if isinstance(base, Ref) and self.cell(base).kind == "obj":
            c = self.cell(base)
            cls = c.extra.get("cls")
            # property setters
            if cls is not None and attr not in c.val:
                for k in [cls] + [b for b in cls.bases(self) if isinstance(b, Cls)]:
                    for s in k.node.body:
                        if isinstance(s, ast.FunctionDef) and s.name == attr and any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in s.decorator_list):
                            self.call(Func(s, k.module, f"{k.module.name}:{k.name}.{attr}.setter", self_=base, cls=k), [v], {})
                            return
            for L in self.loopstack:
                if base.loc in L["locs"]:
                    # attribute rebinding inside a loop: only allowed if same-typed immutable
                    if L.get("binder"):
                        raise Impure()
                    raise Unsupported("attribute assignment inside a cut loop")
            c.val[attr] = v
            return
        raise Unsupported("attribute assignment")

    def ev_Starred(self, n):
        raise Unsupported("starred")

    # comprehension ----------------------------------------------------------
    def ev_ListComp(self, n):
        from . import lib

        return lib.comprehension(self, n, "list")

    def ev_SetComp(self, n):
        from . import lib

        return lib.comprehension(self, n, "set")

    def ev_GeneratorExp(self, n):
        from . import lib

        return lib.GenExp(n, self.env, self)

    def ev_DictComp(self, n):
        from . import lib

        return lib.dict_comprehension(self, n)

    # calls --------------------------------------------------------------------
    def ev_Call(self, n):
        from . import lib

        self.callnode = n
        fnode = n.func
        # view-mutation on elements of containers: d[k].add(x)
        if isinstance(fnode, ast.Attribute) and isinstance(fnode.value, ast.Subscript) and fnode.attr in lib.MUTATORS:
            base = self.ev(fnode.value.value)
            if isinstance(base, Ref) and not isinstance(fnode.value.slice, ast.Slice):
                idx = self.ev(fnode.value.slice)
                r = lib.view_call(self, base, idx, fnode.attr, [self.ev(a) for a in n.args])
                if r is not NotImplemented:
                    return r
                f = self.getattr_(self.subscript(base, idx), fnode.attr)
            else:
                f = self.ev(fnode)
        else:
            f = self.ev(fnode)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                args.append(lib.Star(v))
            else:
                args.append(self.ev(a))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                v = self.ev(k.value)
                if isinstance(v, Ref) and self.cell(v).kind == "dict" and isinstance(self.cell(v).val, dict):
                    kw.update(self.cell(v).val)
                else:
                    kw["**"] = v
            else:
                kw[k.arg] = self.ev(k.value)
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        from . import lib

        if isinstance(f, Builtin):
            if any(isinstance(a, lib.Star) for a in args) and not f.name.endswith(("union", "intersection")):
                args = self.expand_stars(args)
            return f.fn(self, args, kw)
        if isinstance(f, Partial):
            k = dict(f.kw)
            k.update(kw)
            return self.call(f.f, list(f.args) + list(args), k)
        args = self.expand_stars(args)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw)
        if isinstance(f, Func):
            spec = self.reg.contract_for(self, f)
            if spec is not None and spec.closure:
                # a nested function: its body is verified where the enclosing function calls it
                # (captured variables as they are there, captured mutable state arbitrary), then
                # the call itself -- and every recursive call -- uses the contract only
                if f.node not in self.closures and self.choose(2) == 0:
                    spec.verify_closure(self, f)
                    raise PathEnd()
                return spec.apply(self, f, args, kw)
            if spec is not None and not (self.verifying is not None and self.verifying[0] is f.node and not self.callstack):
                return spec.apply(self, f, args, kw)
            return self.inline(f, args, kw)
        if isinstance(f, V) and isinstance(f.t, OpaqueT):
            return self.th.call_opaque(self, f, args, kw)
        if isinstance(f, Mod):
            raise Unsupported(f"library function {f.name} has no contract")
        raise Unsupported(f"call of {f!r}")

    def expand_stars(self, args):
        from . import lib

        out = []
        for a in args:
            if isinstance(a, lib.Star):
                it = lib.iterate(self, a.v)
                if it.kind != "conc":
                    out.append(a)
                else:
                    out += list(it.items)
            else:
                out.append(a)
        return out

    def instantiate(self, cls, args, kw):
        obj = self.alloc("obj", {}, cls=cls)
        r = cls.find(self, "__init__")
        if r:
            self.call(r[0].bind(obj), args, kw)
        return obj

    def bind_args(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        args = list(args)
        if f.self_ is not None:
            args = [f.self_] + args
        kw = dict(kw)
        for i, v in enumerate(args):
            if i < len(names):
                vals[names[i]] = v
            elif a.vararg:
                vals.setdefault(a.vararg.arg, [])
                vals[a.vararg.arg].append(v)
            else:
                raise PyExc("TypeError", "too many arguments")
        if a.vararg and a.vararg.arg not in vals:
            vals[a.vararg.arg] = []
        if a.vararg:
            vals[a.vararg.arg] = self.pack_varargs(vals[a.vararg.arg])
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in names or k in kwonly:
                if k in vals:
                    raise PyExc("TypeError", "multiple values")
                vals[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise PyExc("TypeError", f"unexpected keyword {k}")
        if a.kwarg:
            if "**" in extra and len(extra) == 1:
                vals[a.kwarg.arg] = extra["**"]
            else:
                vals[a.kwarg.arg] = self.alloc("dict", extra)
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        for nm in names + kwonly:
            if nm not in vals:
                if nm in defaults:
                    vals[nm] = self.ev_in_module(defaults[nm], f.module) if f.env is None else self.ev(defaults[nm])
                else:
                    raise PyExc("TypeError", f"missing argument {nm}")
        return vals

    def pack_varargs(self, vs):
        from . import lib

        if any(isinstance(v, lib.Star) for v in vs):
            if len(vs) == 1:
                return lib.to_tuple(self, vs[0].v)
            raise Unsupported("mixed symbolic varargs")
        return tuple(vs)

    def inline(self, f, args, kw):
        if len(self.callstack) > 12 or sum(1 for q in self.callstack if q == f.qual) >= 1:
            raise Unsupported(f"recursive call of {f.qual} without contract")
        self.S.inlined.add(f.qual)
        vals = self.bind_args(f, args, kw)
        return self.run_func(f, vals)

    def run_func(self, f, vals):
        save_env, save_cs = self.env, self.callstack
        env = Env(f.env, f.module)
        env.vars.update(vals)
        self.env = env
        self.callstack = self.callstack + [f.qual]
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(f.node)):
                # a generator: run to exhaustion, the values yielded are its result
                env.vars["__yielded"] = self.alloc("list", [])
                try:
                    self.run_body(f.node.body)
                except ReturnExc:
                    pass
                return env.vars["__yielded"]
            try:
                self.run_body(f.node.body)
            except ReturnExc as r:
                return r.v
            return None
        finally:
            self.env, self.callstack = save_env, save_cs

    def ex_yield(self, node):
        from . import lib

        if isinstance(node, ast.YieldFrom):
            raise Unsupported("yield from")
        self.S.notes.add("generators are run to exhaustion at the call (their bodies have no effects the consumer could observe earlier)")
        h = getattr(self.cur_spec, "on_yield", None)
        if h is not None:
            return h(self, self.ev(node.value) if node.value is not None else None)
        e = self.env.find("__yielded")
        lib.list_append(self, e.vars["__yielded"], self.ev(node.value) if node.value is not None else None)

    # binder evaluation ----------------------------------------------------------
    def under_binder(self, bound, guard, thunk):
        """Evaluate `thunk` for arbitrary `bound` constants under `guard`, without
        side effects.  Returns a value merged over internal branches; facts learned
        are generalised and assumed.  Raises Impure on mutation of outer state."""
        if self.binder_depth > 3:
            raise Unsupported("nested binders")
        outer = (self.prefix, self.trace, self.pc, self.pending, self.freshlog, self.cnt, self.env)
        heap_snapshot = {l: c.copy() for l, c in self.heap.items()}
        nloc = self.nloc
        base_cnt = self.cnt
        results = []
        excs = []
        self.binder_depth += 1
        maxcnt = self.cnt
        e, names = self.env, {}
        rec = {"names": {}, "locs": set(self.heap), "info": LoopInfo(), "binder": True}
        ee = self.env
        while ee is not None:
            for nm in ee.vars:
                rec["names"][(id(ee), nm)] = 0
            ee = ee.parent
        saved_vars = {}
        ee = self.env
        while ee is not None:
            saved_vars[id(ee)] = (ee, dict(ee.vars))
            ee = ee.parent
        stack = [[]]
        npaths = 0
        try:
            while stack:
                self.prefix, self.trace, self.pending = stack.pop(), [], stack
                npaths += 1
                if npaths > 64:
                    raise Unsupported("too many paths under binder")
                self.pc = list(outer[2])
                self.assume(guard)
                mark = len(self.pc)
                self.cnt = maxcnt
                self.freshlog = []
                self.heap = {l: c.copy() for l, c in heap_snapshot.items()}
                self.loopstack.append(rec)
                try:
                    v = thunk()
                    v = self.snapshot_value(v)
                    results.append((self.pc[mark:], v, list(self.freshlog)))
                except PyExc as x:
                    excs.append((self.pc[mark:], x, list(self.freshlog)))
                except PathEnd:
                    pass
                finally:
                    self.loopstack.pop()
                maxcnt = max(maxcnt, self.cnt)
        finally:
            self.binder_depth -= 1
            self.prefix, self.trace, self.pc, self.pending, self.freshlog, self.cnt, self.env = outer
            self.heap = heap_snapshot
            self.nloc = max(self.nloc, nloc)
            for ee, vs in saved_vars.values():
                ee.vars.clear()
                ee.vars.update(vs)
        self.cnt = maxcnt
        # skolemise fresh constants as functions of the bound variables
        allfresh = {}
        for _, _, fl in results + excs:
            for c in fl:
                allfresh[c.get_id()] = c
        subst = []
        for c in allfresh.values():
            fn = z3.Function(str(c) + "@b", *[b.sort() for b in bound], c.sort())
            subst.append((c, fn(*bound)))
        sub = (lambda z: z3.substitute(z, *subst)) if subst else (lambda z: z)
        # exceptional branches
        for facts, x, _ in excs:
            cond = z3.And(guard, *[sub(f) for f in facts])
            # does it happen for some element?
            if self.choose(2) == 0:
                # yes: a witness
                ws = [(b, self.fresh("w", b.sort())) for b in bound]
                self.assume(z3.substitute(cond, *ws))
                if self.feasible(z3.BoolVal(True)):
                    raise x
                raise PathEnd()
            self.assume(z3.ForAll(list(bound), z3.Not(cond)))
        if not results:
            raise PathEnd()
        if len(results) == 1:
            facts, v, _ = results[0]
            for f in facts:
                f = sub(f)
                self.assume_general(bound, guard, f)
            return self.map_value(v, sub)
        # merge
        conds = []
        for facts, v, _ in results:
            conds.append(z3.And(*[sub(f) for f in facts]) if facts else z3.BoolVal(True))
        # the branches are exhaustive (up to facts): assume disjunction
        self.assume_general(bound, guard, z3.Or(*conds))
        vals = [self.map_value(v, sub) for _, v, _ in results]
        if all(not isinstance(v, (V, Ref, tuple)) for v in vals) and all(v == vals[0] and type(v) is type(vals[0]) for v in vals):
            return vals[0]
        t = self.join_types([self.typeof(v) for v in vals])
        z = self.lift(vals[-1], t)
        for c, v in list(zip(conds, vals))[-2::-1]:
            z = z3.If(c, self.lift(v, t), z)
        return V(t, z)

    def assume_general(self, bound, guard, f):
        if any(occurs(b, f) for b in bound):
            self.assume(z3.ForAll(list(bound), z3.Implies(guard, f)))
        else:
            self.assume(f)

    def snapshot_value(self, v):
        if isinstance(v, Ref):
            c = self.cell(v)
            if c.kind == "obj":
                return v
            return self.deref_or_conc(v)
        if isinstance(v, tuple):
            return tuple(self.snapshot_value(x) for x in v)
        return v

    def map_value(self, v, f):
        if isinstance(v, V):
            return V(v.t, f(v.z))
        if isinstance(v, tuple):
            return tuple(self.map_value(x, f) for x in v)
        return v

    def feasible_now(self):
        return self.check(self.pc, RLIMIT, "v") != z3.unsat

    cur_spec = None
    verifying = None
    exclude_contracts = None


UNDEF = object()


MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "add", "discard", "popitem", "sort", "reverse", "appendleft", "popleft"}


def touches(node, name):
    """does this code rebind or modify the module-level name?"""
    for x in ast.walk(node):
        if isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name) and x.value.id == name:
            return True
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == name and x.func.attr in MUTATORS:
            return True
        if isinstance(x, ast.Global) and name in x.names:
            return True
        if isinstance(node, ast.stmt) and not isinstance(node, ast.FunctionDef) and isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, (ast.Store, ast.Del)):
            return True
    return False


def occurs(c, f):
    seen = set()
    todo = [f]
    cid = c.get_id()
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i == cid:
            return True
        if z3.is_quantifier(x):
            todo.append(x.body())
        else:
            todo.extend(x.children())
    return False


def walk_own(fn):
    """AST nodes of a function, excluding nested functions."""
    todo = list(fn.body) if not isinstance(fn, ast.Lambda) else [fn.body]
    while todo:
        x = todo.pop()
        yield x
        for c in ast.iter_child_nodes(x):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                todo.append(c)


def has_quantifier(f, seen=None):
    todo, seen = [f], set()
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x):
            return True
        if x.get_id() not in seen:
            seen.add(x.get_id())
            todo.extend(x.children())
    return False


class LoopCtx:
    """What a candidate invariant may talk about."""

    def __init__(self, I, it, pre, key, node):
        self.I, self.it, self.prestate, self.key, self.node = I, it, pre, key, node
        self.k = None
        self.visited = None
        self.mem = {}
        self.hints = []

    def hint(self, f):
        """an intermediate assertion: proved first, then available"""
        self.hints.append(f)

    # iteration state
    def start(self):
        self.k = z3.IntVal(0)
        if self.it is None:
            return
        if self.it.kind == "set":
            self.visited = SetT(self.it.el).empty()
        if self.it.kind == "pairs":
            self.visited = SetT(TupT(self.it.el, self.it.el)).empty()

    def havoc(self):
        I = self.I
        if self.it is None:
            return
        if self.it.kind == "idx":
            self.k = I.fresh("k", INT)
            I.assume(z3.And(self.k >= 0, self.k <= self.it.n))
        elif self.it.kind == "set":
            self.visited = I.fresh("vis", SetT(self.it.el))
            I.assume(z3.IsSubset(self.visited, self.it.s))
            self.k = I.th.card(self.it.el, self.visited)
        elif self.it.kind == "pairs":
            T = TupT(self.it.el, self.it.el)
            self.visited = I.fresh("vis", SetT(T))

    def enter(self):
        I = self.I
        it = self.it
        if it.kind == "idx":
            I.assume(self.k < it.n)
            return it.fn(self.k)
        if it.kind == "set":
            x = I.fresh("x", it.el)
            I.assume(z3.And(z3.IsMember(x, it.s), z3.Not(z3.IsMember(x, self.visited))))
            self.x = x
            return it.fn(x)
        if it.kind == "pairs":
            T = TupT(it.el, it.el)
            a, b = I.fresh("i", it.el), I.fresh("j", it.el)
            I.assume(z3.And(z3.IsMember(a, it.s), z3.IsMember(b, it.s), a != b, z3.Not(z3.IsMember(T.mk(a, b), self.visited)), z3.Not(z3.IsMember(T.mk(b, a), self.visited))))
            self.x = (a, b)
            return (V(it.el, a), V(it.el, b))
        raise Unsupported("iterate " + it.kind)

    def advance(self):
        it = self.it
        if it is None:
            return
        if it.kind == "idx":
            self.k = self.k + 1
        elif it.kind == "set":
            self.visited = z3.SetAdd(self.visited, self.x)
            self.k = self.I.th.card(it.el, self.visited)
        elif it.kind == "pairs":
            T = TupT(it.el, it.el)
            self.visited = z3.SetAdd(self.visited, T.mk(*self.x))

    def exit(self):
        I, it = self.I, self.it
        if it.kind == "idx":
            I.assume(self.k == it.n)
        elif it.kind == "set":
            I.assume(self.visited == it.s)
        elif it.kind == "pairs":
            T = TupT(it.el, it.el)
            a, b = z3.Const("pa", it.el.sort()), z3.Const("pb", it.el.sort())
            I.assume(z3.ForAll([a, b], z3.Implies(z3.And(it.s[a], it.s[b], a != b), z3.Or(self.visited[T.mk(a, b)], self.visited[T.mk(b, a)])), patterns=[z3.MultiPattern(it.s[a], it.s[b])]))

    # modified variables, by role
    def mod(self, t=None, want=None):
        """names of loop-modified variables whose current value has type t"""
        out = []
        for d, nm in sorted(self.info.vars):
            if d >= len(self.envs) or nm not in self.envs[d].vars:
                continue
            v = self.envs[d].vars[nm]
            try:
                ty = self.I.typeof(v)
            except Unsupported:
                continue
            if t is None or ty == t or (t == INT and ty == XINT) or (isinstance(t, Type) and t == XINT and ty == INT):
                out.append(nm)
        return out

    def modcells(self, t=None):
        """names of variables bound to containers mutated by the loop"""
        out = []
        seen = set()
        for e in self.envs:
            for nm, v in e.vars.items():
                if isinstance(v, Ref) and v.loc in self.info.locs and nm not in seen:
                    seen.add(nm)
                    out.append(nm)
        return out

    # access to program state
    def has(self, name):
        return self.I.env.find(name) is not None

    def raw(self, name):
        e = self.I.env.find(name)
        if e is None:
            raise NoVar(name)
        return e.vars[name]

    def z(self, name, t):
        """current value of a variable as an SMT term of type t"""
        v = self.raw(name)
        try:
            return self.I.lift(v if not isinstance(v, Ref) else v, t)
        except Unsupported:
            raise NoVar(name)

    def pre(self, name, t):
        v = self.prestate[0].get(name)
        if v is None:
            raise NoVar(name)
        h = self.I.heap
        self.I.heap = self.prestate[1]
        try:
            return self.I.lift(v, t)
        except (Unsupported, KeyError):
            raise NoVar(name)
        finally:
            self.I.heap = h


class NoVar(Exception):
    pass


class Cand:
    """A candidate invariant: fn(ctx) -> z3 Bool (or None when not applicable)."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def eval(self, ctx):
        try:
            return self.fn(ctx)
        except NoVar:
            return None
