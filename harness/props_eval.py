"""Concrete cases and oracles: parsing, evaluation, sharing and backends (C01, C09..C15, C19, C20)."""
import gc
import itertools
import random
import threading

from .common import Fail, LET, equal, gen_net, ints, np, oe, oracle_einsum, prod, rand_path, shapes_of
from .props_plan import UNI, NAMES, limit_value, need, no_limit_path_ok, rand_limit, rand_strategy, strategy


def refused(e, case):
    return isinstance(e, RuntimeError) and "memory_limit" in str(e) and case.get("lim") not in (None, -1)


# ------------------------------------------------------------------------ C01


def gen_C01(rng, tier):
    x = rng.random()
    terms, out, sizes = gen_net(rng, 1, 4 if x < 0.4 else 7 if x < 0.95 else 24, zero=0.03 if rng.random() < 0.3 else 0, maxspace=3000,
                                letters=LET if rng.random() < 0.85 else UNI + "ab", dmax=3)
    opt = rand_strategy(rng, len(terms))
    if rng.random() < 0.12:
        opt = ["lit", rng.choice([True, None, False])]
    return dict(terms=terms, out=out, sizes=sizes, opt=opt, lim=rand_limit(rng, terms, out, sizes, 0.6), blas=rng.random() < 0.7,
                bcast=rng.random() < 0.2, aseed=rng.randint(0, 10**6), same=rng.random() < 0.2, dtype=rng.choice(["f", "f", "i", "c"]),
                lists=rng.random() < 0.05)


def make_arrays(case, rng=None):
    rng = rng or random.Random(case["aseed"])
    shp = shapes_of(case["terms"], case["sizes"], rng, 0.2 if case.get("bcast") else 0)
    arrays = [ints(rng, s, -2, 3) for s in shp]
    if case.get("dtype") == "i":
        arrays = [a.astype(int) for a in arrays]
    elif case.get("dtype") == "c":
        arrays = [a + 1j * ints(rng, s, -1, 1) for a, s in zip(arrays, shp)]
    if case.get("same"):
        # the same array object for operands of equal shape
        first = {}
        arrays = [first.setdefault(a.shape, a) for a in arrays]
    if rng.random() < 0.2:
        # non-contiguous views
        arrays = [np.asfortranarray(a) if a.ndim else a for a in arrays]
    return arrays


def eqc(got, want):
    got, want = np.asarray(got), np.asarray(want)
    return got.shape == want.shape and bool(np.array_equal(got, want))


def check_C01(case):
    o = oe()
    arrays = make_arrays(case)
    want = oracle_einsum(case["terms"], case["out"], arrays)
    eq = ",".join(case["terms"]) + "->" + case["out"]
    if case.get("lists") and all(a.size for a in arrays):
        arrays = [a.tolist() for a in arrays]
    try:
        got = o.contract(eq, *arrays, optimize=strategy(case["opt"]), use_blas=case["blas"], memory_limit=case["lim"])
    except RuntimeError as e:
        if refused(e, case):
            return "refused"
        raise
    need(eqc(got, want), f"contract({eq!r}, shapes {[np.shape(a) for a in arrays]}, {case['opt']}, use_blas={case['blas']}, memory_limit={case['lim']}) differs from the Einstein sum")
    return len(case["terms"]) > 1


# ------------------------------------------------------------------------ C09


def gen_C09(rng, tier):
    kind = rng.choice(["implicit", "ellipsis", "ellipsis", "ellipsis-implicit", "interleaved", "interleaved-ellipsis", "space"])
    terms, out, sizes = gen_net(rng, 1, 4, dmax=3, maxspace=400, rep=0.06, maxrank=3, letters="abcdefABC" if rng.random() < 0.8 else "abéßñA")
    c = dict(kind=kind, terms=terms, out=out, sizes=sizes, aseed=rng.randint(0, 10**6),
             opt=rng.choice([["lit", True], ["lit", False], ["name", "greedy"], ["path", rand_path(rng, len(terms))]]))
    if "ellipsis" in kind:
        nd = rng.randint(0, 2)
        base = [rng.randint(1, 3) for _ in range(nd)]
        ell = []
        for t in terms:
            if rng.random() < 0.75:
                k = rng.randint(0, nd)
                ell.append([1 if rng.random() < 0.2 else d for d in base[nd - k:]])
            else:
                ell.append(None)
        if not any(e is not None for e in ell):
            ell[0] = base
        # all operands with an ellipsis agree on broadcasting
        c["ell"] = ell
        c["epos"] = [rng.randint(0, len(t)) for t in terms]
        c["opos"] = rng.randint(0, len(out))
    if "interleaved" in kind:
        c["sym"] = rng.choice(["int", "str", "tuple", "neg"])
        c["noout"] = rng.random() < 0.4
    return c


def check_C09(case):
    o = oe()
    rng = random.Random(case["aseed"])
    kind, terms, out, sizes = case["kind"], case["terms"], case["out"], case["sizes"]
    opt = strategy(case["opt"])
    # full explicit reference terms
    ref_terms = list(terms)
    shapes = [tuple(sizes[c] for c in t) for t in terms]
    ref_out = out
    user_terms = list(terms)
    implicit = kind in ("implicit", "ellipsis-implicit")
    E = "".join(chr(0x2460 + k) for k in range(8))
    user_out = out
    has_ell = "ellipsis" in kind
    if has_ell:
        longest = max(len(e) for e in case["ell"] if e is not None)
        for i, e in enumerate(case["ell"]):
            if e is None:
                continue
            p = case["epos"][i]
            lab = E[longest - len(e):longest]
            ref_terms[i] = terms[i][:p] + lab + terms[i][p:]
            shapes[i] = shapes[i][:p] + tuple(e) + shapes[i][p:]
            user_terms[i] = terms[i][:p] + "..." + terms[i][p:]
        ref_out = out[:case["opos"]] + E[:longest] + out[case["opos"]:]
        user_out = out[:case["opos"]] + "..." + out[case["opos"]:]
    joined = "".join(terms)
    imp = "".join(sorted(c for c in set(joined) if joined.count(c) == 1))
    arrays = [ints(rng, s) for s in shapes]
    if implicit or case.get("noout"):
        ref_out = (E[:longest] if has_ell else "") + imp
        user_out = None
    # interleaved
    if "interleaved" in kind:
        syms = sorted(set(joined))
        m = {"int": lambda i: i * 3, "str": lambda i: "name%03d" % i, "tuple": lambda i: (0, i), "neg": lambda i: i - 5}[case["sym"]]
        mp = {c: m(i) for i, c in enumerate(syms)}

        def conv(t):
            r = []
            i = 0
            while i < len(t):
                if t[i:i + 3] == "...":
                    r.append(Ellipsis)
                    i += 3
                else:
                    r.append(mp[t[i]])
                    i += 1
            return r

        args = []
        for a, t in zip(arrays, user_terms):
            args += [a, conv(t)]
        if user_out is not None:
            args.append(conv(user_out))
    else:
        eq = ",".join(user_terms) + ("" if user_out is None else "->" + user_out)
        if kind == "space":
            eq = "".join(c + " " * rng.randint(0, 2) for c in eq)
            # the arrow must stay in one piece only for the reader: blanks are dropped everywhere
        args = [eq] + arrays
    desc = repr([a if not isinstance(a, np.ndarray) else a.shape for a in args])
    ins, outp, ops = o.parser.parse_einsum_input(list(args))
    need(len(ops) == len(arrays) and all(x is y for x, y in zip(ops, arrays)), f"operands changed or reordered by parsing {desc}")
    got_terms = ins.split(",")
    # same structure as the reference: a one-to-one renaming of all index symbols
    need(len(got_terms) == len(ref_terms), f"{desc} parsed as {ins}->{outp}")
    fwd, bwd = {}, {}
    for g, r in zip(got_terms + [outp], ref_terms + [ref_out]):
        need(len(g) == len(r), f"{desc} parsed as {ins}->{outp}, reference {ref_terms}->{ref_out}")
        for a, b in zip(g, r):
            need(fwd.setdefault(a, b) == b and bwd.setdefault(b, a) == a, f"{desc} parsed as {ins}->{outp}, reference {ref_terms}->{ref_out}")
    if "interleaved" not in kind:
        need(all(fwd[c] == c for c in set(joined)), f"{desc}: explicit indices renamed: {ins}->{outp}")
    want = oracle_einsum(ref_terms, ref_out, arrays)
    got = o.contract(*args, optimize=opt)
    need(equal(got, want), f"contract{desc} optimize={case['opt']} differs from the Einstein sum {ref_terms}->{ref_out}")
    if "interleaved" not in kind:
        # the same through shapes only
        i2, o2, _ = o.parser.parse_einsum_input([args[0]] + [a.shape for a in arrays], shapes=True)
        need((i2, o2) == (ins, outp), f"{desc}: arrays parse as {ins}->{outp}, shapes as {i2}->{o2}")
    return True


# ------------------------------------------------------------------------ C10

BAD = ["arrow2", "minus", "gt", "reversed-arrow", "dup-out", "foreign-out", "few-operands", "many-operands", "rank", "size", "dots2", "dots4",
       "two-ellipses", "neg-ellipsis", "name", "kwarg", "mem0", "memneg", "memstr", "path-short", "path-range", "path-empty", "expr-args", "expr-out", "expr-false",
       "mixed-symbols", "unhashable", "no-operands", "shapes-arrays"]


def gen_C10(rng, tier):
    terms, out, sizes = gen_net(rng, 1, 5, dmax=4, maxspace=2000, rep=0, zero=0, unit=0)
    return dict(bad=rng.choice(BAD), terms=terms, out=out, sizes=sizes, aseed=rng.randint(0, 10**6),
                opt=rng.choice([["lit", True], ["name", "greedy"], ["name", "optimal"], ["name", "dp"], ["path", rand_path(rng, len(terms))]]),
                call=rng.choice(["contract", "path", "path-shapes", "expression"]))


def check_C10(case):
    o = oe()
    rng = random.Random(case["aseed"])
    terms, out, sizes, bad = list(case["terms"]), case["out"], case["sizes"], case["bad"]
    shapes = [tuple(sizes[c] for c in t) for t in terms]
    arrays = [ints(rng, s) for s in shapes]
    eq = ",".join(terms) + "->" + out
    opt = strategy(case["opt"])
    call = case["call"]
    kw = {}
    args = None
    used = sorted(set("".join(terms)))
    if bad == "arrow2":
        eq = eq + "->" + out
    elif bad == "minus":
        eq = eq.replace("->", "-")
    elif bad == "gt":
        eq = eq.replace("->", ">")
    elif bad == "reversed-arrow":
        eq = eq.replace("->", ">-")
    elif bad == "dup-out":
        if not used:
            return None
        c = rng.choice(used)
        eq = ",".join(terms) + "->" + (out + c if c in out else out + c + c)
    elif bad == "foreign-out":
        p = rng.randint(0, len(out))
        eq = ",".join(terms) + "->" + out[:p] + "Z" + out[p:]
    elif bad == "few-operands":
        if len(terms) < 2:
            return None
        shapes, arrays = shapes[:-1], arrays[:-1]
    elif bad == "many-operands":
        shapes = shapes + [(2,)]
        arrays = arrays + [np.ones(2)]
    elif bad == "rank":
        k = rng.randrange(len(terms))
        s = list(shapes[k])
        if s and rng.random() < 0.5:
            s.pop()
        else:
            s.append(1)
        shapes[k] = tuple(s)
        arrays[k] = np.ones(s)
    elif bad == "size":
        cand = [(k, j) for k, t in enumerate(terms) for j, c in enumerate(t) if sum(u.count(c) for u in terms) > 1 and sizes[c] > 1]
        if not cand:
            return None
        k, j = rng.choice(cand)
        s = list(shapes[k])
        s[j] = rng.choice([d for d in range(0, sizes[terms[k][j]] + 3) if d not in (1, sizes[terms[k][j]])])
        shapes[k] = tuple(s)
        arrays[k] = np.ones(s)
    elif bad in ("dots2", "dots4", "two-ellipses"):
        k = rng.randrange(len(terms))
        d = {"dots2": "..", "dots4": "....", "two-ellipses": "......" if rng.random() < 0.5 else None}[bad]
        p = rng.randint(0, len(terms[k]))
        t = terms[k][:p] + (d or "...") + terms[k][p:]
        if d is None:
            t = "..." + t if p else t + "..."
        terms[k] = t
        eq = ",".join(terms) + "->" + out
    elif bad == "neg-ellipsis":
        k = rng.randrange(len(terms))
        if not shapes[k]:
            return None
        p = rng.randint(0, len(terms[k]))
        terms[k] = terms[k][:p] + "..." + terms[k][p:]
        shapes[k] = shapes[k][1:]
        if not shapes[k]:
            shapes[k] = (3,)
            terms[k] = terms[k] + "X" + "Y"
        arrays[k] = np.ones(shapes[k])
        eq = ",".join(terms) + "->" + out
    elif bad == "name":
        if len(terms) < 3:
            return None
        opt = rng.choice(["optimall", "greedyy", "xyz", "random"])
    elif bad == "kwarg":
        call = "path"
        kw = {"unknown_option": 1}
    elif bad == "mem0":
        kw = {"memory_limit": 0}
    elif bad == "memneg":
        kw = {"memory_limit": rng.choice([-2, -10, 0.5, -0.5])}
    elif bad == "memstr":
        kw = {"memory_limit": rng.choice(["max-input", "MAX", "5", "max_inputs", "", "MAX_INPUT"])}
    elif bad == "path-short":
        if len(terms) < 2:
            return None
        opt = rand_path(rng, len(terms))[:-1] if len(terms) > 2 else [(0,)]
        rem = len(terms)
        for p in opt:
            rem -= len(p) - 1
        if rem <= 1:
            return None
    elif bad == "path-range":
        if len(terms) < 2:
            return None
        opt = [tuple(range(len(terms) - 1)) + (len(terms) + rng.randint(0, 3),)]
    elif bad == "path-empty":
        if len(terms) < 2:
            return None
        opt = []
    elif bad == "expr-args":
        e = o.contract_expression(eq, *shapes, optimize=opt)
        args = arrays[:-1] if rng.random() < 0.5 else arrays + arrays[:1]
        return rejected(lambda: e(*args), case, f"expression of {len(arrays)} operands called with {len(args)}")
    elif bad == "expr-out":
        nm = rng.choice(["out", "backend"])
        return rejected(lambda: o.contract_expression(eq, *shapes, **{nm: "numpy"}), case, f"contract_expression(..., {nm}=...)")
    elif bad == "expr-false":
        return rejected(lambda: o.contract_expression(eq, *shapes, optimize=False), case, "contract_expression(optimize=False)")
    elif bad in ("mixed-symbols", "unhashable"):
        if not any(len(t) for t in terms) or sum(map(len, terms)) < 2:
            return None
        args = []
        k = 0
        for a, t in zip(arrays, terms):
            if bad == "mixed-symbols":
                sub = []
                for c in t:
                    sub.append(k if k % 2 else "s%d" % k)
                    k += 1
            else:
                sub = [[c] for c in t]
            args += [a, sub]
        return rejected(lambda: o.contract(*args), case, f"interleaved symbols {args[1::2]}")
    elif bad == "no-operands":
        return rejected(lambda: o.contract(""), case, "no operands") and rejected(lambda: o.contract_path(""), case, "no operands")
    elif bad == "shapes-arrays":
        return rejected(lambda: o.contract_path(eq, *arrays, shapes=True), case, "arrays passed as shapes")
    desc = f"{call} {eq!r} shapes {shapes} optimize={opt!r} {kw}"
    if call == "contract":
        return rejected(lambda: o.contract(eq, *arrays, optimize=opt, **kw), case, desc)
    if call == "path":
        return rejected(lambda: o.contract_path(eq, *arrays, optimize=opt, **kw), case, desc)
    if call == "path-shapes":
        return rejected(lambda: o.contract_path(eq, *shapes, shapes=True, optimize=opt, **kw), case, desc)
    return rejected(lambda: o.contract_expression(eq, *shapes, optimize=opt, **kw), case, desc)


def rejected(f, case, desc):
    try:
        r = f()
    except Exception:
        return True
    raise Fail(f"malformed input accepted ({case['bad']}): {desc} -> {str(r)[:80]}")


# ------------------------------------------------------------------------ C11


def gen_C11(rng, tier):
    k = rng.choice(["symbol", "unused", "convert", "canon", "output"])
    alphabet = rng.choice(["abc", LET + LET.upper(), UNI + "abAB", "".join(chr(x) for x in range(192, 230)) + LET])
    def s(n):
        return "".join(rng.choice(alphabet) for _ in range(n))
    c = dict(kind=k)
    if k == "symbol":
        c["i"] = [rng.choice([rng.randint(0, 60), rng.randint(0, 56000), rng.randint(55200, 55400), rng.randint(0, 1000000)]) for _ in range(30)]
    elif k == "unused":
        c["used"] = s(rng.randint(0, 30))
        c["n"] = rng.randint(0, 70)
    elif k == "convert" or k == "canon":
        t = [s(rng.randint(0, 4)) for _ in range(rng.randint(1, 5))]
        if rng.random() < 0.15:
            big = LET + LET.upper() + "".join(chr(x) for x in range(192, 260))
            t = ["".join(rng.sample(big, rng.randint(20, 100))) for _ in range(rng.randint(1, 3))]
        u = sorted(set("".join(t)))
        rng.shuffle(u)
        c["eq"] = ",".join(t) + ("->" + "".join(u[:rng.randint(0, 3)]) if rng.random() < 0.7 else "")
        c["aseed"] = rng.randint(0, 10**6)
    else:
        c["eq"] = ",".join(s(rng.randint(0, 4)) for _ in range(rng.randint(1, 5)))
    return c


def check_C11(case):
    o = oe()
    P = o.parser
    k = case["kind"]
    if k == "symbol":
        seen = {}
        for i in case["i"]:
            c = o.get_symbol(i)
            need(isinstance(c, str) and len(c) == 1, f"get_symbol({i}) = {c!r}")
            need(c not in ",->. ", f"get_symbol({i}) = {c!r} is not an index symbol")
            need(seen.setdefault(c, i) == i, f"get_symbol({i}) == get_symbol({seen[c]}) == {c!r}")
            for j in (i - 1, i + 1, i + 140, i + 2048, i - 140, i - 2048, i - 1908, i + 1908):
                if 0 <= j <= 1000000 and j != i:
                    need(o.get_symbol(j) != c, f"get_symbol({i}) == get_symbol({j}) == {c!r}")
    elif k == "unused":
        r = list(P.gen_unused_symbols(case["used"], case["n"]))
        need(len(r) == case["n"] and len(set(r)) == len(r), f"gen_unused_symbols({case['used']!r}, {case['n']}) = {r}")
        need(not set(r) & set(case["used"]), f"gen_unused_symbols({case['used']!r}, {case['n']}) = {r} reuses a symbol")
    elif k in ("convert", "canon"):
        f = P.convert_to_valid_einsum_chars if k == "convert" else P.alpha_canonicalize
        eq = case["eq"]
        r = f(eq)
        need(len(r) == len(eq), f"{f.__name__}({eq!r}) = {r!r}")
        fwd, bwd = {}, {}
        for a, b in zip(eq, r):
            if a in ",->":
                need(a == b, f"{f.__name__}({eq!r}) = {r!r}")
            else:
                need(b not in ",->." and fwd.setdefault(a, b) == b and bwd.setdefault(b, a) == a, f"{f.__name__}({eq!r}) = {r!r} is not a renaming")
        if k == "convert":
            need(len(fwd) > 52 or P.has_valid_einsum_chars_only(r), f"{r!r} has invalid characters")
            # order of symbols is kept, so an implicit output keeps its order
            ks = sorted(fwd)
            base = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
            need(len(ks) > 52 or [base.index(fwd[a]) for a in ks] == sorted(base.index(fwd[a]) for a in ks), f"{f.__name__}({eq!r}) = {r!r} reorders symbols")
        else:
            rng = random.Random(case["aseed"])
            names = sorted(set(eq) - set(",->."))
            other = rng.sample([chr(x) for x in range(0x4e00, 0x5000)], len(names))
            ren = "".join(dict(zip(names, other)).get(x, x) for x in eq)
            need(f(ren) == r, f"equal up to renaming, but canonical forms {r!r} and {f(ren)!r}")
            # merging two indices is a different equation
            if len(names) > 1:
                merged = eq.replace(names[0], names[1])
                need(f(merged) != r, f"{eq!r} and {merged!r} share canonical form {r!r}")
    else:
        eq = case["eq"]
        r = P.find_output_str(eq)
        flat = eq.replace(",", "")
        need(r == "".join(sorted(c for c in set(flat) if flat.count(c) == 1)), f"find_output_str({eq!r}) = {r!r}")
    return True


# ------------------------------------------------------------------------ C12


def gen_C12(rng, tier):
    pool_shapes = {}
    ops = []
    letters = "abcd"
    sizes = {c: rng.randint(1, 3) for c in letters}
    same = rng.random() < 0.6
    if same:
        sizes = {c: 2 for c in letters}
    for _ in range(rng.randint(2, 7)):
        terms, out, _s = gen_net(rng, 1, 3, letters=letters, maxrank=3, rep=0.1, scalar=0.03)
        ops.append(dict(terms=terms, out=out, arr=[rng.randint(0, 2) for _ in terms], opt=rng.choice(["auto", "greedy", "lit-false", "optimal"]),
                        form=rng.choice(["str", "str", "implicit", "interleaved"]), out_arg=rng.random() < 0.2, blas=rng.random() < 0.5,
                        fresh=rng.random() < 0.25, act=rng.choice(["", "", "", "nest", "leave", "gc"]), unicode=rng.random() < 0.1))
        if rng.random() < 0.35 and len(ops) > 1:
            # repeat an earlier operation in a disguise: permuted terms, renamed indices
            b = dict(rng.choice(ops[:-1]))
            perm = list(range(len(b["terms"])))
            rng.shuffle(perm)
            ren = dict(zip(letters, rng.sample(letters, 4))) if same else {c: c for c in letters}
            b["terms"] = ["".join(ren[c] for c in b["terms"][i]) for i in perm]
            b["arr"] = [b["arr"][i] for i in perm]
            o_ = list(b["out"])
            if rng.random() < 0.5:
                rng.shuffle(o_)
            b["out"] = "".join(ren[c] for c in o_)
            if same and rng.random() < 0.5 and b["terms"]:
                # other pairing of the same axes: two indices trade places in one term
                i = rng.randrange(len(b["terms"]))
                t = list(b["terms"][i])
                if len(t) > 1:
                    x, y = rng.sample(range(len(t)), 2)
                    t[x], t[y] = t[y], t[x]
                    b["terms"] = b["terms"][:i] + ["".join(t)] + b["terms"][i + 1:]
            b["form"] = "str"
            ops[-1] = b
    return dict(ops=ops, sizes=sizes, aseed=rng.randint(0, 10**6))


def check_C12(case):
    o = oe()
    rng = random.Random(case["aseed"])
    sizes = case["sizes"]
    pool = {}

    def get(k, shape, fresh):
        if fresh:
            return ints(rng, shape)
        key = (k, shape)
        if key not in pool:
            pool[key] = ints(rng, shape)
        return pool[key]

    def run(op):
        # built in a function so that fresh arrays die between operations
        arrays = [get(k, tuple(sizes[c] for c in t), op["fresh"]) for k, t in zip(op["arr"], op["terms"])]
        terms, out = op["terms"], op["out"]
        if op["unicode"]:
            tr = dict(zip("abcd", "äßçð"))
            terms = ["".join(tr[c] for c in t) for t in terms]
            out = "".join(tr[c] for c in out)
        j = "".join(terms)
        imp = "".join(sorted(c for c in set(j) if j.count(c) == 1))
        kw = dict(optimize=False if op["opt"] == "lit-false" else op["opt"])
        if op["opt"] != "lit-false":
            kw["use_blas"] = op["blas"]
        if op["form"] == "implicit":
            out = imp
            args = [",".join(terms)] + arrays
        elif op["form"] == "interleaved":
            args = []
            for a, t in zip(arrays, terms):
                args += [a, [ord(c) for c in t]]
            args.append([ord(c) for c in out])
        else:
            args = [",".join(terms) + "->" + out] + arrays
        want = oracle_einsum(terms, out, arrays)
        if op["out_arg"]:
            buf = np.full(want.shape, 77.0)
            got = o.contract(*args, out=buf, **kw)
            need(got is buf, f"shared contraction {terms}->{out} did not return `out`")
        else:
            got = o.contract(*args, **kw)
        need(equal(got, want), f"contraction {terms}->{out} ({op['opt']}, {op['form']}, out={op['out_arg']}) inside a sharing context differs from the Einstein sum; history {case['ops']}")

    cache = {}
    ctx = [o.shared_intermediates(cache)]
    ctx[0].__enter__()
    try:
        for op in case["ops"]:
            run(op)
            if op["act"] == "nest":
                c = o.shared_intermediates(rng.choice([None, cache]))
                c.__enter__()
                ctx.append(c)
            elif op["act"] == "leave" and len(ctx) > 1:
                ctx.pop().__exit__(None, None, None)
            elif op["act"] == "gc":
                gc.collect()
    finally:
        while ctx:
            ctx.pop().__exit__(None, None, None)
    # the cache can be resumed
    with o.shared_intermediates(cache):
        for op in case["ops"][:2]:
            run(op)
    # array conversions are shared by identity: recycled ids must not matter
    conv = getattr(o.sharing, "to_backend_cache_wrap", None)
    if conv is not None:
        @conv
        def to_copy(array):
            return np.array(array)

        @conv(constants=True)
        def to_copy_const(array, constant=False):
            return np.array(array) if constant else -np.array(array)

        with o.shared_intermediates():
            for i in range(6):
                x = np.full((2, 2), float(i))
                need(np.array_equal(to_copy(x), x) and np.array_equal(to_copy_const(x, constant=True), x)
                     and np.array_equal(to_copy_const(x), -x), "a shared array conversion returned the conversion of another array")
                del x
    return True


# ------------------------------------------------------------------------ C13


def gen_C13(rng, tier):
    def script(depth):
        r = []
        for _ in range(rng.randint(0, 3 if depth else 2)):
            r.append(rng.choice([["ctx", rng.choice(["new", "user", "new", "user", "same", "kept"]), script(depth - 1), rng.choice(["ok", "raise"])] if depth else ["probe"], ["probe"], ["work"], ["yield"]]))
        return r
    return dict(threads=[script(3) for _ in range(rng.randint(1, 4))], sched=rng.randint(0, 10**6))


class _Boom(Exception):
    pass


def check_C13(case):
    o = oe()
    S = o.sharing
    lock = threading.Condition()
    rng = random.Random(case["sched"])
    state = {"turn": None, "alive": set()}
    errors = []
    kept = {}
    x = np.arange(4.0).reshape(2, 2)

    def switch(me):
        with lock:
            state["turn"] = rng.choice(sorted(state["alive"])) if state["alive"] else None
            lock.notify_all()
            while state["turn"] != me and me in state["alive"]:
                if not lock.wait(20):
                    raise RuntimeError("scheduler stuck")

    def probe(stack):
        need(S.currently_sharing() == bool(stack), f"currently_sharing() = {S.currently_sharing()} with {len(stack)} open contexts of this thread")
        if stack:
            need(S.get_sharing_cache() is stack[-1], "the current cache is not the innermost context's")
        else:
            try:
                c = S.get_sharing_cache()
            except Exception:
                c = None
            need(not c, "a sharing cache with entries outside any context")
            need(not S.currently_sharing(), "looking for a cache outside any context switched sharing on")

    def run(me, script, stack):
        for step in script:
            if step[0] == "probe":
                probe(stack)
            elif step[0] == "yield":
                switch(me)
                probe(stack)
            elif step[0] == "work":
                before = [len(c) for c in stack]
                y = x + me
                r = o.contract("ab,bc->ac", y, y)
                need(equal(r, y @ y), "wrong product")
                if stack:
                    need(len(stack[-1]) > before[-1], "work inside a context was not stored in its cache")
                    need(all(len(c) == b for c, b in zip(stack[:-1], before) if c is not stack[-1]), "an outer cache was written")
                probe(stack)
            else:
                _, kind, body, end = step
                user = {} if kind == "user" else stack[-1] if kind == "same" and stack else kept.setdefault(me, {}) if kind == "kept" else None
                try:
                    with o.shared_intermediates(user) as cache:
                        need(user is None or cache is user, "context did not use the given cache")
                        need(user is not None or all(cache is not c for c in stack), "context reused an outer cache")
                        stack.append(cache)
                        switch(me)
                        probe(stack)
                        try:
                            run(me, body, stack)
                            probe(stack)
                        finally:
                            stack.pop()
                        if end == "raise":
                            raise _Boom()
                except _Boom:
                    need(end == "raise", "unexpected exception")
                else:
                    need(end == "ok", "an exception was swallowed by the context")
                probe(stack)
                switch(me)
                probe(stack)

    def main(me, script):
        try:
            switch(me)
            probe([])
            run(me, script, [])
            probe([])
        except BaseException as e:
            errors.append(e)
        finally:
            with lock:
                state["alive"].discard(me)
                state["turn"] = rng.choice(sorted(state["alive"])) if state["alive"] else None
                lock.notify_all()

    ths = [threading.Thread(target=main, args=(i, s), daemon=True) for i, s in enumerate(case["threads"])]
    state["alive"] = set(range(len(ths)))
    state["turn"] = 0
    for t in ths:
        t.start()
    for t in ths:
        t.join(60)
    need(not any(t.is_alive() for t in ths), "deadlock between sharing threads") if not errors else None
    for e in errors:
        if isinstance(e, Fail):
            raise e
        raise e
    need(not o.sharing.currently_sharing(), "sharing outside any context")
    stk = getattr(o.sharing, "_SHARING_STACK", None)
    if isinstance(stk, dict):
        need(not any(v for v in stk.values()), f"contexts left behind: {dict(stk)}")
    return any(s for s in case["threads"])


# ------------------------------------------------------------------------ C14

FAST_BACKENDS = ["auto", "numpy", "object", "torch"]
SLOW_BACKENDS = ["jax", "tensorflow", "autograd", "dask"]


def gen_C14(rng, tier):
    terms, out, sizes = gen_net(rng, 1, 5, dmax=3, maxspace=500, rep=0.05, zero=0, letters=LET if rng.random() < 0.9 else UNI)
    n = len(terms)
    consts = [i for i in range(n) if rng.random() < 0.4]
    if len(consts) == n:
        consts.pop(rng.randrange(n))
    if rng.random() < 0.2:
        consts = []
    calls = []
    backs = FAST_BACKENDS if tier == "quick" else FAST_BACKENDS + SLOW_BACKENDS
    for _ in range(rng.randint(1, 4)):
        calls.append(dict(backend=rng.choice(backs), out=rng.random() < 0.25, bad=rng.random() < 0.15, seed=rng.randint(0, 10**6),
                          share=rng.random() < 0.15))
    return dict(terms=terms, out=out, sizes=sizes, consts=consts, calls=calls, opt=rand_strategy(rng, n, instances=False), lim=None,
                aseed=rng.randint(0, 10**6), form=rng.choice(["str", "str", "interleaved", "implicit"]), blas=rng.random() < 0.7)


def check_C14(case):
    o = oe()
    rng = random.Random(case["aseed"])
    terms, out, sizes = case["terms"], case["out"], case["sizes"]
    shapes = [tuple(sizes[c] for c in t) for t in terms]
    consts = {i: ints(rng, shapes[i]) for i in case["consts"]}
    saved = {i: a.copy() for i, a in consts.items()}
    args = [consts.get(i, s) for i, s in enumerate(shapes)]
    kw = dict(constants=sorted(consts), optimize=strategy(case["opt"]), use_blas=case["blas"])
    j = "".join(terms)
    imp = "".join(sorted(c for c in set(j) if j.count(c) == 1))
    if case["form"] == "interleaved" and not any(not s for s in shapes):
        il = []
        for a, t in zip(args, terms):
            il += [a, [ord(c) for c in t]]
        il.append([ord(c) for c in out])
        e = o.contract_expression(*il, **kw)
    elif case["form"] == "implicit":
        out = imp
        e = o.contract_expression(",".join(terms), *args, **kw)
    else:
        e = o.contract_expression(",".join(terms) + "->" + out, *args, **kw)
    import contextlib

    for c in case["calls"]:
        r2 = random.Random(c["seed"])
        full = [consts[i] if i in consts else ints(r2, s) for i, s in enumerate(shapes)]
        var = [a for i, a in enumerate(full) if i not in consts]
        want = oracle_einsum(terms, out, full)
        if c["bad"]:
            try:
                e(*var, np.ones(3))
            except ValueError:
                pass
            else:
                raise Fail("expression accepted a wrong number of operands")
        b = c["backend"]
        ckw = {}
        if b != "auto":
            ckw["backend"] = b
        buf = None
        if c["out"] and b in ("auto", "numpy", "torch"):
            buf = np.full(want.shape, 55.0)
            ckw["out"] = buf
        ctx = o.shared_intermediates() if c["share"] else contextlib.nullcontext()
        with ctx:
            got = e(*var, **ckw)
        if b == "dask":
            got = np.asarray(got)
        if buf is not None:
            need(got is buf, "expression did not return `out`")
        need(equal(got, want), f"expression {','.join(terms)}->{out} constants {sorted(consts)} backend {b} (history {[x['backend'] for x in case['calls']]}) differs from the one-shot contraction")
    for i, a in consts.items():
        need(np.array_equal(a, saved[i]), "a constant operand was modified")
    s = str(e) + repr(e)
    need("ContractExpression" in s, "repr")
    return len(case["calls"]) > 1 or bool(consts)


# ------------------------------------------------------------------------ C15


def gen_C15(rng, tier):
    c = gen_C01(rng, tier)
    c["what"] = rng.choice(["contract", "contract", "path", "paths-fn", "expression", "interleaved", "shared", "single"])
    if c["what"] == "single":
        c["terms"] = c["terms"][:1]
        used = set(c["terms"][0])
        c["out"] = "".join(x for x in c["out"] if x in used)
        c["sizes"] = {k: v for k, v in c["sizes"].items() if k in used}
        c["opt"] = ["lit", rng.choice([True, False])]
    return c


def deep(x):
    if isinstance(x, np.ndarray):
        return ("a", x.shape, x.dtype.str, x.tobytes(), x.strides)
    if isinstance(x, dict):
        return ("d", [(deep(k), deep(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [deep(v) for v in x])
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, sorted(map(repr, x)))
    return x


def check_C15(case):
    o = oe()
    arrays = make_arrays(case)
    terms, out, sizes = case["terms"], case["out"], dict(case["sizes"])
    eq = ",".join(terms) + "->" + out
    opt = strategy(case["opt"])
    lim = case["lim"]
    what = case["what"]
    shapes = [list(a.shape) for a in arrays]
    inter = []
    for a, t in zip(arrays, terms):
        inter += [a, [ord(c) for c in t]]
    inter.append([ord(c) for c in out])
    sets = [set(t) for t in terms]
    fsets = [frozenset(t) for t in terms]
    outset = set(out)
    path = opt if isinstance(opt, list) else None
    given = (arrays, shapes, inter, sets, fsets, outset, sizes, path)
    consts = list(range(len(arrays)))[:-1]
    before = deep(given)
    try:
        if what == "contract" or what == "single":
            r = o.contract(eq, *arrays, optimize=opt, use_blas=case["blas"], memory_limit=lim)
            if isinstance(r, np.ndarray) and r.flags.writeable and not any(r is a or np.shares_memory(r, a) for a in arrays):
                r[...] = 0
        elif what == "interleaved":
            o.contract(*inter, optimize=opt, use_blas=case["blas"], memory_limit=lim)
        elif what == "path":
            o.contract_path(eq, *[tuple(s) for s in shapes], shapes=True, optimize=opt, memory_limit=lim)
            o.contract_path(eq, *arrays, optimize=opt, memory_limit=lim)
        elif what == "paths-fn":
            if len(terms) > 1:
                f = opt if not isinstance(opt, (str, list, bool, type(None))) else o.paths.get_path_fn(opt if isinstance(opt, str) else "greedy")
                f(fsets, frozenset(out), sizes, limit_value(lim, terms, out, sizes))
                f2 = o.paths.get_path_fn("greedy")
                f2(sets, outset, sizes)
                o.paths.optimal(sets[:5], outset & set().union(*sets[:5]), sizes)
                pth = [tuple(p) for p in rand_path(random.Random(case["aseed"]), len(terms))]
                pl = [list(p) for p in pth]
                b4 = deep(pl)
                ssa = o.paths.linear_to_ssa(pl)
                s4 = deep(ssa)
                o.paths.ssa_to_linear(ssa)
                need(deep(pl) == b4 and deep(ssa) == s4, "path conversion modified its argument")
        elif what == "expression":
            if case["opt"][0] == "lit":
                opt = True
            args = [a if i in consts else a.shape for i, a in enumerate(arrays)]
            e = o.contract_expression(eq, *args, constants=consts, optimize=opt, memory_limit=lim)
            e(arrays[-1])
            e(arrays[-1])
        elif what == "shared":
            with o.shared_intermediates():
                o.contract(eq, *arrays, optimize=opt, use_blas=case["blas"], memory_limit=lim)
                o.contract(eq, *arrays, optimize=opt, use_blas=case["blas"], memory_limit=lim)
    except RuntimeError as e:
        if not refused(e, case):
            raise
    except ValueError:
        if what == "paths-fn" and case["opt"][0] in ("rg", "bb"):
            pass
        else:
            raise
    after = deep(given)
    need(before == after, f"{what} {eq!r} {case['opt']} modified an argument: {[b for a, b in zip(before[1], after[1]) if a != b]!r}"[:400])
    return True


# ------------------------------------------------------------------------ C19


def gen_C19(rng, tier):
    k = rng.choice(["object", "object", "tensordot"])
    if k == "object":
        terms, out, sizes = gen_net(rng, 1, 4, dmax=3, maxspace=150, rep=0.1, unit=0.1, maxrank=3)
        return dict(kind=k, terms=terms, out=out, sizes=sizes, aseed=rng.randint(0, 10**6), elem=rng.choice(["frac", "big", "poly"]),
                    bcast=rng.random() < 0.25, direct=rng.random() < 0.5, opt=rand_strategy(rng, len(terms), instances=False), lim=None)
    l = rng.randint(0, 4)
    r = rng.randint(0, 4)
    m = rng.randint(0, min(l, r))
    return dict(kind=k, l=l, r=r, ax=[rng.sample(range(l), m), rng.sample(range(r), m)], num=rng.random() < 0.2, aseed=rng.randint(0, 10**6),
                single=rng.random() < 0.3)


class Poly:
    """Exact polynomial elements: only + and * (commutative)."""

    __slots__ = ("c",)

    def __init__(self, c):
        self.c = {k: v for k, v in c.items() if v}

    def __add__(self, b):
        r = dict(self.c)
        for k, v in b.c.items():
            r[k] = r.get(k, 0) + v
        return Poly(r)

    def __mul__(self, b):
        r = {}
        for k, v in self.c.items():
            for q, w in b.c.items():
                m = tuple(sorted(k + q))
                r[m] = r.get(m, 0) + v * w
        return Poly(r)

    def __eq__(self, b):
        return isinstance(b, Poly) and self.c == b.c

    def __hash__(self):
        return hash(frozenset(self.c.items()))


def check_C19(case):
    o = oe()
    rng = random.Random(case["aseed"])
    if case["kind"] == "object":
        from fractions import Fraction

        shp = shapes_of(case["terms"], case["sizes"], rng, 0.2 if case["bcast"] else 0)
        ctr = itertools.count()

        def elem():
            if case["elem"] == "frac":
                return Fraction(rng.randint(-9, 9), rng.randint(1, 9))
            if case["elem"] == "big":
                return rng.randint(-10**25, 10**25)
            return Poly({("x%d" % next(ctr),): 1})

        arrays = []
        for s in shp:
            a = np.empty(s, dtype=object)
            for i in np.ndindex(*s):
                a[i] = elem()
            arrays.append(a)
        terms, out = case["terms"], case["out"]
        # scalar oracle over all index assignments
        sizes = {}
        for t, s in zip(terms, shp):
            for c, d in zip(t, s):
                if sizes.get(c, 1) == 1:
                    sizes[c] = d
        rest = [c for c in sizes if c not in out]
        want = {}
        for oc in itertools.product(*[range(sizes[c]) for c in out]):
            acc = None
            for rc in itertools.product(*[range(sizes[c]) for c in rest]):
                env = dict(zip(list(out) + rest, oc + rc))
                p = None
                for t, a in zip(terms, arrays):
                    e = a[tuple(env[c] if d != 1 else 0 for c, d in zip(t, a.shape))]
                    p = e if p is None else p * e
                acc = p if acc is None else acc + p
            want[oc] = acc
        eq = ",".join(terms) + "->" + out
        if case["direct"]:
            got = o.backends.object_arrays.object_einsum(eq, *arrays)
        else:
            got = o.contract(eq, *arrays, backend="object", optimize=strategy(case["opt"]))
        got = np.asarray(got, dtype=object)
        need(got.shape == tuple(sizes[c] for c in out), f"object {eq}: shape {got.shape}")
        for k, v in want.items():
            need(got[k] == v, f"object {eq} ({'direct' if case['direct'] else case['opt']}, shapes {shp}): element {k} is {got[k]}, must be {v}")
        return True
    import torch

    T = o.backends.dispatch.importlib.import_module("opt_einsum.backends.torch")
    l, r = case["l"], case["r"]
    ax = case["ax"]
    xs = [rng.randint(1, 3) for _ in range(l)]
    ys = [rng.randint(1, 3) for _ in range(r)]
    for a, b in zip(*ax):
        ys[b] = xs[a]
    axes = (tuple(ax[0]), tuple(ax[1]))
    if case["num"]:
        m = min(l, r)
        m = rng.randint(0, m)
        axes = m
        for k in range(m):
            ys[k] = xs[l - m + k]
    elif case["single"] and len(ax[0]) == 1:
        axes = (ax[0][0], ax[1][0])
    x, y = ints(rng, xs), ints(rng, ys)
    if not hasattr(T, "_TORCH_HAS_TENSORDOT"):
        return None
    T._get_torch_and_device()
    want = np.tensordot(x, y, axes=axes)
    old = T._TORCH_HAS_TENSORDOT
    for has in (old, False):
        T._TORCH_HAS_TENSORDOT = has
        try:
            if has and isinstance(axes, tuple) and isinstance(axes[0], int):
                continue
            got = T.tensordot(torch.from_numpy(x), torch.from_numpy(y), axes=axes).numpy()
        finally:
            T._TORCH_HAS_TENSORDOT = old
        need(equal(got, want), f"torch tensordot (native={bool(has)}) of shapes {xs},{ys} axes {axes} is wrong")
    return True


# ------------------------------------------------------------------------ C20


def gen_C20(rng, tier):
    c = gen_C01(rng, tier)
    c["dtype"] = "f"
    c["same"] = False
    c["buf"] = rng.choice(["c", "f", "view"])
    c["via"] = rng.choice(["contract", "expr", "shared", "contract", "expr", "shared", "expr-torch", "expr-const"])
    return c


def check_C20(case):
    o = oe()
    arrays = make_arrays(case)
    saved = [a.copy() for a in arrays]
    want = oracle_einsum(case["terms"], case["out"], arrays)
    eq = ",".join(case["terms"]) + "->" + case["out"]
    frame = None
    if case["buf"] == "view" and want.ndim:
        frame = np.full(tuple(d + 2 for d in want.shape), 99.0)
        out = frame[tuple(slice(1, d + 1) for d in want.shape)]
    elif case["buf"] == "f":
        out = np.asfortranarray(np.full(want.shape, 99.0)) if want.ndim else np.full((), 99.0)
    else:
        out = np.full(want.shape, 99.0)
    opt = strategy(case["opt"])
    import contextlib

    try:
        with (o.shared_intermediates() if case["via"] == "shared" else contextlib.nullcontext()):
            if case["via"].startswith("expr"):
                if case["opt"][0] == "lit":
                    opt = True
                nc = len(arrays) // 2 if case["via"] == "expr-const" else 0
                e = o.contract_expression(eq, *arrays[:nc], *[a.shape for a in arrays[nc:]], constants=list(range(nc)), optimize=opt, memory_limit=case["lim"], use_blas=case["blas"])
                if nc:
                    e(*arrays[nc:])
                if case["via"] == "expr-torch":
                    if case["bcast"] or any(x in t for t in case["terms"] for x in t if t.count(x) > 1) or len(set("".join(case["terms"]))) > 20:
                        return None
                    got = e(*[np.array(a, order="C") for a in arrays], out=out, backend="torch")
                else:
                    got = e(*arrays[nc:], out=out)
            else:
                if case["via"] == "shared":
                    o.contract(eq, *arrays, optimize=opt, memory_limit=case["lim"], use_blas=case["blas"])
                got = o.contract(eq, *arrays, out=out, optimize=opt, memory_limit=case["lim"], use_blas=case["blas"])
    except RuntimeError as e:
        if refused(e, case):
            return "refused"
        raise
    need(got is out, f"{eq} with out= ({case['via']}) returned another array")
    need(equal(out, want), f"{eq} ({case['via']}, {case['opt']}, use_blas={case['blas']}): `out` does not hold the Einstein sum")
    for a, b in zip(arrays, saved):
        need(np.array_equal(a, b), f"{eq} with out= modified an operand")
    if frame is not None:
        frame[tuple(slice(1, d + 1) for d in want.shape)] = 99.0
        need(bool((frame == 99.0).all()), "written outside `out`")
    return True
