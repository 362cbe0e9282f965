"""Concrete cases and oracles: planning side (C02..C08, C16..C18)."""
import functools
import itertools
import math
import random

from .common import (Fail, LET, gen_net, jsonable, np, oe, pair_flops, prod, rand_path, shapes_of, sim_path)

UNI = "äßçðñøþĀĂĆ"


def need(cond, msg):
    if not cond:
        raise Fail(msg)


# ----------------------------------------------------------------- optimizers

NAMES = ["auto", "auto-hq", "optimal", "branch-all", "branch-2", "branch-1", "greedy", "eager", "opportunistic", "dp",
         "dynamic-programming", "random-greedy"]


def rand_strategy(rng, n, paths=True, instances=True, slow=False):
    """A JSON-able description of an `optimize` argument."""
    x = rng.random()
    if paths and x < 0.25:
        return [rng.choice(["path", "path", "pathl"]), rand_path(rng, n)]
    if instances and x < 0.4:
        k = rng.choice(["bb", "dp", "rg", "rg"] if n <= 6 else ["bb", "rg"])
        if k == "bb":
            return ["bb", {"nbranch": rng.choice([None, 1, 2, 3] if n <= 5 else [1, 2] if n <= 8 else [1]), "minimize": rng.choice(["flops", "size"]),
                           "cutoff_flops_factor": rng.choice([1, 2, 4, 100])}]
        if k == "dp":
            return ["dp", {"minimize": rng.choice(["flops", "size", "write", "combo", "limit", "combo-3", "limit-2"]),
                           "search_outer": rng.random() < 0.3, "cost_cap": rng.choice([True, False, 10])}]
        return ["rg", {"max_repeats": rng.choice([1, 3, 6]), "minimize": rng.choice(["flops", "size"]),
                       "temperature": rng.choice([0, 0.5, 1.0, 10.0]), "rel_temperature": rng.random() < 0.5,
                       "nbranch": rng.choice([1, 2, 8]), "cost_fn": rng.choice(["memory-removed", "memory-removed-jitter"])}]
    names = NAMES + (["random-greedy-128"] if slow else [])
    if n > 6:
        names = [x for x in names if x not in ("optimal", "branch-all")]
    if n > 8:
        names = [x for x in names if x not in ("dp", "dynamic-programming", "branch-2", "auto-hq")]
    return ["name", rng.choice(names)]


def strategy(s):
    o = oe()
    if s[0] == "name":
        return s[1]
    if s[0] == "lit":
        return s[1]
    if s[0] == "path":
        return [tuple(x) for x in s[1]]
    if s[0] == "pathl":
        return [list(x) for x in s[1]]
    if s[0] == "bb":
        return o.BranchBound(**s[1])
    if s[0] == "dp":
        return o.DynamicProgramming(**s[1])
    if s[0] == "rg":
        return o.RandomGreedy(**s[1])
    raise AssertionError(s)


def rand_limit(rng, terms, out, sizes, p_none=0.5):
    x = rng.random()
    if x < p_none:
        return None
    if x < p_none + 0.05:
        return -1
    if x < p_none + 0.2:
        return "max_input"
    big = prod(max(d, 1) for d in sizes.values())
    return rng.randint(1, max(1, rng.choice([4, 20, 60, big])))


def limit_value(lim, terms, out, sizes):
    if lim is None or lim == -1:
        return None
    if lim == "max_input":
        return max(prod(sizes[c] for c in t) for t in list(terms) + [out])
    return lim


def no_limit_path_ok(case, terms, out, sizes, lim, strat):
    """dp may refuse when nothing fits in the limit."""
    return strat[0] == "dp" or (strat[0] == "name" and strat[1] in ("dp", "dynamic-programming", "auto-hq"))


def call_path(case):
    o = oe()
    terms, out, sizes = case["terms"], case["out"], case["sizes"]
    shp = [tuple(sizes[c] for c in t) for t in terms]
    eq = ",".join(terms) + "->" + out
    try:
        return o.contract_path(eq, *shp, shapes=True, optimize=strategy(case["opt"]), memory_limit=case["lim"],
                               use_blas=case.get("blas", True))
    except RuntimeError as e:
        if "memory_limit" in str(e) and case["lim"] not in (None, -1) and no_limit_path_ok(case, terms, out, sizes, 0, case["opt"]):
            return None
        raise


# ------------------------------------------------------------------------ C02


def gen_C02(rng, tier):
    terms, out, sizes = gen_net(rng, 1, rng.choice([3, 5, 8, 24]), maxspace=10**9, zero=0.02,
                                letters=LET if rng.random() < 0.8 else UNI)
    return dict(terms=terms, out=out, sizes=sizes, opt=rand_strategy(rng, len(terms)), lim=rand_limit(rng, terms, out, sizes, 0.7),
                blas=rng.random() < 0.7)


def check_C02(case):
    r = call_path(case)
    if r is None:
        return "refused"
    path, info = r
    terms = list(case["terms"])
    out = case["out"]
    sizes = case["sizes"]
    shapes = [tuple(sizes[c] for c in t) for t in terms]
    steps, rem = sim_path(terms, out, [tuple(p) for p in path], sizes)
    cl = info.contraction_list
    need(len(cl) == len(steps), f"{len(cl)} recorded steps for a path of {len(steps)}")
    cur = list(terms)
    for k, ((pos, chosen, res, removed, _, _, _), con) in enumerate(zip(steps, cl)):
        inds, rm, estr, remaining, blas = con
        need(sorted(inds) == sorted(pos), f"step {k}: recorded positions {inds}, path says {pos}")
        lhs, rhs = estr.split("->")
        need(lhs.split(",") == [cur[i] for i in inds], f"step {k}: {estr} does not name the terms at {inds} of {cur}")
        need(set(rm) == set(removed), f"step {k} of {cur} at {pos}: removes {sorted(rm)}, must remove {sorted(removed)}")
        need(len(set(rhs)) == len(rhs) and set(rhs) == set(res), f"step {k}: result {rhs!r}, must be indices {sorted(res)}")
        need(case["blas"] or not blas, f"step {k}: BLAS flag {blas} although use_blas=False")
        if blas:
            need(blas_valid([cur[i] for i in inds], rhs, None), f"step {k}: {estr} flagged {blas}")
        cur = [t for i, t in enumerate(cur) if i not in pos] + [rhs]
        if remaining is not None:
            need(list(remaining) == cur, f"step {k}: remaining {remaining}, must be {cur}")
        if k == len(steps) - 1:
            need(rhs == out, f"last step gives {rhs!r}, requested output {out!r}")
    need(len(cur) == 1, f"plan leaves {len(cur)} terms")
    need(info.eq == ",".join(terms) + "->" + out, f"eq {info.eq}")
    return len(terms) > 2


# ------------------------------------------------------------------------ C03


def blas_valid(inputs, result, shapes):
    """The pair can be evaluated by one tensordot and a transposition."""
    if len(inputs) != 2:
        return False
    l, r = inputs
    if len(set(l)) != len(l) or len(set(r)) != len(r):
        return False
    for c in set(l) | set(r):
        both = c in l and c in r
        if both == (c in result):
            return False
        if both and shapes is not None and shapes[0][l.index(c)] != shapes[1][r.index(c)]:
            return False
    return True


def gen_C03(rng, tier):
    pool = rng.sample(LET, rng.randint(1, 5))

    def term():
        r = rng.randint(0, len(pool))
        t = rng.sample(pool, r)
        if t and rng.random() < 0.15:
            t.insert(rng.randint(0, len(t)), rng.choice(t))
        return "".join(t)

    l, r = term(), term()
    if rng.random() < 0.4:
        # aligned shapes of all the GEMM kinds
        con = rng.sample(pool, rng.randint(0, len(pool)))
        rest = [c for c in pool if c not in con]
        k = rng.randint(0, len(rest))
        a, b = rest[:k], rest[k:]
        con2 = list(con)
        if rng.random() < 0.3:
            rng.shuffle(con2)
        l = "".join(a + con) if rng.random() < 0.5 else "".join(con + a)
        r = "".join(b + con2) if rng.random() < 0.5 else "".join(con2 + b)
    used = sorted(set(l + r))
    x = rng.random()
    if x < 0.5:
        res = [c for c in used if (c in l) != (c in r)]
        if rng.random() < 0.3 and used:
            c = rng.choice(used)
            res = [d for d in res if d != c] if c in res else res + [c]
    else:
        res = [c for c in used if rng.random() < 0.5]
    rng.shuffle(res)
    sizes = {c: rng.randint(1, 4) for c in used}
    sh = shapes_of([l, r], sizes, rng, 0.15 if rng.random() < 0.3 else 0)
    return dict(terms=[l, r], out="".join(res), shapes=[list(s) for s in sh], aseed=rng.randint(0, 10**6))


def _noeinsum_backend():
    import sys
    import types

    name = "vf_backend_without_einsum"
    if name not in sys.modules:
        m = types.ModuleType(name)
        m.tensordot = np.tensordot
        m.transpose = np.transpose
        sys.modules[name] = m
    return name


def check_C03(case):
    from .common import equal, ints, oracle_einsum

    o = oe()
    terms, out = case["terms"], case["out"]
    shapes = [tuple(s) for s in case["shapes"]]
    removed = frozenset("".join(terms)) - frozenset(out)
    flag = o.blas.can_blas(list(terms), out, removed, shapes)
    flag0 = o.blas.can_blas(list(terms), out, removed)
    if flag:
        need(blas_valid(terms, out, shapes), f"can_blas({terms}, {out!r}, {sorted(removed)}, {shapes}) = {flag!r}, but one tensordot cannot do it")
    if flag0:
        need(blas_valid(terms, out, None), f"can_blas({terms}, {out!r}, {sorted(removed)}) = {flag0!r}, but one tensordot cannot do it")
    rng = random.Random(case["aseed"])
    arrays = [ints(rng, s) for s in shapes]
    want = oracle_einsum(terms, out, arrays)
    eq = ",".join(terms) + "->" + out
    for kw in (dict(), dict(use_blas=False)):
        got = o.contract(eq, *arrays, **kw)
        need(equal(got, want), f"contract({eq!r}, shapes {shapes}, {kw}) differs from the Einstein sum")
    _, info = o.contract_path(eq, *arrays)
    if info.contraction_list[0][4]:
        got = o.contract(eq, *arrays, backend=_noeinsum_backend())
        need(equal(got, want), f"contract({eq!r}, shapes {shapes}) through tensordot (flag {info.contraction_list[0][4]}) differs from the Einstein sum")
    return bool(flag)


# ------------------------------------------------------------------------ C04


def gen_C04(rng, tier):
    big = rng.random() < 0.25
    terms, out, sizes = gen_net(rng, 2, 30 if big else 8, maxspace=10**12, zero=0.03, rep=0,
                                nidx=rng.randint(1, 30) if big else None, letters=LET + "ABCDEFGHIJKLMNOPQRSTUVWXYZ",
                                dmax=rng.choice([2, 4, 9]))
    if rng.random() < 0.2:
        terms = [rng.choice(terms) for _ in terms]
        used = set("".join(terms))
        out = "".join(c for c in out if c in used)
        sizes = {c: d for c, d in sizes.items() if c in used}
    return dict(terms=terms, out=out, sizes=sizes, opt=rand_strategy(rng, len(terms), paths=False, slow=rng.random() < 0.1),
                lim=rand_limit(rng, terms, out, sizes, 0.6), via=rng.choice(["path", "fn"]))


def check_C04(case):
    o = oe()
    terms, out, sizes = case["terms"], case["out"], case["sizes"]
    lim = limit_value(case["lim"], terms, out, sizes)
    if case["via"] == "path":
        r = call_path(case)
        if r is None:
            return "refused"
        path = r[0]
    else:
        s = strategy(case["opt"])
        fn = o.paths.get_path_fn(s) if isinstance(s, str) else s
        try:
            path = fn([frozenset(t) for t in terms], frozenset(out), dict(sizes), lim)
        except RuntimeError as e:
            if "memory_limit" in str(e) and lim is not None and no_limit_path_ok(case, terms, out, sizes, lim, case["opt"]):
                return "refused"
            raise
    steps, rem = sim_path(terms, out, [tuple(p) for p in path], sizes)
    need(len(rem) == 1, f"path {path} leaves {len(rem)} terms")
    need(rem[0] == frozenset(out), f"path {path} ends with indices {sorted(rem[0])}")
    # equal searches give equal paths
    if case["opt"][0] != "rg" and case["via"] == "fn":
        s = strategy(case["opt"])
        fn = o.paths.get_path_fn(s) if isinstance(s, str) else s
        path2 = fn([frozenset(t) for t in terms], frozenset(out), dict(sizes), lim)
        need([tuple(x) for x in path] == [tuple(x) for x in path2], f"two equal searches gave {path} and {path2}")
    return len(terms) > 2


# ------------------------------------------------------------------------ C05


def components(terms, out):
    """Connected components by summed indices (after dropping indices found on one term only)."""
    n = len(terms)
    lab = list(range(n))

    def find(i):
        while lab[i] != i:
            i = lab[i]
        return i

    for i in range(n):
        for j in range(i):
            if (set(terms[i]) & set(terms[j])) - set(out):
                lab[find(i)] = find(j)
    return [find(i) for i in range(n)]


def gen_C05(rng, tier):
    x = rng.random()
    terms, out, sizes = gen_net(rng, 3, 6 if x < 0.7 else 9, maxspace=10**9, rep=0, unit=0.05)
    opts = [["name", s] for s in ("optimal", "branch-all", "branch-2", "branch-1", "greedy", "greedy", "auto", "dp", "dp", "dp")]
    if len(terms) > 6:
        opts = [s for s in opts if s[1] not in ("optimal", "branch-all", "auto")] + [["name", "auto"]]
    opt = rng.choice(opts)
    if rng.random() < 0.3:
        opt = ["bb", {"nbranch": rng.choice([None, 1, 2]) if len(terms) <= 6 else 1, "minimize": rng.choice(["flops", "size"]),
                      "cutoff_flops_factor": rng.choice([1, 4, 100])}]
    elif rng.random() < 0.2:
        opt = ["dp", {"minimize": rng.choice(["flops", "size", "write", "combo", "limit"]), "cost_cap": rng.choice([True, False]),
                      "search_outer": rng.random() < 0.2}]
    insz = [prod(sizes[c] for c in t) for t in terms]
    lim = rng.choice(["max_input", rng.choice(insz) or 1, rng.randint(1, 40), rng.randint(1, 200), sum(insz) + rng.randint(0, 5),
                      max(1, prod(sizes[c] for c in rng.sample(sorted(sizes), rng.randint(0, len(sizes)))))])
    return dict(terms=terms, out=out, sizes=sizes, opt=opt, lim=lim)


def is_dp(opt, n):
    return opt[0] == "dp" or opt[1] in ("dp", "dynamic-programming")


def check_C05(case):
    terms, out, sizes = case["terms"], case["out"], case["sizes"]
    lim = limit_value(case["lim"], terms, out, sizes)
    r = call_path(case)
    n = len(terms)
    if r is None:
        if n <= 6 and not (case["opt"][0] == "dp" and case["opt"][1].get("search_outer")):
            best = dp_best(terms, out, sizes, "flops", lim)
            need(best is None, f"dp refused limit {lim}, but an outer-product-free order within it exists")
        return "refused"
    path = [tuple(p) for p in r[0]]
    steps, rem = sim_path(terms, out, path, sizes)
    dp = is_dp(case["opt"], n)
    outer = dp and case["opt"][0] == "dp" and case["opt"][1].get("search_outer")
    comp = [frozenset([c]) for c in components(terms, out)]
    hit = False
    for k, (pos, chosen, res, removed, left, flops, size) in enumerate(steps):
        joined = frozenset().union(*[comp[p] for p in pos])
        comp = [c for i, c in enumerate(comp) if i not in pos] + [joined]
        last = k == len(steps) - 1
        if last or len(pos) == 1:
            continue
        if dp and len(joined) > 1 and not outer:
            continue  # forming the outer product of finished components
        if outer and not any(chosen):
            continue
        hit = True
        need(size <= lim, f"step {k} {pos} of {path} creates an intermediate of {size} elements, limit {lim}")
    return hit


# ------------------------------------------------------------------------ C06


def optimal_best(terms, out, sizes, lim):
    out = frozenset(out)
    best = [math.inf]

    def over(rem):
        allidx = frozenset().union(*rem)
        f = prod(sizes[c] for c in allidx) * max(1, len(rem) - 1 + (1 if allidx - out else 0))
        return f if len(rem) > 1 else prod(sizes[c] for c in allidx) * (1 + (1 if allidx - out else 0))

    def rec(rem, cost):
        if len(rem) == 1:
            best[0] = min(best[0], cost)
            return
        for i, j in itertools.combinations(range(len(rem)), 2):
            rest = [s for k, s in enumerate(rem) if k not in (i, j)]
            keep = out.union(*rest)
            either = rem[i] | rem[j]
            k12 = either & keep
            if lim is not None and prod(sizes[c] for c in k12) > lim:
                best[0] = min(best[0], cost + over(rem))
                continue
            rec(rest + [k12], cost + pair_flops(rem[i], rem[j], keep, sizes))

    rec([frozenset(t) for t in terms], 0)
    return best[0]


def model_cost(terms, out, path, sizes):
    """Cost of a path in the exhaustive search's own flop model."""
    out = frozenset(out)
    rem = [frozenset(t) for t in terms]
    tot = 0
    for pos in path:
        rest = [s for k, s in enumerate(rem) if k not in pos]
        ch = [rem[p] for p in pos]
        keep = out.union(*rest)
        either = frozenset().union(*ch)
        if len(pos) == 2:
            f2 = pair_flops(ch[0], ch[1], keep, sizes)
            tot += f2
        else:
            tot += prod(sizes[c] for c in either) * (max(1, len(pos) - 1) + (1 if either - out else 0))
        rem = rest + [either & keep]
    return tot


def gen_C06(rng, tier):
    terms, out, sizes = gen_net(rng, 3, 5 if (tier == "quick" or rng.random() < 0.7) else 6, maxspace=10**9, rep=0, unit=0.08,
                                scalar=0.04, dmax=rng.choice([3, 6, 20]))
    lim = None if rng.random() < 0.7 else rng.choice([rng.randint(1, 30), rng.randint(10, 300), "max_input"])
    return dict(terms=terms, out=out, sizes=sizes, opt=["name", "optimal"], lim=lim)


def check_C06(case):
    terms, out, sizes = case["terms"], case["out"], case["sizes"]
    lim = limit_value(case["lim"], terms, out, sizes)
    path = [tuple(p) for p in call_path(case)[0]]
    steps, rem = sim_path(terms, out, path, sizes)
    got = model_cost(terms, out, path, sizes)
    best = optimal_best(terms, out, sizes, lim)
    if lim is None:
        need(all(len(p) == 2 for p in path), f"optimal gave a non-pairwise path {path} without a memory limit")
        need(got == best, f"optimal path {path} costs {got}, best pairwise order costs {best}")
    else:
        # a terminal all-terms contraction of two terms is charged as such by the search
        need(got <= best, f"optimal path {path} costs {got}, best order within limit {lim} costs {best}")
    return best > 0


# ------------------------------------------------------------------------ C17


def dp_best(terms, out, sizes, minimize, lim, every=False):
    """Cheapest outer-product-free pairwise order of every connected component (recursion over splits)."""
    out = frozenset(out)
    cnt = {}
    for t in list(terms) + ["".join(out)]:
        for c in set(t):
            cnt[c] = cnt.get(c, 0) + 1
    ts = [frozenset(c for c in t if cnt[c] > 1) for t in terms]
    comp = components(["".join(sorted(t)) for t in ts], out)
    total = {}
    for g in sorted(set(comp)):
        idx = [i for i, c in enumerate(comp) if c == g]
        if len(idx) == 1:
            total[g] = 0
            continue
        full = frozenset(idx)

        def legs(s):
            rest = full - s
            u = frozenset().union(*[ts[i] for i in s])
            if len(s) == 1:
                return u
            r = frozenset().union(*[ts[i] for i in rest]) if rest else frozenset()
            return frozenset(c for c in u if c in out or c in r)

        @functools.lru_cache(None)
        def best(s):
            if len(s) == 1:
                return 0
            lst = sorted(s)
            mem = prod(sizes[c] for c in legs(s))
            if lim is not None and mem > lim:
                return None
            b = None
            first = lst[0]
            others = lst[1:]
            for k in range(0, len(others)):
                for sub in itertools.combinations(others, k):
                    s1 = frozenset((first,) + sub)
                    s2 = s - s1
                    if not s2:
                        continue
                    l1, l2 = legs(s1), legs(s2)
                    if not ((l1 & l2) - out):
                        continue
                    c1, c2 = best(s1), best(s2)
                    if c1 is None or c2 is None:
                        continue
                    f = prod(sizes[c] for c in l1 | l2)
                    c = {"flops": c1 + c2 + f, "size": max(c1, c2, mem), "write": c1 + c2 + mem,
                         "combo": c1 + c2 + f + 64 * mem, "limit": c1 + c2 + max(f, 64 * mem)}[minimize]
                    if b is None or c < b:
                        b = c
            return b

        total[g] = best(full)
        if total[g] is None:
            return None
    return total if every else (max if minimize == "size" else sum)(total.values())


def gen_C17(rng, tier):
    terms, out, sizes = gen_net(rng, 3, 6 if tier == "quick" else 7, maxspace=10**9, rep=0, unit=0.08, scalar=0.04, dmax=rng.choice([3, 6, 12]),
                                maxrank=3, zero=0.01)
    mini = rng.choice(["flops", "flops", "size", "write", "combo", "limit"])
    lim = None if rng.random() < 0.7 else rng.randint(1, 100)
    return dict(terms=terms, out=out, sizes=sizes, opt=["dp", {"minimize": mini, "cost_cap": rng.choice([True, True, False, 5])}], lim=lim)


def check_C17(case):
    terms, out, sizes = case["terms"], case["out"], case["sizes"]
    lim = limit_value(case["lim"], terms, out, sizes)
    mini = case["opt"][1]["minimize"]
    best = dp_best(terms, out, sizes, mini, lim)
    r = call_path(case)
    if r is None:
        need(best is None, f"dp refused limit {lim}, best order costs {best}")
        return "refused"
    path = [tuple(p) for p in r[0]]
    need(best is not None, f"dp found {path}, but no outer-product-free order is within limit {lim}")
    # cost of the path found, joins of components not counted
    steps, rem = sim_path(terms, out, path, sizes)
    cnt = {}
    for t in list(terms) + [out]:
        for c in set(t):
            cnt[c] = cnt.get(c, 0) + 1
    comp = [frozenset([c]) for c in components(["".join(c for c in t if cnt[c] > 1) for t in terms], out)]
    left = set()
    got = 0
    for k, (pos, chosen, res, removed, _, flops, size) in enumerate(steps):
        joined = frozenset().union(*[comp[p] for p in pos])
        comp = [c for i, c in enumerate(comp) if i not in pos] + [joined]
        if len(pos) == 1 or len(joined) > 1:
            continue
        need(len(pos) == 2, f"dp step {pos} of {path} is not pairwise")
        need((chosen[0] & chosen[1]) - frozenset(out), f"dp step {k} {pos} of {path} is an outer product within a component")
        f = prod(sizes[c] for c in chosen[0] | chosen[1])
        if mini == "size":
            got = max(got, size)
        else:
            got += {"flops": f, "write": size, "combo": f + 64 * size, "limit": max(f, 64 * size)}[mini]
    need(got == best, f"dp ({mini}, limit {lim}) path {path} costs {got}, best outer-product-free order costs {best}")
    return len(terms) > 2


# ------------------------------------------------------------------------ C07


def gen_C07(rng, tier):
    c = gen_C02(rng, tier)
    c["bcast"] = rng.random() < 0.3
    c["aseed"] = rng.randint(0, 10**6)
    return c


def check_C07(case):
    o = oe()
    terms, out, sizes = case["terms"], case["out"], case["sizes"]
    rng = random.Random(case["aseed"])
    shp = shapes_of(terms, sizes, rng, 0.2 if case["bcast"] else 0)
    eq = ",".join(terms) + "->" + out
    try:
        path, info = o.contract_path(eq, *shp, shapes=True, optimize=strategy(case["opt"]), memory_limit=case["lim"])
    except RuntimeError as e:
        if "memory_limit" in str(e) and case["lim"] not in (None, -1):
            return "refused"
        raise
    steps, rem = sim_path(terms, out, [tuple(p) for p in path], sizes)
    need({c: int(d) for c, d in info.size_dict.items()} == {c: sizes[c] for c in set("".join(terms))},
         f"index sizes {info.size_dict}, must be {sizes}")
    fl = [s[5] for s in steps]
    sz = [s[6] for s in steps]
    allidx = set("".join(terms))
    inner = sum(len(set(t)) for t in terms) > len(allidx)
    naive = prod(sizes[c] for c in allidx) * (max(1, len(terms) - 1) + (1 if inner else 0))
    need(int(info.opt_cost) == sum(fl), f"opt_cost {info.opt_cost}, steps cost {fl}")
    need(int(info.naive_cost) == naive, f"naive_cost {info.naive_cost}, must be {naive}")
    need([int(x) for x in info.size_list] == sz, f"size_list {info.size_list}, must be {sz}")
    need(int(info.largest_intermediate) == max(sz, default=1), f"largest_intermediate {info.largest_intermediate}, sizes {sz}")
    sc = [len(frozenset().union(*s[1])) for s in steps]
    need(list(info.scale_list) == sc, f"scale_list {info.scale_list}, must be {sc}")
    need(abs(float(info.speedup) - float(naive) / max(sum(fl), 1)) <= 1e-9 * max(1.0, float(info.speedup)), f"speedup {info.speedup}")
    need([tuple(s) for s in info.shapes] == [tuple(sizes[c] for c in t) for t in terms], f"shapes {info.shapes}")
    need([tuple(p) for p in info.path] == [tuple(p) for p in path], "info.path differs from the returned path")
    text = str(info)
    need(",".join(terms) + "->" + out in text and f"{max(sc, default=0)}" in text, "printed summary lacks the expression")
    for k, con in enumerate(info.contraction_list):
        need(con[2] in text, f"printed summary lacks step {con[2]}")
    # the helpers themselves
    for t in terms:
        need(o.helpers.compute_size_by_dict(t, sizes) == prod(sizes[c] for c in t), f"compute_size_by_dict({t!r})")
    for nt in (1, 2, 3):
        for inn in (False, True):
            w = prod(sizes[c] for c in out) * (max(1, nt - 1) + inn)
            need(o.helpers.flop_count(out, inn, nt, sizes) == w, f"flop_count({out!r}, {inn}, {nt})")
    # cost of an ssa path in the pairwise model
    f = getattr(o.path_random, "ssa_path_compute_cost", None)
    if f is not None and len(terms) > 1 and all(len(p) == 2 for p in path):
        ssa = to_ssa(len(terms), [tuple(p) for p in path])
        cost, size = f(ssa, [frozenset(t) for t in terms], frozenset(out), sizes)
        need(cost == model_cost(terms, out, [tuple(p) for p in path], sizes) and size == max(sz),
             f"ssa_path_compute_cost {cost, size}")
    return len(terms) > 2


# ------------------------------------------------------------------------ C08


def to_ssa(n, path):
    cur = list(range(n))
    nxt = n
    res = []
    for p in path:
        res.append(tuple(cur[i] for i in p))
        cur = [x for i, x in enumerate(cur) if i not in p] + [nxt]
        nxt += 1
    return res


def gen_C08(rng, tier):
    n = rng.randint(1, rng.choice([4, 8, 30]))
    p = rand_path(rng, n, 5)
    if rng.random() < 0.3 and n > 1:
        # incomplete sequences of complete steps are not paths; keep complete
        pass
    return dict(n=n, path=p)


def check_C08(case):
    o = oe()
    n, path = case["n"], [tuple(p) for p in case["path"]]
    ssa = to_ssa(n, path)
    got = [tuple(x) for x in o.paths.linear_to_ssa(path)]
    need([sorted(x) for x in got] == [sorted(x) for x in ssa], f"linear_to_ssa({path}) = {got}, must be {ssa}")
    back = [tuple(x) for x in o.paths.ssa_to_linear(ssa)]
    need([sorted(x) for x in back] == [sorted(x) for x in path], f"ssa_to_linear({ssa}) = {back}, must be {path}")
    back2 = [tuple(x) for x in o.paths.ssa_to_linear(tuple(tuple(x) for x in got))]
    need([sorted(x) for x in back2] == [sorted(x) for x in path], f"ssa_to_linear(linear_to_ssa({path})) = {back2}")
    need(all(isinstance(i, int) for x in back + got for i in x), "non-integer positions")
    # contraction trees
    f = getattr(o.paths, "_tree_to_sequence", None)
    if f is not None and n > 1:
        ids = {i: i for i in range(n)}
        nxt = n
        for s in ssa:
            ids[nxt] = tuple(ids.pop(i) for i in s)
            nxt += 1
        tree = ids[nxt - 1]
        seq = [tuple(x) for x in f(tree)]
        need(tree_of(n, seq) == canon(tree), f"_tree_to_sequence({tree}) = {seq} contracts another tree")
    return n > 2


def canon(t):
    if isinstance(t, int):
        return t
    return ("t",) + tuple(sorted((canon(x) for x in t), key=repr))


def tree_of(n, seq):
    cur = list(range(n))
    for p in seq:
        if len(set(p)) != len(p) or any(i < 0 or i >= len(cur) for i in p):
            raise Fail(f"bad step {p} in {seq}")
        new = ("t",) + tuple(sorted((cur[i] for i in p), key=repr))
        cur = [x for i, x in enumerate(cur) if i not in p] + [new]
    return cur[0] if len(cur) == 1 else None


# ------------------------------------------------------------------------ C16


class LazyExecutor:
    """Runs the jobs at result time, in an order of its own."""

    def __init__(self, order):
        self.order = random.Random(order)
        self.jobs = []
        self.submitted = 0

    def submit(self, fn, *args):
        self.submitted += 1
        job = _Job(fn, args)
        self.jobs.append(job)
        if len(self.jobs) > 3:
            self.jobs.pop(self.order.randrange(len(self.jobs))).run()
        return job


class _Job:
    def __init__(self, fn, args):
        self.fn, self.args, self.done, self.cancelled = fn, args, False, False

    def run(self):
        if not self.done:
            self.value = self.fn(*self.args)
            self.done = True

    def result(self):
        self.run()
        return self.value

    def cancel(self):
        self.cancelled = True


def gen_C16(rng, tier):
    terms, out, sizes = gen_net(rng, 3, 9, maxspace=10**12, rep=0, dmax=rng.choice([3, 9]), nidx=rng.randint(4, 12))
    return dict(terms=terms, out=out, sizes=sizes, kw={
        "minimize": rng.choice(["flops", "size"]), "max_repeats": rng.choice([1, 2, 5, 12]),
        "temperature": rng.choice([0, 0.3, 1.0, 5.0]), "rel_temperature": rng.random() < 0.5,
        "nbranch": rng.choice([1, 2, 8]), "cost_fn": rng.choice(["memory-removed", "memory-removed-jitter"])},
        calls=rng.choice([1, 2, 3]), pre=rng.choice([1, 2, 5, 128]), order=rng.randint(0, 999))


def check_C16(case):
    o = oe()
    terms, out, sizes = case["terms"], case["out"], case["sizes"]
    ins = [frozenset(t) for t in terms]
    outs = frozenset(out)
    key = (lambda f, s: (f, s)) if case["kw"]["minimize"] == "flops" else (lambda f, s: (s, f))

    def measure(path):
        path = [tuple(p) for p in path]
        steps, rem = sim_path(terms, out, path, sizes)
        need(len(rem) == 1, f"incomplete path {path}")
        return model_cost(terms, out, path, sizes), max(s[6] for s in steps)

    runs = []
    for par in (None, "lazy", None):
        kw = dict(case["kw"])
        ex = None
        if par:
            ex = LazyExecutor(case["order"])
            kw.update(parallel=ex, pre_dispatch=case["pre"])
        opt = o.RandomGreedy(**kw)
        seen = []
        prev = None
        for c in range(case["calls"]):
            path = opt(list(ins), outs, dict(sizes))
            n = (c + 1) * case["kw"]["max_repeats"]
            need(len(opt.costs) == n and len(opt.sizes) == n, f"{len(opt.costs)} costs, {len(opt.sizes)} sizes after {n} repeats (pre_dispatch {kw.get('pre_dispatch')})")
            m = measure(path)
            best = min(key(f, s) for f, s in zip(opt.costs, opt.sizes))
            need(key(*m) == best, f"returned path measures {m}, best trial {best} of {list(zip(opt.costs, opt.sizes))}")
            need(key(opt.best["flops"], opt.best["size"]) == best, f"recorded best {opt.best}")
            need(prev is None or best <= prev, f"best got worse: {prev} -> {best}")
            need([tuple(p) for p in opt.path] == [tuple(p) for p in path], "path attribute differs from the returned path")
            prev = best
            seen.append([tuple(p) for p in path])
        runs.append((seen, list(opt.costs), list(opt.sizes)))
    need(runs[0] == runs[2], "two equal serial searches differ")
    need(runs[0] == runs[1], f"serial and parallel searches differ: {runs[0][1]} / {runs[1][1]}")
    if case["kw"]["cost_fn"] == "memory-removed":
        g = measure(o.paths.greedy(ins, outs, dict(sizes)))
        need(key(runs[0][1][0], runs[0][2][0]) == key(*g), f"first trial {runs[0][1][0], runs[0][2][0]} is not the greedy path {g}")
    # an instance is tied to its contraction
    other = dict(sizes)
    c0 = sorted(other)[0] if other else None
    if c0 is not None:
        other[c0] += 1
        opt = o.RandomGreedy(max_repeats=1)
        opt(list(ins), outs, dict(sizes))
        try:
            opt(list(ins), outs, other)
        except ValueError:
            pass
        else:
            raise Fail("an optimizer instance accepted a different contraction")
    return True


# ------------------------------------------------------------------------ C18


def gen_C18(rng, tier):
    ops = []
    for _ in range(rng.randint(1, 6)):
        nm = rng.choice(["Opt-A", "opt-a", "OPT-A", "mine", "Mine", "optimal", "OPTIMAL", "Greedy", "dp", "auto", "AUTO-HQ", "x1", "X1", "random-greedy", "Random-Greedy-128"])
        ops.append([rng.choice(["reg", "reg", "get"]), nm])
    n = rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 12, 14, 15, 16, 17, 20])
    return dict(ops=ops, n=n, seed=rng.randint(0, 10**6))


def check_C18(case):
    o = oe()
    reg = o.paths._PATH_OPTIONS if hasattr(o.paths, "_PATH_OPTIONS") else None
    model = {}
    builtin = {}
    for nm in NAMES + ["random-greedy-128"]:
        for form in (nm, nm.upper(), nm.capitalize()):
            f = o.paths.get_path_fn(form)
            need(builtin.setdefault(nm, f) is f, f"get_path_fn({form!r}) differs from get_path_fn({nm!r})")
    model.update(builtin)
    saved = dict(reg) if reg is not None else None
    try:
        for op, nm in case["ops"]:
            if op == "reg":
                def fn(i, o_, s, m=None):
                    return [tuple(range(len(i)))]

                try:
                    o.paths.register_path_fn(nm, fn)
                    ok = True
                except KeyError:
                    ok = False
                want = nm.lower() not in model
                need(ok == want, f"register_path_fn({nm!r}): accepted={ok}, already registered: {sorted(model)}")
                if ok:
                    model[nm.lower()] = fn
                    # only meaningful when the registry can be restored
            else:
                try:
                    f = o.paths.get_path_fn(nm)
                except KeyError:
                    f = None
                need(f is model.get(nm.lower()), f"get_path_fn({nm!r}) is not what was registered")
            for k, v in builtin.items():
                need(o.paths.get_path_fn(k) is v, f"built-in {k!r} was replaced")
    finally:
        if reg is not None:
            reg.clear()
            reg.update(saved)
        elif any(op == "reg" for op, _ in case["ops"]):
            pass
    # the automatic choices
    rng = random.Random(case["seed"])
    n = case["n"]
    terms, out, sizes = gen_net(rng, n, n, maxspace=10**15, rep=0, nidx=n + 2, letters=LET + "ABCDEFGH", dmax=5, maxrank=3)
    ins, outs = [frozenset(t) for t in terms], frozenset(out)
    want = "optimal" if n <= 4 else "branch-all" if n <= 6 else "branch-2" if n <= 8 else "branch-1" if n <= 14 else "greedy"
    lim = None
    a = [tuple(x) for x in o.paths.auto(ins, outs, sizes, lim)]
    b = [tuple(x) for x in builtin[want](ins, outs, sizes, lim)]
    need(a == b, f"auto for {n} terms gave {a}, {want} gives {b}")
    if n <= 9 or n > 16:
        want = "optimal" if n <= 5 else "dp" if n <= 16 else "random-greedy-128"
        a = [tuple(x) for x in o.paths.auto_hq(ins, outs, sizes, lim)]
        b = [tuple(x) for x in builtin[want](ins, outs, sizes, lim)]
        need(a == b, f"auto-hq for {n} terms gave {a}, {want} gives {b}")
    return True
