"""Shared machinery of the concrete side of the checks: it runs the real code of
opt_einsum (imported from $VERIF_REPO, default /repo) on generated cases and
compares it with independent, exact oracles.

Nothing here decides a property on its own: it searches for a concrete failing
input (the replay of a failed proof obligation) and is the bounded stand-in for
functions outside the verifier's reach.
"""
import itertools
import os
import random
import string
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")

import numpy as np  # noqa: E402

LET = string.ascii_lowercase


class Fail(Exception):
    """A property violation seen on the real code."""


def oe():
    import opt_einsum

    f = os.path.realpath(opt_einsum.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"opt_einsum imported from {f}, not from {REPO}")
    return opt_einsum


# ------------------------------------------------------------------ oracle


def oracle_einsum(inputs, output, arrays, dtype=None):
    """The Einstein sum, computed by broadcasting every operand to the full index
    space, multiplying and summing (never calls einsum, tensordot or opt_einsum).
    Exact for integers / small integer valued floats / Python objects."""
    order = []
    size = {}
    for term, a in zip(inputs, arrays):
        assert len(term) == len(np.shape(a)), (term, np.shape(a))
        for c, d in zip(term, np.shape(a)):
            if c not in size:
                size[c] = d
                order.append(c)
            elif size[c] == 1:
                size[c] = d
            elif d not in (1, size[c]):
                raise ValueError("size mismatch")
    order = list(output) + [c for c in order if c not in output]
    full = tuple(size[c] for c in order)
    prod = None
    for term, a in zip(inputs, arrays):
        a = np.asarray(a)
        # diagonal of repeated labels
        t = list(term)
        while len(set(t)) != len(t):
            c = next(x for x in t if t.count(x) > 1)
            i = t.index(c)
            j = t.index(c, i + 1)
            # a size-1 copy is broadcast against the other
            if a.shape[i] != a.shape[j]:
                k = i if a.shape[i] == 1 else j
                a = np.take(a, 0, axis=k)
                t.pop(k)
                continue
            a = np.diagonal(a, axis1=i, axis2=j)
            t.pop(j)
            t.pop(i)
            t.append(c)
        # axes in `order`
        perm = sorted(range(len(t)), key=lambda k: order.index(t[k]))
        a = np.transpose(a, perm)
        t = [t[k] for k in perm]
        shp = tuple(a.shape[t.index(c)] if c in t else 1 for c in order)
        a = np.broadcast_to(a.reshape(shp), full)
        prod = a if prod is None else prod * a
    nsum = len(order) - len(output)
    if nsum:
        prod = prod.sum(axis=tuple(range(len(output), len(order))))
    return np.array(prod)


def ints(rng, shape, lo=-3, hi=3):
    n = 1
    for d in shape:
        n *= d
    return np.array([rng.randint(lo, hi) for _ in range(n)], dtype=float).reshape(shape)


def equal(got, want):
    got = np.asarray(got)
    want = np.asarray(want)
    return got.shape == want.shape and bool(np.array_equal(got.astype(float), want.astype(float)))


# --------------------------------------------------------------- networks


def gen_net(rng, nmin=1, nmax=6, nidx=None, dmax=4, maxspace=4096, rep=0.08, unit=0.12, zero=0.0, scalar=0.08,
            out_p=0.35, letters=LET, hyper=True, maxrank=4):
    """A random einsum: list of index strings, an output string and index sizes."""
    while True:
        n = rng.randint(nmin, nmax)
        k = nidx or rng.randint(1, max(2, min(10, n + 3)))
        pool = rng.sample(letters, min(k, len(letters)))
        terms = []
        for _ in range(n):
            if rng.random() < scalar:
                terms.append("")
                continue
            r = rng.randint(1, min(maxrank, len(pool)))
            t = rng.sample(pool, r)
            if rng.random() < rep:
                t.insert(rng.randint(0, len(t)), rng.choice(t))
            terms.append("".join(t))
        if not hyper:
            pass
        used = sorted(set("".join(terms)))
        rng.shuffle(used)
        out = [c for c in used if rng.random() < out_p]
        if rng.random() < 0.1:
            out = []
        rng.shuffle(out)
        sizes = {}
        for c in used:
            x = rng.random()
            sizes[c] = 0 if x < zero else (1 if x < zero + unit else rng.randint(2, dmax))
        sp = 1
        for d in sizes.values():
            sp *= max(d, 1)
        if sp <= maxspace:
            return terms, "".join(out), sizes


def shapes_of(terms, sizes, rng=None, bcast=0.0):
    """Shapes of the operands; with probability `bcast` per occurrence a dimension is 1 instead.
    At least one occurrence of every index keeps its size."""
    out = []
    keep = {}
    for i, t in enumerate(terms):
        for j, c in enumerate(t):
            keep.setdefault(c, []).append((i, j))
    must = set()
    if rng is not None and bcast:
        must = {rng.choice(v) for v in keep.values()}
    for i, t in enumerate(terms):
        shp = []
        for j, c in enumerate(t):
            if rng is not None and bcast and (i, j) not in must and t.count(c) == 1 and rng.random() < bcast:
                shp.append(1)
            else:
                shp.append(sizes[c])
        out.append(tuple(shp))
    return out


def rand_path(rng, n, maxk=3):
    """A random complete path in linear form (steps of 1..maxk terms)."""
    path = []
    m = n
    while m > 1:
        k = min(m, 2 if rng.random() < 0.75 else rng.randint(1, maxk))
        if k == 1 and (len(path) > 3 * n):
            k = 2
        path.append(tuple(rng.sample(range(m), k)))
        m = m - k + 1
    if not path:
        path = [tuple(range(n))]
    return path


# ------------------------------------------------------- independent models


def prod(it):
    r = 1
    for x in it:
        r *= x
    return r


def sim_path(inputs, output, path, sizes):
    """Independent replay of a linear path over index sets.
    Yields per step: (positions, contracted index sets, result set, removed, remaining sets, flops, size)."""
    rem = [frozenset(x) for x in inputs]
    output = frozenset(output)
    steps = []
    for pos in path:
        pos = tuple(pos)
        if len(set(pos)) != len(pos) or not pos:
            raise Fail(f"step {pos} names a position twice or is empty")
        if any((not isinstance(p, int)) or p < 0 or p >= len(rem) for p in pos):
            raise Fail(f"step {pos} out of range for {len(rem)} terms")
        chosen = [rem[p] for p in pos]
        rest = [s for i, s in enumerate(rem) if i not in pos]
        either = frozenset().union(*chosen)
        keep = output.union(*rest)
        res = either & keep
        removed = either - keep
        flops = prod(sizes[c] for c in either) * (max(1, len(pos) - 1) + (1 if removed else 0))
        size = prod(sizes[c] for c in res)
        rem = rest + [res]
        steps.append((pos, chosen, res, removed, list(rem), flops, size))
    return steps, rem


def pair_flops(k1, k2, keep, sizes):
    """The pairwise flop model of the exhaustive search."""
    either = k1 | k2
    f = prod(sizes[c] for c in either)
    return f * 2 if ((k1 & k2) - keep) else f


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted(jsonable(v) for v in x)
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray):
        return x.tolist()
    return x
