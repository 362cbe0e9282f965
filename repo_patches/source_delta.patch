From 0ae574db6577c15def90aeafa5c98ba8b4f79b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:02 +0000
Subject: [PATCH 01/13] fix: don't reuse a pairwise contraction for a different
 set of remaining terms

The indices kept by contracting two terms, and so the flops and size, depend on
the other remaining terms, but optimal and BranchBound cached them by the pair
alone: 'optimal' could miss the cheapest path and both could exceed memory_limit.
---
 opt_einsum/paths.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index 5c38c45..fc8d848 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -231,7 +231,6 @@ def optimal(
     best_flops = {"flops": float("inf")}
     best_ssa_path = {"ssa_path": (tuple(range(len(inputs))),)}
     size_cache: Dict[FrozenSet[str], int] = {}
-    result_cache: Dict[Tuple[ArrayIndexType, ArrayIndexType], Tuple[FrozenSet[str], int]] = {}
 
     def _optimal_iterate(path, remaining, inputs, flops):
         # reached end of path (only ever get here if flops is best found so far)
@@ -244,11 +243,8 @@ def optimal(
         for i, j in itertools.combinations(remaining, 2):
             if i > j:
                 i, j = j, i
-            key = (inputs[i], inputs[j])
-            try:
-                k12, flops12 = result_cache[key]
-            except KeyError:
-                k12, flops12 = result_cache[key] = calc_k12_flops(inputs, output_set, remaining, i, j, size_dict)
+            # n.b. this depends on the other remaining terms, so can't be cached by ``(inputs[i], inputs[j])``
+            k12, flops12 = calc_k12_flops(inputs, output_set, remaining, i, j, size_dict)
 
             # sieve based on current best flops
             new_flops = flops + flops12
@@ -400,7 +396,6 @@ class BranchBound(PathOptimizer):
         output: FrozenSet[str] = frozenset(output_)
 
         size_cache = {k: compute_size_by_dict(k, size_dict) for k in inputs}
-        result_cache: Dict[Tuple[FrozenSet[str], FrozenSet[str]], Tuple[FrozenSet[str], int]] = {}
 
         def _branch_iterate(path, inputs, remaining, flops, size):
             # reached end of path (only ever get here if flops is best found so far)
@@ -412,10 +407,8 @@ class BranchBound(PathOptimizer):
 
             def _assess_candidate(k1: FrozenSet[str], k2: FrozenSet[str], i: int, j: int) -> Any:
                 # find resulting indices and flops
-                try:
-                    k12, flops12 = result_cache[k1, k2]
-                except KeyError:
-                    k12, flops12 = result_cache[k1, k2] = calc_k12_flops(inputs, output, remaining, i, j, size_dict)
+                # n.b. these depend on the other remaining terms, so can't be cached by ``(k1, k2)``
+                k12, flops12 = calc_k12_flops(inputs, output, remaining, i, j, size_dict)
 
                 try:
                     size12 = size_cache[k12]
-- 
2.43.0


From 42f3c9f088deed5111e328d300c628eec41908bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:02 +0000
Subject: [PATCH 02/13] fix: respect einsum options and interleaved input when
 sharing intermediates

Inside shared_intermediates the einsum wrapper dropped every option but the
backend, e.g. 'out' was returned without being written, and it passed the first
array of interleaved input on as the equation.
---
 opt_einsum/sharing.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/sharing.py b/opt_einsum/sharing.py
index c9ee583..b66755a 100644
--- a/opt_einsum/sharing.py
+++ b/opt_einsum/sharing.py
@@ -165,8 +165,13 @@ def einsum_cache_wrap(einsum: Any) -> Any:
 
         # hash modulo commutativity by computing a canonical ordering and names
         backend = kwargs.pop("backend", "numpy")
-        equation = args[0]
         inputs, output, operands = parse_einsum_input(args)
+        equation = args[0] if isinstance(args[0], str) else inputs + "->" + output
+
+        # other options affect the result, or where to put it, which can't be shared
+        if any(option is not None for option in kwargs.values()):
+            return einsum(equation, *operands, backend=backend, **kwargs)
+
         inputs = inputs.split(",")
 
         _save_tensors(*operands)
-- 
2.43.0


From dcd945f2f417c02632457643ee9305473d397464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:02 +0000
Subject: [PATCH 03/13] fix: keep converted arrays alive while their conversion
 is shared

Conversions were cached by the id of the source array without keeping it alive,
so a later array with a recycled id was given the conversion of an old one.
---
 opt_einsum/sharing.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/opt_einsum/sharing.py b/opt_einsum/sharing.py
index b66755a..ecd0584 100644
--- a/opt_einsum/sharing.py
+++ b/opt_einsum/sharing.py
@@ -14,7 +14,7 @@ from typing import Counter as CounterType
 from opt_einsum.parser import alpha_canonicalize, parse_einsum_input
 from opt_einsum.typing import ArrayType
 
-CacheKeyType = Union[Tuple[str, str, int, Tuple[int, ...]], Tuple[str, int]]
+CacheKeyType = Union[Tuple[str, str, int, Tuple[int, ...]], Tuple[str, int], Tuple[Any, ...]]
 CacheType = Dict[CacheKeyType, ArrayType]
 
 __all__ = [
@@ -188,6 +188,21 @@ def einsum_cache_wrap(einsum: Any) -> Any:
     return cached_einsum
 
 
+class _IdentityKey:
+    """Hashes and compares like ``id(obj)``, but keeps ``obj`` alive so that its id is not recycled."""
+
+    __slots__ = ("obj",)
+
+    def __init__(self, obj: Any):
+        self.obj = obj
+
+    def __hash__(self) -> int:
+        return id(self.obj)
+
+    def __eq__(self, other: Any) -> bool:
+        return isinstance(other, _IdentityKey) and self.obj is other.obj
+
+
 def to_backend_cache_wrap(to_backend: Any = None, constants: Any = False) -> Any:
     """Decorates an ``to_backend()`` implementation to be memoized inside a
     :func:`shared_intermediates` context (e.g. ``to_cupy``, ``to_torch``).
@@ -204,7 +219,7 @@ def to_backend_cache_wrap(to_backend: Any = None, constants: Any = False) -> Any
                 return to_backend(array, constant=constant)
 
             # hash by id
-            key = to_backend.__name__, id(array), constant
+            key = to_backend.__name__, _IdentityKey(array), constant
             return _memoize(key, to_backend, array, constant=constant)
 
     else:
@@ -215,7 +230,7 @@ def to_backend_cache_wrap(to_backend: Any = None, constants: Any = False) -> Any
                 return to_backend(array)
 
             # hash by id
-            key = to_backend.__name__, id(array)
+            key = to_backend.__name__, _IdentityKey(array)
             return _memoize(key, to_backend, array)
 
     return cached_to_backend
-- 
2.43.0


From 2f31468947b275b1631f928667984e98b2616dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:02 +0000
Subject: [PATCH 04/13] fix: refuse to overwrite a registered path function in
 any letter case

register_path_fn looked for the name as given but stored it in lower case, so
'OPTIMAL' silently replaced 'optimal'.
---
 opt_einsum/paths.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index fc8d848..b9b70e4 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -1372,10 +1372,11 @@ _PATH_OPTIONS: Dict[str, PathSearchFunctionType] = {
 
 def register_path_fn(name: str, fn: PathSearchFunctionType) -> None:
     """Add path finding function ``fn`` as an option with ``name``."""
+    name = name.lower()
     if name in _PATH_OPTIONS:
         raise KeyError(f"Path optimizer '{name}' already exists.")
 
-    _PATH_OPTIONS[name.lower()] = fn
+    _PATH_OPTIONS[name] = fn
 
 
 def get_path_fn(path_type: str) -> PathSearchFunctionType:
-- 
2.43.0


From 9031c17a50a031722e74651e8a05a974abed1553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:02 +0000
Subject: [PATCH 05/13] fix: allow a scalar 'out' for contractions performed
 with tensordot

---
 opt_einsum/contract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opt_einsum/contract.py b/opt_einsum/contract.py
index 9ea929f..6e52cb3 100644
--- a/opt_einsum/contract.py
+++ b/opt_einsum/contract.py
@@ -692,7 +692,7 @@ def _core_contract(
                 new_view = _transpose(new_view, axes=transpose, backend=backend)
 
                 if handle_out:
-                    out[:] = new_view  # type: ignore
+                    out[()] = new_view  # type: ignore
 
         else:
             # Call einsum
-- 
2.43.0


From 89a1bde3ce116dd3234466842007372ed27de640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:02 +0000
Subject: [PATCH 06/13] fix: broadcast a dimension of size 1 with one of size 0
 to size 0

The recorded shape of an intermediate used 1, and a later tensordot then failed.
---
 opt_einsum/parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/parser.py b/opt_einsum/parser.py
index 316a421..3ed56f4 100644
--- a/opt_einsum/parser.py
+++ b/opt_einsum/parser.py
@@ -166,7 +166,11 @@ def find_output_shape(inputs: List[str], shapes: List[TensorShapeType], output:
     >>> oe.parser.find_output_shape(["a", "a"], [(4, ), (1, )], "a")
     (4,)
     """
-    return tuple(max(shape[loc] for shape, loc in zip(shapes, [x.find(c) for x in inputs]) if loc >= 0) for c in output)
+    return tuple(
+        # a size 1 is broadcast to the other size, which might be 0
+        max((shape[loc] for shape, loc in zip(shapes, [x.find(c) for x in inputs]) if loc >= 0), key=lambda d: (d != 1, d))
+        for c in output
+    )
 
 
 _BaseTypes = (bool, int, float, complex, str, bytes)
-- 
2.43.0


From 2f879ea7b412aad86220e35348355c9e9cae5027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:02 +0000
Subject: [PATCH 07/13] fix: broadcast dimensions of size 1 in object_einsum

The size of an index was that in the last operand, so a broadcast operand either
failed or silently gave a partial sum.
---
 opt_einsum/backends/object_arrays.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/opt_einsum/backends/object_arrays.py b/opt_einsum/backends/object_arrays.py
index 8954a18..35eaee7 100644
--- a/opt_einsum/backends/object_arrays.py
+++ b/opt_einsum/backends/object_arrays.py
@@ -36,7 +36,9 @@ def object_einsum(eq: str, *arrays: ArrayType) -> ArrayType:
     sizes = {}
     for term, array in zip(inputs, arrays):
         for k, d in zip(term, array.shape):
-            sizes[k] = d
+            # dimensions of size 1 are broadcast
+            if sizes.get(k, 1) == 1:
+                sizes[k] = d
 
     out_size = tuple(sizes[k] for k in output)
     out = np.empty(out_size, dtype=object)
@@ -50,7 +52,10 @@ def object_einsum(eq: str, *arrays: ArrayType) -> ArrayType:
         def gen_inner_sum():
             for coo_i in np.ndindex(*inner_size):
                 coord.update(dict(zip(inner, coo_i)))
-                locs = (tuple(coord[k] for k in term) for term in inputs)
+                locs = (
+                    tuple(0 if d == 1 else coord[k] for k, d in zip(term, array.shape))
+                    for term, array in zip(inputs, arrays)
+                )
                 elements = (array[loc] for array, loc in zip(arrays, locs))
                 yield functools.reduce(operator.mul, elements)
 
-- 
2.43.0


From e551292ff65b3a082a05c1ff3f59caa634b0b952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:02 +0000
Subject: [PATCH 08/13] fix: let dynamic programming handle empty dimensions

The naive cost was 0, so the search of a subgraph without the empty dimension gave
up after the first cost cap.
---
 opt_einsum/paths.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index b9b70e4..e13d44b 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -1186,7 +1186,8 @@ class DynamicProgramming(PathOptimizer):
         output = frozenset(symbol2int[c] for c in output_)
         size_dict_canonical = {symbol2int[c]: v for c, v in size_dict_.items() if c in symbol2int}
         size_dict = [size_dict_canonical[j] for j in range(len(size_dict_canonical))]
-        naive_cost = naive_scale * len(inputs) * functools.reduce(operator.mul, size_dict, 1)
+        # n.b. ignore empty dimensions, which might not be part of every subgraph
+        naive_cost = naive_scale * len(inputs) * functools.reduce(operator.mul, (max(d, 1) for d in size_dict), 1)
 
         inputs, inputs_done, inputs_contractions = _dp_parse_out_single_term_ops(inputs, all_inds, ind_counts)
 
-- 
2.43.0


From 22fbcede2b3ba40f811a11b5f4ac0d623ff5452b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:02 +0000
Subject: [PATCH 09/13] fix: reject an explicit path that leaves terms
 uncontracted

contract silently returned one of the uncontracted operands.
---
 opt_einsum/contract.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opt_einsum/contract.py b/opt_einsum/contract.py
index 6e52cb3..d8a1f7f 100644
--- a/opt_einsum/contract.py
+++ b/opt_einsum/contract.py
@@ -408,6 +408,9 @@ def contract_path(
         contraction = (contract_inds, idx_removed, einsum_str, remaining, do_blas)
         contraction_list.append(contraction)
 
+    if len(input_list) != 1:
+        raise ValueError(f"Invalid path, {len(input_list) - 1} more operands have to be contracted: {path_tuple}.")
+
     opt_cost = sum(cost_list)
 
     if einsum_call_arg:
-- 
2.43.0


From 3dac1e9b97c01fd99d78bfdbd783e5a51a97254e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:02 +0000
Subject: [PATCH 10/13] fix: run every repeat of a parallel random search

A repeat was skipped each time a result was waited for, i.e. whenever max_repeats
is more than pre_dispatch.
---
 opt_einsum/path_random.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/opt_einsum/path_random.py b/opt_einsum/path_random.py
index 1376822..579e81e 100644
--- a/opt_einsum/path_random.py
+++ b/opt_einsum/path_random.py
@@ -135,10 +135,9 @@ class RandomOptimizer(paths.PathOptimizer):
         # the idea here is to submit at least ``pre_dispatch`` jobs *before* we
         # yield any results, then do both in tandem, before draining the queue
         for r in repeats:
-            if len(self._futures) < self.pre_dispatch:
-                self._futures.append(self._executor.submit(trial_fn, r, *args))
-                continue
-            yield self._futures.popleft().result()
+            if len(self._futures) >= self.pre_dispatch:
+                yield self._futures.popleft().result()
+            self._futures.append(self._executor.submit(trial_fn, r, *args))
 
         while self._futures:
             yield self._futures.popleft().result()
-- 
2.43.0


From fa523121d47e81fe2ffb60bb6d448abe3b2628ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:31 +0000
Subject: [PATCH 11/13] fix: accept the same subscripts with and without
 optimize=False

Without optimization, whitespace and ellipses were renamed like indices if the
equation had whitespace or unicode indices, and interleaved input was restricted
to integer symbols.
---
 opt_einsum/contract.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/opt_einsum/contract.py b/opt_einsum/contract.py
index d8a1f7f..fc1bf22 100644
--- a/opt_einsum/contract.py
+++ b/opt_einsum/contract.py
@@ -438,17 +438,15 @@ def _einsum(*operands: Any, **kwargs: Any) -> ArrayType:
     fn = backends.get_func("einsum", kwargs.pop("backend", "numpy"))
 
     if not isinstance(operands[0], str):
-        return fn(*operands, **kwargs)
-
-    einsum_str, operands = operands[0], operands[1:]
+        einsum_str, operands = parser.convert_interleaved_input(operands)
+    else:
+        einsum_str, operands = operands[0], operands[1:]
 
     # Do we need to temporarily map indices into [a-z,A-Z] range?
     if not parser.has_valid_einsum_chars_only(einsum_str):
         # Explicitly find output str first so as to maintain order
-        if "->" not in einsum_str:
-            einsum_str += "->" + parser.find_output_str(einsum_str)
-
-        einsum_str = parser.convert_to_valid_einsum_chars(einsum_str)
+        input_str, output_str, _ = parser.parse_einsum_input((einsum_str, *operands))
+        einsum_str = parser.convert_to_valid_einsum_chars(input_str + "->" + output_str)
 
     kwargs = _filter_einsum_defaults(kwargs)  # type: ignore
     return fn(einsum_str, *operands, **kwargs)
-- 
2.43.0


From 3c00b169d87eb1e37e0c9831dd54f6d154cc11b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:19 +0000
Subject: [PATCH 12/13] fix: stop the dynamic programming search if nothing
 fits in memory_limit

For minimize='combo' and 'limit', or an unlimited cost cap with a custom cost, the
search never ended instead of raising, as the bound on the cost was infinite.
---
 opt_einsum/paths.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index e13d44b..43c3034 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -1040,8 +1040,8 @@ def _parse_minimize(minimize: Union[str, Callable]) -> Tuple[Callable, Union[int
     elif minimize == "write":
         return _dp_compare_write, 1
     elif callable(minimize):
-        # default to naive_scale=inf for this and remaining options
-        # as otherwise memory_limit check can cause problems
+        # default to naive_scale=inf as the scale of the cost is not known
+        # and otherwise memory_limit check can cause problems
         return minimize, float("inf")
 
     # parse out a customized value for the combination factor
@@ -1052,9 +1052,9 @@ def _parse_minimize(minimize: Union[str, Callable]) -> Tuple[Callable, Union[int
     minimize, custom_factor = match.groups()
     factor = float(custom_factor) if custom_factor else DEFAULT_COMBO_FACTOR
     if minimize == "combo":
-        return functools.partial(_dp_compare_combo, factor=factor, combine=sum), float("inf")
+        return functools.partial(_dp_compare_combo, factor=factor, combine=sum), 1 + factor
     elif minimize == "limit":
-        return functools.partial(_dp_compare_combo, factor=factor, combine=max), float("inf")
+        return functools.partial(_dp_compare_combo, factor=factor, combine=max), 1 + factor
     else:
         raise ValueError(f"Couldn't parse `minimize` value: {minimize}.")
 
@@ -1274,7 +1274,7 @@ class DynamicProgramming(PathOptimizer):
                                             contract2,
                                         )
 
-                if (cost_cap > naive_cost) and (len(x[-1]) == 0):
+                if (cost_cap > naive_cost or cost_cap == float("inf")) and (len(x[-1]) == 0):
                     raise RuntimeError("No contraction found for given `memory_limit`.")
 
                 # increase cost cap for next iteration:
-- 
2.43.0


From 8a10bd1df97d58c3c6b747ba464087b6d4978089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:51 +0000
Subject: [PATCH 13/13] fix: get_sharing_cache outside of a scope left sharing
 switched on

---
 opt_einsum/sharing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/sharing.py b/opt_einsum/sharing.py
index ecd0584..28a64a0 100644
--- a/opt_einsum/sharing.py
+++ b/opt_einsum/sharing.py
@@ -37,7 +37,9 @@ def currently_sharing() -> bool:
 
 def get_sharing_cache() -> CacheType:
     """Return the most recent sharing cache -- thread specific."""
-    return _SHARING_STACK[threading.get_ident()][-1]
+    # no item access on the defaultdict here: outside of a scope it would leave an empty entry behind,
+    # which ``currently_sharing`` takes for an open scope
+    return _SHARING_STACK.get(threading.get_ident(), [])[-1]
 
 
 def _add_sharing_cache(cache: CacheType) -> Any:
-- 
2.43.0

