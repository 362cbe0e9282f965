"""Writes properties.jsonl (the text lives here so that it can be edited comfortably)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = dict(files=["opt_einsum/" + f for f in files], mechanism=[dict(name=n, where="opt_einsum/" + w) for n, w in mech])
    if state:
        a["state"] = [dict(name=n, meaning=m, where="opt_einsum/" + w) for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


p("C01", "A contraction equals the Einstein sum, whatever the strategy",
  "For every valid einsum expression and operands, the result of a contraction equals the Einstein summation of the operands (same shape, same values up to rounding; exact for integers), including broadcast size-1 dimensions, repeated indices and scalars. This does not depend on which path strategy, explicit complete path, memory limit or BLAS setting is chosen.",
  ["inputs", "configurations"], "every expression, every operand shape and value, every optimizer / explicit path / memory_limit / use_blas setting",
  "Tests compare a few dozen fixed expressions on random data; the number of (expression, shape, path, setting) combinations is unbounded, and the interesting ones mix broadcasting, repeated indices, hyper indices and unusual contraction orders.",
  ["contract.py", "parser.py", "blas.py", "backends/dispatch.py", "helpers.py"],
  [("step execution", "contract.py:_core_contract"), ("step construction", "contract.py:contract_path"), ("pairwise kernels", "contract.py:_einsum, _tensordot, _transpose"), ("BLAS choice", "blas.py:can_blas")],
  observe=["contract()"])

p("C02", "Every plan is a sound sequence of contraction steps",
  "Each step of a plan names live operand positions only, states a subscript string whose inputs are exactly the terms at those positions, sums away exactly the indices that occur neither in the output nor in any remaining term, and appends its result to the remaining terms. The last step of the plan produces exactly the requested output indices in the requested order.",
  ["inputs", "configurations"], "every expression, every path the optimizers or the user supply",
  "Tests look at the plans of a few expressions; soundness is an invariant over every step of every plan, with any number of terms contracted per step and indices shared by any number of terms.",
  ["contract.py", "helpers.py"],
  [("set algebra of a step", "helpers.py:find_contraction"), ("step loop", "contract.py:contract_path"), ("positions in descending order", "contract.py:contract_path")],
  state=[("remaining term list", "terms not contracted yet, in order", "contract.py:contract_path")], observe=["contract_path()[1].contraction_list"])

p("C03", "BLAS is chosen only when it computes the same result",
  "A pairwise step is labelled as BLAS-capable only if a single tensordot over the summed indices followed by at most one transpose yields exactly the step's Einstein sum: no repeated index in a term, no index kept in the result and shared by both terms, no index summed out of one term alone, and no size-1 broadcasting. Steps with other than two terms are never so labelled.",
  ["inputs"], "every pair of terms, every result and every set of summed indices, with or without shapes",
  "Tests enumerate some twenty hand-written pairs; the classification must hold for every combination of index occurrences, orders, repeats and shapes.",
  ["blas.py", "contract.py"], [("classification", "blas.py:can_blas"), ("use of the label", "contract.py:contract_path, _core_contract")], observe=["opt_einsum.blas.can_blas()", "contraction_list entries"])

p("C04", "Every optimizer returns a complete, well-formed, repeatable path",
  "For any contraction of two or more terms, each built-in strategy terminates with a path whose steps refer to existing, distinct positions and which reduces the terms to exactly one, never dropping or reusing a term. Calling the same deterministic strategy again on the same input gives the same path.",
  ["inputs", "configurations"], "every set of terms (disconnected, repeated, empty, scalar, hyper indices), sizes and memory limits, for each strategy",
  "Tests run each optimizer on a few random connected networks; degenerate terms, duplicates, disconnected components and tight limits form an unbounded space.",
  ["paths.py", "path_random.py"],
  [("exhaustive search", "paths.py:optimal"), ("branching search", "paths.py:BranchBound"), ("greedy", "paths.py:ssa_greedy_optimize"), ("dynamic programming", "paths.py:DynamicProgramming"), ("random search", "path_random.py:RandomOptimizer"), ("id to position conversion", "paths.py:ssa_to_linear")],
  observe=["opt_einsum.paths functions", "contract_path()"])

p("C05", "A memory limit bounds every intermediate",
  "With a memory limit, no step of a returned plan creates an intermediate larger than the limit, except a step that contracts all the remaining terms at once or outer products joining disconnected components. The limit keeps its documented meaning: unset and -1 mean no limit, the word for the largest input means the size of the largest operand or output.",
  ["inputs", "configurations"], "every expression, every limit from one element up, every limit-aware strategy",
  "Tests use one limit on a few expressions; the bound has to hold for every intermediate of every search branch and for cached partial results.",
  ["paths.py", "contract.py"],
  [("limit checks in searches", "paths.py:optimal, BranchBound, greedy, DynamicProgramming"), ("limit parsing", "contract.py:_choose_memory_arg")], observe=["contract_path(memory_limit=...)"])

p("C06", "The 'optimal' strategy is optimal",
  "Among all orders of pairwise contractions, the exhaustive strategy returns one whose total cost is minimal, where a step costs the product of the sizes of the indices it involves, doubled when it sums an index shared by both terms. The branching strategy with no branch limit and unlimited memory never returns a path costlier than the best it evaluated.",
  ["inputs"], "every set of terms, output and index sizes (at least 1)",
  "Optimality is a statement over the factorially many orders of each input; tests pin the paths of a few small examples.",
  ["paths.py"], [("exhaustive recursion and pruning", "paths.py:optimal"), ("pair cost", "paths.py:calc_k12_flops"), ("branch and bound", "paths.py:BranchBound")], observe=["opt_einsum.paths.optimal()"])

p("C07", "Reported costs describe the returned plan",
  "The costs reported with a plan - naive cost, optimized cost, per-step scaling, largest intermediate, speedup and the list of steps - are those of the plan returned, computed from the sizes of the operands given. Per-step flop counts are the product of involved sizes times the number of multiplications, plus one pass when indices are summed.",
  ["inputs", "configurations"], "every expression, path and shape",
  "Tests check a few printed numbers; agreement is needed for all shapes, including size-0 and size-1 dimensions and arbitrary integers.",
  ["contract.py", "helpers.py", "paths.py"],
  [("cost accumulation", "contract.py:contract_path"), ("size product", "helpers.py:compute_size_by_dict"), ("flop formula", "helpers.py:flop_count"), ("report", "contract.py:PathInfo")], observe=["contract_path()[1]"])

p("C08", "Path format conversions preserve the contraction order",
  "Converting a path from recycled positions to single-assignment ids and back returns the original path, and both forms contract the same tensors in the same order. A contraction tree converts to a path that performs exactly the tree's contractions.",
  ["inputs"], "every well-formed path, any number of terms per step, any number of inputs",
  "Tests convert a few random paths of pairwise steps; the claim is about every path of every length and arity.",
  ["paths.py"], [("conversions", "paths.py:ssa_to_linear, linear_to_ssa"), ("tree conversion", "paths.py:_tree_to_sequence")], observe=["opt_einsum.paths.ssa_to_linear()", "opt_einsum.paths.linear_to_ssa()"])

p("C09", "Subscripts mean the same in every accepted notation",
  "A missing output means the indices that appear exactly once, in sorted order, after the broadcast dimensions; an ellipsis stands for as many leading-aligned broadcast dimensions as the operand has left; whitespace is ignored; and interleaved operand/index-list input is equivalent to the corresponding string. Any hashable labels and any unicode symbols are accepted and give the same contraction up to renaming.",
  ["inputs"], "every expression in every notation, any operand ranks",
  "Tests cover a handful of ellipsis placements and label types; combinations of rank, position, implicit output and label order are unbounded.",
  ["parser.py", "contract.py"],
  [("parser", "parser.py:parse_einsum_input"), ("implicit output", "parser.py:find_output_str"), ("interleaved input", "parser.py:convert_interleaved_input, convert_subscripts")], observe=["contract()", "opt_einsum.parser.parse_einsum_input()"])

p("C10", "Malformed contractions are rejected, never computed",
  "An expression that is not valid for its operands - unknown or repeated output index, wrong number of terms, wrong rank, inconsistent dimension sizes, malformed arrow or ellipsis, an explicit path that does not contract everything, unknown strategy, memory limit or option - raises an error instead of returning a value or a plan.",
  ["inputs"], "every invalid expression, operand list, path and option",
  "Tests list about thirty malformed strings; the invalid inputs are unbounded and a lenient branch returns a plausible wrong result silently.",
  ["parser.py", "contract.py", "paths.py"],
  [("subscript checks", "parser.py:parse_einsum_input"), ("dimension checks", "contract.py:contract_path"), ("limit checks", "contract.py:_choose_memory_arg"), ("strategy lookup", "paths.py:get_path_fn")], observe=["contract()", "contract_path()"])

p("C11", "Index symbols are distinct and renaming preserves structure",
  "The n-th symbol differs from every other symbol for all n below the surrogate range, fresh symbols never collide with the ones in use, and canonical renamings map equal indices to equal symbols and different indices to different symbols, so that a renamed expression denotes the same contraction.",
  ["inputs"], "every n, every set of used symbols, every expression",
  "Tests check a few values and one long expression; injectivity is a statement over all pairs.",
  ["parser.py", "sharing.py", "testing.py"],
  [("symbols", "parser.py:get_symbol, gen_unused_symbols"), ("renaming", "parser.py:alpha_canonicalize, convert_to_valid_einsum_chars, convert_subscripts")], observe=["opt_einsum.get_symbol()", "opt_einsum.parser functions"])

p("C12", "Sharing intermediates never changes a result",
  "Inside a sharing scope every contraction returns what it would return outside, for any sequence of contractions, any operand life times, orders, options and caches passed between scopes. A stored intermediate is reused only for the same computation on the same operand objects.",
  ["inputs", "histories"], "every sequence of contractions, transposes and conversions with arrays that are created, dropped and modified between scopes",
  "Tests replay a few fixed sequences that expect a cache hit; a wrong hit needs a particular history, such as a recycled object identity or a commuted pair with different subscripts.",
  ["sharing.py", "contract.py", "backends/dispatch.py"],
  [("cache keys", "sharing.py:einsum_cache_wrap, tensordot_cache_wrap, transpose_cache_wrap, to_backend_cache_wrap"), ("canonical key", "parser.py:alpha_canonicalize"), ("liveness of operands", "sharing.py:_save_tensors")],
  state=[("sharing cache", "maps computation keys to results and pins operands", "sharing.py:_memoize")], observe=["contract() inside shared_intermediates()"])

p("C13", "Sharing scopes nest, end cleanly and belong to one thread",
  "Sharing is on exactly while a scope is open in the current thread: leaving a scope, normally or by an exception, restores exactly the scope that surrounded it, and scopes in other threads are neither seen nor ended. A cache that is handed to a scope is used and filled by that scope, and an inner scope does not touch the outer one's cache.",
  ["histories", "schedules"], "every nesting and interleaving of scopes, threads and exceptions",
  "Tests enter one or two scopes in a fixed order; the guarantee is about every history and schedule.",
  ["sharing.py"], [("scope manager", "sharing.py:shared_intermediates"), ("stack per thread", "sharing.py:_add_sharing_cache, _remove_sharing_cache, currently_sharing, get_sharing_cache")],
  state=[("stack of caches per thread id", "open scopes, innermost last", "sharing.py:_SHARING_STACK")], observe=["shared_intermediates()", "currently_sharing()", "get_sharing_cache()"])

p("C14", "A reusable expression equals the one-shot contraction on every call",
  "An expression built once for given shapes returns, at each call, what a direct contraction of those operands with its constants would return, whichever operands were declared constant, whichever backends earlier calls used and in whatever order. A call with the wrong number of operands is refused.",
  ["inputs", "histories", "configurations"], "every expression, constant subset, backend sequence and call history",
  "Tests call an expression once or twice per backend; stale constants, misplaced arguments and mixed backends need a history.",
  ["contract.py", "backends/dispatch.py", "backends/torch.py"],
  [("expression object", "contract.py:ContractExpression"), ("constant folding", "contract.py:ContractExpression.evaluate_constants"), ("argument placement", "contract.py:ContractExpression._contract, __call__")],
  state=[("evaluated constants per backend", "partially contracted operands", "contract.py:ContractExpression")], observe=["contract_expression()(...)"])

p("C15", "Arguments are never modified",
  "No call modifies the operands, constants, explicit path, subscript lists, shapes, size tables or caches' pinned operands it is given; the only array written is the one passed as the output argument.",
  ["inputs", "histories"], "every call of the public API",
  "Tests rarely compare arguments before and after; a mutation shows only on the next use of the same object.",
  ["contract.py", "paths.py", "helpers.py", "parser.py"],
  [("copies before mutation", "contract.py:contract_path, _core_contract, ContractExpression"), ("copies in the searches", "paths.py"), ("set algebra", "helpers.py:find_contraction")], observe=["all public functions"])

p("C16", "Random search keeps the best trial, records every trial, and is reproducible",
  "A random search returns the path with the lowest value of the requested objective among all the trials it ran, records each trial's cost, runs the requested number of trials per call, never gets worse with further calls, and gives the same result for the same settings whether trials run serially or in a pool. An instance that was used for one contraction refuses a different one.",
  ["inputs", "histories", "schedules", "configurations"], "every network, objective, number of repeats, sequence of calls and executor",
  "Tests run small searches and check that the cost is reasonable; best-of-all and equality between serial and parallel runs are claims over all histories and schedules.",
  ["path_random.py", "paths.py"],
  [("best tracking", "path_random.py:RandomOptimizer.__call__, setup"), ("trial", "path_random.py:thermal_chooser, ssa_path_compute_cost, _trial_greedy_ssa_path_and_cost"), ("dispatch", "path_random.py:_gen_results_parallel")],
  state=[("best, costs, sizes, repeats", "record of the search so far", "path_random.py:RandomOptimizer")], observe=["RandomGreedy instances"])

p("C17", "Dynamic programming is minimal in its search space",
  "For each objective (flops, largest intermediate, total writes, and the weighted mixtures), the dynamic programming strategy returns a path whose cost is minimal among all contraction trees of each connected component that contain no outer product. The claim holds whatever the number of hyper indices, repeated terms or size-1 dimensions.",
  ["inputs", "configurations"], "every set of terms, sizes and objective",
  "Minimality quantifies over all trees of each input; tests compare a few networks with known optima.",
  ["paths.py"], [("subgraph enumeration", "paths.py:DynamicProgramming.__call__"), ("objective functions", "paths.py:_dp_compare_flops, _dp_compare_size, _dp_compare_write, _dp_compare_combo"), ("subgraph legs", "paths.py:_dp_calc_legs"), ("single-term preprocessing", "paths.py:_dp_parse_out_single_term_ops")], observe=["opt_einsum.paths.DynamicProgramming"])

p("C18", "Strategy names resolve consistently and registration never overwrites",
  "Strategy names are matched without regard to letter case, an unknown name is an error that lists the available ones, and registering a name that exists in any letter case is refused and changes nothing. The automatic strategies choose by the number of terms exactly as documented.",
  ["inputs", "histories"], "every name, every sequence of registrations, every number of terms",
  "Tests register one name; the claim covers every history of registrations and each threshold of the automatic choice.",
  ["paths.py"], [("registry", "paths.py:register_path_fn, get_path_fn, _PATH_OPTIONS"), ("automatic choice", "paths.py:auto, auto_hq")],
  state=[("registry of strategies", "name to function", "paths.py:_PATH_OPTIONS")], observe=["register_path_fn()", "get_path_fn()", "contract_path(optimize=...)"])

p("C19", "Fallback kernels compute the exact contraction",
  "The einsum for arrays of arbitrary Python objects and the tensordot and einsum provided for backends that lack them return exactly the same contraction as the reference kernels, for every shape including empty and size-1 dimensions and every axes specification.",
  ["inputs"], "every expression, every object array, every axes specification",
  "Tests evaluate a few expressions on string and number objects; index-to-axis bookkeeping must be right for every order and shape.",
  ["backends/object_arrays.py", "backends/torch.py", "backends/dispatch.py"],
  [("object einsum", "backends/object_arrays.py:object_einsum"), ("torch fallbacks", "backends/torch.py:tensordot, einsum, transpose")], observe=["contract() on object arrays", "opt_einsum.backends.torch"])

p("C20", "An output array receives exactly the result",
  "When an output array is given, the contraction writes its complete result into that array and returns that same array, and every element is overwritten, whatever the path, the kernels used, the memory layout of the array, and whether intermediates are shared or the expression is reused.",
  ["inputs", "configurations", "histories"], "every expression, path, kernel choice and output array layout",
  "Tests pass an output array for three expressions; which step writes it depends on the path and the kernel chosen for the final step.",
  ["contract.py", "sharing.py"], [("final-step handling", "contract.py:_core_contract"), ("output handling in reusable expressions", "contract.py:ContractExpression._contract")], observe=["contract(out=...)"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
