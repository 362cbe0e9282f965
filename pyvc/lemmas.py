"""Ghost clients.  Nothing here runs: each function is verified against the contracts of the
repository functions it calls, so its postcondition is a theorem about them."""
from opt_einsum.parser import get_symbol
from opt_einsum.paths import get_path_fn, linear_to_ssa, register_path_fn, ssa_to_linear


def roundtrip_linear(path):
    return ssa_to_linear(linear_to_ssa(path))


def roundtrip_ssa(path):
    r = linear_to_ssa(ssa_to_linear(path))
    for k in range(len(path)):  # induction over the steps
        pass
    return r


def symbols_differ(i, j):
    return get_symbol(i) != get_symbol(j)


def register_then_get(name, fn, other):
    register_path_fn(name, fn)
    return get_path_fn(other)
