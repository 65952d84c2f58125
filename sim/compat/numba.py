"""Stand-in for numba: `jit` only, as an identity decorator (the repository only decorates)."""


def jit(*args, **kwargs):
    if len(args) == 1 and callable(args[0]) and not kwargs:
        return args[0]
    return lambda f: f


njit = jit
