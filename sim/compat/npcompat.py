"""numpy 1.21 behaviour the repository relies on, on top of the installed numpy 2.

The repository pins numpy 1.21.1.  Two behaviours changed since: float()/int()
of a size-1 array of dimension > 0 is an error now, and np.array of a ragged
list is an error now.  Creation functions return an ndarray subclass (also
called "ndarray", the repository tests the type's name) that has the old
conversions, and np.array falls back to an object array for ragged input.
"""
import numpy as np

_real = np.ndarray


class ndarray(_real):
    __slots__ = ()

    def __float__(self):
        if self.size != 1:
            raise TypeError("only size-1 arrays can be converted to Python scalars")
        return float(self.item())

    def __int__(self):
        if self.size != 1:
            raise TypeError("only size-1 arrays can be converted to Python scalars")
        return int(self.item())

    def __array_wrap__(self, arr, context=None, return_scalar=False):
        if return_scalar or arr.ndim == 0:
            return arr[()]
        return arr.view(ndarray)

    def __format__(self, spec):
        return format(str(self), spec) if spec else str(self)


ndarray.__module__ = "npcompat"
ndarray.__qualname__ = "ndarray"

_installed = False


def _wrap(f):
    def g(*a, **k):
        r = f(*a, **k)
        if type(r) is _real and r.ndim > 0:
            return r.view(ndarray)
        return r
    g.__name__ = getattr(f, "__name__", "f")
    g.__wrapped__ = f
    return g


def install():
    global _installed
    if _installed:
        return
    _installed = True
    base_array, base_asarray = np.array, np.asarray

    def mk(base):
        def array(obj, *a, **k):
            try:
                r = base(obj, *a, **k)
            except ValueError:
                if "dtype" in k or a or not isinstance(obj, (list, tuple)):
                    raise
                r = np.core_empty(len(obj))
                for i, v in enumerate(obj):
                    r[i] = v
            if type(r) is _real and r.ndim > 0:
                return r.view(ndarray)
            return r
        return array

    _empty = np.empty

    def core_empty(n):
        return _empty(n, dtype=object)
    np.core_empty = core_empty
    np.array, np.asarray = mk(base_array), mk(base_asarray)
    for name in ("zeros", "ones", "empty", "full", "arange", "linspace", "zeros_like", "ones_like",
                 "empty_like", "full_like", "concatenate", "stack", "hstack", "vstack", "copy",
                 "atleast_1d", "atleast_2d", "fromiter", "frombuffer", "fromstring", "loadtxt", "genfromtxt", "cumsum",
                 "where", "sort", "argsort", "unique", "exp", "log", "nan_to_num", "ravel", "asanyarray",
                 "ascontiguousarray", "append", "eye", "repeat", "tile", "squeeze", "reshape"):
        f = getattr(np, name, None)
        if f is None or isinstance(f, np.ufunc):
            continue
        setattr(np, name, _wrap(f))
    for name, val in (("float", float), ("int", int), ("object", object), ("str", str), ("complex", complex),
                      ("float_", np.float64), ("unicode_", np.str_), ("infty", np.inf), ("Inf", np.inf),
                      ("NaN", np.nan), ("asfarray", lambda a, dtype=np.float64: np.asarray(a, dtype=dtype)),
                      ("in1d", getattr(np, "isin", None)), ("product", np.prod), ("alltrue", np.all),
                      ("sometrue", np.any)):
        if name not in np.__dict__:
            try:
                setattr(np, name, val)
            except Exception:
                pass
