"""Stand-in for gmpy2 over Python integers, accelerated with libgmp through ctypes when present.

Values are plain Python ints.  Results are identical with and without libgmp.
"""
import ctypes
import math

mpz = int
mpz_type = int


class _Mpz(ctypes.Structure):
    _fields_ = [("alloc", ctypes.c_int), ("size", ctypes.c_int), ("d", ctypes.c_void_p)]


_gmp = None
try:
    _gmp = ctypes.CDLL("libgmp.so.10")
    for _n, _r, _a in (
            ("__gmpz_init", None, (ctypes.c_void_p,)),
            ("__gmpz_import", None, (ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_size_t,
                                     ctypes.c_int, ctypes.c_size_t, ctypes.c_char_p)),
            ("__gmpz_export", ctypes.c_void_p, (ctypes.c_char_p, ctypes.c_void_p, ctypes.c_int, ctypes.c_size_t,
                                                ctypes.c_int, ctypes.c_size_t, ctypes.c_void_p)),
            ("__gmpz_powm", None, (ctypes.c_void_p,) * 4)):
        _f = getattr(_gmp, _n)
        _f.restype = _r
        _f.argtypes = _a
except (OSError, AttributeError):
    _gmp = None

if _gmp is not None:
    _B, _E, _M, _R = _Mpz(), _Mpz(), _Mpz(), _Mpz()
    _pb, _pe, _pm, _pr = (ctypes.addressof(v) for v in (_B, _E, _M, _R))
    for _p in (_pb, _pe, _pm, _pr):
        _gmp.__gmpz_init(_p)
    _imp, _exp, _powm = (getattr(_gmp, "__gmpz_" + n) for n in ("import", "export", "powm"))

    def _load(ptr, v):
        n = (v.bit_length() + 7) // 8 or 1
        _imp(ptr, n, -1, 1, 0, 0, v.to_bytes(n, "little"))


def powmod(x, y, m):
    x, y, m = int(x), int(y), int(m)
    if _gmp is None or y < 0 or m <= 0 or m.bit_length() < 128:
        return pow(x, y, m)
    _load(_pb, x % m)
    _load(_pe, y)
    _load(_pm, m)
    _powm(_pr, _pb, _pe, _pm)
    size = (m.bit_length() + 7) // 8
    buf = ctypes.create_string_buffer(size)
    cnt = ctypes.c_size_t(0)
    _exp(buf, ctypes.addressof(cnt), -1, 1, 0, 0, _pr)
    return int.from_bytes(buf.raw, "little")


def invert(x, m):
    try:
        return pow(int(x), -1, int(m))
    except ValueError:
        raise ZeroDivisionError("invert() no inverse exists")


def bit_set(x, n):
    return int(x) | (1 << n)


def bit_clear(x, n):
    return int(x) & ~(1 << n)


def bit_test(x, n):
    return bool((int(x) >> n) & 1)


def bit_length(x):
    return int(x).bit_length()


def isqrt(x):
    return math.isqrt(int(x))


def gcd(*a):
    return math.gcd(*map(int, a))


def lcm(*a):
    return math.lcm(*map(int, a))


def add(a, b):
    return a + b


def sub(a, b):
    return a - b


def mul(a, b):
    return a * b


def f_mod(a, b):
    return a % b


def f_div(a, b):
    return a // b


def t_mod(a, b):
    return math.fmod(a, b) if isinstance(a, float) else a - b * t_div(a, b)


def t_div(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def divm(a, b, m):
    return a * invert(b, m) % m


def is_even(x):
    return int(x) % 2 == 0


def is_odd(x):
    return int(x) % 2 == 1


_SMALL = [p for p in range(3, 2000, 2) if all(p % q for q in range(3, int(p ** .5) + 1, 2))]


def is_prime(n, k=25):
    n = int(n)
    if n < 2:
        return False
    if n % 2 == 0:
        return n == 2
    for p in _SMALL:
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    # the first 13 primes decide all n < 3.3e24; for larger n they are a strong
    # probable-prime test, which is what gmpy2 offers too
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41):
        x = powmod(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def next_prime(n):
    n = int(n) + 1
    if n <= 2:
        return 2
    n |= 1
    while not is_prime(n):
        n += 2
    return n


def digits(x, base=10):
    return str(x) if base == 10 else format(x, {2: "b", 8: "o", 16: "x"}[base])
