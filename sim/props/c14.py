"""C14: key generation always terminates and yields working, independent keys."""
import math

from sim import env
from sim.engine import blame_harness

CASES = {"quick": 4000, "thorough": 200000}
RULE = ("a case is a short history of key generations and uses of one cipher object (Paillier, RSA or affine) at random key "
        "lengths, with an entropy source whose first draws are extreme (all zeros, all ones, repeating, counting, equal to "
        "the preceding draw) or which fails at a chosen draw, followed by a repetition with other entropy; non-trivial when "
        "at least one key was generated, distinct by history")
REAL = ["ml/secureprotol/encrypt.py", "ml/secureprotol/fate_paillier.py", "ml/secureprotol/fixedpoint.py",
        "ml/secureprotol/gmpy_math.py", "ml/secureprotol/affine.py", "ml/secureprotol/affine_encoder.py"]
ASSUME = ["the entropy source misbehaves for a bounded number of draws and is uniform after that (a source that never "
          "varies cannot give two distinct primes)"]

PAILLIER_BITS = [128, 129, 140, 151, 129, 160, 161, 191, 192, 193, 250, 255, 256, 256, 257, 320, 333, 384, 511, 512, 513,
                 640, 768]


def gen_plan(r):
    """The entropy of one generation: a list of [kind, draws] before the source turns uniform, and a draw that fails."""
    pl = []
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        pl.append([r.choice(["zeros", "ones", "same", "count", "low", "high", "alternate", "uniform"]),
                   r.choice([1, 1, 2, 2, 3, 5, 12])])
    fail = r.choice([0, 0, 1, 2, 3, 5, 9]) if r.random() < 0.25 else None
    return {"prefix": pl, "fail": fail}


def gen_numbers(r):
    out = []
    for _ in range(r.randint(2, 5)):
        k = r.random()
        out.append(0 if k < 0.1 else r.randint(-1000, 1000) if k < 0.4 else round(r.gauss(0, 100), 3) if k < 0.7
                   else r.choice([1e-6, -1e-6, 1.0, -1.0, 0.5, 123456.789, -0.001]))
    return out


def generate(rng, tier):
    x = rng.random()
    cipher = "paillier" if x < 0.75 else "affine" if x < 0.985 else "rsa"
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3]) if cipher != "rsa" else 1):
        bits = rng.choice(PAILLIER_BITS) if rng.random() < 0.97 else rng.choice([1023, 1024, 1025])
        if cipher == "rsa":
            bits = rng.choice([1024, 1024, 1280])
        elif cipher == "affine":
            bits = rng.choice([192, 200, 255, 256, 257, 512, 1024, 2048])
        ops.append({"bits": bits, "plan": gen_plan(rng), "nums": gen_numbers(rng), "k": rng.choice([2, 3, -1, -4, 10])})
    return {"cipher": cipher, "ops": ops}


def shrink(spec):
    ops = spec["ops"]
    for i in range(len(ops)):
        if len(ops) > 1:
            yield dict(spec, ops=ops[:i] + ops[i + 1:])
    for i, o in enumerate(ops):
        p = o["plan"]
        for q in ([dict(p, prefix=p["prefix"][:j] + p["prefix"][j + 1:]) for j in range(len(p["prefix"]))]
                  + ([dict(p, fail=None)] if p["fail"] is not None else [])):
            yield dict(spec, ops=ops[:i] + [dict(o, plan=q)] + ops[i + 1:])
        if len(o["nums"]) > 1:
            yield dict(spec, ops=ops[:i] + [dict(o, nums=o["nums"][:1])] + ops[i + 1:])
        if spec["cipher"] == "paillier":
            for b in (128, 129):
                if b < o["bits"]:
                    yield dict(spec, ops=ops[:i] + [dict(o, bits=b)] + ops[i + 1:])


class Source:
    """Scripted entropy; what it draws uniformly comes from `rng`."""

    def __init__(self, rng, kernel):
        self.rng, self.k = rng, kernel
        self.arm({"prefix": [], "fail": None})

    def arm(self, plan, bits=1024):
        self.limit = 4000 + 20 * bits       # a generation takes a handful, or some hundreds if it draws candidates
        self.queue = [k for k, n in plan["prefix"] for _ in range(n)]
        self.fail = plan["fail"]
        self.fired = False
        self.i = 0
        self.log = []

    def __call__(self, n):
        i, self.i = self.i, self.i + 1
        if i > len(self.queue) + self.limit:
            raise env.SimBudget("%d uniform draws for one key" % self.limit)
        if self.fail is not None and i >= self.fail:
            self.fired = True
            self.k.count("entropy_failure")
            self.k.note("entropy", "failure")
            raise OSError(5, "entropy source failed")
        kind = self.queue[i] if i < len(self.queue) else "uniform"
        if kind == "zeros":
            b = bytes(n)
        elif kind == "ones":
            b = b"\xff" * n
        elif kind == "same" and self.log:
            b = (self.log[-1] * (n // max(1, len(self.log[-1])) + 1))[:n]
        elif kind == "alternate" and len(self.log) > 1:
            b = (self.log[-2] * (n // max(1, len(self.log[-2])) + 1))[:n]
        elif kind == "count":
            b = i.to_bytes(4, "big").rjust(n, b"\0")[-n:]
        elif kind == "low":
            b = bytes(max(0, n - 2)) + self.rng.randbytes(min(n, 2))
        elif kind == "high":
            b = b"\xff" * max(0, n - 2) + self.rng.randbytes(min(n, 2))
        else:
            b = self.rng.randbytes(n)
        if kind != "uniform":
            self.k.count("entropy_" + kind)
        self.k.note("entropy", kind, b)
        self.log.append(b)
        return b


SMALL = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71]


def is_prime(n):
    if n < 2:
        return False
    for p in SMALL:
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    for a in SMALL:
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def paillier(enc, o, bad, name):
    pub, priv = enc.get_key_pair()
    n, p, q = pub.n, priv.p, priv.q
    if n.bit_length() != o["bits"]:
        bad("key_size", "%s: %d bits requested, modulus has %d" % (name, o["bits"], n.bit_length()))
    if p == q or p * q != n or not is_prime(p) or not is_prime(q):
        bad("key_primes", "%s: modulus %d is not the product of two distinct primes %d, %d" % (name, n, p, q))
    if math.gcd(n, (p - 1) * (q - 1)) != 1:
        bad("key_factors", "%s: modulus shares a factor with its totient" % name)
    return n


def paillier_use(enc, o, bad, name):
    xs, k = o["nums"], o["k"]
    cs = [enc.encrypt(x) for x in xs]
    top = max(1.0, max(abs(x) for x in xs))

    def close(what, c, want, tol):
        got = enc.decrypt(c)
        if not abs(got - want) <= tol:
            bad("round_trip", "%s: %s should be %r, decrypts to %r" % (name, what, want, got))
    for x, c in zip(xs, cs):
        close("encrypt(%r)" % x, c, x, 1e-12 * top + 1e-15)
        close("encrypt(%r) * %d" % (x, k), c * k, x * k, 1e-12 * top + 1e-15 * abs(k))
        close("-encrypt(%r)" % x, -1 * c, -x, 1e-12 * top + 1e-15)
    close("encrypt(%r) + encrypt(%r)" % (xs[0], xs[1 % len(xs)]), cs[0] + cs[1 % len(xs)], xs[0] + xs[1 % len(xs)], 1e-11 * top)
    close("encrypt(%r) - encrypt(%r)" % (xs[0], xs[-1]), cs[0] - cs[-1], xs[0] - xs[-1], 1e-11 * top)
    close("encrypt(%r) + %r" % (xs[0], xs[-1]), cs[0] + xs[-1], xs[0] + xs[-1], 1e-11 * top)
    s = 0
    for c in cs:
        s = s + c
    close("sum of encryptions", s, sum(xs), 1e-11 * top)


def affine(enc, o, bad, name):
    key = enc.key
    if key.n.bit_length() != o["bits"] or math.gcd(key.a, key.n) != 1:
        bad("key_size", "%s: %d bits requested, modulus has %d, multiplier invertible: %s"
            % (name, o["bits"], key.n.bit_length(), math.gcd(key.a, key.n) == 1))
    return (key.a, key.b, key.n)


def affine_use(enc, o, bad, name):
    xs, k = o["nums"], o["k"]
    cs = [enc.encrypt(x) for x in xs]
    top = max(1.0, max(abs(x) for x in xs))

    def close(what, c, want, tol):
        got = enc.decrypt(c)
        if not abs(got - want) <= tol:
            bad("round_trip", "%s: %s should be %r, decrypts to %r" % (name, what, want, got))
    for x, c in zip(xs, cs):
        close("encrypt(%r)" % x, c, x, 1e-12 * top + 1e-15)
        close("encrypt(%r) * %d" % (x, k), c * k, x * k, 1e-11 * top)
    close("encrypt(%r) + encrypt(%r)" % (xs[0], xs[1 % len(xs)]), cs[0] + cs[1 % len(xs)], xs[0] + xs[1 % len(xs)], 1e-11 * top)
    close("encrypt(%r) - encrypt(%r)" % (xs[0], xs[-1]), cs[0] - cs[-1], xs[0] - xs[-1], 1e-11 * top)
    close("sum of encryptions", sum(cs), sum(xs), 1e-11 * top)


def rsa(enc, o, bad, name):
    e, d, n = enc.get_key_pair()
    if n.bit_length() != o["bits"]:
        bad("key_size", "%s: %d bits requested, modulus has %d" % (name, o["bits"], n.bit_length()))
    return (e, n)


def rsa_use(enc, o, bad, name):
    for x in o["nums"]:
        x = abs(int(x))
        if enc.decrypt(enc.encrypt(x)) != x:
            bad("round_trip", "%s: %d decrypts to %r" % (name, x, enc.decrypt(enc.encrypt(x))))
    x, y = 1234567, 7654321
    if enc.decrypt(enc.encrypt(x) * enc.encrypt(y) % enc.n) != x * y:
        bad("round_trip", "%s: products do not decrypt to products" % name)


CIPHERS = {"paillier": ("PaillierEncrypt", paillier, paillier_use), "affine": ("AffineEncrypt", affine, affine_use),
           "rsa": ("RsaEncrypt", rsa, rsa_use)}


def play(node, spec, ctx, out, variant):
    """One process: the history of generations and uses; returns the keys made."""
    import ml.secureprotol.encrypt as E
    cls, inspect, use = CIPHERS[spec["cipher"]]

    def bad(kind, msg):
        out.append((kind, msg))
    src = node.entropy_hook = Source(ctx.rng("entropy%s" % variant), node.kernel)
    enc = getattr(E, cls)()
    keys, old = [], None
    for i, o in enumerate(spec["ops"]):
        name = "generation %d of %s, %d bits" % (i, cls, o["bits"])
        src.arm(o["plan"] if variant == 0 else {"prefix": [], "fail": None}, o["bits"])
        for attempt in (0, 1):
            try:
                enc.generate_key(o["bits"])
                if src.fired:
                    bad("failure_swallowed", "%s: the entropy source failed and no error was raised" % name)
                    return keys
                break
            except Exception as e:
                if not src.fired:
                    raise
                ctx.stat("failed_generations")
                if not isinstance(e, (OSError, NotImplementedError, ValueError)):
                    ctx.stat("failure_as_" + type(e).__name__)
                # whatever is left must be no key, or the complete old one
                src.arm({"prefix": [], "fail": None})
                if old is None:
                    c = enc.encrypt(3)
                    if c is not None:
                        bad("partial_key", "%s: failed, but the cipher now encrypts" % name)
                        return keys
                else:
                    inspect(enc, old, bad, name + " (failed; the key before it)")
                    use(enc, old, bad, name + " (failed; the key before it)")
        src.arm({"prefix": [], "fail": None})
        k = inspect(enc, o, bad, name)
        if out:
            return keys
        use(enc, o, bad, name)
        if out:
            return keys
        keys.append(k)
        old = o
        ctx.stat("keys_" + spec["cipher"])
    return keys


def execute(spec, ctx):
    res = []
    for variant in (0, 1):
        out = []
        t = ctx.solo("keys%d" % variant, spec["seed"], lambda node: play(node, spec, ctx, out, variant),
                     name="keys")
        if ctx.bads:
            return
        if t.exc is not None:
            blame_harness(t)
            ctx.bad("error:" + type(t.exc).__name__, "%s\n%s" % (t.exc, t.tb))
            return
        for k, m in out:
            ctx.bad(k, m)
        if ctx.bads:
            return
        res.append(t.result)
    # the same process (same random module state) with other entropy
    if set(res[0]) & set(res[1]):
        ctx.bad("keys_not_independent", "the same key with two different entropy streams: %s" % (set(res[0]) & set(res[1])))
    for r in res:
        if len(set(r)) != len(r):
            ctx.bad("keys_not_independent", "the same key generated twice in a row: %s" % r)
    if spec["cipher"] == "paillier":
        for a in res[0]:
            for b in res[1]:
                if math.gcd(a, b) != 1:
                    ctx.bad("keys_not_independent", "keys %d and %d share a factor" % (a, b))
    if res[0]:
        ctx.key(spec)
    ctx.sample = "%s, %s bits, plans %s" % (spec["cipher"], [o["bits"] for o in spec["ops"]],
                                            [o["plan"] for o in spec["ops"]])
