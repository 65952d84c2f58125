"""C11: encryption modes are interchangeable over any call history."""
import math

from sim import compare, world
from sim.engine import blame_harness
from sim.props.common import maybe_profile, shape_of, shrink_scenario, states

CASES = {"quick": 4000, "thorough": 300000}
RULE = ("a case is a history of encrypt calls on one calculator (scalar, tuple, list and array rows; values that repeat, "
        "change sign, vanish; rows and row shapes that change; rows altered in place by the caller; the entropy source "
        "failing in the middle of a call, followed by a retry), every result decrypted; or one scenario trained under two "
        "modes; non-trivial when the calculator answered at least two calls, distinct by history")
REAL = ["ml/secureprotol/encrypt_mode.py", "ml/secureprotol/encrypt.py", "ml/secureprotol/fate_paillier.py",
        "ml/secureprotol/fixedpoint.py", "ml/secureprotol/gmpy_math.py", "computing/d_table.py",
        "both parties' trainers in the training cases"]


def gen_value(r, prev=None):
    k = r.random()
    if prev is not None and k < 0.25:
        return prev
    if prev is not None and k < 0.35:
        return -prev
    if k < 0.45:
        return 0
    if k < 0.55:
        return r.randint(-50, 50)
    if k < 0.62:
        return r.choice([1e-9, -1e-12, 1e-5]) * r.random()
    if k < 0.68:
        return round(r.gauss(0, 1e5), 2)
    if k < 0.72:
        return r.choice([1.0, -1.0, 0.5, 1e-300, -0.0])
    return r.gauss(0, 1)


SHAPES = ["scalar", "tuple", "tuple", "list", "ndarray", "npfloat"]


def gen_history(r, steady=False):
    n = r.randint(1, 5) if r.random() < 0.96 else r.choice([9, 17, 33])
    ragged = r.random() < 0.1
    shape, width = r.choice(SHAPES), r.randint(1, 3)
    keys = ["k%d" % i for i in range(n)] if r.random() < 0.5 else list(range(n))
    calls, prev = [], {}
    for c in range(r.randint(2, 9)):
        call = {"mutate": False, "fail": None, "scribble": False}
        if c and not steady:
            x = r.random()
            if x < 0.12:
                keys = keys[:]
                y = r.random()
                if y < 0.35:        # as many rows as before, but not the same ones
                    keys[r.randrange(len(keys))] = "new%d" % c
                elif y < 0.45:
                    keys = ["new%d_%d" % (c, i) for i in range(len(keys))]
                elif y < 0.7 and len(keys) > 1:
                    keys.pop(r.randrange(len(keys)))
                else:
                    keys.append("new%d" % c)
            elif x < 0.17:
                shape = r.choice(SHAPES)
            elif x < 0.22:
                width = r.randint(1, 4)
            elif x < 0.27:
                keys = keys[::-1]
            elif x < 0.4 and shape in ("list", "ndarray"):
                call["mutate"] = True
            if r.random() < 0.1:
                call["scribble"] = True
        rows = []
        for k in keys:
            p = prev.get(k, [])
            w = 1 if shape in ("scalar", "npfloat") else width + (ragged and r.random() < 0.5)
            rows.append([gen_value(r, p[i] if i < len(p) else None) for i in range(w)])
        if shape == "ndarray":
            rows = [[float(v) for v in x] for x in rows]
        if call["mutate"] and any(k not in prev or len(prev[k]) != len(x) for k, x in zip(keys, rows)):
            call["mutate"] = False
        prev = dict(zip(keys, rows))
        call.update(keys=keys, rows=rows, shape=shape)
        if r.random() < 0.2:
            call["fail"] = r.randrange(0, 2 + 2 * len(keys))
        calls.append(call)
    return calls


def generate(rng, tier):
    if rng.random() < 0.15:
        sc = world.gen_scenario(rng)
        return {"kind": "train", "sc": sc, "mode": rng.choice(["fast", "balance"]), "rate": rng.choice([0, 0.2, 0.5, 0.9, 1])}
    if rng.random() < 0.04:
        return {"kind": "rate", "calls": 150, "rate": rng.choice([0.1, 0.3, 0.5, 0.8])}
    return {"kind": "history", "mode": rng.choice(["strict", "fast", "fast", "balance", "balance"]),
            "rate": rng.choice([0, 0.3, 0.5, 0.7, 1]), "bits": rng.choice([256, 256, 288, 384, 512]),
            "calls": gen_history(rng, rng.random() < 0.3)}


def shrink(spec):
    if spec["kind"] == "train":
        for sc in shrink_scenario(spec["sc"]):
            yield dict(spec, sc=sc)
    elif spec["kind"] == "history":
        c = spec["calls"]
        for i in range(len(c)):
            yield dict(spec, calls=c[:i] + c[i + 1:])
        for i in range(len(c)):
            if c[i]["fail"] is not None:
                yield dict(spec, calls=c[:i] + [dict(c[i], fail=None)] + c[i + 1:])
        for n in (1, 2):
            if any(len(x["keys"]) > n for x in c):
                yield dict(spec, calls=[dict(x, keys=x["keys"][:n], rows=x["rows"][:n]) for x in c])
        for w in (1, 2):
            if any(len(y) > w for x in c for y in x["rows"]):
                yield dict(spec, calls=[dict(x, rows=[y[:w] for y in x["rows"]]) for x in c])
        if any(v not in (0, 1, -1) for x in c for y in x["rows"] for v in y):
            yield dict(spec, calls=[dict(x, rows=[[(v > 0) - (v < 0) for v in y] for y in x["rows"]]) for x in c])


def make_row(shape, vals):
    import numpy as np
    if shape == "scalar":
        return vals[0]
    if shape == "npfloat":
        return np.float64(vals[0])
    if shape == "tuple":
        return tuple(vals)
    if shape == "list":
        return list(vals)
    return np.array(vals, dtype=float)


def cells(row):
    if hasattr(row, "public_key") or isinstance(row, (int, float)):
        return [row]
    return list(row)


def kind_of(row):
    if isinstance(row, (tuple, list)):
        return type(row).__name__
    return "ndarray" if getattr(row, "ndim", 0) else "scalar"


class Entropy:
    """Counts draws and fails a chosen one."""

    def __init__(self, kernel):
        self.k = kernel
        self.n, self.fail = 0, None
        self.fired = False

    def __call__(self, n):
        self.n += 1
        if self.fail is not None and self.n > self.fail:
            self.fired = True
            self.k.count("entropy_failure")
            self.k.note("entropy failure", self.n)
            raise OSError(5, "entropy source failed")
        return None


def calculator(node, bits, mode, rate):
    from ml.secureprotol.encrypt import PaillierEncrypt
    from ml.secureprotol.encrypt_mode import EncryptModeCalculator
    enc = PaillierEncrypt()
    enc.generate_key(bits)
    return enc, EncryptModeCalculator(enc, mode, rate)


def residue(c, n):
    return c.ciphertext(be_secure=False) % n


def play(node, spec, ctx, out):
    from computing.d_table import DTable
    enc, calc = calculator(node, spec["bits"], spec["mode"], spec["rate"])
    ent = node.entropy_hook = Entropy(node.kernel)
    n = enc.public_key.n
    seen = {}
    top = 1e-300
    table, raw = None, None
    fresh = spec["mode"] == "strict" or (spec["mode"] == "balance" and spec["rate"] >= 1)
    for ci, call in enumerate(spec["calls"]):
        if call["mutate"] and raw is not None and set(raw) == set(call["keys"]) and \
                all(kind_of(raw[k]) in ("list", "ndarray") and len(raw[k]) == len(v)
                    for k, v in zip(call["keys"], call["rows"])):
            for k, v in zip(call["keys"], call["rows"]):      # the caller reuses its row objects
                for i, x in enumerate(v):
                    raw[k][i] = x
            ctx.stat("rows_altered_in_place")
        else:
            raw = {k: make_row(call["shape"], v) for k, v in zip(call["keys"], call["rows"])}
            table = DTable(True, list(raw.items()))
        want = {k: [float(v) for v in cells(r)] for k, r in raw.items()}
        shapes = {k: (kind_of(r), len(cells(r))) for k, r in raw.items()}
        top = max([top] + [abs(v) for r in want.values() for v in r])
        ent.n, ent.fail, ent.fired = 0, call["fail"], False
        tries = 0
        while True:
            try:
                res = calc.encrypt(table)
                break
            except OSError:
                if not ent.fired:
                    raise
                ent.fail = None
                ent.n = 0
                tries += 1
        if ent.fired and not tries:
            out.append(("failure_swallowed", "call %d: the entropy source failed and no error was raised" % ci))
            return
        ent.fail = None
        if {k: [float(v) for v in cells(r)] for k, r in table.collect()} != want:
            out.append(("input_altered", "call %d altered its input" % ci))
            return
        got = dict(res.collect())
        if set(got) != set(want) or res.count() != len(want):
            out.append(("rows_differ", "call %d (%s, rate %s): rows %s in, %s out" % (ci, spec["mode"], spec["rate"],
                        sorted(map(str, want)), sorted(map(str, got)))))
            return
        for k, row in got.items():
            if (kind_of(row), len(cells(row))) != shapes[k]:
                out.append(("structure_differs", "call %d row %r: %s in, %s out" % (ci, k, shapes[k],
                                                                                 (kind_of(row), len(cells(row))))))
                return
            for i, (c, w) in enumerate(zip(cells(row), want[k])):
                v = enc.decrypt(c)
                if not abs(v - w) <= 1e-12 * top + 1e-40:
                    out.append(("value_differs", "call %d (%s, rate %s) row %r: %r encrypted, decrypts to %r"
                                % (ci, spec["mode"], spec["rate"], k, w, v)))
                    return
                if fresh:
                    rv = residue(c, n)
                    if rv in seen or rv in (1, n - 1):
                        out.append(("blinding_reused", "call %d row %r: blinding equals that of call %s" % (ci, k, seen.get(rv))))
                        return
                    seen[rv] = (ci, k, i)
        if call["scribble"]:           # the caller consumes what it was given
            for k, row in got.items():
                if isinstance(row, list):
                    row.clear()
                elif getattr(row, "ndim", 0):
                    row[:] = None
            res.destroy() if hasattr(res, "destroy") else None
            ctx.stat("results_consumed")
        ctx.stat("calls_" + spec["mode"])
        node.kernel.note("call", ci, ent.n, sorted((str(k), str(v)) for k, v in want.items()))
    ctx.stat("values", len(seen))


def play_rate(node, spec, ctx, out):
    """Balance mode re-encrypts about the stated fraction of calls, every value of them."""
    from computing.d_table import DTable
    enc, calc = calculator(node, 256, "balance", spec["rate"])
    n = enc.public_key.n
    prev, fresh = None, 0
    r = ctx.rng("rate")
    for ci in range(spec["calls"]):
        rows = {k: (r.gauss(0, 1), r.gauss(0, 1)) for k in range(2)}
        got = dict(calc.encrypt(DTable(True, list(rows.items()))).collect())
        res = [residue(c, n) for k in sorted(got) for c in got[k]]
        for k in rows:
            for a, b in zip(rows[k], got[k]):
                if abs(enc.decrypt(b) - a) > 1e-9:
                    out.append(("value_differs", "call %d row %r: %r decrypts to %r" % (ci, k, a, enc.decrypt(b))))
                    return
        if prev is not None:
            fresh += sum(a not in prev for a in res) / len(res)
        prev = set(res)
    m = spec["calls"] - 1
    sd = math.sqrt(spec["rate"] * (1 - spec["rate"]) * m)
    # an update by differences can change a residue too (aligning exponents), so only too few is wrong
    if fresh < spec["rate"] * m - 6 * sd - 1:
        out.append(("rate", "%d of %d calls re-encrypted at rate %s" % (fresh, m, spec["rate"])))
    ctx.stat("rate_calls", m)


def execute(spec, ctx):
    if spec["kind"] == "train":
        return training(spec, ctx)
    out = []
    fn = play if spec["kind"] == "history" else play_rate
    t = ctx.solo("calculator", spec["seed"], lambda node: fn(node, spec, ctx, out))
    if t.exc is not None and not ctx.bads:
        blame_harness(t)
        ctx.bad("error:" + type(t.exc).__name__, "%s\n%s" % (t.exc, t.tb))
    for k, m in out:
        ctx.bad(k, m)
    if len(spec["calls"] if spec["kind"] == "history" else [0, 0]) > 1:
        ctx.key(spec)
    ctx.sample = "%s mode rate %s: %s calls" % (spec.get("mode", "balance"), spec["rate"],
                                                len(spec["calls"]) if spec["kind"] == "history" else spec["calls"])


def training(spec, ctx):
    sc = spec["sc"]
    a = dict(sc, params=dict(sc["params"], mode="strict"))
    b = dict(sc, params=dict(sc["params"], mode=spec["mode"], re_rate=spec["rate"]))
    prog = [("fit", "train"), ("predict", "train")]
    fa = ctx.fed("strict", a, program=prog)
    if not ctx.finished(fa, "strict mode"):
        return
    fb = ctx.fed(spec["mode"], b, maybe_profile(ctx, "other", 0.4), program=prog)
    if not ctx.finished(fb, "%s mode" % spec["mode"]):
        return
    st = {}
    if compare.same_model(ctx.bad, a, states(fa), b, states(fb), "%s mode at rate %s" % (spec["mode"], spec["rate"]), st):
        if not ctx.bads:
            compare.same_predictions(ctx.bad, fa.last(0, "predict")["pred"], fb.last(0, "predict")["pred"],
                                     "%s mode" % spec["mode"])
    for k, v in st.items():
        ctx.stat(k, v)
    ctx.stat("trainings_compared")
    ctx.key(spec)
    ctx.sample = "%s trained in strict and %s mode" % (shape_of(sc), spec["mode"])
