"""C06: the guest discloses no label, gradient or score to a host."""
import json
import math
import random as _random
import struct

from sim import ref, wire, world
from sim.props.common import maybe_profile, shape_of, shrink, states, tree_key  # noqa

CASES = {"quick": 700, "thorough": 30000}
RULE = ("a case is a random scenario trained and used for prediction (under a random network), everything each host "
        "received being (a) searched, decoded and as raw bytes, for labels, gradients, hessians, sums, gains, weights, "
        "scores, probabilities, losses and private key material, (b) checked for ciphertexts without blinding or with "
        "repeated, short or predictable blinding, and (c) compared with a twin run whose labels are mirrored, flipped, "
        "renamed or permuted within indistinguishable rows; distinct by the model and the twin kind")
TWINS = ["mirror", "flip", "rename", "pair", "entropy"]


def generate(rng, tier):
    twin = rng.choice(TWINS)
    over = {}
    if rng.random() < 0.25:
        over["subsample"] = rng.choice([0.5, 0.7])
    if rng.random() < 0.25:
        over.update(n_iter_no_change=True, tol=rng.choice([1e-4, 0.05, 0.5]))
    task = None
    if twin == "mirror":
        task = rng.choice(["lse", "lse", "huber", "fair", "log_cosh"])
    elif twin == "flip":
        task = "binary"
        over.update(num_trees=1, n_iter_no_change=False)
    elif twin == "rename":
        task = rng.choice(["binary", "multi"])
    sc = world.gen_scenario(rng, task=task, big=True, **over)
    if twin == "pair":
        plant_pairs(rng, sc)
    return {"sc": sc, "twin": twin}


def plant_pairs(rng, sc):
    """Make some rows indistinguishable by their features while their labels differ."""
    n = sc["n"]
    idx = list(range(n))
    rng.shuffle(idx)
    for a, b in zip(idx[0::2], idx[1::2]):
        if rng.random() < 0.6:
            for p in sc["parties"]:
                for c in p["cols"]:
                    c[b] = c[a]


def twin_scenario(sc, twin):
    s = json.loads(json.dumps(sc))
    lab = s["labels"]
    if twin == "mirror":
        s["labels"] = [-y for y in lab]
    elif twin == "flip":
        u = sorted(set(lab))
        if len(u) != 2:
            return None
        s["labels"] = [u[1] if y == u[0] else u[0] for y in lab]
    elif twin == "rename":
        u = sorted(set(lab))
        m = {y: "nm%02d_%s" % (i, "qz"[i % 2] * 5) for i, y in enumerate(u)}
        s["labels"] = [m[y] for y in lab]
    return s


def execute(spec, ctx):
    sc, twin = spec["sc"], spec["twin"]
    rng = ctx.rng("batch")
    batch = world.gen_batch(rng, sc)
    prog = [("fit", "train"), ("predict", batch), ("predict", "train")]
    if twin == "pair":      # keys identify training rows throughout
        prog = [("fit", "train"), ("predict", "train")]
    f = ctx.fed("run", sc, maybe_profile(ctx, "run", 0.3), program=prog)
    if not ctx.finished(f, "training and prediction"):
        return
    conv = wire.conversation(f)
    down = [(c, m) for c, d, ms in conv if d == "down" for m in ms]
    key = secret_key(f)
    atoms = [(c, i, list(wire.walk(m.obj))) for i, (c, m) in enumerate(down)]
    ctx.stat("messages_searched", len(down))
    ctx.stat("atoms_searched", sum(len(a) for _, _, a in atoms))
    search(ctx, sc, f, batch, atoms, key)
    blinding(ctx, sc, f, down, atoms, key)
    if not ctx.bads:
        twins(ctx, sc, f, twin, prog, batch, down)
    ctx.stat("twin_" + twin)
    ctx.key(twin, tree_key(f))
    ctx.sample = "%s; twin %s; %d messages to hosts searched" % (shape_of(sc), twin, len(down))


# --------------------------------------------------------------------------
# (a) search

class Key:
    pass


def secret_key(f):
    """The guest's key pair as plain integers, or None."""
    e = getattr(f.parties[0].model, "encrypter", None)
    pk, sk = getattr(e, "public_key", None), getattr(e, "privacy_key", None)
    k = Key()
    k.n = getattr(pk, "n", None)
    k.p = getattr(sk, "p", None)
    k.q = getattr(sk, "q", None)
    if not all(wire.is_int(x) for x in (k.n, k.p, k.q)) or k.p * k.q != k.n:
        return None
    p, q = k.p, k.q
    lam = (p - 1) * (q - 1) // math.gcd(p - 1, q - 1)
    k.lam = lam
    k.secrets = {p, q, p * p, q * q, lam, (p - 1) * (q - 1), p + q, p - 1, q - 1, p - q, q - p}
    for v in vars(sk).values():
        if wire.is_int(v):
            k.secrets.add(v)
    for a, m in ((q, p), (p, q), (lam, k.n), ((p - 1) * (q - 1), k.n), (k.n, lam), (k.n, (p - 1) * (q - 1))):
        try:
            k.secrets.add(pow(a, -1, m))
        except ValueError:
            pass
    k.secrets = {v for v in k.secrets if v.bit_length() > 40}
    k.secrets -= {k.n, k.n + 1, k.n * k.n, k.n // 3 - 1}
    return k


def simple(v):
    return v != v or math.isinf(v) or abs(v) < 1e-7 or (abs(v) < 4096 and float(v * 16).is_integer())


def bucket(v):
    return "%.9e" % v


def sensitive(sc, f, batch):
    """Every secret quantity of the run, by name."""
    st = states(f)
    out = {}

    def add(name, v):
        try:
            v = float(v)
        except (TypeError, ValueError):
            return
        if not simple(v):
            out.setdefault(bucket(v), (name, v))
            out.setdefault(bucket(-v), ("minus " + name, -v))
    M = ref.Model(sc, st)
    loss = ref.Loss(sc, M.classes)
    P = sc["params"]
    lam, lr = P["reg_lambda"], P["learning_rate"]
    for y in sc["labels"]:
        if not isinstance(y, str):
            add("label", y)
    for v in M.init:
        add("initial score", v)
    for v in st[0]["history"]:
        add("loss", v)
    cols = ref.train_cols(sc)
    vals = [ref.row_values(cols, j) for j in range(sc["n"])]
    F = [list(M.init) for _ in vals]
    for t in range(len(M.trees[0])):
        c = t % M.dim
        if c == 0:
            gh = [loss.grad_hess(loss.target(y), x) for y, x in zip(sc["labels"], F)]
            if sc["task"] == "classification":
                for x in F:
                    for v in (ref.softmax(x) if M.dim > 1 else [ref.sigmoid(x[0]), 1 - ref.sigmoid(x[0])]):
                        add("probability", v)
        g, h = [x[c][0] for x in gh], [x[c][1] for x in gh]
        for v in g:
            add("gradient", v)
        for v in h:
            add("hessian", v)
        todo = [(0, list(range(len(vals))))]
        while todo:
            nid, R = todo.pop()
            nd = M.node(t, nid)
            G, H = sum(g[j] for j in R), sum(h[j] for j in R)
            add("node gradient sum", G)
            add("node hessian sum", H)
            add("node score", G * G / (H + lam))
            add("node weight", -G / (H + lam))
            add("node weight", lr * -G / (H + lam))
            add("node mean", G / len(R))
            for p in range(len(cols)):
                for col_f, bs in enumerate(st[p]["bins"]):
                    for b in bs[:12]:
                        L = [j for j in R if ref.zeroed(cols[p][col_f][j]) <= b]
                        if not L or len(L) == len(R):
                            continue
                        gl, hl = sum(g[j] for j in L), sum(h[j] for j in L)
                        for v in (gl, G - gl):
                            add("gradient sum of a split", v)
                        for v in (hl, H - hl):
                            add("hessian sum of a split", v)
                        add("gain", gl * gl / (hl + lam) + (G - gl) ** 2 / (H - hl + lam) - G * G / (H + lam))
                        add("child weight", -gl / (hl + lam))
                        add("child weight", -(G - gl) / (H - hl + lam))
            if nd["leaf"]:
                add("leaf weight", nd["weight"])
                for j in R:
                    F[j][c] += lr * nd["weight"]
            else:
                L = [j for j in R if M.decide(t, nid, vals[j])]
                S = set(L)
                todo += [(nd["left"], L), (nd["right"], [j for j in R if j not in S])]
        for x in F:
            add("boosted score", x[c])
        for nd in M.trees[0][t]["nodes"]:
            add("weight", nd["weight"])
    for r in [r for o, r in f.parties[0].log if o == "predict"]:
        for v in r["pred"].values():
            add("predicted score", v[2])
            if not isinstance(v[1], str):
                add("prediction", v[1])
            for d in v[3].values():
                add("probability", d)
    return out


def search(ctx, sc, f, batch, atoms, key):
    try:
        secret = sensitive(sc, f, batch)
    except (IndexError, KeyError, ValueError) as e:
        ctx.bad("unwalkable_trees", "the parties' trees cannot be walked: %r" % e)
        return
    kl = sc["params"]["key_length"]
    lim = wire.cipher_limit(kl)
    names = {str(y) for y in sc["labels"] if isinstance(y, str) and len(y) >= 2 and not y.isdigit()}
    odd = 0
    for conn, i, al in atoms:
        for path, owner, v in al:
            where = "message %d to host %d at %s%s" % (i, conn + 1, owner or "", path)
            if owner and ("Private" in owner or "FixedPoint" in owner):
                ctx.bad("key_or_plaintext_object", "%s: %s sent to a host" % (where, owner))
            if isinstance(v, float):
                if bucket(v) in secret:
                    ctx.bad("clear_value", "%s: %r is a %s" % (where, v, secret[bucket(v)][0]))
                elif not simple(v):
                    odd += 1
            elif wire.is_int(v) and v.bit_length() > 40:
                if key is not None:
                    if v in key.secrets or (v.bit_length() <= 2 * kl and 1 < math.gcd(v, key.n) < key.n):
                        ctx.bad("private_key", "%s: integer that yields the private key" % where)
                if v.bit_length() <= lim and key is not None and v != key.n:
                    for e in range(0, 48):
                        for w in (v, v - key.n):
                            try:
                                x = w / 16 ** e
                            except OverflowError:
                                continue
                            if bucket(x) in secret and e > 6 and abs(w) > 1 << 30:
                                ctx.bad("clear_value", "%s: fixed-point %s %r" % (where, secret[bucket(x)][0], x))
            elif isinstance(v, str):
                if v in names:
                    ctx.bad("clear_value", "%s: class label %r" % (where, v))
                if "." in v:
                    try:
                        x = float(v)
                    except ValueError:
                        continue
                    if bucket(x) in secret:
                        ctx.bad("clear_value", "%s: text %r is a %s" % (where, v, secret[bucket(x)][0]))
            elif isinstance(v, (bytes, bytearray)):
                raw_search(ctx, bytes(v), secret, names, where)
            if ctx.bads:
                return
    for c in f.k.conns:
        raw_search(ctx, bytes(c.down.tap), secret, names, "bytes sent to host %d" % (c.id + 1))
    if odd and not ctx.bads:
        scrambled(ctx, sc, f, batch)


def raw_search(ctx, data, secret, names, where):
    for k, (name, v) in list(secret.items())[:1500]:
        b = struct.pack(">d", v)
        if data.find(b) >= 0 or data.find(b[::-1]) >= 0 and not bytes(2) in b:
            ctx.bad("clear_value", "%s contain %r, a %s" % (where, v, name))
            return
    for s in names:
        if len(s) >= 6 and data.find(s.encode()) >= 0:
            ctx.bad("clear_value", "%s contain the class label %r" % (where, s))
            return


def odd_floats(f):
    return sorted({v for c, d, ms in wire.conversation(f) if d == "down" for m in ms
                   for _, _, v in wire.walk(m.obj) if isinstance(v, float) and not simple(v)})


def scrambled(ctx, sc, f, batch):
    """A clear real number that changes with the labels is derived from them."""
    s = json.loads(json.dumps(sc))
    ctx.rng("scramble").shuffle(s["labels"])
    if s["labels"] == sc["labels"]:
        return
    g = ctx.fed("scrambled", s, program=[("fit", "train"), ("predict", batch), ("predict", "train")])
    if g.outcome != "ok":
        return
    a, b = odd_floats(f), odd_floats(g)
    if a != b:
        ctx.bad("label_dependent_value", "real numbers sent to hosts depend on the labels: %s / %s" % (a[:5], b[:5]))


# --------------------------------------------------------------------------
# (b) blinding

def ciphertexts(al, lim, n):
    return [(p, v) for p, o, v in al if wire.is_int(v) and v.bit_length() > 40 and v != n and v != n * n
            and v != n + 1 and not p.endswith((".max_int", ".exponent", ".n", ".g", ".nsquare"))]


def blinding(ctx, sc, f, down, atoms, key):
    if key is None:
        ctx.stat("no_key")
        return
    P = sc["params"]
    n = key.n
    lim = wire.cipher_limit(P["key_length"])
    strict = P["mode"] == "strict" or (P["mode"] == "balance" and P["re_rate"] >= 1)
    inv = pow(n, -1, key.lam)
    ever = {}
    count = 0
    for conn, i, al in atoms:
        seen = {}
        single = isinstance(down[i][1].obj, list)
        for path, v in ciphertexts(al, lim, n):
            where = "message %d to host %d at %s" % (i, conn + 1, path)
            count += 1
            r = v % n
            if r == 1 or r == 0:
                ctx.bad("unblinded", "%s: encryption without blinding" % where)
                return
            if r in seen:
                ctx.bad("repeated_blinding", "%s: same blinding as %s" % (where, seen[r]))
                return
            seen[r] = where
            if strict or single:
                if (conn, r) in ever:
                    ctx.bad("repeated_blinding", "%s: same blinding as %s, in %s mode"
                            % (where, ever[(conn, r)], P["mode"]))
                    return
                ever[(conn, r)] = where
            root = pow(r, inv, n)
            if min(root, n - root).bit_length() < P["key_length"] - 64:
                ctx.bad("weak_blinding", "%s: blinding factor has only %d bits" % (where, root.bit_length()))
                return
    ctx.stat("ciphertexts", count)


# --------------------------------------------------------------------------
# (c) twins

def twins(ctx, sc, f, twin, prog, batch, down):
    P = sc["params"]
    if twin in ("mirror", "flip", "rename"):
        s = twin_scenario(sc, twin)
        if s is None:
            return
        # same rows to predict, so that only the labels differ, also those of the batch
        m = dict(zip(map(str, sc["labels"]), s["labels"]))
        other = dict(batch, labels=[m[str(y)] for y in batch["labels"]])
        g = ctx.fed("twin", s, program=[(op, other if b is batch else b) for op, b in prog])
        if not ctx.finished(g, "twin with %s labels" % twin):
            return
        if twin == "rename":
            m = dict(zip(sorted(set(sc["labels"])), sorted(set(s["labels"]))))
            if [m[c] for c in states(f)[0]["classes"]] != list(states(g)[0]["classes"]):
                return
            for a, b in zip(f.k.conns, g.k.conns):
                if bytes(a.down.tap) != bytes(b.down.tap):
                    ctx.bad("depends_on_labels", "renaming the classes changes what host %d receives: %s" % (
                        a.id + 1, wire.first_difference(wire.clears(f, ("down",)), wire.clears(g, ("down",)))))
                    return
            return
        a, b = wire.clears(f, ("down",)), wire.clears(g, ("down",))
        if a != b:
            ctx.bad("depends_on_labels", "%s labels change the clear part of what a host receives: %s"
                    % (twin, wire.first_difference(a, b)))
    elif twin == "pair":
        pairs(ctx, sc, down)
    elif twin == "entropy":
        entropy(ctx, sc, f, prog)


def pairs(ctx, sc, down):
    """Rows with equal features everywhere must be treated alike whatever their labels."""
    n = sc["n"]
    keys = sc["keys"] or list(range(n))
    groups = {}
    for j in range(n):
        sig = tuple(ref.zeroed(c[j]) for p in sc["parties"] for c in p["cols"])
        groups.setdefault(sig, []).append(j)
    groups = [g for g in groups.values() if len(g) > 1 and len({sc["labels"][j] for j in g}) > 1]
    kl = sc["params"]["key_length"]
    for i, (conn, m) in enumerate(down):
        try:
            t = wire.rows(m.obj)
        except wire.Unparsed:
            continue
        if not all(k in keys for k in t):
            continue
        for g in groups:
            ctx.stat("pairs_compared")
            v = [wire.clear(t[keys[j]], kl) if keys[j] in t else None for j in g]
            if any(x != v[0] for x in v):
                ctx.bad("distinguishes_rows", "message %d to host %d tells apart rows %s with equal features but "
                        "labels %s: %.400s" % (i, conn + 1, [keys[j] for j in g], [sc["labels"][j] for j in g], v))
                return


def entropy(ctx, sc, f, prog):
    """Same key, same pseudo-random state, other entropy afterwards: all blinding must change."""
    alt = _random.Random(ctx.rng("entropy").getrandbits(60))

    def before(fed):
        fed.nodes[0].entropy_hook = lambda n: alt.randbytes(n) if any(c.down.tap for c in fed.k.conns) else None
    g = ctx.fed("entropy", sc, program=prog, before=before)
    if not ctx.finished(g, "run with other entropy after key generation"):
        return
    ka, kb = secret_key(f), secret_key(g)
    if ka is None or kb is None or ka.n != kb.n:
        ctx.stat("entropy_twin_skipped")
        return
    lim = wire.cipher_limit(sc["params"]["key_length"])

    def residues(x):
        return {v % ka.n for c, d, ms in wire.conversation(x) if d == "down" for m in ms
                for _, v in ciphertexts(list(wire.walk(m.obj)), lim, ka.n)}
    both = residues(f) & residues(g)
    if both:
        ctx.bad("predictable_blinding", "%d blinding factors do not depend on the entropy source" % len(both))
