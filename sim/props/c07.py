"""C07: feature values and thresholds never leave their owner."""
import json
import struct

from sim import ref, wire, world
from sim.props.common import maybe_profile, shape_of, shrink, states, tree_key  # noqa
from sim.props.c06 import bucket, simple

CASES = {"quick": 800, "thorough": 30000}
RULE = ("a case is a random scenario trained and used for prediction (under a random network); everything sent in both "
        "directions is searched, decoded and raw, for feature values, thresholds, boundaries, names and row ids, host "
        "answers are compared with what the protocol allows, and a twin run whose feature values, names and ids are "
        "replaced (same order) or whose host has a duplicated column must produce the same bytes for the others; "
        "distinct by model and twin kind")
TWINS = ["remap", "remap", "remap", "duplicate", "none"]


def generate(rng, tier):
    twin = rng.choice(TWINS)
    over = {}
    if twin != "duplicate" and rng.random() < 0.25:
        over["subsample"] = rng.choice([0.5, 0.7])
    if rng.random() < 0.2:
        over.update(n_iter_no_change=True, tol=rng.choice([1e-4, 0.05]))
    hosts = rng.choice([2, 2, 3]) if twin == "duplicate" else None
    return {"sc": world.gen_scenario(rng, big=True, hosts=hosts, **over), "twin": twin}


def remap_values(rng, values):
    """A random order-, sign- and zero-preserving replacement of column values."""
    v = sorted({x for x in values if abs(x) >= ref.FZ})
    out = {}
    for sign, side in ((1, [x for x in v if x > 0]), (-1, [-x for x in v if x < 0][::-1])):
        cur = 0.0
        for x in side:
            cur += rng.choice([0.013, 0.5, 1.0, 7.77, 1000.0]) * (1 + rng.random())
            out[sign * x] = sign * cur
    return out


def remap_scenario(rng, sc, batch):
    s, b = json.loads(json.dumps(sc)), json.loads(json.dumps(batch))
    signs = rng.random() < 0.5
    for p, party in enumerate(s["parties"]):
        for c, col in enumerate(party["cols"]):
            both = list(col) + list(batch["cols"][p][c])
            if any(0 < abs(x) < 2 * ref.FZ for x in both):
                continue
            if not signs and all(both) and len({x > 0 for x in both}) == 1:     # move a column across zero
                cur, m = 1.0, {}
                for x in sorted(set(both)):
                    cur += rng.choice([0.013, 0.5, 1.0, 7.77, 1000.0]) * (1 + rng.random())
                    m[x] = cur
                if both[0] > 0:
                    m = {x: y - cur - 1.0 for x, y in m.items()}
            else:
                m = remap_values(rng, both)
            party["cols"][c] = [m.get(x, 0.0) for x in col]
            b["cols"][p][c] = [m.get(x, 0.0) for x in batch["cols"][p][c]]
        party["names"] = ["other_%s_%d" % ("xyz"[i % 3] * (1 + p), 7 * i) for i in range(len(party["cols"]))]
    s["id_tag"] = "uid%d-"
    return s, b, signs


def execute(spec, ctx):
    sc, twin = spec["sc"], spec["twin"]
    batch = world.gen_batch(ctx.rng("batch"), sc)
    prog = [("fit", "train"), ("predict", batch), ("predict", "train")]
    f = ctx.fed("run", sc, maybe_profile(ctx, "run", 0.3), program=prog)
    if not ctx.finished(f, "training and prediction"):
        return
    conv = wire.conversation(f)
    msgs = [m for c, d, ms in conv for m in ms]
    ctx.stat("messages_searched", len(msgs))
    search(ctx, sc, f, batch, msgs)
    if not ctx.bads:
        answers(ctx, sc, f)
    if not ctx.bads:
        forwarded(ctx, sc, conv)
    if not ctx.bads and twin != "none":
        twins(ctx, sc, f, twin, batch)
    ctx.stat("twin_" + twin)
    ctx.key(twin, tree_key(f))
    ctx.sample = "%s; twin %s; %d messages searched" % (shape_of(sc), twin, len(msgs))


# --------------------------------------------------------------------------

def search(ctx, sc, f, batch, msgs):
    st = states(f)
    vals = {}
    for p, party in enumerate(sc["parties"]):
        for c in range(len(party["cols"])):
            for x in list(party["cols"][c]) + list(batch["cols"][p][c]) + list(st[p]["bins"][c]):
                if not simple(x):
                    vals.setdefault(bucket(x), (p, c, float(x)))
    names = {nm: "feature name" for party in sc["parties"] for nm in party["names"]}
    for p in range(len(sc["parties"])):
        for j in range(max(sc["n"], batch["m"])):
            names["rowid_%d_%d" % (p, j)] = "row identifier"
    marks = [b"rowid_"] + [nm.encode() for party in sc["parties"] for nm in party["names"]]
    placeholders = {}
    for m in msgs:
        where = "message %s of host %d" % ("to" if m.dir == "down" else "from", m.conn + 1)
        for path, owner, v in wire.walk(m.obj):
            if isinstance(v, float) and bucket(v) in vals:
                ctx.bad("feature_value", "%s at %s%s: %r is a value of party %d's feature %d"
                        % (where, owner or "", path, v, vals[bucket(v)][0], vals[bucket(v)][1]))
            elif isinstance(v, str):
                if v in names:
                    ctx.bad("name", "%s at %s%s: %s %r" % (where, owner or "", path, names[v], v))
                elif "." in v:
                    try:
                        x = float(v)
                    except ValueError:
                        continue
                    if bucket(x) in vals:
                        ctx.bad("feature_value", "%s at %s: text %r is a feature value" % (where, path, v))
            if path.endswith(("bid", "split_point")) and v is not None and v != -1:
                placeholders.setdefault((m.dir, owner, path.split(".")[-1]), set()).add(repr(v))
            if ctx.bads:
                return
    for k, s in placeholders.items():
        if len(s) > 1:
            ctx.bad("bin_index", "%s.%s carries split positions: %s" % (k[1], k[2], sorted(s)[:8]))
            return
    ctx.stat("values_searched", len(vals))
    for c in f.k.conns:
        for d, p in (("to", c.down), ("from", c.up)):
            data = bytes(p.tap)
            for mk in marks:
                if data.find(mk) >= 0:
                    ctx.bad("name", "bytes %s host %d contain %r" % (d, c.id + 1, mk))
                    return
            for q, col, x in list(vals.values())[:1000]:
                b = struct.pack(">d", x)
                if data.find(b) >= 0 or (data.find(b[::-1]) >= 0 and bytes(2) not in b):
                    ctx.bad("feature_value", "bytes %s host %d contain %r, a value of party %d's feature %d"
                            % (d, c.id + 1, x, q, col))
                    return


def answers(ctx, sc, f):
    """What hosts send back is what the protocol allows and no more."""
    P = sc["params"]
    kl = P["key_length"]
    lim = wire.cipher_limit(kl)
    for h in range(len(sc["parties"]) - 1):
        try:
            dim, trees, rd = wire.training(f, h, P)
        except (wire.Unparsed, AttributeError, TypeError, ValueError) as e:
            ctx.stat("unparsed")
            continue
        site = "host.%d" % sc["idx"][h]
        for t, tr in enumerate(trees):
            for lv in tr["levels"]:
                for (nodes, stats, ans, fin) in lv["batches"]:
                    for path, owner, v in wire.walk(stats):
                        small = wire.is_int(v) and v.bit_length() <= lim and not path.endswith(
                            (".exponent", ".n", ".g", ".max_int", ".nsquare"))
                        if small or isinstance(v, float) or (isinstance(v, str) and v):
                            ctx.bad("clear_statistic", "tree %d: host %d sends %r in clear with its statistics (%s%s)"
                                    % (t, h + 1, v, owner or "", path))
                            return
                sent, res = lv["sent"], lv["result"]
                if not set(res) <= set(sent):
                    ctx.bad("extra_rows", "tree %d: host %d answers for rows it was not asked about: %s"
                            % (t, h + 1, sorted(map(str, set(res) - set(sent)))[:5]))
                    return
                outcome = {}
                for k, v in res.items():
                    s = sent[k]
                    own = site in [a for _, _, a in wire.walk(s) if isinstance(a, str)]
                    cv, cs = wire.clear(v, kl), wire.clear(s, kl)
                    if not own:
                        if [x[1:] for x in cv] != [x[1:] for x in cs] and \
                                not set(x[1:] for x in cv) <= set(x[1:] for x in cs):
                            ctx.bad("foreign_row", "tree %d: host %d changed row %r of another owner: %s -> %s"
                                    % (t, h + 1, k, cs, cv))
                            return
                        continue
                    outcome.setdefault(repr(cs), set()).add(repr(cv))
                    extra = set(x[1:] for x in cv) - set(x[1:] for x in cs)
                    if extra:
                        ctx.bad("extra_answer", "tree %d: host %d answers row %r with %s, beyond what it was sent %s"
                                % (t, h + 1, k, cv, cs))
                        return
                for s, o in outcome.items():
                    if len(o) > 2:
                        ctx.bad("extra_answer", "tree %d: host %d distinguishes more than left and right for %s: %s"
                                % (t, h + 1, s, sorted(o)))
                        return
                ctx.stat("dispatch_tables", 1)
        bid_sequence(ctx, sc, f, h, trees)
        if ctx.bads:
            return
        # prediction answers: node ids and tags only
        ids = max((len(t["nodes"]) for t in states(f)[0]["trees"]), default=1)
        while rd.left("up"):
            v = rd.next("up")
            try:
                rows = wire.rows(v)
            except wire.Unparsed:
                continue
            for k, x in rows.items():
                a = [y for _, _, y in wire.walk(x)]
                if len(a) > 2 or not all(wire.is_int(y) and 0 <= y < max(2, ids) for y in a):
                    ctx.bad("extra_answer", "prediction: host %d answers row %r with %r" % (h + 1, k, x))
                    return


def bid_sequence(ctx, sc, f, h, trees):
    """No clear integer of the host's split answers follows its bin indices."""
    seqs, truth, other = {}, [], []
    st = states(f)[h + 1]
    for t, tr in enumerate(trees):
        if t >= len(st["trees"]):
            return
        for lv in tr["levels"]:
            for nodes, stats, ans, fin in lv["batches"]:
                for nid, a, s in zip(nodes, ans, fin):
                    try:
                        idx = a[0]
                    except (TypeError, IndexError):
                        return
                    nd = st["trees"][t]["nodes"][nid] if nid < len(st["trees"][t]["nodes"]) else None
                    if idx == -1 or nd is None or nd["leaf"] or nid not in st["trees"][t]["mask"]:
                        continue
                    fid = nd["fid"]
                    thr = st["trees"][t]["mask"][nid]
                    if thr not in st["bins"][fid]:
                        continue
                    truth.append(st["bins"][fid].index(thr))
                    other.append((fid, idx, nid))
                    for path, owner, v in wire.walk(s):
                        if wire.is_int(v) and v.bit_length() < 40:
                            seqs.setdefault(path, {})[len(truth) - 1] = v
    if len(truth) < 4 or len(set(truth)) < 3:
        return
    ctx.stat("bid_sequences")
    for path, d in seqs.items():
        if len(d) != len(truth):
            continue
        off = {d[i] - truth[i] for i in range(len(truth))}
        if len(off) == 1 and not any(all(d[i] == o[k] for i, o in enumerate(other)) for k in range(3)):
            ctx.bad("bin_index", "host %d: %s of its split answers follows its bin indices %s" % (h + 1, path, truth))


def forwarded(ctx, sc, conv):
    """No ciphertext a host produced reaches another host."""
    lim = wire.cipher_limit(sc["params"]["key_length"])
    made, got = {}, {}
    for c, d, ms in conv:
        s = {v for m in ms for _, _, v in wire.walk(m.obj) if wire.is_int(v) and v.bit_length() > lim}
        (made if d == "up" else got)[c] = s
    guest = {c: got[c] for c in got}
    for a in made:
        for b in got:
            if a != b:
                both = (made[a] & got[b]) - guest[a]
                if both:
                    ctx.bad("forwarded", "host %d receives %d ciphertexts computed by host %d" % (b + 1, len(both), a + 1))


def taps(f):
    return [(c.id, d, bytes(p.tap)) for c in f.k.conns for d, p in (("up", c.up), ("down", c.down))]


def twins(ctx, sc, f, twin, batch):
    prog = [("fit", "train"), ("predict", batch), ("predict", "train")]
    if twin == "remap":
        s, b, signs = remap_scenario(ctx.rng("remap"), sc, batch)
        g = ctx.fed("twin", s, program=[("fit", "train"), ("predict", b), ("predict", "train")])
        if not ctx.finished(g, "twin with other feature values of the same order"):
            return
        # where signs change, the sums are formed in another order: only their clear parts have to be the same
        x, y = wire.clears(f, ("up", "down")), wire.clears(g, ("up", "down"))
        if x != y or (signs and taps(f) != taps(g)):
            ctx.bad("depends_on_values", "replacing feature values by others of the same order changes the messages: %s"
                    % wire.first_difference(x, y))
        return
    rng = ctx.rng("duplicate")
    h = rng.randrange(1, len(sc["parties"]))
    c = rng.randrange(len(sc["parties"][h]["cols"]))
    s, b = json.loads(json.dumps(sc)), json.loads(json.dumps(batch))
    s["parties"][h]["cols"].append(list(s["parties"][h]["cols"][c]))
    s["parties"][h]["names"].append("copy")
    b["cols"][h].append(list(b["cols"][h][c]))
    g = ctx.fed("twin", s, program=[("fit", "train"), ("predict", b), ("predict", "train")])
    if not ctx.finished(g, "twin with a duplicated column"):
        return
    for x, y in zip(taps(f), taps(g)):
        if x[0] != h - 1 and x != y:
            ctx.bad("forwarded", "duplicating a column of host %d changes what is exchanged with host %d: %s" % (
                h, x[0] + 1, wire.first_difference(wire.clears(f, (x[1],), (x[0],)), wire.clears(g, (x[1],), (x[0],)))))
            return
