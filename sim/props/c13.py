"""C13: the encrypted split statistics are exact and complete, and decide the agreed split."""
import math

from sim import ref, wire, world
from sim.engine import HarnessError
from sim.props.common import maybe_profile, shape_of, shrink, states, tree_key  # noqa

CASES = {"quick": 900, "thorough": 40000}
RULE = ("a case trains a random scenario (under a random network) and decrypts, with an independent Paillier "
        "implementation, every statistic, gain and gradient exchanged, comparing them with sums recomputed from the "
        "rows of each node; every returned index, final split, row position and dispatch answer is compared with what "
        "those sums imply; non-trivial when a host offers a candidate, distinct by model")


def generate(rng, tier):
    over = {}
    if rng.random() < 0.3:
        over["subsample"] = rng.choice([0.4, 0.7])
    if rng.random() < 0.15:
        over.update(n_iter_no_change=True, tol=rng.choice([1e-4, 0.05]))
    if rng.random() < 0.3:
        over["max_split_nodes"] = rng.choice([1, 2, 3])
    if rng.random() < 0.1:      # scores so large that gradients and hessians are too small for the key, or vanish
        over.update(num_trees=rng.choice([2, 3, 4]), max_depth=rng.choice([2, 3]), learning_rate=rng.choice([4.0, 15.0, 50.0, 90.0]),
                    reg_lambda=rng.choice([0.01, 0.1]))
        return {"sc": world.gen_scenario(rng, task=rng.choice(["binary", "binary", "multi"]), n=rng.choice([6, 8, 12, 20]), **over)}
    return {"sc": world.gen_scenario(rng, big=True, **over)}


class Decryptor:
    def __init__(self, model):
        e = model.encrypter
        self.n = int(e.public_key.n)
        p, q = int(e.privacy_key.p), int(e.privacy_key.q)
        self.lam = (p - 1) * (q - 1) // math.gcd(p - 1, q - 1)
        self.mu = pow(self.lam, -1, self.n)
        self.n2 = self.n * self.n
        import gmpy2
        self.pow = gmpy2.powmod
        self.cache = {}

    def __call__(self, x):
        if isinstance(x, (int, float)):
            return float(x)
        d = getattr(x, "__dict__", {})
        c = [v for k, v in d.items() if wire.is_int(v) and "cipher" in k.lower()]
        if len(c) != 1 or "exponent" not in d:
            raise wire.Unparsed("not a ciphertext: %.80r" % (x,))
        k = (c[0], d["exponent"])
        if k not in self.cache:
            m = (self.pow(c[0], self.lam, self.n2) - 1) // self.n * self.mu % self.n
            if m > self.n // 2:
                m -= self.n
            e = d["exponent"]
            self.cache[k] = m / 16 ** e if e >= 0 else float(m * 16 ** -e)
        return self.cache[k]


def near(a, b, scale):
    return abs(a - b) <= 1e-9 + 1e-8 * scale + 1e-9 * abs(b)


def execute(spec, ctx):
    sc = spec["sc"]
    P = sc["params"]
    f = ctx.fed("run", sc, maybe_profile(ctx, "run", 0.3), program=[("fit", "train")])
    if not ctx.finished(f, "training"):
        return
    st = states(f)
    try:
        M = ref.Model(sc, st)
        dec = Decryptor(f.parties[0].model)
        talks = []
        for h in range(len(sc["parties"]) - 1):
            dim, trees, rd = wire.training(f, h, P)
            if rd.left("up") or rd.left("down"):
                ctx.bad("extra_messages", "host %d: %d/%d messages beyond the protocol" % (
                    h + 1, rd.left("up"), rd.left("down")))
                return
            talks.append(trees)
    except (wire.Unparsed, AttributeError, TypeError, ValueError) as e:
        ctx.bad("unreadable_conversation", "the conversation is not the protocol's: %r" % e)
        return
    before = len(ctx.bads)
    try:
        check(ctx, sc, st, M, dec, talks)
    except wire.Unparsed as e:
        ctx.bad("unreadable_conversation", "the conversation is not the protocol's: %s" % e)
    except (IndexError, KeyError, TypeError, ValueError, AttributeError) as e:
        if len(ctx.bads) == before:
            ctx.bad("inconsistent_conversation", "conversation and trees do not fit together: %r" % e)
    if ctx.stats["candidates"]:
        ctx.key(tree_key(f))
    ctx.sample = "%s; %d statistics decrypted" % (shape_of(sc), ctx.stats["candidates"])


def check(ctx, sc, st, M, dec, talks):
    P = sc["params"]
    lam, thr = P["reg_lambda"], P["min_impurity_split"]
    loss = ref.Loss(sc, M.classes)
    keys = sc["keys"] or list(range(sc["n"]))
    cols = [[[ref.zeroed(v) for v in c] for c in cs] for cs in ref.train_cols(sc)]
    n = sc["n"]
    vals = [[[cols[p][f][j] for f in range(len(cols[p]))] for p in range(len(cols))] for j in range(n)]
    ys = [loss.target(y) for y in sc["labels"]]
    F = [list(M.init) for _ in range(n)]
    for t in range(len(M.trees[0])):
        c = t % M.dim
        if c == 0:
            gh = [loss.grad_hess(y, x) for y, x in zip(ys, F)]
            if any(loss.near_kink(y, x) for y, x in zip(ys, F)):
                ctx.stat("skipped_near_kink")
                return
        g, h = [x[c][0] for x in gh], [x[c][1] for x in gh]
        sel, known = ref.selections(sc, st, t)
        offers = {}
        for hh, trees in enumerate(talks):
            tree(offers, ctx, sc, st, M, dec, hh, t, trees[t], keys, cols, vals, g, h, sel[hh + 1], known, lam, thr)
            if ctx.bads:
                return
        for nid in sorted(offers):
            adopted(ctx, sc, M, t, nid, offers[nid], vals, g, h, lam, thr)
            if ctx.bads:
                return
        for j in range(n):
            F[j][c] += P["learning_rate"] * M.node(t, M.leaf(t, vals[j]))["weight"]


def adopted(ctx, sc, M, t, nid, offers, vals, g, h, lam, thr):
    """The split all parties adopt for a node is the best of those the hosts returned and the guest's."""
    nd = M.node(t, nid)
    dep, R = offers[0]["dep"], offers[0]["rows"]
    tol = max(o["tol"] for o in offers)
    made = [o for o in offers if o["gain"] is not None]
    best = max(made, key=lambda o: o["gain"], default=None)
    who = "tree %d node %d" % (t, nid)
    if nd["leaf"]:
        if best and best["gain"] > thr + tol and dep + 1 < sc["params"]["max_depth"]:
            ctx.bad("not_adopted", "%s: a leaf, though host %d returned a split of gain %r" % (who, best["p"], best["gain"]))
        return
    G, H = sum(g[j] for j in R), sum(h[j] for j in R)
    L = [j for j in R if M.decide(t, nid, vals[j])]
    a, b = sum(g[j] for j in L), sum(h[j] for j in L)
    gain = a * a / (b + lam) + (G - a) ** 2 / (H - b + lam) - G * G / (H + lam)
    ctx.stat("splits_adopted")
    if best and gain < best["gain"] - tol:
        ctx.bad("not_adopted", "%s: split by %s for a gain of %r, though host %d returned one of %r"
                % (who, nd["site"], gain, best["p"], best["gain"]))
    for o in offers:
        if nd["site"] == o["site"] and (o["gain"] is None or abs(o["gain"] - gain) > tol):
            ctx.bad("not_adopted", "%s: its split by host %d gains %r, the one it returned %r" % (who, o["p"], gain, o["gain"]))


def tree(offers, ctx, sc, st, M, dec, hh, t, tr, keys, cols, vals, g, h, sel, known, lam, thr):
    P = sc["params"]
    n = sc["n"]
    p = hh + 1
    site = "host.%d" % sc["idx"][hh]
    who = "tree %d host %d" % (t, p)
    enc = tr["enc"]
    if set(enc) != set(keys):
        ctx.bad("gradient_rows", "%s: gradients for rows %s, training rows %s" % (who, sorted(map(str, enc))[:9],
                                                                                  sorted(map(str, keys))[:9]))
        return
    for j, k in enumerate(keys):
        a, b = dec(enc[k][0]), dec(enc[k][1])
        if not near(a, g[j], abs(g[j])) or not near(b, h[j], abs(h[j])):
            ctx.bad("gradient", "%s row %r: encrypted (%r, %r), gradient and hessian are (%r, %r)"
                    % (who, k, a, b, g[j], h[j]))
            return
    at = {0: list(range(n))}
    open_ = [0]
    for dep, lv in enumerate(tr["levels"]):
        if lv["queue"] != open_:
            ctx.bad("queue", "%s depth %d: open nodes %s, sent %s" % (who, dep, open_, lv["queue"]))
            return
        want = {keys[j]: nid for nid in open_ for j in at[nid]}
        got = {k: v[1] for k, v in lv["pos"].items()}
        if got != want or any(v[0] != 1 for v in lv["pos"].values()):
            ctx.bad("positions", "%s depth %d: rows placed %s, they are in %s" % (
                who, dep, first(got, want), first(want, got)))
            return
        for nodes, stats, ans, fin in lv["batches"]:
            if not len(stats) == len(ans) == len(fin) == len(nodes):
                ctx.bad("batch_size", "%s depth %d: %d nodes, %d statistics, %d answers, %d splits"
                        % (who, dep, len(nodes), len(stats), len(ans), len(fin)))
                return
            for nid, s, a, sp in zip(nodes, stats, ans, fin):
                o = node(ctx, sc, st, dec, p, who, nid, at[nid], s, a, sp, cols[p], g, h, sel, known, lam, thr, site)
                offers.setdefault(nid, []).append(dict(o or {}, p=p, site=site, dep=dep, rows=at[nid]))
                if ctx.bads:
                    return
        sent, nxt = {}, []
        for nid in open_:
            nd = M.node(t, nid)
            if nd["leaf"]:
                continue
            L = [j for j in at[nid] if M.decide(t, nid, vals[j])]
            S = set(L)
            at[nd["left"]], at[nd["right"]] = L, [j for j in at[nid] if j not in S]
            nxt += [nd["left"], nd["right"]]
            if nd["site"] != "guest":
                for j in at[nid]:
                    sent[keys[j]] = (nid, nd["left"], nd["right"], nd["site"], nd["left"] if j in S else nd["right"])
        if set(lv["sent"]) != set(sent):
            ctx.bad("dispatch_rows", "%s depth %d: %d rows sent for dispatch, %d belong to hosts' nodes"
                    % (who, dep, len(lv["sent"]), len(sent)))
            return
        for k, v in lv["sent"].items():
            if (v[4], v[5], v[6], v[3]) != sent[k][:4]:
                ctx.bad("dispatch", "%s depth %d row %r: sent %r, it is at node %r" % (who, dep, k, v, sent[k]))
                return
        for k, x in sent.items():
            if x[3] != site:
                continue
            v = lv["result"].get(k)
            if v is None or tuple(v) != (1, x[4]):
                ctx.bad("dispatch_answer", "%s depth %d row %r at node %d: answered %r, its child is %d"
                        % (who, dep, k, x[0], v, x[4]))
                return
        ctx.stat("rows_dispatched", len(sent))
        open_ = nxt
    if open_ and len(tr["levels"]) < P["max_depth"]:
        ctx.bad("levels", "%s: %d levels exchanged but nodes %s remain open" % (who, len(tr["levels"]), open_))


def first(a, b):
    return {k: v for k, v in list(a.items()) if b.get(k) != v}


def node(ctx, sc, st, dec, p, who, nid, R, stats, ans, sp, cols, g, h, sel, known, lam, thr, site):
    P = sc["params"]
    who = "%s node %d" % (who, nid)
    G, H = sum(g[j] for j in R), sum(h[j] for j in R)
    sa, sh = sum(abs(g[j]) for j in R), sum(abs(h[j]) for j in R)
    cand = []
    if len(R) >= P["min_sample_split"]:
        for f in sel:
            for b in st[p]["bins"][f]:
                L = [j for j in R if cols[f][j] <= b]
                if len(L) >= P["min_leaf_node"] and len(R) - len(L) >= P["min_leaf_node"]:
                    cand.append((sum(g[j] for j in L), sum(h[j] for j in L), f, b))
    got = [(dec(a), dec(b)) for a, b in stats]
    ctx.stat("candidates", len(got))

    def same(x, y):
        return near(x[0], y[0], sa) and near(x[1], y[1], sh)
    ordered = len(got) == len(cand) and all(same(a, b) for a, b in zip(got, cand))
    if known and not ordered:
        rest = list(cand)
        for a in got:
            m = [b for b in rest if same(a, b)]
            if not m:
                ctx.bad("inadmissible_candidate" if len(got) > len(cand) else "wrong_statistic",
                        "%s: statistic %r is no admissible split of its %d rows (%d sent, %d admissible)"
                        % (who, a, len(R), len(got), len(cand)))
                return
            rest.remove(m[0])
        if rest:
            ctx.bad("missing_candidate", "%s: %d of %d admissible candidates missing, first party %d feature %d at %r"
                    % (who, len(rest), len(cand), p, rest[0][2], rest[0][3]))
            return

    def gain(x):
        return x[0] ** 2 / (x[1] + lam) + (G - x[0]) ** 2 / (H - x[1] + lam) - G * G / (H + lam)
    gains = [gain(x) for x in got]
    tol = 3e-6 + 1e-7 * sa + 1e-8 * (max(map(abs, gains), default=0) + G * G / (H + lam))
    idx, eg = ans[0], dec(ans[1])
    if idx == -1:
        if gains and max(gains) > thr + tol:
            ctx.bad("no_index", "%s: no index returned though candidate %d gains %r" % (
                who, gains.index(max(gains)), max(gains)))
        if eg > thr + tol:
            ctx.bad("gain", "%s: no index returned but gain %r" % (who, eg))
    elif not 0 <= idx < len(gains):
        ctx.bad("index_range", "%s: index %r of %d candidates" % (who, idx, len(gains)))
        return
    else:
        if gains[idx] < max(gains) - tol or gains[idx] <= thr - tol:
            ctx.bad("not_maximal", "%s: candidate %d gains %r, the best %r, threshold %r"
                    % (who, idx, gains[idx], max(gains), thr))
        if abs(eg - gains[idx]) > tol:
            ctx.bad("gain", "%s: encrypted gain %r, candidate gains %r" % (who, eg, gains[idx]))
    if ctx.bads:
        return
    if sp.sitename != site:
        ctx.bad("split_site", "%s: split names site %r, the host is %r" % (who, sp.sitename, site))
    sg = dec(sp.gain)
    if abs(sg - eg) > 1e-9 * (1 + abs(eg)):
        ctx.bad("split_gain", "%s: returned split has gain %r, the guest's answer was %r" % (who, sg, eg))
    if idx == -1:
        return {"gain": None, "tol": tol}
    if not same((dec(sp.sum_grad), dec(sp.sum_hess)), got[idx]):
        ctx.bad("split_sums", "%s: returned split has sums (%r, %r), candidate %d has %r"
                % (who, dec(sp.sum_grad), dec(sp.sum_hess), idx, got[idx]))
    if known and sp.best_fid not in {b[2] for b in cand if same(got[idx], b)}:
        ctx.bad("split_feature", "%s: returned split names feature %r, candidate %d is of %s"
                % (who, sp.best_fid, idx, sorted({b[2] for b in cand if same(got[idx], b)})))
    ctx.stat("indices_checked")
    return {"gain": gains[idx], "tol": tol}
