"""Reference models: centralised second-order boosting, losses, tree evaluation.

Written from the published definitions, on plain Python numbers; nothing here
imports the repository.
"""
import bisect
import math

FZ = 1e-6        # the repository's documented numerical zero
QERR = 1e-3      # its documented relative error of quantiles


def zeroed(v):
    return 0.0 if abs(v) < FZ else v


# --------------------------------------------------------------------------
# losses

def sigmoid(x):
    return 1.0 / (1.0 + math.exp(-x)) if x >= 0 else math.exp(x) / (1.0 + math.exp(x))


def softmax(v):
    m = max(v)
    e = [math.exp(x - m) for x in v]
    s = sum(e)
    return [x / s for x in e]


class Loss:
    def __init__(self, sc, classes):
        self.kind = sc["objective"]
        self.par = (sc["obj_params"] or [None])[0]
        self.classes = classes

    def target(self, label):
        return self.classes.index(label) if self.kind == "cross_entropy" else float(label)

    def grad_hess(self, y, F):
        """y target, F list of scores -> [(g, h) per class]."""
        k = self.kind
        if k == "cross_entropy" and len(self.classes) == 2:
            p = sigmoid(F[0])
            return [(p - y, p * (1 - p))]
        if k == "cross_entropy":
            p = softmax(F)
            return [(p[c] - (1 if c == y else 0), p[c] * (1 - p[c])) for c in range(len(F))]
        d = F[0] - y
        if k == "lse":
            return [(2 * d, 2.0)]
        if k == "lae":
            return [((d > FZ) - (d < -FZ), 1.0)]
        if k == "huber":
            q = 1 + d * d / self.par ** 2
            return [(d / math.sqrt(q), q ** -1.5)]
        if k == "fair":
            c = self.par
            return [(c * d / (abs(d) + c), c * c / (abs(d) + c) ** 2)]
        if k == "log_cosh":
            t = math.tanh(d)
            return [(t, 1 - t * t)]
        if k == "tweedie":      # as the repository defines it; see the known finding
            a, b = math.exp(1 - self.par), math.exp(2 - self.par)
            return [((b - y * a) * F[0], (b * (2 - self.par) - y * a * (1 - self.par)) * F[0])]
        raise KeyError(k)

    def loss(self, ys, Fs):
        k, n, s = self.kind, len(ys), 0.0
        for y, F in zip(ys, Fs):
            if k == "cross_entropy" and len(self.classes) == 2:
                p = sigmoid(F[0])
                q = p if y == 1 else 1 - p
                s += -math.log(q) if q > 0 else 0.0
            elif k == "cross_entropy":
                p = softmax(F)[y]
                s += -math.log(p)
            else:
                d = F[0] - y
                if k == "lse":
                    s += d * d
                elif k == "lae":
                    s += abs(d)
                elif k == "huber":
                    s += self.par ** 2 * (math.sqrt(1 + (d / self.par) ** 2) - 1)
                elif k == "fair":
                    s += self.par * abs(d) - self.par ** 2 * math.log(abs(d) / self.par + 1)
                elif k == "tweedie":
                    a, b = math.exp(1 - self.par), math.exp(2 - self.par)
                    s += (b / (2 - self.par) - y * a / (1 - self.par)) * math.log(max(F[0], FZ))
                elif k == "log_cosh":
                    s += abs(d) + math.log1p(math.exp(-2 * abs(d))) - math.log(2)
        return s / n

    def near_kink(self, y, F):
        """Is the gradient at this point sensitive to rounding?"""
        return self.kind == "lae" and abs(abs(F[0] - y) - FZ) < 1e-7


# --------------------------------------------------------------------------
# plain trees as held by the parties

class Model:
    """The joint model: guest trees plus the owners' fids and thresholds."""

    def __init__(self, sc, states, batch=None):
        self.sc = sc
        self.site = {"guest": 0}
        for i, k in enumerate(sc["idx"]):
            self.site["host.%d" % k] = i + 1
        self.trees = [s["trees"] for s in states]
        self.dim = states[0]["dim"]
        self.init = states[0]["init"]
        self.states = states
        self.classes = states[0]["classes"]

    def node(self, t, nid):
        return self.trees[0][t]["nodes"][nid]

    def decide(self, t, nid, values):
        """values[p][f] -> left child? using the owner's feature and threshold."""
        n = self.node(t, nid)
        p = self.site[n["site"]]
        own = self.trees[p][t]
        fid = own["nodes"][nid]["fid"]
        thr = own["mask"][nid]
        return zeroed(values[p][fid]) <= thr

    def leaf(self, t, values):
        nid, seen = 0, 0
        while not self.node(t, nid)["leaf"]:
            n = self.node(t, nid)
            nid = n["left"] if self.decide(t, nid, values) else n["right"]
            seen += 1
            if seen > 200:
                raise ValueError("cycle in tree %d" % t)
        return nid

    def score(self, values, rounds=None):
        F = list(self.init)
        T = len(self.trees[0]) if rounds is None else rounds * self.dim
        lr = self.sc["params"]["learning_rate"]
        for t in range(T):
            F[t % self.dim] += lr * self.node(t, self.leaf(t, values))["weight"]
        return F


def row_values(cols_per_party, j):
    return [[c[j] for c in cols] for cols in cols_per_party]


def train_cols(sc):
    return [p["cols"] for p in sc["parties"]]


def structure(bad, sc, states):
    """C08: one consistent, well-formed model at all parties."""
    site = {"guest": 0}
    for i, k in enumerate(sc["idx"]):
        site["host.%d" % k] = i + 1
    T = len(states[0]["trees"])
    for p, s in enumerate(states):
        if len(s["trees"]) != T:
            bad("tree_count", "party %d holds %d trees, the guest %d" % (p, len(s["trees"]), T))
            return
        if s["dim"] != states[0]["dim"]:
            bad("tree_dim", "party %d has tree_dim %r, the guest %r" % (p, s["dim"], states[0]["dim"]))
    for t in range(T):
        g = states[0]["trees"][t]["nodes"]
        shape0 = [(n["id"], n["left"], n["right"], n["leaf"], n["site"]) for n in g]
        for p in range(1, len(states)):
            nd = states[p]["trees"][t]["nodes"]
            shape = [(n["id"], n["left"], n["right"], n["leaf"], n["site"]) for n in nd]
            if shape != shape0:
                bad("shape_differs", "tree %d: party %d has structure %s, guest %s" % (t, p, shape, shape0))
        if not g:
            bad("empty_tree", "tree %d has no nodes" % t)
            continue
        ids = [n["id"] for n in g]
        if ids != list(range(len(g))):
            bad("node_ids", "tree %d: node ids %s" % (t, ids))
            continue
        seen, todo = set(), [0]
        ok = True
        while todo:
            i = todo.pop()
            if i in seen or not 0 <= i < len(g):
                bad("child_links", "tree %d: node %d reached twice or out of range" % (t, i))
                ok = False
                break
            seen.add(i)
            if not g[i]["leaf"]:
                todo += [g[i]["left"], g[i]["right"]]
        if ok and len(seen) != len(g):
            bad("unreachable", "tree %d: nodes %s unreachable" % (t, sorted(set(ids) - seen)))
        for n in g:
            i = n["id"]
            if n["leaf"]:
                for p, s in enumerate(states):
                    if i in s["trees"][t]["mask"]:
                        bad("leaf_threshold", "tree %d: party %d holds a threshold for leaf %d" % (t, p, i))
                continue
            o = site.get(n["site"])
            if o is None:
                bad("unknown_owner", "tree %d node %d owned by unknown site %r" % (t, i, n["site"]))
                continue
            for p, s in enumerate(states):
                m = s["trees"][t]["mask"]
                if p != o and i in m:
                    bad("foreign_threshold", "tree %d node %d owned by %s but party %d holds a threshold"
                        % (t, i, n["site"], p))
                if p != o and p > 0 and s["trees"][t]["nodes"][i]["bid"]:
                    bad("foreign_threshold", "tree %d node %d: host %d stores bid %r of another party's split"
                        % (t, i, p, s["trees"][t]["nodes"][i]["bid"]))
            own = states[o]["trees"][t]
            if i not in own["mask"]:
                bad("no_threshold", "tree %d node %d: owner %s holds no threshold" % (t, i, n["site"]))
                continue
            if i >= len(own["nodes"]):
                continue
            fid = own["nodes"][i]["fid"]
            bins = states[o]["bins"]
            if not 0 <= fid < len(bins):
                bad("fid_range", "tree %d node %d: feature %r out of range" % (t, i, fid))
            elif own["mask"][i] not in bins[fid]:
                bad("threshold_not_boundary", "tree %d node %d: threshold %r is not a bin boundary of %s feature %d %s"
                    % (t, i, own["mask"][i], n["site"], fid, bins[fid]))
    return


def bins_ok(bad, sc, states):
    """Bin boundaries are column values (or zero), increasing, at roughly the requested ranks."""
    B = sc["params"]["bin_num"]
    for p, s in enumerate(states):
        cols = sc["parties"][p]["cols"]
        if len(s["bins"]) != len(cols):
            bad("bins_count", "party %d: boundaries for %d of %d features" % (p, len(s["bins"]), len(cols)))
            continue
        for f, b in enumerate(s["bins"]):
            v = sorted(zeroed(x) for x in cols[f])
            n = len(v)
            if any(x >= y for x, y in zip(b, b[1:])):
                bad("bins_order", "party %d feature %d: boundaries %s not increasing" % (p, f, b))
            if len(b) > B - 1 or not b:
                bad("bins_number", "party %d feature %d: %d boundaries for %d bins" % (p, f, len(b), B))
            have = set(v)
            for x in b:
                if x not in have and x != 0.0:
                    bad("bins_value", "party %d feature %d: boundary %r is no column value" % (p, f, x))
            slack = QERR * n + 1e-9
            # the rows a boundary stands for: those of its value; one that no row has (zero) acts like the row before it
            span = [(min(bisect.bisect_left(v, t) + 1, bisect.bisect_right(v, t)) - slack, bisect.bisect_right(v, t) + slack)
                    for t in b]
            for i in range(1, B):
                r = i * n / B
                if not any(lo <= k <= hi for lo, hi in span for k in (math.ceil(r - 1e-9), math.ceil(r + 1e-9))):
                    bad("bins_rank", "party %d feature %d: no boundary near rank %.2f of %d rows %s: %s" % (
                        p, f, r, n, v[:60], b))
                    break


def selections(sc, states, t):
    """Selected features of every party in tree t, and whether they are known."""
    sel, known = [], True
    for p, s in enumerate(states):
        k = len(sc["parties"][p]["cols"])
        if t < len(s["selected"]) and len(s["selected"][t]) == k:
            v = s["selected"][t]
        else:
            v = [True] * k
            known = known and sc["params"]["subsample"] >= 1
        sel.append([f for f in range(k) if v[f]])
    return sel, known


def lossless(bad, sc, states, stats=None):
    """C01: each split is the best admissible one, leaves and weights follow, on the real rows."""
    P = sc["params"]
    M = Model(sc, states)
    loss = Loss(sc, M.classes)
    cols = [[[zeroed(v) for v in c] for c in cs] for cs in train_cols(sc)]
    n, dim, lam = sc["n"], M.dim, P["reg_lambda"]
    ys = [loss.target(l) for l in sc["labels"]]
    want_dim = len(set(sc["labels"])) if sc["kind"] == "multi" else 1
    if dim != want_dim:
        bad("tree_dim", "tree_dim %r, expected %d" % (dim, want_dim))
        return
    init_ok(bad, sc, M)
    F = [list(M.init) for _ in range(n)]
    T = len(M.trees[0])
    vals = [[[cols[p][f][j] for f in range(len(cols[p]))] for p in range(len(cols))] for j in range(n)]
    for t in range(T):
        if t % dim == 0:
            gh = [loss.grad_hess(ys[j], F[j]) for j in range(n)]
            kink = any(loss.near_kink(ys[j], F[j]) for j in range(n))
            newF = [list(x) for x in F]
        g = [gh[j][t % dim][0] for j in range(n)]
        h = [gh[j][t % dim][1] for j in range(n)]
        sel, known = selections(sc, states, t)
        rows = {0: list(range(n))}
        depth = {0: 0}
        order = [0]
        i = 0
        while i < len(order):
            nid = order[i]
            i += 1
            nd = M.node(t, nid)
            R = rows[nid]
            G, H = sum(g[j] for j in R), sum(h[j] for j in R)
            sa = sum(abs(g[j]) for j in R) + 1e-12
            best, cands = 0.0, {}
            base = G * G / (H + lam)
            if len(R) >= P["min_sample_split"]:
                for p in range(len(cols)):
                    for f in sel[p]:
                        for b in states[p]["bins"][f]:
                            L = [j for j in R if cols[p][f][j] <= b]
                            if len(L) < P["min_leaf_node"] or len(R) - len(L) < P["min_leaf_node"]:
                                continue
                            gl, hl = sum(g[j] for j in L), sum(h[j] for j in L)
                            gr, hr = G - gl, H - hl
                            gain = gl * gl / (hl + lam) + gr * gr / (hr + lam) - base
                            cands[(p, f, b)] = gain
            best = max(cands.values()) if cands else None
            tol = 3e-6 + 1e-8 * (base + (abs(best) if best is not None else 0)) + 1e-7 * sa
            w = -G / (H + lam)
            if abs(nd["weight"] - w) > 1e-6 * (1 + abs(w)) + 1e-7 * sa / (H + lam) and nd["leaf"] and not kink:
                bad("leaf_weight", "tree %d leaf %d (%d rows): weight %r, -G/(H+lambda) = %r"
                    % (t, nid, len(R), nd["weight"], w))
            if nd["leaf"]:
                if stats is not None:
                    stats["leaves"] = stats.get("leaves", 0) + 1
                if depth[nid] < P["max_depth"] - 1 and best is not None and not kink and known \
                        and best > P["min_impurity_split"] + FZ + tol:
                    c = [k for k, v in cands.items() if v == best][0]
                    bad("missed_split", "tree %d node %d is a leaf at depth %d though splitting party %d feature %d "
                        "at %r gains %r" % (t, nid, depth[nid], c[0], c[1], c[2], best))
                for j in R:
                    newF[j][t % dim] += P["learning_rate"] * nd["weight"]
                continue
            if depth[nid] >= P["max_depth"] - 1:
                bad("too_deep", "tree %d node %d splits at depth %d of %d" % (t, nid, depth[nid], P["max_depth"]))
            p = M.site[nd["site"]]
            own = M.trees[p][t]
            fid, thr = own["nodes"][nid]["fid"], own["mask"][nid]
            if stats is not None:
                stats["splits_guest" if p == 0 else "splits_host"] = \
                    stats.get("splits_guest" if p == 0 else "splits_host", 0) + 1
            if len(R) < P["min_sample_split"]:
                bad("min_sample", "tree %d node %d splits %d rows, minimum %d" % (t, nid, len(R), P["min_sample_split"]))
            got = cands.get((p, fid, thr))
            L = [j for j in R if cols[p][fid][j] <= thr]
            Rr = [j for j in R if cols[p][fid][j] > thr]
            if got is None:
                if fid not in sel[p]:
                    bad("unselected_feature", "tree %d node %d splits on unselected feature %d of %s"
                        % (t, nid, fid, nd["site"]))
                else:
                    bad("inadmissible_split", "tree %d node %d: %s feature %d at %r sends %d/%d rows, minimum leaf %d"
                        % (t, nid, nd["site"], fid, thr, len(L), len(Rr), P["min_leaf_node"]))
            elif not kink:
                if got < best - tol and known:
                    c = [k for k, v in cands.items() if v == best][0]
                    bad("not_best", "tree %d node %d: split %s feature %d at %r gains %r, but party %d feature %d at %r "
                        "gains %r" % (t, nid, nd["site"], fid, thr, got, c[0], c[1], c[2], best))
                if got < P["min_impurity_split"] - tol:
                    bad("gain_too_small", "tree %d node %d: gain %r below the minimum %r"
                        % (t, nid, got, P["min_impurity_split"]))
            rows[nd["left"]], rows[nd["right"]] = L, Rr
            depth[nd["left"]] = depth[nd["right"]] = depth[nid] + 1
            order += [nd["left"], nd["right"]]
        if t % dim == dim - 1:
            F = newF
    return F


def init_ok(bad, sc, M):
    k = sc["objective"]
    if k == "cross_entropy":
        want = [0.0] * M.dim
        if any(abs(a - b) > 1e-12 for a, b in zip(M.init, want)) or len(M.init) != len(want):
            bad("init_score", "initial score %r" % (M.init,))
        return
    y = sorted(float(v) for v in sc["labels"])
    n = len(y)
    if k == "lae":
        e = int(QERR * n)
        if not y[max(0, n // 2 - 2 - e)] - 1e-9 <= M.init[0] <= y[min(n - 1, n // 2 + 1 + e)] + 1e-9:
            bad("init_score", "initial score %r is no median of %d labels %s" % (M.init, n, y[:60]))
    else:
        m = sum(y) / n
        if abs(M.init[0] - m) > 1e-9 * (1 + abs(m)):
            bad("init_score", "initial score %r, mean of labels %r" % (M.init, m))


def history(bad, sc, states):
    """C12: rounds, stop rule, loss history."""
    P = sc["params"]
    M = Model(sc, states)
    loss = Loss(sc, M.classes)
    ys = [loss.target(l) for l in sc["labels"]]
    cols = train_cols(sc)
    vals = [row_values(cols, j) for j in range(sc["n"])]
    T = len(M.trees[0])
    hist = states[0]["history"]
    if T % M.dim:
        bad("partial_round", "%d trees for %d per round" % (T, M.dim))
        return
    R = T // M.dim
    if len(hist) != R:
        bad("history_length", "%d loss values for %d rounds" % (len(hist), R))
        return
    if R > P["num_trees"]:
        bad("too_many_rounds", "%d rounds, at most %d configured" % (R, P["num_trees"]))
    for p, s in enumerate(states):
        if len(s["trees"]) != T:
            bad("rounds_differ", "party %d holds %d trees, guest %d" % (p, len(s["trees"]), T))
    F = [list(M.init) for _ in vals]
    ref = []
    for t in range(T):
        for j, v in enumerate(vals):
            F[j][t % M.dim] += P["learning_rate"] * M.node(t, M.leaf(t, v))["weight"]
        if t % M.dim == M.dim - 1:
            ref.append(loss.loss(ys, F))
    for r, (a, b) in enumerate(zip(hist, ref)):
        if not abs(a - b) <= 1e-9 + 1e-7 * abs(b):
            bad("loss_value", "round %d: recorded loss %r, loss of the scores %r" % (r, a, b))
    if not P["n_iter_no_change"]:
        if R != P["num_trees"]:
            bad("rounds", "%d rounds run, %d configured, early stopping off" % (R, P["num_trees"]))
    else:
        for r in range(1, R):
            if abs(hist[r] - hist[r - 1]) < P["tol"] and r != R - 1:
                bad("late_stop", "losses %r, %r differ by less than %r at round %d but %d rounds ran"
                    % (hist[r - 1], hist[r], P["tol"], r, R))
        if R < P["num_trees"] and (R < 2 or not abs(hist[-1] - hist[-2]) < P["tol"]):
            bad("early_stop", "stopped after %d of %d rounds with losses %s, tolerance %r"
                % (R, P["num_trees"], hist[-2:], P["tol"]))
    sc_now = states[0]["scores"]
    keys = sc["keys"] or list(range(sc["n"]))
    for j, k in enumerate(keys):
        got = sc_now.get(k)
        if got is None or any(abs(a - b) > 1e-9 + 1e-7 * abs(b) for a, b in zip(got, F[j])):
            bad("training_score", "row %r: training score %r, trees give %r" % (k, got, F[j]))
            break


def predictions(bad, sc, M, batch, got, what="batch"):
    """C09: each row's output follows from the trees."""
    cols = train_cols(sc) if batch == "train" else batch["cols"]
    m = sc["n"] if batch == "train" else batch["m"]
    keys = (sc["keys"] if batch == "train" else batch["keys"]) or list(range(m))
    labels = sc["labels"] if batch == "train" else batch["labels"]
    if sorted(map(str, got)) != sorted(map(str, keys)):
        bad("keys", "%s: predicted keys %s, input keys %s" % (what, sorted(map(str, got)), sorted(map(str, keys))))
        return
    loss = Loss(sc, M.classes)
    for j, k in enumerate(keys):
        F = M.score(row_values(cols, j))
        row = got[k]
        if row[0] != labels[j] or type(row[0]) is not type(plain(labels[j])):
            bad("label", "%s row %r: label %r, given %r" % (what, k, row[0], labels[j]))
        if sc["task"] == "regression":
            want, score, detail = F[0], F[0], {"label": F[0]}
            if not close(row[1], want):
                bad("value", "%s row %r: predicted %r, trees give %r" % (what, k, row[1], want))
        elif len(M.classes) == 2:
            p = sigmoid(F[0])
            thr = sc["params"]["threshold"]
            cls = M.classes[1] if p > thr else M.classes[0]
            score, detail = p, {"0": 1 - p, "1": p}
            if row[1] != cls and abs(p - thr) > 1e-9:
                bad("class", "%s row %r: class %r, trees give %r (p=%r)" % (what, k, row[1], cls, p))
        else:
            p = softmax(F)
            b = max(p)
            ok = [M.classes[c] for c in range(len(p)) if p[c] > b - 1e-9]
            score, detail = b, dict(zip(map(str, M.classes), p))
            if row[1] not in ok:
                bad("class", "%s row %r: class %r, trees give one of %r" % (what, k, row[1], ok))
        if not close(row[2], score):
            bad("score", "%s row %r: score %r, trees give %r" % (what, k, row[2], score))
        if set(row[3]) != set(detail) or any(not close(row[3][a], detail[a]) for a in detail):
            bad("detail", "%s row %r: detail %r, trees give %r" % (what, k, row[3], detail))


def plain(x):
    return x if isinstance(x, (int, str, float, bool)) or x is None else float(x)


def close(a, b):
    try:
        return abs(a - b) <= 1e-9 + 1e-9 * abs(b)
    except TypeError:
        return False


def importance(bad, sc, states):
    """C18: selections and importances."""
    P = sc["params"]
    M = Model(sc, states)
    T = len(M.trees[0])
    for p, s in enumerate(states):
        k = len(sc["parties"][p]["cols"])
        want = max(1, int(P["subsample"] * k))
        for t in range(T):
            used = {n["fid"] for n in s["trees"][t]["nodes"] if not n["leaf"] and M.site.get(n["site"]) == p}
            if len(used) > want:
                bad("too_many_features", "tree %d: party %d uses features %s, %d selected" % (t, p, sorted(used), want))
            if t < len(s["selected"]):
                v = s["selected"][t]
                if len(v) != k or sum(v) != want:
                    bad("selection_size", "tree %d: party %d selected %s, expected %d of %d" % (t, p, v, want, k))
                for f in used:
                    if f < len(v) and not v[f]:
                        bad("unselected_feature", "tree %d: party %d splits on unselected feature %d" % (t, p, f))
    # importances
    cnt = {}
    for t in range(T):
        for n in M.trees[0][t]["nodes"]:
            if not n["leaf"]:
                key = "%s/%s" % (n["site"], M.trees[M.site[n["site"]]][t]["nodes"][n["id"]]["fid"])
                cnt.setdefault(key, []).append((t, n["id"]))
    got = states[0]["importance"]
    if set(got) != set(cnt):
        bad("importance_keys", "importances for %s, splits use %s" % (sorted(got), sorted(cnt)))
        return
    if P["importance"] == "split":
        for k, v in cnt.items():
            if got[k] != len(v):
                bad("importance_count", "importance of %s is %r, it is used in %d splits" % (k, got[k], len(v)))
        return
    gains = node_gains(sc, M)
    for k, v in cnt.items():
        w = sum(gains[x][0] for x in v)
        tol = 1e-6 * len(v) + sum(gains[x][1] for x in v)
        if abs(got[k] - w) > tol:
            bad("importance_gain", "importance of %s is %r, total gain of its splits %r" % (k, got[k], w))


def node_gains(sc, M):
    loss = Loss(sc, M.classes)
    ys = [loss.target(l) for l in sc["labels"]]
    cols = train_cols(sc)
    vals = [row_values(cols, j) for j in range(sc["n"])]
    lam, lr = sc["params"]["reg_lambda"], sc["params"]["learning_rate"]
    F = [list(M.init) for _ in vals]
    out = {}
    for t in range(len(M.trees[0])):
        if t % M.dim == 0:
            gh = [loss.grad_hess(y, f) for y, f in zip(ys, F)]
        c = t % M.dim
        todo = [(0, list(range(len(vals))))]
        while todo:
            nid, R = todo.pop()
            nd = M.node(t, nid)
            if nd["leaf"]:
                for j in R:
                    F[j][c] += lr * nd["weight"]
                continue
            L = [j for j in R if M.decide(t, nid, vals[j])]
            S = set(L)
            Rr = [j for j in R if j not in S]

            def sc2(X):
                G, H = sum(gh[j][c][0] for j in X), sum(gh[j][c][1] for j in X)
                return G * G / (H + lam)
            out[(t, nid)] = (sc2(L) + sc2(Rr) - sc2(R), 1e-7 * sum(abs(gh[j][c][0]) for j in R) + 1e-8 * sc2(R))
            todo += [(nd["left"], L), (nd["right"], Rr)]
    return out
