"""Compare two trained models up to rounding and the choice between tied splits."""
from sim import ref


def same_model(bad, scA, stA, scB, stB, what, stats=None):
    """True when comparable to the end, False when a tie made the models part (legitimately)."""
    A, B = ref.Model(scA, stA), ref.Model(scB, stB)
    P = scA["params"]
    lam, lr = P["reg_lambda"], P["learning_rate"]
    if A.dim != B.dim:
        bad("tree_dim", "%s: tree_dim %r / %r" % (what, A.dim, B.dim))
        return True
    if any(abs(x - y) > 1e-9 * (1 + abs(x)) for x, y in zip(A.init, B.init)):
        bad("init_score", "%s: initial scores %r / %r" % (what, A.init, B.init))
        return True
    loss = ref.Loss(scA, A.classes)
    n = scA["n"]
    colsA = [[[ref.zeroed(v) for v in c] for c in cs] for cs in ref.train_cols(scA)]
    vals = [[[c[j] for c in cs] for cs in colsA] for j in range(n)]
    ys = [loss.target(y) for y in scA["labels"]]
    F = [list(A.init) for _ in range(n)]
    for t in range(max(len(A.trees[0]), len(B.trees[0]))):
        if t >= len(A.trees[0]) or t >= len(B.trees[0]):
            h = stA[0]["history"], stB[0]["history"]
            # the stop rule may be decided by rounding
            k = min(len(x) for x in h)
            if P["n_iter_no_change"] and k > 1 and abs(abs(h[0][k - 1] - h[0][k - 2]) - P["tol"]) < 1e-6:
                return False
            bad("rounds", "%s: %d / %d trees" % (what, len(A.trees[0]), len(B.trees[0])))
            return True
        c = t % A.dim
        if c == 0:
            gh = [loss.grad_hess(y, x) for y, x in zip(ys, F)]
            kink = any(loss.near_kink(y, x) for y, x in zip(ys, F))
            if kink:
                return False
        g, h = [x[c][0] for x in gh], [x[c][1] for x in gh]
        todo = [(0, 0, list(range(n)))]
        while todo:
            i, j, R = todo.pop()
            a, b = A.node(t, i), B.node(t, j)
            G, H = sum(g[r] for r in R), sum(h[r] for r in R)
            sa = sum(abs(g[r]) for r in R) + 1e-12

            def split(M, k, nd):
                p = M.site[nd["site"]]
                own = M.trees[p][t]
                return p, own["nodes"][k]["fid"], own["mask"][k]

            def gain(sp):
                p, f, thr = sp
                if p >= len(colsA):
                    return None
                L = [r for r in R if colsA[p][f][r] <= thr]
                gl, hl = sum(g[r] for r in L), sum(h[r] for r in L)
                return gl * gl / (hl + lam) + (G - gl) ** 2 / (H - hl + lam) - G * G / (H + lam)
            if a["leaf"] and b["leaf"]:
                if abs(a["weight"] - b["weight"]) > 1e-6 * (1 + abs(a["weight"])) + 1e-7 * sa / (H + lam):
                    bad("leaf_weight", "%s: tree %d leaf %d/%d weights %r / %r" % (what, t, i, j, a["weight"], b["weight"]))
                    return True
                for r in R:
                    F[r][c] += lr * a["weight"]
                continue
            sa_, sb_ = None if a["leaf"] else split(A, i, a), None if b["leaf"] else split(B, j, b)
            if sa_ != sb_:
                ga = P["min_impurity_split"] if sa_ is None else gain(sa_)
                gb = P["min_impurity_split"] if sb_ is None else gain(sb_)
                base = G * G / (H + lam)
                tol = 3e-6 + 1e-8 * (base + abs(ga or 0)) + 1e-7 * sa
                if ga is not None and gb is not None and abs(ga - gb) <= 3 * tol:
                    if stats is not None:
                        stats["parted_at_tie"] = stats.get("parted_at_tie", 0) + 1
                    return False
                bad("split_differs", "%s: tree %d node %d/%d: %s gaining %r / %s gaining %r"
                    % (what, t, i, j, sa_ or "leaf", ga, sb_ or "leaf", gb))
                return True
            p, f, thr = sa_
            L = [r for r in R if colsA[p][f][r] <= thr]
            S = set(L)
            todo += [(a["left"], b["left"], L), (a["right"], b["right"], [r for r in R if r not in S])]
    ha, hb = stA[0]["history"], stB[0]["history"]
    if len(ha) != len(hb) or any(abs(x - y) > 1e-6 * (1 + abs(x)) for x, y in zip(ha, hb)):
        bad("history", "%s: losses %s / %s" % (what, ha, hb))
    return True


def same_predictions(bad, a, b, what):
    if set(a) != set(b):
        bad("prediction_rows", "%s: rows %s / %s" % (what, sorted(map(str, a))[:5], sorted(map(str, b))[:5]))
        return
    for k in a:
        x, y = a[k], b[k]
        ok = x[0] == y[0] and abs(x[2] - y[2]) <= 1e-6 * (1 + abs(x[2])) and set(x[3]) == set(y[3]) and \
            all(abs(x[3][d] - y[3][d]) <= 1e-6 * (1 + abs(x[3][d])) for d in x[3])
        if not ok:
            bad("prediction_differs", "%s: row %r predicted %r / %r" % (what, k, x, y))
            return
