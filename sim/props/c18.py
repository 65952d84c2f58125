"""C18: feature subsampling and feature importance are accounted correctly."""
from sim import ref, world
from sim.props.common import maybe_profile, shape_of, shrink, states, tree_key  # noqa

CASES = {"quick": 1600, "thorough": 50000}
RULE = ("a case trains a random scenario with a feature rate below one (80%) over several trees, parties with one to twenty "
        "features, importance by count or gain; selections, splits and importances are compared with the trees; "
        "non-trivial when a split was made, distinct by selections and trees")


def generate(rng, tier):
    over = dict(num_trees=rng.choice([2, 3, 4, 6]), max_depth=rng.choice([2, 3, 3, 4]),
                importance=rng.choice(["split", "gain"]))
    if rng.random() < 0.8:
        over["subsample"] = rng.choice([0.01, 0.2, 0.34, 0.5, 0.6, 0.75, 0.99])
    if rng.random() < 0.2:
        over["max_split_nodes"] = rng.choice([1, 2])
    if rng.random() < 0.2:
        over.update(n_iter_no_change=True, tol=rng.choice([1e-3, 0.1]))
    sc = world.gen_scenario(rng, n=rng.choice([6, 8, 12, 16, 20, 30]), feats=lambda i: rng.choice([1, 2, 3, 4, 5, 6, rng.choice([8, 13, 20])]),
                            **over)
    if sc["kind"] == "multi":
        sc["params"]["num_trees"] = min(3, sc["params"]["num_trees"])
    return {"sc": sc, "twice": rng.random() < 0.15}


def execute(spec, ctx):
    sc = spec["sc"]
    prog = [("fit", "train")]
    if spec["twice"]:
        prog += [("new",), ("fit", "train")]
    f = ctx.fed("train", sc, maybe_profile(ctx, "train", 0.3), program=prog)
    if not ctx.finished(f, "training"):
        return
    runs = list(zip(*[[r for o, r in p.log if o == "fit"] for p in f.parties]))
    for i, st in enumerate(runs):
        st = [dict(s) for s in st]
        if i:      # selections accumulate over the trainings of one process
            for s, old in zip(st, runs[i - 1]):
                s["selected"] = s["selected"][len(old["selected"]):]
        ref.importance(ctx.bad, sc, st)
        P = sc["params"]
        for p, s in enumerate(st):
            if s["selected"] and len(s["selected"]) != len(s["trees"]):
                ctx.bad("selections", "party %d drew %d selections for %d trees" % (p, len(s["selected"]),
                                                                                 len(s["trees"])))
        ctx.stat("selections_seen", sum(len(s["selected"]) for s in st))
        for s in st:
            ctx.stat("selections_distinct", len(set(map(tuple, s["selected"]))))
    st = states(f)
    fresh(ctx, sc, st)
    if any(not n["leaf"] for t in st[0]["trees"] for n in t["nodes"]):
        ctx.key([s["selected"] for s in st], tree_key(f))
    ctx.sample = "%s rate=%r -> importances %s" % (shape_of(sc), sc["params"]["subsample"], st[0]["importance"])


def fresh(ctx, sc, st):
    """Selections are drawn anew: with C(k, m)^-(T-1) below 1e-9, they cannot all be equal."""
    import math
    for p, s in enumerate(st):
        if len(s["selected"]) < 2:
            continue
        k = len(s["selected"][0])
        m = max(1, int(sc["params"]["subsample"] * k))
        c = math.comb(k, m)
        if c > 1:
            T = len(s["selected"])
            if c ** -(T - 1) < 1e-9 and len(set(map(tuple, s["selected"]))) == 1:
                ctx.bad("stale_selection", "party %d drew the same selection for all %d trees" % (p, T))
