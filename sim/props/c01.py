"""C01: federated training is lossless with respect to centralised boosting."""
from sim import env, ref, world
from sim.props.common import maybe_profile, shape_of, shrink, states, tree_key  # noqa

CASES = {"quick": 2200, "thorough": 60000}
LARGE = 0.025
RULE = ("a case is a random vertically partitioned dataset with random parameters, trained by the real parties over "
        "simulated sockets (half of the cases under a perturbed schedule) and replayed node by node against a "
        "centralised reference; non-trivial when at least one split was made, distinct by scenario shape and trees")


def generate(rng, tier):
    over = {}
    if rng.random() < 0.15:
        over["subsample"] = rng.choice([0.3, 0.5, 0.8])
    r = rng.random()
    if r < LARGE:       # sizes at which quantiles are summarised: from 500 rows, and beyond one buffer of 10000
        n = rng.choice([500, 569, 801, 1200, 1999, 3000]) if r > LARGE * 0.3 else rng.choice([10000, 10001, 10600, 12000])
        over.update(num_trees=1 if n > 2000 else 2, max_depth=rng.choice([1, 2]), bin_num=rng.choice([2, 4, 8, 32]))
        sc = world.gen_scenario(rng, n=n, hosts=1, feats=lambda i: 1 if n > 2000 else rng.choice([1, 2]), **over)
        return {"sc": sc}
    if r < LARGE + 0.055:        # many fine bins of larger columns
        over.update(num_trees=1, max_depth=1, bin_num=rng.choice([4, 32, 64, 256, 256]), key_length=256)
        sc = world.gen_scenario(rng, task=rng.choice(["binary", "lse"]), n=rng.choice([200, 501, 900, 1200, 2500, 2500, 3999]), hosts=1,
                                feats=lambda i: [24, 1][i], **over)
        return {"sc": sc, "only_bins": True}
    if r < LARGE + 0.085:        # many bold rounds: probabilities close to 0 and 1
        over.update(num_trees=rng.choice([4, 6, 8]), max_depth=rng.choice([1, 2, 3]), learning_rate=rng.choice([1.0, 2.0, 4.0]),
                    reg_lambda=rng.choice([0.01, 0.1, 0.1, 1.0]))
        task = rng.choice(["binary", "binary", "multi"])
        return {"sc": world.gen_scenario(rng, task=task, n=rng.choice([6, 8, 12, 20]), hosts=rng.choice([1, 2]), **over)}
    sc = world.gen_scenario(rng, big=True, **over)
    return {"sc": sc}


def execute(spec, ctx):
    sc = spec["sc"]
    f = ctx.fed("train", sc, maybe_profile(ctx, "train", 0.3, max(600000, 1000 * sc["n"])), program=[("fit", "train")])
    if not ctx.finished(f, "training"):
        return
    st = states(f)
    stats = {}
    ref.structure(ctx.bad, sc, st)
    if ctx.bads:
        return
    ref.bins_ok(ctx.bad, sc, st)
    if spec.get("only_bins"):
        ctx.stat("only_bins", sum(len(p["cols"]) for p in sc["parties"]))
        ctx.key(shape_of(sc), tree_key(f))
        ctx.sample = shape_of(sc)
        return
    ref.lossless(ctx.bad, sc, st, stats)
    slopes(ctx, f)
    for k, v in stats.items():
        ctx.stat(k, v)
    ctx.stat("kind_" + sc["kind"])
    if stats.get("splits_host", 0) + stats.get("splits_guest", 0):
        ctx.key(shape_of(sc), tree_key(f))
    ctx.sample = shape_of(sc) + " -> " + str(stats)


def slopes(ctx, f):
    """The gradients the guest boosts on are the derivatives of the loss it reports (see the known finding)."""
    if f.sc["kind"] != "tweedie":       # the others are compared with the reference formulas on every training row
        return
    loss = f.parties[0].model.loss
    with env.within(f.nodes[0]):
        from computing.d_table import DTable

        def at(y, v):
            return float(loss.compute_loss(DTable(True, [("r", y)]), DTable(True, [("r", v)])))
        y, v, e = 2.5, 1.2, 1e-4
        g = float(loss.compute_grad(y, v))
        d = (at(y, v + e) - at(y, v - e)) / (2 * e)
    if abs(d - g) > 1e-3 * (1 + abs(d)):
        ctx.bad("loss_gradient", "tweedie with rho %r at y=%r F=%r: gradient %r, slope of the loss %r" % (
            f.sc["obj_params"][0], y, v, g, d))
