"""C12: all parties run the same number of rounds and stop by the stated rule."""
from sim import ref, wire, world
from sim.props.common import maybe_profile, shape_of, shrink, states, tree_key  # noqa

CASES = {"quick": 1500, "thorough": 50000}
RULE = ("a case trains a random scenario with early stopping on (70%) or off, tolerances from zero to huge, up to eight "
        "rounds, half of the cases under a perturbed schedule, and compares rounds, trees and loss history of all parties with "
        "the stop rule and the reference loss of the scores; non-trivial when two or more rounds ran, distinct by loss "
        "history")


def generate(rng, tier):
    over = dict(num_trees=rng.choice([1, 2, 3, 4, 6, 8]), max_depth=rng.choice([1, 2, 2, 3]),
                learning_rate=rng.choice([0.1, 0.3, 1.0, 1.0]))
    if rng.random() < 0.7:
        over.update(n_iter_no_change=True, tol=rng.choice([0, 0.0, 1e-9, 1e-6, 1e-4, 1e-3, 0.01, 0.05, 0.2, 1.0, 100.0]))
    if rng.random() < 0.15:
        over["min_impurity_split"] = rng.choice([0.5, 5.0, 1000.0])
    if rng.random() < 0.1:
        over["subsample"] = 0.5
    many = rng.random() < 0.03
    if many:        # rounds by the dozen
        over.update(num_trees=rng.choice([33, 65, 101, 130]), max_depth=1, learning_rate=0.1, min_impurity_split=1e-3)
        if rng.random() < 0.5:
            over["n_iter_no_change"] = False
    sc = world.gen_scenario(rng, n=6 if many else rng.choice([4, 6, 8, 10, 14, 20]), **over)
    if sc["kind"] == "multi":
        sc["params"]["num_trees"] = min(35 if many else 4, sc["params"]["num_trees"])
    elif sc["task"] == "regression" and rng.random() < 0.1:
        sc["labels"] = [v * 1000 for v in sc["labels"]]
    return {"sc": sc, "twice": rng.random() < 0.1}


def execute(spec, ctx):
    sc = spec["sc"]
    prog = [("fit", "train")]
    if spec["twice"]:
        prog += [("new",), ("fit", "train")]
    f = ctx.fed("train", sc, maybe_profile(ctx, "train", 0.4), program=prog)
    if not ctx.finished(f, "training"):
        return
    for st in zip(*[[r for o, r in p.log if o == "fit"] for p in f.parties]):
        ref.history(ctx.bad, sc, st)
    st = states(f)
    M = st[0]["dim"]
    R = len(st[0]["trees"]) // max(1, M)
    ctx.stat("rounds", R)
    if R < sc["params"]["num_trees"]:
        ctx.stat("stopped_early")
    elif sc["params"]["n_iter_no_change"]:
        ctx.stat("tolerance_never_met")
    if R >= 2:
        ctx.key(st[0]["history"])
    ctx.sample = "%s tol=%r early=%r -> rounds %d, losses %s" % (
        shape_of(sc), sc["params"]["tol"], sc["params"]["n_iter_no_change"], R, st[0]["history"])
