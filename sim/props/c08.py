"""C08: all parties finish training with one consistent model."""
from sim import ref, world
from sim.props.common import maybe_profile, shape_of, shrink, states, tree_key  # noqa

CASES = {"quick": 1900, "thorough": 60000}
RULE = ("a case is a random scenario trained by the real parties (half under a perturbed schedule; some trained twice on "
        "one connection, some followed by predictions); the trees every party holds afterwards are compared; "
        "non-trivial when some tree has an internal node, distinct by trees")


def generate(rng, tier):
    over = {}
    if rng.random() < 0.2:
        over["subsample"] = rng.choice([0.3, 0.5, 0.8])
    if rng.random() < 0.3:
        over["max_split_nodes"] = rng.choice([1, 2, 3])
    if rng.random() < 0.25:
        over.update(n_iter_no_change=True, tol=rng.choice([1e-4, 0.05, 0.5]))
    return {"sc": world.gen_scenario(rng, big=True, **over), "twice": rng.random() < 0.1}


def execute(spec, ctx):
    sc = spec["sc"]
    prog = [("fit", "train")]
    if spec["twice"]:
        prog += [("new",), ("fit", "train")]
    if ctx.rng("p").random() < 0.3:
        prog.append(("predict", world.gen_batch(ctx.rng("batch"), sc)))
    f = ctx.fed("train", sc, maybe_profile(ctx, "train", 0.4), program=prog)
    if not ctx.finished(f, "training"):
        return
    st = states(f)
    ref.structure(ctx.bad, sc, st)
    if prog[-1][0] == "predict":
        for p in range(len(st)):
            if f.last(p, "predict")["trees"] != st[p]["trees"]:
                ctx.bad("predict_changes_model", "party %d holds different trees after predicting" % p)
    inner = sum(not n["leaf"] for t in st[0]["trees"] for n in t["nodes"])
    host = sum(not n["leaf"] and n["site"] != "guest" for t in st[0]["trees"] for n in t["nodes"])
    ctx.stat("internal_nodes", inner)
    ctx.stat("host_nodes", host)
    ctx.stat("trees", len(st[0]["trees"]))
    if inner:
        ctx.key(tree_key(f))
    ctx.sample = "%s -> %d trees, %d internal nodes (%d at hosts)" % (shape_of(sc), len(st[0]["trees"]), inner, host)
