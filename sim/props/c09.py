"""C09: predictions follow the trained trees, row by row."""
import json

from sim import ref, world
from sim.props.common import maybe_profile, shape_of, shrink, states, tree_key  # noqa

CASES = {"quick": 1000, "thorough": 40000}
RULE = ("a case trains a random scenario, then predicts the training table, random batches (training rows, fresh rows, "
        "single rows), a permutation and a sub-batch of an earlier batch, each output row being compared with an "
        "independent walk of all parties' trees; non-trivial when a host decides at least one node, distinct by trees "
        "and batch")


def generate(rng, tier):
    over = {"threshold": rng.choice([0.5, 0.5, 0.5, 0.3, 0.8])}
    if rng.random() < 0.2:
        over["num_trees"] = rng.choice([3, 4])
    if rng.random() < 0.15:
        over.update(n_iter_no_change=True, tol=rng.choice([0.05, 0.5]))
    return {"sc": world.gen_scenario(rng, big=True, **over), "batches": rng.choice([2, 3, 4])}


def reorder(b, order, keys):
    return {"m": len(order), "cols": [[[c[j] for j in order] for c in p] for p in b["cols"]],
            "keys": keys, "labels": [b["labels"][j] for j in order], "src": [b["src"][j] for j in order]}


def execute(spec, ctx):
    sc = spec["sc"]
    rng = ctx.rng("batches")
    batches = ["train"] if rng.random() < 0.7 else []
    for _ in range(spec["batches"]):
        batches.append(world.gen_batch(rng, sc))
    if rng.random() < 0.35:     # the caller fills new rows into the table of the batch before
        batches[-1]["name"] = "reused"
        for _ in range(rng.choice([1, 1, 2])):
            b = world.gen_batch(rng, sc, batches[-1]["m"], rng.choice([None, 1]))
            b.update(keys=batches[-1]["keys"], into="reused", deep=rng.random() < 0.5)
            batches.append(b)
    b = batches[-1]
    order = list(range(b["m"]))
    rng.shuffle(order)
    order = order[:rng.randint(1, len(order))]
    batches.append(reorder(b, order, ["z%d" % i for i in range(len(order))]))
    if rng.random() < 0.5:
        batches.append(json.loads(json.dumps(batches[-2])))
    if rng.random() < 0.3:      # tables the caller drops after use, so that a later one may live at the same address
        for b in batches:
            if b != "train" and "name" not in b:
                b["dropped"] = True
    f = ctx.fed("run", sc, maybe_profile(ctx, "run", 0.3),
                program=[("fit", "train")] + [("predict", x) for x in batches])
    if not ctx.finished(f, "training and %d predictions" % len(batches)):
        return
    st = states(f)
    got = [r["pred"] for o, r in f.parties[0].log if o == "predict"]
    try:
        M = ref.Model(sc, st)
        for x, g in zip(batches, got):
            ref.predictions(ctx.bad, sc, M, x, g, "training table" if x == "train" else "batch of %d" % x["m"])
    except (IndexError, KeyError, ValueError) as e:
        ctx.bad("unwalkable_trees", "the parties' trees cannot be walked: %r" % e)
        return
    # a training row gets its training-time score
    keys = sc["keys"] or list(range(sc["n"]))
    if "train" in batches and sc["task"] == "regression":
        for k in keys:
            a, b2 = got[0][k][1], st[0]["scores"][k]
            b2 = b2[0] if isinstance(b2, list) else b2
            if abs(a - b2) > 1e-9 * (1 + abs(a)):
                ctx.bad("training_score", "row %r: predicted %r, training score %r" % (k, a, b2))
                break
    host = sum(not n["leaf"] and n["site"] != "guest" for t in st[0]["trees"] for n in t["nodes"])
    ctx.stat("host_nodes", host)
    ctx.stat("rows", sum(len(g) for g in got))
    if host:
        ctx.key(tree_key(f), [x if x == "train" else x["cols"] for x in batches])
    ctx.sample = "%s -> batches of %s rows" % (shape_of(sc), [len(g) for g in got])
