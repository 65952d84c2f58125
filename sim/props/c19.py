"""C19: performance and security settings do not change what is learned."""
import json

from sim import compare, ref, world
from sim.props.common import maybe_profile, shape_of, shrink, states, tree_key  # noqa

CASES = {"quick": 700, "thorough": 30000}
RULE = ("a case trains the same random data twice or more with the same randomness (each under a random network), "
        "changing the split batch size, key length, encryption mode, re-encryption rate, dense/sparse representation, "
        "or adding a host with constant features, and walks both models in step; splits may differ only where their "
        "gains tie within rounding; distinct by model and changed settings")


def generate(rng, tier):
    over = {}
    if rng.random() < 0.2:
        over["subsample"] = rng.choice([0.4, 0.7])
    if rng.random() < 0.15:
        over.update(n_iter_no_change=True, tol=rng.choice([1e-4, 0.05]))
    sc = world.gen_scenario(rng, big=True, **over)
    if rng.random() < 0.4:
        sc["params"]["mode"] = "strict"
    if rng.random() < 0.5:
        sc["params"]["max_depth"] = max(3, sc["params"]["max_depth"])
    return {"sc": sc, "variants": rng.choice([1, 2, 3])}


KNOBS = ["batch", "batch", "key", "mode", "repr", "constant", "several"]


def vary(rng, sc, batch):
    s, b = json.loads(json.dumps(sc)), json.loads(json.dumps(batch))
    knob = rng.choice(KNOBS)
    P = s["params"]
    done = []

    def one(k):
        if k == "batch":
            P["max_split_nodes"] = rng.choice([x for x in (1, 2, 3, 4, 65536) if x != P["max_split_nodes"]])
        elif k == "key":
            P["key_length"] = rng.choice([x for x in (256, 288, 384, 512, 320) if x != P["key_length"]])
        elif k == "mode":
            P["mode"] = rng.choice([x for x in ("strict", "fast", "balance") if x != P["mode"]])
            P["re_rate"] = rng.choice([0, 0.3, 0.5, 0.9, 1])
        elif k == "repr":
            for p in s["parties"]:
                if rng.random() < 0.7:
                    p["repr"] = {"dense": "sparse", "sparse": "dense"}.get(p["repr"], p["repr"])
        elif k == "constant":
            c = [rng.choice([0.0, 1.0, -4.25]) for _ in range(rng.randint(1, 2))]
            i = len(s["parties"])
            s["parties"].append({"cols": [[v] * s["n"] for v in c], "names": ["host%d_f%d" % (i, j) for j in range(len(c))],
                                 "repr": rng.choice(["dense", "sparse"])})
            s["idx"].append(max(s["idx"]) + rng.choice([1, 1, 5]))
            b["cols"].append([[v] * b["m"] for v in c])
        done.append(k)
    if knob == "several":
        for k in rng.sample(["batch", "key", "mode", "repr", "constant"], 3):
            one(k)
    else:
        one(knob)
    return "+".join(done), s, b


def execute(spec, ctx):
    sc = spec["sc"]
    batch = world.gen_batch(ctx.rng("batch"), sc)
    a = ctx.fed("base", sc, maybe_profile(ctx, "base", 0.2), program=[("fit", "train"), ("predict", batch)])
    if not ctx.finished(a, "training"):
        return
    st = states(a)
    what = []
    for i in range(spec["variants"]):
        name, s, b = vary(ctx.rng("vary%d" % i), sc, batch)
        f = ctx.fed("variant%d" % i, s, maybe_profile(ctx, "variant%d" % i, 0.2),
                    program=[("fit", "train"), ("predict", b)])
        if not ctx.finished(f, "training with other %s" % name):
            return
        try:
            whole = compare.same_model(ctx.bad, sc, st, s, states(f), "changed " + name, ctx.stats)
        except (IndexError, KeyError, ValueError) as e:
            ctx.bad("unwalkable_trees", "the parties' trees cannot be walked: %r" % e)
            return
        if ctx.bads:
            return
        if whole:
            compare.same_predictions(ctx.bad, a.last(0, "predict")["pred"], f.last(0, "predict")["pred"],
                                     "changed " + name)
        ctx.stat("changed_" + ("several" if "+" in name else name))
        ctx.key(tree_key(a), name)
        what.append(name)
    ctx.sample = "%s; changed %s" % (shape_of(sc), ", ".join(what))
