"""Shared pieces of the property modules."""
from sim import engine, plans, ref, world

shrink_scenario = engine.shrink_scenario


def shrink(spec):
    for sc in shrink_scenario(spec["sc"]):
        yield dict(spec, sc=sc)


def states(f):
    return [f.last(i, "fit") for i in range(len(f.sc["parties"]))]


def shape_of(sc):
    P = sc["params"]
    return "%s n=%d hosts=%d feats=%s trees=%d depth=%d bins=%d batch=%d minleaf=%d minsplit=%d mode=%s key=%d" % (
        sc["kind"], sc["n"], len(sc["parties"]) - 1, [len(p["cols"]) for p in sc["parties"]], P["num_trees"],
        P["max_depth"], P["bin_num"], P["max_split_nodes"], P["min_leaf_node"], P["min_sample_split"], P["mode"],
        P["key_length"])


def maybe_profile(ctx, tag, prob=0.5, nbytes=600000):
    """A perturbation profile for this run, or {} for a calm one."""
    return ctx.decide("profile/" + tag, lambda r: plans.gen_profile(r, nbytes) if r.random() < prob else {})


def tree_key(f):
    """What distinguishes one trained model from another."""
    out = []
    for s in states(f):
        for t in s["trees"]:
            out.append([(n["id"], n["site"], n["fid"], n["leaf"]) for n in t["nodes"]])
    return out
