"""C10: calls are repeatable; inputs are not altered; models survive restart."""
from sim import plans, ref, world
from sim.engine import blame_harness
from sim.props.common import maybe_profile, shape_of, shrink, states, tree_key  # noqa
from sim.props.c02 import difference

CASES = {"quick": 800, "thorough": 30000}
RULE = ("a case trains a random scenario, repeats predictions, fits the same tables again with a fresh model, and "
        "restarts all or some parties from what they had serialised (in half the cases after a party was killed in the "
        "middle of a prediction), comparing every result with the first; non-trivial when a host decides at least one "
        "node, distinct by trees and restart kind")


def generate(rng, tier):
    over = {}
    if rng.random() < 0.2:
        over.update(n_iter_no_change=True, tol=rng.choice([1e-4, 0.05, 0.5]))
    # with subsampling a second fit draws other features; it is compared only for restart
    if rng.random() < 0.15:
        over["subsample"] = 0.5
    return {"sc": world.gen_scenario(rng, big=True, **over), "crash": rng.random() < 0.5,
            "refit": rng.random() < 0.5, "poke": rng.random() < 0.4}


def poke(party):
    """Things an application may do between calls: look at its tables and results."""
    for t in party.fed.tables[party.who].values():
        t.count()
        t.first()
        list(t.collect())
    return None


def preds(f):
    return [r["pred"] for o, r in f.parties[0].log if o == "predict"]


def unchanged(ctx, f, what):
    for p in f.parties:
        for o, r in p.log:
            if o in ("fit", "predict") and not r.get("input_same", True):
                ctx.bad("input_altered", "%s: %s at party %d altered the table it was given" % (what, o, p.who))
                return False
    return True


def execute(spec, ctx):
    sc = spec["sc"]
    b1 = world.gen_batch(ctx.rng("b1"), sc)
    b2 = world.gen_batch(ctx.rng("b2"), sc, m=sc["n"])
    prog = [("fit", "train"), ("predict", b1), ("predict", "train"), ("save",), ("predict", b1), ("predict", b2),
            ("predict", "train"), ("predict", b1), ("save",)]
    if spec["poke"]:
        prog[3:3] = [("call", poke)]
    again = 0
    if spec["refit"]:
        again = len(prog)
        prog += [("new",), ("fit", "train"), ("predict", b1), ("predict", "train")]
    f = ctx.fed("run", sc, maybe_profile(ctx, "run", 0.3), program=prog, snap=True)
    if not ctx.finished(f, "repeated calls %s" % [o[0] for o in prog]):
        return
    if not unchanged(ctx, f, "repeated calls"):
        return
    st = states(f)
    pr = preds(f)
    names = [o[1] if o[1] == "train" else ("b1" if o[1] is b1 else "b2") for o in prog if o[0] == "predict"]
    first = {}
    # subsampling and balance mode draw afresh in a second fit (other features, other rounding)
    exact = sc["params"]["subsample"] >= 1 and sc["params"]["mode"] != "balance"
    npre = len([o for o in prog[:again or len(prog)] if o[0] == "predict"])
    for i, (nm, r) in enumerate(zip(names, pr)):
        if i >= npre and not exact:
            break
        if nm in first and first[nm] != r:
            ctx.bad("not_repeatable" if i < npre else "refit_differs",
                    "prediction %d of %s differs from the first: %s" % (i, nm, diff(first[nm], r)))
            return
        first.setdefault(nm, r)
    for p in f.parties:
        saves = [r for o, r in p.log if o == "save"]
        if saves[0] != saves[1]:
            ctx.bad("model_altered", "predicting changed the model of party %d" % p.who)
            return
        fits = [r for o, r in p.log if o == "fit"]
        trees = [r["trees"] for o, r in p.log if o == "predict"][:npre]
        if any(t != fits[0]["trees"] for t in trees):
            ctx.bad("model_altered", "predicting changed the trees of party %d" % p.who)
            return
        if len(fits) > 1 and exact:
            for k in ("trees", "bins", "history", "importance", "init", "classes", "scores"):
                if fits[0].get(k) != fits[1].get(k):
                    ctx.bad("refit_differs", "party %d: a second fit of the same table gives another %s: %.300r / %.300r"
                            % (p.who, k, fits[0].get(k), fits[1].get(k)))
                    return
    saved = [[r for o, r in p.log if o == "save"][0] for p in f.parties]
    want = first
    # restart: everybody from durable state only
    if spec["crash"]:
        pts = plans.points(f)
        fl = ctx.decide("crash", lambda r: [plans.gen_fault(r, pts, ["crash_writer", "crash_reader", "reset"])])
        if fl:
            g = ctx.fed("crash", sc, None, fl, program=prog, snap=True)
            for t in g.tasks:
                blame_harness(t)
            if not unchanged(ctx, g, "run with a crash"):
                return
            sv = [[r for o, r in p.log if o == "save"] for p in g.parties]
            if all(sv):
                saved = [s[0] for s in sv]        # what was on disk at each party when it died
                ctx.stat("restarts_from_crashed_run")
    prog2 = [("load", saved), ("predict", b1), ("predict", "train"), ("save",), ("predict", b2)]
    g = ctx.fed("restart", sc, maybe_profile(ctx, "restart", 0.3), program=prog2, snap=True)
    if not ctx.finished(g, "prediction after restart from serialised models"):
        return
    if not unchanged(ctx, g, "after restart"):
        return
    for nm, r in zip(["b1", "train", "b2"], preds(g)):
        if r != want[nm]:
            ctx.bad("restart_differs", "after restart the prediction of %s differs: %s" % (nm, diff(want[nm], r)))
            return
    for p, s in zip(g.parties, saved):
        s2 = [r for o, r in p.log if o == "save"][0]
        if s2 != s:
            ctx.bad("restart_model_differs", "party %d: the reloaded model serialises differently" % p.who)
            return
    host = sum(not n["leaf"] and n["site"] != "guest" for t in st[0]["trees"] for n in t["nodes"])
    ctx.stat("restarts")
    if host:
        ctx.key(tree_key(f), spec["crash"])
    ctx.sample = "%s; %d predictions repeated, restart%s" % (shape_of(sc), len(pr), " after a crash" if spec["crash"] else "")


def diff(a, b):
    for k in a:
        if a[k] != b.get(k):
            return "row %r: %.200r / %.200r" % (k, a[k], b.get(k))
    return "rows %s / %s" % (sorted(map(str, a))[:5], sorted(map(str, b))[:5])
