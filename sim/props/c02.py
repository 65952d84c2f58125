"""C02: results do not depend on message timing or scheduling."""
from sim import plans, ref, world
from sim.props.common import shape_of, shrink, states, tree_key  # noqa

CASES = {"quick": 330, "thorough": 12000}
RULE = ("a case is a random scenario whose training and predictions are run once calmly and then under several random "
        "perturbations (delays, short reads and writes, small buffers, stalls, healed partitions, clock jumps); "
        "non-trivial when the perturbed run took a different interleaving, distinct by event-log hash")
REPEATS = {"quick": 4, "thorough": 6}


def generate(rng, tier):
    over = {}
    if rng.random() < 0.3:
        over["subsample"] = rng.choice([0.4, 0.7])
    if rng.random() < 0.3:
        over.update(n_iter_no_change=True, tol=rng.choice([1e-4, 0.05, 0.5]))
    sc = world.gen_scenario(rng, big=True, **over)
    return {"sc": sc, "repeats": REPEATS[tier]}


def observe(f):
    out = []
    for p in f.parties:
        for op, r in p.log:
            out.append((p.who, op, r))
    return out


def program(spec, ctx):
    b = world.gen_batch(ctx.rng("batch"), spec["sc"])
    return [("fit", "train"), ("predict", "train"), ("predict", b)]


def difference(a, b):
    for x, y in zip(a, b):
        if x != y:
            if isinstance(x[2], dict) and isinstance(y[2], dict):
                for k in x[2]:
                    if x[2][k] != y[2].get(k):
                        return "party %d, %s: %s was %.300r, now %.300r" % (x[0], x[1], k, x[2][k], y[2].get(k))
            return "party %d %s: %.300r / %.300r" % (x[0], x[1], x, y)
    return "different number of results"


def execute(spec, ctx):
    sc = spec["sc"]
    prog = program(spec, ctx)
    base = ctx.fed("base", sc, program=prog)
    if not ctx.finished(base, "calm run"):
        return
    want = observe(base)
    pts = plans.points(base)
    nb = plans.total_bytes(base)
    seen = {base.k.digest.hexdigest()}
    for i in range(spec["repeats"]):
        prof = ctx.decide("profile%d" % i, lambda r: plans.gen_profile(r, nb))
        faults = ctx.decide("faults%d" % i, lambda r: [plans.gen_fault(r, pts, plans.TRANSIENT)
                                                       for _ in range(r.choice([0, 0, 1, 2, 4]))])
        if not prof and not faults:
            continue
        f = ctx.fed("run%d" % i, sc, prof, faults, program=prog)
        if not ctx.finished(f, "perturbed run %d" % i):
            return
        got = observe(f)
        if got != want:
            ctx.bad("result_differs", "perturbed run %d: %s" % (i, difference(want, got)))
            return
        d = f.k.digest.hexdigest()
        if d not in seen:
            seen.add(d)
            ctx.key(d)
        ctx.stat("style_" + prof.get("profile_style", "none"))
    ctx.sample = "%s; %d bytes exchanged; %d perturbed runs agreed" % (shape_of(sc), nb, spec["repeats"])
