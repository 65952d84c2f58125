"""C05: training and prediction always make progress while the network makes progress."""
from sim import plans, world
from sim.props.common import shape_of, shrink  # noqa

CASES = {"quick": 420, "thorough": 15000}
RULE = ("a case is a random scenario and program (fits and predictions, possibly several of each) run under small "
        "buffers, stalls, healed partitions, delays and fragmentation; every party must return from every call within "
        "the step budget with nothing left in any pipe; non-trivial when a perturbation fired, distinct by event-log "
        "hash")
REPEATS = {"quick": 3, "thorough": 5}


def generate(rng, tier):
    over = {}
    if rng.random() < 0.25:
        over["subsample"] = rng.choice([0.3, 0.6])
    if rng.random() < 0.4:
        over.update(n_iter_no_change=True, tol=rng.choice([1e-4, 0.05, 0.5, 100.0]))
    if rng.random() < 0.25:
        over["min_impurity_split"] = rng.choice([0.5, 5.0, 100.0])
    if rng.random() < 0.3:
        over["max_split_nodes"] = rng.choice([1, 2, 3])
    sc = world.gen_scenario(rng, big=True, **over)
    return {"sc": sc, "repeats": REPEATS[tier]}


def gen_program(rng, sc):
    prog = [("fit", "train")]
    for _ in range(rng.choice([0, 1, 2, 3])):
        r = rng.random()
        if r < 0.45:
            prog.append(("predict", world.gen_batch(rng, sc)))
        elif r < 0.7:
            prog.append(("predict", "train"))
        else:
            prog += [("new",), ("fit", "train")]
    return prog


def execute(spec, ctx):
    sc = spec["sc"]
    prog = gen_program(ctx.rng("program"), sc)
    nb = 600000
    for i in range(spec["repeats"] + 1):
        prof = {} if i == 0 else ctx.decide("profile%d" % i, lambda r: plans.gen_profile(
            r, nb, r.choice(["buffer", "buffer", "stall", "mixed", "latency", "fragment"])))
        faults = [] if i == 0 else ctx.decide("faults%d" % i, lambda r: [
            plans.gen_fault(r, pts, plans.TRANSIENT) for _ in range(r.choice([0, 1, 1, 3]))])
        if i and not prof and not faults:
            continue
        f = ctx.fed("run%d" % i, sc, prof, faults, program=prog)
        if not ctx.finished(f, "run %d of %s" % (i, [o[0] for o in prog])):
            return
        for c in f.k.conns:
            for p in c.pipes():
                left = len(p.tap) - p.taken
                if left:
                    ctx.bad("unread", "run %d: %d bytes sent by %s were never read by %s" % (i, left, p.writer, p.reader))
                    return
        if i == 0:
            pts = plans.points(f)
            nb = plans.total_bytes(f)
        else:
            if f.k.fault_counts:
                ctx.key(f.k.digest.hexdigest())
            ctx.stat("blocked_sends", f.k.fault_counts.get("send_blocked", 0))
    for o in prog:
        ctx.stat("op_" + o[0])
    ctx.sample = "%s; program %s; %d bytes" % (shape_of(sc), [o[0] for o in prog], nb)
