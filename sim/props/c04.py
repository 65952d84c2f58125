"""C04: a dead or disconnected peer is reported, never hung on or papered over."""
from sim import plans, transport, world
from sim.env import SimCrash
from sim.engine import blame_harness  # noqa
from sim.props import c03, common
from sim.props.common import shape_of
from sim.props.c02 import difference

CASES = {"quick": 520, "thorough": 15000}
RULE = ("a case is a random small scenario run once calmly, then many times with one to three crash, reset, cut or "
        "send-error faults placed at byte offsets of the recorded conversation (message and header boundaries, inside "
        "payloads, last bytes), half of them with a perturbed schedule; three cases in "
        "ten are bare transport scripts instead of training; non-trivial when a fault fired, distinct by "
        "event-log hash")
REPEATS = {"quick": 16, "thorough": 24}


def generate(rng, tier):
    if rng.random() < 0.3:
        hosts = rng.choice([1, 1, 2, 3, 4])
        return {"hosts": hosts, "script": transport.gen_script(rng, hosts, rng.choice([1, 2, 4, 8, 14]), True, False),
                "repeats": 3 * REPEATS[tier]}
    over = {}
    if rng.random() < 0.35:
        over.update(n_iter_no_change=True, tol=rng.choice([1e-4, 0.05, 0.5]))
    if rng.random() < 0.2:
        over["subsample"] = 0.5
    sc = world.gen_scenario(rng, n=rng.choice([4, 6, 8, 12, 16]), **over)
    sc["params"]["num_trees"] = min(2, sc["params"]["num_trees"])
    return {"sc": sc, "repeats": REPEATS[tier]}


def shrink(spec):
    return c03.shrink(spec) if "script" in spec else common.shrink(spec)


def script(spec, ctx):
    """Bare transport: whatever an endpoint got before its error must be what was sent to it, in order."""
    hosts, ops = spec["hosts"], spec["script"]
    sc = transport.scenario(hosts, spec["seed"])
    base = ctx.fed("base", sc, program=ops, party_cls=transport.Endpoint)
    if not ctx.finished(base, "calm run of script %.300s" % ops):
        return
    want = transport.expected(base.nodes[0], ops, hosts)
    pts, nb = plans.points(base), plans.total_bytes(base)
    if not nb:
        return
    for i in range(spec["repeats"]):
        prof = ctx.decide("profile%d" % i, lambda r: plans.gen_profile(r, nb) if r.random() < 0.5 else {})
        fl = ctx.decide("faults%d" % i, lambda r: [plans.gen_fault(r, pts, plans.FATAL)
                                                   for _ in range(r.choice([1, 1, 2]))])
        if not fl:
            continue
        f = ctx.fed("run%d" % i, sc, prof, fl, program=ops, party_cls=transport.Endpoint)
        if not settle(ctx, f, "script %.300s, faults %s" % (ops, fl)):
            return
        for p, t in enumerate(f.tasks):
            for n in getattr(f.parties[p], "swallowed", ()):
                ctx.bad("swallowed_error", "script %.300s, faults %s: operation %d of endpoint %d returned normally although "
                        "its connection was reported broken during it" % (ops, fl, n, p))
            got = f.parties[p].log
            if got != want[p][:len(got)]:
                x, y = [(x, y) for x, y in zip(got, want[p]) if x != y][0]
                ctx.bad("papered_over", "script %.300s, faults %s: endpoint %d, operation %d: got %.200r, %.200r was sent"
                        % (ops, fl, p, x[0], x[1], y[1]))
            elif t.exc is None and len(got) < len(want[p]):
                ctx.bad("short_return", "script %.300s, faults %s: endpoint %d made %d observations of %d and reports "
                        "nothing" % (ops, fl, p, len(got), len(want[p])))
        if ctx.bads:
            return
        if f.k.fault_counts:
            ctx.key(f.k.digest.hexdigest())
            ctx.stat("script_runs_with_fault")
    ctx.sample = "script %.200s; %d bytes" % (ops, nb)


def settle(ctx, f, what):
    """The run must end, and every survivor with a result or an ordinary error."""
    if f.outcome == "deadlock":
        ctx.bad("hang", "%s: %s" % (what, f.describe_failure()))
        return False
    if f.outcome == "budget":
        ctx.bad("spin", "%s: %s" % (what, f.describe_failure()))
        return False
    for p, t in enumerate(f.tasks):
        if t.exc is None or isinstance(t.exc, SimCrash):
            continue
        blame_harness(t)
        ctx.stat("reported_in_" + f.parties[p].phase)
        ctx.stat("reported_as_" + type(t.exc).__name__)
        if not isinstance(t.exc, Exception):
            ctx.bad("exit", "%s: party %d ends with %s instead of an error" % (what, p, type(t.exc).__name__))
    return True


def needs(base):
    """Per party and call: the bytes its peers send up to the end of the same call of theirs, as far as it reads them."""
    out = []
    for p in base.parties:
        mine = []
        for k in range(len(p.took)):
            d = {}
            for c in base.k.conns:
                if p.who == 0:
                    d[(c.id, "up")] = base.parties[c.id + 1].bounds[k + 1].get((c.id, "up"), 0)
                elif c.id == p.who - 1:
                    d[(c.id, "down")] = base.parties[0].bounds[k + 1].get((c.id, "down"), 0)
            mine.append({x: min(n, p.took[k].get(x, 0)) for x, n in d.items()})
        out.append(mine)
    return out


def execute(spec, ctx):
    if "script" in spec:
        return script(spec, ctx)
    sc = spec["sc"]
    b = world.gen_batch(ctx.rng("batch"), sc)
    prog = [("fit", "train"), ("predict", b), ("predict", "train")]
    if ctx.rng("prog").random() < 0.2:
        prog = [("fit", "train"), ("predict", b), ("new",), ("fit", "train"), ("predict", b)]
    base = ctx.fed("base", sc, program=prog)
    if not ctx.finished(base, "calm run"):
        return
    want = [[(p.who, o, r) for o, r in p.log] for p in base.parties]
    need = needs(base)
    pts = plans.points(base)
    nb = plans.total_bytes(base)
    for i in range(spec["repeats"]):
        prof = ctx.decide("profile%d" % i, lambda r: plans.gen_profile(r, nb) if r.random() < 0.4 else {})

        def faults(r):
            k = r.choice([1, 1, 1, 2, 3])
            fs = [plans.gen_fault(r, pts, plans.FATAL) for _ in range(k)]
            if r.random() < 0.2:
                fs.append(plans.gen_fault(r, pts, plans.TRANSIENT))
            return fs
        fl = ctx.decide("faults%d" % i, faults)
        if not fl:
            continue
        f = ctx.fed("run%d" % i, sc, prof, fl, program=prog)
        fired = {k: v for k, v in f.k.fault_counts.items()
                 if k in ("crash", "conn_reset", "conn_cut", "send_error")}
        what = "faults %s (fired %s)" % (fl, fired)
        if not settle(ctx, f, what):
            return
        nerr = sum(t.exc is not None and not isinstance(t.exc, SimCrash) for t in f.tasks)
        for p, t in enumerate(f.tasks):
            got = [(p, o, r) for o, r in f.parties[p].log]
            if t.exc is None and len(got) != len(want[p]):
                ctx.bad("short_return", "%s: party %d returned after %d of %d calls" % (what, p, len(got), len(want[p])))
            # whatever was returned before the error must be the undisturbed result
            if got != want[p][:len(got)]:
                ctx.bad("papered_over", "%s: party %d returned a different result as if it had succeeded: %s"
                        % (what, p, difference(want[p], got)))
            for k, took in enumerate(f.parties[p].took):
                for pipe, n in need[p][k].items():
                    if took.get(pipe, 0) < n:
                        ctx.bad("unheard", "%s: party %d finished call %d having received %d of the %d bytes of its peer's "
                                "side of the conversation" % (what, p, k, took.get(pipe, 0), n))
        if ctx.bads:
            return
        if fired:
            ctx.key(f.k.digest.hexdigest())
            ctx.stat("runs_with_fault")
            ctx.stat("survivors_reporting", nerr)
            if not nerr:
                ctx.stat("all_survivors_finished")
    ctx.sample = "%s; %d bytes; %d faulted runs" % (shape_of(sc), nb, spec["repeats"])
