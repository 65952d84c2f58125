"""C03: the transport delivers each message exactly once, in order, intact, to its addressee."""
from sim import plans, transport, world

CASES = {"quick": 1200, "thorough": 60000}
RULE = ("a case is a random script of directed sends, broadcasts, gathers, bursts and invalid indices between a guest and "
        "one to four hosts, run calmly and under perturbations down to one-byte reads and writes and one-byte buffers; "
        "every value received is compared with a queue model; non-trivial when a perturbation fired, distinct by "
        "event-log hash")
REAL = ["federation/transfer_inst.py", "computing/d_table.py and ml/tree/node.py (as payloads)"]


HUGE = [10 ** 7, 1 << 21, 1 << 22, 1 << 23, 1 << 24, 1 << 24, 1 << 25]


def generate(rng, tier):
    if rng.random() < 0.012:        # a message of tens of megabytes, run calmly
        hosts = rng.choice([1, 2])
        big = ["exact", rng.choice(HUGE) + rng.choice([-1, 0, 0, 1, 1]), rng.randrange(10 ** 6)]
        script = [rng.choice([["down", rng.choice([-1, 0]), big], ["up", hosts - 1, big]]),
                  ["down", 0, transport.gen_payload(rng, True)], ["up", 0, transport.gen_payload(rng, True)]]
        return {"hosts": hosts, "script": script, "small": False, "repeats": 0}
    hosts = rng.choice([1, 1, 2, 2, 3, 4, 1, 2, 2, 3, rng.choice([5, 8, 12])])
    small = rng.random() < 0.6
    length = rng.choice([1, 3, 6, 12, 20]) if rng.random() < 0.96 else rng.choice([40, 100])
    return {"hosts": hosts, "script": transport.gen_script(rng, hosts, length, small or length > 20),
            "small": small, "repeats": 3}


def shrink(spec):
    s = spec["script"]
    for i in range(len(s)):
        yield dict(spec, script=s[:i] + s[i + 1:])
    for i, o in enumerate(s):
        if len(o) > 2 and o[0] != "gather" and o[2][1] > 1:
            yield dict(spec, script=s[:i] + [[o[0], o[1], [o[2][0], o[2][1] // 2, o[2][2]]]] + s[i + 1:])


def judge(ctx, f, want, what):
    for p, (a, b) in enumerate(zip([x.log for x in f.parties], want)):
        got = [(n, v) for n, v in a]
        if got == b:
            continue
        for x, y in zip(got, b):
            if x != y:
                ctx.bad("wrong_delivery", "%s: endpoint %d, operation %d: got %.200r, expected %.200r" % (
                    what, p, y[0], x[1], y[1]))
                break
        else:
            ctx.bad("wrong_delivery", "%s: endpoint %d made %d observations of %d" % (what, p, len(got), len(b)))
        return False
    for c in f.k.conns:
        for q in c.pipes():
            if len(q.tap) != q.taken:
                ctx.bad("unread", "%s: %d bytes sent by %s never consumed by %s" % (what, len(q.tap) - q.taken,
                                                                                  q.writer, q.reader))
                return False
    return True


def execute(spec, ctx):
    hosts, script = spec["hosts"], spec["script"]
    sc = transport.scenario(hosts, spec["seed"])
    want = None
    nb, pts = 100000, None
    for i in range(spec["repeats"] + 1):
        prof = {} if i == 0 else ctx.decide("profile%d" % i, lambda r: plans.gen_profile(r, nb))
        faults = [] if i == 0 else ctx.decide("faults%d" % i, lambda r: [
            plans.gen_fault(r, pts, plans.TRANSIENT) for _ in range(r.choice([0, 0, 1, 2]))])
        if i and not prof and not faults:
            continue
        f = ctx.fed("run%d" % i, sc, prof, faults, program=script, party_cls=transport.Endpoint)
        if not ctx.finished(f, "run %d of script %.300s" % (i, script)):
            return
        if want is None:
            want = transport.expected(f.nodes[0], script, hosts)
            pts = plans.points(f)
            if not any(x[2] for x in pts):
                pts = None
            nb = plans.total_bytes(f)
        if not judge(ctx, f, want, "run %d" % i):
            return
        if pts is None:
            break
        if f.k.fault_counts:
            ctx.key(f.k.digest.hexdigest())
    for o in script:
        ctx.stat("op_" + o[0])
    ctx.sample = "%d hosts, script %.300s" % (hosts, script)
