"""Perturbation profiles and fault plans."""


def gen_profile(rng, nbytes=20000, style=None):
    """How the network and the scheduler misbehave in one run (no message is ever lost)."""
    style = style or rng.choice(["latency", "fragment", "buffer", "stall", "mixed", "mixed", "mixed"])
    mix = style == "mixed"
    p = {"profile_style": style}
    if style in ("latency", "mixed") and (not mix or rng.random() < 0.8):
        p["lat_w"] = rng.choice([[0.5, 0.4, 0.1], [0.8, 0.1, 0.1], [0.2, 0.4, 0.4]])
        p["lat_d"] = [0.00005, rng.choice([0.0005, 0.01]), rng.choice([0.1, 2.0, 60.0])]
    if style in ("fragment", "mixed") and (not mix or rng.random() < 0.7):
        p["short_send"] = rng.choice([0.1, 0.5, 0.9])
        p["short_recv"] = rng.choice([0.1, 0.5, 0.9])
    if style in ("buffer", "mixed") and (not mix or rng.random() < 0.6):
        small = max(1, nbytes // 6000)
        p["cap"] = max(small, rng.choice([1, 2, 7, 16, 17, 64, 512, 4096, 65536]))
    if style in ("stall", "mixed") or rng.random() < 0.3:
        p["preempt_w"] = rng.choice([[0.7, 0.28, 0.02], [0.3, 0.6, 0.1], [0.95, 0.04, 0.01]])
        p["preempt_d"] = [0, rng.choice([1e-5, 1e-3]), rng.choice([1.0, 30.0, 3600.0])]
    if rng.random() < 0.25:
        p["start_step"] = rng.choice([10.0, 120.0, 7200.0])
    return p


def points(fed):
    """Per pipe of a finished calm run: total bytes, send marks and where each operation of the guest begins."""
    out = []
    for c in fed.k.conns:
        for d, p in (("up", c.up), ("down", c.down)):
            starts = [b.get((c.id, d), 0) for b in fed.parties[0].bounds] or [0]
            out.append((c.id, d, len(p.tap), list(p.marks), starts))
    return out


def total_bytes(fed):
    return sum(x[2] for x in points(fed))


def gen_position(rng, pts):
    """A byte position inside the conversation, biased to message and header boundaries and spread over phases."""
    cand = [x for x in pts if x[2] > 0]
    conn, d, n, marks, starts = rng.choice(cand)
    lo, hi = 0, n
    if rng.random() < 0.6:
        i = rng.randrange(len(starts))
        a, b = starts[i], (starts[i + 1] if i + 1 < len(starts) else n)
        if b > a:
            lo, hi = a, b
    marks = [m for m in marks if lo <= m < hi]
    r = rng.random()
    if r < 0.35 and marks:
        pos = rng.choice(marks)
    elif r < 0.6 and marks:
        pos = rng.choice(marks) + rng.randint(1, 18)
    elif r < 0.7:
        pos = hi - rng.randint(1, min(hi - lo, 20))
    else:
        pos = rng.randrange(lo, hi)
    return conn, d, max(0, min(n - 1, pos)), n


TRANSIENT = ["partition", "partition_one_way", "clock_jump"]
FATAL = ["crash_writer", "crash_reader", "reset", "cut", "send_error"]


def gen_fault(rng, pts, kinds):
    conn, d, pos, n = gen_position(rng, pts)
    k = rng.choice(kinds)
    f = {"conn": conn, "dir": d, "pos": pos, "kind": k}
    if k.startswith("partition"):
        f["arg"] = rng.choice([0.01, 1.0, 300.0])
    elif k == "clock_jump":
        f["arg"] = rng.choice([-86400.0, -1.0, 3600.0, 1e9])
    elif k == "send_error":
        f["arg"] = rng.choice([32, 104, 105, 110, 113])   # EPIPE ECONNRESET ENOBUFS ETIMEDOUT EHOSTUNREACH
    return f
