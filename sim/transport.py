"""Scripts of directed and broadcast transport operations, and the queue model they must follow."""
import struct

from sim import env, kernel, world


BLOCKS = [16, 64, 100, 128, 256, 512, 1000, 1024, 1460, 1500, 2048, 4096, 8192, 10000, 16384, 32768, 65535, 65536]


def gen_payload(rng, small=False):
    """A JSON-able description of a payload."""
    if rng.random() < 0.25:     # a message of an exact length on the wire, next to a likely boundary
        n = rng.choice(BLOCKS[:8] if small else BLOCKS + [100000, 131072, 262144, 1000000, 1 << 20])
        return ["exact", max(40, n * rng.choice([1, 1, 1, 2, 3] if n <= 65536 else [1]) + rng.choice([-1, 0, 0, 1])),
                rng.randrange(10 ** 6)]
    k = rng.choice(["int", "str", "none", "bytes", "list", "dict", "nested", "array", "table", "node", "digits", "bool",
                    "tuple", "float", "set", "empty", "special", "shared"])
    size = rng.choice([0, 1, 5, 15, 16, 17, 30, 83, 99, 100, 200] + ([] if small else [985, 1000, 1024, 4096, 9990,
                                                                                       65536, 100000, 200000]))
    return [k, size, rng.randrange(10 ** 6)]


def build(desc):
    """Materialise a payload (inside a node)."""
    import random
    k, size, seed = desc
    r = random.Random(seed)
    if k == "int":
        return r.getrandbits(8 * size + 1) - (1 << (4 * size))
    if k == "str":
        return "".join(r.choice("ab é\u4e2d\x00") for _ in range(size))
    if k == "none":
        return None
    if k == "bool":
        return bool(seed % 2)
    if k == "float":
        return r.random()
    if k == "bytes":
        return bytes(r.randrange(256) for _ in range(size))
    if k == "exact":        # pickles to exactly `size` bytes
        import pickle
        n = max(0, size - 30)
        b = r.randbytes(n)
        for _ in range(8):
            d = size - len(pickle.dumps(b))
            if d == 0:
                break
            b = (b + r.randbytes(max(0, d)))[:len(b) + d]
        return b
    if k == "digits":       # looks like message headers
        return (("%-16d" % r.choice([0, 1, 5, 16, 100])) * (size // 16 + 1)).encode()[:size]
    if k == "list":
        return [r.randrange(1000) for _ in range(size // 3)]
    if k == "tuple":
        return tuple(r.random() for _ in range(size // 9))
    if k == "set":
        return {r.randrange(10 ** 6) for _ in range(size // 25)}
    if k == "empty":
        return r.choice([[], {}, "", b"", (), 0])
    if k == "dict":
        return {("k", i): [r.random(), None, "x" * (i % 5)] for i in range(size // 100)}
    if k == "nested":
        x = r.random()
        for i in range(min(40, size // 4)):
            x = r.choice([[x], {"a": x}, (x, i)])
        return x
    if k == "array":
        import numpy as np
        return np.arange(size // 8, dtype=float) * r.random()
    if k == "table":
        from computing.d_table import DTable
        return DTable(True, [("r%d" % i, (r.random(), i)) for i in range(size // 80)])
    if k == "special":
        return r.choice([float("nan"), float("inf"), -0.0, 5e-324, -(1 << 200), Ellipsis, b"\x80\x04", "\ud800", 1 + 2j, range(7),
                         frozenset([1, 2]), (None,), "16", ZeroDivisionError("x")])
    if k == "shared":       # one object twice: identity within a message survives too
        a = [r.random()]
        return [a, a, {"again": a}]
    if k == "node":
        from ml.tree.node import Node
        return [Node(id=i, fid=r.randrange(9)) for i in range(size // 60)]
    raise KeyError(k)


def plain(x):
    """Comparable form of a payload: types and values."""
    if isinstance(x, dict):
        return ("dict", [(plain(k), plain(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        kinds = set(map(type, x))
        if kinds == {int}:
            return (type(x).__name__, "int", list(x))
        if kinds == {float}:
            return (type(x).__name__, "float", struct.pack("<%dd" % len(x), *x).hex())
        return (type(x).__name__, [plain(v) for v in x])
    if isinstance(x, (set, frozenset)):
        return ("set", sorted(map(repr, x)))
    if isinstance(x, float):
        return ("float", struct.pack("<d", x).hex())
    if isinstance(x, str):
        return ("str", x.encode("utf-8", "backslashreplace").decode())
    if isinstance(x, (int, bytes, type(None))):
        return (type(x).__name__, x)
    if hasattr(x, "dtype"):
        return ("array", str(x.dtype), x.shape, x.tobytes().hex())
    if hasattr(x, "collect"):
        return ("table", plain([list(kv) for kv in x.collect()]), plain(dict(x.schema)))
    if type(x).__module__ == "builtins":
        return (type(x).__name__, repr(x))
    return (type(x).__name__, plain(dict(vars(x))))


def mutate(x):
    """Change a mutable payload in place (after it was sent)."""
    if isinstance(x, list):
        x.append("late")
    elif isinstance(x, dict):
        x["late"] = 1
    elif isinstance(x, set):
        x.add("late")
    elif hasattr(x, "dtype") and x.size:
        x[0] = -77.0
    elif hasattr(x, "collect"):
        x.schema["late"] = 1


def gen_script(rng, hosts, n, small=False, invalid=True):
    ops = []
    while len(ops) < n:
        r = rng.random()
        if r < 0.12 and invalid:
            ops.append([rng.choice(["bad_send", "bad_recv"]), rng.choice([hosts, hosts + 1, -2, -3, 99, -hosts - 1, -hosts]
                                                                     if hosts > 1 else [1, 2, -2, -5, 99])])
        elif r < 0.5:
            ops.append(["down", rng.choice([-1, -1] + list(range(hosts))), gen_payload(rng, small)])
        elif r < 0.7:
            ops.append(["up", rng.randrange(hosts), gen_payload(rng, small)])
        elif r < 0.9:
            ops.append(["gather", None, [gen_payload(rng, small) for _ in range(hosts)]])
        else:           # a burst: several messages in flight before anything is read
            h = rng.choice([-1] + list(range(hosts)))
            for _ in range(rng.randint(2, 5)):
                ops.append(["down" if rng.random() < 0.7 else ("up" if h >= 0 else "down"), h, gen_payload(rng, small)])
    return ops


class Endpoint(world.Party):
    """One end of the transport running its part of the script."""

    def run(self):
        self.phase = "connect"
        tr = self.tr = self.connect()
        self.phase = "talk"
        me = self.who - 1
        self.swallowed = []         # operations that returned although a send or receive in them failed
        for n, (op, i, pay) in enumerate([(o + [None])[:3] for o in self.fed.program]):
            errors = env.CUR.sock_errors
            if self.who == 0:
                if op == "down":
                    x = build(pay)
                    tr.send_data_to_hosts(x, i)
                    mutate(x)
                elif op == "up":
                    self.log.append((n, plain(tr.recv_data_from_hosts(i))))
                elif op == "gather":
                    r = tr.recv_data_from_hosts(-1)
                    self.log.append((n, ["all", type(r).__name__, [plain(v) for v in r]]))
                else:
                    before = [(len(c.up.tap), c.up.taken, len(c.down.tap)) for c in self.fed.k.conns]
                    taken = [c.up.taken for c in self.fed.k.conns]
                    sent = [len(c.down.tap) for c in self.fed.k.conns]
                    try:
                        r = tr.send_data_to_hosts(["misdirected"], i) if op == "bad_send" else tr.recv_data_from_hosts(i)
                        out = "returned %.60r" % (r,)
                    except ValueError:
                        out = "ValueError"
                    except OSError:
                        raise
                    except Exception as e:
                        out = type(e).__name__
                    if taken != [c.up.taken for c in self.fed.k.conns] or sent != [len(c.down.tap)
                                                                                   for c in self.fed.k.conns]:
                        out += " and moved data"
                    self.log.append((n, out))
                    del before
            else:
                if op == "down" and i in (-1, me):
                    self.log.append((n, plain(tr.recv_data_from_guest())))
                elif op == "up" and i == me:
                    x = build(pay)
                    tr.send_data_to_guest(x)
                    mutate(x)
                elif op == "gather":
                    x = build(pay[me])
                    tr.send_data_to_guest(x)
                    mutate(x)
            if env.CUR.sock_errors > errors:
                self.swallowed.append(n)
        self.phase = "end"
        return True


def expected(node, script, hosts):
    """What every endpoint must see: [guest log, host logs...]."""
    with env.within(node):
        logs = [[] for _ in range(hosts + 1)]
        for n, (op, i, pay) in enumerate([(o + [None])[:3] for o in script]):
            if op == "down":
                for h in range(hosts):
                    if i in (-1, h):
                        logs[h + 1].append((n, plain(build(pay))))
            elif op == "up":
                logs[0].append((n, plain(build(pay))))
            elif op == "gather":
                logs[0].append((n, ["all", "list", [plain(build(p)) for p in pay]]))
            else:
                logs[0].append((n, "ValueError"))
        return logs


def scenario(hosts, seed):
    return {"seed": seed, "parties": [{} for _ in range(hosts + 1)]}
