"""Decode what travelled on the simulated wire."""
import io
import pickle

from sim import env


class Msg:
    __slots__ = ("obj", "start", "end", "conn", "dir")

    def __init__(self, obj, start, end, conn, d):
        self.obj, self.start, self.end, self.conn, self.dir = obj, start, end, conn, d


def decode(pipe, node, conn=None, d=None):
    """All complete messages of a pipe, unpickled in the given node's namespace.

    Normal framing is a 16-byte decimal length; any other framing is tolerated by
    looking for the next pickle.
    """
    data = bytes(pipe.tap)
    out, pos = [], 0
    with env.within(node):
        while pos < len(data):
            head = data[pos:pos + 16]
            obj = None
            try:
                n = int(head)
                body = data[pos + 16:pos + 16 + n]
                if len(body) < n:
                    break
                obj = pickle.loads(body)
                end = pos + 16 + n
            except Exception:
                q = pos
                while True:
                    q = data.find(b"\x80", q)
                    if q < 0:
                        return out
                    f = io.BytesIO(data[q:])
                    try:
                        obj = pickle.load(f)
                        end = q + f.tell()
                        break
                    except Exception:
                        q += 1
            out.append(Msg(obj, pos, end, conn, d))
            pos = end
    return out


def conversation(fed):
    """Every message of every connection: [(conn index, 'up'|'down', [Msg])].  up = host to guest."""
    out = []
    for c in fed.k.conns:
        g, h = fed.nodes[0], fed.nodes[c.id + 1]
        out.append((c.id, "up", decode(c.up, g, c.id, "up")))
        out.append((c.id, "down", decode(c.down, h, c.id, "down")))
    return out


ATOMS = (bool, int, float, complex, str, bytes, bytearray, type(None))


def children(x):
    """(label, child) pairs of a decoded value."""
    if isinstance(x, dict):
        for k, v in x.items():
            yield ("key", k)
            yield ("[%r]" % (k,), v)
    elif isinstance(x, (list, tuple, set, frozenset)):
        for i, v in enumerate(x):
            yield ("[%d]" % i, v)
    elif isinstance(x, ATOMS):
        return
    else:
        nd = getattr(x, "tolist", None)
        if callable(nd) and type(x).__module__.split(".")[0] == "numpy":
            v = x.tolist()
            yield (".tolist()", v)
            return
        dd = getattr(x, "__dict__", None)
        if dd:
            for k, v in dd.items():
                yield ("." + str(k), v)
        for k in getattr(type(x), "__slots__", ()) or ():
            if isinstance(k, str) and hasattr(x, k):
                yield ("." + k, getattr(x, k))
        if not dd and hasattr(x, "SerializeToString"):
            yield (".proto", x.SerializeToString())
        if callable(x) and hasattr(x, "func"):
            yield (".func", x.args)
            yield (".kw", x.keywords)


def walk(x, path="", owner=None, seen=None, depth=0):
    """Yield (path, owner type name, atom) for all atoms of a value."""
    if isinstance(x, ATOMS):
        yield path, owner, x
        return
    seen = {} if seen is None else seen
    if id(x) in seen or depth > 60:
        return
    seen[id(x)] = x           # keep it alive, so that the id stays its own
    o = type(x).__name__ if not isinstance(x, (list, tuple, dict, set, frozenset)) else owner
    for lab, ch in children(x):
        if isinstance(ch, ATOMS):
            yield path + lab, o, ch
        else:
            yield from walk(ch, path + lab, o, seen, depth + 1)


def is_int(v):
    return isinstance(v, int) and not isinstance(v, bool)


def cipher_limit(key_length):
    """Integers longer than this are ciphertexts (or the public square)."""
    return key_length + key_length // 4


def clear(obj, key_length):
    """The clear part of a message: every atom with its path; ciphertexts and their public exponents masked."""
    lim = cipher_limit(key_length)
    out = []
    for path, owner, v in walk(obj):
        if is_int(v) and v.bit_length() > lim:
            v = "<big>"
        elif path.endswith(".exponent"):
            v = "<exponent>"
        out.append((path, type(v).__name__, repr(v)))
    return out


def clears(fed, dirs, conns=None):
    kl = fed.sc["params"]["key_length"]
    return [[(m.conn, m.dir), clear(m.obj, kl)] for c, d, ms in conversation(fed) if d in dirs
            and (conns is None or c in conns) for m in ms]


def first_difference(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            for p, q in zip(x[1], y[1]):
                if p != q:
                    return "message %d on connection %s: %.200s / %.200s" % (i, x[0], p, q)
            return "message %d on connection %s: %d / %d atoms" % (i, x[0], len(x[1]), len(y[1]))
    return "%d / %d messages" % (len(a), len(b))


# --------------------------------------------------------------------------
# the training conversation, by protocol position

class Unparsed(Exception):
    pass


class Reader:
    def __init__(self, up, down):
        self.q = {"up": list(up), "down": list(down)}
        self.i = {"up": 0, "down": 0}

    def next(self, d):
        i = self.i[d]
        if i >= len(self.q[d]):
            raise Unparsed("%s stream ends early" % d)
        self.i[d] += 1
        return self.q[d][i].obj

    def left(self, d):
        return len(self.q[d]) - self.i[d]


def rows(t):
    """Key -> value of a table message."""
    if isinstance(t, dict):
        return t
    c = getattr(t, "collect", None)
    if not callable(c):
        raise Unparsed("expected a table, got %.80r" % (t,))
    return dict(c())


def training(fed, conn, P, dim_rounds=None):
    """Parse the fit part of one connection: list of trees
    {enc: rows, levels: [{queue, pos, batches: [(stats, answer, final)], sent, result}], tree}"""
    by = {(c, d): ms for c, d, ms in conversation(fed) if c == conn}
    r = Reader(by[(conn, "up")], by[(conn, "down")])
    dim = r.next("down")
    if not is_int(dim):
        raise Unparsed("expected the tree dimension, got %.80r" % (dim,))
    n_trees = len(fed.parties[0].model.trees_)
    trees = []
    for t in range(n_trees):
        tr = {"enc": rows(r.next("down")), "levels": []}
        for dep in range(P["max_depth"]):
            first, pos = r.next("down"), None
            if not isinstance(first, (list, tuple)):        # the rows' positions may come before the open nodes
                first, pos = r.next("down"), rows(first)
            q = [getattr(x, "id") for x in first]
            if not q:
                break
            lv = {"queue": q, "pos": rows(r.next("down")) if pos is None else pos, "batches": []}
            for i in range(0, len(q), P["max_split_nodes"]):
                stats = r.next("up")
                ans = r.next("down")
                fin = r.next("up")
                lv["batches"].append((q[i:i + P["max_split_nodes"]], stats, ans, fin))
            lv["sent"] = rows(r.next("down"))
            lv["result"] = rows(r.next("up"))
            tr["levels"].append(lv)
        tr["tree"] = r.next("down")
        trees.append(tr)
        if P["n_iter_no_change"] and (t + 1) % dim == 0:
            r.next("down")
    return dim, trees, r
