"""Scenarios (data, parameters, party programs) and federations that execute them."""
import math

from sim import env, kernel

DEFAULTS = dict(num_trees=2, max_depth=3, learning_rate=0.3, subsample=1.0, n_iter_no_change=False, tol=1e-4,
                bin_num=32, min_sample_split=2, min_impurity_split=1e-3, min_leaf_node=1, max_split_nodes=65536,
                reg_lambda=0.1, importance="split", key_length=256, mode="strict", re_rate=1, threshold=0.5)


# --------------------------------------------------------------------------
# scenario generation

def gen_column(rng, n, kind):
    r = rng
    if kind == "dense":
        return [round(r.gauss(0, 1), 4) for _ in range(n)]
    if kind == "tied":
        vals = [round(r.gauss(0, 2), 1) for _ in range(r.randint(2, 4))]
        return [r.choice(vals) for _ in range(n)]
    if kind == "sparse":
        return [round(r.gauss(0, 2), 3) if r.random() < 0.4 else 0.0 for _ in range(n)]
    if kind == "constant":
        c = r.choice([0.0, 1.5, -2.0])
        return [c] * n
    if kind == "negative":
        return [-round(abs(r.gauss(0, 1)) + 0.01, 3) for _ in range(n)]
    if kind == "positive":
        return [round(abs(r.gauss(0, 1)) + 0.01, 3) for _ in range(n)]
    if kind == "int":
        return [float(r.randint(-3, 3)) for _ in range(n)]
    if kind == "large":
        return [round(r.gauss(0, 1e4), 1) for _ in range(n)]
    if kind == "small":
        return [round(r.gauss(0, 1), 2) * 1e-3 for _ in range(n)]
    if kind == "flag":
        return [float(r.random() < 0.5) for _ in range(n)]
    if kind == "skewed":
        return [round(math.exp(r.gauss(0, 2)), 3) for _ in range(n)]
    if kind == "outlier":
        c = r.choice([0.0, 1.0, -3.5])
        v = [c] * n
        for _ in range(r.randint(1, max(1, n // 5))):
            v[r.randrange(n)] = round(r.gauss(0, 50), 2)
        return v
    if kind == "rank":
        v = [float(i) for i in range(n)]
        r.shuffle(v)
        return v
    if kind == "huge":
        return [round(r.gauss(0, 1), 3) * 1e8 for _ in range(n)]
    if kind == "mixed":
        z, neg, d = r.random(), r.random(), r.choice([0, 1, 2, 4])
        return [0.0 if r.random() < z else round(abs(r.gauss(0, 3)), d) * (-1 if r.random() < neg else 1) for _ in range(n)]
    if kind in ("rising", "falling"):
        v = sorted(round(r.gauss(0, 3), 4) for _ in range(n))
        return v if kind == "rising" else v[::-1]
    raise KeyError(kind)


KINDS = ["dense", "dense", "tied", "sparse", "negative", "positive", "int", "large", "small", "constant", "flag", "skewed",
         "outlier", "rank", "huge", "mixed"]


LARGE_KINDS = KINDS + ["rising", "falling", "falling", "mixed", "mixed", "mixed", "mixed", "mixed"]


def gen_party(rng, n, nfeat, tag, kinds=KINDS):
    cols = [gen_column(rng, n, rng.choice(kinds)) for _ in range(nfeat)]
    return {"cols": cols, "names": ["%s_f%d" % (tag, i) for i in range(nfeat)],
            "repr": rng.choice(["dense", "dense", "sparse", "stored"])}


def signal(rng, parties, n):
    """A noisy score that depends on columns of several parties."""
    s = [rng.gauss(0, 0.3) for _ in range(n)]
    for p in parties:
        for c in p["cols"]:
            if rng.random() < 0.6:
                m = sum(c) / n
                sd = math.sqrt(sum((v - m) ** 2 for v in c) / n) or 1.0
                w = rng.gauss(0, 1)
                s = [a + w * (v - m) / sd for a, v in zip(s, c)]
    if rng.random() < 0.3 and len(parties) > 1:
        a, b = rng.sample(range(len(parties)), 2)
        ca, cb = rng.choice(parties[a]["cols"]), rng.choice(parties[b]["cols"])
        ma, mb = sorted(ca)[n // 2], sorted(cb)[n // 2]
        s = [v * 0.3 + (2 if (x > ma) != (y > mb) else -2) for v, x, y in zip(s, ca, cb)]
    return s


ONE = 0.04      # share of multi-class cases whose labels are all of one class


def gen_labels(rng, parties, n, task, classes):
    s = signal(rng, parties, n)
    if task == "regression":
        k = rng.choice([1.0, 1.0, 5.0])
        r = rng.random()
        if r < 0.04:
            return [rng.choice([2.0, -1.5])] * n
        if r < 0.1:
            return [float(round(v * 2)) for v in s]
        if r < 0.15:
            return [round(v * 1000, 1) for v in s]
        return [round(v * k + rng.choice([0, 3]), 3) for v in s]
    order = sorted(range(n), key=lambda i: s[i])
    lab = [None] * n
    power = rng.choice([1, 1, 1, 1, 3, 0.4])      # class balance
    for rank, i in enumerate(order):
        lab[i] = classes[min(len(classes) - 1, int(len(classes) * (rank / n) ** power))]
    for _ in range(rng.randint(0, max(1, n // 6))):
        lab[rng.randrange(n)] = rng.choice(classes)
    for j, c in enumerate(classes):     # every class occurs
        if c not in lab:
            lab[j % n] = c
    if any(c not in lab for c in classes):
        for j, c in enumerate(classes):
            lab[j] = c
    return lab


def gen_scenario(rng, task=None, n=None, hosts=None, feats=None, big=False, **over):
    """A random scenario as a JSON-able dict; `big` also draws the occasional larger one."""
    xl = big and rng.random() < 0.14
    n = n or (rng.choice([40, 60, 90, 130]) if xl and rng.random() < 0.7
              else rng.choice([4, 6, 8, 10, 12, 16, 20, 24, 30]))
    wide = rng.choice(["hosts", "features", "classes", "bins", "rounds", "depth", "leaves"]) if xl else None
    hosts = hosts or (rng.choice([5, 6, 8, 11]) if wide == "hosts" else rng.choice([1, 1, 1, 2, 2, 3] + ([4] if big else [])))
    if not task:
        task = "multi" if wide == "classes" else rng.choice(["binary", "binary", "multi", "lse", "lae", "huber", "fair", "log_cosh"])
        if task == "lse" and rng.random() < 0.2:
            task = "tweedie"
    parties = []
    for i in range(hosts + 1):
        nf = (feats or (lambda i: rng.choice([2, 8, 12, 16]) if wide == "features" else
                        rng.choice([1, 2] if wide == "hosts" else [1, 2, 2, 3, 4])))(i)
        parties.append(gen_party(rng, n, nf, "guest" if i == 0 else "host%d" % i,
                                 KINDS if n < 400 else LARGE_KINDS))
    classes = None
    obj, params = "cross_entropy", None
    if task == "binary":
        classes = rng.choice([["0", "1"], ["0", "1"], [0, 1], ["no", "yes"], [3, 7], [-1, 1], [0.0, 1.0]])
    elif task == "multi":
        k = 1 if rng.random() < ONE and not wide else rng.choice([5, 6, 8, 11]) if wide == "classes" and n > 22 else rng.choice([3, 3, 4]) if n > 6 else 3
        classes = rng.choice([[str(i) for i in range(k)], list(range(k)), ["c%d" % (i * 3) for i in range(k)],
                              [5 * i - 4 for i in range(k)]])
    else:
        obj = task
        if task in ("huber", "fair"):
            params = [rng.choice([0.5, 1.0, 2.0])]
        elif task == "tweedie":
            params = [rng.choice([1.1, 1.3, 1.5, 1.9])]
    labels = gen_labels(rng, parties, n, "classification" if classes else "regression", classes)
    if task == "log_cosh" and rng.random() < 0.3:       # residuals whose hessians are tiny or vanish
        k = rng.choice([20, 60, 150, 300])
        labels = [round(v * k, 3) for v in labels]
    if wide == "depth" and classes is None and task not in ("tweedie", "log_cosh") and rng.random() < 0.5:
        o = sorted(range(n), key=labels.__getitem__)        # labels that split off one row at a time: a tree like a chain
        for k, i in enumerate(o):
            labels[i] = float(3 ** min(k, 24))
    if wide == "leaves":        # labels nothing explains well: trees grow wide
        rng.shuffle(labels)
    if task == "tweedie":       # counts and amounts
        labels = [min(20.0, round(abs(v), 2)) + rng.choice([0, 1.0]) for v in labels]
        labels[0] += n if sum(labels) < n else 0
    idx = list(range(hosts))
    if rng.random() < 0.25:
        rng.shuffle(idx)
    elif rng.random() < 0.2 and hosts < 12:        # any distinct numbers will do
        idx = rng.sample([0, 1, 2, 3, 9, 10, 11, 12, 20, 100, 101, 111], hosts)
    sc = {"seed": rng.randrange(10 ** 9), "n": n, "parties": parties, "labels": labels, "idx": idx,
          "task": "classification" if classes else "regression", "objective": obj, "obj_params": params,
          "kind": task, "keys": None}
    if rng.random() < 0.3:
        ks = list(range(100, 100 + 3 * n, 3)) if rng.random() < 0.5 else ["k%03d" % i for i in range(n)]
        rng.shuffle(ks)
        sc["keys"] = ks
    p = dict(DEFAULTS)
    p.update(num_trees=rng.choice([1, 2, 2, 3]), max_depth=rng.choice([1, 2, 3, 3, 4]),
             learning_rate=rng.choice([0.1, 0.3, 0.3, 1.0]),
             bin_num=rng.choice([2, 3, 4, 8, 32, 32]), min_sample_split=rng.choice([2, 2, 2, 3, 5]),
             min_leaf_node=rng.choice([1, 1, 1, 2, 3]),
             min_impurity_split=rng.choice([1e-3, 1e-3, 1e-2, 0.05, 0.5]),
             max_split_nodes=rng.choice([65536, 65536, 1, 2, 3]), reg_lambda=rng.choice([0.1, 0.1, 1.0, 0.01]),
             importance=rng.choice(["split", "gain"]), key_length=rng.choice([256, 256, 256, 288, 384]),
             mode=rng.choice(["strict", "strict", "fast", "balance"]), re_rate=rng.choice([1, 0.5, 0.3, 0]))
    if task == "multi":
        p["num_trees"] = min(p["num_trees"], 2)
        p["max_depth"] = min(p["max_depth"], 3)
    if wide == "rounds":
        p["num_trees"] = rng.choice([4, 5, 7, 9, 12])
        p["max_depth"] = min(p["max_depth"], 3)
    elif wide in ("depth", "leaves"):
        p["max_depth"] = rng.choice([5, 6, 8, 8, 12, 20])
        p["num_trees"] = min(p["num_trees"], 2)
        p["max_split_nodes"] = rng.choice([65536, 65536, 4, 8, 16])
        if wide == "leaves":
            p.update(min_leaf_node=1, min_sample_split=2, min_impurity_split=1e-3, bin_num=32)
    elif wide == "bins":
        p["bin_num"] = rng.choice([48, 64, 100, 256])
    elif wide == "hosts":
        p["num_trees"] = min(p["num_trees"], 2)
    if big and classes and rng.random() < 0.04:      # bold steps: probabilities next to, or equal to, zero and one
        p.update(learning_rate=rng.choice([4.0, 15.0, 50.0]))
    if task == "tweedie":
        p.update(num_trees=min(2, p["num_trees"]), learning_rate=0.1, reg_lambda=1.0)
    p.update(over)
    sc["params"] = p
    return sc


def gen_batch(rng, sc, m=None, fresh=None):
    """A batch of rows to predict, aligned over the parties: training rows, fresh rows, or a mix."""
    n = sc["n"]
    m = m or rng.choice([1, 2, 5, n])
    fresh = rng.random() if fresh is None else fresh
    src = []
    for _ in range(m):
        src.append(rng.randrange(n) if rng.random() >= fresh else None)
    cols = []
    for p in sc["parties"]:
        pc = []
        for c in p["cols"]:
            out = []
            for s in src:
                if s is not None:
                    out.append(c[s])
                else:
                    v = c[rng.randrange(n)]
                    out.append(v if rng.random() < 0.5 else round(v + rng.gauss(0, 1), 4))
            pc.append(out)
        cols.append(pc)
    keys = rng.choice([None, list(range(50, 50 + m)), ["q%d" % i for i in range(m)][::-1]])
    labels = [sc["labels"][s] if s is not None else rng.choice(sc["labels"]) for s in src]
    return {"m": m, "cols": cols, "keys": keys, "labels": labels, "src": src}


# --------------------------------------------------------------------------
# inside a node

def make_table(cols, names, keys, labels, rep, id_tag="id"):
    """Build a data table from plain columns (runs inside a node)."""
    import numpy as np
    from computing.d_table import DTable
    from ml.feature.instance import Instance
    from ml.feature.sparse_vector import SparseVector
    n = len(cols[0])
    rows = []
    for j in range(n):
        vals = [c[j] for c in cols]
        if rep in ("sparse", "stored"):
            ind = [i for i, v in enumerate(vals) if v != 0.0 or rep == "stored" and (3 * j + i) % 4 == 0]
            if rep == "stored" and j % 2:
                ind.reverse()
            f = SparseVector(ind, [vals[i] for i in ind], len(vals))
        else:
            f = np.array(vals)
        rows.append(Instance(inst_id="%s%d" % (id_tag, j), features=f, label=labels[j] if labels else None))
    t = DTable(True, list(zip(keys, rows))) if keys else DTable(False, rows)
    t.schema["header"] = list(names)
    return t


def fill(t, other, deep=False):
    """Overwrite the rows of a table with those of another one that has the same keys."""
    a, b = list(t.collect()), list(other.collect())
    assert [k for k, v in a] == [k for k, v in b]
    for (k, old), (k, new) in zip(a, b):
        old.inst_id, old.label = new.inst_id, new.label
        if deep and hasattr(old.features, "dtype") and len(old.features) == len(new.features):
            old.features[:] = new.features
        else:
            old.features = new.features
    t.schema["header"] = list(other.schema["header"])


def plain_table(t):
    """A plain snapshot of a data table (for comparing before and after)."""
    out = []
    for k, v in t.collect():
        f = v.features
        if type(f).__name__ == "SparseVector":
            fv = ("sparse", sorted(f.sparse_vec.items()), f.shape)
        else:
            fv = (type(f).__name__, getattr(getattr(f, "dtype", None), "str", None), list(map(float, f)))
        out.append((k, v.inst_id, v.weight, v.label, fv))
    return out, {k: list(x) if isinstance(x, list) else x for k, x in t.schema.items()}


def plain_num(x):
    if isinstance(x, bool) or x is None or isinstance(x, (int, str)):
        return x
    if getattr(x, "ndim", 0) or isinstance(x, (list, tuple)):
        return [plain_num(v) for v in x]
    try:
        return float(x)
    except (TypeError, ValueError):
        return [plain_num(v) for v in x]


def plain_trees(trees):
    out = []
    for t in trees:
        out.append({"nodes": [dict(id=n.id, site=n.sitename, fid=n.fid, bid=n.bid, weight=n.weight,
                                   leaf=bool(n.is_leaf), left=n.left_nodeid, right=n.right_nodeid)
                              for n in t.tree_],
                    "mask": {int(k): float(v) for k, v in dict(t.split_maskdict).items()}})
    return out


def plain_predict(t):
    out = {}
    for k, v in t.collect():
        lab, pred, score, detail = v[0], v[1], v[2], v[3]
        out[k] = [plain_num(lab), plain_num(pred), float(score),
                  {a: float(b) for a, b in detail.items()}] + list(v[4:])
    return out


def observed_predict(res):
    try:
        return plain_predict(res)
    except Exception as e:
        raise Misbehaved("predict returned %.200r (%s: %s)" % (res, type(e).__name__, e))


def configure(param, sc):
    """Fill a BoostingTreeParam from a scenario."""
    p = sc["params"]
    t = param.tree_param
    t.criterion_params = [p["reg_lambda"]]
    t.max_depth = p["max_depth"]
    t.min_sample_split = p["min_sample_split"]
    t.min_impurity_split = p["min_impurity_split"]
    t.min_leaf_node = p["min_leaf_node"]
    t.max_split_nodes = p["max_split_nodes"]
    t.feature_importance_type = p["importance"]
    param.task_type = sc["task"]
    param.objective_param.objective = sc["objective"]
    param.objective_param.params = sc["obj_params"]
    param.learning_rate = p["learning_rate"]
    param.num_trees = p["num_trees"]
    param.subsample_feature_rate = p["subsample"]
    param.n_iter_no_change = p["n_iter_no_change"]
    param.tol = p["tol"]
    param.bin_num = p["bin_num"]
    param.encrypt_param.key_length = p["key_length"]
    param.encrypted_mode_calculator_param.mode = p["mode"]
    param.encrypted_mode_calculator_param.re_encrypted_rate = p["re_rate"]
    param.predict_param.threshold = p["threshold"]
    return param


PORT = 12345


class Misbehaved(Exception):
    """A public call returned something no caller could use."""


class Party:
    """The harness side of one simulated process: builds the model, runs the listed operations."""

    def __init__(self, fed, who):
        self.fed, self.who = fed, who        # who: 0 guest, 1.. hosts (connection order)
        self.sc = fed.sc
        self.log = []                        # (op, result)
        self.model = None
        self.selected = []                   # feature selections, in call order
        self.bounds = []                     # per operation, bytes already sent on every pipe
        self.took = []                       # per finished operation, bytes consumed from every pipe
        self.phase = "start"

    def table(self, ds):
        """ds: 'train', or a batch dict, or {'ref': 'train', ...}."""
        cache = self.fed.tables[self.who]
        key = ds if isinstance(ds, str) else ds.get("name", id(ds))
        if key in cache:
            return cache[key]
        into = None if isinstance(ds, str) else ds.get("into")
        p = self.sc["parties"][self.who]
        if ds == "train":
            cols, keys, labels = p["cols"], self.sc["keys"], self.sc["labels"]
        else:
            cols, keys, labels = ds["cols"][self.who], ds["keys"], ds["labels"]
        t = make_table(cols, p["names"], keys, labels if self.who == 0 else None, p["repr"],
                       id_tag=self.sc.get("id_tag", "rowid_%d_") % self.who)
        if into in cache:       # the caller writes the new rows into a table it used before
            fill(cache[into], t, ds.get("deep"))
            return cache[into]
        if isinstance(ds, str) or not ds.get("dropped"):
            cache[key] = t
        return t

    def connect(self):
        if self.who == 0:
            from federation.transfer_inst import TransferInstGuest
            return TransferInstGuest(PORT, len(self.sc["parties"]) - 1)
        from federation.transfer_inst import TransferInstHost
        return TransferInstHost(port=PORT)

    def new_model(self):
        if self.who == 0:
            from ml.tree.hetero_secureboosting_tree_guest import HeteroSecureBoostingTreeGuest as M
        else:
            from ml.tree.hetero_secureboosting_tree_host import HeteroSecureBoostingTreeHost as M
        m = M()
        configure(m.model_param, self.sc)
        return m

    def prepare(self, tr):
        m = self.new_model()
        m._init_model(m.model_param)
        m.set_transfer_inst(tr)
        if self.who > 0:
            m.set_runtime_idx(self.sc["idx"][self.who - 1])
        self.watch(m)
        self.model = m
        return m

    def watch(self, m):
        f = getattr(m, "sample_valid_features", None)
        if callable(f):
            def rec():
                r = f()
                self.selected.append([bool(x) for x in r])
                return r
            m.sample_valid_features = rec

    def run(self):
        self.phase = "connect"
        tr = self.tr = self.connect()
        self.prepare(tr)
        for op in self.fed.program:
            self.phase = op[0]
            self.bounds.append({(c.id, d): len(p.tap) for c in self.fed.k.conns
                                for d, p in (("up", c.up), ("down", c.down))})
            self.do(op)
            self.took.append({(c.id, d): p.taken for c in self.fed.k.conns for d, p in (("up", c.up), ("down", c.down))})
        self.bounds.append({(c.id, d): len(p.tap) for c in self.fed.k.conns
                            for d, p in (("up", c.up), ("down", c.down))})
        self.phase = "end"
        return True

    def do(self, op):
        m = self.model
        if op[0] == "fit":
            t = self.table(op[1])
            before = plain_table(t) if self.fed.snap else None
            m.fit(t)
            r = self.state()
            if self.fed.snap:
                r["input_same"] = before == plain_table(t)
            self.log.append((op[0], r))
        elif op[0] == "predict":
            t = self.table(op[1])
            before = plain_table(t) if self.fed.snap else None
            res = m.predict(t)
            r = {"pred": observed_predict(res) if self.who == 0 else None,
                 "trees": plain_trees(m.trees_)}
            if self.fed.snap:
                r["input_same"] = before == plain_table(t)
            self.log.append((op[0], r))
        elif op[0] == "save":
            self.log.append(("save", self.save()))
        elif op[0] == "load":
            self.load(op[1][self.who])
            self.log.append(("load", None))
        elif op[0] == "new":        # a fresh model object on the same connection
            self.prepare(self.tr)
            self.log.append(("new", None))
        elif op[0] == "call":
            self.log.append(("call", op[1](self)))
        else:
            raise KeyError(op[0])

    def save(self):
        m = self.model
        s = {"trees": [t.SerializeToString() for t in m.trees_],
             "meta": m.tree_meta.SerializeToString() if m.tree_meta is not None else None, "dim": m.tree_dim}
        if self.who == 0:
            s.update(init=[float(x) for x in m.init_score], classes=list(m.classes_), num=m.num_classes)
        return s

    def load(self, s):
        from arch.api.boosting_tree_model_meta_pb2 import DecisionTreeModelMeta
        from arch.api.boosting_tree_model_param_pb2 import DecisionTreeModelParam
        import numpy as np
        m = self.model
        m.trees_ = [DecisionTreeModelParam.FromString(b) for b in s["trees"]]
        m.tree_meta = DecisionTreeModelMeta.FromString(s["meta"]) if s["meta"] is not None else None
        m.tree_dim = s["dim"]
        if self.who == 0:
            m.init_score = np.array(s["init"])
            m.classes_ = list(s["classes"])
            m.num_classes = s["num"]
            m.set_loss(m.objective_param)

    def state(self):
        """What the model holds, as plain data."""
        m = self.model
        r = {"trees": plain_trees(m.trees_), "dim": m.tree_dim,
             "bins": [[float(v) for v in f] for f in m.bin_split_points],
             "selected": [list(s) for s in self.selected]}
        if self.who == 0:
            r.update(history=[float(x) for x in m.history_loss],
                     importance={"%s/%s" % (k[0], k[1]): float(v) for k, v in m.feature_importances_.items()},
                     init=plain_num(m.init_score),
                     # a regression model has no classes, whatever its object was used for before
                     classes=list(m.classes_) if self.sc["task"] == "classification" else [],
                     num=m.num_classes if self.sc["task"] == "classification" else 0,
                     scores={k: plain_num(v) for k, v in m.F.collect()})
        return r


class Federation:
    """One simulated execution of a program over a scenario."""

    def __init__(self, sc, choices, profile=None, faults=None, program=None, snap=False, max_steps=1_500_000,
                 party_cls=Party, tables=None, before=None, trace=False):
        self.sc = sc
        self.snap = snap
        self.program = program or [("fit", "train"), ("predict", "train")]
        self.k = kernel.Kernel(choices, profile, max_steps)
        if trace:
            self.k.trace = []
        self.faults = faults or []
        n = len(sc["parties"])
        self.tables = tables or [dict() for _ in range(n)]
        self.k.on_conn = self._conn
        self.nodes, self.parties, self.tasks = [], [], []
        step = (profile or {}).get("start_step", 1.0)  # the guest listens before the first host starts
        self.delays = [i * step for i in range(n)]
        for i in range(n):
            nd = kernel.Node("guest" if i == 0 else "host%d" % i, sc["seed"], self.k)
            self.nodes.append(nd)
            p = party_cls(self, i)
            self.parties.append(p)
        if before:
            before(self)
        for i in range(n):
            self.tasks.append(self.k.spawn(self.nodes[i], self.nodes[i].name, self.parties[i].run, delay=self.delays[i]))

    def _conn(self, c):
        i = c.id
        for f in self.faults:
            if f["conn"] == i:
                pipe = c.up if f["dir"] == "up" else c.down
                pipe.limits.append((f["pos"], f["kind"], f.get("arg")))
        for p in c.pipes():
            p.limits.sort(key=lambda x: x[0])
        if i == len(self.sc["parties"]) - 2:
            self.k.perturb = True

    def run(self):
        self.outcome = self.k.run()
        return self

    # -- access
    def exc(self, i):
        t = self.tasks[i]
        return t.exc

    def errors(self):
        out = []
        for t in self.tasks:
            if t.exc is not None:
                out.append("%s: %s: %s" % (t.name, type(t.exc).__name__, str(t.exc)[:300]))
        return out

    def last(self, i, op):
        for o, r in reversed(self.parties[i].log):
            if o == op:
                return r
        return None

    def results(self):
        """Everything a user can see, for equality comparison."""
        return [[(o, r) for o, r in p.log if o != "save"] for p in self.parties]

    def describe_failure(self):
        s = "outcome=%s" % self.outcome
        if self.k.stuck:
            s += " stuck=%s" % (self.k.stuck,)
        for e in self.errors():
            s += "; " + e
        return s


def tb_of(fed):
    return {t.name: t.tb for t in fed.tasks if t.tb}
