"""C15: the guest and host programs work end to end."""
import os
import re
import sys

from sim import env, plans, world
from sim.engine import blame_harness
from sim.props.common import maybe_profile, shrink_scenario

CASES = {"quick": 220, "thorough": 12000}
RULE = ("a case starts guest.py and one host.py per host as separate simulated processes with real arguments and files on "
        "simulated disks (short reads, log writes that fail or come out short), hosts starting in any order, under a random "
        "schedule; splits, printed accuracy, trees and predictions are compared with equivalent library calls; distinct by "
        "data, arguments and faults")
REAL = ["guest.py", "host.py", "i_o/utils.py", "ml/utils/logger.py", "federation/transfer_inst.py", "computing/d_table.py",
        "both parties' trainers and everything below them", "the standard logging package"]
ASSUME = ["key length shortened through the parameter object in most cases (cost); the default 1024 bits in the rest",
          "log files can be opened at start; they fail later"]


def generate(rng, tier):
    n = rng.choice([2, 3, 4, 5, 6, 8, 10, 12, 16, 24, 40])
    task = rng.choice(["binary", "binary", "multi"]) if n > 5 else "binary"
    hosts = rng.choice([1, 1, 2, 3, 1, 2, 3, rng.choice([1, 4, 5])])
    if rng.random() < 0.05:
        n, hosts = rng.choice([101, 130, 260]), rng.choice([1, 1, 2])
    sc = world.gen_scenario(rng, task=task, n=n, hosts=hosts, feats=lambda i: rng.choice([1, 2, 3, 5]))
    cl = sorted({str(x) for x in sc["labels"]})
    sc["labels"] = [str(x) for x in sc["labels"]]
    sc["keys"] = None
    for p in sc["parties"]:
        p["repr"] = "dense"
    order = list(range(1, hosts + 1))
    rng.shuffle(order)
    ratio = rng.choice([0.5, 0.6, 0.7, 0.75, 0.8, 0.9, round(rng.uniform(0.05, 0.99), 3)])
    if int(n * ratio) < 1:
        ratio = 0.5
    if int(n * ratio) >= n:
        ratio = 0.6
    return {"sc": sc, "ratio": ratio, "port": rng.choice([12345, 5000, 60001]), "order": order,
            "bits": rng.choice([256, 256, 256, 320]) if rng.random() < 0.98 or n > 8 else None,
            "log": [gen_log(rng) for _ in range(hosts + 1)], "chunk": rng.choice([None, None, 1, 7, "random"]),
            "nl": rng.choice(["\n", "\n", "\r\n"]), "last": rng.random() < 0.8, "classes": len(cl)}


def gen_log(r):
    x = r.random()
    if x < 0.4:
        return None
    return {"kind": r.choice(["full", "error", "sporadic", "short"]), "after": r.choice([0, 1, 100, 500, 2000, 5000, 20000]),
            "errno": r.choice([28, 5, 122, 27])}


def shrink(spec):
    for sc in shrink_scenario(spec["sc"]):
        k = len(sc["parties"]) - 1
        if sc["n"] >= 2 and 1 <= int(sc["n"] * spec["ratio"]) < sc["n"]:
            yield dict(spec, sc=sc, order=[i for i in spec["order"] if i <= k], log=spec["log"][:k + 1])
    for i, l in enumerate(spec["log"]):
        if l:
            yield dict(spec, log=spec["log"][:i] + [None] + spec["log"][i + 1:])
    if spec["chunk"]:
        yield dict(spec, chunk=None)


def csv_text(spec, who):
    sc = spec["sc"]
    p = sc["parties"][who]
    head = ["id"] + (["y"] if who == 0 else []) + p["names"]
    rows = [head]
    for j in range(sc["n"]):
        rows.append(["row%d" % j] + ([sc["labels"][j]] if who == 0 else []) + [repr(c[j]) for c in p["cols"]])
    return spec["nl"].join(",".join(r) for r in rows) + (spec["nl"] if spec["last"] else "")


def disk(spec, who, ctx, node):
    fs = env.SimFS()
    name = "guest.csv" if who == 0 else "host.csv"
    fs.files["/simfs/" + name] = bytearray(csv_text(spec, who).encode())
    r = ctx.rng("disk%d" % who)
    k = node.kernel

    def read(path, pos, n):
        c = spec["chunk"]
        m = n if c is None else r.randint(1, max(1, n)) if c == "random" else c
        if m < n:
            k.count("disk_short_read")
        return m
    fs.read_plan = read
    lf = spec["log"][who] if who < len(spec["log"]) else None
    if lf:
        def write(path, n, total):
            if total <= lf["after"]:
                return n
            if lf["kind"] == "sporadic" and r.random() < 0.6:
                return n
            if lf["kind"] == "short" and r.random() < 0.7 and n > 1:
                k.count("log_short_write")
                return r.randint(1, n - 1)
            k.count("log_write_error")
            raise OSError(lf["errno"], os.strerror(lf["errno"]))
        fs.write_plan = write
    return fs, "/simfs/" + name


def shorten(bits):
    """Configure a shorter key through the parameter class."""
    if bits is None:
        return
    from ml.param.encrypt_param import EncryptParam
    orig = EncryptParam.__init__

    def init(self, *a, **k):
        orig(self, *a, **k)
        self.key_length = bits
    EncryptParam.__init__ = init


def model_class(who):
    if who == 0:
        from ml.tree.hetero_secureboosting_tree_guest import HeteroSecureBoostingTreeGuest as M
    else:
        from ml.tree.hetero_secureboosting_tree_host import HeteroSecureBoostingTreeHost as M
    return M


def rows_of(t):
    return [(k, v.inst_id) for k, v in t.collect()]


class Program(world.Party):
    def disk(self, node):
        return disk(self.fed.spec, self.who, self.fed.ctx, node)

    def run(self):
        spec, ctx, node = self.fed.spec, self.fed.ctx, env.CUR
        node.fs, path = self.disk(node)
        if self.who == 0:
            node.argv = ["guest.py", path, str(len(self.sc["parties"]) - 1), repr(spec["ratio"]), "CLASSIFICATION",
                         str(spec["port"])]
        else:
            node.argv = ["host.py", path, repr(spec["ratio"]), str(spec["port"]), str(self.sc["idx"][self.who - 1])]
        sys.argv = node.argv
        shorten(spec["bits"])
        M = model_class(self.who)
        fit, predict = M.fit, M.predict
        party = self
        self.seen = {}

        def my_fit(m, *a, **k):
            import random
            t = k.get("data_instances", a[0] if a else None)
            party.model = m
            party.phase = "fit"
            party.seen.update(fit=rows_of(t), state=random.getstate(), entropy=env.CUR._ent.getstate())
            party.watch(m)
            r = fit(m, *a, **k)
            party.log.append(("fit", party.state()))
            return r

        def my_predict(m, *a, **k):
            t = k.get("data_instances", a[0] if a else None)
            party.phase = "predict"
            party.seen.update(predict=rows_of(t))
            r = predict(m, *a, **k)
            party.log.append(("predict", {"pred": world.observed_predict(r) if party.who == 0 else None}))
            return r
        M.fit, M.predict = my_fit, my_predict
        self.phase = "program"
        file = os.path.join(env.REPO, "guest.py" if self.who == 0 else "host.py")
        try:
            exec(env.IMPORTER.get_code(file), {"__name__": "__main__", "__file__": file, "__builtins__": __builtins__})
        except SystemExit as e:
            if e.code not in (None, 0):
                raise
        self.phase = "end"
        return True


class Library(world.Party):
    def new_model(self):
        shorten(self.fed.spec["bits"])
        m = model_class(self.who)()
        m.model_param.task_type = "classification"
        return m


def execute(spec, ctx):
    sc = spec["sc"]
    n = sc["n"]

    def before(fed):
        fed.spec, fed.ctx = spec, ctx
        for d, who in enumerate(spec["order"]):
            fed.delays[who] = (1.0 + d) * fed.delays[1]
    f = ctx.fed("programs", sc, maybe_profile(ctx, "programs", 0.6, 40000 + 10000 * sc["n"] * (len(sc["parties"]) - 1)), party_cls=Program, before=before)
    what = "programs with %d hosts, %d rows, ratio %s" % (len(sc["parties"]) - 1, n, spec["ratio"])
    if not ctx.finished(f, what):
        return
    P = f.parties
    for p in P:
        if "fit" not in p.seen or "predict" not in p.seen:
            ctx.bad("not_trained", "%s: party %d ended without training and predicting" % (what, p.who))
            return
    for stage in ("fit", "predict"):
        for p in P[1:]:
            if p.seen[stage] != P[0].seen[stage]:
                ctx.bad("split_misaligned", "%s: %s rows of party %d are %s, of the guest %s"
                        % (what, stage, p.who, p.seen[stage][:8], P[0].seen[stage][:8]))
                return
    tr, te = [i for _, i in P[0].seen["fit"]], [i for _, i in P[0].seen["predict"]]
    if sorted(tr + te) != sorted("row%d" % j for j in range(n)) or len(tr) != int(n * spec["ratio"]):
        ctx.bad("split_wrong", "%s: train %s, test %s" % (what, tr, te))
        return
    out = f.nodes[0].stdout.getvalue()
    acc = re.findall(r"accuracy is\s+([-+.\deE]+)", out)
    pred = f.last(0, "predict")["pred"]
    label = {k: sc["labels"][int(i[3:])] for k, i in P[0].seen["predict"]}
    want = sum(str(pred[k][1]) == label[k] for k in label) / len(label) if set(pred) == set(label) else None
    if len(acc) != 1 or want is None or abs(float(acc[0]) - want) > 1e-9:
        ctx.bad("accuracy", "%s: printed %s, %s of the test rows are predicted correctly" % (what, acc, want))
        return
    # the same through the library, undisturbed
    it, ie = [int(x[3:]) for x in tr], [int(x[3:]) for x in te]
    sc2 = dict(sc, n=len(it), labels=[sc["labels"][j] for j in it],
               parties=[dict(p, cols=[[c[j] for j in it] for c in p["cols"]]) for p in sc["parties"]])
    batch = {"m": len(ie), "keys": None, "labels": [sc["labels"][j] for j in ie],
             "cols": [[[c[j] for j in ie] for c in p["cols"]] for p in sc["parties"]]}

    def restore(party):
        import random
        random.setstate(P[party.who].seen["state"])
        env.CUR._ent.setstate(P[party.who].seen["entropy"])
    g = ctx.fed("library", sc2, None, program=[("call", restore), ("fit", "train"), ("predict", batch)],
                party_cls=Library, before=before)
    if not ctx.finished(g, "library calls equivalent to the programs"):
        return
    for who in range(len(P)):
        a, b = f.last(who, "fit"), g.last(who, "fit")
        for k in b:
            if a.get(k) != b[k] and k != "scores":
                ctx.bad("trained_differently", "%s: %s of party %d is %.300r, library calls give %.300r"
                        % (what, k, who, a.get(k), b[k]))
                return
    if pred != g.last(0, "predict")["pred"]:
        ctx.bad("predicted_differently", "%s: %.300r, library calls give %.300r" % (what, pred, g.last(0, "predict")["pred"]))
        return
    ctx.stat("programs", len(P))
    ctx.stat("test_rows", len(te))
    ctx.key(sc["seed"], spec["ratio"], spec["order"], spec["log"])
    ctx.sample = "%s; log faults %s; accuracy %s" % (what, [x and x["kind"] for x in spec["log"]], acc[0])
