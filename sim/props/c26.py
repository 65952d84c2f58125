"""C26: a run leaves nothing behind that changes a later one."""
import json

from sim import env, ref, world
from sim.engine import blame_harness
from sim.props import c15
from sim.props.common import maybe_profile, shrink_scenario

CASES = {"quick": 260, "thorough": 14000}
RULE = ("a case is a history followed by a run: either guest.py and host.py run to the end, or are cut by a crash, a reset or "
        "an operator at some byte or time, and are started again on the same simulated machines (disk, port, clock) after some "
        "time; or one process trains and predicts with other data, parameters, class counts and hosts' columns, possibly cut by "
        "a broken connection, and then trains a new model; what the last run gives is compared with the same run in fresh "
        "processes on fresh machines with the same random state, and models of the history still predict what they did; "
        "distinct by data, history and faults")
REAL = c15.REAL
ASSUME = ["the operator starts the programs again only after all processes of the earlier run are gone",
          "the operating system keeps a port of an actively closed connection for 60 s and honours SO_REUSEADDR (Linux)",
          "key length shortened through the parameter object (cost)"]


# parameters a caller may leave at their defaults, and where they are
BARE = {"reg_lambda": "tree_param.criterion_params", "max_depth": "tree_param.max_depth",
        "min_sample_split": "tree_param.min_sample_split", "min_impurity_split": "tree_param.min_impurity_split",
        "min_leaf_node": "tree_param.min_leaf_node", "max_split_nodes": "tree_param.max_split_nodes",
        "importance": "tree_param.feature_importance_type", "learning_rate": "learning_rate", "num_trees": "num_trees",
        "subsample": "subsample_feature_rate", "n_iter_no_change": "n_iter_no_change", "tol": "tol", "bin_num": "bin_num",
        "mode": "encrypted_mode_calculator_param.mode", "re_rate": "encrypted_mode_calculator_param.re_encrypted_rate",
        "threshold": "predict_param.threshold"}


def generate(rng, tier):
    if rng.random() < 0.4:
        c = c15.generate(rng, tier)
        while c["sc"]["n"] > 16 or c["bits"] is None:
            c = c15.generate(rng, tier)
        c["log"] = [None] * len(c["sc"]["parties"])
        return dict(c, mode="restart", gap=rng.choice([0, 0.5, 10, 59, 61, 3600]), jump=rng.choice([0, 0, -3600, 86400]),
                    first=[gen_end(rng) for _ in range(rng.choice([1, 1, 2]))])
    hosts = rng.choice([1, 1, 2, 3])

    def one(**kw):
        sc = world.gen_scenario(rng, hosts=hosts, n=rng.choice([4, 5, 6, 8, 10, 14]), **kw)
        sc["params"]["num_trees"] = min(sc["params"]["num_trees"], 3)
        sc["params"]["threshold"] = rng.choice([0.5, 0.3, 0.7, 0.1, 0.9])
        if rng.random() < 0.4:
            sc["params"].update(n_iter_no_change=True, tol=rng.choice([1e-4, 0.03, 0.1, 1.0]))
        return sc
    last = one()
    runs = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        x = rng.random()
        if x < 0.3:        # the same data under other parameters, or labels
            sc = json.loads(json.dumps(last))
            q = one(task="binary")["params"]
            for k in rng.sample(["num_trees", "max_depth", "bin_num", "min_leaf_node", "max_split_nodes", "mode", "re_rate",
                                 "learning_rate", "importance", "reg_lambda", "subsample", "key_length"], rng.randint(1, 5)):
                sc["params"][k] = q[k]
            if rng.random() < 0.5:
                o = list(range(sc["n"]))
                rng.shuffle(o)
                sc["labels"] = [sc["labels"][j] for j in o]
        elif x < 0.5:      # the same shape, other values
            sc = one(task=last["kind"] if last["kind"] in ("binary", "multi", "lse", "lae", "huber") else None)
        else:
            sc = one()
        runs.append({"sc": sc, "batch": world.gen_batch(rng, sc), "predict": rng.random() < 0.8,
                     "cut": None if rng.random() < 0.6 else {"at": rng.random(), "dir": rng.choice(["up", "down"]),
                                                             "conn": rng.randrange(hosts),
                                                             "kind": rng.choice(["reset", "cut", "send_error"])}})
    bare = rng.choice([[], [k for k in BARE if rng.random() < 0.5], list(BARE)])
    refit = rng.choice([None, None, rng.randrange(len(runs))])      # train the model object of that run again
    if refit is not None:
        bare = []
        if rng.random() < 0.5:
            runs[refit]["sc"] = json.loads(json.dumps(last))
            runs[refit]["batch"] = world.gen_batch(rng, last)
    fill = rng.random() < 0.3       # the caller writes the last training's rows into the table of the run before
    if fill:
        r, old = runs[-1], json.loads(json.dumps(last))
        j = rng.randint(1, old["n"] - 1)
        for p in old["parties"]:
            p["cols"] = [c[j:] + c[:j] for c in p["cols"]]
        if rng.random() < 0.5:
            old["labels"] = old["labels"][j:] + old["labels"][:j]
        r.update(sc=old, batch=world.gen_batch(rng, old))
        if refit is not None and rng.random() < 0.5:
            refit = len(runs) - 1
    return {"mode": "process", "refit": refit, "fill": fill, "bare": bare, "sc": last, "batch": world.gen_batch(rng, last), "runs": runs, "again": rng.random() < 0.6, "retry": rng.random() < 0.7,
            "port": rng.choice([0, 0, 1])}


def gen_end(rng):
    """How the earlier run of the programs ends."""
    x = rng.random()
    if x < 0.4:
        return {"kind": "end"}
    if x < 0.55:
        return {"kind": "killed", "at": rng.choice([0.3, 1.5, 2.5, 5.0, 20.0])}
    return {"kind": rng.choice(["crash_writer", "crash_reader", "crash_writer", "crash_reader", "reset", "cut"]),
            "at": rng.random(), "dir": rng.choice(["up", "down"]), "conn": rng.random()}


def shrink(spec):
    if spec["mode"] == "restart":
        for i in range(len(spec["first"])):
            if len(spec["first"]) > 1:
                yield dict(spec, first=spec["first"][:i] + spec["first"][i + 1:])
            elif spec["first"][i]["kind"] != "end":
                yield dict(spec, first=[{"kind": "end"}])
        if spec["jump"]:
            yield dict(spec, jump=0)
        if spec["gap"]:
            yield dict(spec, gap=0)
        for s in c15.shrink(spec):
            yield s
        return
    for i, r in enumerate(spec["runs"]):
        if len(spec["runs"]) > 1 and spec["refit"] != i:
            yield dict(spec, runs=spec["runs"][:i] + spec["runs"][i + 1:],
                       refit=spec["refit"] - 1 if spec["refit"] is not None and spec["refit"] > i else spec["refit"])
        if r["cut"]:
            yield dict(spec, runs=spec["runs"][:i] + [dict(r, cut=None)] + spec["runs"][i + 1:])
        if r["predict"]:
            yield dict(spec, runs=spec["runs"][:i] + [dict(r, predict=False)] + spec["runs"][i + 1:])
    if spec["again"]:
        yield dict(spec, again=False)
    if spec["retry"]:
        yield dict(spec, retry=False)
    if spec["bare"]:
        yield dict(spec, bare=[])
    for i in range(len(spec["bare"])):
        yield dict(spec, bare=spec["bare"][:i] + spec["bare"][i + 1:])
    k = len(spec["sc"]["parties"])
    for sc in shrink_scenario(spec["sc"]):
        if len(sc["parties"]) == k and all(len(a["cols"]) == len(b["cols"]) for a, b in zip(sc["parties"],
                                                                                            spec["sc"]["parties"])):
            yield dict(spec, sc=sc, batch=spec["batch"])
    for i, r in enumerate(spec["runs"]):
        for sc in shrink_scenario(r["sc"]):
            if len(sc["parties"]) == k:
                b = dict(r["batch"], cols=[[c for c in p[:len(q["cols"])]] for p, q in zip(r["batch"]["cols"], sc["parties"])])
                yield dict(spec, runs=spec["runs"][:i] + [dict(r, sc=sc, batch=b)] + spec["runs"][i + 1:])


# --------------------------------------------------------------------------
# programs started again on the same machines

class Program(c15.Program):
    def disk(self, node):
        fs, path = super().disk(node)
        for p, d in self.fed.disks[self.who].items():
            fs.files.setdefault(p, bytearray(d))
        self.fed.filesystems[self.who] = fs
        return fs, path


def restart(spec, ctx):
    sc = spec["sc"]
    k = len(sc["parties"])

    def run(tag, profile, disks, linger, clock, end):
        def before(fed):
            fed.spec, fed.ctx = spec, ctx
            fed.disks, fed.filesystems = disks, [None] * k
            fed.k.linger = list(linger)
            for nd in fed.nodes:
                nd.clock_offset += clock
            for d, who in enumerate(spec["order"]):
                fed.delays[who] = (1.0 + d) * fed.delays[1]
            if end and end["kind"] == "killed":
                def stop():
                    for nd in fed.nodes:
                        fed.k.kill(nd, "killed_by_operator")
                fed.k.at(end["at"], stop)
        faults = []
        if end and end["kind"] not in ("end", "killed"):
            conn = min(k - 2, int(end["conn"] * (k - 1)))
            size = dict(((c.id, d), len(p.tap)) for c in fresh.k.conns for d, p in (("up", c.up), ("down", c.down)))
            faults = [{"conn": conn, "dir": end["dir"], "kind": end["kind"], "pos": int(size[(conn, end["dir"])] * end["at"])}]
        return ctx.fed(tag, sc, profile, faults, party_cls=Program, before=before)
    empty = [{} for _ in range(k)]
    fresh = run("fresh", None, empty, [], 0, None)
    what = "programs with %d hosts" % (k - 1)
    if not ctx.finished(fresh, what):
        return
    disks, linger, clock, ends = empty, [], 0, []
    for i, end in enumerate(spec["first"]):
        f = run("first%d" % i, maybe_profile(ctx, "first%d" % i, 0.5, 60000), disks, linger, clock, end)
        for t in f.tasks:
            blame_harness(t)
        if end["kind"] == "end" and not ctx.finished(f, what + " before the last start"):
            return
        disks = [dict(fs.files) if fs else {} for fs in f.filesystems]
        t = f.k.drain_at + spec["gap"]
        linger = [(n, p, u - t, r) for n, p, u, r in f.k.linger]
        ctx.stat("ports_lingering", sum(u > 0 for _, _, u, _ in linger))
        clock += t + spec["jump"]
        ends.append(end["kind"] + ("" if f.outcome == "ok" else "/" + f.outcome))
    what += " started again %s s after the earlier run ended (%s)" % (spec["gap"], ", ".join(ends))
    g = run("again", maybe_profile(ctx, "again", 0.4, 60000), disks, linger, clock, None)
    if not ctx.finished(g, what):
        return
    for who in range(k):
        a, b = fresh.parties[who], g.parties[who]
        for n in ("fit", "predict"):
            if a.seen.get(n) != b.seen.get(n):
                ctx.bad("other_rows", "%s: party %d uses %s rows %.300r, at first %.300r" % (what, who, n, b.seen.get(n), a.seen.get(n)))
                return
            x, y = fresh.last(who, n), g.last(who, n)
            for q in x:
                if x[q] != y.get(q):
                    ctx.bad("other_result", "%s: %s %s of party %d is %.300r, at first %.300r" % (what, n, q, who, y.get(q), x[q]))
                    return
        a, b = fresh.nodes[who].stdout.getvalue(), g.nodes[who].stdout.getvalue()
        if a != b:
            ctx.bad("other_output", "%s: party %d prints %.200r, at first %.200r" % (what, who, b, a))
            return
    ctx.stat("restarts", len(ends))
    for e in ends:
        ctx.stat("end_" + e.split("/")[0])
    ctx.key(sc["seed"], spec["first"], spec["gap"], ctx.decisions)
    ctx.sample = what


# --------------------------------------------------------------------------
# one process, several runs

def random_state(node):
    import random
    return random.getstate(), node.np_rs.get_state(), node.np_calls, node._ent.getstate()


def restore_state(node, s):
    import random
    random.setstate(s[0])
    node.np_rs.set_state(s[1])
    node.np_calls = s[2]
    node._ent.setstate(s[3])


class Process(world.Party):
    """Runs the history, then the last training."""

    def connect(self):
        port = world.PORT + self.fed.port
        if self.who == 0:
            from federation.transfer_inst import TransferInstGuest
            return TransferInstGuest(port, len(self.sc["parties"]) - 1)
        from federation.transfer_inst import TransferInstHost
        return TransferInstHost(port=port)

    def new_model(self):
        bare = self.fed.spec["bare"] if self.sc is self.fed.sc else []
        m = (c15.model_class(self.who))()
        left = []
        for k in bare:
            *path, a = BARE[k].split(".")
            o = m.model_param
            for x in path:
                o = getattr(o, x)
            left.append((o, a, getattr(o, a)))
        world.configure(m.model_param, self.sc)
        for o, a, v in left:
            setattr(o, a, v)
        return m

    def meet(self):
        """All parties have ended their part of the history."""
        fed, k = self.fed, self.fed.k
        fed.met[self.who] += 1
        goal = fed.met[self.who]
        d = 0.25
        for _ in range(20000):
            if min(fed.met) >= goal:
                break
            k.sleep(d)
            d = min(d * 1.2, 20000.0)
        k.sleep(1.0 + 100000.0 * self.who)      # the hosts connect in their order

    def run(self):
        fed, node = self.fed, env.CUR
        node.fs = env.SimFS()
        self.models, self.fits, self.preds = {}, {}, {}
        self.objects = {}       # also those whose training was broken off
        self.retried, self.altered = [], []
        if fed.history:
            self.sc = fed.history[0]["sc"]
        self.phase = "connect"
        self.tr = self.connect()
        broken = False
        for i, r in enumerate(fed.history):
            self.phase = "history %d" % i
            ahead = any(x["cut"] for x in fed.history[i:])      # this connection may break
            try:
                if not broken:
                    self.scene(r["sc"], i)
                    self.objects[i] = self.model
                    self.given = [(t, world.plain_table(t)) for t in (self.table("train"), self.table(r["batch"]))]
                    self.do(("fit", "train"))
                    self.models[i], self.fits[i] = self.model, self.log[-1][1]
                    fed.fitted[i] += 1
                    if r["predict"]:
                        self.do(("predict", r["batch"]))
                        self.preds[i] = self.log[-1][1]
            except Exception:
                if not ahead or not fed.cut_happened():
                    raise
                broken = True
                self.log.clear()
                if any(before != world.plain_table(t) for t, before in self.given):
                    self.altered.append(i)
            self.log.clear()
            if r["cut"]:
                # the party gives up this connection and makes a new one
                broken = False
                self.tr = self.model = None
                for s in list(node.sockets):
                    s._refs = 0
                    s.close()
                self.meet()
                if self.who == 0:
                    fed.port += fed.spec["port"]
                    fed.cut_base += len(self.sc["parties"]) - 1
                    fed.arm(i + 1)
                self.tr = self.connect()
                if fed.spec["retry"]:
                    try:
                        self.use_again(range(i + 1), "after the connection broke in run %d" % i)
                    except Exception:
                        if not any(x["cut"] for x in fed.history[i + 1:]) or not fed.cut_happened():
                            raise
                        broken = True
        self.phase = "last"
        self.scene(fed.sc, "last")
        again = self.objects.get(fed.spec["refit"]) if fed.history else None
        if again is not None:
            world.configure(again.model_param, self.sc)
            again._init_model(again.model_param)
            again.set_transfer_inst(self.tr)
            if self.who:
                again.set_runtime_idx(self.sc["idx"][self.who - 1])
            self.model = again
        if fed.history and fed.spec.get("fill") and \
                [x for x, v in self.given[0][0].collect()] == [x for x, v in self.table("train").collect()]:
            world.fill(self.given[0][0], self.table("train"))
            fed.tables[self.who]["train"] = self.given[0][0]
        if fed.restore:
            restore_state(node, fed.restore[self.who])
        else:
            self.start = random_state(node)
        self.do(("fit", "train"))
        self.do(("predict", fed.spec["batch"]))
        self.result = list(self.log)
        if fed.spec["again"]:
            self.use_again(range(len(fed.history)), "after the last training")
        self.phase = "end"
        return True

    def use_again(self, runs, when):
        """Predict with the models that every party has finished training."""
        for i in runs:
            if self.fed.fitted[i] == len(self.fed.parties) and not (i == self.fed.spec["refit"] and when == "after the last training"):
                self.phase = "model %d %s" % (i, when)
                self.model, self.sc = self.models[i], self.fed.history[i]["sc"]
                self.fed.tables[self.who] = {}
                self.model.set_transfer_inst(self.tr)
                self.do(("predict", self.fed.history[i]["batch"]))
                self.retried.append((i, when, self.log.pop()[1]))

    def scene(self, sc, tag):
        self.sc = sc
        self.fed.tables[self.who] = {}
        self.selected = []
        self.prepare(self.tr)


def process(spec, ctx):
    sc = spec["sc"]
    k = len(sc["parties"])

    def run(tag, profile, history, restore):
        def before(fed):
            fed.spec, fed.ctx, fed.history, fed.restore = spec, ctx, history, restore
            fed.met, fed.port, fed.cut_base = [0] * k, 0, 0
            fed.fitted = [0] * len(history)

            def arm(i):
                """Faults for the connections of the history from run i on."""
                fed.faults = []
                for r in history[i:]:
                    if r["cut"]:
                        c = r["cut"]
                        pos = int(30 * (2000.0 ** c["at"]))
                        fed.faults.append({"conn": fed.cut_base + min(c["conn"], k - 2), "dir": c["dir"], "kind": c["kind"],
                                           "pos": pos, "arg": 104})
                        return

            def happened():
                return any(p.broken for c in fed.k.conns[fed.cut_base:] for p in c.pipes())
            fed.arm, fed.cut_happened = arm, happened
            arm(0)
        return ctx.fed(tag, sc, profile, party_cls=Process, before=before)
    f = run("process", maybe_profile(ctx, "process", 0.4, 60000), spec["runs"], None)
    what = "a %s training after %s" % (sc["kind"], ", ".join(r["sc"]["kind"] + (" (cut by %s)" % r["cut"]["kind"] if r["cut"]
                                                             else "") for r in spec["runs"]))
    if not ctx.finished(f, what):
        return
    g = run("fresh", None, [], [p.start for p in f.parties])
    if not ctx.finished(g, "the same training in fresh processes"):
        return
    for who in range(k):
        a, b = f.parties[who].result, g.parties[who].result
        for (op, x), (_, y) in zip(a, b):
            for q in y:
                if x.get(q) != y[q]:
                    ctx.bad("depends_on_history", "%s: %s %s of party %d is %.300r, in a fresh process %.300r"
                            % (what, op, q, who, x.get(q), y[q]))
                    return
        if f.parties[who].altered:
            ctx.bad("input_altered", "%s: a broken training or prediction altered the table given by party %d" % (what, who))
            return
        for i, when, y in f.parties[who].retried:
            x = f.parties[who].preds.get(i)
            if x is not None and x != y:
                ctx.bad("older_model_changed", "%s: model %d predicted %.300r, %s %.300r" % (what, i, x, when, y))
                return
    for i, when, y in f.parties[0].retried:
        if i not in f.parties[0].preds:       # its prediction was broken off, or never made
            h = spec["runs"][i]
            M = ref.Model(h["sc"], [p.fits[i] for p in f.parties])
            ref.predictions(ctx.bad, h["sc"], M, h["batch"], y["pred"], "%s: model %d %s" % (what, i, when))
            ctx.stat("predictions_made_up_for")
    ctx.stat("histories", len(spec["runs"]))
    ctx.stat("cut_histories", sum(bool(r["cut"]) for r in spec["runs"]))
    ctx.stat("older_models_used", len(f.parties[0].retried))
    ctx.key(sc["seed"], [r["sc"]["seed"] for r in spec["runs"]], ctx.decisions)
    ctx.sample = what


def execute(spec, ctx):
    (restart if spec["mode"] == "restart" else process)(spec, ctx)
