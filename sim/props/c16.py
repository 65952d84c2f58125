"""C16: the component run interface returns every requested prediction."""
from sim import env, world
from sim.env import SimBudget
from sim.engine import blame_harness
from sim.props import c26
from sim.props.common import maybe_profile, shape_of, shrink, states, tree_key  # noqa

CASES = {"quick": 2500, "thorough": 40000}
RULE = ("a case drives every party through run() with a random parameter dictionary and data arrangement (training only, "
        "training and validation, one or two data sets, plain data, run switched off, one invalid parameter at one party) "
        "under a random schedule, and compares output, trees and traffic with separate fit and predict calls configured "
        "attribute by attribute; distinct by scenario and variant")
REAL = ["ml/model_base.py", "ml/utils/param_extract.py", "ml/param", "both parties' trainers and everything below them"]
HEADER = ["label", "predict_result", "predict_score", "predict_detail", "type"]

INVALID = [("task_type", "x"), ("task_type", None), ("learning_rate", "0.1"), ("num_trees", 0), ("num_trees", -3),
           ("num_trees", 1.5), ("subsample_feature_rate", -0.1), ("subsample_feature_rate", 1.5),
           ("subsample_feature_rate", "1"), ("n_iter_no_change", 1), ("tol", "small"), ("bin_num", 1), ("bin_num", 0),
           ("bin_num", 2.5), ("tree_param.max_depth", 0), ("tree_param.max_depth", "3"), ("tree_param.max_depth", 2.5),
           ("tree_param.criterion_method", "gini"), ("tree_param.criterion_params", []),
           ("tree_param.criterion_params", 0.1), ("tree_param.criterion_params", ["a"]),
           ("tree_param.min_sample_split", 1.5), ("tree_param.min_impurity_split", "0"), ("tree_param.min_leaf_node", 0.5),
           ("tree_param.max_split_nodes", 0), ("tree_param.feature_importance_type", "weight"),
           ("tree_param.n_iter_no_change", "no"), ("tree_param.tol", None), ("encrypt_param.key_length", 0),
           ("encrypt_param.key_length", -1024), ("encrypt_param.key_length", 512.0), ("encrypt_param.method", 7),
           ("encrypted_mode_calculator_param.mode", "loose"), ("encrypted_mode_calculator_param.mode", 3),
           ("predict_param.threshold", "half"), ("predict_param.with_proba", "yes")]
GUEST_ONLY = [("objective_param.objective", "hinge"), ("objective_param.objective", "OTHER")]


DOCUMENTED = {"max_depth": 5, "min_sample_split": 2, "min_impurity_split": 1e-3, "min_leaf_node": 1,
              "max_split_nodes": 65536, "importance": "split", "reg_lambda": 0.1, "learning_rate": 0.3, "num_trees": 5,
              "subsample": 0.8, "n_iter_no_change": True, "tol": 1e-4, "bin_num": 32, "mode": "strict", "threshold": 0.5}


def generate(rng, tier):
    over = {}
    if rng.random() < 0.3:
        over.update(n_iter_no_change=True, tol=rng.choice([1e-4, 0.05, 0.5]))
    if rng.random() < 0.2:
        over["subsample"] = rng.choice([0.5, 0.8])
    if rng.random() < 0.3:
        over["threshold"] = rng.choice([0.3, 0.7, 0.51])
    sc = world.gen_scenario(rng, n=rng.choice([4, 6, 8, 12, 16]), **over)
    omit = []
    if rng.random() < 0.4:
        omit = rng.sample(sorted(DOCUMENTED), rng.randint(1, 4))
        for k in omit:
            sc["params"][k] = DOCUMENTED[k]
    return {"omit": omit, "sc": sc, "variant": rng.choice(["train", "eval", "eval", "eval", "fit", "off", "invalid", "invalid"]),
            "layout": rng.choice(["one", "two", "swapped"]), "m": rng.choice([1, 2, 5, 9]),
            "bad": rng.randrange(10 ** 6), "case": rng.random() < 0.3, "later": rng.random() < 0.3, "again": rng.random() < 0.25}


NAMES = {"max_depth": "tree_param.max_depth", "min_sample_split": "tree_param.min_sample_split",
         "min_impurity_split": "tree_param.min_impurity_split", "min_leaf_node": "tree_param.min_leaf_node",
         "max_split_nodes": "tree_param.max_split_nodes", "importance": "tree_param.feature_importance_type",
         "reg_lambda": "tree_param.criterion_params", "subsample": "subsample_feature_rate",
         "mode": "encrypted_mode_calculator_param", "threshold": "predict_param"}


def config(sc, who, upper, omit=()):
    """The parameter dictionary a user would write, leaving the documented defaults in `omit` out."""
    c = full_config(sc, who, upper)
    for k in omit:
        d, path = c, NAMES.get(k, k).split(".")
        for x in path[:-1]:
            d = d[x]
        d.pop(path[-1])
    return c


def full_config(sc, who, upper):
    p = sc["params"]

    def up(s):
        return s.upper() if upper else s
    c = {"tree_param": {"criterion_params": [p["reg_lambda"]], "max_depth": p["max_depth"],
                        "min_sample_split": p["min_sample_split"], "min_impurity_split": p["min_impurity_split"],
                        "min_leaf_node": p["min_leaf_node"], "max_split_nodes": p["max_split_nodes"],
                        "feature_importance_type": up(p["importance"]), "criterion_method": up("xgboost")},
         "task_type": sc["task"], "learning_rate": p["learning_rate"],
         "num_trees": p["num_trees"], "subsample_feature_rate": p["subsample"], "n_iter_no_change": p["n_iter_no_change"],
         "tol": p["tol"], "bin_num": p["bin_num"],
         "encrypt_param": {"key_length": p["key_length"], "method": up("paillier")},
         "encrypted_mode_calculator_param": {"mode": up(p["mode"]), "re_encrypted_rate": p["re_rate"]},
         "predict_param": {"threshold": p["threshold"]}}
    obj = sc["objective"]
    c["objective_param"] = {"objective": up(obj) if obj != "cross_entropy" else obj, "params": sc["obj_params"]} \
        if who == 0 else {"objective": None}
    return c


class Component(world.Party):
    def run(self):
        spec = self.fed.spec
        self.phase = "connect"
        tr = self.tr = self.connect()
        m = self.model = type(self.new_model())()      # defaults only: everything else comes from the dictionary
        m.set_transfer_inst(tr)
        if self.who > 0:
            m.set_runtime_idx(self.sc["idx"][self.who - 1])
        self.watch(m)
        v = spec["variant"]
        cfg = config(self.sc, self.who, spec["case"], spec["omit"] if v != "invalid" else ())
        if v == "invalid" and self.who == spec["bad"] % len(self.sc["parties"]):
            opts = INVALID + (GUEST_ONLY if self.who == 0 else [])
            name, val = opts[spec["bad"] // 7 % len(opts)]
            d = cfg
            for k in name.split(".")[:-1]:
                d = d[k]
            d[name.split(".")[-1]] = val
        t = self.table("train")
        e = self.table(self.fed.batch) if v == "eval" else None
        if v == "off":
            m.model_param.need_run = False
            data = {"d": {"data": t}}
        elif v == "fit":
            data = {"d": {"data": t}}
        else:
            data = {"d0": {"train_data": t}}
            if e is not None:
                if spec["layout"] == "one":
                    data["d0"]["eval_data"] = e
                elif spec["layout"] == "two":
                    data["d1"] = {"eval_data": e}
                else:
                    data = {"d1": {"eval_data": e}, "d0": {"train_data": t}}
        before = world.plain_table(t)
        self.phase = "run"
        start = c26.random_state(env.CUR)
        m.run({"BoostingTreeParam": cfg}, {"data": data})
        out = m.save_data()
        r = {"same_object": out is t, "same_content": before == world.plain_table(t), "is_none": out is None}
        if v != "off":
            r["state"] = self.state()
            if out is not None and self.who == 0:
                r["pred"] = world.observed_predict(out)
                r["header"] = list(out.schema.get("header") or [])
                r["count"] = out.count()
        if spec["later"] and v in ("train", "eval"):      # the trained component, asked for a prediction only
            self.phase = "later"
            e = self.table(self.fed.later)
            m.run({"BoostingTreeParam": cfg}, {"data": {"d2": {"eval_data": e}}})
            out = m.save_data()
            if self.who == 0:
                r["later"] = world.observed_predict(out) if out is not None else None
                r["later_header"] = list(out.schema.get("header") or []) if out is not None else None
            st = self.state()
            r["later_changed"] = [k for k in st if k != "scores" and st[k] != r["state"][k]]
        if spec["again"] and v in ("train", "eval"):      # and the same component, asked to do it all again
            self.phase = "again"
            c26.restore_state(env.CUR, start)
            self.selected = []
            m.run({"BoostingTreeParam": cfg}, {"data": data})
            out = m.save_data()
            r["again"] = world.observed_predict(out) if self.who == 0 else None
            st = self.state()
            r["again_changed"] = [k for k in st if k != "scores" and st[k] != r["state"][k]]
        self.log.append(("run", r))
        self.phase = "end"
        return True


def execute(spec, ctx):
    sc, v = spec["sc"], spec["variant"]
    b = world.gen_batch(ctx.rng("eval"), sc, m=spec["m"])
    b["keys"] = ["v%d" % i for i in range(b["m"])]
    b2 = world.gen_batch(ctx.rng("later"), sc)
    later = spec["later"] and v in ("train", "eval")

    def before(fed):
        fed.spec, fed.batch, fed.later = spec, b, b2
    prof = maybe_profile(ctx, "component", 0.5)
    f = ctx.fed("component", sc, prof, party_cls=Component, before=before)
    what = "run() with %s, layout %s" % (v, spec["layout"])
    sent = {(c.id, d): len(p.tap) for c in f.k.conns for d, p in (("up", c.up), ("down", c.down))}
    if v == "invalid":
        who = spec["bad"] % len(sc["parties"])
        t = f.tasks[who]
        if isinstance(t.exc, SimBudget) or f.outcome != "ok":
            ctx.bad("hang", "%s: %s" % (what, f.describe_failure()))
            return
        mine = sum(n for (c, d), n in sent.items() if (who == 0 and d == "down") or (who == c + 1 and d == "up"))
        opts = INVALID + (GUEST_ONLY if who == 0 else [])
        name = "%s=%r" % opts[spec["bad"] // 7 % len(opts)]
        if t.exc is None:
            ctx.bad("invalid_accepted", "party %d accepted %s" % (who, name))
        else:
            blame_harness(t)
            if not isinstance(t.exc, Exception):
                ctx.bad("invalid_accepted", "party %d ended with %r for %s" % (who, t.exc, name))
            if mine:
                ctx.bad("sent_before_check", "party %d sent %d bytes before refusing %s" % (who, mine, name))
        ctx.stat("invalid_refused")
        ctx.key(name, who)
        ctx.sample = "%s refused at party %d" % (name, who)
        return
    if not ctx.finished(f, what):
        return
    runs = [p.log[-1][1] for p in f.parties]
    for who, r in enumerate(runs):
        if not r["same_content"]:
            ctx.bad("input_altered", "%s altered the data of party %d" % (what, who))
    if v == "off":
        for who, r in enumerate(runs):
            if not r["same_object"] and not r["same_content"]:
                ctx.bad("not_passed_through", "with need_run off party %d returned something else" % who)
            if r["is_none"]:
                ctx.bad("not_passed_through", "with need_run off party %d returned nothing" % who)
        if any(sent.values()):
            ctx.bad("off_but_talking", "need_run off, yet bytes were sent: %s" % sent)
        ctx.stat("off")
        ctx.key("off", sc["seed"])
        ctx.sample = "need_run off"
        return
    prog = [("fit", "train")] + ([("predict", "train")] if v != "fit" else []) + ([("predict", b)] if v == "eval" else []) \
        + ([("predict", b2)] if later else [])
    g = ctx.fed("separate", sc, None, program=prog)
    if not ctx.finished(g, "separate calls"):
        return
    for who, (r, st) in enumerate(zip(runs, states(g))):
        for k in st:
            if k == "scores":       # holds the latest prediction's scores
                continue
            if r["state"].get(k) != st[k]:
                ctx.bad("trained_differently", "%s: %s of party %d is %.300r, separate calls give %.300r"
                        % (what, k, who, r["state"].get(k), st[k]))
                return
    r = runs[0]
    if v == "fit":
        if not r["is_none"]:
            ctx.stat("fit_returned_output")
    else:
        want = {}
        for (op, res), tag in zip([x for x in g.parties[0].log if x[0] == "predict"], ["train", "validation"][:1 + (v == "eval")]):
            for k, row in res["pred"].items():
                want[k] = row + [tag]
        got = r.get("pred")
        if got != want:
            d = [k for k in sorted(set(want) | set(got or {}), key=str) if (got or {}).get(k) != want.get(k)]
            ctx.bad("output_differs", "%s: %d of %d rows differ; row %r is %.200r, should be %.200r"
                    % (what, len(d), len(want), d[0], (got or {}).get(d[0]), want.get(d[0])))
            return
        if r["count"] != len(want) or r["header"] != HEADER:
            ctx.bad("output_header", "%s: %d rows, header %s" % (what, r["count"], r["header"]))
            return
        ctx.stat("rows_compared", len(want))
    if later:
        want = {k: row + ["test"] for k, row in [x for x in g.parties[0].log if x[0] == "predict"][-1][1]["pred"].items()}
        if r["later"] != want or r["later_header"] != HEADER:
            ctx.bad("test_output", "%s, then evaluation data alone: %.300r, header %s, should be %.300r"
                    % (what, r["later"], r["later_header"], want))
            return
        for who, x in enumerate(runs):
            if x["later_changed"]:
                ctx.bad("test_altered", "%s, then evaluation data alone: party %d changed its %s" % (what, who, x["later_changed"]))
                return
        ctx.stat("test_rows", len(want))
    if "again" in runs[0]:
        for who, x in enumerate(runs):
            if x["again_changed"] or who == 0 and x["again"] != x["pred"]:
                ctx.bad("again_differs", "%s, and once more with the same random state: party %d changed its %s; output %.300r, at first %.300r"
                        % (what, who, x["again_changed"], x["again"], x.get("pred")))
                return
        ctx.stat("run_again")
    ctx.stat(v)
    ctx.key(v, spec["layout"], tree_key(g))
    ctx.sample = "%s; %s" % (what, shape_of(sc))
