"""Cases, forked execution, recording, minimisation and replay.

A property module offers
    generate(rng, tier)  -> spec, a JSON-able dict: one case
    execute(spec, ctx)   -> runs simulations, reports through ctx
    shrink(spec)         -> iterable of smaller specs (optional)
One case is a pure function of (spec, recorded choices and decisions, code).
"""
import collections
import hashlib
import json
import os
import random
import resource
import select
import signal
import sys
import time
import traceback

from sim import env, kernel, world

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


class HarnessError(Exception):
    pass


class Ctx:
    def __init__(self, spec, rec=None, trace=False):
        self.spec, self.rec, self.want_trace = spec, rec, trace
        self.seed = spec["seed"]
        self.used = {}
        self.decisions = {}
        self.bads = []
        self.stats = collections.Counter()
        self.faults = collections.Counter()
        self.runs = self.steps = self.switches = 0
        self.sim_time = 0.0
        self.digests = []
        self.keys = []
        self.perturbed = 0
        self.sample = None
        self.traces = []

    # -- nondeterminism
    def rng(self, tag):
        return random.Random("%s/%s" % (self.seed, tag))

    def choices(self, tag):
        if self.rec is not None:
            c = kernel.Choices(replay=self.rec["choices"].get(tag, []))
        else:
            c = kernel.Choices(self.rng("choices/" + tag).getrandbits(60))
        self.used[tag] = c
        return c

    def decide(self, tag, fn):
        """A decision made once and kept in the replay file."""
        if self.rec is not None and tag in self.rec["decisions"]:
            v = self.rec["decisions"][tag]
        else:
            v = json.loads(json.dumps(fn(self.rng("decide/" + tag))))
        self.decisions[tag] = v
        return v

    # -- reporting
    def bad(self, kind, msg):
        if len(self.bads) < 20:
            self.bads.append([kind, str(msg)[:1500]])

    def stat(self, name, n=1):
        self.stats[name] += n

    def key(self, *what):
        """Fingerprint of a distinct non-trivial evaluation."""
        self.keys.append(hashlib.blake2b(repr(what).encode(), digest_size=8).hexdigest())

    # -- simulation
    def fed(self, tag, sc, profile=None, faults=None, **kw):
        """Run a federation; with no profile and no tag in the choice record it is calm."""
        if profile:
            ch = self.choices(tag)
            self.perturbed += 1
        else:
            ch = kernel.Choices(calm=True)
        f = world.Federation(sc, ch, profile=profile or None, faults=faults, trace=self.want_trace, **kw)
        f.run()
        self.account(f.k, tag, f)
        return f

    def solo(self, tag, seed, fn, profile=None, setup=None, max_steps=400_000, name=None):
        """Run fn(node) as the only process of a simulation; returns its finished task."""
        ch = self.choices(tag) if profile else kernel.Choices(calm=True)
        k = kernel.Kernel(ch, profile, max_steps)
        if self.want_trace:
            k.trace = []
        node = kernel.Node(name or tag, seed, k)
        node.ctx = self
        if setup:
            setup(node)
        t = k.spawn(node, tag, lambda: fn(node))
        k.run()
        self.perturbed += bool(profile or k.fault_counts)
        self.account(k, tag)
        if isinstance(t.exc, env.SimBudget):
            self.bad("runaway", "%s: %s\n%s" % (tag, t.exc, short_tb(t.tb)))
        return t

    def account(self, k, tag, f=None):
        self.runs += 1
        self.steps += k.steps
        self.switches += k.switches
        self.sim_time += k.now
        for a, b in k.fault_counts.items():
            self.faults[a] += b
        self.digests.append(k.digest.hexdigest())
        if self.want_trace:
            self.traces.append({"run": tag, "outcome": getattr(k, "outcome", None), "stuck": k.stuck,
                                "errors": f.errors() if f is not None else [],
                                "events": [list(map(str, e)) for e in (k.trace or [])]})

    def finished(self, f, what=""):
        """Fault-free runs must finish everywhere without error."""
        if f.outcome == "ok" and not any(t.exc for t in f.tasks):
            return True
        for t in f.tasks:
            blame_harness(t)
        if f.outcome == "deadlock":
            self.bad("deadlock", "%s: %s" % (what, f.describe_failure()))
        elif f.outcome == "budget":
            self.bad("no_progress", "%s: %s" % (what, f.describe_failure()))
        else:
            e = [t for t in f.tasks if t.exc is not None][0]
            self.bad("error:" + type(e.exc).__name__, "%s: %s\n%s" % (what, f.describe_failure(), short_tb(e.tb)))
        return False


def short_tb(tb):
    if not tb:
        return ""
    lines = [l for l in tb.splitlines() if l.strip()]
    return "\n".join(lines[-8:])


_OS_FILES = {os.path.join(HERE, f) for f in ("net.py", "env.py", "kernel.py")}


def blame_harness(task):
    """Raise HarnessError when an exception comes from harness code itself."""
    e = task.exc
    if e is None or isinstance(e, (env.SimCrash, env.SimBudget, world.Misbehaved)):
        return
    last = None
    for fr, _ in traceback.walk_tb(e.__traceback__):
        fn = fr.f_code.co_filename
        if fn in _OS_FILES:
            continue
        if fn.startswith(HERE + os.sep) and os.sep + "compat" + os.sep not in fn:
            last = "harness"
        elif fn.startswith(env.REPO):
            last = "repo"
    if last == "harness":
        raise HarnessError("harness failed in %s: %s" % (task.name, task.tb))


# --------------------------------------------------------------------------
# one case

def run_case(prop, spec, rec=None, trace=False):
    spec = json.loads(json.dumps(spec))
    ctx = Ctx(spec, rec, trace)
    out = {"harness": None}
    try:
        prop.execute(spec, ctx)
    except HarnessError as e:
        out["harness"] = str(e)
    except env.SimBudget as e:
        ctx.bad("runaway", "loop budget exhausted: %s\n%s" % (e, short_tb(traceback.format_exc())))
    except BaseException:  # noqa
        out["harness"] = traceback.format_exc()
    out.update(bads=ctx.bads, stats=dict(ctx.stats), faults=dict(ctx.faults), runs=ctx.runs, steps=ctx.steps,
               switches=ctx.switches, sim_time=ctx.sim_time, digests=ctx.digests, keys=ctx.keys,
               perturbed=ctx.perturbed, sample=ctx.sample)
    if ctx.bads:
        out["rec"] = {"choices": {t: trim(c.log) for t, c in ctx.used.items()}, "decisions": ctx.decisions}
        out["spec"] = spec
    if trace:
        out["traces"] = ctx.traces
    return out


def trim(log):
    n = len(log)
    while n and log[n - 1] == 0:
        n -= 1
    return log[:n]


def jump_budget(limit):
    """Deterministic bound on loop iterations inside the code under test."""
    mon = sys.monitoring
    tool = 3
    mon.use_tool_id(tool, "verif-budget")
    n = [0]
    roots = (env.REPO + os.sep, os.path.join(HERE, "compat"))

    def jump(code, a, b):
        if not code.co_filename.startswith(roots):
            return mon.DISABLE
        if b <= a:
            n[0] += 1
            if n[0] > limit:
                n[0] = 0
                raise env.SimBudget("%d loop iterations in the code under test, last in %s:%s"
                                    % (limit, os.path.basename(code.co_filename), code.co_name))
    mon.register_callback(tool, mon.events.JUMP, jump)
    mon.register_callback(tool, mon.events.BRANCH, jump)
    mon.set_events(tool, mon.events.JUMP | mon.events.BRANCH)


JUMP_LIMIT = 60_000_000


class Child:
    """A forked child that runs one job and reports JSON."""

    def __init__(self, fn, key):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        self.key = key
        self.start = time.monotonic()
        if self.pid == 0:
            try:
                os.close(r)
                os.setpgid(0, 0)
                resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                res = fn()
                data = json.dumps(res).encode()
            except BaseException:  # noqa
                data = json.dumps({"harness": traceback.format_exc(), "bads": []}).encode()
            try:
                v = memoryview(data)
                while len(v):
                    v = v[os.write(w, v):]
            finally:
                os._exit(0)
        os.close(w)
        self.fd = r
        self.buf = b""

    def feed(self):
        d = os.read(self.fd, 1 << 20)
        if d:
            self.buf += d
            return False
        os.close(self.fd)
        os.waitpid(self.pid, 0)
        return True

    def kill(self):
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except OSError:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except OSError:
                pass
        os.close(self.fd)
        os.waitpid(self.pid, 0)

    def result(self):
        try:
            return json.loads(self.buf)
        except ValueError:
            return {"harness": "child died without a result", "bads": [], "died": True}


def real_now():
    return env.real_time.monotonic() if env.real_time else time.monotonic()


def pool(jobs, workers, case_limit, deadline=None, on_result=None, stop=None):
    """jobs: iterable of (key, fn).  Calls on_result(key, result or {'timeout':True})."""
    jobs = iter(jobs)
    live = {}
    done = False
    while True:
        while not done and len(live) < workers:
            if (deadline and real_now() > deadline) or (stop and stop(None)):
                done = True
                break
            try:
                key, fn = next(jobs)
            except StopIteration:
                done = True
                break
            c = Child(fn, key)
            live[c.fd] = c
        if not live:
            return
        rd, _, _ = select.select(list(live), [], [], 0.5)
        for fd in rd:
            c = live[fd]
            if c.feed():
                del live[fd]
                on_result(c.key, c.result())
        now = real_now()
        for fd, c in list(live.items()):
            if stop and stop(c.key):
                del live[fd]
                c.kill()
            elif now - c.start > case_limit:
                del live[fd]
                c.kill()
                on_result(c.key, {"timeout": True, "bads": [], "harness": None})


def budgeted(prop, spec, rec=None, trace=False):
    jump_budget(JUMP_LIMIT)
    return run_case(prop, spec, rec, trace)


# --------------------------------------------------------------------------
# minimisation

class Minimiser:
    def __init__(self, prop, res, workers, seconds, budgeted=False):
        self.prop, self.workers = prop, workers
        self.deadline = real_now() + seconds
        self.kind = res["bads"][0][0]
        self.best = (res["spec"], res["rec"], res)
        self.tried = 0
        self.run = (lambda *a: globals()["budgeted"](*a)) if budgeted else run_case

    def out(self):
        return real_now() > self.deadline

    def attempt(self, cands):
        """Try candidates in parallel; adopt the first (in order) that still fails the same way."""
        cands = list(cands)
        for i in range(0, len(cands), self.workers):
            if self.out():
                return False
            part = cands[i:i + self.workers]
            res = {}
            pool(((j, (lambda s=s, r=r: self.run(self.prop, s, r))) for j, (s, r) in enumerate(part)),
                 self.workers, 30, None, lambda k, r: res.__setitem__(k, r))
            self.tried += len(part)
            for j in range(len(part)):
                r = res.get(j)
                if r and not r.get("harness") and any(b[0] == self.kind for b in r["bads"]):
                    r["bads"].sort(key=lambda b: b[0] != self.kind)
                    self.best = (r["spec"], r["rec"], r)
                    return True
        return False

    def go(self):
        s, r, _ = self.best
        self.attempt([(s, {"choices": {}, "decisions": r["decisions"]})])
        changed = True
        while changed and not self.out():
            changed = False
            s, r, _ = self.best
            shr = getattr(self.prop, "shrink", None)
            if shr:
                while not self.out():
                    s, r, _ = self.best
                    c = []
                    for x in list(shr(s))[:24]:
                        c.append((x, r))
                        if any(r["decisions"].values()):
                            c.append((x, {"choices": {}, "decisions": {}}))
                    if not self.attempt(c):
                        break
                    changed = True
            while not self.out():
                s, r, _ = self.best
                if not self.attempt((s, x) for x in self.smaller_decisions(r)):
                    break
                changed = True
            while not self.out():
                s, r, _ = self.best
                if not self.attempt((s, x) for x in self.smaller_choices(r)):
                    break
                changed = True
        return self.best

    @staticmethod
    def smaller_decisions(r):
        for t, v in r["decisions"].items():
            if isinstance(v, list) and len(v) > 0:
                for i in range(len(v)):
                    yield dict(r, decisions=dict(r["decisions"], **{t: v[:i] + v[i + 1:]}))
            elif isinstance(v, dict) and v.get("profile_style"):
                yield dict(r, decisions=dict(r["decisions"], **{t: {}}))

    @staticmethod
    def smaller_choices(r):
        for t, v in r["choices"].items():
            nz = [i for i, x in enumerate(v) if x]
            if not nz:
                continue
            yield dict(r, choices=dict(r["choices"], **{t: []}))
            n = 2
            while n <= min(16, len(nz)):
                for q in range(n):
                    drop = set(nz[q * len(nz) // n:(q + 1) * len(nz) // n])
                    yield dict(r, choices=dict(r["choices"], **{t: trim([0 if i in drop else x
                                                                         for i, x in enumerate(v)])}))
                n *= 2


def shrink_scenario(sc):
    """Smaller scenarios: fewer trees, depth, hosts, features, rows; plainer parameters."""
    def c(**p):
        d = json.loads(json.dumps(sc))
        d["params"].update(p)
        return d
    P = sc["params"]
    if P["num_trees"] > 1:
        yield c(num_trees=1)
        yield c(num_trees=P["num_trees"] - 1)
    if P["max_depth"] > 1:
        yield c(max_depth=P["max_depth"] - 1)
    np_ = len(sc["parties"])
    for i in range(np_ - 1, 0, -1):
        if np_ > 2:
            d = c()
            del d["parties"][i]
            del d["idx"][i - 1]
            order = sorted(d["idx"])
            d["idx"] = [order.index(x) for x in d["idx"]]
            yield d
    n = sc["n"]
    for keep in ([j for j in range(n) if j < n // 2], [j for j in range(n) if j >= n // 2],
                 [j for j in range(n) if j % 4], [j for j in range(n) if j != n - 1], [j for j in range(n) if j != 0]):
        if len(keep) < 2 or len(keep) == n or len(set(sc["labels"][j] for j in keep)) != len(set(sc["labels"])) \
                and sc["task"] == "classification":
            continue
        d = c()
        d["n"] = len(keep)
        d["labels"] = [sc["labels"][j] for j in keep]
        if sc["keys"]:
            d["keys"] = [sc["keys"][j] for j in keep]
        for p in d["parties"]:
            p["cols"] = [[col[j] for j in keep] for col in p["cols"]]
        yield d
    for i, p in enumerate(sc["parties"]):
        for f in range(len(p["cols"])):
            if len(p["cols"]) > 1:
                d = c()
                del d["parties"][i]["cols"][f]
                del d["parties"][i]["names"][f]
                yield d
    if sc["idx"] != sorted(sc["idx"]):
        d = c()
        d["idx"] = sorted(sc["idx"])
        yield d
    if sc["keys"]:
        d = c()
        d["keys"] = None
        yield d
    from sim.world import DEFAULTS
    for k in ("mode", "key_length", "max_split_nodes", "min_leaf_node", "min_sample_split", "re_rate", "importance",
              "learning_rate", "subsample", "bin_num"):
        if P.get(k) != DEFAULTS[k]:
            yield c(**{k: DEFAULTS[k]})
