"""Deterministic scheduler: node threads run one at a time, time is a queue of events.

Every decision comes from one ChoiceSource; a run is a pure function of
(scenario, choice stream, code).
"""
import hashlib
import heapq
import random as _random
import sys
import threading
import traceback

from sim import env
from sim import threads
from sim.env import SimBudget, SimCrash


class Choices:
    """Seeded choice stream that records itself; replays a recorded prefix, then defaults."""

    def __init__(self, seed=0, replay=None, calm=False):
        self.rng = _random.Random(seed)
        self.replay = replay
        self.calm = calm
        self.log = []
        self.tags = {}

    def draw(self, weights, tag):
        """Index into weights; index 0 is the neutral choice."""
        i = len(self.log)
        if self.replay is not None:
            v = self.replay[i] if i < len(self.replay) else 0
            if v >= len(weights):
                v = 0
        elif self.calm:
            v = 0
        else:
            tot = sum(weights)
            x = self.rng.random() * tot
            v = 0
            for v, w in enumerate(weights):
                x -= w
                if x < 0:
                    break
        self.log.append(v)
        if v:
            self.tags[tag] = self.tags.get(tag, 0) + 1
        return v

    def pick(self, n, tag):
        """Uniform integer in [0, n); 0 is neutral."""
        if self.replay is not None:
            i = len(self.log)
            v = self.replay[i] if i < len(self.replay) else 0
            v = v if v < n else 0
        elif self.calm:
            v = 0
        else:
            v = self.rng.randrange(n)
        self.log.append(v)
        return v


class Task:
    def __init__(self, kernel, node, name, fn):
        self.k, self.node, self.name, self.fn = kernel, node, name, fn
        self.lock = threading.Lock()
        self.lock.acquire()
        self.state = "new"          # new, ready, running, blocked, done
        self.why = None
        self.result = None
        self.exc = None
        self.tb = None
        self.token = 0
        self.crashed = False
        self.daemon = False
        self.sentinel = None
        self.thread = threading.Thread(target=self._main, daemon=True)
        self.steps = 0

    def _main(self):
        self.lock.acquire()
        try:
            if self.crashed:
                raise SimCrash()
            self.result = self.fn()
            if self is self.node.tasks[0]:
                threads.at_exit(self.node)
        except SimCrash as e:
            self.exc = e
        except SimBudget as e:
            self.exc = e
            self.tb = traceback.format_exc()
        except BaseException as e:  # noqa
            self.exc = e
            self.tb = traceback.format_exc()
            if self is self.node.tasks[0]:
                try:
                    threads.at_exit(self.node)
                except BaseException:  # noqa
                    pass
        if self.sentinel is not None and self.sentinel.held:
            self.sentinel.release()
        self.state = "done"
        self.k._main.release()


class Node(env.NodeEnv):
    """A simulated process."""

    def __init__(self, name, seed, kernel):
        super().__init__(name, seed, kernel)
        self.tasks = []
        self.dead = False
        self.results = {}
        self.default_timeout = None
        kernel.nodes[name] = self


class Kernel:
    def __init__(self, choices, profile=None, max_steps=400_000):
        self.ch = choices
        self.now = 0.0
        self.q = []
        self.seq = 0
        self.nodes = {}
        self.tasks = []
        self.current = None
        self._main = threading.Lock()
        self._main.acquire()
        self.steps = 0
        self.max_steps = self.base_steps = max_steps
        self.bytes_moved = 0
        self.profile = dict(DEFAULT_PROFILE)
        if profile:
            self.profile.update(profile)
        self.perturb = False        # scheduling perturbation on? (off during connection set-up)
        self.listeners = {}
        self.fds = []               # every socket ever made
        self.conns = []
        self.linger = []            # (node, port, until, reuse): connections closed from that side
        self.faults = []
        self.fault_counts = {}
        self.digest = hashlib.blake2b(digest_size=8)
        self.trace = None
        self.on_conn = None
        self.budget_exceeded = False
        self.switches = 0

    # -- events
    def at(self, delay, fn):
        self.seq += 1
        heapq.heappush(self.q, (self.now + delay, self.seq, fn))

    def count(self, kind, n=1):
        self.fault_counts[kind] = self.fault_counts.get(kind, 0) + n

    def note(self, *ev):
        self.digest.update(repr(ev).encode())
        if self.trace is not None and len(self.trace) < 20000:
            self.trace.append((round(self.now, 6),) + ev)

    # -- tasks
    def spawn(self, node, name, fn, delay=0.0):
        t = Task(self, node, name, fn)
        node.tasks.append(t)
        self.tasks.append(t)
        t.state = "ready"
        t.thread.start()
        self.at(delay, lambda: self._resume(t, t.token))
        return t

    def _resume(self, t, token):
        if t.state in ("done", "running") or token != t.token:
            return
        t.token += 1
        t.state = "running"
        self.current = t
        self.switches += 1
        env.activate(t.node)
        t.lock.release()
        self._main.acquire()
        env.activate(None)
        self.current = None
        if t.state == "done":
            self._task_done(t)

    def _yield(self, t):
        """Called in t's thread: give control back to the scheduler until resumed."""
        self._main.release()
        t.lock.acquire()
        if t.crashed:
            raise SimCrash()

    def _task_done(self, t):
        n = t.node
        self.note("done", t.name, type(t.exc).__name__)
        if all(x.state == "done" or x.daemon for x in n.tasks) and not n.dead:
            self.exit_node(n)
            self._unwind([x for x in n.tasks if x.state != "done"])

    def exit_node(self, n, abrupt=False):
        """Process exit: the operating system closes its sockets."""
        n.dead = True
        for s in list(n.sockets):
            s._os_close(abrupt)

    def moved(self, n):
        """Delivered bytes are progress, and extend the step budget to some degree."""
        self.bytes_moved += n
        self.max_steps = self.base_steps + min(2 * self.base_steps, 20 * self.bytes_moved)

    def step(self):
        self.steps += 1
        t = self.current
        if t is not None:
            t.steps += 1
        if self.steps > self.max_steps:
            self.budget_exceeded = True
            raise SimBudget("step budget of %d exhausted at %s" % (self.max_steps, t and t.why))

    def block(self, why):
        t = self.current
        t.state, t.why = "blocked", why
        self._yield(t)
        t.why = None

    def wake(self, t, delay=0.0):
        if t.state == "blocked":
            tok = t.token
            self.at(delay, lambda: self._resume(t, tok))

    def sleep(self, s):
        t = self.current
        self.step()
        t.state, t.why = "ready", "sleep"
        tok = t.token
        self.at(max(0.0, s), lambda: self._resume(t, tok))
        self._yield(t)

    def preempt(self, op):
        """A scheduling point: the chooser may let others run first."""
        self.step()
        if not self.perturb:
            return
        p = self.profile
        v = self.ch.draw(p["preempt_w"], "preempt")
        if v:
            d = p["preempt_d"][v]
            if d >= 1.0:
                self.count("node_stall")
            t = self.current
            t.state, t.why = "ready", "preempted in " + op
            tok = t.token
            self.at(d, lambda: self._resume(t, tok))
            self._yield(t)

    def kill(self, node, kind="crash"):
        """Kill a process now.  If it is the running one, unwinds it."""
        if node.dead:
            return
        self.count(kind)
        self.note("kill", node.name)
        for t in node.tasks:
            t.crashed = True
        self.exit_node(node, abrupt=True)
        self._unwind(node.tasks)
        if self.current is not None and self.current.node is node:
            raise SimCrash()

    def _unwind(self, tasks):
        for t in tasks:
            t.crashed = True
            if t.state in ("blocked", "ready", "new"):
                t.token += 1
                tok = t.token
                t.state = "blocked"
                self.at(0, lambda t=t, tok=tok: self._resume(t, tok))

    def line(self, node):
        """A line of repository code runs in a process with several threads."""
        if self.perturb and self.current is not None and sum(t.state != "done" for t in node.tasks) > 1 \
                and len(self.profile["preempt_w"]) > 1 and self.ch.draw([0.97, 0.03], "line"):
            t = self.current
            t.state, t.why = "ready", "preempted"
            tok = t.token
            self.at(self.profile["preempt_d"][1], lambda: self._resume(t, tok))
            self._yield(t)

    def run(self):
        """Run to quiescence.  Returns 'ok', 'deadlock' or 'budget'."""
        try:
            while self.q:
                if all(t.state == "done" for t in self.tasks):
                    break
                at, _, fn = heapq.heappop(self.q)
                if at > self.now:
                    self.now = at
                if self.steps > self.max_steps:
                    self.budget_exceeded = True
                    break
                self.steps += 1
                fn()
        finally:
            env.activate(None)
        self.drain_at = self.now
        live = [t for t in self.tasks if t.state != "done"]
        if self.budget_exceeded or any(isinstance(t.exc, SimBudget) for t in self.tasks):
            self.outcome = "budget"
        elif live:
            self.outcome = "deadlock"
        else:
            self.outcome = "ok"
        self.stuck = [(t.name, t.why) for t in live]
        for t in live:   # unwind the threads
            t.crashed = True
            for _ in range(50):
                if t.state == "done":
                    break
                t.state = "running"
                self.current = t
                env.activate(t.node)
                t.lock.release()
                self._main.acquire()
                env.activate(None)
        self.current = None
        return self.outcome


DEFAULT_PROFILE = {
    "preempt_w": [1], "preempt_d": [0],
    "lat_w": [1], "lat_d": [0.00005],
    "short_send": 0.0, "short_recv": 0.0,
    "cap": 1 << 20,
    "partition": None,
}
