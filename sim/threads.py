"""Threads inside a simulated process.

Each node owns a copy of the standard `threading`, `queue` and
`concurrent.futures` modules built on the kernel's tasks, so code that starts
threads is scheduled by the simulator like everything else.
"""
import os
import sys
import types

from sim import env

SWAPPED = ("threading", "queue", "concurrent", "concurrent.futures")
_code = {}


def _std_code(name):
    c = _code.get(name)
    if c is None:
        f = os.path.join(os.path.dirname(os.__file__), *name.split(".")) + ".py"
        with env.real_open(f, "rb") as fh:
            c = _code[name] = compile(fh.read(), f, "exec", dont_inherit=True)
    return c


class SimLock:
    def __init__(self):
        self.held = False
        self.waiting = []

    def acquire(self, blocking=True, timeout=-1):
        n = env.CUR
        k = n.kernel if n is not None else None
        if k is None or k.current is None:
            if self.held and blocking:
                raise RuntimeError("deadlock: lock already held in a process with one thread")
            got, self.held = not self.held, True
            return got
        if blocking and len(n.tasks) > 1:
            k.preempt("lock")
        dl = None if timeout is None or timeout < 0 else k.now + timeout
        while self.held:
            if not blocking or (dl is not None and k.now >= dl):
                return False
            t = k.current
            self.waiting.append(t)
            if dl is not None:
                tok = t.token
                k.at(dl - k.now, lambda t=t, tok=tok: k._resume(t, tok) if t.state == "blocked" else None)
            k.block("lock")
            if t in self.waiting:
                self.waiting.remove(t)
            k.step()
        self.held = True
        return True

    def release(self):
        if not self.held:
            raise RuntimeError("release unlocked lock")
        self.held = False
        ts, self.waiting = self.waiting, []
        for t in ts:
            t.k.wake(t)

    def locked(self):
        return self.held

    acquire_lock, release_lock, locked_lock = acquire, release, locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.held, self.waiting = False, []


def _task():
    n = env.CUR
    return n.kernel.current if n is not None and n.kernel is not None else None


def get_ident():
    t = _task()
    return 1 if t is None else t.node.tasks.index(t) + 1


def _low(node):
    """The node's `_thread`."""
    import _thread
    m = types.ModuleType("_thread")
    for a in ("TIMEOUT_MAX", "error", "_local", "_excepthook", "_ExceptHookArgs"):
        setattr(m, a, getattr(_thread, a))
    m.allocate_lock = m.allocate = m.LockType = m.lock = SimLock
    m.get_ident = m.get_native_id = get_ident
    m.stack_size = lambda *a: 0
    m._count = lambda: sum(t.state != "done" for t in node.tasks)
    m._is_main_interpreter = m.daemon_threads_allowed = lambda: True
    m.interrupt_main = lambda *a: None

    def start_new_thread(fn, args, kwargs={}):
        k = node.kernel
        if k is None or k.current is None:
            fn(*args, **kwargs)
            return 2
        t = k.spawn(node, "%s.thread%d" % (node.name, len(node.tasks)), lambda: fn(*args, **kwargs))
        th = getattr(fn, "__self__", None)
        t.daemon = bool(getattr(th, "_daemonic", False))
        line_preemption()
        k.preempt("thread start")
        return node.tasks.index(t) + 1

    def _set_sentinel():
        lock = SimLock()
        t = _task()
        if t is not None and t.node.tasks[0] is not t:
            t.sentinel = lock
        else:
            node.main_sentinel = lock
        return lock
    m.start_new_thread = m.start_new = start_new_thread
    m._set_sentinel = _set_sentinel
    return m


def _exec(node, name, std, swap):
    m = types.ModuleType(name)
    m.__file__ = std
    sm = sys.modules
    old = {x: sm.get(x) for x in swap}
    fork = os.register_at_fork
    os.register_at_fork = lambda **kw: None
    try:
        sm.update(swap)
        if "." in name:
            m.__package__ = name.rpartition(".")[0]
        exec(_std_code(std), m.__dict__)
    finally:
        os.register_at_fork = fork
        for x, v in old.items():
            if v is None:
                sm.pop(x, None)
            else:
                sm[x] = v
    return m


def load(node, what):
    have = node.thread_mods
    m = have.get(what)
    if m is not None:
        return m
    if what == "threading":
        m = _exec(node, "threading", "threading", {"_thread": _low(node)})
        run = m.Thread._bootstrap_inner

        def hook(args):
            node.stderr.write("Exception in thread: %r\n" % (args.exc_value,))
        m.excepthook = m._excepthook = hook
        m._invoke_excepthook = None
        m._make_invoke_excepthook = lambda: (lambda th: m.excepthook(types.SimpleNamespace(
            exc_value=sys.exc_info()[1], exc_type=sys.exc_info()[0], exc_traceback=sys.exc_info()[2], thread=th)))
        del run
    elif what == "queue":
        import _queue

        class Empty(Exception):
            pass
        shim = types.ModuleType("_queue")
        shim.Empty = _queue.Empty
        m = _exec(node, "queue", "queue", {"threading": load(node, "threading"), "_queue": shim})
        m.Empty = _queue.Empty
    elif what == "concurrent.futures":
        th, q = load(node, "threading"), load(node, "queue")
        base = _exec(node, "concurrent.futures._base", "concurrent.futures._base", {"threading": th})
        pkg = types.ModuleType("concurrent.futures")
        pkg.__path__ = []
        pkg._base = base
        thr = _exec(node, "concurrent.futures.thread", "concurrent.futures.thread",
                    {"threading": th, "queue": q, "concurrent.futures": pkg, "concurrent.futures._base": base})
        for x in base.__dict__:
            if not x.startswith("__"):
                setattr(pkg, x, base.__dict__[x])
        pkg.ThreadPoolExecutor = thr.ThreadPoolExecutor
        pkg.thread = thr
        m = pkg
    elif what == "concurrent":
        m = types.ModuleType("concurrent")
        m.__path__ = []
        m.futures = load(node, "concurrent.futures")
    have[what] = m
    return m


class Lazy(types.ModuleType):
    def __init__(self, name, node):
        super().__init__(name)
        self.__dict__["_node"] = node
        self.__dict__["__path__"] = [] if name.startswith("concurrent") else None
        if self.__dict__["__path__"] is None:
            del self.__dict__["__path__"]

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        return getattr(load(self.__dict__["_node"], self.__name__), a)


def equip(node):
    node.thread_mods = {}
    node.swaps = {name: Lazy(name, node) for name in SWAPPED}


def at_exit(node):
    """What the interpreter does when the main thread of a process ends."""
    m = node.thread_mods.get("threading")
    if m is not None:
        for f in reversed(m._threading_atexits):
            f()


_lines = False


def line_preemption():
    """With more than one thread in a process, every line of repository code is a scheduling point."""
    global _lines
    if _lines:
        return
    _lines = True
    mon = sys.monitoring
    mon.use_tool_id(4, "verif-lines")
    root = env.REPO + os.sep

    def line(code, lineno):
        if not code.co_filename.startswith(root):
            return mon.DISABLE
        n = env.CUR
        if n is not None and n.kernel is not None:
            n.kernel.line(n)
    mon.register_callback(4, mon.events.LINE, line)
    mon.set_events(4, mon.events.LINE)
