"""Process environment of the simulator: paths, shims, per-node module namespaces and seams.

Every simulated party ("node") gets its own copy of the repository's modules
and of the standard `random` module, as separate processes would have.  All
nondeterminism the repository can reach (sockets, entropy, clocks, files, log
streams) is dispatched to the node that is currently running.
"""
import builtins
import io
import importlib.abc
import importlib.util
import logging
import os
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
_SHARED_TOPS = {"arch"}

CUR = None  # the node that is running, or None while harness code runs

real_urandom = os.urandom
real_open = builtins.open


def _setup_paths():
    sys.dont_write_bytecode = True
    os.environ.setdefault("PROTOCOL_BUFFERS_PYTHON_IMPLEMENTATION", "python")
    compat = os.path.join(HERE, "compat")
    if compat not in sys.path:
        sys.path.insert(0, compat)
    venv = "/opt/venv/lib/python3.12/site-packages"
    if os.path.isdir(venv) and venv not in sys.path:
        sys.path.append(venv)


# --------------------------------------------------------------------------
# repository modules, one namespace per node

class RepoImporter(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, root):
        self.root = root
        self.code = {}
        self.tops = set()
        for n in os.listdir(root):
            p = os.path.join(root, n)
            if n.endswith(".py"):
                self.tops.add(n[:-3])
            elif os.path.isdir(p) and not n.startswith("."):
                self.tops.add(n)
        self.tops -= {"data", "tests", "docs"}
        self.names = set()   # every per-node module name ever loaded

    def locate(self, fullname):
        base = os.path.join(self.root, *fullname.split("."))
        if os.path.isfile(base + ".py"):
            return base + ".py", False
        if os.path.isfile(os.path.join(base, "__init__.py")):
            return os.path.join(base, "__init__.py"), True
        if os.path.isdir(base):
            return None, True
        return None, None

    def find_spec(self, fullname, path=None, target=None):
        if fullname == "random" and CUR is not None and CUR.mods is not None:
            return importlib.util.spec_from_loader(fullname, self)
        if fullname.split(".")[0] not in self.tops:
            return None
        file, pkg = self.locate(fullname)
        if pkg is None:
            return None
        spec = importlib.util.spec_from_loader(fullname, self, origin=file, is_package=pkg)
        if pkg:
            spec.submodule_search_locations = [os.path.join(self.root, *fullname.split("."))]
        return spec

    def create_module(self, spec):
        return None

    def get_code(self, file):
        c = self.code.get(file)
        if c is None:
            with real_open(file, "rb") as f:
                c = compile(f.read(), file, "exec", dont_inherit=True)
            self.code[file] = c
        return c

    def exec_module(self, module):
        name = module.__name__
        if name == "random":
            return
        if name.split(".")[0] not in _SHARED_TOPS:
            self.names.add(name)
        file, pkg = self.locate(name)
        if file is None:
            return
        module.__file__ = file
        exec(self.get_code(file), module.__dict__)


IMPORTER = None
_random_code = None
_npr_real = None


class NpRandomProxy(types.ModuleType):
    """numpy.random whose global generator is the running node's."""

    def __getattr__(self, name):
        n = CUR
        if n is not None and n.np_rs is not None:
            if name == "default_rng":
                return n.np_default_rng
            if name not in ("RandomState", "Generator", "SeedSequence", "MT19937", "PCG64", "Philox", "SFC64",
                            "BitGenerator", "mtrand", "bit_generator", "test"):
                v = getattr(n.np_rs, name, None)
                if v is not None:
                    return v
        return getattr(_npr_real, name)


def dispatch_urandom(n):
    return CUR.entropy(n) if CUR is not None else real_urandom(n)


def fresh_random_module(node):
    """A private copy of the standard random module, seeded for this node."""
    import random as std
    global _random_code
    if _random_code is None:
        with real_open(std.__file__, "rb") as f:
            _random_code = compile(f.read(), std.__file__, "exec", dont_inherit=True)
    m = types.ModuleType("random")
    m.__file__ = std.__file__
    m.__spec__ = std.__spec__
    exec(_random_code, m.__dict__)
    m._urandom = dispatch_urandom
    m.seed(node.seed_for("random"))
    return m


class NodeEnv:
    """What a process owns: modules, random state, entropy, clock, files, log tree."""

    def __init__(self, name, seed, kernel=None):
        import random as std
        self.name = name
        self.seed = seed
        self.kernel = kernel
        self.mods = {}
        self._std = std
        self._ent = std.Random(self.seed_for("entropy"))
        self.entropy_hook = None
        self.entropy_calls = 0
        self.entropy_limit = 3_000_000
        import numpy as np
        self.np_rs = np.random.RandomState(self.seed_for("numpy") % (2 ** 32)) if _npr_real is None \
            else _npr_real.RandomState(self.seed_for("numpy") % (2 ** 32))
        self.clock_offset = 0.0
        self.argv = [name]
        self.stdout = io.StringIO()
        self.stderr = io.StringIO()
        self.fs = None
        self.sockets = []
        self.sock_errors = 0         # sends and receives that reported a broken connection
        self.log_root = logging.RootLogger(logging.WARNING)
        self.log_manager = logging.Manager(self.log_root)
        self.mods["random"] = fresh_random_module(self)
        self.np_calls = 0
        from sim import threads
        threads.equip(self)

    def seed_for(self, what):
        import hashlib
        return int.from_bytes(hashlib.blake2b(("%s/%s/%s" % (self.seed, self.name, what)).encode(),
                                              digest_size=8).digest(), "big")

    def np_default_rng(self, seed=None):
        if seed is None:
            seed = self.seed_for("default_rng%d" % self.np_calls) % (2 ** 63)
            self.np_calls += 1
        return _npr_real.default_rng(seed)

    def entropy(self, n):
        self.entropy_calls += 1
        if self.entropy_calls > self.entropy_limit:
            raise SimBudget("entropy budget of %d draws exhausted" % self.entropy_limit)
        if self.entropy_hook is not None:
            r = self.entropy_hook(n)
            if r is not None:
                return r
        return self._ent.randbytes(n)


class SimBudget(BaseException):
    """A step budget of the simulator ran out inside code under test."""


class SimCrash(BaseException):
    """The node was killed by the simulator."""


_saved_log = None


def activate(node):
    """Make `node` the running process (None: back to the harness)."""
    global CUR
    old = CUR
    if old is node:
        return
    sm = sys.modules
    names = IMPORTER.names
    if old is not None:
        om = old.mods
        for k in names:
            m = sm.pop(k, None)
            if m is not None:
                om[k] = m
        om["random"] = sm["random"]
        sm["random"] = _std_random
        for k in old.swaps:
            m = _std_swaps[k]
            if m is None:
                sm.pop(k, None)
            else:
                sm[k] = m
        sys.stdout, sys.stderr, sys.argv = _std_streams[0], _std_streams[1], _std_argv
        logging.root = logging.Logger.root = _std_log[0]
        logging.Logger.manager = _std_log[1]
    CUR = node
    if node is not None:
        sm.update(node.mods)
        sm.update(node.swaps)
        sys.stdout, sys.stderr, sys.argv = node.stdout, node.stderr, node.argv
        logging.root = logging.Logger.root = node.log_root
        logging.Logger.manager = node.log_manager


class _Ctx:
    def __init__(self, node):
        self.node = node

    def __enter__(self):
        self.prev = CUR
        activate(None)
        activate(self.node)
        return self.node

    def __exit__(self, *a):
        activate(None)
        activate(self.prev)


def within(node):
    return _Ctx(node)


# --------------------------------------------------------------------------
# files

class SimFile(io.RawIOBase):
    def __init__(self, fs, path, mode):
        self.fs, self.path = fs, path
        self.pos = 0
        self._w = any(c in mode for c in "wa+x")
        self._r = "r" in mode or "+" in mode
        if "w" in mode or "x" in mode or ("a" in mode and path not in fs.files):
            fs.files[path] = bytearray()
        if "a" in mode:
            self.pos = len(fs.files[path])

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return False

    def readinto(self, b):
        data = self.fs.files[self.path]
        n = min(len(b), len(data) - self.pos)
        n = self.fs.on_read(self.path, self.pos, n)
        b[:n] = data[self.pos:self.pos + n]
        self.pos += n
        return n

    def write(self, b):
        b = bytes(b)
        n = self.fs.on_write(self.path, len(b))
        self.fs.files[self.path] += b[:n]
        return n

    def fileno(self):
        raise io.UnsupportedOperation("fileno")


class SimFS:
    """An in-memory disk with scripted faults."""

    def __init__(self):
        self.files = {}
        self.dirs = {".", "simfs", "tmp"}
        self.opened = 0
        self.read_plan = None     # f(path, pos, n) -> n (short read) or raises OSError
        self.write_plan = None    # f(path, n, total) -> n or raises OSError
        self.open_plan = None     # f(path, mode) may raise OSError
        self.written = {}
        self.stats = {"read": 0, "short_read": 0, "read_error": 0, "write": 0, "write_error": 0, "short_write": 0}

    def norm(self, path):
        path = os.fspath(path)
        return os.path.basename(path) if not path.startswith("/simfs/") else path

    def has(self, path):
        """Is this a file of the simulated disk?"""
        return isinstance(path, (str, os.PathLike)) and self.norm(path) in self.files

    def on_read(self, path, pos, n):
        self.stats["read"] += 1
        if self.read_plan is None or n == 0:
            if self.read_plan is not None:
                try:
                    self.read_plan(path, pos, 0)
                except OSError:
                    self.stats["read_error"] += 1
                    raise
            return n
        try:
            r = self.read_plan(path, pos, n)
        except OSError:
            self.stats["read_error"] += 1
            raise
        r = max(1, min(n, r))
        if r < n:
            self.stats["short_read"] += 1
        return r

    def on_write(self, path, n):
        self.stats["write"] += 1
        self.written[path] = self.written.get(path, 0) + n
        if self.write_plan is None:
            return n
        try:
            r = self.write_plan(path, n, self.written[path])
        except OSError:
            self.stats["write_error"] += 1
            raise
        if r < n:
            self.stats["short_write"] += 1
        return r

    def open(self, path, mode="r", buffering=-1, encoding=None, errors=None, newline=None):
        p = self.norm(path)
        if self.open_plan is not None:
            self.open_plan(p, mode)
        if "r" in mode and p not in self.files:
            raise FileNotFoundError(2, "No such file or directory", path)
        if "x" in mode and p in self.files:
            raise FileExistsError(17, "File exists", path)
        raw = SimFile(self, p, mode)
        if buffering == 0:
            return raw
        buf = io.BufferedReader(raw, 64 if buffering < 2 else buffering) if "r" in mode and "+" not in mode \
            else io.BufferedWriter(raw)
        if "b" in mode:
            return buf
        return io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, line_buffering=("r" not in mode))


def _open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    n = CUR
    if n is not None and n.fs is not None and isinstance(file, (str, os.PathLike)):
        p = os.fspath(file)
        if p.startswith("/simfs/") or any(c in mode for c in "wax+") or n.fs.has(p):
            return n.fs.open(p, mode, buffering, encoding, errors, newline)
    if n is not None and isinstance(file, (str, os.PathLike)) and any(c in mode for c in "wax+"):
        raise PermissionError(13, "simulated node may not write the real disk", file)
    return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)


class _DiskCalls:
    """The os functions of a running node: relative paths, and files the node wrote, are on its simulated disk."""

    NAMES = ("stat", "lstat", "access", "remove", "unlink", "rename", "replace", "mkdir", "rmdir", "listdir", "open", "write",
             "read", "close", "fsync")

    def __init__(self):
        self.real = {k: getattr(os, k) for k in self.NAMES}
        self.fds = {}
        for k in self.NAMES:
            setattr(os, k, self.dispatch(k))

    def dispatch(self, name):
        real, mine = self.real[name], getattr(self, name)
        changes = name in ("remove", "unlink", "rename", "replace", "mkdir", "rmdir")

        def f(path=".", *a, **kw):
            n = CUR
            if n is None:
                return real(path, *a, **kw)
            if isinstance(path, int):
                return mine(path, *a, **kw) if path in self.fds else real(path, *a, **kw)
            fs = n.fs
            p = os.fspath(path)
            if fs is None or isinstance(p, bytes) or not (fs.has(p) or p.startswith("/simfs/") or not os.path.isabs(p)):
                if changes or name == "open" and a and a[0] & 3:
                    raise PermissionError(13, "simulated node may not change the real disk", path)
                return real(path, *a, **kw)
            return mine(fs, p, *a, **kw)
        f.__name__ = name
        return f

    @staticmethod
    def need(fs, p):
        if not fs.has(p):
            raise FileNotFoundError(2, "No such file or directory", p)
        return fs.norm(p)

    @staticmethod
    def dir_name(p):
        return os.path.basename(os.path.normpath(p))

    def stat(self, fs, p, *a, **kw):
        t = int(1_600_000_000 + CUR.clock_offset)
        if not fs.has(p) and self.dir_name(p) in fs.dirs:
            return os.stat_result((0o40755, 1, 1, 2, 0, 0, 0, t, t, t))
        return os.stat_result((0o100644, 1, 1, 1, 0, 0, len(fs.files[self.need(fs, p)]), t, t, t))

    lstat = stat

    def access(self, fs, p, *a, **kw):
        return fs.has(p) or self.dir_name(p) in fs.dirs

    def remove(self, fs, p, *a, **kw):
        del fs.files[self.need(fs, p)]

    unlink = remove

    def rename(self, fs, p, to, **kw):
        fs.files[fs.norm(to)] = fs.files.pop(self.need(fs, p))

    replace = rename

    def mkdir(self, fs, p, *a, **kw):
        d = self.dir_name(p)
        if d in fs.dirs:
            raise FileExistsError(17, "File exists", p)
        fs.dirs.add(d)

    def rmdir(self, fs, p, *a, **kw):
        fs.dirs.discard(self.dir_name(p))

    def listdir(self, fs, p=".", *a):
        return sorted(os.path.basename(x) for x in fs.files)

    def open(self, fs, p, flags, *a, **kw):
        if fs.has(p):
            if flags & os.O_EXCL:
                raise FileExistsError(17, "File exists", p)
            if flags & os.O_TRUNC:
                fs.files[fs.norm(p)] = bytearray()
        elif flags & os.O_CREAT:
            fs.files[fs.norm(p)] = bytearray()
        else:
            self.need(fs, p)
        fd = 500000 + fs.opened
        fs.opened += 1
        self.fds[fd] = SimFile(fs, fs.norm(p), "r+")
        return fd

    def write(self, fd, data):
        return self.fds[fd].write(data)

    def read(self, fd, n):
        return self.fds[fd].read(n)

    def close(self, fd):
        del self.fds[fd]

    def fsync(self, fd):
        pass


# --------------------------------------------------------------------------
# clocks

def _patch_time():
    import time
    real = {k: getattr(time, k) for k in ("time", "monotonic", "perf_counter", "process_time", "sleep",
                                          "time_ns", "monotonic_ns", "perf_counter_ns")}
    global real_time
    real_time = types.SimpleNamespace(**real)

    def simtime(wall):
        def f():
            n = CUR
            if n is None:
                return real["time" if wall else "monotonic"]()
            k = n.kernel
            return (1_600_000_000.0 + n.clock_offset if wall else 1000.0) + (k.now if k else 0.0)
        return f
    t, m = simtime(True), simtime(False)
    time.time, time.monotonic, time.perf_counter, time.process_time = t, m, m, m
    time.time_ns = lambda: int(t() * 1e9)
    time.monotonic_ns = time.perf_counter_ns = lambda: int(m() * 1e9)

    def sleep(s):
        n = CUR
        if n is None:
            return real["sleep"](s)
        if n.kernel is None:
            return None
        n.kernel.sleep(s)
    time.sleep = sleep


real_time = None
_std_random = None
_std_swaps = {}
_std_streams = None
_std_argv = None
_std_log = None


def install():
    """Install every seam; called once per process before any repository import."""
    global IMPORTER, _npr_real, _std_random, _std_streams, _std_argv, _std_log
    if IMPORTER is not None:
        return
    _setup_paths()
    os.urandom = dispatch_urandom
    import random
    random._urandom = dispatch_urandom
    _std_random = random
    import npcompat
    npcompat.install()
    import numpy as np
    import numpy.random
    _npr_real = np.random
    proxy = NpRandomProxy("numpy.random")
    proxy.__dict__["__path__"] = _npr_real.__path__
    np.random = proxy
    sys.modules["numpy.random"] = proxy
    import copy, functools, pickle, statistics, secrets, socket, typing  # noqa: preload
    import google.protobuf.message, google.protobuf.descriptor, google.protobuf.reflection  # noqa
    try:
        import Cryptodome.PublicKey.RSA  # noqa
        import Cryptodome.Random  # noqa
    except ImportError:
        pass
    builtins.open = _open
    io.open = _open
    _DiskCalls()
    _patch_time()
    from sim import net
    net.install()
    import threading, queue, concurrent.futures.thread  # noqa
    from sim import threads
    for k in threads.SWAPPED:
        _std_swaps[k] = sys.modules.get(k)
    _std_streams = (sys.stdout, sys.stderr)
    _std_argv = sys.argv
    _std_log = (logging.root, logging.Logger.manager)
    IMPORTER = RepoImporter(REPO)
    sys.meta_path.insert(0, IMPORTER)
    for t in _SHARED_TOPS:
        base = os.path.join(REPO, t, "api")
        if os.path.isdir(base):
            for n in sorted(os.listdir(base)):
                if n.endswith("_pb2.py"):
                    __import__("%s.api.%s" % (t, n[:-3]))
