"""Simulated stream sockets: the only transport the repository sees inside a node."""
import collections
import errno
import io
import random as _random
import select as _select
import selectors
import socket as _s

from sim import env
from sim.env import SimCrash

real_socket = _s.socket


class Pipe:
    """One direction of a connection."""

    def __init__(self, conn, writer, reader):
        self.conn, self.writer, self.reader = conn, writer, reader   # node names
        self.tap = bytearray()      # everything accepted from the sender
        self.flight = 0
        self.rbuf = bytearray()
        self.taken = 0              # bytes handed to the reader
        self.last = 0.0             # time of the last scheduled delivery
        self.eof = False            # reader sees end of stream after rbuf
        self.rst = False            # reader sees a reset after rbuf
        self.broken = False         # writer's sends fail
        self.fin_sent = False
        self.dropped = False        # in-flight data is lost
        self.limits = []            # faults: (byte offset, kind, argument), ascending
        self.fifo = collections.deque()
        self.rwait = []
        self.wwait = []
        self.marks = []             # (offset, op number) of send calls
        self.delay_until = 0.0      # partition


class Conn:
    def __init__(self, k, client, server):
        self.k = k
        self.id = len(k.conns)
        k.conns.append(self)
        self.client, self.server = client, server
        self.up = Pipe(self, client, server)     # client -> server
        self.down = Pipe(self, server, client)

    def pipes(self):
        return (self.up, self.down)


def _broken(e):
    if env.CUR is not None:
        env.CUR.sock_errors += 1
    return e


def _wake(k, lst):
    for t in lst:
        k.wake(t)
    lst.clear()


class SimSocket:
    def __init__(self, family=-1, type=-1, proto=-1, fileno=None, _node=None):
        self.node = _node or env.CUR
        self.k = self.node.kernel
        self.node.sockets.append(self)
        self.out = self.inp = None
        self.closed = False
        self.listening = None
        self.timeout = self.node.default_timeout
        self.addr = None
        self.fd = 1000 + len(self.k.fds)
        self.k.fds.append(self)
        self._refs = 0
        self.opts = {}
        self.family, self.type, self.proto = _s.AF_INET, _s.SOCK_STREAM, 0

    # -- set-up
    def bind(self, addr):
        self._check()
        k = self.k
        for who, port, until, reuse in k.linger:
            # a connection closed from this side holds its port for a minute
            if who == self.node.name and port == addr[1] and k.now < until and not (reuse and self._reuse()):
                k.count("port_in_use")
                raise OSError(errno.EADDRINUSE, "Address already in use")
        self.addr = addr

    def _reuse(self):
        return bool(self.opts.get((_s.SOL_SOCKET, _s.SO_REUSEADDR)))

    def listen(self, backlog=128):
        self._check()
        key = self.addr[1]
        if key in self.k.listeners and not self.k.listeners[key].closed:
            raise OSError(errno.EADDRINUSE, "Address already in use")
        self.k.listeners[key] = self
        self.listening = []
        self.accwait = []
        self.k.note("listen", self.node.name, key)
        for t in getattr(self.k, "listen_waiters", ()):
            self.k.wake(t)

    def accept(self):
        self._check()
        k = self.k
        k.preempt("accept")
        dl = None if self.timeout is None else k.now + self.timeout
        while not self.listening:
            self._wait(self.accwait, "accept", dl)
        conn = self.listening.pop(0)
        s = SimSocket(_node=self.node)
        s.out, s.inp = conn.down, conn.up
        s.addr = ("127.0.0.1", self.addr[1])
        s.opts = dict(self.opts)
        s.accepted = True
        k.note("accept", self.node.name, conn.client)
        return s, ("127.0.0.1", 40000 + conn.id)

    def connect(self, addr):
        self._check()
        k = self.k
        k.preempt("connect")
        lst = k.listeners.get(addr[1])
        if lst is None or lst.closed or lst.listening is None:
            raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")
        conn = Conn(k, self.node.name, lst.node.name)
        if k.on_conn is not None:
            k.on_conn(conn)
        for p in conn.pipes():
            p.cap = k.profile["cap"]
        self.out, self.inp = conn.up, conn.down
        self.conn = conn
        lst.listening.append(conn)
        k.note("connect", self.node.name)
        _wake(k, lst.accwait)

    def connect_ex(self, addr):
        try:
            self.connect(addr)
            return 0
        except OSError as e:
            return e.errno

    def _wait(self, queue, why, dl):
        """Sleep until somebody wakes this queue or the socket's timeout passes."""
        k = self.k
        if self.timeout == 0:
            raise BlockingIOError(errno.EAGAIN, "would block")
        if dl is not None:
            if k.now >= dl:
                k.count("timeout")
                raise _s.timeout("timed out")
            t = k.current
            tok = t.token
            k.at(dl - k.now, lambda: k._resume(t, tok) if t.state == "blocked" else None)
        queue.append(k.current)
        k.block(why)
        self._check()
        k.step()

    def _readable(self):
        if self.closed:
            return True
        if self.listening is not None:
            return bool(self.listening)
        return self.inp is not None and bool(self.inp.rbuf or self.inp.eof or self.inp.rst)

    def _writable(self):
        p = self.out
        return p is not None and (p.broken or p.cap - p.flight - len(p.rbuf) > 0)

    # -- data
    def _check(self):
        if self.node.dead:
            raise SimCrash()
        if self.closed:
            raise OSError(errno.EBADF, "Bad file descriptor")

    def _faults(self, p, k):
        _, kind, arg = p.limits.pop(0)
        k.note("fault", kind, p.writer, p.reader, len(p.tap))
        if kind == "crash_writer":
            k.kill(k.nodes[p.writer], "crash")
        elif kind == "crash_reader":
            k.kill(k.nodes[p.reader], "crash")
        elif kind == "reset":
            k.count("conn_reset")
            for q in p.conn.pipes():
                q.broken = q.rst = True
                q.dropped = True
                q.flight = 0
                _wake(k, q.rwait)
                _wake(k, q.wwait)
        elif kind == "cut":
            # a middlebox closes both directions; bytes already sent still arrive
            k.count("conn_cut")
            for q in p.conn.pipes():
                q.broken = True
                _wake(k, q.wwait)
                _fin(k, q)
        elif kind == "partition":
            k.count("partition")
            for q in p.conn.pipes():
                q.delay_until = max(q.delay_until, k.now + arg)
        elif kind == "partition_one_way":
            k.count("partition_one_way")
            p.delay_until = max(p.delay_until, k.now + arg)
        elif kind == "clock_jump":
            k.count("clock_jump")
            k.nodes[p.writer].clock_offset += arg
        elif kind == "send_error":
            k.count("send_error")
            for q in p.conn.pipes():
                q.broken = q.rst = True
                _wake(k, q.rwait)
                _wake(k, q.wwait)
            raise _broken(OSError(arg, "injected send error"))
        else:
            raise AssertionError(kind)

    def _send_some(self, view):
        k, p = self.k, self.out
        if p is None:
            raise OSError(errno.ENOTCONN, "Transport endpoint is not connected")
        k.preempt("send")
        self._check()
        dl = None if self.timeout is None else k.now + self.timeout
        while True:
            if p.broken:
                p.rst_seen = getattr(p, "rst_seen", 0) + 1
                if p.rst_seen == 1 and p.conn is not None and self.inp.rst:
                    raise _broken(ConnectionResetError(errno.ECONNRESET, "Connection reset by peer"))
                raise _broken(BrokenPipeError(errno.EPIPE, "Broken pipe"))
            free = p.cap - p.flight - len(p.rbuf)
            if free > 0:
                break
            k.count("send_blocked")
            self._wait(p.wwait, "send %s->%s" % (p.writer, p.reader), dl)
        n = min(len(view), free)
        if n > 1 and k.perturb and k.profile["short_send"]:
            w = k.profile["short_send"]
            if k.ch.draw([1 - w, w], "short_send"):
                n = 1 + k.ch.pick(n - 1, "short_send_n")
                k.count("short_send")
        hit = False
        if p.limits and len(p.tap) + n >= p.limits[0][0]:
            n = max(0, p.limits[0][0] - len(p.tap))
            hit = True
        if n > 0:
            chunk = bytes(view[:n])
            p.tap += chunk
            p.flight += n
            k.note("send", p.writer, p.reader, n)
            if p.reader_closed:
                # peer is gone: data is answered by a reset
                p.flight -= n
                k.at(0.00005, lambda: _reset_to(k, p))
            else:
                d = 0.00005
                if k.perturb:
                    i = k.ch.draw(k.profile["lat_w"], "latency")
                    d = k.profile["lat_d"][i]
                    if i:
                        k.count("delay")
                t = max(p.last, k.now + d, p.delay_until)
                if p.delay_until > k.now + d:
                    k.count("partition_delay")
                p.last = t
                p.fifo.append(chunk)
                k.at(t - k.now, lambda: _deliver(k, p))
        if hit:
            self._faults(p, k)
            if n == 0:
                return self._send_some(view)
        return n

    def send(self, data, flags=0):
        view = memoryview(data).cast("B")
        if len(view) == 0:
            self._check()
            return 0
        return self._send_some(view)

    def sendall(self, data, flags=0):
        view = memoryview(data).cast("B")
        self._check()
        if self.out is not None:
            self.out.marks.append(len(self.out.tap))
        while len(view):
            n = self._send_some(view)
            view = view[n:]

    def sendmsg(self, buffers, *a):
        return self.send(b"".join(bytes(b) for b in buffers))

    def sendfile(self, f, offset=0, count=None):
        f.seek(offset)
        d = f.read() if count is None else f.read(count)
        self.sendall(d)
        return len(d)

    def recv(self, n, flags=0):
        k, p = self.k, self.inp
        if p is None:
            raise OSError(errno.ENOTCONN, "Transport endpoint is not connected")
        if n < 0:
            raise ValueError("negative buffersize in recv")
        k.preempt("recv")
        self._check()
        waitall = flags & getattr(_s, "MSG_WAITALL", 0)
        out = b""
        dl = None if self.timeout is None else k.now + self.timeout
        while True:
            if p.rbuf:
                if flags & _s.MSG_PEEK:
                    return bytes(p.rbuf[:n])
                m = min(n - len(out), len(p.rbuf))
                if m > 1 and k.perturb and k.profile["short_recv"] and not waitall:
                    w = k.profile["short_recv"]
                    if k.ch.draw([1 - w, w], "short_recv"):
                        m = 1 + k.ch.pick(m - 1, "short_recv_n")
                        k.count("short_recv")
                out += bytes(p.rbuf[:m])
                del p.rbuf[:m]
                p.taken += m
                k.note("recv", p.reader, m)
                _wake(k, p.wwait)
                if not waitall or len(out) == n:
                    return out
                continue
            if n == 0 or p.eof:
                return out
            if p.rst:
                if out:
                    return out
                raise _broken(ConnectionResetError(errno.ECONNRESET, "Connection reset by peer"))
            if flags & getattr(_s, "MSG_DONTWAIT", 0):
                raise BlockingIOError(errno.EAGAIN, "would block")
            self._wait(p.rwait, "recv %s<-%s" % (p.reader, p.writer), dl)

    def recv_into(self, buf, nbytes=0, flags=0):
        v = memoryview(buf).cast("B")
        d = self.recv(nbytes or len(v), flags)
        v[:len(d)] = d
        return len(d)

    def recvfrom(self, n, flags=0):
        return self.recv(n, flags), None

    def recvmsg(self, n, *a):
        return self.recv(n), [], 0, None

    def makefile(self, mode="r", buffering=None, *, encoding=None, errors=None, newline=None):
        sock = self
        sock._refs += 1

        class Raw(io.RawIOBase):
            def readable(self):
                return "r" in mode

            def writable(self):
                return "w" in mode

            def readinto(self, b):
                return sock.recv_into(b)

            def write(self, b):
                return sock.send(b)

            def close(self):
                if not self.closed:
                    super().close()
                    sock._refs -= 1
                    if sock._refs <= 0 and getattr(sock, "_want_close", False):
                        sock._os_close(False)
        raw = Raw()
        if buffering == 0:
            return raw
        size = buffering if buffering and buffering > 0 else io.DEFAULT_BUFFER_SIZE
        if "r" in mode and "w" in mode:
            f = io.BufferedRWPair(raw, raw, size)
        else:
            f = io.BufferedReader(raw, size) if "r" in mode else io.BufferedWriter(raw, size)
        return f if "b" in mode else io.TextIOWrapper(f, encoding, errors, newline)

    # -- tear-down
    def shutdown(self, how):
        self._check()
        if how in (_s.SHUT_WR, _s.SHUT_RDWR) and self.out is not None:
            self.active = not (self.inp.eof or self.inp.rst or self.out.broken)
            _fin(self.k, self.out)
        if how in (_s.SHUT_RD, _s.SHUT_RDWR) and self.inp is not None:
            self.inp.eof = True

    def close(self):
        if self._refs > 0:
            self._want_close = True
            return
        if self.node.dead:
            self.closed = True
            return
        self._os_close(False)

    def detach(self):
        return -1

    def _os_close(self, abrupt):
        if self.closed:
            return
        self.closed = True
        k = self.k
        if self in self.node.sockets:
            self.node.sockets.remove(self)
        if self.listening is not None:
            for c in self.listening:
                for q in c.pipes():
                    q.rst = q.broken = True
                    _wake(k, q.rwait)
                    _wake(k, q.wwait)
            self.listening = None if abrupt else []
            if k.listeners.get(self.addr[1]) is self:
                del k.listeners[self.addr[1]]
        if self.out is None:
            return
        k.note("close", self.out.writer, self.out.reader)
        unread = len(self.inp.rbuf) + self.inp.flight
        if self.accepted and not unread and (self.active or not (self.inp.eof or self.inp.rst or self.out.broken)):
            k.linger.append((self.node.name, self.addr[1], k.now + 60.0, self._reuse()))
        self.inp.reader_closed = True
        if unread:
            # unread data at close: the peer gets a reset
            self.inp.residue = unread
            self.inp.rbuf.clear()
            p = self.inp
            d = max(0.00005, self.out.last - k.now)
            k.at(d, lambda: _reset_to(k, p))
        _fin(k, self.out)
        _wake(k, self.inp.wwait)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    # -- odds and ends
    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setblocking(self, f):
        self.timeout = None if f else 0

    def getblocking(self):
        return self.timeout != 0

    def setsockopt(self, level, opt, *val):
        self.opts[(level, opt)] = val[0] if val else 0

    def getsockopt(self, level, opt, *a):
        return self.opts.get((level, opt), 0)

    def fileno(self):
        return -1 if self.closed else self.fd

    def getsockname(self):
        return self.addr or ("127.0.0.1", 0)

    def getpeername(self):
        if self.out is None:
            raise OSError(errno.ENOTCONN, "Transport endpoint is not connected")
        return ("127.0.0.1", 0)


SimSocket.accepted = SimSocket.active = False
Pipe.reader_closed = False
Pipe.residue = 0
Pipe.cap = 1 << 20


def _fin(k, p):
    if p.fin_sent:
        return
    p.fin_sent = True
    p.broken = True

    def done():
        if p.fifo and not p.dropped and not p.reader_closed:
            k.at(max(0.00005, p.delay_until - k.now), done)
            return
        p.eof = True
        _wake(k, p.rwait)
    k.at(max(0.00005, p.last - k.now), done)
    _wake(k, p.wwait)


def _deliver(k, p):
    if p.dropped or not p.fifo:
        return
    if p.delay_until > k.now:
        k.count("partition_delay")
        k.at(p.delay_until - k.now, lambda: _deliver(k, p))
        return
    chunk = p.fifo.popleft()
    p.flight -= len(chunk)
    if p.reader_closed:
        p.residue += len(chunk)
        _reset_to(k, p)
        return
    p.rbuf += chunk
    k.moved(len(chunk))
    _wake(k, p.rwait)


def _reset_to(k, p):
    """The writer of p learns that its peer is gone."""
    p.broken = True
    back = p.conn.down if p is p.conn.up else p.conn.up
    back.rst = True
    _wake(k, p.wwait)
    _wake(k, back.rwait)


def _factory(*a, **kw):
    if env.CUR is not None and env.CUR.kernel is not None:
        return SimSocket(*a, **kw)
    return real_socket(*a, **kw)


class _Meta(type):
    def __call__(cls, *a, **kw):
        if cls is SocketSeam:
            return _factory(*a, **kw)
        return super().__call__(*a, **kw)

    def __instancecheck__(cls, o):
        return isinstance(o, (SimSocket, real_socket))


class SocketSeam(metaclass=_Meta):
    pass


def create_connection(address, timeout=-1, source_address=None, **kw):
    s = _s.socket(_s.AF_INET, _s.SOCK_STREAM)
    try:
        if timeout is None or isinstance(timeout, (int, float)) and timeout >= 0:
            s.settimeout(timeout)
        s.connect(address)
    except BaseException:
        s.close()
        raise
    return s


def create_server(address, **kw):
    s = _s.socket(_s.AF_INET, _s.SOCK_STREAM)
    s.setsockopt(_s.SOL_SOCKET, _s.SO_REUSEADDR, 1)
    s.bind(address)
    s.listen(kw.get("backlog") or 128)
    return s


# --------------------------------------------------------------------------
# readiness

_real_select = _select.select


def _sock(k, x):
    if isinstance(x, SimSocket):
        return x
    fd = x if isinstance(x, int) else x.fileno()
    if fd < 1000 or fd - 1000 >= len(k.fds):
        raise OSError(errno.EBADF, "Bad file descriptor")
    return k.fds[fd - 1000]


def _await(k, rd, wr, timeout):
    """Indices of the ready sockets; the chooser decides in what order they are reported."""
    k.preempt("select")
    for s in rd + wr:
        s._check()
    dl = None if timeout is None or timeout < 0 else k.now + timeout
    while True:
        r = [i for i, s in enumerate(rd) if s._readable()]
        w = [i for i, s in enumerate(wr) if s._writable()]
        if r or w or (dl is not None and k.now >= dl):
            k.note("select", len(r), len(w))
            return r, w
        t = k.current
        if dl is not None:
            tok = t.token
            k.at(dl - k.now, lambda tok=tok: k._resume(t, tok) if t.state == "blocked" else None)
        for s in rd:
            (s.accwait if s.listening is not None else s.inp.rwait).append(t)
        for s in wr:
            s.out.wwait.append(t)
        k.block("select")
        for s in rd + wr:
            s._check()
        k.step()


def sim_select(rlist, wlist, xlist, timeout=None):
    n = env.CUR
    if n is None or n.kernel is None:
        return _real_select(rlist, wlist, xlist, timeout)
    k, rlist, wlist = n.kernel, list(rlist), list(wlist)
    r, w = _await(k, [_sock(k, x) for x in rlist], [_sock(k, x) for x in wlist], timeout)
    return [rlist[i] for i in r], [wlist[i] for i in w], []


class SimPoll:
    IN, OUT, HUP, ERR = 1, 4, 16, 8

    def __init__(self, *a, **kw):
        self.reg = {}

    def register(self, x, mask=1 | 2 | 4):
        self.reg[x if isinstance(x, int) else x.fileno()] = mask

    modify = register

    def unregister(self, x):
        del self.reg[x if isinstance(x, int) else x.fileno()]

    def poll(self, timeout=None, maxevents=-1):
        k = env.CUR.kernel
        if timeout is not None and timeout >= 0:
            timeout *= self.unit
        rd = [f for f, m in self.reg.items() if m & 3]
        wr = [f for f, m in self.reg.items() if m & 4]
        r, w = _await(k, [_sock(k, f) for f in rd], [_sock(k, f) for f in wr], timeout)
        out = {}
        for i in r:
            out[rd[i]] = 1
        for i in w:
            out[wr[i]] = out.get(wr[i], 0) | 4
        return list(out.items())

    def close(self):
        pass

    def fileno(self):
        return -1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class _Poll(SimPoll):
    unit = 0.001


class _Epoll(SimPoll):
    unit = 1.0


class SimSelector(selectors._BaseSelectorImpl):
    def select(self, timeout=None):
        k = env.CUR.kernel
        keys = list(self._fd_to_key.values())
        rd = [x for x in keys if x.events & selectors.EVENT_READ]
        wr = [x for x in keys if x.events & selectors.EVENT_WRITE]
        r, w = _await(k, [_sock(k, x.fd) for x in rd], [_sock(k, x.fd) for x in wr],
                      None if timeout is None else max(0, timeout))
        out = {}
        for i in r:
            out[rd[i].fd] = selectors.EVENT_READ
        for i in w:
            out[wr[i].fd] = out.get(wr[i].fd, 0) | selectors.EVENT_WRITE
        return [(self._fd_to_key[fd], m) for fd, m in out.items()]


def _within(sim, real):
    def make(*a, **kw):
        return (sim if env.CUR is not None and env.CUR.kernel is not None else real)(*a, **kw)
    return make


def _set_default(t):
    if env.CUR is not None and env.CUR.kernel is not None:
        env.CUR.default_timeout = t
    else:
        _real_default[1](t)


def _get_default():
    if env.CUR is not None and env.CUR.kernel is not None:
        return env.CUR.default_timeout
    return _real_default[0]()


_real_default = (_s.getdefaulttimeout, _s.setdefaulttimeout)


def install():
    _s.socket = SocketSeam
    _s.create_connection = create_connection
    _s.create_server = create_server
    _s.setdefaulttimeout, _s.getdefaulttimeout = _set_default, _get_default
    _select.select = sim_select
    _select.poll = _within(_Poll, _select.poll)
    _select.epoll = _within(_Epoll, _select.epoll)
    for c in ("DefaultSelector", "SelectSelector", "PollSelector", "EpollSelector"):
        setattr(selectors, c, _within(SimSelector, getattr(selectors, c)))
