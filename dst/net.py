"""Simulated TCP.

socket.socket, socket.create_connection and the selector of socketserver are
replaced; xmlrpc, http.client, http.server and socketserver run unchanged on
top.  A connection is two byte streams delivered after a latency decided by the
plan; faults are attached to the n-th connection: refused, reset before, inside
or after the request, cut responses, stalls.
"""
import errno
import io
import selectors
import socket
import socketserver
from . import core
from .core import HarnessError

REAL_SOCKET = socket.socket
REAL_CREATE = socket.create_connection
NET = None


class Net:
    """The network of one run.  faults: {connection number (from 1): {kind, ...}}"""

    def __init__(self, sim, latency=0.001, faults=None, jitter=None):
        self.sim = sim
        self.latency = latency
        self.jitter = jitter or (lambda: 0.0)
        self.faults = {int(k): v for k, v in (faults or {}).items()}
        self.listeners = {}
        self.nconn = 0
        self.nsock = 0
        self.healthy = False          # True: faults have stopped
        self.open_conns = []

    def fault_for(self, n, label):
        if self.healthy:
            return None
        return self.faults.get(n)


def _wake(ws):
    s = core.ACTIVE
    l = list(ws)
    ws.clear()
    if s is not None:
        for t in l:
            s.wake(t)


class Stream:
    """One direction of a connection."""

    def __init__(self):
        self.data = bytearray()
        self.eof = False
        self.rst = False
        self.waiters = []
        self.last = 0.0
        self.sent = 0

    def wake(self):
        _wake(self.waiters)


class Conn:
    def __init__(self, net, n, fault):
        self.net = net
        self.n = n
        self.fault = dict(fault) if fault else None
        self.c2s = Stream()
        self.s2c = Stream()
        self.dead = False
        self.fired = False

    def fire(self, what):
        if not self.fired:
            self.fired = True
            self.net.sim.fault("net_" + what)
            self.net.sim.rec("net_fault", conn=self.n, kind=what)

    def reset(self):
        """Both ends see a reset from now on; bytes not yet read are gone."""
        self.dead = True
        for st in (self.c2s, self.s2c):
            st.rst = True
            st.wake()

    def deliver(self, st, data, eof=False, extra=0.0):
        sim = self.net.sim
        when = max(sim.now + self.net.latency + self.net.jitter() + extra, st.last)
        st.last = when

        def arrive():
            if self.dead:
                return
            if data:
                st.data += data
            if eof:
                st.eof = True
            st.wake()
        sim.at(when, arrive)

    def write(self, side, data):
        """data sent by 'c' or 's'.  Raises what the sender sees."""
        f = self.fault
        st = self.c2s if side == "c" else self.s2c
        if self.dead:
            raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
        kind = f and f["kind"]
        if side == "c":
            if kind == "reset_before":
                self.fire(kind)
                self.reset()
                raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
            if kind in ("reset_mid", "close_mid"):
                left = f.get("at", 20) - st.sent
                if len(data) > left:
                    self.fire(kind)
                    part = data[:max(0, left)]
                    st.sent += len(part)
                    if part:
                        self.deliver(st, bytes(part))
                    if kind == "reset_mid":
                        self.net.sim.at(max(self.net.sim.now, st.last) + 0.001, self.reset)
                        raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
                    # the path dies silently and is torn down after a while
                    self.net.sim.after(f.get("d", 2.0), self.reset)
                    st.sent = 1 << 40
                    return
            if kind == "stall_req" and not self.fired:
                self.fire(kind)
                st.sent += len(data)
                self.deliver(st, bytes(data), extra=f.get("d", 3.0))
                return
        else:
            if kind in ("reset_after", "eof_after"):
                # the server has executed the request; its answer is lost
                self.fire(kind)
                if kind == "reset_after":
                    self.reset()
                    raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
                self.deliver(st, b"", eof=True)
                self.fault = {"kind": "swallow"}
                return
            if kind == "swallow":
                return
            if kind in ("cut_reset", "cut_eof"):
                left = f.get("at", 100) - st.sent
                if len(data) > left:
                    self.fire(kind)
                    part = data[:max(0, left)]
                    if part:
                        self.deliver(st, bytes(part))
                    if kind == "cut_eof":
                        self.deliver(st, b"", eof=True)
                    else:
                        self.net.sim.at(max(self.net.sim.now, st.last) + 0.001, self.reset)
                    self.fault = {"kind": "swallow"}
                    return
            if kind == "stall_resp" and not self.fired:
                self.fire(kind)
                st.sent += len(data)
                self.deliver(st, bytes(data), extra=f.get("d", 3.0))
                return
        st.sent += len(data)
        self.deliver(st, bytes(data))


class SimSocket:
    """The part of socket.socket that Python's http/xmlrpc/socketserver modules use."""

    def __init__(self, family=socket.AF_INET, type=socket.SOCK_STREAM, proto=0, fileno=None):
        if NET is None or core.ACTIVE is None:
            raise HarnessError("socket used outside the simulation")
        self.family, self.type, self.proto = family, type, proto
        NET.nsock += 1
        self._fd = 100_000 + NET.nsock
        self._io_refs = 0
        self._closed = False
        self.timeout = None
        self.addr = None
        self.peer = None
        self.listening = False
        self.backlog = []
        self.accept_waiters = []
        self.conn = None
        self.side = None
        self.rd = None
        self.shut_wr = False

    # -- setup
    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setblocking(self, flag):
        self.timeout = None if flag else 0.0

    def set_inheritable(self, f):
        pass

    def fileno(self):
        return -1 if self._closed else self._fd

    def bind(self, addr):
        a = addr[1]
        if a == 0:
            a = 49152
            while a in NET.listeners:
                a += 1
        if a in NET.listeners:
            raise OSError(errno.EADDRINUSE, "Address already in use")
        self.addr = (addr[0], a)

    def listen(self, n=128):
        self.listening = True
        NET.listeners[self.addr[1]] = self

    def getsockname(self):
        return self.addr or ("127.0.0.1", 0)

    def getpeername(self):
        return self.peer or ("127.0.0.1", 0)

    def connect(self, addr):
        sim = NET.sim
        NET.nconn += 1
        n = NET.nconn
        f = NET.fault_for(n, None)
        sim.rec("net_connect", conn=n, port=addr[1])
        d = NET.latency
        if f and f["kind"] == "delay_connect":
            sim.fault("net_delay_connect")
            d += f.get("d", 2.0)
        sim.sleep(d)
        if f and f["kind"] == "refuse":
            sim.fault("net_refuse")
            sim.rec("net_fault", conn=n, kind="refuse")
            raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")
        ls = NET.listeners.get(addr[1])
        if ls is None or ls._closed:
            raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused")
        c = Conn(NET, n, f)
        self.conn, self.side, self.rd = c, "c", c.s2c
        self.peer = addr
        NET.open_conns.append(c)
        ls.backlog.append(c)
        _wake(ls.accept_waiters)

    def accept(self):
        self._wait_accept()
        c = self.backlog.pop(0)
        s = SimSocket()
        s.conn, s.side, s.rd = c, "s", c.c2s
        s.peer = ("127.0.0.1", 40000 + c.n)
        s.addr = self.addr
        return s, s.peer

    def _wait_accept(self):
        sim = NET.sim
        while not self.backlog:
            if self._closed:
                raise OSError(errno.EBADF, "Bad file descriptor")
            me = sim.current()
            self.accept_waiters.append(me)
            if not sim.block("accept", timeout=self.timeout):
                raise TimeoutError("timed out")

    # -- data
    def _check(self):
        if self._closed or self.conn is None:
            raise OSError(errno.EBADF, "Bad file descriptor")
        me = NET.sim.current()
        if me is None:
            raise HarnessError("socket used outside the simulation")
        NET.sim.yield_now()

    def send(self, data, flags=0):
        self._check()
        if self.shut_wr:
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        self.conn.write(self.side, bytes(data))
        return len(data)

    def sendall(self, data, flags=0):
        m = memoryview(data).cast("B")
        # a request may leave in several segments
        i = 0
        while i < len(m) or (i == 0 and not len(m)):
            k = m[i:i + 4096]
            self.send(k)
            i += 4096
            if not len(m):
                break

    def recv_into(self, buf, nbytes=0, flags=0):
        self._check()
        sim = NET.sim
        st = self.rd
        m = memoryview(buf).cast("B")
        n = min(len(m), nbytes or len(m))
        deadline = None if self.timeout is None else sim.now + self.timeout
        while True:
            if st.rst:
                raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
            if st.data:
                k = min(n, len(st.data))
                m[:k] = bytes(st.data[:k])
                del st.data[:k]
                return k
            if st.eof:
                return 0
            left = None if deadline is None else deadline - sim.now
            if left is not None and left <= 0:
                raise TimeoutError("timed out")
            st.waiters.append(sim.current())
            sim.block("recv", timeout=left)

    def recv(self, n, flags=0):
        b = bytearray(n)
        k = self.recv_into(b)
        return bytes(b[:k])

    def shutdown(self, how):
        if self.conn is None:
            raise OSError(errno.ENOTCONN, "Transport endpoint is not connected")
        if how in (socket.SHUT_WR, socket.SHUT_RDWR) and not self.shut_wr:
            self.shut_wr = True
            if not self.conn.dead:
                self.conn.deliver(self.conn.c2s if self.side == "c" else self.conn.s2c, b"", eof=True)

    def makefile(self, mode="r", buffering=None, *, encoding=None, errors=None, newline=None):
        writing = "w" in mode
        reading = "r" in mode or not writing
        binary = "b" in mode
        rawmode = ("r" if reading else "") + ("w" if writing else "")
        raw = socket.SocketIO(self, rawmode)
        self._io_refs += 1
        if buffering is None:
            buffering = -1
        if buffering < 0:
            buffering = io.DEFAULT_BUFFER_SIZE
        if buffering == 0:
            return raw
        if reading and writing:
            buf = io.BufferedRWPair(raw, raw, buffering)
        elif reading:
            buf = io.BufferedReader(raw, buffering)
        else:
            buf = io.BufferedWriter(raw, buffering)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline)
        text.mode = mode
        return text

    def _decref_socketios(self):
        if self._io_refs > 0:
            self._io_refs -= 1
        if self._closed_req and self._io_refs <= 0:
            self._real_close()

    _closed_req = False

    def _real_close(self):
        if self._closed:
            return
        self._closed = True
        if self.listening:
            if NET is not None and NET.listeners.get(self.addr[1]) is self:
                del NET.listeners[self.addr[1]]
            for c in self.backlog:
                c.reset()
            self.backlog = []
            _wake(self.accept_waiters)
        if self.conn is not None and not self.conn.dead and core.ACTIVE is not None:
            if not self.shut_wr:
                self.conn.deliver(self.conn.c2s if self.side == "c" else self.conn.s2c, b"", eof=True)

    def close(self):
        self._closed_req = True
        if self._io_refs <= 0:
            self._real_close()

    def detach(self):
        self._closed = True
        return self._fd

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def _create_connection(address, timeout=None, source_address=None, *, all_errors=False):
    if NET is None:
        raise HarnessError("network used outside the simulation: %r" % (address,))
    s = SimSocket()
    if timeout is not None and timeout is not socket._GLOBAL_DEFAULT_TIMEOUT:
        s.settimeout(timeout)
    s.connect(address)
    return s


class SimSelector:
    def __init__(self):
        self.map = []

    def register(self, fileobj, events, data=None):
        sock = fileobj if isinstance(fileobj, SimSocket) else fileobj.socket
        key = selectors.SelectorKey(fileobj, sock._fd, events, data)
        self.map.append((key, sock))
        return key

    def unregister(self, fileobj):
        self.map = [(k, s) for k, s in self.map if k.fileobj is not fileobj]

    def _ready(self):
        out = []
        for k, s in self.map:
            if s.listening:
                if s.backlog:
                    out.append((k, selectors.EVENT_READ))
            elif s.rd is not None and (s.rd.data or s.rd.eof or s.rd.rst):
                out.append((k, selectors.EVENT_READ))
        return out

    def select(self, timeout=None):
        sim = NET.sim
        sim.yield_now()
        r = self._ready()
        if r or (timeout is not None and timeout <= 0):
            return r
        me = sim.current()
        lists = [s.accept_waiters if s.listening else s.rd.waiters for _, s in self.map]
        for l in lists:
            l.append(me)
        sim.block("select", timeout=timeout)
        for l in lists:
            if me in l:
                l.remove(me)
        return self._ready()

    def get_map(self):
        return {k.fd: k for k, _ in self.map}

    def close(self):
        self.map = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def install():
    import select
    socket.socket = SimSocket
    socket.SocketType = SimSocket
    socket.create_connection = _create_connection
    socketserver._ServerSelector = SimSelector
    socket.getfqdn = lambda name="": name or "localhost"

    def no_select(*a, **k):
        raise HarnessError("select() inside the simulation")
    _real_select = select.select

    def sel(*a):
        if core.IN_CHILD:
            return no_select()
        return _real_select(*a)
    select.select = sel


def configure(sim, latency=0.001, faults=None, jitter=None):
    global NET
    NET = Net(sim, latency, faults, jitter)
    return NET
