"""Simulated processes: the SPICE simulators, foreign processes, and multiprocessing workers.

subprocess.run and everything above it is the real code; Popen is simulated.  A
simulated process is a list of timed steps executed by the scheduler (file
writes, exit), so it makes progress only in virtual time and can be killed at
any instant, leaving whatever it had written.
"""
import os
import subprocess
import sys
from . import core
from .core import HarnessError, SimKilled

PID0 = 9_000_000            # far above any real pid: a stray real kill can hit nothing

TABLE = None                # current ProcTable


class ProcTable:
    def __init__(self, sim, launcher):
        self.sim = sim
        self.launcher = launcher      # launcher(popen) -> Program
        self.procs = {}
        self.next_pid = PID0
        self.vanish_on_scan = set()   # pids that disappear while being inspected
        self.scan_error = None

    def new_pid(self):
        self.next_pid += 1
        return self.next_pid

    def add_foreign(self, name, cmd=None):
        p = Foreign(self, name, cmd or [name])
        self.procs[p.pid] = p
        return p

    def live(self):
        return [p for p in self.procs.values() if p.rc is None]


class Foreign:
    """A process that has nothing to do with the runner."""
    def __init__(self, table, name, cmd):
        self.table = table
        self.pid = table.new_pid()
        self.name = name
        self.cmd = cmd
        self.rc = None
        self.foreign = True

    def deliver_kill(self, sig):
        if self.rc is None:
            self.rc = -sig
            self.table.sim.rec("foreign_killed", name=self.name, sig=sig)


class SimPopen:
    """Simulated subprocess.Popen."""

    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None,
                 preexec_fn=None, close_fds=True, shell=False, cwd=None, env=None,
                 universal_newlines=None, startupinfo=None, creationflags=0, restore_signals=True,
                 start_new_session=False, pass_fds=(), *, user=None, group=None, extra_groups=None,
                 encoding=None, errors=None, text=None, umask=-1, pipesize=-1, process_group=None):
        t = TABLE
        if t is None or core.ACTIVE is None:
            raise HarnessError("process started outside the simulation: %r" % (args,))
        self.sim = t.sim
        self.table = t
        if isinstance(args, (str, bytes, os.PathLike)):
            args = [args] if not shell else ["/bin/sh", "-c", args]
        self.args = args
        self.argv = [os.fspath(a) for a in args]
        self.cwd = None if cwd is None else os.fspath(cwd)
        self.returncode = None
        self.rc = None            # exit status as the OS knows it
        self.waiters = []
        self.stdin = None
        self.stdout_target = stdout
        self.stderr_target = stderr
        self.text = bool(text or universal_newlines or encoding)
        self.stdout = _Pipe(self) if stdout == subprocess.PIPE else None
        self.stderr = _Pipe(self) if stderr == subprocess.PIPE else None
        self.foreign = False
        self.console = b""
        if self.cwd is not None and not os.path.isdir(self.cwd):
            raise FileNotFoundError(2, "No such file or directory", self.cwd)
        self.pid = t.new_pid()
        self.prog = t.launcher(self)          # may raise OSError like a failing exec
        self.name = os.path.basename(self.argv[0])
        t.procs[self.pid] = self
        self.started = self.sim.now
        self.started_i = len(self.sim.events)
        self.ended = None
        self.ended_i = None
        self.kills = []
        self.prog.start()

    # -- used by programs
    def write_console(self, data):
        self.console += data
        tgt = self.stdout_target
        if tgt is None or tgt in (subprocess.PIPE, subprocess.DEVNULL):
            return
        try:
            fd = tgt if isinstance(tgt, int) else tgt.fileno()
            os.write(fd, data)
        except (OSError, ValueError):
            pass

    def exit(self, rc):
        if self.rc is not None:
            return
        self.rc = rc
        self.ended = self.sim.now
        self.ended_i = len(self.sim.events)
        self.sim.rec("proc_exit", pid=self.pid - PID0, rc=rc, tok=self.prog.tok, killed=rc < 0)
        ws, self.waiters = self.waiters, []
        for w in ws:
            self.sim.wake(w)

    def deliver_kill(self, sig):
        if self.rc is None:
            self.kills.append(self.sim.now)
            self.sim.rec("proc_kill", pid=self.pid - PID0, sig=sig, tok=self.prog.tok)
            self.prog.killed(sig)

    # -- Popen interface
    def poll(self):
        self.sim.yield_now()
        if self.rc is not None:
            self.returncode = self.rc
        return self.returncode

    def wait(self, timeout=None):
        s = self.sim
        deadline = None if timeout is None else s.now + timeout
        while self.rc is None:
            left = None if deadline is None else deadline - s.now
            if left is not None and left <= 0:
                raise subprocess.TimeoutExpired(self.args, timeout)
            me = s.current()
            if me is None:
                raise HarnessError("wait() on a simulated process outside the simulation")
            self.waiters.append(me)
            try:
                s.block("proc", timeout=left, obj=self)
            finally:
                if me in self.waiters:
                    self.waiters.remove(me)
        self.returncode = self.rc
        return self.rc

    def communicate(self, input=None, timeout=None):
        self.wait(timeout)
        data = self.console.decode() if self.text else self.console
        empty = "" if self.text else b""
        out = data if self.stdout is not None else None
        err = empty if self.stderr is not None else None
        return out, err

    def send_signal(self, sig):
        me = self.sim.current()
        if me is not None and me.killed:
            raise SimKilled()       # the parent has crashed: it sends nothing any more
        self.poll()
        if self.returncode is None:
            self.deliver_kill(int(sig))

    def terminate(self):
        self.send_signal(15)

    def kill(self):
        self.send_signal(9)

    def __enter__(self):
        return self

    def __exit__(self, exc_type, value, tb):
        if exc_type is not None and issubclass(exc_type, (SimKilled, KeyboardInterrupt)):
            return
        self.wait()

    def __repr__(self):
        return f"<SimPopen {self.argv}>"


class _Pipe:
    def __init__(self, p):
        self.p = p
        self.off = 0

    def read(self, n=-1):
        self.p.wait()
        d = self.p.console[self.off:]
        self.off += len(d)
        return d.decode() if self.p.text else d

    def readline(self):
        self.p.wait()
        d = self.p.console[self.off:]
        i = d.find(b"\n")
        d = d if i < 0 else d[:i + 1]
        self.off += len(d)
        return d.decode() if self.p.text else d

    def __iter__(self):
        while True:
            l = self.readline()
            if not l:
                return
            yield l

    def close(self):
        pass


# ---------------------------------------------------------------- psutil
class SimPsProc:
    def __init__(self, p):
        self._p = p
        self.pid = p.pid
        self.info = {"pid": p.pid, "name": p.name}

    def _check(self):
        import psutil
        t = self._p.table
        if t.sim.current() is not None:
            t.sim.yield_now()
        if self.pid in t.vanish_on_scan:
            t.vanish_on_scan.discard(self.pid)
            t.sim.fault("process_vanished")
            t.sim.rec("vanished", name=self._p.name)
            if getattr(self._p, "foreign", False):
                self._p.rc = 0
            else:
                self._p.prog.finish_now()
            raise psutil.NoSuchProcess(self.pid)
        if self._p.rc is not None:
            raise psutil.NoSuchProcess(self.pid)

    def name(self):
        self._check()
        return self._p.name

    def cmdline(self):
        self._check()
        return list(getattr(self._p, "argv", None) or self._p.cmd)

    def exe(self):
        self._check()
        return self.cmdline()[0]

    def is_running(self):
        return self._p.rc is None

    def status(self):
        return "running" if self._p.rc is None else "zombie"

    def children(self, recursive=False):
        return []

    def parent(self):
        return None

    def as_dict(self, attrs=None, ad_value=None):
        return {"pid": self.pid, "name": self.name()}

    def kill(self):
        self._check()
        self._p.deliver_kill(9)

    def terminate(self):
        self._check()
        self._p.deliver_kill(15)

    def send_signal(self, sig):
        self._check()
        self._p.deliver_kill(int(sig))

    def wait(self, timeout=None):
        if hasattr(self._p, "wait"):
            return self._p.wait(timeout)


def _process_iter(attrs=None, ad_value=None):
    t = TABLE
    if t is None:
        return
    for p in sorted(t.live(), key=lambda p: p.pid):
        yield SimPsProc(p)


def _ps_process(pid=None):
    import psutil
    t = TABLE
    if t is not None and pid in t.procs:
        return SimPsProc(t.procs[pid])
    raise psutil.NoSuchProcess(pid)


def _os_kill(pid, sig):
    t = TABLE
    if t is not None and pid in t.procs:
        p = t.procs[pid]
        if p.rc is not None:
            raise ProcessLookupError(3, "No such process")
        p.deliver_kill(int(sig))
        return
    if core.IN_CHILD:
        s = core.ACTIVE
        if s is not None:
            s.rec("stray_kill", pid="?", sig=int(sig))
        raise ProcessLookupError(3, "No such process")
    return REAL_KILL(pid, sig)


REAL_KILL = os.kill
REAL_POPEN = subprocess.Popen


# ---------------------------------------------------------------- multiprocessing
class SimMPQueue:
    """Simulated multiprocessing.Queue: the items survive the writer, nothing else does."""

    def __init__(self, maxsize=0, *a, **kw):
        self.items = []
        self.waiters = []

    def put(self, obj, block=True, timeout=None):
        s = core.ACTIVE
        import pickle
        try:
            data = pickle.dumps(obj)
        except Exception:
            # the real feeder thread prints a traceback and drops the object
            return
        self.items.append(data)
        ws, self.waiters = self.waiters, []
        for w in ws:
            s.wake(w)

    put_nowait = put

    def get(self, block=True, timeout=None):
        import pickle
        import queue
        s = core.ACTIVE
        s.yield_now()
        deadline = None if timeout is None else s.now + timeout
        while not self.items:
            if not block:
                raise queue.Empty
            left = None if deadline is None else deadline - s.now
            if left is not None and left <= 0:
                raise queue.Empty
            me = s.current()
            self.waiters.append(me)
            try:
                s.block("mpqueue", timeout=left, obj=self)
            finally:
                if me in self.waiters:
                    self.waiters.remove(me)
        return pickle.loads(self.items.pop(0))

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        core.ACTIVE.yield_now()
        return not self.items

    def full(self):
        return False

    def qsize(self):
        return len(self.items)

    def close(self):
        pass

    def join_thread(self):
        pass

    def cancel_join_thread(self):
        pass


class SimMPProcess:
    """Simulated multiprocessing.Process: run() executes in a simulated thread of its own 'process'."""
    _count = 0
    fault = None        # callable(process) -> fault name or None, set by the harness

    def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, *, daemon=None):
        assert group is None, 'group argument must be None for now'
        self._target = target
        self._args = tuple(args)
        self._kwargs = dict(kwargs)
        SimMPProcess._count += 1
        self._name = name or "Process-%d" % SimMPProcess._count
        self._daemon = daemon
        self._rc = None
        self._started = False
        self._waiters = []
        self._killed = False
        self._pid = None
        self._thread = None

    name = property(lambda self: self._name, lambda self, v: setattr(self, "_name", v))
    daemon = property(lambda self: bool(self._daemon), lambda self, v: setattr(self, "_daemon", v))
    pid = property(lambda self: self._pid)
    ident = pid
    exitcode = property(lambda self: self._rc)

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        assert not self._started, 'cannot start a process twice'
        s = core.ACTIVE
        f = SimMPProcess.fault(self) if SimMPProcess.fault else None
        if f == "fork_fail":
            s.fault("callback_fork_fail")
            s.rec("cb_fork_fail", name=self._name)
            raise OSError(11, "Resource temporarily unavailable")
        self._started = True
        self._pid = TABLE.new_pid()
        s.rec("cb_proc_start")
        self._thread = s.spawn("mp:" + self._name, self._main, (f,), node="mp%d" % self._pid)

    def _main(self, f):
        s = core.ACTIVE
        try:
            if f == "die_early":
                s.fault("callback_process_death")
                s.sleep(0.3)
                self._exit(-9)
                return
            if f == "die_late":
                # the work is done but the process dies before its result leaves it
                q = getattr(self, "queue", None)
                if q is not None:
                    self.queue = SimMPQueue()
                try:
                    self.run()
                finally:
                    s.fault("callback_process_death")
                self._exit(-11)
                return
            self.run()
            self._exit(0)
        except SystemExit as e:
            self._exit(e.code if isinstance(e.code, int) else 1)
        except SimKilled:
            raise
        except BaseException as e:
            s.rec("cb_proc_exc", exc=type(e).__name__)
            self._exit(1)

    def _exit(self, rc):
        if self._rc is not None:
            return
        self._rc = rc
        s = core.ACTIVE
        ws, self._waiters = self._waiters, []
        for w in ws:
            s.wake(w)

    def join(self, timeout=None):
        s = core.ACTIVE
        assert self._started, 'can only join a started process'
        deadline = None if timeout is None else s.now + timeout
        while self._rc is None:
            left = None if deadline is None else deadline - s.now
            if left is not None and left <= 0:
                return
            me = s.current()
            self._waiters.append(me)
            try:
                s.block("mpjoin", timeout=left, obj=self)
            finally:
                if me in self._waiters:
                    self._waiters.remove(me)

    def is_alive(self):
        core.ACTIVE.yield_now()
        return self._started and self._rc is None

    def terminate(self):
        self._kill(-15)

    def kill(self):
        self._kill(-9)

    def _kill(self, rc):
        if self._started and self._rc is None:
            core.ACTIVE.kill_node("mp%d" % self._pid)
            self._exit(rc)

    def close(self):
        pass


def install():
    import multiprocessing
    import psutil
    subprocess.Popen = SimPopen
    multiprocessing.Process = SimMPProcess
    multiprocessing.Queue = SimMPQueue
    multiprocessing.SimpleQueue = SimMPQueue
    psutil.process_iter = _process_iter
    psutil.Process = _ps_process
    psutil.pids = lambda: sorted(p.pid for p in TABLE.live()) if TABLE else []
    psutil.pid_exists = lambda pid: bool(TABLE) and pid in TABLE.procs and TABLE.procs[pid].rc is None
    os.kill = _os_kill
    os.killpg = lambda pgid, sig: _os_kill(pgid, sig)

    def _no_system(cmd):
        raise HarnessError("os.system(%r) inside the simulation" % (cmd,))
    os.system = _no_system
    os.popen = _no_system
