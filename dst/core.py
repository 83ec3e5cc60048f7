"""Deterministic scheduler and virtual clock.

Real OS threads carry the code, but exactly one of them runs at any moment: a
thread gives the baton away only inside a simulated primitive (lock, sleep,
process wait, socket, ...) or at a pre-emption point (a source line of the code
under test).  Which thread gets it next, how long it is delayed and which fault
hits is decided by one seeded generator, and each decision that is not the
default one is recorded, so that (plan, recorded decisions) replays the run.
"""
import _thread
import hashlib
import heapq
import os
import random as _random
import sys
import time as _time_mod

REAL = {n: getattr(_time_mod, n) for n in
        ("time", "sleep", "monotonic", "perf_counter", "thread_time", "process_time",
         "time_ns", "monotonic_ns", "perf_counter_ns", "thread_time_ns", "process_time_ns",
         "localtime", "gmtime", "strftime", "asctime", "ctime")}
real_lock = _thread.allocate_lock
real_start_new_thread = _thread.start_new_thread
get_ident = _thread.get_ident

EPOCH = 1_700_000_000.0     # virtual wall clock at the start of a run
MONO0 = 5_000.0             # virtual monotonic clock at the start of a run

ACTIVE = None               # the Sim in progress in this process, or None


class SimKilled(BaseException):
    """Raised inside a simulated thread whose node has crashed."""


class HarnessError(Exception):
    """The simulator met something it does not model (never a violation)."""


READY, RUNNING, BLOCKED, DONE = "ready", "running", "blocked", "done"


class SimThread:
    __slots__ = ("id", "name", "lock", "state", "token", "timed_out", "killed", "node",
                 "cpu", "fn", "args", "reason", "obj", "sentinel", "born", "stall", "ident", "ended", "owner")

    def __init__(self, sim, name, fn, args, node):
        self.id = sim.next_tid
        sim.next_tid += 1
        self.name = name
        self.lock = real_lock()
        self.lock.acquire()
        self.state = READY
        self.token = 0
        self.timed_out = False
        self.killed = False
        self.node = node
        self.cpu = 0.0
        self.fn = fn
        self.args = args
        self.reason = None
        self.obj = None
        self.sentinel = None
        self.born = sim.now
        self.stall = 0.0
        self.ident = None
        self.ended = None
        self.owner = None

    def __repr__(self):
        return f"<{self.id}:{self.name} {self.state} {self.reason}>"


class Choices:
    """Source of scheduling decisions: seeded (explore) or a recorded sparse table (replay)."""

    def __init__(self, seed=None, table=None, cfg=None):
        self.table = None if table is None else {int(k): v for k, v in table.items()}
        self.rng = _random.Random(seed) if table is None else None
        self.cfg = cfg or {}
        self.recorded = {}

    @property
    def replay(self):
        return self.table is not None


class Sim:
    def __init__(self, choices, tick=2e-6, max_steps=400_000, horizon=20_000.0):
        self.choices = choices
        self.now = 0.0                # virtual seconds since the start
        self.wall_jump = 0.0          # injected wall-clock jumps
        self.tick = tick
        self.max_steps = max_steps
        self.horizon = horizon
        self.step = 0
        self.next_tid = 0
        self.threads = []
        self.by_ident = {}
        self.ready = []
        self.cur = None
        self.timers = []
        self.timer_seq = 0
        self.status = None
        self.detail = None
        self.controller = real_lock()
        self.controller.acquire()
        self.events = []              # recorded history
        self.h = hashlib.sha256()
        self.sched_h = hashlib.sha256()
        self.shape_h = hashlib.sha256()   # the history without its times
        self.switches = 0
        self.preempts = 0
        self.stalls = 0
        self.stall_total = 0.0
        self.faults = {}
        self.slice_start = 0
        self.thread_exc = []
        self.scratch = ""
        self.next_preempt = None
        self.monitors = []            # called after each recorded event
        self.thread_start_fail = set()
        self.thread_starts = 0
        self._setup_choices()

    # ------------------------------------------------------------ decisions
    def _setup_choices(self):
        c = self.choices
        cfg = c.cfg
        self.gap = cfg.get("gap", 0)              # mean number of points between pre-emptions
        self.pick_rand = cfg.get("pick", 0.0)     # probability of a random pick among ready threads
        self.stall_p = cfg.get("stall_p", 0.0)
        self.stall_max = cfg.get("stall_max", 0.0)
        if c.replay:
            self._keys = sorted(c.table)
            self._ki = 0
        self._next_gap()

    def _next_gap(self):
        c = self.choices
        if c.replay:
            while self._ki < len(self._keys) and self._keys[self._ki] <= self.step:
                self._ki += 1
            self.next_preempt = self._keys[self._ki] if self._ki < len(self._keys) else 1 << 60
        elif self.gap:
            self.next_preempt = self.step + 1 + int(c.rng.expovariate(1.0 / self.gap))
        else:
            self.next_preempt = 1 << 60

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    # ------------------------------------------------------------ history
    def rec(self, kind, /, **kw):
        """Record an event of the history (ordered, hashed, part of the replay check)."""
        t = self.cur
        e = {"i": len(self.events), "t": round(self.now, 7), "th": t.name if t else "-", "k": kind}
        e.update(kw)
        self.events.append(e)
        self.shape_h.update(("%s:%s:%s;" % (e["th"], kind, kw.get("tok"))).encode())
        self.h.update(repr(sorted(e.items(), key=lambda x: x[0])).replace(self.scratch or "\0", "$S").encode())
        for m in self.monitors:
            m(e)
        return e

    # ------------------------------------------------------------ threads
    def spawn(self, name, fn, args=(), node=None):
        if node is None and self.cur is not None:
            node = self.cur.node
        t = SimThread(self, name, fn, args, node)
        self.threads.append(t)
        real_start_new_thread(self._boot, (t,))
        self.ready.append(t)
        return t

    def _boot(self, t):
        t.ident = get_ident()
        t.lock.acquire()
        self.by_ident[t.ident] = t
        try:
            if not t.killed:
                t.fn(*t.args)
        except SimKilled:
            pass
        except SystemExit:
            pass
        except BaseException as e:   # _bootstrap handles its own exceptions; this is a harness thread
            import traceback
            self.thread_exc.append((t.name, type(e).__name__, str(e), traceback.format_exc()))
        finally:
            t.state = DONE
            t.ended = self.now
            self.by_ident.pop(t.ident, None)
            s = t.sentinel
            if s is not None:
                s._force_release()
            self._dispatch(t)   # give the baton away for good

    def current(self):
        """The simulated thread of the calling OS thread, or None."""
        t = self.cur
        if t is not None and t.ident == get_ident():
            return t
        return None

    def _mix(self, t):
        self.switches += 1
        self.sched_h.update(b"%d:%d;" % (t.id, self.step))

    def _choose_ready(self):
        """Index into self.ready of the next thread to run (called when the current one gives up)."""
        n = len(self.ready)
        if n == 1:
            return 0
        c = self.choices
        if c.replay:
            v = c.table.get(self.step)
            if isinstance(v, int) and v < n:
                i = v
            else:
                i = 0
            self._next_gap()
        else:
            i = 0
            if self.pick_rand and c.rng.random() < self.pick_rand:
                i = c.rng.randrange(n)
        if i:
            c.recorded[self.step] = i
        return i

    def _dispatch(self, me):
        """The current thread cannot go on: hand the baton to somebody else."""
        self.step += 1
        while True:
            if self.timers and self.timers[0][0] <= self.now:
                self._fire()
                continue
            if self.ready:
                t = self.ready.pop(self._choose_ready())
                if t is me and me.state != DONE:
                    me.state = RUNNING
                    self.slice_start = self.step
                    return
                self._transfer(me, t)
                return
            if self.timers:
                nxt = self.timers[0][0]
                if nxt > self.horizon:
                    self._abort(me, "horizon", self.describe())
                    return
                if nxt > self.now:
                    self.now = nxt
                continue
            self._abort(me, "deadlock", self.describe())
            return

    def _transfer(self, me, t):
        t.state = RUNNING
        self.cur = t
        self.slice_start = self.step
        self._mix(t)
        t.lock.release()
        if me is None or me.state == DONE:
            return
        me.lock.acquire()
        if me.killed:
            raise SimKilled()

    def _fire(self):
        _, _, fn = heapq.heappop(self.timers)
        fn()

    def at(self, when, fn):
        self.timer_seq += 1
        heapq.heappush(self.timers, (when, self.timer_seq, fn))

    def after(self, delay, fn):
        self.at(self.now + max(0.0, delay), fn)

    def describe(self):
        return [f"{t.name}[{t.reason or t.state}]" for t in self.threads if t.state != DONE]

    def _abort(self, me, status, detail=None):
        global ACTIVE
        if self.status is None:
            self.status = status
            self.detail = detail
        ACTIVE = None
        self.cur = None
        self.controller.release()
        if me is None or me.state == DONE:
            return
        park = real_lock()
        park.acquire()
        park.acquire()      # for ever: the process ends with this thread parked

    def finish(self):
        """Called by the scenario's main thread when it is done."""
        self._abort(self.current(), "ok")

    # ------------------------------------------------------------ yield points
    def point(self):
        """Pre-emption point of the running thread (source line of the code under test)."""
        s = self.step = self.step + 1
        self.now += self.tick
        me = self.cur
        me.cpu += self.tick
        if self.timers and self.timers[0][0] <= self.now:
            while self.timers and self.timers[0][0] <= self.now:
                self._fire()
        if s >= self.next_preempt:
            self._preempt(me)
        elif s - self.slice_start > 4000 and self.ready:
            me.state = READY
            self.ready.append(me)
            self._dispatch(me)
        if s > self.max_steps:
            self._abort(me, "steps", self.describe())

    def _preempt(self, me):
        c = self.choices
        stall = 0.0
        idx = None
        if c.replay:
            v = c.table.get(self.step)
            if isinstance(v, (list, tuple)):
                if v[0] == "s":
                    stall = v[1]
                else:
                    idx = v[1]
            self._next_gap()
        else:
            if self.stall_p and c.rng.random() < self.stall_p:
                stall = round(c.rng.random() ** 3 * self.stall_max, 6)
            elif self.ready:
                idx = c.rng.randrange(len(self.ready))
            self._next_gap()
        if stall:
            c.recorded[self.step] = ["s", stall]
            self.stalls += 1
            self.stall_total += stall
            self.fault("thread_stall")
            self.block("stalled", timeout=stall)
        elif idx is not None and self.ready:
            idx = min(idx, len(self.ready) - 1)
            c.recorded[self.step] = ["p", idx]
            self.preempts += 1
            t = self.ready.pop(idx)
            me.state = READY
            self.ready.append(me)
            self._transfer(me, t)

    def yield_now(self):
        """Let others run (used by simulated primitives before they act)."""
        if self.cur is None or self.current() is None:
            return
        self.point()

    def block(self, reason, timeout=None, obj=None):
        """Block the current thread until wake() or the timeout.  True if woken, False on timeout."""
        me = self.current()
        if me is None:
            raise HarnessError("block() outside a simulated thread: %s" % reason)
        if me.killed:
            raise SimKilled()
        me.state = BLOCKED
        me.reason = reason
        me.obj = obj
        me.timed_out = False
        me.token += 1
        if timeout is not None:
            tok = me.token

            def expire():
                if me.state == BLOCKED and me.token == tok:
                    me.timed_out = True
                    self._make_ready(me)
            self.after(timeout, expire)
        self._dispatch(me)
        me.reason = None
        me.obj = None
        if me.killed:
            raise SimKilled()
        return not me.timed_out

    def _make_ready(self, t):
        t.state = READY
        self.ready.append(t)

    def wake(self, t):
        if t.state == BLOCKED:
            self._make_ready(t)

    def sleep(self, d):
        if d <= 0:
            self.yield_now()
            return
        self.block("sleep", timeout=d)

    # ------------------------------------------------------------ nodes
    def kill_node(self, node):
        """Crash: every thread of the node vanishes at its current point."""
        for t in self.threads:
            if t.node == node and t.state != DONE and t is not self.cur:
                t.killed = True
                if t.state == BLOCKED:
                    self._make_ready(t)

    # ------------------------------------------------------------ running
    def run(self, scenario):
        """Run scenario() as the first simulated thread; returns when it ends or the run is aborted."""
        global ACTIVE
        def main():
            scenario()
            self.finish()
        def guarded():
            try:
                main()
            except SimKilled:
                raise
            except BaseException as e:
                import traceback
                self.status = "scenario-error"
                self.detail = traceback.format_exc()
                self.blamed = e if blame(e) else None
                self.finish()
        t = self.spawn("main", guarded)
        ACTIVE = self
        self.ready.remove(t)
        t.state = RUNNING
        self.cur = t
        t.lock.release()
        self.controller.acquire()
        ACTIVE = None
        return self.status


SRC = ""                 # where the code under test lies (set by the worker)


def blame(e):
    """Does the exception come out of the code under test, and not out of a harness or the simulator?"""
    if isinstance(e, (HarnessError, SimKilled, MemoryError)) or not SRC:
        return False
    files = []
    tb = e.__traceback__
    while tb is not None:
        files.append(tb.tb_frame.f_code.co_filename)
        tb = tb.tb_next
    for f in reversed(files):
        if f.startswith(SRC):
            return True
        if os.sep + os.path.join("dst", "harness") + os.sep in f:
            return type(getattr(e, "obj", None)).__module__.startswith("spicelib")
    return False


# ---------------------------------------------------------------- simulated lock
class SimLock:
    """Replacement of _thread.lock; works unsimulated (non-contended) outside a run."""

    def __init__(self):
        self._locked = False
        self._waiters = []
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        sim = ACTIVE
        me = sim.current() if sim is not None else None
        if me is None:
            if self._locked:
                if not blocking:
                    return False
                raise HarnessError("deadlock on a lock outside the simulation")
            self._locked = True
            return True
        if me.killed:
            if self._locked:
                raise SimKilled()
            self._locked = True
            return True
        if not blocking and timeout != -1 and timeout is not None:
            raise ValueError("can't specify a timeout for a non-blocking call")
        if self._locked:
            if not blocking or timeout == 0:
                return False
            deadline = None if timeout is None or timeout < 0 else sim.now + timeout
            while self._locked:
                left = None if deadline is None else deadline - sim.now
                if left is not None and left <= 0:
                    return False
                self._waiters.append(me)
                try:
                    sim.block("lock", timeout=left, obj=self)
                finally:
                    if me in self._waiters:
                        self._waiters.remove(me)
        self._locked = True
        self._owner = me.id
        return True

    def release(self):
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._force_release()

    def _force_release(self):
        self._locked = False
        self._owner = None
        ws, self._waiters = self._waiters, []
        sim = ACTIVE
        for t in ws:
            if sim is not None:
                sim.wake(t)

    def locked(self):
        return self._locked

    def _at_fork_reinit(self):
        self._locked = False
        self._waiters = []

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked


# ---------------------------------------------------------------- time and threads patches
def _v_time():
    s = ACTIVE
    return EPOCH + s.now + s.wall_jump if s is not None else REAL["time"]()


def _v_mono():
    s = ACTIVE
    return MONO0 + s.now if s is not None else REAL["monotonic"]()


def _v_cpu():
    s = ACTIVE
    if s is not None:
        t = s.current()
        return t.cpu if t else 0.0
    return REAL["thread_time"]()


def _v_sleep(d):
    s = ACTIVE
    if s is not None and s.current() is not None:
        if d < 0:
            raise ValueError("sleep length must be non-negative")
        s.sleep(d)
        return
    if s is None and IN_CHILD:
        raise SimKilled()       # code running after the run ended (e.g. a destructor)
    REAL["sleep"](d)


IN_CHILD = False


def _ns(f):
    return lambda: int(f() * 1_000_000_000)


def _start_new_thread(function, args, kwargs={}):
    s = ACTIVE
    if s is None or s.current() is None:
        return real_start_new_thread(function, args, kwargs)
    owner = getattr(function, "__self__", None)
    name = getattr(owner, "_name", None) or getattr(function, "__name__", "thread")
    s.thread_starts += 1
    if s.thread_starts in s.thread_start_fail:
        s.fault("thread_start_fail")
        s.rec("thread_start_fail", name=name)
        raise RuntimeError("can't start new thread")
    fn = (lambda *a: function(*a, **kwargs)) if kwargs else function
    t = s.spawn(name, fn, args)
    t.owner = owner
    return t.id + 1_000_000


def _set_sentinel():
    s = ACTIVE
    lock = SimLock()
    if s is not None:
        t = s.current()
        if t is not None:
            t.sentinel = lock
    return lock


def install():
    """Replace clocks and thread primitives.  Must run before anything copies them."""
    import time
    time.time = _v_time
    time.monotonic = _v_mono
    time.perf_counter = _v_mono
    time.thread_time = _v_cpu
    time.process_time = _v_cpu
    for n, f in (("time", _v_time), ("monotonic", _v_mono), ("perf_counter", _v_mono),
                 ("thread_time", _v_cpu), ("process_time", _v_cpu)):
        setattr(time, n + "_ns", _ns(f))
    time.sleep = _v_sleep
    time.localtime = lambda secs=None: REAL["localtime"](_v_time() if secs is None else secs)
    time.gmtime = lambda secs=None: REAL["gmtime"](_v_time() if secs is None else secs)
    time.strftime = lambda fmt, t=None: REAL["strftime"](fmt, time.localtime() if t is None else t)
    time.asctime = lambda t=None: REAL["asctime"](time.localtime() if t is None else t)
    time.ctime = lambda secs=None: REAL["ctime"](_v_time() if secs is None else secs)

    import logging  # its locks stay real: logging is disabled and never blocks
    import threading
    threading._allocate_lock = SimLock
    threading.Lock = SimLock
    threading._CRLock = None
    threading._start_new_thread = _start_new_thread
    threading._set_sentinel = _set_sentinel
    threading._time = _v_mono
    threading.get_ident  # thread identity stays that of the carrying OS thread
    _thread.allocate_lock = SimLock
    _thread.start_new_thread = _start_new_thread
    _thread.start_new = _start_new_thread

    def hook(args):
        s = ACTIVE
        if args.exc_type in (SimKilled, SystemExit) or s is None:
            return
        import traceback
        name = args.thread.name if args.thread else "?"
        tb = "".join(traceback.format_exception(args.exc_type, args.exc_value, args.exc_traceback))
        s.thread_exc.append((name, args.exc_type.__name__, str(args.exc_value), tb))
        s.rec("thread_died", name=name, exc=args.exc_type.__name__)
    threading.excepthook = hook
    import queue
    queue.time = _v_mono
    queue.SimpleQueue = queue._PySimpleQueue
    queue.threading = threading
    logging.disable(logging.CRITICAL)
    sys.unraisablehook = lambda *a: None


# ---------------------------------------------------------------- line pre-emption
TOOL = 4


def install_lines(prefixes, later=()):
    """Pre-emption points on every source line of functions defined in files with these prefixes."""
    import gc
    import types
    mon = sys.monitoring
    mon.use_tool_id(TOOL, "dst")

    def on_line(code, line):
        s = ACTIVE
        if s is None:
            return
        t = s.cur
        if t is None or t.ident != get_ident() or t.killed:
            return
        s.point()
    mon.register_callback(TOOL, mon.events.LINE, on_line)
    seen = set()

    def walk(code):
        if code in seen:
            return
        seen.add(code)
        mon.set_local_events(TOOL, code, mon.events.LINE)
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                walk(c)
    for f in gc.get_objects():
        if isinstance(f, types.FunctionType):
            code = f.__code__
            if any(code.co_filename.startswith(p) for p in prefixes):
                walk(code)
            elif any(code.co_filename.startswith(p) for p in later):
                LATER.append(code)
    return len(seen)


LATER = []


def enable_more_lines(prefixes):
    """Also pre-empt on the lines of further files (in the process of one run)."""
    import types
    mon = sys.monitoring
    seen = set()

    def walk(code):
        if code in seen:
            return
        seen.add(code)
        mon.set_local_events(TOOL, code, mon.events.LINE)
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                walk(c)
    for code in LATER:
        if any(code.co_filename.startswith(p) for p in prefixes):
            walk(code)
