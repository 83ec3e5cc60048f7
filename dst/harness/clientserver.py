"""SimServer, ServerSimRunner and SimClient over a simulated network (C01-C07)."""
import io
import os
import re
import zipfile
from xmlrpc.client import Fault
from .. import core, disk, net, procs, spice
from . import common
from .common import SOURCE

PROPS = ["C%02d" % i for i in range(1, 8)]
PORT = 9000
EXT = {"raw": ".raw"}


# ================================================================ plans
def gen_plan(rng, prop, tier):
    big = 1.5 if tier == "thorough" else 1.0
    p = {"flavor": rng.choice(["ngspice", "ltspice", "qspice", "xyce"]), "sched": common.gen_sched(rng),
         "parallel": rng.choice([1, 1, 2, 2, 3, 4]), "timeout": rng.choice([60.0, 120.0, 300.0]),
         "outabs": rng.random() < 0.5, "latency": rng.choice([0.0005, 0.001, 0.02, 0.15]), "points": rng.choice([4, 40, 400]),
         "specs": {}, "clients": [], "net": {}, "rogue": [], "stop": None, "final": False, "jumps": []}
    tok = [0]
    slow = rng.random() < 0.3

    def spec(**kw):
        s = {"dur": round(rng.choice([0.02, 0.2, 1.0, 3.0]) * (0.3 + rng.random()), 3), "start": rng.choice([0.001, 0.05, 0.3]),
             "out": rng.choices(["ok", "fail", "crash", "noraw", "nolog", "crash_nolog"], [10, 2, 1, 1, 1, 1])[0]}
        if s["out"] == "fail":
            s["rc"] = rng.choice([1, 2, 255, -1])
        if slow:
            s["dur"] = round(s["dur"] * 4, 3)
        if rng.random() < 0.1:
            s["extra"] = {".op.raw": "op", ".db": "db"} if rng.random() < 0.5 else {".log.raw": "x"}
        s.update(kw)
        return s

    def run(**kw):
        tok[0] += 1
        p["specs"][str(tok[0])] = spec(**kw)
        o = {"op": "run", "tok": tok[0], "name": rng.choice(["a.net", "a.net", "b.net", "circuit v2.cir"])}
        r = rng.random()
        if r < 0.3:
            o["deps"] = rng.choice([["own"], ["common"], ["own", "common"]])
        return o

    def sleep(b=3.0):
        return {"op": "sleep", "d": round(rng.random() ** 2 * b, 3)}
    nc = {"C01": rng.choice([1, 2, 3, 4]), "C02": rng.choice([1, 1, 2]), "C03": rng.choice([2, 3, 4]), "C04": rng.choice([1, 2, 3]),
          "C05": rng.choice([0, 1, 2, 3]), "C06": rng.choice([1, 2, 3]), "C07": rng.choice([2, 3, 4, 5])}[prop]
    for c in range(nc):
        ops = []
        n = rng.choice([1, 2, 3, 4, 5]) if prop != "C07" else rng.choice([2, 3, 4, 6])
        n = max(1, int(n * big))
        if prop in ("C01", "C03", "C06") and rng.random() < 0.3:
            ops.append({"op": "add_sources", "dep": "src"})
        left = n
        while left > 0:
            k = rng.choice([1, 1, 2, 3])
            for _ in range(min(k, left)):
                o = run()
                if prop == "C01" and ops and ops[0]["op"] == "add_sources" and rng.random() < 0.5:
                    o["uses_src"] = True
                ops.append(o)
            left -= k
            r = rng.random()
            if r < 0.3:
                ops.append(sleep())
            elif r < 0.55:
                ops.append({"op": "iter", "fetch": rng.choice(["now", "now", "later", "never", "some"]),
                            "max": rng.choice([1, 2, 99]), "work": rng.choice([0, 0, 0.5])})
            elif r < 0.7 and prop in ("C02", "C03"):
                ops.append(rng.choice([{"op": "bad_fetch"}, {"op": "refetch"}, {"op": "status"}]))
            elif r < 0.85 and prop in ("C03", "C06", "C07"):
                ops.append(rng.choice([{"op": "status"}, {"op": "foreign", "of": rng.randrange(nc)}]))
        if prop in ("C01", "C02", "C04"):
            ops.append({"op": "iter", "fetch": rng.choice(["now", "now", "now", "later"] + (["never"] if prop == "C02" else [])), "max": 99, "work": rng.choice([0, 0, 1.0])})
            ops.append({"op": "fetch_pending"})
            if prop == "C02":
                ops.append({"op": "refetch"})
                ops.append({"op": "bad_fetch"})
                if rng.random() < 0.4:
                    ops += [run(), {"op": "iter", "fetch": "now", "max": 99, "work": 0}]
        if prop == "C03":
            if rng.random() < 0.6:
                ops.append({"op": "foreign", "of": rng.randrange(nc)})
            if rng.random() < 0.5:
                ops.append({"op": "close", "how": "call"})
                if rng.random() < 0.4:
                    ops.append({"op": "stale", "of": rng.randrange(nc), "sid": "closed"})
            else:
                ops += [{"op": "iter", "fetch": "now", "max": 99, "work": 0}, {"op": "fetch_pending"}, {"op": "status"}]
            if rng.random() < 0.2:
                ops.insert(rng.randrange(len(ops)), {"op": "stale", "of": rng.randrange(nc), "sid": rng.choice(["", "no-such-session", "0"])})
        if prop == "C06":
            if rng.random() < 0.4:
                ops.append(sleep())
            if rng.random() < 0.85:
                ops.append({"op": "close", "how": rng.choice(["call", "call", "del"])})
                if rng.random() < 0.3:
                    ops.append({"op": "close_again"})
                if rng.random() < 0.3:
                    ops.append({"op": "stale", "of": rng.randrange(nc), "sid": "closed"})
            if rng.random() < 0.3:
                ops.insert(rng.randrange(len(ops)), {"op": "close_unknown"})
        if prop == "C07":
            ops.append({"op": "iter", "fetch": rng.choice(["now", "later", "never"]), "max": 99, "work": 0})
            ops.append({"op": "status"})
            ops.append({"op": "fetch_pending"})
        if prop == "C05":
            if rng.random() < 0.5:
                ops.append({"op": "iter", "fetch": rng.choice(["now", "never", "some"]), "max": rng.choice([1, 99]), "work": 0})
        p["clients"].append({"start": round(rng.random() ** 2 * 2, 3), "ops": ops})
    if prop == "C02" and rng.random() < 0.25:
        # no slot becomes free in time: the server refuses a job
        p["parallel"] = 1
        p["timeout"] = rng.choice([2.0, 5.0])
        for s in p["specs"].values():
            if rng.random() < 0.5:
                s["out"] = "hang"
    if prop == "C02" and rng.random() < 0.3:
        p["jumps"] = [{"t": round(rng.random() * 6, 3), "by": rng.choice([-3600.0, -60.0, 86400.0])}]
    if prop in ("C05", "C07", "C06") and rng.random() < 0.35:
        p["timeout"] = rng.choice([3.0, 8.0])
        for s in p["specs"].values():
            if rng.random() < 0.3:
                s["out"] = "hang"
    if prop == "C01" and rng.random() < 0.12 and nc > 1:
        p["clash"] = True        # clients upload different files under one name
        for c in p["clients"]:
            for o in c["ops"]:
                if o["op"] == "run":
                    o["deps"] = ["clash"]
    if prop == "C04":
        p["final"] = True
        kinds = ["refuse", "reset_before", "reset_mid", "close_mid", "reset_after", "eof_after", "cut_reset", "cut_eof",
                 "stall_req", "stall_resp", "delay_connect"]
        kinds = rng.sample(kinds, rng.choice([1, 2, 4, len(kinds)]))
        rate = rng.choice([0.05, 0.15, 0.3])
        n = 0
        while n < 400:
            n += 1 + int(rng.expovariate(rate))
            burst = 2 if rng.random() < 0.35 else 1      # both tries of the transport
            k = rng.choice(kinds)
            for _ in range(burst):
                f = {"kind": k}
                if k in ("reset_mid", "close_mid"):
                    f["at"] = rng.choice([0, 1, 30, 150, 300, 400, 600])
                if k in ("cut_reset", "cut_eof"):
                    f["at"] = rng.choice([0, 5, 40, 100, 180, 250, 400, 900, 3000])
                if k in ("stall_req", "stall_resp", "delay_connect", "close_mid"):
                    f["d"] = rng.choice([0.3, 2.0, 10.0])
                p["net"][str(n)] = f
                n += 1
        for _ in range(rng.choice([0, 0, 1, 3, 6])):
            p["rogue"].append({"t": round(rng.random() * 8, 3), "kind": rng.choice(ROGUE), "d": rng.choice([0.1, 2.0, 6.0])})
    if prop == "C05":
        how = rng.choice(["local", "remote", "remote"]) if p["clients"] else rng.choice(["local", "remote"])
        p["stop"] = {"t": round(rng.random() * 6, 3), "how": how, "again": rng.random() < 0.3}
        if rng.random() < 0.3:
            p["stop"]["t"] = 40.0       # everything has finished, some of it unfetched
        if p["flavor"] != "qspice" and rng.random() < 0.35:
            # the server is the run_server program, stopped by a signal or by a client
            p["program"] = rng.choice(["short", "long"])
            p["stop"]["how"] = rng.choice(["SIGINT", "SIGTERM", "remote"])
    return p


ROGUE = ["close", "garbage", "short_body", "bad_xml", "bad_method", "get", "wrong_path", "idle", "bad_args", "huge_length", "not_base64"]


def shrink(plan):
    import copy
    for k, v in (("net", {}), ("rogue", []), ("jumps", [])):
        if plan.get(k):
            q = copy.deepcopy(plan)
            q[k] = v
            yield q
    for i in range(len(plan["clients"]) - 1, -1, -1):
        q = copy.deepcopy(plan)
        del q["clients"][i]
        yield q
    ks = sorted(plan["net"], key=int)
    size = len(ks) // 2
    while size >= 1:
        for i in range(0, len(ks), size):
            q = copy.deepcopy(plan)
            for k in ks[i:i + size]:
                del q["net"][k]
            yield q
        if len(ks) > 60 and size < 8:
            break
        size //= 2
    for c in range(len(plan["clients"])):
        for i in range(len(plan["clients"][c]["ops"]) - 1, -1, -1):
            q = copy.deepcopy(plan)
            del q["clients"][c]["ops"][i]
            yield q
    for i in range(len(plan["rogue"])):
        q = copy.deepcopy(plan)
        del q["rogue"][i]
        yield q
    if plan.get("stop") and plan["stop"].get("again"):
        q = copy.deepcopy(plan)
        q["stop"]["again"] = False
        yield q


# ================================================================ execution
def dep_text(kind, ci):
    return {"own": "* library of client %d\n.param lib%d=%d\n" % (ci, ci, ci + 7),
            "src": "* source of client %d\n.param src%d=%d\n" % (ci, ci, ci + 70),
            "common": "* common library\n.param common=3\n",
            "clash": "* library of client %d\n.param mine=%d\n" % (ci, ci)}[kind]


def dep_name(kind, ci):
    return {"own": "own%d.lib" % ci, "src": "src%d.lib" % ci, "common": "common.lib", "clash": "models.lib"}[kind]


class Client:
    def __init__(self, w, ci, spec):
        self.w = w
        self.ci = ci
        self.spec = spec
        self.dir = os.path.join(w.scratch, "c%d" % ci)
        os.makedirs(self.dir, exist_ok=True)
        self.client = None
        self.session = None
        self.rpc = None
        self.runs = {}          # runno -> op
        self.returned = []      # in order of return
        self.failed_runs = []   # ops whose run() raised
        self.yielded = []
        self.fetched = {}       # runno -> path or None
        self.fetch_errors = {}
        self.closed = None
        self.closing_t = None
        self.at_close = set()
        self.exc = None

    def bad(self, key, msg, prop=None):
        self.w.col.bad(prop or self.w.prop, key, "client %d: %s" % (self.ci, msg))


class World:
    def __init__(self, job, scratch):
        self.plan = job["plan"]
        self.prop = job["prop"]
        self.scratch = scratch
        self.choices = common.make_choices(job)
        self.sim = core.Sim(self.choices, max_steps=900_000, horizon=8000.0)
        self.sim.scratch = scratch
        disk.configure(scratch)
        self.col = common.Collector(self.sim, self.prop)
        self.flavor = self.plan["flavor"]
        self.progs = []
        self.by_tok = {}
        self.running = 0
        self.max_running = 0
        self.calls = []              # server side executions: (method, args, result)
        self.out = os.path.join(scratch, "out")
        self.uploaded = set()
        procs.TABLE = procs.ProcTable(self.sim, self.launch)
        self.net = net.configure(self.sim, self.plan["latency"], self.plan["net"])
        self.sim_class, self.exe = common.setup_simulator(self.flavor, scratch)
        self.stopped = None
        self.stop_returned = None
        self.stop_exc = None
        self.stop_calls = []
        self.clients = []
        self.sim.monitors.append(self.on_event)
        self.submitting = 0

    # ------------------------------------------------------------ simulated simulators
    def launch(self, popen):
        prog = spice.Program(popen, self.flavor, self.spec_for, self.content, self.on_read)
        self.progs.append(prog)
        self.running += 1
        self.max_running = max(self.max_running, self.running)
        if self.running > self.plan["parallel"]:
            self.col.bad("C07", "too-many", "%d simulators run at once, the limit is %d" % (self.running, self.plan["parallel"]))
        if self.running == self.plan["parallel"]:
            self.col.hit("at_limit")
        mgr = getattr(self.server, "simulation_manager", None)
        if self.stop_returned is not None and mgr is not None and not mgr.is_alive():
            self.col.bad("C05", "starts-after-stop", "a simulator was started after the server had stopped")
        return prog

    def spec_for(self, tok, prog):
        if tok is None:
            return {"start": 0.02}
        return self.plan["specs"].get(str(tok), {"dur": 0.3, "out": "ok"})

    def on_read(self, prog):
        prog.deps = {}
        for m in re.finditer(r"(?im)^\s*\.(?:include|inc|lib)\s+\"?([^\"\s]+)", prog.text):
            p = os.path.join(os.path.dirname(prog.netlist), m.group(1))
            try:
                prog.deps[m.group(1)] = disk.read_file(p).decode()
            except OSError:
                prog.deps[m.group(1)] = None
        prog.sig = spice.signature(prog.text + "\n" + "\n".join("%s:%s" % (k, v) for k, v in sorted(prog.deps.items())))
        self.by_tok.setdefault(prog.tok, []).append(prog)

    def content(self, prog):
        return spice.simple_log(prog.sig, self.flavor), spice.simple_raw(prog.sig, self.flavor, self.plan["points"])

    def on_event(self, e):
        if e["k"] == "proc_exit":
            self.running -= 1
            for prog in self.progs:
                if prog.p.pid - procs.PID0 == e["pid"]:
                    prog.rc = e["rc"]
                    prog.left = {}
                    for f in (prog.log, prog.raw):
                        if f and f in prog.files and os.path.exists(f):
                            prog.left[f] = disk.read_file(f)

    def circuit_text(self, c, op):
        text = SOURCE.replace("tok=0", "tok=%d" % op["tok"])
        inc = ""
        for d in op.get("deps", []):
            inc += ".include %s\n" % dep_name(d, c.ci)
        if op.get("uses_src"):
            inc += ".include %s\n" % dep_name("src", c.ci)
        return text.replace(".tran", inc + ".tran")

    def want_sig(self, c, op):
        deps = {dep_name(d, c.ci): dep_text(d, c.ci) for d in op.get("deps", [])}
        if op.get("uses_src"):
            deps[dep_name("src", c.ci)] = dep_text("src", c.ci)
        return spice.signature(self.circuit_text(c, op) + "\n" + "\n".join("%s:%s" % kv for kv in sorted(deps.items())))

    # ------------------------------------------------------------ client actions
    NETERR = None

    def neterr(self):
        if World.NETERR is None:
            import http.client
            import xmlrpc.client
            import xml.parsers.expat
            import zlib
            World.NETERR = (OSError, EOFError, http.client.HTTPException, xmlrpc.client.Error, xml.parsers.expat.ExpatError,
                            zlib.error)
        return World.NETERR

    def faulty(self):
        return bool(self.plan["net"]) and not self.net.healthy

    def connect(self, c):
        from spicelib.client_server.sim_client import SimClient
        for _ in range(60):
            try:
                c.client = SimClient("http://localhost", PORT)
                break
            except self.neterr() as e:
                if self.stopped is not None:
                    return False
                if not self.faulty():
                    raise
                self.sim.rec("connect_failed", exc=type(e).__name__)
                self.sim.sleep(0.3)
        if c.client is None:
            return False
        c.session = c.client.session_id
        c.rpc = c.client.server
        for o in self.clients:
            if o is not c and o.session == c.session:
                c.bad("same-session", "two clients share session %s" % c.session, "C03")
        return True

    def client_main(self, c):
        sim = self.sim
        sim.sleep(c.spec["start"])
        try:
            if not self.connect(c):
                return
            for op in c.spec["ops"]:
                self.act(c, op)
        except core.SimKilled:
            raise
        except self.neterr() as e:
            if self.stopped is None:
                raise
            sim.rec("client_end", why=type(e).__name__)      # the server is gone

    def guarded(self, c, what, f, *a):
        """A client call: (True, result), or (False, exception) for a network failure that is allowed."""
        try:
            return True, f(*a)
        except core.SimKilled:
            raise
        except StopIteration:
            raise
        except self.neterr() as e:
            if self.stopped is not None:
                raise
            if not self.faulty():
                if self.prop == "C04" or not self.plan["net"]:
                    c.bad("call-raises", "%s raised %s: %s although the network is healthy" % (what, type(e).__name__, e))
                raise
            self.sim.rec("call_failed", what=what, exc=type(e).__name__)
            self.col.hit("call_raised")
            return False, e

    def act(self, c, op):
        sim = self.sim
        k = op["op"]
        if k == "sleep":
            sim.sleep(op["d"])
        elif k == "run":
            self.do_run(c, op)
        elif k == "iter":
            self.do_iter(c, op)
        elif k == "fetch_pending":
            for r in list(c.yielded):
                if r not in c.fetched:
                    self.do_fetch(c, r)
        elif k == "add_sources":
            p = os.path.join(c.dir, dep_name(op["dep"], c.ci))
            disk.write_file(p, dep_text(op["dep"], c.ci).encode())
            self.uploaded.add(os.path.basename(p))
            ok, r = self.guarded(c, "add_sources", c.client.add_sources, [p])
            if ok and r is not True:
                c.bad("add-sources", "add_sources returned %r" % (r,), "C01")
        elif k == "bad_fetch":
            self.expect_invalid(c, 987654, "unknown")
        elif k == "refetch":
            done = [r for r in c.fetched]
            if done:
                self.expect_invalid(c, done[-1], "already fetched")
        elif k == "status":
            self.do_status(c)
        elif k == "foreign":
            self.do_foreign(c, op["of"])
        elif k == "close":
            self.do_close(c, op["how"])
        elif k == "close_again":
            if c.closed is not None:
                r = c.rpc.close_session(c.session)
                if r is not False:
                    c.bad("close-again", "closing a closed session returned %r" % (r,), "C06")
        elif k == "stale":
            self.do_stale(c, op)
        elif k == "close_unknown":
            before = self.server_state()
            r = c.rpc.close_session("no-such-session")
            if r is not False:
                c.bad("close-unknown", "closing an unknown session returned %r" % (r,), "C06")
        else:
            raise core.HarnessError(k)

    def server_state(self):
        return None

    def do_run(self, c, op):
        sim = self.sim
        path = os.path.join(c.dir, op["name"])
        disk.write_file(path, self.circuit_text(c, op).encode())
        self.uploaded.add(op["name"])
        deps = []
        for d in op.get("deps", []):
            p = os.path.join(c.dir, dep_name(d, c.ci))
            disk.write_file(p, dep_text(d, c.ci).encode())
            self.uploaded.add(os.path.basename(p))
            deps.append(p)
        sim.rec("client_run", tok=op["tok"], c=c.ci)
        self.submitting += 1
        t0 = sim.now
        n0 = len(self.progs)
        try:
            ok, r = self.guarded(c, "run", lambda: c.client.run(path, deps or None))
        finally:
            self.submitting -= 1
        if not ok:
            c.failed_runs.append(op)
            return
        sim.rec("client_run_ret", tok=op["tok"], runno=r)
        op["runno"] = r
        if not isinstance(r, int) or isinstance(r, bool):
            c.bad("run-result", "run() returned %r" % (r,))
            return
        if r == -1:
            # refused: no slot became free in time, or the server is stopping
            if self.stopped is None and sim.now - t0 < self.plan["timeout"] * 0.9:
                c.bad("refused", "run() returned -1 after %.1f s" % (sim.now - t0), "C07")
            self.col.hit("run_refused")
            return
        for o in self.clients:
            if r in o.runs:
                c.bad("same-run-number", "run number %d was also issued to client %d" % (r, o.ci), "C03")
        c.runs[r] = op
        c.returned.append(r)

    def finished(self, op):
        ps = self.by_tok.get(op["tok"], [])
        return bool(ps) and any(pr.p.rc is not None for pr in ps) or self.no_start(op)

    def no_start(self, op):
        return False

    def do_iter(self, c, op):
        sim = self.sim
        n = 0
        late = []
        todo_before = [r for r in c.returned if r not in c.yielded]
        it = iter(c.client)
        tries = 0
        while n < op["max"]:
            try:
                ok, r = self.guarded(c, "next", next, it)
            except StopIteration:
                missing = [x for x in c.returned if x not in c.yielded]
                if missing:
                    c.bad("never-yielded", "iteration ended without yielding runs %s" % missing, "C02")
                    c.bad("never-yielded", "iteration ended without yielding runs %s" % missing, "C04")
                self.col.hit("iteration_ended")
                break
            except core.SimKilled:
                raise
            except LookupError as e:
                c.bad("next-raises", "next() raised %s: %s" % (type(e).__name__, e), "C02")
                c.bad("next-raises", "next() raised %s: %s" % (type(e).__name__, e), "C04")
                c.bad("next-raises", "next() raised %s: %s" % (type(e).__name__, e), "C07")
                return
            if not ok:
                tries += 1
                if tries > 200:
                    return
                sim.sleep(0.1)
                continue
            sim.rec("client_yield", c=c.ci, runno=r)
            n += 1
            if r not in c.runs:
                c.bad("foreign-yield", "iteration yielded %r, which run() never returned to this client" % (r,), "C02")
                c.bad("foreign-yield", "iteration yielded %r, which run() never returned to this client" % (r,), "C03")
                c.bad("foreign-yield", "iteration yielded %r, which run() never returned to this client" % (r,), "C04")
                continue
            if r in c.yielded:
                c.bad("twice", "iteration yielded run %d twice" % r, "C02")
                c.bad("twice", "iteration yielded run %d twice" % r, "C07")
                c.bad("twice", "iteration yielded run %d twice" % r, "C04")
            if not self.finished(c.runs[r]):
                c.bad("too-early", "iteration yielded run %d before its simulator ended" % r, "C02")
                c.bad("too-early", "run %d was reported before it finished" % r, "C07")
            c.yielded.append(r)
            f = op["fetch"]
            if f == "now" or (f == "some" and r % 2 == 0):
                self.do_fetch(c, r)
            elif f == "later":
                late.append(r)
            if op.get("work"):
                sim.sleep(op["work"])
        for r in late:
            self.do_fetch(c, r)

    def do_fetch(self, c, r):
        from spicelib.client_server.sim_client import SimClientInvalidRunId
        if r in c.fetched:
            return
        try:
            ok, path = self.guarded(c, "get_runno_data", c.client.get_runno_data, r)
        except SimClientInvalidRunId as e:
            c.bad("fetch-refused", "get_runno_data(%d) of a yielded run raised %s" % (r, e), "C02")
            c.bad("fetch-refused", "get_runno_data(%d) of a yielded run raised %s" % (r, e), "C01")
            c.bad("fetch-refused", "get_runno_data(%d) of a yielded run raised %s" % (r, e), "C04")
            return
        except (zipfile.BadZipFile, ValueError) as e:
            c.bad("fetch-odd", "get_runno_data(%d) raised %r" % (r, e))
            return
        if not ok:
            c.fetch_errors[r] = c.fetch_errors.get(r, 0) + 1
            return
        self.sim.rec("client_fetch", c=c.ci, runno=r, got=None if path is None else os.path.basename(str(path)))
        c.fetched[r] = path
        self.judge_data(c, r, path)

    def expected(self, prog):
        """Files the server may hand out for this execution: {name: bytes}"""
        stem = os.path.splitext(os.path.basename(prog.netlist))[0]
        left = getattr(prog, "left", {})
        if getattr(prog, "rc", None) == 0:
            return {os.path.basename(f): d for f, d in left.items()}
        return {stem + ".fail": d for f, d in left.items() if f == prog.log}

    def judge_data(self, c, r, path):
        op = c.runs[r]
        ps = [pr for pr in self.by_tok.get(op["tok"], []) if pr.p.rc is not None]
        exp = [self.expected(pr) for pr in ps]
        keyset = {"C01": "C01", "C04": "C04", "C03": "C03"}
        props = [k for k in ("C01", "C04") if k == self.prop] or ["C01"]

        def bad(key, msg):
            if self.plan.get("clash"):
                key = "clash-" + key
            for k in props:
                c.bad(key, msg, k)
            if self.prop == "C03":
                c.bad(key, msg, "C03")
        served = [x for x in self.calls if x[0] == "get_files" and x[1][:2] == (c.session, r) and x[2]]
        if path is None:
            if exp and all(exp):
                if len(served) >= 1:
                    # the server has handed the data out before, to a request whose answer never arrived
                    if self.prop == "C04":
                        c.bad("lost-with-answer", "get_runno_data(%d) returned None: the server erased the data when the answer was lost" % r, "C04")
                    else:
                        bad("none", "get_runno_data(%d) returned None although the job produced %s" % (r, sorted(exp[0])))
                else:
                    bad("none", "get_runno_data(%d) returned None although the job produced %s" % (r, sorted(exp[0])))
            return
        path = os.path.abspath(str(path))
        if os.path.dirname(path) != c.dir:
            bad("place", "the data of run %d was stored in %s" % (r, os.path.dirname(path)))
        try:
            with zipfile.ZipFile(io.BytesIO(disk.read_file(path))) as z:
                got = {os.path.basename(n): z.read(n) for n in z.namelist()}
                n = len(z.namelist())
        except Exception as e:
            bad("zip", "the data of run %d is not a readable zip: %r" % (r, e))
            return
        if n != len(got):
            bad("zip-members", "the zip of run %d has repeated members" % r)
        if not any(got == e for e in exp):
            e = exp[0] if exp else {}
            diff = [k for k in set(got) | set(e) if got.get(k) != e.get(k)]
            bad("data", "the zip of run %d (tok %d) holds %s, its simulator wrote %s (different: %s)" % (
                r, op["tok"], {k: len(v) for k, v in got.items()}, {k: len(v) for k, v in e.items()}, diff))
            return
        for pr in ps:
            if pr.sig != self.want_sig(c, op):
                bad("wrong-circuit", "the simulator of run %d did not see the client's circuit and dependencies (%s)" % (r, {k: v for k, v in pr.deps.items()}))
        self.col.hit("data_checked")

    def expect_invalid(self, c, r, what):
        from spicelib.client_server.sim_client import SimClientInvalidRunId
        try:
            ok, x = self.guarded(c, "get_runno_data", c.client.get_runno_data, r)
        except SimClientInvalidRunId:
            self.col.hit("invalid_run_id")
            return
        if ok:
            c.bad("invalid-accepted", "get_runno_data of an %s run returned %r" % (what, x), "C02")

    def do_status(self, c):
        if c.closed is not None:
            return
        closing = set()
        ok, st = self.guarded(c, "status", c.rpc.status, c.session)
        if not ok:
            return
        self.sim.rec("client_status", c=c.ci, st=st)
        if len(st) != len(set(st)):
            c.bad("status-twice", "status lists a run twice: %s" % st, "C07")
            c.bad("status-twice", "status lists a run twice: %s" % st, "C03")
        for r in st:
            if r not in c.runs:
                if not c.failed_runs:
                    c.bad("status-foreign", "status lists %d, which is not a run of this session" % r, "C03")
                continue
            if r in c.fetched:
                c.bad("status-fetched", "status lists run %d, which was already fetched" % r, "C03")
            if not self.finished(c.runs[r]):
                c.bad("status-early", "status lists run %d before its simulator ended" % r, "C03")
                c.bad("too-early", "status lists run %d before its simulator ended" % r, "C07")
        self.col.hit("status_checked")

    def do_foreign(self, c, of):
        if of >= len(self.clients) or c.closed is not None:
            return
        o = self.clients[of]
        if o is c or not o.returned:
            return
        r = o.returned[-1]
        ok, x = self.guarded(c, "get_files", c.rpc.get_files, c.session, r)
        if not ok:
            return
        name, data = x
        if name != "" or data.data != b"":
            c.bad("foreign-data", "session of client %d got the data of run %d of client %d" % (c.ci, r, o.ci), "C03")
        self.col.hit("foreign_fetch")

    def do_stale(self, c, op):
        """A closed or unknown session starts no job, writes no file and gets no data."""
        sid = op["sid"]
        if sid == "closed":
            if c.closed is None:
                return
            sid = c.session
        name = "stale%d.net" % c.ci
        path = os.path.join(c.dir, name)
        disk.write_file(path, SOURCE.encode())
        buf = io.BytesIO()
        with zipfile.ZipFile(buf, "w") as z:
            z.write(path, name)
        calls = [("run", lambda: c.rpc.run(sid, name, buf.getvalue()), -1), ("add_sources", lambda: c.rpc.add_sources(sid, buf.getvalue()), False)]
        if op["sid"] == "closed" and c.client is not None:
            calls.append(("SimClient.run", lambda: c.client.run(path), -1))
            calls.append(("SimClient.add_sources", lambda: c.client.add_sources([path]), False))
        for what, f, want in calls:
            ok, r = self.guarded(c, what, f)
            if ok and (r != want or type(r) is not type(want)):
                c.bad("stale-session", "%s for a session that %s returned %r" % (what, "was closed" if op["sid"] == "closed" else "doesn't exist", r), "C03")
        if os.path.exists(os.path.join(self.out, name)):
            c.bad("stale-session", "%s was stored for a session that doesn't exist" % name, "C03")
        o = self.clients[op["of"] % len(self.clients)]
        for what, args in [("status", ())] + [("get_files", (r,)) for r in (o.returned + c.returned)[-2:]]:
            try:
                r = getattr(c.rpc, what)(sid, *args)
            except Fault:
                continue
            if (r if what == "status" else r[0] or r[1].data):
                c.bad("stale-session", "%s%r for a session that doesn't exist returned %r" % (what, args, r), "C03")
        self.col.hit("stale_session")

    def do_close(self, c, how):
        sim = self.sim
        if c.closed is not None:
            return
        c.at_close = {pr.netlist for r in c.runs.values() for pr in self.by_tok.get(r["tok"], []) if pr.p.rc is None}
        unfinished = [r for r, op in c.runs.items() if not self.finished(op)]
        if how == "del":
            c.client = None           # SimClient.__del__ closes the session
        else:
            ok, r = self.guarded(c, "close_session", c.client.close_session)
            if not ok:
                return
        c.closed = sim.now
        sim.rec("client_close", c=c.ci, unfinished=len(unfinished))
        if unfinished:
            self.col.hit("closed_while_running")

    # ------------------------------------------------------------ rogue peers
    def rogue(self, r):
        sim = self.sim
        sim.sleep(r["t"])
        k = r["kind"]
        body = b"<?xml version='1.0'?><methodCall><methodName>status</methodName><params><param><value><string>x</string></value></param></params></methodCall>"

        def post(body, length=None, path=b"/RPC2"):
            return b"POST %s HTTP/1.1\r\nHost: localhost\r\nContent-Type: text/xml\r\nContent-Length: %d\r\n\r\n" % (path, len(body) if length is None else length) + body
        data = {"close": b"", "garbage": b"\x00\xff\xfe no http at all\r\n\r\n", "short_body": post(body[:60], len(body)),
                "bad_xml": post(b"<methodCall><oops>"), "bad_method": post(body.replace(b"status", b"no_such_method")),
                "get": b"GET / HTTP/1.0\r\n\r\n", "wrong_path": post(body, path=b"/elsewhere"), "idle": b"POST /RPC2 HTTP/1.1\r\n",
                "bad_args": post(body), "huge_length": post(body, 10 ** 9),
                "not_base64": post(body.replace(b"status", b"run").replace(b"<string>x</string>", b"<base64>@@@</base64>"))}[k]
        try:
            s = net.SimSocket()
            s.connect(("localhost", PORT))
            if data:
                s.sendall(data)
            if k in ("idle", "short_body", "huge_length"):
                sim.sleep(r["d"])
            elif k != "close":
                s.settimeout(5.0)
                try:
                    s.recv(4096)
                except (OSError, TimeoutError):
                    pass
            s.close()
            sim.fault("rogue_" + k)
        except OSError:
            pass

    # ------------------------------------------------------------ scenario
    def wrap(self, server):
        """Record what the server executes (it looks its methods up by name)."""
        for name in ("get_files", "run", "close_session"):
            real = getattr(server, name)

            def w(*a, _real=real, _name=name):
                r = _real(*a)
                res = r
                if _name == "get_files":
                    res = bool(r[0])
                self.calls.append((_name, a, res))
                return r
            setattr(server, name, w)

    def stop(self, how, server):
        """stop_server() as documented, locally or by a client."""
        sim = self.sim
        rec = {"how": how, "t0": sim.now, "t1": None, "exc": None, "ret": None}
        self.stop_calls.append(rec)
        self.stopped = self.stopped if self.stopped is not None else sim.now
        self.stop_how = how
        sim.rec("stop_call", how=how)
        try:
            if how.startswith("SIG"):
                import signal
                sig = getattr(signal, how)
                self.handlers[sig](sig, None)
                self.program.join(3000.0)
                if self.program.done:
                    rec["t1"] = sim.now
                sim.rec("stop_ret", ret=None, exc=None)
                self.stop_returned = sim.now
                return
            elif how == "local":
                rec["ret"] = server.stop_server()
            else:
                import xmlrpc.client
                rec["ret"] = xmlrpc.client.ServerProxy("http://localhost:%d" % PORT).stop_server()
        except core.SimKilled:
            raise
        except Exception as e:
            rec["exc"] = "%s: %s" % (type(e).__name__, e)
        rec["t1"] = sim.now
        if self.stop_returned is None:
            self.stop_returned = sim.now
        sim.rec("stop_ret", ret=rec["ret"], exc=rec["exc"])

    def scenario(self):
        from spicelib.client_server.sim_server import SimServer
        sim, plan = self.sim, self.plan
        os.chdir(self.scratch)
        out = self.out if plan["outabs"] else "./out"
        os.makedirs(self.out, exist_ok=True)
        if plan.get("program"):
            server = self.run_program(out)
        else:
            self.server = server = SimServer(self.sim_class, parallel_sims=plan["parallel"], output_folder=out, timeout=plan["timeout"], port=PORT)
            self.wrap(server)
        for j in plan["jumps"]:
            def jump(by=j["by"]):
                sim.wall_jump += by
                sim.fault("clock_jump")
            sim.after(j["t"], jump)
        ws = []
        for ci, spec in enumerate(plan["clients"]):
            self.clients.append(Client(self, ci, spec))
        for c in self.clients:
            ws.append((c, common.Worker(sim, "client%d" % c.ci, lambda c=c: self.client_main(c))))
        for i, r in enumerate(plan["rogue"]):
            ws.append((None, common.Worker(sim, "rogue%d" % i, lambda r=r: self.rogue(r))))
        if plan["stop"]:
            sim.sleep(plan["stop"]["t"])
            self.stop(plan["stop"]["how"], server)
            if plan["stop"].get("again"):
                self.stop("local", server)
        for c, w in ws:
            ok = w.join(3500.0)
            if not ok:
                for pr in self.props_for_stuck():
                    self.col.bad(pr, "client-stuck", "%s never comes to an end: %s" % (w.t.name, sim.describe()))
                return
            if w.exc:
                self.client_failed(c, w.exc)
        if plan["final"]:
            self.net.healthy = True
            sim.sleep(12.0)
            for c in self.clients:
                if c.client is None and not self.connect(c):
                    continue
                self.final_phase(c)
        if self.prop in ("C03", "C06"):
            self.quiesce()
            self.judge_sessions()
        if self.prop == "C07":
            self.quiesce()
            self.judge_jobs()
        if not plan["stop"]:
            self.judge_alive()
            self.stop("local", server)
        self.judge_stop(final=not plan["stop"])

    def run_program(self, out):
        """The server is started by the run_server program; its signal handlers are called by the simulation."""
        import sys
        from types import SimpleNamespace
        from spicelib.scripts import run_server
        plan, flavor = self.plan, self.flavor
        cls = common.simulator_class(flavor)
        cls.spice_exe, cls.process_name = list(self.sim_class.spice_exe), self.sim_class.process_name
        self.handlers = {}
        real = run_server.SimServer
        made = []

        def SimServer(*a, **k):
            s = real(*a, **k)
            self.server = s
            self.wrap(s)
            made.append(s)
            return s
        import signal
        run_server.SimServer = SimServer
        run_server.signal = SimpleNamespace(SIGINT=signal.SIGINT, SIGTERM=signal.SIGTERM, signal=lambda n, h: self.handlers.__setitem__(n, h))
        run_server.print = lambda *a, **k: None
        opt = {"port": "-p", "host": "-H", "out": "-o", "par": "-l"} if plan["program"] == "short" else {"port": "--port", "host": "--host", "out": "--output", "par": "--parallel"}
        name = flavor.upper() if plan["program"] == "long" else flavor
        sys.argv = ["run_server", opt["port"], str(PORT), opt["out"], out, opt["par"], str(plan["parallel"]), name, str(int(plan["timeout"]))]
        self.program = common.Worker(self.sim, "run_server", run_server.main)
        end = self.sim.now + 60
        while (not made or len(self.handlers) < 2) and self.sim.now < end:
            self.sim.sleep(0.05)
        if not made or len(self.handlers) < 2:
            self.col.bad("C05", "program-start", "run_server does not start its server: %s" % (self.program.exc or "")[-600:])
            self.sim.finish()
        return self.server

    def props_for_stuck(self):
        return [self.prop]

    def client_failed(self, c, exc):
        """An exception came out of a client call."""
        last = exc.strip().splitlines()[-1]
        if c is not None:
            c.bad("unexpected-exception", "a client call raised %s\n%s" % (last, exc[-1500:]))
        else:
            raise core.HarnessError(exc)

    def final_phase(self, c):
        """Faults have stopped: submit, iterate and fetch to the end."""
        tok = 500 + c.ci
        self.plan["specs"][str(tok)] = {"dur": 0.2, "start": 0.01, "out": "ok"}
        w = common.Worker(self.sim, "final%d" % c.ci, lambda: (
            self.act(c, {"op": "run", "tok": tok, "name": "final.net"}),
            self.act(c, {"op": "iter", "fetch": "now", "max": 99}),
            self.act(c, {"op": "fetch_pending"}),
            self.act(c, {"op": "status"})))
        if not w.join(2000.0):
            c.bad("no-recovery", "after the faults stopped the client never gets to its end: %s" % self.sim.describe(), "C04")
            self.sim.finish()
        if w.exc:
            c.bad("no-recovery", "after the faults stopped a call fails: %s" % w.exc[-1200:], "C04")
        if not any(op["tok"] == tok for op in c.runs.values()):
            c.bad("no-recovery", "after the faults stopped no job is accepted", "C04")
        left = [r for r in c.returned if r not in c.yielded]
        if left:
            c.bad("never-yielded", "runs %s were never yielded" % left, "C04")
        unf = [r for r in c.yielded if r not in c.fetched]
        if unf:
            c.bad("never-fetched", "runs %s could not be fetched after the faults stopped" % unf, "C04")
        self.col.hit("recovered")

    def quiesce(self):
        sim = self.sim
        end = sim.now + 1200
        while self.running and sim.now < end:
            sim.sleep(0.5)
        sim.sleep(5.0 + sim.stall_max * 6)

    def out_files(self):
        return {n for n in disk.names(self.out)} if os.path.isdir(self.out) else set()

    def job_files(self, prog):
        stem = os.path.splitext(os.path.basename(prog.netlist))[0]
        return [n for n in self.out_files() if os.path.basename(n) not in self.uploaded and
                (os.path.basename(n) == stem or os.path.basename(n).startswith(stem + "."))]

    def session_runs(self, session):
        """Run numbers accepted for a session, those of lost answers included."""
        return [x[2] for x in self.calls if x[0] == "run" and x[1][0] == session and isinstance(x[2], int) and x[2] >= 0]

    def judge_sessions(self):
        col = self.col
        closed = [c for c in self.clients if c.closed is not None]
        for c in closed:
            for op in c.runs.values():
                for pr in self.by_tok.get(op["tok"], []):
                    left = self.job_files(pr)
                    if left:
                        col.bad("C06", "files-left", "client %d closed its session, but %s remain of its run %s (simulator %s at closing)" % (
                            c.ci, left, op.get("runno"), "running" if pr.netlist in c.at_close else "finished or not started"))
            mgr = getattr(self.server, "simulation_manager", None)
            held = [t.get("runno") for t in getattr(mgr, "completed_tasks", []) if isinstance(t, dict) and t.get("runno") in c.runs]
            if held:
                col.bad("C06", "records-left", "the server still holds runs %s of the closed session of client %d" % (held, c.ci))
            if c.session in getattr(self.server, "sessions", {}):
                col.bad("C06", "session-left", "the session of client %d is still known" % c.ci)
            col.hit("session_closed")
        # the other sessions are not disturbed: everything they did not fetch is still there
        for c in self.clients:
            if c.closed is not None or c.client is None:
                continue

            def rest(c=c):
                self.act(c, {"op": "iter", "fetch": "now", "max": 99})
                self.act(c, {"op": "fetch_pending"})
                st = c.rpc.status(c.session)
                if st:
                    c.bad("status-not-empty", "everything is fetched, status lists %s" % st, "C03")
            w = common.Worker(self.sim, "rest%d" % c.ci, rest)
            if not w.join(1500.0):
                c.bad("disturbed", "iteration never ends: %s" % self.sim.describe(), "C03")
                c.bad("disturbed", "iteration never ends: %s" % self.sim.describe(), "C06")
                self.sim.finish()
            if w.exc:
                c.bad("disturbed", "a call fails: %s" % w.exc[-1000:], "C03")
                c.bad("disturbed", "a call fails: %s" % w.exc[-1000:], "C06")
            missing = [r for r in c.returned if r not in c.yielded]
            if missing:
                c.bad("disturbed", "runs %s never yielded" % missing, "C03")
                c.bad("disturbed", "runs %s never yielded" % missing, "C06")

    def judge_jobs(self):
        col = self.col
        for c in self.clients:
            for r, op in c.runs.items():
                ps = self.by_tok.get(op["tok"], [])
                if len(ps) != 1:
                    col.bad("C07", "times-simulated", "run %d was simulated %d times" % (r, len(ps)))
            miss = [r for r in c.returned if r not in c.yielded]
            if miss:
                col.bad("C07", "lost", "runs %s of client %d were never reported" % (miss, c.ci))
        toks = [op["tok"] for c in self.clients for op in c.runs.values()]
        extra = [p for p in self.progs if p.tok is not None and p.tok not in toks]
        if extra:
            col.bad("C07", "not-accepted", "jobs %s were simulated although run() did not accept them" % [p.tok for p in extra])

    def judge_alive(self):
        s = self.server
        if not s.running():
            self.col.bad(self.prop, "not-running", "running() is False although nobody stopped the server")
        for t in (getattr(s, "server_thread", None), getattr(s, "simulation_manager", None)):
            if t is not None and hasattr(t, "is_alive") and not t.is_alive():
                self.col.bad(self.prop, "thread-died", "%s has ended: %s" % (t.name, [x[:3] for x in self.sim.thread_exc]))

    def judge_stop(self, final):
        sim, col, s = self.sim, self.col, self.server
        end = sim.now + 1500
        while self.running and sim.now < end:
            sim.sleep(0.5)
        # what still runs is waited for, or ends by the timeout of the server
        began = {}
        for e in sim.events:
            if e["k"] == "proc_start":
                began[e["pid"]] = e["t"]
            elif e["k"] == "proc_exit" and self.stopped is not None and e["t"] > self.stopped and e["pid"] in began:
                col.hit("ended_after_stop")
                late = e["t"] - began[e["pid"]] - self.plan["timeout"] - 2.0 - sim.stall_total
                if late > 0:
                    col.bad("C05", "overdue", "a simulation ran for %.1f s, the timeout is %s s" % (e["t"] - began[e["pid"]], self.plan["timeout"]))
        threads = [t for t in (getattr(s, "server_thread", None), getattr(s, "simulation_manager", None)) if t is not None]
        end = sim.now + 30 + 20 * sim.stall_max
        while any(t.is_alive() for t in threads) and sim.now < end:
            sim.sleep(0.5)
        for t in threads:
            if t.is_alive():
                col.bad("C05", "thread-alive", "%s is still alive %d s after the last simulation" % (t.name, 30))
        for rec in self.stop_calls:
            if rec["t1"] is None:
                col.bad("C05", "stop-hangs", "stop_server() (%s) does not return" % rec["how"])
            elif rec["exc"] and rec is self.stop_calls[0]:
                col.bad("C05", "stop-raises", "stop_server() (%s) raised %s" % (rec["how"], rec["exc"]))
        if self.plan.get("program"):
            self.program.join(30.0 + 20 * sim.stall_max)
            if not self.program.done:
                col.bad("C05", "program-alive", "the run_server program goes on after its server has stopped")
            elif self.program.exc:
                col.bad("C05", "program-raises", "run_server raised %s" % self.program.exc[-600:])
            else:
                col.hit("program_ended")
            if self.max_running > self.plan["parallel"]:
                col.bad("C05", "program-parallel", "run_server was asked for %d parallel simulations, it ran %d" % (self.plan["parallel"], self.max_running))
        if s.running():
            col.bad("C05", "still-running", "running() is True after stop_server()")
        left = []
        for pr in self.progs:
            left += self.job_files(pr)
        if left:
            col.bad("C05", "files-left", "files of jobs remain in the output folder: %s" % sorted(left)[:8])
        n = len(self.progs)
        sim.sleep(20.0)
        if len(self.progs) > n:
            col.bad("C05", "starts-after-stop", "a simulator was started after the server had stopped")
        col.hit("stopped")
        if sim.thread_exc:
            for name, cls, msg, tb in sim.thread_exc:
                if "client" not in name:
                    col.bad(self.prop, "thread-exception", "%s died of %s: %s\n%s" % (name, cls, msg, tb[-800:]))

    def judge_stuck(self):
        st = "%s: %s" % (self.sim.status, self.sim.detail)
        for rec in self.stop_calls:
            if rec["t1"] is None:
                self.col.bad("C05", "stop-hangs", "stop_server() (%s) does not return; %s" % (rec["how"], st))
        self.col.bad(self.prop, "stuck", st)


def execute(job, scratch):
    w = World(job, scratch)
    status = w.sim.run(w.scenario)
    if status in ("deadlock", "horizon", "steps"):
        w.judge_stuck()
    return common.result(w.sim, w.col, w.choices)
