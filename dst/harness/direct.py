"""Direct use of the simulator classes: run(), create_netlist(), create_from(), valid_switch() (R14)."""
import copy
import os
import random
import subprocess
from pathlib import Path
from .. import core, disk, procs, spice
from . import common
from .common import SOURCE, EXE, RAWEXT

PROPS = ["R14"]
EXEC_ERR = {"ENOENT": 2, "EACCES": 13, "ENOMEM": 12, "EMFILE": 24, "EAGAIN": 11}
NAMES = ["amp", "a.b", "amp two", "Amp_1", "verstärker", "x.v1.2", "R&D (1)"]
# documented switches: (what the user writes, its parameter, what the simulator has to get)
SWITCHES = {
    "ltspice": [("-alt", "", ["-alt"]), ("alt", "", ["-alt"]), (" -ascii ", "", ["-ascii"]), ("-fastaccess", "", ["-FastAccess"]), ("-SOI", "", ["-SOI"]),
                ("-norm", "", ["-norm"]), ("-I", "/li b/x", ["-I/li b/x"]), ("-ini", "/x/my.ini", ["-ini", "/x/my.ini"]), ("-b", "", []), ("Run", "", []),
                ("", "", []), (None, "", [])],
    "qspice": [("-ASCII", "", ["-ASCII"]), ("-ascii", "", ["-ASCII"]), ("-binary", "", ["-binary"]), ("BSIM1", "", ["-BSIM1"]), ("-Meyer", "", ["-Meyer"]),
               ("-ProtectSelections", "/p/a b", ["-ProtectSelections", "/p/a b"]), ("-ProtectSubcircuits", "/p/c", ["-ProtectSubcircuits", "/p/c"]),
               ("-o", "/x.log", []), ("", "", [])],
    "ngspice": [("-D", "alpha=%d", ["-D", "alpha=%d"]), ("define", "b=%d", None), ("--define", "b=%d", ["--define", "b=%d"]), ("-n", "", ["-n"]), ("n", "", ["-n"]),
                ("--no-spiceinit", "", ["--no-spiceinit"]), ("-q", "", ["-q"]), ("--completion", "", ["--completion"]), ("--soa-log", "/x/soa.log", ["--soa-log", "/x/soa.log"]),
                ("-t", "xterm", ["-t", "xterm"]), ("--term", "vt100", ["--term", "vt100"]), ("-D", "ngbehavior=ps", []), ("-D", "flag", ["-D", "flag"]), ("-b", "", []), ("-o", "/x", []), ("-r", "/x", [])],
    "xyce": [("-count", "", ["-count"]), ("-quiet", "", ["-quiet"]), ("quiet", "", ["-quiet"]), ("-jacobian_test", "", ["-jacobian_test"]), ("-a", "", ["-a"]),
             ("-hspice-ext", "all", ["-hspice-ext", "all"]), ("-redefined_params", "usefirst", ["-redefined_params", "usefirst"]), ("-subckt_multiplier", "false", ["-subckt_multiplier", "false"]),
             ("-delim", "COMMA", ["-delim", "COMMA"]), ("-namesfile", "/x/names", ["-namesfile", "/x/names"]), ("-maxord", "2", ["-maxord", "2"]),
             ("-randseed", "%d", ["-randseed", "%d"]), ("-max-warnings", "5", ["-max-warnings", "5"]), ("-prf", "/x/p", ["-prf", "/x/p"]), ("-rsf", "/x/r", ["-rsf", "/x/r"]),
             ("-plugin", "a.so,b.so", ["-plugin", "a.so,b.so"]), ("-nox", "on", ["-nox", "on"]), ("-linsolv", "KLU", ["-linsolv", "KLU"]), ("-o", "base", ["-o", "base"]),
             ("-local_variation", "true", ["-local_variation", "true"]),
             ("-noise_names_file", "/x/n", ["-noise_names_file", "/x/n"]), ("-per-processor", "", ["-per-processor"]), ("-l", "/x", []), ("-r", "/x", [])],
}
BAD_SWITCH = {"ltspice": ["-nosuch", "-asciii", "--alt"], "qspice": ["-nosuch", "-bin"], "ngspice": ["-x", "--nosuch"], "xyce": ["-nosuch", "-q"]}


# ================================================================ plans
def gen_plan(rng, prop, tier):
    big = tier == "thorough"
    nthreads = rng.choice([1, 1, 1, 2, 2, 3] + ([4] if big else []))
    p = {"sched": common.gen_sched(rng), "latency": rng.choice([0.0, 0.0, 0.002]), "disk": [], "threads": [], "jumps": [], "exes": {}, "compat": rng.choice(["keep", "keep", None, "ps", "lt"])}
    flavors = rng.choice([["ltspice"], ["ngspice"], ["ltspice", "ngspice"], ["qspice", "xyce"], list(common.FLAVORS), ["xyce"], ["qspice"], ["ltspice", "qspice"]])
    for f in flavors:
        p["exes"][f] = rng.choice(["str", "str", "path", "wine", "spaces", "which"])
    if rng.random() < 0.15:
        p["jumps"] = [{"at": round(rng.uniform(0, 6), 2), "by": rng.choice([-3600.0, -20.0, 20.0, 3600.0])}]
    st = {"tok": 0}

    def spec(net):
        out = "ok"
        if rng.random() < 0.35:
            out = rng.choice(["fail", "fail", "crash", "hang", "noraw"]) if not net else rng.choice(["fail", "fail_partial", "crash", "hang", "noout"])
        s = {"dur": round(rng.choice([0.05, rng.uniform(0.1, 1.0), rng.uniform(0.5, 5)]), 3), "start": rng.choice([0.0, 0.01, 0.2]), "out": out, "chat": rng.choice([0, 1, 3])}
        if out in ("fail", "fail_partial"):
            s["rc"] = rng.choice([1, 2, 3, 127, 255, -6])
        if out == "crash":
            s["rc"] = rng.choice([-11, -9, -6])
        if rng.random() < 0.4:
            s["stubborn"] = True
        if rng.random() < 0.08:
            s["exec"] = rng.choice(sorted(EXEC_ERR))
        return s

    def call(t):
        st["tok"] += 1
        f = rng.choice(flavors)
        net = f == "ltspice" and rng.random() < 0.5
        sw = []
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            a = rng.randrange(len(SWITCHES[f]))
            if SWITCHES[f][a][2] is not None and not (net and SWITCHES[f][a][2] == []):
                sw.append(a)
        sp = spec(net)
        o = {"op": "netlist" if net else "run", "flavor": f, "tok": st["tok"], "name": rng.choice(NAMES[:3] if rng.random() < .6 else NAMES), "sw": sw,
             "style": rng.choice(["list", "list", "grow", "str"]), "form": rng.choice(["str", "path", "rel"]), "ext": ".asc" if net else rng.choice([".net", ".cir", ".sp"] + ([".asc"] if f == "ltspice" else [])),
             "cwd": rng.choice([None, None, "work", "none such"] if rng.random() < .4 else [None, "work"]), "timeout": rng.choice([None, None, 0.4, 2.0, 10.0]),
             "io": rng.choice([None, None, "exe_log", "exe_log", "file", "devnull", "pipe"]), "spec": sp, "stale": rng.random() < 0.3}
        if o["form"] == "rel":
            o["cwd"] = None
        if sp["out"] == "hang" and o["timeout"] is None:
            o["timeout"] = rng.choice([0.4, 2.0, 10.0])
        if sp["out"] == "noout":
            o["stale"] = False
        return o

    for t in range(nthreads):
        ops = []
        for _ in range(rng.choice([1, 2, 3, 4] if not big else [2, 4, 6, 9])):
            k = rng.random()
            if k < 0.72:
                ops.append(call(t))
            elif k < 0.8:
                ops.append({"op": "sleep", "d": round(rng.uniform(0.01, 2.0), 3)})
            elif k < 0.86:
                f = rng.choice(flavors)
                ops.append({"op": "badswitch", "flavor": f, "sw": rng.choice(BAD_SWITCH[f])})
            elif nthreads == 1:
                f = rng.choice(flavors)
                ops.append(rng.choice([{"op": "create", "flavor": f, "kind": rng.choice(["str", "path", "wine", "spaces", "which", "missing", "missing"]), "pname": rng.choice([None, None, "my.exe"])},
                                       {"op": "away", "flavor": f}, {"op": "back", "flavor": f}, {"op": "compat", "mode": rng.choice([None, "ps", "hs", "kiltpsa"])}]))
            else:
                ops.append(call(t))
        p["threads"].append(ops)
    if rng.random() < 0.2:
        p["disk"].append({"op": "open", "match": ".exe.log", "nth": rng.choice([1, 1, 2]), "kind": rng.choice(["EACCES", "ENOSPC", "EMFILE"]), "count": rng.choice([1, 1, 2])})
    return p


def shrink(plan):
    for k in ("disk", "jumps"):
        if plan.get(k):
            yield dict(copy.deepcopy(plan), **{k: []})
    if plan["latency"]:
        yield dict(copy.deepcopy(plan), latency=0.0)
    for t in range(len(plan["threads"]) - 1, -1, -1):
        q = copy.deepcopy(plan)
        del q["threads"][t]
        if q["threads"]:
            yield q
        for i in range(len(plan["threads"][t]) - 1, -1, -1):
            q = copy.deepcopy(plan)
            del q["threads"][t][i]
            yield q
    for t, ops in enumerate(plan["threads"]):
        for i, o in enumerate(ops):
            for k, d in (("sw", []), ("io", None), ("cwd", None), ("stale", False), ("name", "amp"), ("form", "str"), ("style", "list")):
                if o["op"] in ("run", "netlist") and o[k] != d:
                    q = copy.deepcopy(plan)
                    q["threads"][t][i][k] = d
                    yield q
            if o["op"] in ("run", "netlist") and o["spec"].get("chat"):
                q = copy.deepcopy(plan)
                q["threads"][t][i]["spec"]["chat"] = 0
                yield q


# ================================================================ simulated programs
class Prog(spice.Program):
    """A simulator that also talks to its console while it works, and an LTspice that converts schematics."""

    def __init__(self, world, popen, flavor, rec):
        super().__init__(popen, flavor, lambda tok, prog: rec.op["spec"] if rec else {"out": "ok"}, spice.default_content)
        self.rec, self.world = rec, world
        self.convert = flavor == "ltspice" and "-netlist" in self.cmd.switches
        if self.convert:
            self.cmd.batch = True

    def killed(self, sig):
        """Signals need a moment to take effect; requests to terminate may be ignored."""
        if self.dead or sig != 9 and self.spec and self.spec.get("stubborn"):
            return
        self.dead = True
        self.sim.after(0.002 if sig == 9 else 0.1, lambda: self.p.exit(-sig))

    def _go(self):
        sp = self.spec
        for i in range(sp.get("chat", 0)):
            self.sim.after(sp.get("dur", 1.0) * (i + 1) / (sp["chat"] + 1), lambda i=i: None if self.dead else self.p.write_console(b"step %d of %s\n" % (i, self.sig.encode())))
        if not self.convert:
            return super()._go()
        out, dur = sp["out"], sp["dur"]
        net = os.path.splitext(self.netlist)[0] + ".net"
        data = netlist_of(self.text).encode()
        if out in ("ok", "fail_partial"):
            self.sim.after(dur * 0.5, lambda: None if self.dead else self._write(net, data[:len(data) // 2], "wb"))
        if out == "ok":
            self.sim.after(dur * 0.8, lambda: None if self.dead else self._write(net, data[len(data) // 2:]))
        if out == "hang":
            return
        rc = sp.get("rc", 0)

        def fin():
            if not self.dead:
                self.dead = True
                self.p.exit(rc)
        self.sim.after(dur, fin)


def netlist_of(asc):
    return "* converted from %s\nR1 a 0 1k\n.param tok=%s\n.end\n" % (spice.signature(asc), spice.token(asc))


class Rec:
    def __init__(self, op):
        self.op = op
        self.t0 = self.t1 = None
        self.ret = self.exc = None
        self.pops = []
        self.refused = False


class World:
    def __init__(self, job, scratch):
        self.job, self.plan, self.prop, self.scratch = job, job["plan"], job["prop"], scratch
        disk.configure(scratch, [dict(r) for r in self.plan["disk"]], self.plan["latency"])
        self.choices = common.make_choices(job)
        self.sim = core.Sim(self.choices)
        self.sim.scratch = scratch
        self.table = procs.ProcTable(self.sim, self.launch)
        procs.TABLE = self.table
        self.col = common.Collector(self.sim, self.prop)
        self.recs = []
        self.cls, self.exe, self.exe_file = {}, {}, {}
        self.cur = {}
        os.mkdir(os.path.join(scratch, "work"))

    def bad(self, key, msg):
        self.col.bad("R14", key, msg)

    # ---- configuration of the classes
    def configure(self, flavor, kind, pname=None, first=False):
        n = len(self.exe_file) if first else self.sim.step
        d = os.path.join(self.scratch, "bin%s%s%d" % (" x" if kind == "spaces" else "", flavor, n))
        os.mkdir(d)
        exe = os.path.join(d, EXE[flavor])
        disk.write_file(exe, b"#!/bin/false\n")
        os.chmod(exe, 0o755)
        S = common.simulator_class(flavor)
        if kind == "wine":
            wine = os.path.join(d, "wine")
            disk.write_file(wine, b"#!/bin/false\n")
            os.chmod(wine, 0o755)
            arg, parts = "%s %s" % (wine, exe), [wine, exe]
        elif kind == "which":
            os.environ["PATH"] = d + os.pathsep + os.environ.get("PATH", "")
            arg, parts = EXE[flavor], [EXE[flavor]]
            if os.path.exists(arg):
                raise core.HarnessError("name clash")
        elif kind == "path":
            arg, parts = Path(exe), [exe]
        elif kind == "missing":
            arg, parts = os.path.join(d, "nothing.exe"), None
        else:
            arg, parts = exe, [exe]
        try:
            r = S.create_from(arg) if pname is None else S.create_from(arg, pname)
        except FileNotFoundError:
            if parts is not None:
                self.bad("create-raises", "create_from(%r) doesn't find the simulator" % (arg,))
                self.cls.setdefault(flavor, S)
            return
        except Exception as e:
            self.bad("create-raises", "create_from(%r) raised %r" % (arg, e))
            return
        if parts is None:
            return self.bad("create-accepts", "create_from of a missing file is accepted")
        want = pname or os.path.basename(parts[0])
        if r.process_name != want:
            self.bad("process-name", "create_from(%r, %r): process_name is %r" % (arg, pname, r.process_name))
        self.cls[flavor], self.exe[flavor] = r, parts
        self.exe_file[flavor] = parts[0] if kind != "which" else exe

    # ---- processes
    def launch(self, popen):
        exes = [(f, e) for f, e in self.exe.items() if popen.argv[:len(e)] == e]
        popen.full = list(popen.argv)
        if len(exes) != 1:
            self.bad("wrong-program", "%s was started; configured: %s" % (popen.argv[:2], self.exe))
            raise FileNotFoundError(2, "No such file or directory")
        f, e = exes[0]
        popen.argv = popen.argv[len(e) - 1:]
        cmd = spice.CmdLine(popen.argv, f)
        nl = cmd.netlist and os.path.normpath(os.path.join(popen.cwd or os.getcwd(), cmd.netlist))
        rec = self.cur.get(nl)
        if rec is None:
            self.bad("wrong-netlist", "the command line %s names none of the netlists of the calls" % popen.full)
        else:
            rec.pops.append(popen)
            if rec.op["flavor"] != f:
                self.bad("wrong-program", "%s instead of %s" % (f, rec.op["flavor"]))
            er = rec.op["spec"].get("exec")
            if er:
                self.sim.fault("exec_" + er)
                self.sim.rec("exec_fail", err=er)
                rec.refused = True
                raise OSError(EXEC_ERR[er], os.strerror(EXEC_ERR[er]))
        popen.cmd = cmd
        return Prog(self, popen, f, rec)

    # ---- operations
    def do(self, op, me):
        k = op["op"]
        if k == "sleep":
            self.sim.sleep(op["d"])
        elif k == "badswitch":
            try:
                r = self.cls[op["flavor"]].valid_switch(op["sw"])
                self.bad("bad-switch-accepted", "valid_switch(%r) of %s returns %r" % (op["sw"], op["flavor"], r))
            except ValueError:
                self.col.hit("bad_switch")
            except Exception as e:
                self.bad("bad-switch-exception", "valid_switch(%r) of %s raised %r" % (op["sw"], op["flavor"], e))
        elif k == "create":
            self.restore(op["flavor"])
            self.configure(op["flavor"], op["kind"], op["pname"])
        elif k == "away":
            f = self.exe_file.get(op["flavor"])
            if f and os.path.exists(f):
                disk.REAL["rename"](f, f + ".away")
                self.sim.fault("simulator_removed")
        elif k == "back":
            self.restore(op["flavor"])
        elif k == "compat":
            if "ngspice" in self.cls:
                self.cls["ngspice"].set_compatibility_mode(op["mode"])
                self.compat = op["mode"]
        else:
            self.call(op, me)

    def restore(self, flavor):
        f = self.exe_file.get(flavor)
        if f and os.path.exists(f + ".away"):
            disk.REAL["rename"](f + ".away", f)

    def switches(self, op):
        """What valid_switch gives for the call, put together the way the user does it, and what it should give."""
        S = self.cls[op["flavor"]]
        got, want = None, []
        for a in op["sw"]:
            name, par, exp = SWITCHES[op["flavor"]][a]
            par = par.replace("%d", str(op["tok"]))
            exp = [x.replace("%d", str(op["tok"])) for x in exp]
            try:
                r = S.valid_switch(name, par) if par else S.valid_switch(name)
            except Exception as e:
                self.bad("switch-raises", "valid_switch(%r, %r) of %s raised %r" % (name, par, op["flavor"], e))
                continue
            if par.startswith("ngbehavior") and self.compat is None:
                r = []                       # whether the user may set it this way then is left open
            if list(r) != exp:
                self.bad("switch", "valid_switch(%r, %r) of %s returns %r instead of %r" % (name, par, op["flavor"], r, exp))
            if op["style"] == "grow":       # the returned list is extended in place
                if got is None:
                    got = r
                else:
                    got += r
            else:
                got = (got or []) + list(r)
            want += exp
        if op["style"] == "str" and got is not None and len(got) == 1:
            got = got[0]
        return got, want

    def call(self, op, me):
        sim, f = self.sim, op["flavor"]
        S = self.cls.get(f)
        if S is None:
            return
        d = os.path.join(self.scratch, me)
        os.makedirs(d, exist_ok=True)
        nl = os.path.join(d, op["name"] + op["ext"])
        text = SOURCE.replace("tok=0", "tok=%d" % op["tok"])
        if op["ext"] == ".asc":
            text = "Version 4\nSHEET 1 880 680\nWIRE 0 0 %d 0\nTEXT 0 0 Left 2 !.param tok=%d\n" % (op["tok"] * 16, op["tok"])
        disk.write_file(nl, text.encode())
        stem = os.path.join(d, op["name"])
        rec = Rec(op)
        rec.nl, rec.stem, rec.text, rec.me = nl, stem, text, me
        for ext, stale in ((".net", op["op"] == "netlist"), (".exe.log", True), (".log", True)):
            if stem + ext == nl:
                continue
            if op["stale"] and stale:
                disk.write_file(stem + ext, b"* left over from an earlier session\n" * 40)
            elif os.path.exists(stem + ext):
                disk.REAL["unlink"](stem + ext)
        sw, rec.want = self.switches(op)
        rec.compat = self.compat
        rec.exe = list(self.exe[f])
        rec.gone = not os.path.exists(self.exe_file[f])
        rec.fired0 = disk.FAULTS.fired if disk.FAULTS else 0
        kw = {}
        if sw is not None:
            kw["cmd_line_switches"] = sw
        if op["timeout"] is not None:
            kw["timeout"] = op["timeout"]
        if op["cwd"]:
            kw["cwd"] = os.path.join(self.scratch, op["cwd"])
        fd = None
        if op["io"] == "exe_log":
            kw["exe_log"] = True
        elif op["io"] == "file":
            fd = kw["stdout"] = open(os.path.join(d, "console.txt"), "wb")
        elif op["io"]:
            kw["stdout"] = {"devnull": subprocess.DEVNULL, "pipe": subprocess.PIPE}[op["io"]]
        arg = {"str": nl, "path": Path(nl), "rel": os.path.relpath(nl)}[op["form"]]
        before = list(sw) if isinstance(sw, list) else sw
        self.cur[nl] = rec
        self.recs.append(rec)
        sim.rec("call", what=op["op"], flavor=f, tok=op["tok"])
        rec.t0, rec.stall0 = sim.now, sim.stall_total
        try:
            rec.ret = (S.create_netlist if op["op"] == "netlist" else S.run)(arg, **kw)
        except (core.SimKilled, core.HarnessError):
            raise
        except Exception as e:
            rec.exc = e
        rec.t1 = sim.now
        rec.stall = sim.stall_total - rec.stall0
        sim.rec("ret", tok=op["tok"], ret=str(rec.ret)[-30:] if isinstance(rec.ret, int) else type(rec.ret).__name__, exc=type(rec.exc).__name__)
        if fd is not None:
            fd.close()
        if before != sw:
            self.bad("switches-changed", "the caller's list of switches %r has become %r" % (before, sw))
        self.judge(rec)

    # ---- oracle
    def judge(self, x):
        op, bad = x.op, self.bad
        f, what = op["flavor"], "%s.%s of %s" % (op["flavor"], op["op"], os.path.basename(x.nl))
        e = x.exc
        fault = disk.FAULTS is not None and any("exe.log" in p and "/%s/" % x.me in p for _, p in disk.FAULTS.log[x.fired0:])
        fault = fault and op["io"] == "exe_log"
        started = [p for p in x.pops if hasattr(p, "ended")]
        name = type(e).__name__ if e is not None else None
        for p in started:
            if p.rc is None:
                bad("still-running", "%s returned or raised (%s) while its process goes on" % (what, name))
        if x.gone:
            if not (e is not None and name == "SpiceSimulatorError"):
                bad("not-available", "%s without an executable: returned %r, raised %r" % (what, x.ret, e))
            if x.pops:
                bad("started-unavailable", "%s: a process was started" % what)
            self.col.hit("simulator_gone")
            return
        if fault:
            if not isinstance(e, OSError) or started:
                bad("exe-log-fault", "%s: the exe log can't be opened: returned %r, raised %r, %d processes" % (what, x.ret, e, len(started)))
            self.col.hit("exe_log_fault")
            return
        if op["cwd"] == "none such" or x.refused:
            if not isinstance(e, OSError):
                bad("start-failure-hidden", "%s can't be started: returned %r, raised %r" % (what, x.ret, e))
            self.col.hit("cannot_start")
            return
        if len(started) != 1:
            return bad("process-count", "%s started %d processes; returned %r, raised %r" % (what, len(started), x.ret, e))
        p = started[0]
        if p.rc is None:
            return
        # -- the command line
        c = p.cmd
        if p.full[:len(x.exe)] != x.exe:
            bad("wrong-program", "%s started %s instead of %s" % (what, p.full[:2], x.exe))
        if p.cwd is not None and os.path.abspath(p.cwd) != os.path.join(self.scratch, op["cwd"] or ".") or p.cwd is None and op["cwd"]:
            bad("cwd", "%s runs in %s instead of %s" % (what, p.cwd, op["cwd"]))
        flat = []
        for s in c.switches:
            flat += list(s) if isinstance(s, tuple) else [s]
        want = list(x.want)
        if op["op"] == "netlist":
            want = ["-netlist"] + want
        elif f == "ngspice" and x.compat:
            want = want + ["-D", "ngbehavior=%s" % x.compat]
        if sorted(flat) != sorted(want):
            bad("switches", "%s gets the switches %s instead of %s" % (what, flat, want))
        elif not any(flat[i:i + len(x.want)] == x.want for i in range(len(flat) + 1)):
            bad("switch-order", "%s gets the switches %s instead of %s" % (what, flat, want))
        if op["op"] == "run":
            wd = p.cwd or os.getcwd()
            got = [c.log and os.path.normpath(os.path.join(wd, c.log)), c.raw and os.path.normpath(os.path.join(wd, c.raw))]
            exp = [x.stem + ".log", x.stem + RAWEXT[f]]
            if got != exp:
                bad("outputs", "%s writes to %s instead of %s" % (what, got, exp))
            if not c.batch:
                bad("not-batch", "%s is started interactively: %s" % (what, p.full))
        # -- outcome
        T, own = op["timeout"], p.rc if not p.kills else None
        S = x.stall + 60 * self.plan["latency"] + 0.02
        life = p.ended - x.t0
        if e is not None and name == "TimeoutExpired":
            if T is None:
                bad("timeout-without", "%s raised %r without a timeout" % (what, e))
            elif x.t1 - x.t0 < T - 1e-6:
                bad("timeout-early", "%s timed out after %.3f s instead of %.3f s" % (what, x.t1 - x.t0, T))
            elif own is not None and life < T - 1e-6:
                bad("timeout-finished", "%s raised a timeout although the process ended in time (%s)" % (what, own))
            if x.t1 - x.t0 > (T or 0) + S + 1.0:
                bad("timeout-late", "%s with a timeout of %s s took %.3f s" % (what, T, x.t1 - x.t0))
            self.col.hit("timeout")
        elif p.kills:
            bad("killed", "the process of %s was killed after %.3f s (timeout %s); returned %r, raised %r" % (what, life, T, x.ret, e))
        else:
            if T is not None and life > T + S:
                bad("timeout-ignored", "%s with a timeout of %s s: the process ran %.3f s" % (what, T, life))
            if op["op"] == "run":
                if e is not None:
                    bad("run-raises", "%s raised %r; the process returned %s" % (what, e, own))
                elif x.ret != own:
                    bad("return-code", "%s returned %r; the process returned %s" % (what, x.ret, own))
            else:
                good = own == 0 and op["spec"]["out"] == "ok"
                if good:
                    if e is not None:
                        bad("netlist-raises", "%s raised %r although the netlist was made" % (what, e))
                    elif os.path.abspath(str(x.ret)) != x.stem + ".net" or not isinstance(x.ret, Path):
                        bad("netlist-path", "%s returned %r" % (what, x.ret))
                    elif disk.read_file(x.stem + ".net").decode() != netlist_of(x.text):
                        bad("netlist-content", "%s: the netlist isn't the one of the schematic" % what)
                    self.col.hit("netlist_made")
                else:
                    if e is None:
                        bad("netlist-failure-hidden", "%s returned %r although the conversion failed (%s)" % (what, x.ret, own))
                    elif name != "RuntimeError":
                        bad("netlist-failure-kind", "%s raised %r" % (what, e))
                    self.col.hit("netlist_failed_stale" if op["stale"] else "netlist_failed")
            if x.t1 < p.ended - 1e-9:
                bad("returns-early", "%s returned before its process ended" % what)
            if x.t1 - p.ended > S + 1.0:
                bad("returns-late", "%s returned %.3f s after its process ended" % (what, x.t1 - p.ended))
        # -- console
        path = {"exe_log": x.stem + ".exe.log", "file": os.path.join(self.scratch, x.me, "console.txt")}.get(op["io"])
        if path:
            data = disk.read_file(path) if os.path.exists(path) else None
            if data != p.console:
                bad("console", "%s: %s holds %r instead of the console messages %r" % (what, os.path.basename(path), (data or b"none")[-60:], p.console[-60:]))
            self.col.hit("console_checked")
        if op["io"] != "exe_log" and not op["stale"] and os.path.exists(x.stem + ".exe.log"):
            bad("exe-log-unasked", "%s made an .exe.log nobody asked for" % what)

    def scenario(self):
        p, sim = self.plan, self.sim
        if disk.FAULTS is not None:
            disk.FAULTS.enabled = False
        for f in sorted(p["exes"]):
            self.configure(f, p["exes"][f], first=True)
        S = common.simulator_class("ngspice")
        self.compat = S._compatibility_mode
        if p["compat"] != "keep":
            S.set_compatibility_mode(p["compat"])
            self.compat = p["compat"]
        for j in p["jumps"]:
            def jump(by=j["by"]):
                sim.wall_jump += by
                sim.fault("clock_jump")
            sim.after(j["at"], jump)
        if disk.FAULTS is not None:
            disk.FAULTS.enabled = True
        ws = [common.Worker(sim, "w%d" % i, lambda ops=ops, i=i: [self.do(o, "w%d" % i) for o in ops]) for i, ops in enumerate(p["threads"])]
        for w in ws:
            if not w.join():
                self.bad("stuck", "a call never returned")
            if w.exc:
                if not w.blamed:
                    raise core.HarnessError(w.exc[-800:])
                self.col.bad("R14", "unexpected-exception", w.exc[-600:])
        for q in self.table.live():
            self.bad("still-running", "a process is left running: %s" % q.name)
        if disk.ESCAPES:
            self.bad("escape", "wrote outside its directories: %s" % disk.ESCAPES[:3])


def execute(job, scratch):
    w = World(job, scratch)
    w.plan.setdefault("env_seed", 0)
    status = w.sim.run(w.scenario)
    if status in ("deadlock", "horizon", "steps"):
        w.bad("stuck", "the calls never come to an end: %s" % w.sim.detail)
    return common.result(w.sim, w.col, w.choices)
