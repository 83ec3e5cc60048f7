"""SimRunner.create_raw_file_with(): traces of several runs in one raw file (S04)."""
import copy
import os
import random
import re
import numpy as np
from .. import core, disk, procs, spice, rawmodel
from . import common
from .common import SOURCE, RAWEXT

PROPS = ["S04"]
R_VALUES = ["1k", "2k2", "4k7"]
LIMIT = 4000.0


# ================================================================ plans
def gen_plan(rng, prop, tier):
    big = tier == "thorough"
    flavor = rng.choice(["ltspice", "ltspice", "qspice", "ngspice"])
    kind = rng.choice(["tran", "tran", "ac", "dc"])
    nv = rng.choice([2, 3, 4, 6])
    p = {"flavor": flavor, "kind": kind, "nvars": nv, "ascii": rng.random() < 0.15, "double": flavor == "ltspice" and rng.random() < 0.3,
         "odd": rng.random() < 0.3, "fast": flavor == "ltspice" and rng.random() < 0.3,
         "sched": common.gen_sched(rng), "parallel": rng.choice([1, 2, 2, 3, 4]), "latency": rng.choice([0.0, 0.0, 0.002]), "outdir": rng.random() < 0.7,
         "specs": {}, "main": [], "threads": [], "disk": [], "grid": rng.choice(["same", "shared", "shared", "own", "own", "nested"]),
         "points": rng.choice([[2, 3], [2, 3, 5, 9], [3, 8, 20], [5, 40], [40, 40, 41]]), "wild": rng.random() < 0.2,
         "unit": rng.choice([2.5e-7, 2.5e-7, 1e-10, 1e-3])}
    st = {"tok": 0}

    def run():
        st["tok"] += 1
        out = "ok"
        if rng.random() < 0.15:
            out = rng.choice(["fail", "crash", "noraw", "fail", "crash_nolog"])
        sp = {"dur": round(rng.choice([0.05, rng.uniform(0.05, 1), rng.uniform(0.3, 5)]), 3), "start": rng.choice([0.0, 0.05]), "out": out}
        if out == "fail":
            sp["rc"] = rng.choice([1, 255, -6])
        if rng.random() < 0.05:
            sp["exec"] = rng.choice(["ENOENT", "ENOMEM"])
        p["specs"][str(st["tok"])] = sp
        return {"op": rng.choice(["run"] * 9 + ["run_now"]), "tok": st["tok"], "R1": rng.choice(R_VALUES), "p1": str(rng.choice([1, 2, 3]))}

    def merge(i):
        k = rng.choice([1, 1, 2, min(3, nv - 1), nv - 1])
        save = sorted(rng.sample(range(1, nv), min(k, nv - 1)))
        if rng.random() < 0.5:
            rng.shuffle(save)
        cond = rng.choice([None, None, None, {"R1": ["1k"]}, {"R1": ["1k", "2k2"]}, {"R1": "2k2"}, {"p1": ["1", "3"]}, {"R1": ["1k", "4k7"], "p1": "2"}, "even", "odd", "last"])
        return {"op": "merge", "save": save, "cond": cond, "name": "merged%d.raw" % i}

    n = rng.choice([1, 2, 3, 4, 5, 6] if not big else [2, 4, 6, 9])
    m = p["main"]
    nm = 0
    for _ in range(n):
        m.append(run())
        if rng.random() < 0.2:
            m.append({"op": "sleep", "d": round(rng.uniform(0.01, 2), 3)})
        if rng.random() < 0.12:
            m.append(merge(nm))
            nm += 1
    for _ in range(rng.choice([1, 1, 2])):
        m.append(merge(nm))
        nm += 1
    if rng.random() < 0.25:
        m.append(run())
        m.append(dict(merge(nm), name=rng.choice(["merged%d.raw" % nm, "merged0.raw"])))
        nm += 1
    if rng.random() < 0.3:
        p["threads"].append([{"op": "sleep", "d": round(rng.uniform(0, 3), 3)}, dict(merge(0), name="other.raw")])
    if rng.random() < 0.2:
        p["threads"].append([{"op": "poll", "n": 20, "gap": 0.05}])
    if rng.random() < 0.2:
        k = rng.choice(["merged", "merged", ".raw", ".qraw"])
        p["disk"].append({"op": rng.choice(["open", "write", "write", "write", "close"] if k == "merged" else ["openr", "read", "read", "read"]), "match": k,
                          "nth": rng.choice([1, 1, 2, 3, 7, 12]), "kind": rng.choice(["ENOSPC", "EIO", "EACCES", "short"]), "count": rng.choice([1, 1, 3])})
    if rng.random() < 0.08:
        m.append({"op": "rmraw", "tok": rng.randrange(1, st["tok"] + 1)})
        m.append(merge(nm))
    return p


def shrink(plan):
    for k in ("threads", "disk"):
        if plan.get(k):
            yield dict(copy.deepcopy(plan), **{k: []})
    for i in range(len(plan["main"]) - 1, -1, -1):
        q = copy.deepcopy(plan)
        del q["main"][i]
        yield q
    if plan["latency"]:
        yield dict(copy.deepcopy(plan), latency=0.0)
    for i, o in enumerate(plan["main"]):
        if o["op"] == "merge":
            if o["cond"] is not None:
                q = copy.deepcopy(plan)
                q["main"][i]["cond"] = None
                yield q
            if len(o["save"]) > 1:
                q = copy.deepcopy(plan)
                q["main"][i]["save"] = o["save"][:1]
                yield q
    for pts in ([2, 3], [3, 5]):
        if len(plan["points"]) > 2:
            yield dict(copy.deepcopy(plan), points=pts)


# ================================================================ what the runs produce
def run_axis(p, tok, rng):
    """A strictly increasing axis with a start shared by all runs and distances far above the merge tolerance."""
    n = random.Random("n%s/%s" % (p.get("env_seed"), tok)).choice(p["points"])
    g = random.Random("grid%s" % p.get("env_seed"))
    k = p["grid"]
    if k == "same":
        n = max(p["points"])
        steps = [g.randint(1, 40) for _ in range(n - 1)]
    elif k == "nested":
        unit = 2 ** (tok % 4)
        steps = [unit * 4 for _ in range(n - 1)]
    elif k == "shared":
        base = sorted(g.sample(range(1, 400), 120))
        pick = sorted(rng.sample(base, n - 1))
        steps = [b - a for a, b in zip([0] + pick, pick)]
    else:
        steps = [rng.randint(1, rng.choice([3, 40, 400])) for _ in range(n - 1)]
    t = np.cumsum([0] + steps).astype("f8")
    if p["kind"] == "tran":
        return t * p.get("unit", 2.5e-7)
    if p["kind"] == "ac":
        return 10.0 + t * 12.5
    return -2.0 + t * 0.01


def make_model(p, tok):
    rng = random.Random("raw%s/%s" % (p.get("env_seed"), tok))
    m = rawmodel.Model({"dialect": p["flavor"], "ascii": p["ascii"], "fast": p["fast"], "double": p["double"], "seed": tok,
                        "plots": [{"kind": p["kind"], "nvars": p["nvars"], "steps": [2], "odd": p["odd"]}]})
    pl = m.plots[0]
    ax = run_axis(p, tok, rng)
    pl.n = len(ax)
    pl.steps, pl.starts = [pl.n], [0]
    data = [ax.astype(pl.dtypes[0])]
    for i in range(1, p["nvars"]):
        v = np.array([rng.gauss(0, 1) for _ in range(pl.n)]) * (10.0 ** rng.randint(-6, 4) if p["wild"] else 1.0) + tok * (0 if p["wild"] else 3)
        if pl.dtypes[i] == "c16":
            v = v + 1j * np.array([rng.gauss(0, 1) for _ in range(pl.n)])
        data.append(v.astype(pl.dtypes[i]))
    if m.ascii:
        data = [np.array([complex(float("%.15e" % x.real), float("%.15e" % x.imag)) if a.dtype.kind == "c" else float("%.15e" % float(x))
                          for x in a], dtype=a.dtype) for a in data]
    pl.data = data
    return m


def parse(data):
    """A raw file as create_raw_file_with documents it (what RawWrite writes); None and a reason if it isn't well formed."""
    sep = "Binary:\n".encode("utf-16-le")
    i = data.find(sep)
    if i < 0:
        return None, "no 'Binary:' marker"
    head = data[:i].decode("utf-16-le")
    body = data[i + len(sep):]
    h, names, types = {}, [], []
    invars = False
    for line in head.split("\n"):
        if invars and line.startswith("\t"):
            t = line.split("\t")
            names.append(t[2])
            types.append(t[3])
        elif ":" in line:
            k, v = line.split(":", 1)
            h[k] = v.strip()
            invars = k == "Variables"
    flags = h.get("Flags", "").split()
    n = int(h.get("No. Points", -1))
    nv = int(h.get("No. Variables", -1))
    if nv != len(names):
        return None, "No. Variables %d, %d listed" % (nv, len(names))
    if "complex" in flags:
        dt = ["<c16"] * nv
    else:
        dt = ["<f8"] + ["<f8" if "double" in flags else "<f4"] * (nv - 1)
    size = sum(np.dtype(x).itemsize for x in dt) * n
    if size != len(body):
        return None, "the header announces %d bytes, the file has %d" % (size, len(body))
    cols = []
    if "fastaccess" in flags:
        o = 0
        for x in dt:
            k = np.dtype(x).itemsize * n
            cols.append(np.frombuffer(body[o:o + k], dtype=x))
            o += k
    else:
        rec = np.dtype([("f%d" % j, x) for j, x in enumerate(dt)])
        a = np.frombuffer(body, dtype=rec)
        cols = [a["f%d" % j] for j in range(nv)]
    return {"h": h, "flags": flags, "names": names, "types": types, "cols": cols, "n": n}, None


def tagged(name, runno):
    m = re.match(r"([IViv])\(([^)]+)\)", name)
    return "%s(%s_%s)" % (m.group(1), m.group(2), runno) if m else "%s_%s" % (name, runno)


class Rec:
    pass


# ================================================================ execution
class World:
    def __init__(self, job, scratch):
        p = self.plan = job["plan"]
        self.prop = job["prop"]
        self.scratch = scratch
        self.flavor = p["flavor"]
        disk.configure(scratch, [dict(r) for r in p["disk"]], p["latency"])
        if disk.FAULTS is not None:
            disk.FAULTS.enabled = False
        self.choices = common.make_choices(job)
        self.sim = core.Sim(self.choices, max_steps=3_000_000)
        self.sim.scratch = scratch
        procs.TABLE = procs.ProcTable(self.sim, self.launch)
        self.col = common.Collector(self.sim, self.prop)
        self.recs = []
        self.by_tok = {}
        self.models = {}
        self.in_merge = 0
        procs.SimMPProcess.fault = None
        procs.SimMPProcess._count = 0
        self.src = os.path.join(scratch, "src")
        self.out = os.path.join(scratch, "out")
        os.mkdir(self.src)
        self.path = os.path.join(self.src, "circuit.net")
        disk.write_file(self.path, SOURCE.encode())

    def launch(self, popen):
        prog = spice.Program(popen, self.flavor, self.spec_for, self.content, None)
        tok = self.starting
        e = self.plan["specs"].get(str(tok), {}).get("exec") if tok else None
        nl = prog.cmd.netlist
        if nl:
            try:
                t = spice.token(disk.read_file(os.path.join(popen.cwd or os.getcwd(), nl)).decode("utf-8", "replace"))
                e = self.plan["specs"].get(str(t), {}).get("exec")
            except OSError:
                pass
        if e:
            import errno
            self.sim.fault("exec_" + e)
            no = getattr(errno, e)
            raise OSError(no, os.strerror(no))
        return prog

    starting = None

    def spec_for(self, tok, prog):
        return self.plan["specs"].get(str(tok), {"dur": 0.2, "out": "ok"}) if tok is not None else None

    def content(self, prog):
        m = self.model(prog.tok)
        return m.log(), m.bytes()

    def model(self, tok):
        if tok not in self.models:
            self.models[tok] = make_model(self.plan, tok)
        return self.models[tok]

    # ---- operations
    def do(self, op, who):
        k = op["op"]
        if k in ("run", "run_now"):
            self.do_run(op)
        elif k == "sleep":
            self.sim.sleep(op["d"])
        elif k == "poll":
            for _ in range(op["n"]):
                self.runner.active_threads()
                self.sim.sleep(op["gap"])
        elif k == "merge":
            self.do_merge(op, who)
        elif k == "rmraw":
            x = self.by_tok.get(op["tok"])
            if x is not None and x.task is not None:
                f = x.path(RAWEXT[self.flavor])
                self.runner.wait_completion()
                if os.path.exists(f):
                    disk.REAL["unlink"](f)
                x.removed = True

    def do_run(self, op):
        x = Rec()
        x.tok, x.edits, x.task, x.removed, x.t_ret = op["tok"], {"R1": op["R1"], "p1": op["p1"], "tok": str(op["tok"])}, None, False, None
        e = self.editor
        e.set_component_value("R1", op["R1"])
        e.set_parameter("p1", op["p1"])
        e.set_parameter("tok", op["tok"])
        self.recs.append(x)
        self.by_tok[x.tok] = x
        if op["op"] == "run_now":
            try:
                self.runner.run_now(e)
            except core.SimKilled:
                raise
            except Exception as ex:
                self.sim.rec("run_now_raises", exc=type(ex).__name__)
            x.task = next((t for t in reversed(list(self.runner.completed_tasks)) if t.runno == self.runner.runno), None)
        else:
            x.task = self.runner.run(e)
        x.runno = self.runner.runno
        x.t_ret = self.sim.now
        x.spec = self.plan["specs"][str(x.tok)]
        x.ok = x.spec["out"] in ("ok", "noraw") and "exec" not in x.spec
        x.path = lambda ext, t=x.task: os.path.splitext(str(t.netlist_file))[0] + ext
        self.sim.rec("op_run", tok=x.tok)

    def matches(self, x, cond, mx):
        if cond is None:
            return True
        if cond == "even":
            return x.runno % 2 == 0
        if cond == "odd":
            return x.runno % 2 == 1
        if cond == "last":
            return x.runno >= mx
        return all(x.edits[k] == v or (isinstance(v, list) and x.edits[k] in v) for k, v in cond.items())

    def do_merge(self, op, who):
        sim, col = self.sim, self.col
        bad = lambda key, msg: col.bad("S04", key, "%s: %s" % (op["name"], msg))
        cond = op["cond"]
        mx = max([x.runno for x in self.recs if x.t_ret is not None] or [0])
        fn = cond
        if cond == "even":
            fn = lambda t: t.runno % 2 == 0
        elif cond == "odd":
            fn = lambda t: t.runno % 2 == 1
        elif cond == "last":
            fn = lambda t: t.runno >= mx
        elif isinstance(cond, dict):
            fn = {k: (tuple(v) if isinstance(v, list) else v) for k, v in cond.items()}
        names = [self.model(0).plots[0].names[i] for i in op["save"]]
        path = os.path.join(self.scratch, op["name"])
        launched = [x for x in self.recs if x.t_ret is not None and x.task is not None]
        fired0 = disk.FAULTS.fired if disk.FAULTS is not None else 0
        removed0 = [x for x in launched if x.removed]
        self.in_merge += 1
        if disk.FAULTS is not None:
            disk.FAULTS.enabled = True
        before = disk.read_file(path) if os.path.exists(path) else None
        ret = exc = None
        sim.rec("op_merge", who=who, cond=str(cond))
        try:
            ret = self.runner.create_raw_file_with(path, list(names), fn)
        except core.SimKilled:
            raise
        except Exception as e:
            exc = e
        finally:
            self.in_merge -= 1
            if disk.FAULTS is not None and not self.in_merge:
                disk.FAULTS.enabled = False
        fired = (disk.FAULTS.fired if disk.FAULTS is not None else 0) - fired0
        sim.rec("op_merge_ret", ret=ret, exc=type(exc).__name__ if exc else None)
        launched2 = [x for x in self.recs if x.task is not None and (x.t_ret is not None)]
        must = [x for x in launched if x.ok and self.matches(x, cond, mx)]
        may = [x for x in self.recs if x.t_ret is None or x not in launched]
        may = [x for x in may if x.task is not None and getattr(x, "ok", True)]
        noraw = [x for x in must if x.spec["out"] == "noraw" or x in removed0]
        gone = [x for x in must if x.removed and x not in noraw]       # the user removed it meanwhile
        have = [x for x in must if x not in noraw and x not in gone]
        may += gone
        racing = bool(may) or any(x.t_ret is None for x in self.recs)
        if exc is not None:
            if fired:
                col.hit("merge_fails_by_fault")
            elif any(x.removed for x in launched2) and not removed0 and who != "main":
                col.hit("raw_removed_meanwhile")
            else:
                import traceback
                bad("raises %s" % type(exc).__name__, "create_raw_file_with raised %r\n%s" % (exc, "".join(traceback.format_tb(exc.__traceback__))[-400:]))
            return
        if ret is True:
            if not must and not racing:
                bad("true-without-match", "returned True, no successful run matches")
                return
            if noraw:
                bad("true-with-missing-raw", "returned True although run(s) %s have no raw file" % [x.runno for x in noraw])
        elif ret is False:
            if not noraw and must and not racing:
                bad("false-with-all", "returned False, all matching runs %s have their raw file" % [x.runno for x in must])
            if not os.path.exists(path):
                return
            if before is not None and disk.read_file(path) == before:
                return
            if not must and not racing:
                return
        else:
            bad("return-value", "returned %r" % (ret,))
            return
        if fired:
            col.hit("fault_survived")
        if not os.path.exists(path):
            bad("no-file", "returned %s, there is no file" % ret)
            return
        f, why = parse(disk.read_file(path))
        if f is None:
            bad("malformed", "returned %s: %s" % (ret, why))
            return
        col.hit("merged_%s" % ("true" if ret else "false"))
        if len(have) > 1:
            col.hit("merged_many")
        self.judge_file(f, names, have, may, racing, bad)

    def judge_file(self, f, names, have, may, racing, bad):
        m0 = self.model(0).plots[0]
        by_tag = {}
        for x in have + may:
            if not hasattr(x, "runno"):
                continue
            for nme in names:
                by_tag.setdefault(tagged(nme, x.runno), []).append((x, nme))
        if f["names"][0] != m0.names[0] or f["types"][0] != m0.types[0]:
            bad("axis-name", "axis %s/%s, the runs have %s/%s" % (f["names"][0], f["types"][0], m0.names[0], m0.types[0]))
        got = f["names"][1:]
        for nme in got:
            if nme not in by_tag:
                if racing:
                    continue        # launched meanwhile, run() hasn't returned its number yet
                bad("foreign-trace", "trace %s belongs to no matching successful run (runs %s, traces %s)" % (nme, [x.runno for x in have], names))
                return
            if got.count(nme) > 1:
                bad("duplicate-trace", "trace %s is there %d times" % (nme, got.count(nme)))
                return
        for x in have:
            for nme in names:
                if tagged(nme, x.runno) not in got:
                    bad("missing-trace", "trace %s of run %s isn't in the file (%s)" % (nme, x.runno, got))
                    return
        want = [(self.plan["kind"] == "ac"), "complex" in f["flags"]]
        if want[0] != want[1]:
            bad("numtype", "flags %s for a %s analysis" % (f["flags"], self.plan["kind"]))
            return
        if f["h"].get("Plotname") != rawmodel.KINDS[self.plan["kind"]]:
            bad("plotname", "plot name %r" % f["h"].get("Plotname"))
        inc = sorted({x.tok for tag in got for x, _ in by_tag.get(tag, [])})
        axes = {t: self.model(t).plots[0].data[0].real.astype("f8") for t in inc}
        ax = f["cols"][0].real.astype("f8")
        if not inc:
            return
        ends = [a[-1] for a in axes.values()]
        union = np.unique(np.concatenate(list(axes.values())))
        if not np.all(np.diff(ax) > 0):
            bad("axis-order", "the axis isn't increasing: %s" % ax[:12])
            return
        if not np.all(np.isin(ax, union)):
            bad("axis-invented", "the axis has points no run has: %s" % ax[~np.isin(ax, union)][:6])
            return
        if ax[0] != union[0]:
            bad("axis-start", "the axis starts at %r, the runs at %r" % (ax[0], union[0]))
            return
        if ax[-1] != min(ends):
            bad("axis-end", "the axis ends at %r, the last point all runs reach is %r" % (ax[-1], min(ends)))
            return
        known = min(a[-2] for a in axes.values())
        need = union[union <= known]
        if not np.all(np.isin(need, ax)):
            bad("axis-points", "the axis lacks the points %s" % need[~np.isin(need, ax)][:6])
            return
        if len(axes) == 1 and len(ax) != len(axes[inc[0]]):
            bad("axis-points", "one run only: its axis has %d points, the file %d" % (len(axes[inc[0]]), len(ax)))
            return
        for i, tag in enumerate(got):
            for x, nme in by_tag.get(tag, []):
                pl = self.model(x.tok).plots[0]
                v = pl.data[pl.names.index(nme)]
                a = axes[x.tok]
                v = v.astype("c16" if v.dtype.kind == "c" else "f8")
                w = np.interp(ax, a, v)
                j = np.clip(np.searchsorted(a, ax, "left"), 1, len(a) - 1)
                tol = 2e-6 * np.maximum(np.abs(v[j]), np.abs(v[j - 1])) + 1e-37
                if "complex" in f["flags"] or "double" in f["flags"]:
                    if v.dtype.kind == "c" or pl.data[pl.names.index(nme)].dtype.itemsize == 8:
                        tol = tol * 1e-6
                d = np.abs(f["cols"][i + 1] - w)
                if not np.all(d <= tol):
                    k = int(np.argmax(d - tol))
                    bad("values", "trace %s at %r is %r, run %s has %r there (axis of %d points, merged %d)" % (
                        tag, ax[k], f["cols"][i + 1][k], x.runno, w[k], len(a), len(ax)))
                    return

    # ---- scenario
    def scenario(self):
        from spicelib.sim.sim_runner import SimRunner
        from spicelib.editor.spice_editor import SpiceEditor
        p, sim = self.plan, self.sim
        kw = {"simulator": self.sim_class, "parallel_sims": p["parallel"], "timeout": 600.0}
        if p["outdir"]:
            kw["output_folder"] = self.out
        self.runner = SimRunner(**kw)
        self.editor = SpiceEditor(self.path)
        ws = [common.Worker(sim, "w%d" % i, lambda ops=ops, i=i: [self.do(o, "w%d" % i) for o in ops]) for i, ops in enumerate(p["threads"])]
        for op in p["main"]:
            self.do(op, "main")
        for w in ws:
            w.join()
            if w.exc:
                self.col.bad("S04", "thread-exception", w.exc[-500:])
        # the same request again, nothing fails now, nothing runs
        self.runner.wait_completion()
        if disk.FAULTS is not None:
            disk.FAULTS.rules = []
        last = [o for o in p["main"] if o["op"] == "merge"]
        if last:
            self.do_merge(dict(last[-1], name="final.raw"), "main")


def execute(job, scratch):
    w = World(job, scratch)
    w.plan.setdefault("env_seed", 0)
    w.sim_class, w.exe = common.setup_simulator(w.flavor, scratch)
    status = w.sim.run(w.scenario)
    if status in ("deadlock", "horizon", "steps"):
        w.col.bad("S04", "stuck", "create_raw_file_with never returns; %s" % w.sim.detail)
    return common.result(w.sim, w.col, w.choices)
