"""Raw files: reading while they are cut or grow (S01), writing under disk faults (S02), lazy reading (S03)."""
import os
import random
import numpy as np
from .. import core, disk, procs, rawmodel
from . import common

PROPS = ["S01", "S02", "S03"]


# ================================================================ plans
def gen_plan(rng, prop, tier):
    big = tier == "thorough"
    p = {"sched": common.gen_sched(rng), "disk": [], "latency": 0.0, "prop": prop}
    if rng.random() < 0.4:
        p["latency"] = rng.choice([0.001, 0.02])
    if prop == "S02":
        return gen_write(rng, p, big)
    m = rawmodel.gen_model(rng, small=not big)
    p["model"] = m
    p["log"] = rng.choice(["full", "full", "full", "none"]) if any(q.get("stepped") for q in m["plots"]) else rng.choice(["full", "none"])
    p["readers"] = []
    if prop == "S01":
        k = rng.random()
        if k < 0.45:
            p["cut"] = rng.choice([rng.random(), rng.random(), 1 - rng.random() * 0.05, rng.random() * 0.2, "header", "record", "plot"])
            p["cut_r"] = rng.random()
        else:
            p["grow"] = {"mode": rng.choice(["planned", "running", "running_early", "zero"]), "chunks": rng.choice([2, 4, 8, 20]),
                         "dur": round(rng.uniform(0.5, 6), 2), "head_cut": rng.random() < 0.3, "unit": rng.choice(["bytes", "record"]),
                         "log": rng.choice(["full", "grow", "none"]), "r": rng.randint(0, 1 << 30)}
        n = rng.choice([1, 1, 2, 3])
    else:
        n = rng.choice([1, 1, 1, 2])
        p["fate"] = rng.choice(["keep", "keep", "keep", "keep", "delete", "other"])
        if rng.random() < 0.45:
            p["disk"] = [{"op": rng.choice(["openr", "read", "read"]), "match": rng.choice(["model", "model", ".raw", ".log", ".qraw"]),
                          "nth": rng.choice([1, 2, 3, 4, 6, 9]), "count": rng.choice([1, 1, 2, 4]),
                          "kind": rng.choice(["EIO", "EIO", "EMFILE", "EACCES", "short"])} for _ in range(rng.choice([1, 1, 2]))]
            for r in p["disk"]:
                if r["op"] == "openr" and r["kind"] == "short":
                    r["kind"] = "EMFILE"
            # most read errors shall hit a later access, the first ones would otherwise all fall on the opening
            p["arm"] = rng.choice(["opened", "opened", "opened", "start"])
            if p["arm"] == "opened":
                for r in p["disk"]:
                    r["match"] = "model"
                    r["nth"] = rng.choice([1, 1, 1, 2, 2, 3, 4])
    for i in range(n):
        p["readers"].append({"at": round(rng.uniform(0, 5), 3) if "grow" in p else round(rng.uniform(0, 0.5), 3),
                             "open": gen_open(rng, m), "ops": [gen_op(rng, m) for _ in range(rng.choice([3, 6, 12] if not big else [6, 12, 30]))],
                             "reopen": rng.random() < 0.3, "dialect": rng.choice(["", "", "", "own", "upper", "empty"]),
                             "path": rng.choice(["str", "path"])})
    return p


def gen_open(rng, m):
    k = rng.random()
    if k < 0.35:
        return None
    if k < 0.6:
        return "*"
    n = sum(1 for _ in range(m["plots"][0]["nvars"]))
    pick = sorted(rng.sample(range(n), rng.randint(1, n)))
    if rng.random() < 0.5:
        rng.shuffle(pick)
    return {"as": rng.choice(["list", "tuple", "str"]), "idx": pick}


def gen_op(rng, m):
    pi = 0 if rng.random() < 0.6 else rng.randrange(len(m["plots"]))
    q = m["plots"][pi]
    what = rng.choice(["wave", "wave", "wave", "wave", "trace", "trace", "axis", "axis", "len", "trlen", "point", "steps", "export", "export",
                       "iter", "time", "alias", "alias", "csv", "idx", "pointat", "props", "nosuch"])
    return {"op": what, "plot": pi, "var": rng.randrange(q["nvars"]), "step": rng.randrange(len(q["steps"])),
            "case": rng.choice(["", "", "", "upper", "lower"]), "n": rng.random(), "gap": round(rng.choice([0, 0, 0.01, 0.3]), 3),
            "retry": rng.choice([0, 1, 1, 2]),
            "cols": sorted({rng.randrange(q["nvars"]) for _ in range(rng.choice([1, 2, 3]))}) if rng.random() < 0.6 else None,
            "all": rng.random() < 0.6}


def gen_write(rng, p, big):
    kind = rng.choice(["tran", "tran", "ac", "dc", "noise", "op"])
    n = rng.choice([1, 2, 3, 10, 50, 400] if not big else [1, 2, 10, 60, 400, 3000]) if kind != "op" else 1
    tr = []
    for i in range(rng.choice([1, 2, 3, 5])):
        tr.append({"numtype": rng.choice(["", "", "real", "double", "complex"] if kind == "ac" else ["", "", "real", "double"]),
                   "as": rng.choice(["list", "tuple", "f4", "f8"] if kind != "ac" else ["list", "c16", "tuple"]),
                   "wild": rng.random() < 0.3, "what": rng.choice(["voltage", "device_current"])})
    p["write"] = {"kind": kind, "n": n, "traces": tr, "fast": rng.random() < 0.6, "enc": rng.choice(["utf_16_le", "utf_16_le", "utf_8"]),
                  "numtype": rng.choice(["auto", "auto", "auto", "real" if kind != "ac" else "complex"]),
                  "axnum": rng.choice(["", "double"]) if kind in ("tran", "dc", "op") else ("complex" if kind == "ac" else "double"),
                  "plot_name": rng.random() < 0.3, "seed": rng.randint(0, 1 << 30), "src": None}
    if rng.random() < 0.45:
        m = rawmodel.gen_model(rng, small=True, multi=False)
        m["plots"] = m["plots"][:1]
        while len(m["plots"][0]["steps"]) < 1:
            m["plots"][0]["steps"] = [3]
        p["write"]["src"] = m
        p["write"]["src_step"] = rng.randrange(len(m["plots"][0]["steps"]))
        p["write"]["src_vars"] = sorted({rng.randrange(m["plots"][0]["nvars"]) for _ in range(rng.choice([1, 2, 4]))} - {0})
        p["write"]["tag"] = rng.choice([None, "a", "7"])
        p["write"]["more"] = [{"vars": [rng.randrange(1, m["plots"][0]["nvars"]) for _ in range(rng.choice([1, 1, 2]))], "step": rng.randrange(len(m["plots"][0]["steps"])),
                               "how": rng.choice(["tag", "fmt", "fmt2", "both"]), "as": rng.choice(["list", "tuple", "str"])} for _ in range(rng.choice([0, 0, 1, 2, 3]) if m["plots"][0]["nvars"] > 1 else 0)]
    p["write"]["axis"] = rng.choice(["voltage", "voltage", "current", "param"])
    p["write"]["wrong"] = rng.random() < 0.3
    prog = []
    for i in range(rng.choice([1, 1, 2, 3])):
        prog.append({"op": "save", "name": rng.choice(["out.raw", "out.raw", "second.raw"])})
        k = rng.random()
        if k < 0.25:
            prog.append({"op": "fast"})
        elif k < 0.45:
            prog.append({"op": "add", "numtype": rng.choice(["", "double"]) if kind != "ac" else "", "wild": rng.random() < 0.3})
        if rng.random() < 0.3:
            prog.append({"op": "gc"})
    p["prog"] = prog
    p["pre"] = rng.random() < 0.4
    if rng.random() < 0.6:
        p["disk"] = [{"op": rng.choice(["open", "write", "write", "write", "write", "close"]), "match": ".raw",
                      "nth": rng.choice([1, 1, 2, 3, 4]), "count": rng.choice([1, 1, 2, 40]),
                      "kind": rng.choice(["ENOSPC", "ENOSPC", "EIO", "short", "EACCES"])} for _ in range(rng.choice([1, 1, 2]))]
        for r in p["disk"]:
            if r["kind"] == "short" and r["op"] != "write":
                r["kind"] = "EIO"
            if r["op"] == "write" and rng.random() < 0.4:
                r["torn"] = round(rng.random(), 2)
    return p


def shrink(plan):
    import copy
    if plan.get("disk"):
        for i in range(len(plan["disk"])):
            q = copy.deepcopy(plan)
            del q["disk"][i]
            yield q
    for i in range(len(plan.get("readers", [])) - 1, -1, -1):
        if len(plan["readers"]) > 1:
            q = copy.deepcopy(plan)
            del q["readers"][i]
            yield q
    for i, r in enumerate(plan.get("readers", [])):
        for j in range(len(r["ops"]) - 1, -1, -1):
            q = copy.deepcopy(plan)
            del q["readers"][i]["ops"][j]
            yield q
    if plan.get("prog"):
        for i in range(len(plan["prog"]) - 1, -1, -1):
            if len(plan["prog"]) > 1:
                q = copy.deepcopy(plan)
                del q["prog"][i]
                yield q
    if plan.get("write"):
        for i in range(len(plan["write"]["traces"]) - 1, -1, -1):
            q = copy.deepcopy(plan)
            del q["write"]["traces"][i]
            yield q
    m = plan.get("model")
    if m:
        for i in range(len(m["plots"]) - 1, 0, -1):
            q = copy.deepcopy(plan)
            del q["model"]["plots"][i]
            for r in q["readers"]:
                r["ops"] = [o for o in r["ops"] if o["plot"] < i]
            yield q
        for k in ("wild", "odd", "alias", "negtime", "down"):
            for i, x in enumerate(m["plots"]):
                if x.get(k):
                    q = copy.deepcopy(plan)
                    q["model"]["plots"][i][k] = False
                    yield q
    if plan.get("latency"):
        q = copy.deepcopy(plan)
        q["latency"] = 0.0
        yield q
    if plan.get("grow", {}).get("chunks", 0) > 2:
        q = copy.deepcopy(plan)
        q["grow"]["chunks"] = max(2, q["grow"]["chunks"] // 2)
        yield q


# ================================================================ execution
class Bad(Exception):
    def __init__(self, key, msg):
        super().__init__(msg)
        self.key = key


def close_enough(got, exp, dialect_f4):
    got = np.asarray(got)
    exp = np.asarray(exp)
    if got.shape != exp.shape:
        return False
    if dialect_f4:
        return bool(np.array_equal(got.astype("f4") if got.dtype.kind != "c" else got.astype("c8"), exp.astype("f4") if exp.dtype.kind != "c" else exp.astype("c8")))
    return bool(np.array_equal(got, exp))


class World:
    def __init__(self, job, scratch):
        self.plan = job["plan"]
        self.prop = job["prop"]
        self.scratch = scratch
        disk.configure(scratch, [dict(r) for r in self.plan["disk"]], self.plan["latency"])
        self.choices = common.make_choices(job)
        self.sim = core.Sim(self.choices, max_steps=3_000_000)
        self.sim.scratch = scratch
        procs.TABLE = procs.ProcTable(self.sim, lambda p: None)
        self.col = common.Collector(self.sim, self.prop)
        core.enable_more_lines([core.SRC + "/raw/"])

    def faults(self, on):
        if disk.FAULTS is not None:
            disk.FAULTS.enabled = on

    def fired(self):
        return disk.FAULTS.fired if disk.FAULTS is not None else 0

    # ---------------------------------------------------------------- files
    def put(self):
        m = self.model
        self.path = os.path.join(self.scratch, "model" + m.suffix())
        self.logpath = os.path.join(self.scratch, "model.log")
        p = self.plan
        if p["log"] == "full" and not (p.get("grow") and p["grow"]["log"] != "full"):
            disk.write_file(self.logpath, m.log())
        full = m.bytes()
        if "cut" in p:
            c = p["cut"]
            if c == "header":
                h = len(m.plots[-1].header(m.plots[-1].n))
                k = len(b"".join(q.header(q.n) + q.body() for q in m.plots[:-1])) + int(h * p["cut_r"])
            elif c == "record":
                q = m.plots[0]
                k = len(q.header(q.n)) + len(q.body(0, int(q.n * p["cut_r"]))) if not (m.fast and not q.complex) else len(q.header(q.n)) + q.n * 8
            elif c == "plot":
                k = len(m.plots[0].header(m.plots[0].n) + m.plots[0].body())
            else:
                k = int(len(full) * c)
            if m.ascii:
                # a cut inside the digits of a number leaves a shorter number: not noticeable by anyone
                while 0 < k < len(full) and full[k - 1:k] in b"0123456789.+-e" and full[k:k + 1] not in b"\r\n,":
                    k -= 1
                if 0 < k < len(full) and full[k:k + 1] in b"\r\n," and full[k - 1:k] in b"0123456789.+-e":
                    pass
            self.cut_at = k
            disk.write_file(self.path, full[:k])
            self.col.hit("cut_file")
        elif "grow" in p:
            self.grow(p["grow"], full)
        else:
            disk.write_file(self.path, full)

    def patch(self, off, data):
        fd = disk.REAL["open"](self.path, os.O_WRONLY)
        try:
            os.pwrite(fd, data, off)
        finally:
            disk.REAL["close"](fd)

    def grow(self, g, full):
        """The simulator writes the file while it is read: headers with a provisional count, data in pieces."""
        m, sim = self.model, self.sim
        rng = random.Random("grow%d" % g["r"])
        pieces = []         # (kind, data) in order
        off = 0
        one = m.fast or m.ascii
        for q in m.plots:
            fast = m.fast and not q.complex
            real_hdr = q.header(q.n)
            first = {"planned": q.n, "running": 0, "running_early": 0, "zero": 0}[g["mode"]]
            if fast or one:
                first = q.n
            h = q.header(first)
            pos = off + h.index("No. Points: ".encode(m.encoding))
            plen = len(("No. Points: %12d" % 0).encode(m.encoding))
            if g["head_cut"]:
                k = rng.randrange(1, len(h))
                pieces.append(("data", h[:k]))
                pieces.append(("data", h[k:]))
            else:
                pieces.append(("data", h))
            body = q.body()
            n = max(1, min(g["chunks"], q.n))
            if fast or m.ascii or g["unit"] == "bytes":
                cuts = sorted({rng.randrange(0, len(body) + 1) for _ in range(n)} | {len(body)})
                if m.ascii:
                    cuts = sorted({self.number_edge(body, c) for c in cuts})
            else:
                cuts = sorted({q.record * rng.randrange(0, q.n + 1) for _ in range(n)} | {len(body)})
            prev = 0
            for c in cuts:
                if c == prev:
                    continue
                cnt = ("No. Points: %12d" % (c // q.record)).encode(m.encoding) if not one else None
                if cnt and g["mode"] == "running_early":
                    pieces.append(("patch", (pos, cnt)))
                pieces.append(("data", body[prev:c]))
                if cnt and g["mode"] == "running":
                    pieces.append(("patch", (pos, cnt)))
                prev = c
            if not one:
                pieces.append(("patch", (pos, ("No. Points: %12d" % q.n).encode(m.encoding))))
            assert plen == len(("No. Points: %12d" % q.n).encode(m.encoding))
            off += len(real_hdr) + len(body)
        if m.tail:
            pieces.append(("data", m.tail))
        dt = g["dur"] / max(1, len(pieces))

        def step(i):
            k, d = pieces[i]
            if k == "data":
                disk.write_file(self.path, d, "ab" if i else "wb")
            else:
                self.patch(*d)
            if i + 1 < len(pieces):
                sim.after(dt * rng.choice([0.2, 1, 1, 2]), lambda: step(i + 1))
            else:
                self.grown = True
        self.grown = False
        sim.after(rng.choice([0.0, 0.1, 0.5]), lambda: step(0))
        if g["log"] == "grow" and m.plots[0].stepped:
            st = [m.log_head()] + [m.step_line(k, len(m.plots[0].steps)) for k in range(len(m.plots[0].steps))] + ["\nTotal elapsed time: 0.021 seconds.\n"]
            lt = g["dur"] / len(st)
            for i, s in enumerate(st):
                sim.after(lt * i, lambda s=s: disk.write_file(self.logpath, s.encode(), "ab"))
        self.col.hit("growing_file")

    @staticmethod
    def number_edge(body, c):
        num = b"0123456789.+-e"
        while 0 < c < len(body) and body[c - 1:c] in num and body[c:c + 1] in num:
            c += 1
        return c

    # ---------------------------------------------------------------- reading
    def scenario_read(self):
        p = self.plan
        self.model = rawmodel.Model(p["model"])
        self.sim.rec("file", tok=self.layout())
        self.put()
        ws = []
        for i, r in enumerate(p["readers"]):
            ws.append(common.Worker(self.sim, "reader%d" % i, lambda r=r, i=i: self.reader(i, r)))
        for w in ws:
            if not w.join():
                self.col.bad(self.prop, "reader-stuck", "reading never returned")
            if w.exc:
                if not w.blamed:
                    raise core.HarnessError(w.exc)
                self.col.bad(self.prop, "unexpected-exception", w.exc[-600:])
        # S03: after every fault is over, a new reader sees everything
        if self.prop == "S03" and p.get("fate", "keep") == "keep":
            self.faults(False)
            m = self.model
            rd = self.open_reader({"open": None, "path": "str"})
            if isinstance(rd, Exception):
                self.col.bad("S03", "complete-file-refused", "a complete, healthy file cannot be opened: %r" % rd)
            else:
                self.read_all(rd, "fresh")
        if self.prop == "S01" and p.get("grow"):
            end = self.sim.now + 100
            while not self.grown and self.sim.now < end:
                self.sim.sleep(1.0)

    def layout(self):
        """What the file looks like, for telling cases apart."""
        p = self.plan
        m = p["model"]
        how = "cut %s" % p["cut"] if isinstance(p.get("cut"), str) else "cut %.1f" % p["cut"] if p.get("cut") is not None else \
            "grow %s/%s" % (p["grow"]["mode"], p["grow"]["unit"]) if p.get("grow") else "whole"
        return "|".join([how, p["log"]] + [str(m.get(k)) for k in sorted(m) if k not in ("plots", "seed") and not isinstance(m[k], float)]
                        + ["%s/%s/%s" % (q.get("kind"), q.get("nvars"), bool(q.get("stepped"))) for q in m["plots"]])

    def read_all(self, rd, who):
        for pi, q in enumerate(self.model.plots):
            for vi in range(len(q.names)):
                for st in range(len(q.steps)):
                    if not q.has_axis and st:
                        continue
                    self.access(rd, {"op": "wave", "plot": pi, "var": vi, "step": st, "case": "", "n": 0.5, "cols": None, "all": True}, who, must=True)

    def open_reader(self, r):
        from spicelib.raw.raw_read import RawRead
        m = self.model
        o = r["open"]
        t = o
        if isinstance(o, dict):
            names = [m.plots[0].names[i] for i in o["idx"]]
            t = {"list": names, "tuple": tuple(names), "str": ", ".join(names)}[o["as"]]
            if o["as"] == "str" and any("," in n for n in names):
                t = names
        path = self.path
        if r["path"] == "path":
            from pathlib import Path
            path = Path(path)
        dialect = "xyce" if m.dialect == "xyce" else None
        if r.get("dialect"):
            dialect = {"own": m.dialect, "upper": m.dialect.upper(), "empty": dialect or ""}[r["dialect"]]
        try:
            return RawRead(path, traces_to_read=t, dialect=dialect, verbose=False)
        except Exception as e:
            self.sim.rec("open_failed", exc=type(e).__name__)
            return e

    def reader(self, i, r):
        sim = self.sim
        sim.sleep(r["at"])
        who = "reader%d" % i
        f0 = self.fired()
        late = self.prop == "S03" and self.plan.get("arm") == "opened"
        if late and i == 0:
            self.faults(False)
        rd = self.open_reader(r)
        if late and i == 0:
            self.faults(True)
        if isinstance(rd, Exception):
            # S03: an undisturbed open of a complete file must succeed
            if self.prop == "S03" and self.fired() == f0 and "fate_done" not in self.__dict__:
                self.col.bad("S03", "complete-file-refused", "a complete file cannot be opened: %r" % rd)
            self.col.hit("open_raised")
            if not r["reopen"]:
                return
            sim.sleep(0.5)
            f0 = self.fired()
            rd = self.open_reader(r)
            if isinstance(rd, Exception):
                if self.prop == "S03" and self.fired() == f0 and "fate_done" not in self.__dict__:
                    self.col.bad("S03", "complete-file-refused", "a complete file cannot be opened: %r" % rd)
                return
        sim.rec("opened", plots=rd.get_nr_plots(), n=rd.nPoints)
        if self.prop == "S03" and i == 0:
            self.kept_reader = rd
        eager = r["open"] == "*"
        fate = self.plan.get("fate", "keep")
        if self.prop == "S03" and fate != "keep" and len(self.plan["readers"]) == 1:
            if eager and not self.plan["disk"]:
                # everything was read: what happens to the file afterwards does not matter
                self.fate_done = True
                if fate == "delete":
                    disk.REAL["unlink"](self.path)
                else:
                    import copy
                    other = copy.deepcopy(self.plan["model"])
                    for q in other["plots"]:
                        q["vseed"] = q["vseed"] + 77
                        q["wild"] = True
                    disk.write_file(self.path, rawmodel.Model(other).bytes())
                self.col.hit("file_gone_after_eager_open")
        for o in r["ops"]:
            if o["gap"]:
                sim.sleep(o["gap"])
            for _ in range(1 + (o.get("retry", 0) if self.prop == "S03" else 0)):
                if self.access(rd, o, who) is not False:
                    break

    # ---- expectations
    def slices(self, plot, n):
        """[(lo, hi)] of the steps visible among the first n points."""
        q = plot
        if not q.stepped or not q.has_axis:
            return [(0, n)]
        out = []
        for s, c in zip(q.starts, q.steps):
            if s < n:
                out.append((s, min(s + c, n)))
        return out

    def check_array(self, got, q, name, lo, hi, what, absolute=False):
        exp = q.expect(name, lo, hi)
        if absolute:
            exp = np.abs(exp)
        f4 = exp.dtype == np.dtype("f4")
        if name in q.aliases:
            got2 = np.asarray(got)
            if got2.shape != exp.shape or not np.allclose(got2, exp, rtol=1e-12, atol=0):
                raise Bad("wrong-alias", "%s of alias %s: %s instead of %s" % (what, name, brief(got), brief(exp)))
            return
        if not close_enough(got, exp, f4):
            raise Bad("wrong-values", "%s of %s: got %s, the simulator wrote %s" % (what, name, brief(got), brief(exp)))

    def access(self, rd, o, who, must=False):
        sim = self.sim
        m = self.model
        if o["plot"] >= rd.get_nr_plots():
            if self.prop == "S03" and o["plot"] < len(m.plots):
                self.col.bad("S03", "plot-missing", "the complete file has %d plots, the reader shows %d" % (len(m.plots), rd.get_nr_plots()))
                return
            if rd.get_nr_plots() == 0:
                # nothing there: no getter may invent a value
                for nm, f in (("get_wave", lambda: rd.get_wave(m.plots[0].names[0])), ("get_axis", lambda: rd.get_axis()),
                              ("get_trace", lambda: rd.get_trace(0)), ("get_time_axis", lambda: rd.get_time_axis())):
                    try:
                        v = f()
                    except Exception:
                        continue
                    if np.asarray(v).size:
                        self.col.bad(self.prop, "value-from-nothing", "%s of a file without any plot returns %r" % (nm, v))
                self.col.hit("no_plot")
            return
        q = m.plots[o["plot"]]
        pl = rd.plots[o["plot"]] if o["plot"] or o["all"] else rd
        f0 = self.fired()
        log_ok = self.prop == "S03" and self.plan["log"] == "full"
        ok = True
        try:
            n = rd.plots[o["plot"]].nPoints
            if n > q.n:
                raise Bad("too-many-points", "%d points announced, the simulator ever writes %d" % (n, q.n))
            self.one(pl, rd.plots[o["plot"]], q, o, n, log_ok)
            self.col.hit("read_ok")
        except Bad as e:
            self.col.bad(self.prop, e.key, "%s: %s [%s, %s%s, open=%r, op=%s]" % (
                who, e, m.dialect, "ascii " if m.ascii else "fast " if m.fast else "", q.kind + (" stepped" if q.stepped else ""),
                self.plan["readers"][0]["open"] if self.plan["readers"] else None, o["op"]))
        except Exception as e:
            sim.rec("read_failed", exc=type(e).__name__, op=o["op"], tok=o["op"])
            self.col.hit("read_raised")
            ok = False
            if self.prop == "S03" and (self.fired() == f0 or must):
                import traceback
                self.col.bad("S03", "read-refused", "%s: %s on a complete file raises although nothing failed: %s" % (
                    who, o["op"], traceback.format_exc()[-500:]))
        finally:
            sim.rec("access", op=o["op"], tok=o["op"])
        return ok

    def one(self, pl, raw_plot, q, o, n, log_ok):
        names = q.names
        name = names[o["var"]]
        sl = self.slices(q, n)
        st = o["step"]
        op = o["op"]
        if op == "alias" and not q.aliases:
            op = "wave"
        if op == "time" and q.names[0] != "time":
            op = "axis"
        if not q.has_axis:
            st = 0
        if st >= len(sl):
            st = len(sl) - 1
        lo, hi = sl[st]
        ref = name
        if o["case"]:
            ref = getattr(name, o["case"])()
        is_ax = q.has_axis and o["var"] == 0
        neg = is_ax and name == "time"
        if op == "wave":
            self.check_array(pl.get_wave(ref, st), q, name, lo, hi, "get_wave(step %d)" % st, neg)
        elif op == "idx":
            self.check_array(pl.get_wave(o["var"], st), q, name, lo, hi, "get_wave by index (step %d)" % st, neg)
        elif op == "trace":
            t = pl.get_trace(ref)
            if t.name != name:
                raise Bad("wrong-trace", "asked for %s, got %s" % (ref, t.name))
            if t.whattype != q.types[o["var"]]:
                raise Bad("wrong-type", "%s is a %s, got %s" % (ref, q.types[o["var"]], t.whattype))
            self.check_array(t.get_wave(st) if q.has_axis else t.get_wave(), q, name, lo, hi, "trace.get_wave(%d)" % st, neg)
            self.check_array(t.data, q, name, 0, n, "trace.data")
        elif op in ("axis", "time"):
            if not q.has_axis:
                try:
                    pl.get_axis(st)
                except Exception:
                    return
                raise Bad("axis-invented", "get_axis returns something for a plot without an axis")
            got = pl.get_axis(st) if op == "axis" else pl.get_time_axis(st)
            self.check_array(got, q, names[0], lo, hi, "get_axis(%d)" % st, names[0] == "time")
        elif op == "len":
            g = pl.get_len(st)
            if g != hi - lo:
                raise Bad("wrong-length", "get_len(%d) is %r, the step has %d points" % (st, g, hi - lo))
        elif op == "trlen":
            t = pl.get_trace(name)
            if q.has_axis:
                g = t.get_len(st)
                if g != hi - lo:
                    raise Bad("wrong-length", "get_trace(%s).get_len(%d) is %r, the step has %d points" % (name, st, g, hi - lo))
            if not q.stepped:
                if len(t) != n:
                    raise Bad("wrong-length", "len() is %d instead of %d" % (len(t), n))
        elif op == "point":
            t = pl.get_trace(name)
            k = int(o["n"] * (hi - lo))
            if q.has_axis:
                g = t.get_point(k, st)
                self.check_array([g], q, name, lo + k, lo + k + 1, "get_point(%d, %d)" % (k, st))
            elif q.stepped:
                s2 = min(o["step"], n - 1)
                self.check_array([t.get_point(0, s2)], q, name, s2, s2 + 1, "get_point(0, %d)" % s2)
        elif op == "pointat":
            if not q.has_axis or is_ax or q.complex or q.kind == "dc" or q.dtypes[o["var"]] == "c16":
                return
            t = pl.get_trace(name)
            x = np.abs(q.expect(names[0], lo, hi)) if names[0] == "time" else q.expect(names[0], lo, hi)
            if len(x) < 2 or np.any(np.diff(x) <= 0):
                return
            k = int(o["n"] * (len(x) - 1))
            f = 0.5 if o["gap"] == 0 else 0.0
            y = q.expect(name, lo, hi).astype("f8")
            tt = float(x[k] + f * (x[k + 1] - x[k]))
            want = y[k] + f * (y[k + 1] - y[k])
            got = t.get_point_at(tt, st)
            if not np.isclose(got, want, rtol=1e-5, atol=1e-5 * (abs(y[k]) + abs(y[k + 1]))):
                raise Bad("wrong-values", "get_point_at(%r, step %d) of %s is %r, the stored points give %r" % (tt, st, name, got, want))
        elif op == "steps":
            g = list(pl.get_steps())
            k = len(sl) if q.has_axis else (n if q.stepped else 1)
            if not q.stepped:
                if g != [0]:
                    raise Bad("wrong-steps", "get_steps() is %r for a file without steps" % g)
            elif self.prop == "S03":
                if g != list(range(k)):
                    raise Bad("wrong-steps", "get_steps() is %r, the file holds %d steps" % (g, k))
                if log_ok and self.fired() == 0:
                    w = st if q.has_axis else o["step"]
                    r = list(pl.get_steps(res=w + 1))
                    if r != [w]:
                        raise Bad("wrong-steps", "get_steps(res=%d) is %r instead of %r" % (w + 1, r, [w]))
        elif op == "props":
            want = names + list(q.aliases)
            for what, g, e in (("get_trace_names()", list(pl.get_trace_names()), want), ("nVariables", pl.nVariables, len(names)),
                               ("get_plot_name()", pl.get_plot_name(), rawmodel.KINDS[q.kind]), ("flags", list(pl.flags), q.flags().split()),
                               ("Title", pl.get_raw_property("Title"), "* dst model file"), ("Plotname", pl.get_raw_property("Plotname"), rawmodel.KINDS[q.kind]),
                               ("properties", pl.get_raw_properties()["Date"], pl.get_raw_property()["Date"]), ("has_axis", pl.has_axis, q.has_axis)):
                if g != e:
                    raise Bad("wrong-property", "%s is %r instead of %r" % (what, g, e))
            if self.prop == "S03" and o["all"]:
                g = list(self.kept_reader.get_plot_names()) if getattr(self, "kept_reader", None) else None
                if g is not None and g != [rawmodel.KINDS[x.kind] for x in self.model.plots]:
                    raise Bad("wrong-property", "get_plot_names() is %r" % g)
        elif op == "nosuch":
            for what, f, kinds in (("trace V(nosuch)", lambda: pl.get_wave("V(nosuch)", st), IndexError), ("trace number %d" % len(want_traces(q)),
                                   lambda: pl.get_trace(len(want_traces(q)) + 3), IndexError),
                                   ("property Nosuch", lambda: pl.get_raw_property("Nosuch"), ValueError)):
                try:
                    v = f()
                except kinds:
                    continue
                raise Bad("value-from-nothing", "%s, which the file doesn't have, gives %r" % (what, v))
        elif op == "alias":
            a = sorted(q.aliases)[0]
            self.check_array(pl.get_wave(a, st), q, a, lo, hi, "get_wave(step %d)" % st)
        elif op == "iter":
            t = pl.get_trace(name)
            if not q.stepped:
                self.check_array(list(t), q, name, 0, n, "iteration")
                self.check_array([t[int(o["n"] * n)]], q, name, int(o["n"] * n), int(o["n"] * n) + 1, "indexing")
        elif op in ("export", "csv"):
            cols = None if o["cols"] is None else [names[c] for c in o["cols"]]
            step = st if o["n"] < 0.5 and q.has_axis else -1
            cond = {}
            if step == -1 and o["gap"] and q.has_axis and len(sl) > 1:      # a list of steps, or the steps that meet a condition
                r = random.Random("%s%s" % (o["n"], o["var"]))
                step = [r.randrange(len(sl)) for _ in range(r.choice([1, 2, 3]))]
                if log_ok and op == "export" and self.fired() == 0 and r.random() < 0.3:
                    cond, step = {"res": step[0] + 1}, step[:1]
            want_cols = list(cols) if cols is not None else names + sorted(q.aliases, key=list(q.aliases).index)
            if q.has_axis and names[0] not in want_cols:
                want_cols.insert(0, names[0])
            rng_ = [sl[x] for x in step] if isinstance(step, list) else [(lo, hi)] if step >= 0 else (sl if q.has_axis else [(0, n)])
            if op == "export":
                d = pl.export(columns=cols, **(cond or {"step": step}))
                if sorted(d) != sorted(want_cols):
                    raise Bad("wrong-columns", "export gives columns %r instead of %r" % (sorted(d), sorted(want_cols)))
                for c in want_cols:
                    exp = np.concatenate([q.expect(c, a, b) for a, b in rng_])
                    if c == "time":
                        exp = np.abs(exp)
                    g = np.asarray(d[c])
                    if c in q.aliases:
                        if g.shape != exp.shape or not np.allclose(g, exp, rtol=1e-12, atol=0):
                            raise Bad("wrong-alias", "export of alias %s: %s instead of %s" % (c, brief(g), brief(exp)))
                    elif not close_enough(g, exp, exp.dtype == np.dtype("f4")):
                        raise Bad("wrong-values", "export of %s: %s, the simulator wrote %s" % (c, brief(g), brief(exp)))
            else:
                f = os.path.join(self.scratch, "x%d.csv" % self.sim.step)
                pl.to_csv(f, columns=cols, step=step, separator=";")
                rows = disk.read_file(f).decode().splitlines()
                tot = sum(b - a for a, b in rng_)
                if len(rows) != tot + 1:
                    raise Bad("wrong-csv", "the CSV has %d data rows instead of %d" % (len(rows) - 1, tot))
                head = rows[0].split(";")
                for c in want_cols:
                    k = head.index(c)
                    exp = np.concatenate([q.expect(c, a, b) for a, b in rng_])
                    if c == "time":
                        exp = np.abs(exp)
                    got = np.array([complex(r.split(";")[k].strip("()")) for r in rows[1:]])
                    if not np.allclose(got, exp, rtol=1e-6 if exp.dtype == np.dtype("f4") else 1e-12, atol=0):
                        raise Bad("wrong-csv", "CSV column %s: %s instead of %s" % (c, brief(got), brief(exp)))

    # ---------------------------------------------------------------- writing
    def scenario_write(self):
        from spicelib.raw.raw_write import RawWrite, Trace
        from spicelib.raw.raw_read import RawRead
        p, sim = self.plan, self.sim
        w = p["write"]
        rng = random.Random("write%d" % w["seed"])
        self.faults(False)
        self.want = []          # (name, whattype, data as held by the trace object, numerical type)
        kind = w["kind"]
        sim.rec("write", tok="|".join([kind, str(w["numtype"]), str(w["fast"]), str(w["enc"]), str(bool(w["src"])), str(min(w["n"], 9)),
                                       " ".join(str(t.get("numtype")) for t in w.get("traces", ()))]))
        lw = RawWrite(plot_name=rawmodel.KINDS[kind] if w["plot_name"] or kind == "op" else None, fastacces=w["fast"], numtype=w["numtype"], encoding=w["enc"])
        n = w["n"]

        def val(i, wild):
            if wild:
                return [rng.gauss(0, 1) * 10.0 ** rng.randint(-9, 9) for _ in range(n)]
            return [(i * 1000 + j + 1) * 0.25 for j in range(n)]

        def cont(v, how):
            if how == "list":
                return list(v)
            if how == "tuple":
                return tuple(v)
            return np.array(v, dtype=how)

        def add(i, t):
            v = val(i + 1, t["wild"])
            nt = t["numtype"]
            if kind == "ac":
                v = [complex(a, -a / 2) for a in v]
                nt = "complex" if nt in ("real", "double") else nt
            given = cont(v, t["as"])
            tr = Trace("V(n%03d)" % i, given, whattype=t["what"], numerical_type=nt)
            if not np.array_equal(np.asarray(tr.data), np.asarray(given, dtype=tr.data.dtype)):
                self.col.bad("S02", "trace-wrong", "Trace holds %s for %s" % (brief(tr.data), brief(v)))
            lw.add_trace(tr)
            self.want.append((tr.name, tr.whattype, np.array(tr.data), tr.numerical_type))

        if w["src"] is None:
            if kind == "tran":
                ax = Trace("time", [j * 0.125 for j in range(n)], numerical_type=w["axnum"])
            elif kind in ("ac", "noise"):
                v = [10.0 * (j + 1) for j in range(n)]
                ax = Trace("frequency", [complex(a) for a in v] if kind == "ac" else v, numerical_type=w["axnum"])
            else:
                ax = Trace("v1", [0.5 * j + 0.25 for j in range(n)], whattype=w.get("axis", "voltage"), numerical_type=w["axnum"])
            lw.add_trace(ax)
            self.want.append((ax.name, ax.whattype, np.array(ax.data), ax.numerical_type))
            for i, t in enumerate(w["traces"]):
                add(i, t)
        else:
            self.model = m = rawmodel.Model(w["src"])
            path = os.path.join(self.scratch, "src" + m.suffix())
            disk.write_file(path, m.bytes())
            disk.write_file(os.path.join(self.scratch, "src.log"), m.log())
            q = m.plots[0]
            rd = RawRead(path, dialect="xyce" if m.dialect == "xyce" else None, verbose=False)
            st = w["src_step"]
            if not q.has_axis:
                return self.col.hit("op_source_skipped")
            names = [q.names[i] for i in w["src_vars"]]
            kw = {} if w["tag"] is None else {"add_tag": w["tag"]}
            new = lambda x: x if w["tag"] is None else x[:-1] + "_%s)" % w["tag"] if x[1] == "(" else x + "_" + w["tag"]
            lw.add_traces_from_raw(rd, names, step=st, **kw)
            lo, hi = q.starts[st], q.starts[st] + q.steps[st]
            axd = q.expect(q.names[0], lo, hi)
            self.want.append((q.names[0], q.types[0], np.abs(axd) if q.names[0] == "time" else np.array(axd), None))

            def took(names, st, new):
                a = q.starts[st]
                for nm in names:
                    self.want.append((new(nm), q.types[q.names.index(nm)], np.array(q.expect(nm, a, a + q.steps[st])), None))
            took(names, st, new)
            for j, o in enumerate(w.get("more") or []):      # further traces, from this step or others, under names of their own
                st2, names = o["step"], list(dict.fromkeys(q.names[i] for i in o["vars"]))
                if o["as"] == "str":
                    names = names[:1]
                inner = lambda x: (x[:2], x[2:-1], ")") if x[1] == "(" and x[0] in "IViv" else ("", x, "")
                wrap = lambda f: lambda x: inner(x)[0] + f(inner(x)[1]) + inner(x)[2]
                kw, new = {"tag": ({"add_tag": "m%d" % j}, wrap(lambda x: "%s_m%d" % (x, j))),
                           "fmt": ({"rename_format": "{}_{run}", "run": j}, wrap(lambda x: "%s_%d" % (x, j))),
                           "fmt2": ({"rename_format": "p{run:02d}:{}", "run": j}, wrap(lambda x: "p%02d:%s" % (j, x))),
                           "both": ({"rename_format": "{}-%d" % j, "add_tag": "ignored"}, wrap(lambda x: "%s-%d" % (x, j)))}[o["how"]]
                arg = names[0] if o["as"] == "str" else tuple(names) if o["as"] == "tuple" else names
                try:
                    lw.add_traces_from_raw(rd, arg, step=st2, **kw)
                except AssertionError:
                    if q.steps[st2] == q.steps[st]:
                        self.col.bad("S02", "copy-refused", "traces of step %d can't be added to those of step %d" % (st2, st))
                    continue
                if q.steps[st2] != q.steps[st]:
                    self.col.bad("S02", "copy-accepted", "traces with %d points were added to those with %d" % (q.steps[st2], q.steps[st]))
                    return
                took(names, st2, new)
                self.col.hit("copied_more")
            n = hi - lo
            kind = q.kind
        if w.get("wrong"):          # a trace of another length is refused
            bad = Trace("V(wrong)", [1.0] * (n + 1))
            try:
                lw.add_trace(bad)
                self.col.bad("S02", "copy-accepted", "a trace with %d points was added to those with %d" % (n + 1, n))
            except IndexError:
                pass
            for x in ("V(wrong)", "V(nosuch)"):
                try:
                    lw.get_trace(x)
                    self.col.bad("S02", "trace-wrong", "get_trace(%r) of a writer returns something" % x)
                except IndexError:
                    pass
            for i, (nm, wt, data, nt) in enumerate(self.want):
                for t in (lw.get_trace(nm), lw[nm], lw[i], lw.get_trace(i)):
                    if t.name != nm or t.whattype != wt or not np.array_equal(np.asarray(t.data), data):
                        self.col.bad("S02", "trace-wrong", "%r of a writer is %s, %s, expected %s" % (nm, t.name, brief(np.asarray(t.data)), brief(data)))
        self.saved = {}
        pre = b"previous content of the target\n"
        extra = 0
        self.faults(True)
        ok_sizes = {}
        for o in p["prog"]:
            if o["op"] == "fast":
                lw.flag_fastaccess = not lw.flag_fastaccess
            elif o["op"] == "gc":
                import gc
                gc.collect()
            elif o["op"] == "add":
                if w["src"] is None or kind != "ac":
                    extra += 1
                    self.faults(False)
                    add(900 + extra, {"wild": o["wild"], "numtype": o["numtype"], "as": "list", "what": "voltage"})
                    self.faults(True)
            else:
                path = os.path.join(self.scratch, o["name"])
                f0 = self.fired()
                if p["pre"] and not os.path.exists(path):
                    disk.write_file(path, pre)
                try:
                    lw.save(path)
                    failed = None
                except Exception as e:
                    failed = e
                sim.rec("saved", ok=failed is None, tok="%s %s" % (o["name"], failed is None), exc=type(failed).__name__ if failed else None)
                if failed is not None:
                    self.col.hit("save_raised")
                    if self.fired() == f0:
                        import traceback
                        self.col.bad("S02", "save-refused", "save raises although the disk is healthy: %s" %
                                     "".join(traceback.format_exception(failed))[-500:])
                    # the user keeps the exception and tries again when there is room
                    self.kept = getattr(self, "kept", []) + [failed]
                    self.faults(False)
                    lw.save(path)
                    self.faults(True)
                    self.col.hit("retried_save")
                self.kept_pending = path
                if len(self.kept_list) >= 1 and rng.random() < 0.5:
                    self.kept.clear()
                    failed = None
                    import gc
                    gc.collect()
                self.verify(path, RawRead, kind, n)
                self.saved[o["name"]] = disk.read_file(path)
        self.kept_list.clear()
        failed = None
        import gc
        gc.collect()
        for nm, data in self.saved.items():
            if disk.read_file(os.path.join(self.scratch, nm)) != data:
                self.col.bad("S02", "changed-after-return", "%s changes after save() returned" % nm)

    @property
    def kept_list(self):
        if not hasattr(self, "kept"):
            self.kept = []
        return self.kept

    def verify(self, path, RawRead, kind, n):
        self.faults(False)
        try:
            try:
                rd = RawRead(path, verbose=False)
                names = rd.get_trace_names()
                want = [x[0] for x in self.want]
                if names != want:
                    return self.col.bad("S02", "names-differ", "written %r, read back %r" % (want, names))
                if rd.nPoints != n:
                    return self.col.bad("S02", "length-differs", "written %d points, read back %d" % (n, rd.nPoints))
                if rd.has_axis and (kind != "op"):
                    g = rd.get_axis()
                for i, (nm, wt, data, nt) in enumerate(self.want):
                    t = rd.get_trace(nm)
                    if t.whattype != wt:
                        self.col.bad("S02", "type-differs", "%s written as %s, read back as %s" % (nm, wt, t.whattype))
                    g = np.asarray(t.data)
                    e = data
                    if e.dtype == np.dtype("f4"):
                        same = g.shape == e.shape and np.array_equal(g.astype("f4"), e)
                    else:
                        same = g.shape == e.shape and np.array_equal(g, e)
                    if not same:
                        self.col.bad("S02", "values-differ", "%s (%s, %s, flags %s, %s): written %s, read back %s" % (
                            nm, nt, kind, rd.get_raw_property("Flags"), self.plan["write"]["src"] and "copied from " + self.model.dialect,
                            brief(e), brief(g)))
                self.col.hit("round_trip")
            except Exception as e:
                import traceback
                self.col.bad("S02", "unreadable", "the saved file cannot be read: %s" % traceback.format_exc()[-600:])
        finally:
            self.faults(True)


def want_traces(q):
    return q.names + list(q.aliases)


def brief(a):
    a = np.asarray(a)
    s = ", ".join("%r" % x for x in a.ravel()[:4].tolist())
    return "[%s%s] (%s)" % (s, ", ..." if a.size > 4 else "", "x".join(map(str, a.shape)))


def execute(job, scratch):
    w = World(job, scratch)
    if job["prop"] == "S02":
        status = w.sim.run(w.scenario_write)
    else:
        status = w.sim.run(w.scenario_read)
    if status in ("deadlock", "horizon", "steps"):
        w.col.bad(job["prop"], "never-ends", "the operation never ends: %s" % w.sim.detail)
    return common.result(w.sim, w.col, w.choices)
