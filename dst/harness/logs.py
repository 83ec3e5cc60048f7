"""Logs and text exports: reading them while they are cut, grow or fail (L01), exporting what was read under faults (L02)."""
import contextlib
import copy
import gc
import io
import os
import random
import sys
import numpy as np
from .. import core, disk, procs, rawmodel
from . import common, logmodel

PROPS = ["L01", "L02"]


# ================================================================ plans
def gen_plan(rng, prop, tier):
    big = tier == "thorough"
    p = {"sched": common.gen_sched(rng), "disk": [], "latency": 0.0, "prop": prop}
    if rng.random() < 0.5:
        p["latency"] = rng.choice([0.001, 0.02, 0.2])
    if prop == "L02":
        return gen_export(rng, p, big)
    kind = rng.choice(["lt", "lt", "lt", "mout", "qs", "qs", "op", "exp"])
    p["m"] = logmodel.gen(rng, kind, big)
    k = rng.random()
    if kind == "qs":
        p["rounds"] = gen_rounds(rng)
        p["mode"] = "whole"
        if k < 0.25:
            p["mode"], p["cut"] = "cut", rng.random()
    elif k < 0.3:
        p["mode"], p["cut"] = "cut", rng.choice([rng.random(), rng.random(), 1 - rng.random() * 0.1, rng.random() * 0.1, "char", "eol"])
        p["cut_r"] = rng.random()
    elif k < 0.6:
        p["mode"] = "grow"
        p["grow"] = {"chunks": rng.choice([2, 4, 8, 25]), "dur": round(rng.uniform(0.05, 4), 3), "unit": rng.choice(["bytes", "bytes", "lines"]),
                     "r": rng.randint(0, 1 << 30)}
    else:
        p["mode"] = "whole"
    p["readers"] = []
    for i in range(rng.choice([1, 1, 2, 3]) if kind != "qs" else 1):
        p["readers"].append({"at": round(rng.uniform(0, 4 if p["mode"] == "grow" else 0.3), 3), "path": rng.choice(["str", "path"]),
                             "enc": rng.random() < 0.25, "meas": rng.random() < 0.85, "again": rng.choice([0, 1, 3]),
                             "ops": [gen_op(rng) for _ in range(rng.choice([3, 6, 12]))]})
        if kind == "qs" and p["mode"] == "cut":     # QPOST needs a finished simulation
            p["readers"][-1]["meas"] = False
    if rng.random() < 0.35:
        p["disk"] = [{"op": rng.choice(["openr", "read", "read"]), "match": rng.choice(["run.", ".log", ".meas" if kind == "qs" else "run."]),
                      "nth": rng.choice([1, 1, 2, 3, 4, 5]), "count": rng.choice([1, 1, 2, 6]),
                      "kind": rng.choice(["EIO", "EIO", "EMFILE", "EACCES", "short"])} for _ in range(rng.choice([1, 1, 2]))]
        for r in p["disk"]:
            if r["op"] == "openr" and r["kind"] == "short":
                r["kind"] = "EMFILE"
            if r["kind"] == "short":
                r["count"] = rng.choice([1, 3, 12])
    return p


def gen_rounds(rng):
    return [{"out": rng.choice(["ok", "ok", "ok", "ok", "fail", "crash", "noexec", "nothing"]), "dur": round(rng.uniform(0.05, 2), 3),
             "chunks": rng.choice([1, 2, 5]), "salt": i, "at": rng.random()} for i in range(rng.choice([1, 2, 2, 3]))]


def gen_op(rng):
    return {"op": rng.choice(["value", "value", "value", "cond", "steps", "item", "at", "at", "stat", "names", "split", "missing"]),
            "r": rng.randint(0, 1 << 30), "gap": rng.choice([0, 0, 0.01])}


def gen_export(rng, p, big):
    kind = rng.choice(["lt", "lt", "lt", "qs", "exp", "exp", "mout", "raw", "raw"])
    p["mode"] = "whole"
    if kind == "raw":
        m = rawmodel.gen_model(rng, small=True, multi=False)
        if rng.random() < 0.6:
            m["plots"][0]["vseed"] = rng.randint(0, 99)
        p["m"] = {"kind": "raw"}
        p["raw"] = m
        n = m["plots"][0]["nvars"]
        p["prog"] = [{"op": "convert", "traces": [rng.choice(["name", "bare", "bare", "none"]) + ":%d" % rng.randrange(n) for _ in range(rng.choice([0, 1, 1, 2, 3]))],
                      "out": rng.choice(["stdout", "csv", "csv"]), "sep": rng.choice([None, ";", "|"])} for _ in range(rng.choice([1, 2]))]
    else:
        p["m"] = logmodel.gen(rng, kind, big)
        for m in p["m"].get("meas", []):
            m["fail"] = False
        p["rounds"] = [{"out": "ok", "dur": 0.1, "chunks": 1, "salt": 0, "at": 0.5}]
        p["prog"] = []
        for i in range(rng.choice([1, 2, 3, 5])):
            if kind == "exp":
                p["prog"].append({"op": rng.choice(["reformat", "tool"])})
                continue
            what = rng.choice(["export", "export", "append", "append", "tool"]) if kind != "qs" else rng.choice(["export", "append", "append"])
            if kind == "mout" and rng.random() < 0.5:
                what = "tool"
            p["prog"].append({"op": what, "prefix": rng.choice(["run %d", "R%d=1k", "n%d"]) % i, "sep": rng.choice([None, None, ";", "|"]),
                              "nl": rng.choice([None, None, None, "\r\n"]), "enc": rng.choice([None, None, "utf-8"]),
                              "split": rng.random() < 0.3, "hold": rng.random() < 0.5})
    if rng.random() < 0.6:
        p["disk"] = [{"op": rng.choice(["open", "write", "write", "write", "close"]), "match": rng.choice(["out", "out", "_fourier", ".t", ""]),
                      "nth": rng.choice([1, 1, 2, 3, 5]), "count": rng.choice([1, 1, 2, 40]),
                      "kind": rng.choice(["ENOSPC", "ENOSPC", "EIO", "short", "EACCES"])} for _ in range(rng.choice([1, 1, 2]))]
        for r in p["disk"]:
            if r["kind"] == "short" and r["op"] != "write":
                r["kind"] = "EIO"
            if r["op"] == "write" and rng.random() < 0.4:
                r["torn"] = round(rng.random(), 2)
        if rng.random() < 0.3:
            p["disk"].append({"op": rng.choice(["openr", "read"]), "match": rng.choice(["run", "model"]), "nth": rng.choice([1, 2, 3]), "count": 1,
                              "kind": "EIO"})
    p["buffer"] = rng.choice([None, None, 64, 300])
    p["pre"] = rng.random() < 0.4
    return p


def shrink(plan):
    def cut(path):
        q = copy.deepcopy(plan)
        d = q
        for k in path[:-1]:
            d = d[k]
        del d[path[-1]]
        return q
    for i in range(len(plan["disk"])):
        yield cut(["disk", i])
    for key in ("readers", "prog", "rounds"):
        v = plan.get(key) or []
        if len(v) > 1:
            for i in range(len(v) - 1, -1, -1):
                yield cut([key, i])
    for i, r in enumerate(plan.get("readers", [])):
        for j in range(len(r["ops"]) - 1, -1, -1):
            yield cut(["readers", i, "ops", j])
        if r["again"]:
            q = copy.deepcopy(plan)
            q["readers"][i]["again"] = 0
            yield q
    m = plan["m"]
    for key in ("meas", "four", "steps", "types"):
        for i in range(len(m.get(key) or []) - 1, -1, -1):
            if key == "types" and len(m[key]) < 2:
                continue
            yield cut(["m", key, i])
    for key, v in (("noise", False), ("bare", False), ("enc", "utf-8"), ("nl", "\n")):
        if m.get(key) not in (None, v):
            q = copy.deepcopy(plan)
            q["m"][key] = v
            yield q
    if m.get("ver") not in (None, "old"):
        q = copy.deepcopy(plan)
        q["m"]["ver"] = "old"
        yield q
    if m.get("points", 1) > 1:
        q = copy.deepcopy(plan)
        q["m"]["points"] = m["points"] // 2
        yield q
    if plan["latency"]:
        q = copy.deepcopy(plan)
        q["latency"] = 0.0
        yield q
    if plan.get("buffer"):
        q = copy.deepcopy(plan)
        q["buffer"] = None
        yield q
    g = plan.get("grow")
    if g and g["chunks"] > 2:
        q = copy.deepcopy(plan)
        q["grow"]["chunks"] = g["chunks"] // 2
        yield q


# ================================================================ QPOST
class Qpost:
    """QSPICE's post-processor: reads the netlist's results, writes the measurements."""

    def __init__(self, popen, world):
        self.p = popen
        self.w = world
        self.sim = popen.sim
        self.tok = None
        self.dead = False

    def start(self):
        a = self.p.argv
        self.out = a[a.index("-o") + 1] if "-o" in a else None
        self.sim.rec("qpost", netlist=os.path.basename(a[1]) if len(a) > 1 else None)
        r = self.w.round
        if self.out is None or not os.path.exists(a[1]):
            self.sim.after(0.01, lambda: self.p.exit(1))
            return
        data = self.w.model.measfile.bytes()
        if r["out"] in ("fail", "nothing"):
            self.sim.after(r["dur"], lambda: self.p.exit(1 if r["out"] == "fail" else 0))
            return
        if r["out"] == "crash":
            data = data[:int(len(data) * r["at"])]
        n = r["chunks"]
        for i in range(n):
            piece = data[len(data) * i // n:len(data) * (i + 1) // n]
            self.sim.after(r["dur"] * (i + 1) / (n + 1), lambda d=piece, i=i: None if self.dead else disk.write_file(self.out, d, "ab" if i else "wb"))

        def fin():
            self.dead = True
            self.p.exit(0 if r["out"] == "ok" else -11)
        self.sim.after(r["dur"], fin)

    def killed(self, sig):
        self.dead = True
        self.p.exit(-sig)


class Bad(Exception):
    def __init__(self, key, msg):
        super().__init__(msg)
        self.key = key


# ================================================================ execution
class World:
    def __init__(self, job, scratch):
        self.plan = job["plan"]
        self.prop = job["prop"]
        self.scratch = scratch
        disk.configure(scratch, [dict(r) for r in self.plan["disk"]], self.plan["latency"])
        disk.BUFFER = self.plan.get("buffer")
        self.choices = common.make_choices(job)
        self.sim = core.Sim(self.choices, max_steps=3_000_000)
        self.sim.scratch = scratch
        procs.TABLE = procs.ProcTable(self.sim, self.launch)
        self.col = common.Collector(self.sim, self.prop)
        core.enable_more_lines([core.SRC + "/log/"])
        self.round = None

    def launch(self, popen):
        if self.round is not None and self.round["out"] == "noexec":
            self.sim.fault("qpost_not_started")
            raise FileNotFoundError(2, "No such file or directory", popen.argv[0])
        if self.round is not None and self.round["out"] != "ok":
            self.sim.fault("qpost_" + self.round["out"])
        return Qpost(popen, self)

    def faults(self, on):
        if disk.FAULTS is not None:
            disk.FAULTS.enabled = on

    def fired(self):
        return disk.FAULTS.fired if disk.FAULTS is not None else 0

    # ---------------------------------------------------------------- files
    def put(self):
        m, p = self.model, self.plan
        for name, f in m.files.items():
            data = f.bytes()
            path = os.path.join(self.scratch, name)
            if f is not m.main:
                disk.write_file(path, data)
                continue
            self.path = path
            if p["mode"] == "cut":
                self.cut = self.cut_at(f, data)
                disk.write_file(path, data[:self.cut])
                self.col.hit("cut_file")
                self.sim.fault("cut_file")
            elif p["mode"] == "grow":
                self.grow(f, data)
            else:
                disk.write_file(path, data)
        if m.kind == "qs":
            disk.write_file(os.path.join(self.scratch, "run.net" if p["m"]["r"] % 2 else "run.cir"), b"* circuit\n.end\n")

    def cut_at(self, f, data):
        c = self.plan["cut"]
        if c == "char":         # inside a character of several bytes, if there is one
            if f.enc.startswith("utf-16"):
                return max(1, int(len(data) * self.plan["cut_r"])) | 1
            at = [i for i in range(1, len(data)) if data[i] & 0xC0 == 0x80] if f.enc == "utf-8" else []
            return at[int(len(at) * self.plan["cut_r"])] if at else len(data) // 2
        if c == "eol":          # at the end of a line
            return f.ends[int(len(f.ends) * self.plan["cut_r"])]
        return int(len(data) * c)

    def grow(self, f, data):
        g = self.plan["grow"]
        rng = random.Random("grow%d" % g["r"])
        if g["unit"] == "lines":
            cuts = sorted({rng.choice(f.ends) for _ in range(g["chunks"])} | {len(data)})
        else:
            cuts = sorted({rng.randrange(0, len(data) + 1) for _ in range(g["chunks"])} | {len(data)})
        self.cuts = cuts
        self.written = 0
        dt = g["dur"] / max(1, len(cuts))

        def step(i):
            lo = cuts[i - 1] if i else 0
            disk.write_file(self.path, data[lo:cuts[i]], "ab" if i else "wb")
            self.written = cuts[i]
            if i + 1 < len(cuts):
                self.sim.after(dt * rng.choice([0.2, 1, 1, 2]), lambda: step(i + 1))
            else:
                self.grown = True
        self.grown = False
        disk.write_file(self.path, b"")
        self.sim.after(rng.choice([0.0, 0.1]), lambda: step(0))
        self.col.hit("growing_file")
        self.sim.fault("growing_file")

    def window(self, start=None):
        """(lines that must be there, lines that may be there, incomplete lines)."""
        f = self.model.main
        n = len(f.lines)
        p = self.plan
        if p["mode"] == "whole":
            return n, n, set()
        if p["mode"] == "cut":
            x = f.line_at(self.cut)
            k = f.complete(self.cut)
            return k, k, {x} if x is not None else set()
        lo = f.complete(start)
        part = {f.line_at(c) for c in self.cuts} - {None}
        return lo, f.complete(self.written), part

    # ---------------------------------------------------------------- reading
    def open(self, r):
        from spicelib.log.ltsteps import LTSpiceLogReader, LTSpiceExport
        from spicelib.log.qspice_log_reader import QspiceLogReader
        from spicelib.log.semi_dev_op_reader import opLogReader
        from pathlib import Path
        kind = self.model.kind
        path = Path(self.path) if r["path"] == "path" else self.path
        kw = {}
        enc = self.plan["m"].get("enc")
        if r["enc"] and kind in ("lt", "mout") and enc in ("utf-8", "cp1252", "utf-16"):
            kw["encoding"] = enc
        if kind == "lt":
            return LTSpiceLogReader(path, read_measures=r["meas"], **kw)
        if kind == "mout":
            log = os.path.join(self.scratch, "run.log")
            steps = LTSpiceLogReader(log, read_measures=False)
            return LTSpiceLogReader(path, step_set=steps.stepset, **kw)
        if kind == "qs":
            return QspiceLogReader(path, read_measures=r["meas"])
        if kind == "op":
            return opLogReader(path)
        return LTSpiceExport(path)

    def view(self, rd):
        """{(table, name, index): value} of everything the reader shows."""
        kind = self.model.kind
        out = {}
        if kind == "op":
            for t, d in rd.items():
                for dev, ps in d.items():
                    out[("opn", t, dev)] = dev
                    for k, v in ps.items():
                        out[("op", t, dev, k)] = v
            return out
        for name, vals in rd.dataset.items():
            for i, v in enumerate(vals):
                out[("exp" if kind == "exp" else "meas", name, i)] = v
        if kind != "exp":
            for name, vals in rd.stepset.items():
                for i, v in enumerate(vals):
                    out[("step", name, i)] = v
        return out

    def judge(self, rd, r, start, must_all=False):
        m = self.model
        kind = m.kind
        lo, hi, part = (len(m.main.lines),) * 2 + (set(),) if must_all else self.window(start)
        whole = lo == len(m.main.lines) and not part
        measured = r["meas"] or kind not in ("lt", "qs") or (kind == "lt" and not m.stepped)
        want, may, soft = {}, {}, {}
        lines = list(enumerate(m.main.lines))
        for i, (_, facts) in lines:
            for f in facts:
                if f[0] == "four" or (f[0] == "meas" and not measured):
                    continue
                k, v = tuple(f[:-1]), f[-1]
                if i in part:
                    soft[k] = v
                elif i < lo:
                    want[k] = v
                elif i < hi:
                    may[k] = v
        if kind == "mout":
            for n, vs in m.steps.items():
                for i, v in enumerate(vs):
                    want[("step", n, i)] = v
        if kind == "qs" and measured:
            crash = self.round["out"] == "crash"
            data = m.measfile.bytes()
            c = int(len(data) * self.round["at"]) if crash else len(data)
            k = m.measfile.complete(c)
            pl = m.measfile.line_at(c)
            for i, (_, facts) in enumerate(m.measfile.lines):
                for f in facts:
                    (want if i < k else soft if i == pl else {})[tuple(f[:-1])] = f[-1]
            if m.stepped:
                for i in range(m.n):
                    may[("meas", "step", i)] = str(i)
        if kind == "exp" and m.stepped:
            for i, s in enumerate(m.runs):
                k = ("exp", m.cols[0].lower(), i)
                tgt = want if k in want else may if k in may else soft if k in soft else None
                if tgt is not None:
                    tgt[("exp", "runno", i)] = str(s + 1)
                    for n, vs in m.steps.items():
                        tgt[("exp", n, i)] = vs[s]
        got = self.view(rd)
        if kind == "exp":
            got = {k: v for k, v in got.items() if k[2] is not None}
        for k, v in want.items():
            if k not in got:
                raise Bad("value-missing", "%r (%s) is in the file and is not returned" % (k, v))
            if not self.eq(k, got[k], v):
                raise Bad("wrong-value", "%r is %r, the file says %s" % (k, got[k], v))
        for k, v in got.items():
            if k in want:
                continue
            if k in may:
                if not self.near(k, v, may[k]):
                    raise Bad("wrong-value", "%r is %r, the file says %s" % (k, v, may[k]))
            elif k in soft:
                if not self.near(k, v, soft[k]) and not (k[0] in ("meas", "step", "op", "exp", "opn") and logmodel.partly(v, soft[k])):
                    raise Bad("wrong-value", "%r is %r, the file says %s and was cut in that line" % (k, v, soft[k]))
            elif k[0] == "opn" and any(q[0] == "opn" and q[1] == k[1] and str(q[2]).startswith(str(k[2])) for q in soft):
                pass            # a device's name cut off
            elif k[0] == "opn" or (k[0] == "exp" and self.headless(part)):
                raise Bad("invented-value", "%r = %r isn't in the file" % (k, v))
            else:
                raise Bad("invented-value", "%r = %r isn't in the file" % (k, v))
        if kind in ("lt", "mout"):
            self.judge_fourier(rd, lo, hi, part)
        if whole and kind in ("lt", "mout", "qs"):
            n = m.n if m.stepped else 0
            if rd.step_count != n:
                raise Bad("step-count", "step_count is %r, there are %d steps" % (rd.step_count, n))
            if bool(rd.has_steps()) != m.stepped:
                raise Bad("step-count", "has_steps() is %r, there are %d steps" % (rd.has_steps(), n))
            if sorted(rd.get_step_vars()) != sorted(m.steps):
                raise Bad("step-names", "get_step_vars gives %r instead of %r" % (rd.get_step_vars(), list(m.steps)))
            if measured and (kind != "qs" or self.round["out"] == "ok") and sorted(rd.get_measure_names()) != sorted(m.order):
                raise Bad("measure-names", "get_measure_names gives %r instead of %r" % (rd.get_measure_names(), m.order))
        if kind == "exp" and whole:
            heads = [h for h in rd.headers]
            if heads != m.cols:
                raise Bad("wrong-headers", "headers are %r instead of %r" % (heads, m.cols))
        self.col.hit("read_ok")
        if whole:
            self.col.hit("read_whole")
        return whole and measured

    def headless(self, part):
        return 0 in part

    def eq(self, k, got, text):
        if k[0] == "opn":
            return got == text
        if k[0] == "exp" and k[1] == "runno":
            return str(got) == text
        return logmodel.same(got, text)

    def near(self, k, got, text):
        """As eq(), for a line that was written while the file was read: the only character that tells the encoding
        may have been there in part when the encoding was guessed."""
        return self.eq(k, got, text) or (isinstance(got, str) and "\u00c2\u00b0" in got and
                                         self.eq(k, logmodel.value(got.replace("\u00c2\u00b0", "\u00b0")), text))

    def judge_fourier(self, rd, lo, hi, part):
        m = self.model
        have = {}
        must = {}
        for i, (_, facts) in enumerate(m.main.lines):
            for f in facts:
                if f[0] != "four":
                    continue
                st = "soft" if i in part else "full" if i < lo else "may" if i < hi else "no"
                have.setdefault((f[1], f[2]), []).append((f[3], st))
                if f[3] == "row" and st == "full":
                    must[(f[1], f[2])] = must.get((f[1], f[2]), 0) + 1
        for sig, blocks in rd.fourier.items():
            if sig not in m.four:
                raise Bad("fourier-signal", "Fourier data of %r isn't in the file" % sig)
            if len(blocks) > len(m.four[sig]):
                raise Bad("fourier-blocks", "%d Fourier blocks of %s, the file has %d" % (len(blocks), sig, len(m.four[sig])))
            for i, b in enumerate(blocks):
                e = m.four[sig][i]
                st = have[(sig, i)]
                if b.signal != sig or float(b.n_periods) != e["per"] or not logmodel.same(b.dc_component, e["dc"]):
                    raise Bad("fourier-head", "Fourier block %d of %s: %r, the file says %r" % (i, sig, b, e))
                if b.step != e["step"]:
                    raise Bad("fourier-step", "Fourier block %d of %s belongs to step %r, not %r" % (i, sig, e["step"], b.step))
                rows = [s for w, s in st if w == "row"]
                if len(b.harmonics) > len(e["rows"]):
                    raise Bad("fourier-rows", "%d harmonics of %s, the file has %d" % (len(b.harmonics), sig, len(e["rows"])))
                for j, h in enumerate(b.harmonics):
                    vals = [h.harmonic_number, h.frequency, h.fourier_component, h.normalized_component, h.phase, h.normalized_phase]
                    for a, t in zip(vals, e["rows"][j]):
                        if not logmodel.same(a, t) and not (rows[j] == "soft" and logmodel.partly(a, t)):
                            raise Bad("fourier-value", "harmonic %d of %s: %r, the file says %r" % (j, sig, h, e["rows"][j]))
                if len(b.harmonics) < sum(1 for s in rows if s == "full"):
                    raise Bad("fourier-rows", "%d harmonics of %s, the file has %d" % (len(b.harmonics), sig, len(e["rows"])))
                for w, g in (("phd", b.phd), ("thd", b.thd)):
                    s = [q for ww, q in st if ww == w]
                    if e[w] is None or not s:
                        if g is not None:
                            raise Bad("fourier-distortion", "%s of %s is %r, the file has none" % (w, sig, g))
                    elif g is None:
                        if s[0] == "full":
                            raise Bad("fourier-distortion", "%s of %s isn't returned" % (w, sig))
                    elif not logmodel.same(g, e[w]) and not (s[0] == "soft" and logmodel.partly(g, e[w])):
                        raise Bad("fourier-distortion", "%s of %s is %r, the file says %s" % (w, sig, g, e[w]))
        for (sig, i), n in must.items():
            if len(rd.fourier.get(sig, [])) <= i:
                raise Bad("fourier-blocks", "Fourier block %d of %s is not returned" % (i, sig))

    def attempt(self, r, who, must=False):
        """Opens and judges.  Returns (reader or None, everything there)."""
        sim = self.sim
        f0 = self.fired()
        start = self.written if self.plan["mode"] == "grow" else None
        whole = must or self.plan["mode"] == "whole" or (self.plan["mode"] == "grow" and self.grown)
        try:
            rd = self.open(r)
        except Exception as e:
            sim.rec("open_failed", exc=type(e).__name__, tok=who)
            self.col.hit("open_raised")
            bad_post = self.model.kind == "qs" and self.round["out"] != "ok" and r["meas"]
            if whole and self.fired() == f0 and not bad_post and not (self.plan["mode"] == "cut" and not must):
                import traceback
                self.col.bad("L01", "complete-file-refused", "%s: a complete, healthy file is refused: %s" % (who, traceback.format_exc()[-500:]))
            return None, False
        sim.rec("opened", tok=who)
        if self.model.kind == "qs" and r["meas"] and self.round["out"] in ("fail", "nothing", "noexec") and self.view(rd) and \
                any(k[0] == "meas" for k in self.view(rd)):
            self.col.bad("L01", "stale-measures", "%s: the measurements of an earlier run are returned although QPOST gave none (%s)" % (who, self.round["out"]))
            return None, False
        try:
            full = self.judge(rd, r, start, must_all=whole)
        except Bad as e:
            self.col.bad("L01", e.key, "%s: %s [%s %s, %s, step vars %s]" % (who, e, self.model.kind, self.plan["m"].get("enc"), self.plan["mode"],
                                                                             list(self.model.steps)))
            return None, False
        return rd, full

    # ---------------------------------------------------------------- access
    def refer(self, name, rng):
        return rng.choice([name, name, name.upper(), name.capitalize()])

    def op(self, rd, o, who):
        m = self.model
        rng = random.Random("op%d" % o["r"])
        names = m.order
        try:
            self.one(rd, o["op"], rng, names)
        except Bad as e:
            self.col.bad("L01", e.key, "%s: %s" % (who, e))
        except core.SimKilled:
            raise
        except Exception as e:
            import traceback
            self.col.bad("L01", "access-refused", "%s: %s raises on complete data: %s" % (who, o["op"], traceback.format_exc()[-400:]))
        self.sim.rec("access", tok=o["op"])

    def one(self, rd, op, rng, names):
        m = self.model
        if op == "missing":
            for f in (lambda: rd.get_measure_value("nosuch", 0), lambda: rd["nosuch"], lambda: rd.steps_with_parameter_equal_to("nosuch", 1)):
                try:
                    v = f()
                except (IndexError, KeyError):
                    continue
                raise Bad("invented-value", "an unknown name returns %r" % (v,))
            return
        if op == "names":
            if sorted(rd.get_measure_names()) != sorted(list(m.order)) and not any(n.endswith(("_mag", "_ph")) for n in rd.get_measure_names()):
                raise Bad("measure-names", "get_measure_names gives %r instead of %r" % (rd.get_measure_names(), m.order))
            return
        if op == "steps" and m.stepped:
            i = rng.randrange(m.n)
            pick = [x for x in m.rows[i] if rng.random() < 0.6] or [m.rows[i][0]]
            if rng.random() < 0.5:      # values of several steps: mostly no step meets them all
                pick = [(n, dict(m.rows[rng.randrange(m.n)])[n]) for n, _ in m.rows[i]]
                rng.shuffle(pick)
            have = {j: dict(m.rows[j]) for j in range(m.n)}
            ms = [n for n in names if n != "step" and len(m.meas[n]) == m.n and not isinstance(logmodel.value(m.meas[n][0]), (str, complex))]
            if ms and rng.random() < 0.5:   # a measurement's value is a condition as well
                n = rng.choice(ms)
                for j in range(m.n):
                    have[j][n] = m.meas[n][j]
                pick.insert(rng.randrange(len(pick) + 1), (n, m.meas[n][rng.randrange(m.n)]))
            kw = {n: (v if rng.random() < 0.5 else logmodel.value(v)) for n, v in pick}
            if rng.random() < 0.5:
                kw = {n.lower(): v for n, v in kw.items()}
            exp = [j for j in range(m.n) if all(logmodel.value(have[j][n]) == logmodel.value(v) for n, v in pick)]
            got = rd.steps_with_conditions(**kw)
            if list(got) != exp:
                raise Bad("wrong-steps", "steps_with_conditions(%r) gives %r instead of %r" % (kw, got, exp))
            return
        if op == "item" and m.stepped and rng.random() < 0.5:
            n = rng.choice(list(m.steps))
            self.many(rd[self.refer(n, rng)], m.steps[n], "[%r]" % n)
            return
        names = [n for n in names if n != "step"]
        if not names:
            return
        n = rng.choice(names)
        t = m.meas[n]
        if op == "split":
            rd.obtain_amplitude_and_phase_from_complex_values()
            for x in names:
                e = [logmodel.value(v) for v in m.meas[x]]
                if not isinstance(e[0], complex):
                    continue
                for suf, fn in (("_mag", abs), ("_ph", lambda z: np.degrees(np.angle(z)))):
                    g = rd.get_measure_values_at_steps(x + suf, None)
                    if len(g) != len(e) or any(isinstance(z, complex) and abs(a - fn(z)) > 1e-9 * max(1, abs(fn(z))) for a, z in zip(g, e)):
                        raise Bad("wrong-amplitude", "%s%s is %r for %r" % (x, suf, g, m.meas[x]))
            return
        ref = self.refer(n, rng)
        if op in ("value", "item", "cond", "steps") and not m.stepped:
            self.same(rd.get_measure_value(ref) if op != "item" else rd[ref][0], t[0], ref)
            return
        i = rng.randrange(len(t))
        if op == "cond":
            kw = dict(m.rows[i])
            self.same(rd.get_measure_value(ref, **kw), t[i], "%s at %r" % (ref, kw))
            pick = [(x, dict(m.rows[rng.randrange(m.n)])[x]) for x in kw]
            rng.shuffle(pick)
            if sum(all(dict(r)[x] == v for x, v in pick) for r in m.rows) != 1:
                try:
                    v = rd.get_measure_value(ref, **dict(pick))
                except IndexError:
                    pass
                else:
                    raise Bad("invented-value", "get_measure_value(%s, %r) returns %r, it isn't one step" % (ref, dict(pick), v))
            if m.n > 1 and rng.random() < 0.3:
                try:
                    v = rd.get_measure_value(ref)
                except IndexError:
                    return
                raise Bad("invented-value", "get_measure_value(%s) without a step returns %r for %d steps" % (ref, v, m.n))
        elif op == "value":
            if rng.random() < 0.2:
                self.many(rd.get_measure_value(ref, slice(i, None)), t[i:], "%s at slice" % ref)
            else:
                self.same(rd.get_measure_value(ref, i), t[i], "%s at step %d" % (ref, i))
        elif op == "item":
            self.many(rd[ref], t, "[%r]" % ref)
        elif op == "at":
            k = rng.choice(["all", "one", "list", "gen"])
            st = [rng.randrange(len(t)) for _ in range(rng.choice([1, 2, 4]))]
            if k == "all":
                self.many(rd.get_measure_values_at_steps(ref, None), t, "%s at all steps" % ref)
            elif k == "one":
                self.same(rd.get_measure_values_at_steps(ref, st[0]), t[st[0]], "%s at step %d" % (ref, st[0]))
            else:
                self.many(rd.get_measure_values_at_steps(ref, st if k == "list" else (x for x in st)), [t[x] for x in st], "%s at %r" % (ref, st))
        elif op == "stat":
            st = sorted({rng.randrange(len(t)) for _ in range(3)}) if rng.random() < 0.5 else None
            e = [logmodel.value(x) for x in (t if st is None else [t[j] for j in st])]
            if any(isinstance(x, str) for x in e):
                return
            if any(isinstance(x, complex) for x in e):
                g, x = rd.avg_measure_value(ref, st), sum(e) / len(e)
                if abs(g - x) > 1e-9 * max(abs(z) for z in e):
                    raise Bad("wrong-statistics", "avg of %s at %r is %r instead of %r" % (ref, st, g, x))
                return
            for f, x in (("max", max(e)), ("min", min(e)), ("avg", sum(e) / len(e))):
                g = getattr(rd, f + "_measure_value")(ref, st)
                if abs(g - x) > 1e-9 * max(1e-30, abs(x)):
                    raise Bad("wrong-statistics", "%s of %s at %r is %r instead of %r" % (f, ref, st, g, x))

    def same(self, got, text, what):
        if not logmodel.same(got, text):
            raise Bad("wrong-value", "%s is %r, the file says %s" % (what, got, text))

    def many(self, got, texts, what):
        if len(got) != len(texts) or not all(logmodel.same(a, b) for a, b in zip(got, texts)):
            raise Bad("wrong-value", "%s is %r, the file says %s" % (what, list(got)[:6], texts[:6]))

    # ---------------------------------------------------------------- L01
    def reader(self, i, r):
        sim = self.sim
        who = "reader%d" % i
        sim.sleep(r["at"])
        for _ in range(1 + r["again"]):
            rd, full = self.attempt(r, who)
            if rd is not None and full and self.model.kind in ("lt", "mout", "qs") and (self.model.kind != "qs" or self.round["out"] == "ok"):
                for o in r["ops"]:
                    if o["gap"]:
                        sim.sleep(o["gap"])
                    self.op(rd, o, who)
                break
            sim.sleep(0.3)

    def scenario_read(self):
        p = self.plan
        kind = p["m"]["kind"]
        if kind == "qs":
            common.setup_simulator("qspice", self.scratch)
        rounds = p.get("rounds") or [None]
        for k, rnd in enumerate(rounds):
            self.round = rnd
            self.model = logmodel.Model(p["m"], rnd["salt"] if rnd else 0)
            self.sim.rec("file", tok="%s/%s/%s/%s" % (kind, p["m"].get("enc"), p["mode"], self.model.n))
            self.put()
            ws = [common.Worker(self.sim, "reader%d" % i, lambda r=r, i=i: self.reader(i, r)) for i, r in enumerate(p["readers"])]
            for w in ws:
                if not w.join():
                    self.col.bad("L01", "reader-stuck", "reading never returned")
                if w.exc:
                    if not w.blamed:
                        raise core.HarnessError(w.exc)
                    self.col.bad(self.prop, "unexpected-exception", w.exc[-600:])
        # when everything is written and nothing fails any more, everything is there
        self.faults(False)
        if p["mode"] == "grow":
            end = self.sim.now + 100
            while not self.grown and self.sim.now < end:
                self.sim.sleep(0.5)
        if p["mode"] == "cut":
            disk.write_file(self.path, self.model.main.bytes())
        if kind == "qs":
            self.round = dict(self.round, out="ok")
        self.attempt({"path": "str", "enc": False, "meas": True}, "fresh", must=True)

    # ---------------------------------------------------------------- L02
    def scenario_export(self):
        p = self.plan
        kind = p["m"]["kind"]
        if kind == "raw":
            m = self.model = rawmodel.Model(p["raw"])
            self.path = os.path.join(self.scratch, "model" + m.suffix())
            disk.write_file(self.path, m.bytes())
            disk.write_file(os.path.join(self.scratch, "model.log"), m.log())
        else:
            if kind == "qs":
                common.setup_simulator("qspice", self.scratch)
            self.round = p["rounds"][0]
            self.model = logmodel.Model(p["m"])
            self.put()
            self.sim.rec("file", tok="%s/%s/%s" % (kind, p["m"].get("enc"), self.model.n))
        self.held = []
        self.split = False
        self.appended = 0
        rd = None
        if kind in ("lt", "mout", "qs"):
            self.faults(False)
            rd = self.open({"path": "str", "enc": False, "meas": True})
            self.faults(True)
        for i, o in enumerate(p["prog"]):
            getattr(self, "do_" + o["op"])(o, rd, i)
        self.held.clear()
        gc.collect()
        self.final()

    def final(self):
        """What was written and verified stays as it was."""
        for path, data in getattr(self, "settled", {}).items():
            now = disk.read_file(path) if os.path.exists(path) else None
            if now != data:
                self.col.bad("L02", "changed-later", "%s was complete and was changed afterwards, by data of an export that had failed" % os.path.basename(path))

    def settle(self, *paths):
        self.settled = getattr(self, "settled", {})
        for x in paths:
            if os.path.exists(x):
                self.settled[x] = disk.read_file(x)

    def run(self, what, fn, check, outs, o):
        """Call under faults; returned => right.  Raised => try again on a healthy disk."""
        for x in outs:
            if getattr(self, "settled", None):
                self.settled.pop(x, None)
        for attempt in (0, 1):
            f0 = self.fired()
            before = {x: disk.read_file(x) if os.path.exists(x) else b"" for x in outs}
            try:
                fn()
            except core.SimKilled:
                raise
            except BaseException as e:
                if isinstance(e, SystemExit) and not e.code:
                    pass
                else:
                    self.sim.rec("export_failed", exc=type(e).__name__, tok=what)
                    self.col.hit("export_raised")
                    if self.fired() == f0:
                        import traceback
                        self.col.bad("L02", "export-refused", "%s raises although nothing failed: %s" % (what, traceback.format_exc()[-500:]))
                        return
                    if o.get("hold", True):
                        self.held.append(e)
                    self.faults(False)
                    continue
            self.sim.rec("export_done", tok=what)
            try:
                check(before)
                self.col.hit("export_ok")
                self.settle(*outs)
            except Bad as e:
                self.col.bad("L02", e.key, "%s%s: %s [%s %s]" % (what, " (repeated)" if attempt else "", e, self.plan["m"]["kind"], self.plan["m"].get("enc")))
            break
        if o.get("hold", True) is False:
            gc.collect()
        self.faults(True)

    def table(self):
        """Columns of the table: [(title, [texts])]."""
        m = self.model
        n = m.n if m.stepped else 1
        cols = [("step", [str(i + 1) for i in range(n)])]
        cols += [(k, v) for k, v in m.steps.items()]
        cols += [(k, m.meas[k]) for k in m.order]
        if self.split:
            for k in m.order:
                if isinstance(logmodel.value(m.meas[k][0]), complex):
                    cols.append((k + "_mag", [("mag", v) for v in m.meas[k]]))
                    cols.append((k + "_ph", [("ph", v) for v in m.meas[k]]))
        return cols

    @staticmethod
    def cell(got, exp):
        if isinstance(exp, tuple):
            z = logmodel.value(exp[1])
            if not isinstance(z, complex):
                return True
            e = abs(z) if exp[0] == "mag" else float(np.degrees(np.angle(z)))
            try:
                return abs(float(got) - e) <= 1e-9 * max(1, abs(e))
            except ValueError:
                return False
        v = logmodel.value(exp)
        if isinstance(v, complex):
            return got == exp.strip()
        return logmodel.same(logmodel.value(got), exp)

    def check_table(self, data, enc, sep, nl, prefix=None):
        try:
            text = data.decode(enc)
        except UnicodeError as e:
            raise Bad("wrong-encoding", "the table can't be read as %s: %s" % (enc, e))
        if enc == "utf-16" and text.startswith("\ufeff"):
            text = text[1:]
        nl = nl or "\n"
        if not text.endswith(nl):
            raise Bad("table-cut", "the last line has no end: %r" % text[-40:])
        lines = text.split(nl)[:-1]
        cols = self.table()
        head = [c for c, _ in cols]
        if prefix is not None:
            head.insert(0, "user info")
        if lines[0].split(sep) != head:
            raise Bad("wrong-columns", "titles %r instead of %r" % (lines[0].split(sep), head))
        n = len(cols[0][1])
        if len(lines) - 1 != n:
            raise Bad("wrong-rows", "%d rows instead of %d: %r" % (len(lines) - 1, n, lines[-1]))
        for i, line in enumerate(lines[1:]):
            got = line.split(sep)
            if prefix is not None:
                if got[0] != prefix:
                    raise Bad("wrong-prefix", "row %d starts with %r instead of %r" % (i, got[0], prefix))
                got = got[1:]
            if len(got) != len(cols):
                raise Bad("wrong-row", "row %d has %d values instead of %d" % (i, len(got), len(cols)))
            for (c, texts), g in zip(cols, got):
                if not self.cell(g, texts[i]):
                    raise Bad("wrong-value", "row %d, %s: %r instead of %r" % (i, c, g, texts[i]))

    def enc_of(self, rd, o):
        return o["enc"] or rd.encoding

    def do_export(self, o, rd, i, append=False):
        kind = self.model.kind
        if not self.model.meas:
            return
        if o["split"] and not self.split:
            rd.obtain_amplitude_and_phase_from_complex_values()
            self.split = True
        sep = o["sep"] or "\t"
        out = os.path.join(self.scratch, "out_a.tsv" if append else "out.tsv")
        four = os.path.join(self.scratch, "out%s_fourier.txt" % ("_a" if append else ""))
        kw = {}
        if o["sep"]:
            kw["value_separator"] = o["sep"]
        if o["nl"]:
            kw["line_terminator"] = o["nl"]
        if o["enc"]:
            kw["encoding"] = o["enc"]
        if append:
            kw["append_with_line_prefix"] = o["prefix"]
        elif self.plan.get("pre") and i == 0:
            disk.write_file(out, b"old contents\n" * 40)
        enc = self.enc_of(rd, o)
        if append and self.appended and self.appended != enc:
            return
        if append and enc == "utf-16":
            return
        self.appended = enc if append else self.appended

        def check(before):
            data = disk.read_file(out)
            if append:
                if not data.startswith(before[out]):
                    raise Bad("append-changed", "what was in the file before the append was changed")
                self.check_table(data[len(before[out]):], enc, sep, o["nl"], o["prefix"])
            else:
                self.check_table(data, enc, sep, o["nl"])
            self.check_fourier(four, o)
        self.run("export_data" + (" (append)" if append else ""), lambda: rd.export_data(out, **kw), check, [out], o)

    def do_append(self, o, rd, i):
        self.do_export(o, rd, i, append=True)

    def do_tool(self, o, rd, i):
        from spicelib.scripts import ltsteps
        m = self.model
        kind = m.kind
        src, ext = {"lt": ("run.log", "tlog"), "mout": ("run.mout", "tmout"), "exp": ("run.txt", "tsv")}[kind]
        if kind != "exp" and not m.meas:
            return
        arg = src if i % 2 else os.path.join(self.scratch, src)
        out = os.path.join(self.scratch, src.rsplit(".", 1)[0] + "." + ext)
        if self.plan.get("pre") and i == 0:
            disk.write_file(out, b"old contents\n" * 40)

        def call():
            old = sys.argv
            sys.argv = ["ltsteps", arg]
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    ltsteps.main()
            finally:
                sys.argv = old

        def check(before):
            data = disk.read_file(out)
            if kind == "exp":
                return self.check_reformat(data)
            keep, self.split = self.split, True
            try:
                enc = self.detected()
                self.check_table(data, enc, "\t", None)
            finally:
                self.split = keep
            if kind == "lt":
                self.check_fourier(os.path.join(self.scratch, "run_fourier.txt"), o)
        self.run("ltsteps tool", call, check, [out], o)

    def detected(self):
        enc = self.plan["m"]["enc"]
        if enc == "cp1252" or enc == "utf-8":
            data = self.model.main.bytes()
            try:
                data.decode("utf-8")
                return "utf-8"
            except UnicodeError:
                return "cp1252"
        return enc

    def do_reformat(self, o, rd, i):
        from spicelib.log.ltsteps import reformat_LTSpice_export
        out = os.path.join(self.scratch, "out.tsv")
        if self.plan.get("pre") and i == 0:
            disk.write_file(out, b"old contents\n" * 40)
        self.run("reformat_LTSpice_export", lambda: reformat_LTSpice_export(self.path, out), lambda before: self.check_reformat(disk.read_file(out)), [out], o)

    def check_reformat(self, data):
        m = self.model
        enc = self.detected()
        try:
            text = data.decode(enc)
        except UnicodeError as e:
            raise Bad("wrong-encoding", "the table can't be read as %s: %s" % (enc, e))
        text = text.replace("\r\n", "\n")
        if not text.endswith("\n"):
            raise Bad("table-cut", "the last line has no end: %r" % text[-40:])
        lines = text.split("\n")[:-1]
        head = lines[0].split("\t")
        want = list(m.cols) + ([n for n, _ in m.rows[0]] + ["Run"] if m.stepped else [])
        low = [h.lower() for h in head]
        for c in want:
            if low.count(c.lower()) != 1:
                raise Bad("wrong-columns", "column %s is in the titles %d times: %r" % (c, low.count(c.lower()), head))
        if len(lines) - 1 != len(m.runs):
            raise Bad("wrong-rows", "%d rows instead of %d" % (len(lines) - 1, len(m.runs)))
        for i, line in enumerate(lines[1:]):
            got = line.split("\t")
            if len(got) != len(head):
                raise Bad("wrong-row", "row %d has %d values for %d titles" % (i, len(got), len(head)))
            for c in want:
                g = got[low.index(c.lower())]
                if c == "Run":
                    e = str(m.runs[i] + 1)
                elif c.lower() in m.data:
                    e = m.data[c.lower()][i]
                else:
                    e = m.steps[c.lower()][m.runs[i]]
                if g != e:
                    raise Bad("wrong-value", "row %d, %s: %r instead of %r" % (i, c, g, e))

    def check_fourier(self, path, o):
        m = self.model
        if not m.four:
            return
        if not os.path.exists(path):
            raise Bad("fourier-missing", "the Fourier data was not exported")
        lines = disk.read_file(path).decode("utf-8").split("\n")
        sv = list(m.steps)

        def section(at, titles):
            head = lines[at].split("\t")
            exp = sv + titles
            if head != exp:
                raise Bad("fourier-columns", "titles %r instead of %r" % (head, exp))
            rows = []
            k = at + 1
            while k < len(lines) and lines[k]:
                r = lines[k].split("\t")
                if len(r) != len(exp):
                    raise Bad("fourier-row", "%d values for %d titles: %r" % (len(r), len(exp), lines[k]))
                rows.append(r)
                k += 1
            return rows, k
        rows, k = section(0, ["Signal", "N-Periods", "DC Component", "Fundamental", "N-Harmonics", "PHD", "THD"])
        want = []
        for sig, bl in m.four.items():
            for b in bl:
                st = [m.steps[n][b["step"]] for n in sv]
                want.append(st + [sig, b["per"], b["dc"], b["rows"][0][1], str(len(b["rows"])), b["phd"] if b["phd"] is not None else "None", b["thd"]])
        self.compare(rows, want, len(sv), "analyses")
        while k < len(lines) and lines[k] != "Harmonic Analysis":
            k += 1
        if k == len(lines):
            raise Bad("fourier-missing", "the harmonics were not exported")
        rows, k = section(k + 1, ["Signal", "N-Periods", "Harmonic", "Frequency", "Fourier", "Normalized", "Phase", "Normalized"])
        want = []
        for sig, bl in m.four.items():
            for b in bl:
                st = [m.steps[n][b["step"]] for n in sv]
                for h in b["rows"]:
                    want.append(st + [sig, b["per"]] + h)
        self.compare(rows, want, len(sv), "harmonics")

    def compare(self, rows, want, ns, what):
        if len(rows) != len(want):
            raise Bad("fourier-rows", "%d %s instead of %d" % (len(rows), what, len(want)))
        left = list(want)
        for r in rows:
            for w in left:
                if self.frow(r, w, ns):
                    left.remove(w)
                    break
            else:
                raise Bad("fourier-value", "%s: %r isn't in the log" % (what, r))

    @staticmethod
    def frow(r, w, ns):
        for j, (a, b) in enumerate(zip(r, w)):
            if j == ns + 1:
                if not (a == "all" and b == -1.0) and not logmodel.same(logmodel.value(a), "%r" % b):
                    return False
            elif b == "None":
                if a != "None":
                    return False
            elif not logmodel.same(logmodel.value(a), b):
                return False
        return True

    # ---- raw_convert
    def do_convert(self, o, rd, i):
        from spicelib.scripts import raw_convert
        m = self.model
        q = m.plots[0]
        traces, want = [], []
        for t in o["traces"]:
            how, k = t.split(":")
            k = int(k) % len(q.names)
            n = q.names[k]
            if how == "none":
                traces.append("nosuch")
                continue
            if how == "bare" and n[:2] in ("V(", "I(") and n[-1] == ")":
                traces.append(n[2:-1])
            else:
                traces.append(n)
            if n not in want:
                want.append(n)
        if o["traces"] and not want:
            return
        if any("," in t for t in traces):
            return
        if not o["traces"]:
            want = list(q.names) + [a for a in q.aliases]
        if q.has_axis and q.names[0] not in want:
            want.insert(0, q.names[0])
        out = os.path.join(self.scratch, "out.csv")
        argv = ["raw_convert"]
        sep = o["sep"] or "\t"
        if o["sep"]:
            argv += ["-s", o["sep"]]
        if o["out"] == "csv":
            argv += ["-o", out]
        if m.dialect == "xyce":
            argv += ["-D", "xyce"]
        argv += [self.path] + traces
        text = {}

        def call():
            old = sys.argv
            sys.argv = argv
            buf = io.StringIO()
            try:
                with contextlib.redirect_stdout(buf):
                    raw_convert.main()
            finally:
                sys.argv = old
                text["out"] = buf.getvalue()

        def check(before):
            if o["out"] == "csv":
                lines = disk.read_file(out).decode("utf-8").splitlines()
            else:
                lines = text["out"].splitlines()
                while lines and (lines[0].startswith(("Warning:", "Reading traces", "Trace "))):
                    lines.pop(0)
                while lines and not lines[-1]:
                    lines.pop()
            head = lines[0].split(sep)
            if sorted(head) != sorted(want):
                raise Bad("wrong-columns", "titles %r instead of %r for the traces %r" % (head, want, traces))
            if len(lines) - 1 != q.n:
                raise Bad("wrong-rows", "%d rows instead of %d" % (len(lines) - 1, q.n))
            for j, h in enumerate(head):
                exp = q.expect(h, 0, q.n)
                if h == "time":
                    exp = np.abs(exp)
                for k, line in enumerate(lines[1:]):
                    c = line.split(sep)
                    if len(c) != len(head):
                        raise Bad("wrong-row", "row %d has %d values for %d titles" % (k, len(c), len(head)))
                    e = exp[k]
                    g = complex(c[j]) if exp.dtype.kind == "c" else float(c[j])
                    ok = abs(g - e) <= 1e-12 * abs(e) if h in q.aliases else (exp.dtype.type(g) == e or (exp.dtype == np.dtype("f8") and g == float(e)))
                    if not ok:
                        raise Bad("wrong-value", "row %d, %s: %r instead of %r" % (k, h, c[j], e))
        self.run("raw_convert", call, check, [out] if o["out"] == "csv" else [], o)

    def scenario(self):
        if self.prop == "L01":
            self.scenario_read()
        else:
            self.scenario_export()


def execute(job, scratch):
    w = World(job, scratch)
    w.plan.setdefault("env_seed", 0)
    status = w.sim.run(w.scenario)
    if status in ("deadlock", "horizon", "steps"):
        w.col.bad(w.prop, "stuck", w.sim.detail)
    return common.result(w.sim, w.col, w.choices)
