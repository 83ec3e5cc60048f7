"""Sweeps and statistical analyses driven through their public API, simulator by simulator (B01-B05).

The simulated LTspice parses and evaluates the netlist it is given (parameters, .func, .step), computes the
measurements as a function of the component values, and writes the log a real one would write.  What was really
simulated, and with which result, is known from these evaluations; the properties compare what the library says
with it.
"""
import itertools
import json
import math
import os
import random
import re
import zlib
from .. import core, disk, procs, spice
from . import common

PROPS = ["B0%d" % i for i in range(1, 6)]

SOURCE = """* dst batch circuit
V1 in 0 5
I1 0 out 2m
R1 in mid 1k
R2 mid out 2k2
R3 out 0 3.3k
R4 out 0 {p1*1k}
C1 out 0 10n
C2 mid 0 4.7u
L1 out x 1m
R5 x 0 10
D1 out 0 DA
.model DA D(Is=1e-12)
.model DB D(Is=2e-12)
.model DC D(Is=3e-12)
.param p1=4
.param p2=2.5
.meas tran m1 AVG v(out)
.meas tran m2 MAX v(mid)
.tran 1m
.backanno
.end
"""
NOM = {"V1": 5.0, "I1": 2e-3, "R1": 1e3, "R2": 2.2e3, "R3": 3.3e3, "C1": 10e-9, "C2": 4.7e-6, "L1": 1e-3, "R5": 10.0}
PNOM = {"p1": 4.0, "p2": 2.5}
REFS = list(NOM)
MODELS = ["DA", "DB", "DC"]
EXTRA = [".options plotwinsize=0", ".ic V(out)=0", ".save V(mid)"]


# ================================================================ the simulated program's view of a netlist
SUF = {"meg": 1e6, "t": 1e12, "g": 1e9, "k": 1e3, "m": 1e-3, "u": 1e-6, "µ": 1e-6, "n": 1e-9, "p": 1e-12, "f": 1e-15}
_num = re.compile(r"(?<![\w.])(\d+\.?\d*|\.\d+)(e[+-]?\d+)?(meg|[tgkmunpfµ])?([a-z]*)(\d+)?", re.I)


class NetlistError(Exception):
    pass


def number(text):
    """A SPICE number (1k, 2k2, 4.7uF, 1e-3)."""
    t = text.strip()
    neg = t.startswith("-")
    m = _num.fullmatch(t[1:] if t[:1] in "+-" else t)
    if not m:
        raise NetlistError("not a number: %r" % text)
    v = m.group(1)
    if m.group(5) and m.group(3) and "." not in v and not m.group(4):
        v = v + "." + m.group(5)
    elif m.group(5):
        raise NetlistError("not a number: %r" % text)
    x = float(v + (m.group(2) or "")) * SUF.get((m.group(3) or "").lower(), 1.0)
    return -x if neg else x


def translate(expr):
    e = expr.strip().lower()
    e = re.sub(r"\bif\s*\(", "_if(", e)
    return _num.sub(lambda m: repr(number(m.group(0))), e)


class Circuit:
    """Parsed netlist."""

    def __init__(self, text, rng):
        self.rng = rng
        self.comps, self.params, self.funcs, self.steps, self.meas, self.other = {}, {}, {}, [], [], []
        self.dup = []
        for line in text.replace("\r", "").split("\n"):
            line = line.strip()
            if not line or line.startswith("*"):
                continue
            low = line.lower()
            if low.startswith(".param"):
                for k, v in re.findall(r"([A-Za-z_]\w*)\s*=\s*(\{[^}]*\}|\"[^\"]*\"|[^\s=]+)", line[6:]):
                    if k.lower() in self.params:
                        self.dup.append(k)
                    self.params[k.lower()] = v.strip("{}")
            elif low.startswith(".func"):
                m = re.match(r"\.func\s+(\w+)\s*\(([^)]*)\)\s*(.*)$", line, re.I)
                if not m:
                    raise NetlistError(line)
                body = m.group(3).strip()
                if body.startswith("{"):
                    if not body.endswith("}"):
                        raise NetlistError(line)
                    body = body[1:-1]
                self.funcs[m.group(1).lower()] = ([a.strip().lower() for a in m.group(2).split(",")], compile_(body))
            elif low.startswith(".step"):
                m = re.match(r"\.step\s+param\s+(\w+)\s+(\S+)\s+(\S+)\s+(\S+)\s*$", line, re.I)
                if not m:
                    raise NetlistError(line)
                a, b, d = (number(x) for x in m.groups()[1:])
                n = int(math.floor((b - a) / d + 1.0000001))
                self.steps.append((m.group(1).lower(), [a + i * d for i in range(max(n, 0))]))
            elif low.startswith(".meas"):
                t = line.split(None, 3)
                self.meas.append(tuple(t[1:]) if len(t) == 4 else None)
            elif low.startswith("."):
                self.other.append(" ".join(line.split()))
            else:
                t = line.split(None, 3)
                if len(t) < 4:
                    raise NetlistError(line)
                ref = t[0].upper()
                if ref in self.comps:
                    self.dup.append(ref)
                self.comps[ref] = t[3].strip()

    # -- evaluation of one step
    def evaluate(self, step):
        """{component or .parameter: value} as the simulator uses them in this step."""
        cache = dict(step)
        busy = set()

        def env(name):
            if name in cache:
                return cache[name]
            if name in self.params:
                if name in busy:
                    raise NetlistError("circular parameter %s" % name)
                busy.add(name)
                cache[name] = self.eval(self.params[name], env)
                return cache[name]
            raise NetlistError("undefined parameter %s" % name)
        out = {}
        for k in self.params:
            out["." + k] = env(k)
        for k in step:
            out["." + k] = step[k]
        for ref, v in self.comps.items():
            if ref[0] == "D":
                out[ref] = v
            elif v.startswith("{"):
                if not v.endswith("}"):
                    raise NetlistError(v)
                out[ref] = self.eval(v[1:-1], env)
            else:
                try:
                    out[ref] = number(v)
                except NetlistError:
                    if v[:1] in "0123456789.+-":
                        raise
                    out[ref] = v        # a source with functions, a model name
        self._env = env
        return out

    def expr(self, text):
        return self.eval(text.strip().strip("{}"), self._env)

    def eval(self, text, env):
        return _eval(compile_(text), env, self.funcs, self.rng)


_cache = {}


def compile_(text):
    if text not in _cache:
        try:
            _cache[text] = compile(translate(text), "netlist", "eval")
        except SyntaxError:
            raise NetlistError("syntax error: %s" % text)
    return _cache[text]


class _Names(dict):
    def __init__(self, local, env, funcs, rng, depth):
        super().__init__(local)
        self.env, self.funcs, self.rng, self.depth = env, funcs, rng, depth

    def __missing__(self, name):
        r = self.rng
        if name in self.funcs:
            args, body = self.funcs[name]

            def call(*a):
                if len(a) != len(args):
                    raise NetlistError("%s takes %d arguments" % (name, len(args)))
                if self.depth > 40:
                    raise NetlistError("recursion")
                return _eval(body, self.env, self.funcs, r, dict(zip(args, a)), self.depth + 1)
            return call
        built = {"_if": lambda c, a, b: a if c else b, "floor": math.floor, "abs": abs, "sqrt": math.sqrt, "ln": math.log, "cos": math.cos,
                 "mc": lambda v, t: v * (1 + t * r.uniform(-1, 1)), "flat": lambda x: r.uniform(-x, x), "gauss": lambda s: r.gauss(0, s),
                 "random": lambda *_: r.random(), "pi": math.pi, "min": min, "max": max}
        if name in built:
            return built[name]
        return self.env(name)


def _eval(code, env, funcs, rng, local=None, depth=0):
    try:
        return eval(code, {"__builtins__": {}}, _Names(local or {}, env, funcs, rng, depth))
    except NetlistError:
        raise
    except Exception as e:
        raise NetlistError("%s: %s" % (type(e).__name__, e))


# ================================================================ plan generation
def helper_sweep(rng, kind, k, long):
    """Arguments of one of the library's sweep helpers and the points that it documents."""
    if long and rng.random() < 0.5:
        k += rng.choice([1, 2, 3])
    f = lambda x: float("%.12g" % x)
    if kind in ("sweep", "sweep_n"):
        if rng.random() < 0.5:
            a, d = rng.randrange(1, 50), rng.randrange(1, 20)
        else:
            a, d = f(rng.randrange(1, 500) * 0.1), f(rng.randrange(1, 60) * rng.choice([0.1, 0.01, 0.05]))
        if rng.random() < 0.4 and f(a - (k + 1) * d) > 0:
            d = -d
        b = f(a + (k - 1) * d) if isinstance(d, float) else a + (k - 1) * d
        vals = [a + i * d for i in range(k)]
        if kind == "sweep_n":
            return ([a, b, k], vals) if k > 1 and a != b else ([a, a + 1, 2], [a, a + 1])
        style = rng.choice(["plain", "plain", "beyond", "swap"])
        if style == "beyond":       # the end is not one of the points
            b = f(b + 0.4 * d)
        if style == "swap" and k > 1:   # an up sweep asked for with a negative step counts down
            return [min(a, b), max(a, b), -abs(d)], [max(a, b) - i * abs(d) for i in range(k)]
        return [a, b, abs(d) if rng.random() < 0.7 or b > a else d], vals
    a, m = rng.choice([1, 2, 5, 0.1, 0.3, 47.0]), rng.choice([2, 10, 3, 1.5])
    if kind == "sweep_log":
        vals = [a * m ** i for i in range(k)]
        b = f(a * m ** (k - 1))
        if k == 1:
            b = a * (1 + (m - 1) / 2)
        elif rng.random() < 0.3:
            b = f(b * m ** 0.4)
        elif rng.random() < 0.4:
            return [b, a, rng.choice([m, 1 / m])], vals[::-1]
        return [a, b, m], vals
    k = max(k, 2)
    b = f(a * m ** (k - 1))
    if rng.random() < 0.4:
        a, b = b, a
    return [a, b, k], [a * (b / a) ** (i / (k - 1)) for i in range(k)]


def gen_plan(rng, prop, tier):
    big = tier == "thorough"
    p = {"sched": common.gen_sched(rng), "parallel": rng.choice([1, 2, 3, 4, 6]), "timeout": rng.choice([600.0, 600.0, 60.0]),
         "outdir": rng.random() < 0.8, "flavor": "ltspice", "durs": [], "bad": {}, "latency": 0.0, "disk": [],
         "logstyle": rng.choice(["plain", "interval", "at", "param"]), "opened": rng.choice(["editor", "editor", "str"])}
    p["sched"].pop("stall_max", None) if rng.random() < 0.5 else None
    p["durs"] = [round(rng.choice([0.05, rng.uniform(0.05, 0.5), rng.uniform(0.2, 3.0), rng.uniform(0.5, 6)]), 3) for _ in range(rng.choice([1, 3, 7]))]
    if rng.random() < 0.1:
        p["latency"] = rng.choice([0.0005, 0.01])
    # measurements
    w = {}
    for m in ("m1", "m2"):
        lin = {k: round(rng.choice([-1, 1]) * rng.choice([rng.uniform(0.5, 3), rng.uniform(3, 20), rng.uniform(0.05, 1)]), 4) for k in REFS + [".p1", ".p2"]}
        inter = []
        if rng.random() < 0.4:
            for _ in range(rng.choice([1, 2, 3])):
                a, b = rng.sample(REFS, 2)
                inter.append([a, b, round(rng.uniform(-300, 300), 3)])
        w[m] = {"c": round(rng.uniform(-50, 50), 3), "lin": lin, "inter": inter}
    p["weights"] = w

    def fails(n, prob, kinds):
        """Misfortunes by run number."""
        for r in range(1, n + 1):
            if rng.random() < prob:
                p["bad"][str(r)] = rng.choice(kinds)
    KINDS = ["fail", "fail", "crash", "crash_nolog", "nolog", "meas_fail", "meas_fail1", "exec_ENOENT", "exec_ENOMEM", "hang", "noraw"]
    fprob = rng.choice([0, 0, 0, 0.03, 0.1, 0.3])

    def tolerances(nmax, norm=False):
        """Which elements deviate, as a list of calls."""
        calls, elems = [], set()
        pref = rng.choice(["R", "C", "L", "V", "I"])
        if rng.random() < 0.5:
            k = [r for r in REFS if r[0] == pref]
            if len(k) <= nmax:
                calls.append(["tol", pref, rng.choice([0.01, 0.05, 0.1, 0.2, 1.0 if norm and rng.random() < .1 else 0.02])])
                elems |= set(k)
        cand = [r for r in REFS if r not in elems]
        rng.shuffle(cand)
        for r in cand:
            if len(elems) >= nmax or rng.random() < 0.35 and elems:
                break
            if rng.random() < 0.6:
                calls.append(["tol", r, rng.choice([0.01, 0.03, 0.05, 0.1, 0.25])])
            else:
                lo, hi = NOM[r] * rng.choice([0.5, 0.8, 0.95, 1.02]), NOM[r] * rng.choice([1.05, 1.2, 2.0])
                calls.append(["dev", r, float("%.4g" % lo), float("%.4g" % hi)])
            elems.add(r)
        if elems and rng.random() < 0.3:
            # an element of its own tolerance, or none, under the prefix's default
            r = rng.choice(sorted(elems))
            calls.append(["tol", r, rng.choice([0.0, 0.0, 0.07])])
        if rng.random() < 0.35 and len(elems) < nmax:
            q = rng.choice(["p1", "p2"])
            calls.append(["param", q, float("%.4g" % (PNOM[q] * rng.choice([0.6, 0.9]))), float("%.4g" % (PNOM[q] * rng.choice([1.1, 1.5])))])
        if norm:
            for c in calls:
                c.append(rng.choice(["uniform", "uniform", "normal"]))
        rng.shuffle(calls)
        return calls

    def instructions():
        out = []
        if rng.random() < 0.4:
            r = rng.choice(REFS)
            out.append(["set_component_value", r, rng.choice([float("%.3g" % (NOM[r] * rng.choice([0.5, 1.5, 3]))), "%.3g" % (NOM[r] * 2)])])
        if rng.random() < 0.2:
            out.append(["set_parameter", rng.choice(["p1", "p2"]), rng.choice([3, 5.5, 7])])
        if rng.random() < 0.2:
            out.append(["add_instruction", rng.choice(EXTRA)])
        if rng.random() < 0.25:
            out.append(rng.choice([["remove_instruction", ".backanno"], ["remove_instruction", EXTRA[0]], ["remove_Xinstruction", r"\.backan+o"], ["remove_Xinstruction", r"\.(ic|save).*"],
                                   ["remove_Xinstruction", r"\.nothere"]]))
        if rng.random() < 0.15:
            out.append(["set_element_model", "D1", "DB"])
        return out
    p["instr"] = []
    p["plural"] = rng.random() < 0.4
    p["rt"] = rng.choice([None, None, 30.0, 6.0])

    if prop == "B01":
        sweeps = []
        names = set()
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3]) if rng.random() < 0.95 else 0):
            what = rng.choice(["value", "value", "param", "model"])
            name = rng.choice(REFS) if what == "value" else rng.choice(["p1", "p2", "pnew"]) if what == "param" else "D1"
            if name in names:
                continue
            names.add(name)
            k = rng.choice([1, 2, 3, 4] if len(sweeps) < 2 else [1, 2]) if rng.random() < 0.95 else 0
            if what == "model":
                vals = [rng.choice(MODELS) for _ in range(k)] if rng.random() < .3 else rng.sample(MODELS, min(k, 3))
            elif rng.random() < 0.3:
                vals = [rng.choice(["1k", "2k2", "4.7k", "100", "1.5u"]) for _ in range(k)]
            else:
                vals = [rng.choice([float("%.5g" % rng.uniform(0.1, 2000)), rng.randrange(1, 900), 0.1 * rng.randrange(1, 9)]) for _ in range(k)]
            kind = rng.choice(["list", "list", "tuple", "iter", "gen", "sweep", "sweep", "sweep_n", "sweep_log", "sweep_log_n"])
            if kind.startswith("sweep") and (what == "model" or any(isinstance(v, str) for v in vals) or k == 0):
                kind = "gen"
            if kind.startswith("sweep"):
                args, vals = helper_sweep(rng, kind, k, len(sweeps) < 2)
                sweeps.append({"what": what, "name": name, "vals": vals, "kind": kind, "args": args})
                continue
            sweeps.append({"what": what, "name": name, "vals": vals, "kind": kind})
        p["sweeps"] = sweeps
        n = 1
        for s in sweeps:
            n *= len(s["vals"])
        p["pre"] = []
        if rng.random() < 0.4:
            p["pre"].append(["value", rng.choice(REFS), rng.choice([330, "5k"])])
        if rng.random() < 0.3:
            p["pre"].append(["param", "p2", 9])
        if rng.random() < 0.25:
            p["pre"].append(["values", dict((r, rng.choice([470, "6k8", 1e-3])) for r in rng.sample(REFS, rng.choice([1, 2, 3])))])
        if rng.random() < 0.25:
            p["pre"].append(["params", rng.choice([{"p1": 6}, {"p2": 8, "p1": 3}, {"pnew": 11}, {"pextra": "2k", "p1": 5}])])
        if rng.random() < 0.15:
            p["pre"].append(["model", "D1", rng.choice(MODELS)])
        if rng.random() < 0.3:
            p["pre"].append(rng.choice([["ins", EXTRA[0]], ["inss", EXTRA[:2]], ["inss", EXTRA], ["rmi", ".backanno"], ["rmi", ".nothere"], ["rmx", r"\.backan+o"], ["rmx", r"\.nothere"]]))
            if rng.random() < 0.5:
                p["pre"].append(rng.choice([["rmi", EXTRA[0]], ["rmx", r"\.ic.*"], ["ins", EXTRA[2]]]))
        rng.shuffle(p["pre"])
        p["refused"] = rng.choice([None, None, None, "value", "model"])
        p["cbargs"] = rng.choice([None, None, "dict", "tuple"])
        p["cb"] = rng.choice([None, None, "fn", "proc", "raise"])
        p["filenamer"] = rng.random() < 0.25
        p["ask_total"] = rng.random() < 0.4
        p["peek"] = rng.choice([0, 0, 1, 2, 5])
        p["wait"] = rng.random() < 0.8
        p["again"] = rng.random() < 0.25
        p["export"] = rng.choice([";", ";", ","])
        fails(n * 2, fprob, KINDS)
    elif prop in ("B02", "B03"):
        nmax = rng.choice([1, 2, 2, 3]) if not big else rng.choice([2, 3, 4, 5])
        p["mode"] = rng.choice(["wc", "wc", "fast", "wc_tb"] if prop == "B02" else ["wc", "wc_tb", "qs", "qs", "qs_tb"])
        if p["mode"] in ("qs", "qs_tb", "fast"):
            nmax += rng.choice([0, 1, 2])
        p["tols"] = tolerances(nmax)
        p["instr"] = instructions()
        if p["mode"] == "fast" and fprob and rng.random() < 0.5:
            fprob = 0.03
        fails(2 ** nmax + 40, fprob, KINDS)
        p["rps"] = rng.choice([1, 2, 3, 4, 5, 7, 512])
        p["prep"] = rng.choice(["save", "none", "none", "prepare"])
        p["use_min"] = rng.random() < 0.4
        p["config_meas"] = rng.random() < 0.25
        p["cb"] = rng.choice([None, None, None, "fn", "proc"])
    elif prop == "B04":
        p["mode"] = rng.choice(["mc", "mc", "mc", "mc_tb", "mc_tb"])
        p["tols"] = tolerances(rng.choice([1, 2, 3, 5]), norm=True)
        p["instr"] = instructions()
        p["num"] = rng.choice([1, 2, 3, 5, 8, 12]) if rng.random() < 0.86 else rng.choice([45, 60] if not big else [45, 100, 200])
        if p["mode"] == "mc_tb" and rng.random() < 0.5:
            p["num"] = rng.choice([20, 60, 151, 300])
        if rng.random() < 0.02 or big and rng.random() < 0.04:
            p["num"] = 150 if not big else 300
        if p["num"] >= 45:
            p["durs"] = [0.05]
            p["parallel"] = 4
            p["latency"] = 0.0
            p["sched"] = {"gap": 0, "pick": 0.3}
        p["rps"] = rng.choice([1, 2, 3, 4, 5, 7, 10, 50, 512] if p["num"] < 45 else [40, 50, 512])
        p["prep"] = rng.choice(["save", "none", "prepare", "prepare"])
        p["save_after"] = rng.random() < 0.3
        if p["mode"] == "mc_tb" and rng.random() < 0.3:
            p["flavor"] = "qspice"
        p["cb"] = rng.choice([None, None, None, "fn", "proc"])
        fails(p["num"] + 5, fprob, KINDS)
    elif prop == "B05":
        p["tols"] = tolerances(rng.choice([1, 2, 2]), norm=True)
        p["kinds"] = [rng.choice(["wc", "mc", "qs", "fast", "wc", "mc"]) for _ in range(rng.choice([1, 1, 2]))]
        p["own_editor"] = rng.random() < 0.4
        ops = []
        for _ in range(rng.choice([3, 5, 7, 9])):
            a = rng.randrange(len(p["kinds"]))
            o = rng.choice(["run", "run", "run", "run", "tb", "tb", "tb", "reset", "clear", "cleanup", "instr", "instr", "read", "read", "save", "meas", "rtol"])
            op = {"a": a, "op": o}
            if o == "rtol":
                op["tols"] = tolerances(rng.choice([1, 2]), norm=True) if rng.random() < 0.7 else []
                ops += [op, {"a": a, "op": rng.choice(["run", "tb"]), "num": rng.choice([1, 2, 4]), "rps": rng.choice([2, 3, 512]), "cb": None}]
                continue
            if o == "instr":
                ins = instructions()
                if not ins:
                    continue
                op["ins"] = ins
            if o in ("run", "tb"):
                op["num"] = rng.choice([1, 2, 4])
                op["rps"] = rng.choice([2, 3, 512])
                op["cb"] = rng.choice([None, None, "fn"])
                ops.append(op)
                if rng.random() < 0.5:
                    ops.append({"a": a, "op": "read"})
                continue
            ops.append(op)
        p["ops"] = ops
        fails(60, fprob, KINDS)
    if rng.random() < 0.12:
        # the runner is busy with long simulations of the user when the analysis starts: its first runs find no place
        p["rt"] = rng.choice([2.0, 4.0])
        p["parallel"] = rng.choice([1, 1, 2])
        p["busy"] = round(rng.uniform(0.5, 5.5) * (p["rt"] + 1), 2)
        p["busy_after"] = rng.choice([0, 0, 1, 2])
    p["weights"] = w
    return p


def shrink(plan):
    """Simpler plans (delta debugging steps)."""
    out = []

    def c():
        return json.loads(json.dumps(plan))
    for k in list(plan["bad"]):
        q = c()
        del q["bad"][k]
        out.append(q)
    if len(plan["bad"]) > 2:
        q = c()
        for k in list(plan["bad"])[len(plan["bad"]) // 2:]:
            del q["bad"][k]
        out.append(q)
    for key in ("ops", "instr", "pre", "sweeps", "tols"):
        for i in range(len(plan.get(key) or [])):
            q = c()
            del q[key][i]
            out.append(q)
    for i, s in enumerate(plan.get("sweeps", [])):
        if len(s["vals"]) > 1 and not s["kind"].startswith("sweep"):
            q = c()
            q["sweeps"][i]["vals"] = s["vals"][:-1]
            out.append(q)
        if s["kind"] not in ("list", "sweep", "sweep_n", "sweep_log", "sweep_log_n"):
            q = c()
            q["sweeps"][i]["kind"] = "list"
            out.append(q)
    for k, v in (("cb", None), ("latency", 0.0), ("parallel", 1), ("durs", [0.05]), ("again", False), ("filenamer", False), ("ask_total", False), ("peek", 0),
                 ("rt", None), ("config_meas", False), ("outdir", True), ("logstyle", "plain")):
        if k in plan and plan[k] != v:
            q = c()
            q[k] = v
            out.append(q)
    if plan.get("busy"):
        q = c()
        q["busy"] = 0
        out.append(q)
    if plan.get("num", 0) > 1:
        q = c()
        q["num"] = plan["num"] // 2
        out.append(q)
    for m in ("m1", "m2"):
        if plan["weights"][m]["inter"]:
            q = c()
            q["weights"][m]["inter"] = []
            out.append(q)
    if plan["sched"] != {"gap": 0, "pick": 0.3}:
        q = c()
        q["sched"] = {"gap": 0, "pick": 0.3}
        out.append(q)
    return out


# ================================================================ world
class Rec:
    """One launched simulator (or an attempt whose exec failed)."""

    def __init__(self, netlist):
        self.netlist = netlist
        self.prog = None
        self.circuit = None
        self.error = None
        self.steps = []         # (step assignments, values, {measure: written value or None})
        self.complete = False   # the log holds all that was computed

    def ok(self):
        return self.prog is not None and self.prog.p.rc == 0 and self.complete and self.error is None


def close(a, b, tol=2e-5):
    if isinstance(a, str) or isinstance(b, str):
        return str(a).strip() == str(b).strip()
    return a == b or abs(a - b) <= tol * max(abs(a), abs(b))


def same_vec(a, b, tol=2e-5):
    return set(a) == set(b) and all(close(a[k], b[k], tol) for k in a)


class World:
    def __init__(self, job, scratch):
        self.plan = job["plan"]
        self.prop = job["prop"]
        self.scratch = scratch
        self.flavor = self.plan["flavor"]
        disk.configure(scratch, [dict(r) for r in self.plan["disk"]], self.plan["latency"])
        self.choices = common.make_choices(job)
        self.sim = core.Sim(self.choices, max_steps=3_000_000)
        self.sim.scratch = scratch
        procs.TABLE = procs.ProcTable(self.sim, self.launch)
        self.col = common.Collector(self.sim, self.prop)
        self.bad = self.col.bad
        self.rng = random.Random("prog%s" % self.plan.get("env_seed", 0))
        self.recs = []
        self.by_netlist = {}
        self.calls = []
        self.cbs = []
        procs.SimMPProcess.fault = None
        procs.SimMPProcess._count = 0
        self.src = os.path.join(scratch, "src")
        self.out = os.path.join(scratch, "out")
        os.mkdir(self.src)
        self.path = os.path.join(self.src, "circuit.net")
        disk.write_file(self.path, SOURCE.encode())
        self.nominal = Circuit(SOURCE, self.rng).evaluate({})
        self.foreign = {}
        for d in (self.src, self.out):
            os.makedirs(d, exist_ok=True)
            for n in ("circuit.log", "circuit_old.net", "notes.txt", "other_1.raw"):
                f = os.path.join(d, n)
                disk.write_file(f, b"unrelated file of the user\n")
                self.foreign[f] = b"unrelated file of the user\n"

    # ------------------------------------------------------------ simulated programs
    def runno_of(self, netlist):
        m = re.search(r"_(\d+)\.net$", netlist)
        return m.group(1) if m else str(zlib.crc32(os.path.basename(netlist).encode()) % 40 + 1)

    def launch(self, popen):
        prog = spice.Program(popen, self.flavor, self.spec_for, self.content, None)
        nl = os.path.join(popen.cwd or os.getcwd(), prog.cmd.netlist or "")
        rec = Rec(nl)
        if os.path.basename(nl).startswith("users_"):
            prog.rno, prog.rec_ = "users", rec
            return prog
        self.recs.append(rec)
        self.by_netlist.setdefault(os.path.abspath(nl), []).append(rec)
        rno = self.runno_of(nl)
        self.sim.rec("launch", tok=rno)
        kind = self.plan["bad"].get(rno, "")
        prog.rno = rno
        prog.rec_ = rec
        if kind.startswith("exec_"):
            import errno
            rec.error = kind
            self.parse_meas_param(rec, disk.read_file(nl).decode("utf-8", "replace"))
            self.sim.fault(kind)
            no = getattr(errno, kind[5:])
            raise OSError(no, os.strerror(no))
        rec.prog = prog
        return prog

    def spec_for(self, tok, prog):
        if prog.rno == "users":
            return {"dur": self.plan["busy"], "start": 0.01, "out": "ok"}
        kind = self.plan["bad"].get(prog.rno, "ok")
        d = self.plan["durs"]
        sp = {"dur": d[int(prog.rno) % len(d)], "start": 0.01, "out": kind}
        if kind in ("meas_fail", "meas_fail1"):
            sp["out"] = "ok"
        if kind == "fail":
            sp["rc"] = [1, 2, 255][int(prog.rno) % 3]
        if kind not in ("ok",) and prog.text is not None:
            self.sim.fault("run_" + kind)
        return sp

    def parse(self, rec, text):
        try:
            c = rec.circuit = Circuit(text, self.rng)
            combos = [dict()]
            for name, vals in c.steps:
                combos = [dict(x, **{name: v}) for v in vals for x in combos]
            for st in combos:
                v = c.evaluate(st)
                ms = {}
                for m in c.meas:
                    if m is None:
                        raise NetlistError("bad .meas")
                    t, name, expr = m
                    if t.lower() == "param":
                        raise NetlistError("bad .meas")
                    if expr.lower().startswith("param") or name.lower() == "param":
                        raise NetlistError("bad .meas")
                    ms[name.lower()] = self.measure(name.lower(), v)
                rec.steps.append((st, v, ms))
        except NetlistError as e:
            rec.error = "netlist: %s" % e
            self.bad(self.prop, "invalid-netlist", "the simulator can not read the netlist: %s" % e)

    def measure(self, name, v):
        w = self.plan["weights"].get(name)
        if w is None:
            w = self.plan["weights"]["m1"]
        d = {k: float(v.get(k, x)) / x - 1 for k, x in NOM.items()}
        d.update({"." + k: float(v.get("." + k, x)) / x - 1 for k, x in PNOM.items()})
        m = w["c"] + sum(w["lin"][k] * d[k] for k in d) + sum(x * d[a] * d[b] for a, b, x in w["inter"])
        if name == "m3":
            m += 1000
        return m

    def content(self, prog):
        """(log, raw) of this execution."""
        rec = prog.rec_
        if prog.rno == "users":
            return b"LTspice 24.1.1 for Windows\nCircuit: users\n", spice.simple_raw(prog.sig, self.flavor)
        self.parse_meas_param(rec, prog.text)
        raw = spice.simple_raw(prog.sig, self.flavor)
        head = "LTspice 24.1.1 for Windows\nCircuit: %s\nStart Time: Thu Feb  6 00:22:25 2025\nsolver = Normal\ntnom = 27\ntemp = 27\n" % prog.netlist
        if rec.error:
            prog.spec["out"] = "fail"
            prog.spec["rc"] = 1
            return (head + "Error: %s\n" % rec.error).encode(), raw
        kind = self.plan["bad"].get(prog.rno, "ok")
        no_meas = set()
        if kind == "meas_fail":
            no_meas = {"m1", "m2", "m3"}
        elif kind == "meas_fail1":
            no_meas = {"m1"}
        if kind == "fail":
            return (head + "Direct Newton iteration failed to find .op point.\n").encode(), raw
        rec.complete = kind not in ("nolog", "crash_nolog")
        L = [head]
        sty = self.plan["logstyle"]
        names = list(rec.steps[0][2]) if rec.steps else []
        if not rec.circuit.steps:
            L.append("Direct Newton iteration for .op point succeeded.\n\n")
            for st, v, ms in rec.steps:
                for n in names:
                    if n in no_meas:
                        L.append('Measurement "%s" FAIL\'ed\n' % n)
                        ms[n] = None
                        continue
                    if n == "runm":
                        L.append("runm: {run}=%s\n" % num(ms[n]))
                        continue
                    t = num(ms[n])
                    ms[n] = float(t)
                    L.append({"plain": "%s: v(out)=%s\n", "interval": "%s: AVG(v(out))=%s FROM 0 TO 0.001\n", "at": "%s: v(out)=%s at 0.0005\n",
                              "param": "%s: max-min=%s\n"}[sty] % (n, t))
            L.append("\nTotal elapsed time: 0.021 seconds.\n")
        else:
            for st, v, ms in rec.steps:
                L.append(".step %s\n" % " ".join("%s=%s" % (k, num(x)) for k, x in st.items()))
            L.append("Total elapsed time: 0.021 seconds.\n\n\n")
            for n in names:
                if n in no_meas:
                    for st, v, ms in rec.steps:
                        ms[n] = None
                    continue
                L.append("Measurement: %s\n" % n)
                ex = {"plain": "", "interval": "\tFROM\tTO", "at": "\tat", "param": ""}[sty]
                L.append("  step\tAVG(v(out))%s\n" % ex)
                for i, (st, v, ms) in enumerate(rec.steps):
                    t = num(ms[n])
                    ms[n] = float(t)
                    L.append("%6d\t%s%s\n" % (i + 1, t, {"plain": "", "interval": "\t0\t0.001", "at": "\t0.0005", "param": ""}[sty]))
                L.append("\n")
        return "".join(L).encode(), raw

    def parse_meas_param(self, rec, text):
        """`.meas NAME PARAM expr` has the type in second place."""
        c = None
        keep = []
        extra = []
        for line in text.replace("\r", "").split("\n"):
            m = re.match(r"\s*\.meas\w*\s+(\w+)\s+param\s+(.+)$", line, re.I)
            if m:
                extra.append((m.group(1).lower(), m.group(2)))
            else:
                keep.append(line)
        self.parse(rec, "\n".join(keep))
        if rec.error is None:
            c = rec.circuit
            for st, v, ms in rec.steps:
                for n, e in extra:
                    if not c.steps:
                        try:
                            ms[n] = c.expr(e)
                        except NetlistError as x:
                            rec.error = str(x)
                            self.bad(self.prop, "invalid-netlist", "the simulator can not read the netlist: %s" % x)
                    elif e.strip("{} ").lower() in st:
                        ms[n] = st[e.strip("{} ").lower()]

    # ------------------------------------------------------------ set-up
    def setup(self):
        from spicelib.sim.sim_runner import SimRunner
        from spicelib.editor.spice_editor import SpiceEditor
        p = self.plan
        kw = {"simulator": self.sim_class, "parallel_sims": p["parallel"], "timeout": p["timeout"]}
        if p["outdir"]:
            kw["output_folder"] = self.out
        self.runner = SimRunner(**kw)
        orig = self.runner.run
        calls = self.calls
        users = os.path.join(self.scratch, "users.net")
        if p.get("busy"):
            disk.write_file(users, SOURCE.encode())

        def run(*a, **k):
            c = {"task": None, "exc": None}
            if p.get("busy") and len(calls) == p["busy_after"]:
                for i in range(p["parallel"]):
                    orig(users, timeout=1000.0)
                self.sim.fault("runner_busy")
            calls.append(c)
            try:
                c["task"] = orig(*a, **k)
            except Exception as e:
                c["exc"] = e
                raise
            return c["task"]
        self.runner.run = run
        self.SpiceEditor = SpiceEditor

    def callback(self, kind):
        if kind is None:
            return None
        if kind == "proc":
            from spicelib.sim.process_callback import ProcessCallback

            class CB(ProcessCallback):
                @staticmethod
                def callback(raw, log):
                    return os.path.basename(str(log))
            return CB

        def fn(raw, log):
            self.cbs.append((str(raw), str(log)))
            if kind == "raise":
                raise RuntimeError("callback failed")
            return os.path.basename(str(log))
        return fn

    def recs_of(self, calls):
        """The launch that belongs to each accepted run() call."""
        out = []
        for c in calls:
            if c["task"] is None:
                continue
            r = self.by_netlist.get(os.path.abspath(str(c["task"].netlist_file)), [])
            out.append(r[0] if len(r) == 1 else None)
            if len(r) != 1:
                self.bad(self.prop, "not-simulated-once", "run %s was simulated %d times" % (c["task"].runno, len(r)))
        return out

    def expected_state(self, instr):
        """Nominal circuit with the user's instructions."""
        st = dict(self.nominal)
        for ins in instr:
            if ins[0] == "set_component_value":
                st[ins[1]] = ins[2] if isinstance(ins[2], float) else number(str(ins[2]))
            elif ins[0] == "set_parameter":
                st["." + ins[1]] = float(ins[2])
            elif ins[0] == "set_element_model":
                st[ins[1]] = ins[2]
        st["R4"] = st[".p1"] * 1e3
        return st

    def expected_dots(self, instr):
        """Directives (of the kind that is added and removed here) with the user's instructions."""
        dots = [".backanno"]
        for ins in instr:
            if ins[0] == "add_instruction" and ins[1] in EXTRA and ins[1] not in dots:
                dots.append(ins[1])
            elif ins[0] == "remove_instruction":
                dots = [x for x in dots if x != ins[1]]
            elif ins[0] == "remove_Xinstruction":
                dots = [x for x in dots if not re.fullmatch(ins[1], x, re.I)]
        return sorted(dots)

    def check_dots(self, prop, recs, instr):
        want = self.expected_dots(instr)
        for r in recs:
            if r is not None and r.prog is not None and r.prog.text is not None:
                self.dots_in(prop, r.prog.text, want, "a run simulated")

    def dots_in(self, prop, text, want, what):
        have = sorted(x for x in (" ".join(l.split()) for l in text.splitlines()) if x in EXTRA or x == ".backanno")
        if have != want:
            self.bad(prop, "wrong-directives", "%s the directives %s, the user's instructions leave %s" % (what, have, want))

    def elements(self, calls, state, params=True):
        """[(key, lo, hi, how, dist)] of the elements that deviate, in no particular order."""
        default, own, par = {}, {}, {}
        for c in calls:
            dist = c[-1] if isinstance(c[-1], str) and c[0] in ("tol", "dev", "param") and c[-1] in ("uniform", "normal") else "uniform"
            if c[0] == "tol":
                (default if len(c[1]) == 1 else own)[c[1]] = ("tol", c[2], dist)
            elif c[0] == "dev":
                own[c[1]] = ("mm", c[2], c[3], dist)
            else:
                par["." + c[1]] = ("mm", c[2], c[3], dist)
        out = []
        for r in REFS:
            d = own.get(r) or default.get(r[0])
            if d is None:
                continue
            if d[0] == "tol":
                if d[1] == 0:
                    continue
                v = state[r]
                out.append((r, v * (1 - d[1]), v * (1 + d[1]), "tol", d[2], d[1]))
            else:
                out.append((r, d[1], d[2], "mm", d[3], None))
        if params:
            for q, d in par.items():
                out.append((q, d[1], d[2], "mm", d[3], None))
        return out

    def configure(self, an, calls):
        """The deviations, one by one or (for the tolerances) several in one call."""
        todo, i = [], 0
        while i < len(calls):
            j = i
            if self.plan.get("plural"):
                while j < len(calls) and calls[j][0] == "tol" and calls[j][3:] == calls[i][3:] and calls[j][1] not in [c[1] for c in calls[i:j]]:
                    j += 1
            if j > i + 1 or j > i and len(calls) % 2:
                an.set_tolerances({c[1]: c[2] for c in calls[i:j]}, *calls[i][3:])
            else:
                j = i + 1
                todo = [calls[i]]
                self.configure_one(an, todo)
            i = j

    def configure_one(self, an, calls):
        for c in calls:
            kw = {}
            a = c
            if isinstance(c[-1], str) and c[-1] in ("uniform", "normal"):
                kw = {"distribution": c[-1]}
                a = c[:-1]
            if c[0] == "tol":
                an.set_tolerance(a[1], a[2], **kw)
            elif c[0] == "dev":
                an.set_deviation(a[1], a[2], a[3], **kw)
            else:
                an.set_parameter_deviation(a[1], a[2], a[3], **kw)

    def make(self, kind, editor=None):
        from spicelib.sim.tookit.worst_case import WorstCaseAnalysis
        from spicelib.sim.tookit.fast_worst_case import FastWorstCaseAnalysis
        from spicelib.sim.tookit.montecarlo import Montecarlo
        from spicelib.sim.tookit.quick_sensitivity_analysis import QuickSensitivityAnalysis
        cls = {"wc": WorstCaseAnalysis, "fast": FastWorstCaseAnalysis, "mc": Montecarlo, "qs": QuickSensitivityAnalysis}[kind]
        if editor is None:
            editor = self.path if self.plan["opened"] == "str" else self.SpiceEditor(self.path)
        return cls(editor, self.runner)

    def derive(self, vec):
        """R4 follows p1."""
        vec["R4"] = vec[".p1"] * 1e3
        return vec

    def vec(self, values):
        return {k: v for k, v in values.items() if k != ".run"}

    # ------------------------------------------------------------ scenario
    def scenario(self):
        self.setup()
        getattr(self, "do_" + self.prop)()
        self.check_source()

    def drain(self, limit=900):
        end = self.sim.now + limit
        while self.sim.now < end:
            self.runner.update_completed()
            if not self.runner.active_tasks:
                return True
            self.sim.sleep(0.2)
        return False

    def check_source(self):
        if disk.read_file(self.path).decode() != SOURCE:
            self.bad(self.prop, "source-changed", "the source circuit file was modified")
        for f, data in self.foreign.items():
            if not os.path.exists(f):
                self.bad(self.prop, "foreign-removed", "%s was removed" % os.path.relpath(f, self.scratch))
            elif disk.read_file(f) != data:
                self.bad(self.prop, "foreign-changed", "%s was changed" % os.path.relpath(f, self.scratch))

    # ------------------------------------------------------------ B01
    def do_B01(self):
        from spicelib.sim.sim_stepping import SimStepper
        from spicelib.utils import sweep_iterators
        p = self.plan
        ed = self.SpiceEditor(self.path)
        st = SimStepper(ed, self.runner)
        fixed = {}
        state = dict(self.nominal)

        def apply(what, name, v):
            x = v if not isinstance(v, str) or what == "model" else number(v)
            key = "." + name if what == "param" else name
            state[key] = x if isinstance(x, str) else float(x)
            self.derive(state)
        dots = [".backanno"]        # the directives of the kind that is added and removed here
        for op in p["pre"]:
            what, name, v = (op + [None])[:3]
            if what in ("ins", "inss"):
                for x in name if what == "inss" else [name]:
                    if x not in dots:
                        dots.append(x)
                (st.add_instruction(name) if what == "ins" else st.add_instructions(*name))
                continue
            if what in ("rmi", "rmx"):
                hit = [x for x in dots if (x == name if what == "rmi" else re.fullmatch(name, x, re.I))]
                got = (st.remove_instruction if what == "rmi" else st.remove_Xinstruction)(name)
                dots = [x for x in dots if x not in hit]
                if bool(got) != bool(hit):
                    self.bad("B01", "remove-answer", "%s of %r returned %r, the circuit %s it" % ("remove_instruction" if what == "rmi" else "remove_Xinstruction", name, got, "had" if hit else "did not have"))
                continue
            if what in ("values", "params"):
                (st.set_component_values if what == "values" else st.set_parameters)(**name)
            else:
                {"value": st.set_component_value, "param": st.set_parameter, "model": st.set_element_model}[what](name, v)
            for k, x in name.items() if v is None else [(name, v)]:
                fixed[k] = x
                apply(what.rstrip("s"), k, x)
        if p["refused"]:
            try:
                (st.add_value_sweep if p["refused"] == "value" else st.add_model_sweep)("R99", [1, 2])
                self.bad("B01", "unknown-accepted", "a sweep of a component that does not exist was accepted")
            except core.SimKilled:
                raise
            except Exception as e:
                if type(e).__name__ != "ComponentNotFoundError":
                    self.bad("B01", "odd-refusal", "a sweep of a component that does not exist raised %r" % e)
        total = 1
        for s in p["sweeps"]:
            vals = s["vals"]
            if s["kind"].startswith("sweep"):
                helper = getattr(sweep_iterators, s["kind"])
                it = helper(*s["args"])
                pts = list(helper(*s["args"]))
                if len(pts) != len(vals) or not all(close(x, y, 1e-9) for x, y in zip(pts, vals)):
                    self.bad("B01", "sweep-points", "%s%s gives %s, documented are %s" % (s["kind"], tuple(s["args"]), pts, vals))
                    return
                s["vals"] = vals = pts
                if p.get("peek"):       # the helper has been looped over before, partly or wholly
                    seen = list(itertools.islice(it, p.get("peek")))
                    if seen != vals[:len(seen)] or len(seen) != min(p["peek"], len(vals)):
                        self.bad("B01", "sweep-points", "a loop over the first values of %s%s gives %s, documented are %s" % (s["kind"], tuple(s["args"]), seen, vals))
                    pts = list(it)
                    if pts != vals:
                        self.bad("B01", "sweep-again", "a second loop over %s%s gives %s after a first one of %d values" % (s["kind"], tuple(s["args"]), pts, len(seen)))
                        return
            else:
                it = {"list": list, "tuple": tuple, "iter": iter, "gen": lambda v: (x for x in v)}[s["kind"]](vals)
            {"value": st.add_value_sweep, "param": st.add_param_sweep, "model": st.add_model_sweep}[s["what"]](s["name"], it)
            total *= len(vals)
        if p["ask_total"]:
            n = st.total_number_of_simulations()
            if n != total and total:
                self.bad("B01", "total", "total_number_of_simulations() is %s for %d combinations" % (n, total))
        cb = self.callback(p["cb"])
        kw = {}
        if p["cb"] in ("fn", "raise") and p["cbargs"]:
            base = cb

            def cb(raw, log, alpha, beta):
                if (alpha, beta) != (5, "b"):
                    self.bad("B01", "callback-args", "the callback got the arguments %r" % ((alpha, beta),))
                return base(raw, log)
            kw["callback_args"] = {"alpha": 5, "beta": "b"} if p["cbargs"] == "dict" else (5, "b")
        if p["filenamer"]:
            names = itertools.count(1)
            kw["filenamer"] = lambda **k: "comb_%s_%d.net" % (zlib.crc32(repr(sorted(k.items())).encode()) % 1000, next(names))
        want = []
        for again in range(2 if p["again"] else 1):
            first = len(self.calls)
            combos = list(itertools.product(*[s["vals"] for s in p["sweeps"]]))
            if again:
                st.set_parameter("padd", 7)
                fixed["padd"] = 7
                apply("param", "padd", 7)
            st.run_all(callback=cb, timeout=p["rt"], wait_completion=p["wait"], **kw)
            if p["wait"] and [t for t in self.runner.active_tasks if t.timeout is None or core._v_time() < (t.start_time or 1e12) + t.timeout - 0.01]:
                self.bad("B01", "not-waited", "run_all() returned with active runs")
            calls = self.calls[first:]
            if len(calls) != len(combos):
                self.bad("B01", "count", "%d runs for %d combinations" % (len(calls), len(combos)))
            for c, combo in zip(calls, combos):
                for s, v in zip(p["sweeps"], combo):
                    apply(s["what"], s["name"], v)
                info = dict(fixed)
                info.update({s["name"]: v for s, v in zip(p["sweeps"], combo)})
                want.append((c, dict(state), info))
            # a later set of fixed values keeps what the last combination left behind
            if combos:
                fixed.update({s["name"]: v for s, v in zip(p["sweeps"], combos[-1])})
        if not self.drain():
            self.bad("B01", "never-ends", "runs stay active")
            return
        infos = {}
        for c, stt, info in want:
            t = c["task"]
            if t is None:
                self.col.hit("run_gave_up")
                continue
            r = self.recs_of([c])[0]
            if r is None:
                continue
            if r.steps:
                got = self.vec(r.steps[0][1])
                if not same_vec(got, stt):
                    self.bad("B01", "wrong-combination", "run %s simulated %s" % (t.runno, {k: (stt.get(k), got.get(k)) for k in set(stt) | set(got) if k not in got or k not in stt or not close(got[k], stt[k])}))
            if r.prog is not None and r.prog.text is not None:
                have = [x for x in (" ".join(l.split()) for l in r.prog.text.splitlines()) if x in EXTRA or x == ".backanno"]
                if sorted(have) != sorted(dots):
                    self.bad("B01", "wrong-directives", "run %s simulated the directives %s, set were %s" % (t.runno, sorted(have), sorted(dots)))
            got = st.sim_info.get(t.runno)
            if got is None:
                self.bad("B01", "info-missing", "sim_info has no entry for run %s" % t.runno)
                continue
            full = dict(info, netlist=t.netlist_file.name)
            infos[t.runno] = full
            if got != full:
                self.bad("B01", "info-wrong", "sim_info of run %s is %s, simulated was %s" % (t.runno, got, full))
        extra = set(st.sim_info) - set(infos)
        if extra:
            self.bad("B01", "info-extra", "sim_info has entries %s of no run" % sorted(extra))
        f = os.path.join(self.scratch, "steps.csv")
        try:
            st.export_step_info(f, delimiter=p["export"])
        except Exception as e:
            self.bad("B01", "export-raises", "export_step_info() raised %r with %d runs" % (e, len(infos)))
            return
        import csv
        with open(f, newline="") as h:
            rows = list(csv.DictReader(h, delimiter=p["export"]))
        if [int(float(r["runno"])) for r in rows] != sorted(infos):
            self.bad("B01", "export-runs", "exported runs %s, simulated %s" % ([r["runno"] for r in rows], sorted(infos)))
        for r in rows:
            w = infos.get(int(float(r["runno"])), {})
            for k, v in w.items():
                if r.get(k) != str(v):
                    self.bad("B01", "export-wrong", "run %s: exported %s=%r, simulated %r" % (r["runno"], k, r.get(k), v))
        self.col.hit("combinations", len(infos))

    # ------------------------------------------------------------ worst case (B02, B03)
    def play(self, an, instr):
        for ins in instr:
            getattr(an, ins[0])(*ins[1:])

    def attempt(self, fn, *a, **k):
        try:
            return "ok", fn(*a, **k)
        except core.SimKilled:
            raise
        except Exception as e:
            self.sim.rec("raised", exc=type(e).__name__, msg=str(e)[:80])
            return "raised", e

    def match_corners(self, prop, recs, expected, what, may_miss=0):
        """Every expected circuit was simulated exactly once, and nothing else."""
        left = list(expected)
        ok = True
        for r, (st, v, ms) in recs:
            g = self.vec(v)
            for i, e in enumerate(left):
                if same_vec(g, e):
                    del left[i]
                    break
            else:
                d = {k: (self.base.get(k), g.get(k)) for k in set(g) | set(self.base) if k not in g or k not in self.base or not close(g[k], self.base[k], 1e-9)}
                self.bad(prop, "unexpected-setting", "%s simulated a circuit that is none of the settings to analyse, or once more (nominal, simulated): %s" % (what, dict(list(d.items())[:6])))
                ok = False
        if len(left) > may_miss:
            e = left[0]
            d = {k: e[k] for k in e if not close(e[k], self.base.get(k, 0), 1e-9)}
            self.bad(prop, "setting-missing", "%s did not simulate the setting %s (%d missing)" % (what, d, len(left)))
            ok = False
        return ok

    def corner_list(self, elems):
        out = [dict(self.base)]
        for bits in itertools.product((1, 2), repeat=len(elems)):
            c = dict(self.base)
            for b, e in zip(bits, elems):
                c[e[0]] = e[b]
            out.append(self.derive(c))
        return out

    def one_moved_list(self, elems, which):
        out = [dict(self.base)]
        for e in elems:
            c = dict(self.base)
            c[e[0]] = e[which(e)]
            out.append(self.derive(c))
        return out

    def flat(self, recs):
        return [(r, s) for r in recs if r is not None for s in r.steps]

    def do_B02(self):
        self.corner_analysis()

    do_B03 = do_B02

    def corner_analysis(self):
        p = self.plan
        prop = self.prop
        mode = p["mode"]
        kind = mode.split("_")[0]
        an = self.make(kind)
        self.configure(an, p["tols"])
        self.play(an, p["instr"])
        base = self.base = self.expected_state(p["instr"])
        tb = mode.endswith("_tb")
        elems = self.elements(p["tols"], base, params=mode != "qs_tb")
        names = ["m1", "m2"]
        if p["config_meas"]:
            an.configure_measurement("m3", "AVG v(x)")
            names.append("m3")
        cb = self.callback(p["cb"])
        if kind == "fast":
            return self.fast(an, elems, names, cb)
        if tb:
            if p["prep"] == "save":
                an.save_netlist(os.path.join(self.scratch, "wc_saved.net"))
            elif p["prep"] == "prepare":
                an.prepare_testbench(**({"use_min": p["use_min"]} if kind == "qs" else {}))
            how, res = self.attempt(an.run_testbench, runs_per_sim=p["rps"], callback=cb, timeout=p["rt"])
        else:
            how, res = self.attempt(an.run_analysis, callback=cb, timeout=p["rt"])
        if not self.drain():
            self.bad(prop, "never-ends", "runs stay active")
            return
        calls = list(self.calls)
        recs = self.recs_of(calls)
        flat = self.flat(recs)
        gave_up = sum(1 for c in calls if c["task"] is None)
        if gave_up:
            self.col.hit("run_gave_up")
        bad_runs = [r for r in recs if r is None or not r.ok()]
        self.check_dots(prop, recs, p["instr"])
        if how == "raised" and not (bad_runs or gave_up):
            self.bad(prop, "raises", "%s raised %r although every run worked" % (mode, res))
            return
        may = gave_up * (1 if not tb else 10 ** 6)
        if any(r is not None and not r.steps for r in recs):
            may = 10 ** 6           # the netlist could not be read: reported above
        if kind == "wc":
            exp = self.corner_list(elems)
        else:
            use_min = tb and p["prep"] == "prepare" and p["use_min"]
            exp = None
            # the documentation leaves open which extreme is taken: one of them
            got = self.flat(recs)
            pick = {}
            for e in elems:
                for r, (st, v, ms) in got:
                    if not close(v[e[0]], base[e[0]]):
                        if close(v[e[0]], e[1]):
                            pick[e[0]] = 1
                        elif close(v[e[0]], e[2]):
                            pick[e[0]] = 2
            if use_min:
                for e in elems:
                    if pick.get(e[0]) == 2 and not close(e[1], e[2]):
                        self.bad(prop, "wrong-extreme", "use_min moved %s to its maximum" % e[0])
            for e in elems:
                if e[0] not in pick:        # the extreme that is the nominal value
                    pick[e[0]] = 1 if close(e[1], base[e[0]]) else 2
            zero = []
            if tb:      # elements of tolerance zero may have their own (nominal) run
                zero = [dict(base) for c in p["tols"] if c[0] == "tol" and c[2] == 0 and c[1] in [x for x in REFS] and
                        not any(e[0] == c[1] for e in elems)]
            exp = self.one_moved_list(elems, lambda e: pick.get(e[0], 2))
            flat2 = list(flat)
            for z in zero:
                noms = [i for i, (r, s) in enumerate(flat2) if same_vec(self.vec(s[1]), base)]
                if len(noms) > sum(1 for e in exp if same_vec(e, base)):
                    del flat2[noms[-1]]
            self.match_corners(prop, flat2, exp, mode, may)
        if kind == "wc":
            self.match_corners(prop, flat, exp, mode, may)
        if self.col.violations:
            return
        if not elems:
            self.col.hit("no_elements")
            return
        # the measurement of every setting, where it is known
        def value(e, name):
            for r, (st, v, ms) in flat:
                if same_vec(self.vec(v), e):
                    return ms.get(name) if r.ok() else None
            return None
        for name in names:
            table = [(e, value(e, name)) for e in exp]
            known = all(v is not None for _, v in table)
            if kind == "wc" and prop == "B02":
                if not tb:
                    how, res = self.attempt(an.get_min_max_measure_value, name)
                    if known and not gave_up:
                        w = (min(v for _, v in table), max(v for _, v in table))
                        if how == "raised":
                            self.bad(prop, "minmax-raises", "get_min_max_measure_value raised %r although every run worked" % res)
                        elif res is None or not (close(res[0], w[0], 1e-9) and close(res[1], w[1], 1e-9)):
                            self.bad(prop, "minmax-wrong", "(min, max) of %s is %s, the runs gave %s" % (name, res, w))
                        self.col.hit("minmax_checked")
                    elif how == "ok" and res is not None:
                        self.bad(prop, "minmax-incomplete", "(min, max) of %s is %s although measurements are missing" % (name, res))
                    else:
                        self.col.hit("minmax_refused")
            if prop == "B02":
                self.check_by_run(an, recs, name, tb)
            if prop == "B03":
                self.check_sens(an, kind, tb, elems, table, name)

    def check_by_run(self, an, recs, name, tb):
        """Measurements asked for by run number are those of that run."""
        how, log = self.attempt(an.read_logfiles)
        if how == "raised":
            if all(r is not None and r.ok() for r in recs) and recs and not any(r.steps and r.steps[0][2].get(n) is None for r in recs for n in ("m1", "m2")):
                self.bad(self.prop, "read-raises", "read_logfiles() raised %r although every run worked" % log)
            return
        for r in recs:
            if r is None:
                continue
            for st, v, ms in r.steps:
                run = st.get("run", v.get(".run"))
                if run is None:
                    continue
                how, got = self.attempt(log.get_measure_value, name, run=int(run))
                real = ms.get(name) if r.ok() else None
                if how == "raised" or got is None:
                    if real is not None:
                        self.bad(self.prop, "value-lost", "the measurement of run %d can't be read (%r), it is %s" % (run, got, real))
                    else:
                        self.col.hit("value_missing")
                elif real is None:
                    self.bad(self.prop, "value-of-failed-run", "run %d gave no %s, but %s is reported" % (run, name, got))
                elif not close(float(got), real, 1e-9):
                    self.bad(self.prop, "value-wrong", "%s of run %d is %s, simulated was %s" % (name, run, got, real))

    def check_sens(self, an, kind, tb, elems, table, name):
        prop = "B03"
        nominal = table[0][1]
        rest = table[1:]
        need = [v for _, v in (rest if kind == "wc" else table)]
        known = all(v is not None for v in need)
        one = elems[0][0]
        ask = (lambda r: an.make_sensitivity_analysis(name, r)) if kind == "wc" else (lambda r: an.get_sensitivity_data(r, name))
        fig = {}
        if known:
            if kind == "wc":
                val = {tuple(bits): v for bits, (_, v) in zip(itertools.product((1, 2), repeat=len(elems)), rest)}
                raw = {}
                for i, e in enumerate(elems):
                    ds = [abs(val[b] - val[b[:i] + (2,) + b[i + 1:]]) for b in val if b[i] == 1]
                    mu = sum(ds) / len(ds)
                    raw[e[0]] = (mu, (sum((x - mu) ** 2 for x in ds) / len(ds)) ** .5)
                tot = sum(x[0] for x in raw.values())
                if tot < 1e-6:
                    return
                fig = {k: (a / tot * 100, b / tot * 100) for k, (a, b) in raw.items()}
            else:
                raw = {e[0]: abs(v - nominal) for e, (_, v) in zip(elems, rest)}
                tot = sum(raw.values())
                if tot < 1e-6:
                    return
                fig = {k: v / tot * 100 for k, v in raw.items()}
        for ref in ("*", one):
            rr = ref.lstrip(".") if ref != "*" else ref
            how, res = self.attempt(ask, rr)
            if not known:
                if how == "ok" and res is not None:
                    if isinstance(res, dict) and all(x is None for x in res.values()):
                        continue
                    self.bad(prop, "sens-incomplete", "sensitivity %s given although measurements are missing" % (res,))
                else:
                    self.col.hit("sens_refused")
                continue
            if how == "raised" or res is None:
                self.bad(prop, "sens-raises", "asking the sensitivity of %s gave %r although every run worked" % (rr, res))
                continue
            if ref == "*":
                got = dict(res)
                w = {k.lstrip("."): v for k, v in fig.items()}
                for k in list(got):
                    if k not in w and near(got[k], 0):
                        del got[k]
                if set(got) != set(w):
                    self.bad(prop, "sens-elements", "sensitivities of %s, deviating are %s" % (sorted(got), sorted(w)))
                    continue
            else:
                got, w = {rr: res}, {rr: fig[ref]}
            for k in w:
                if not near(got[k], w[k]):
                    self.bad(prop, "sens-wrong", "sensitivity of %s is %s, the runs give %s" % (k, got[k], w[k]))
            self.col.hit("sens_checked")

    def fast(self, an, elems, names, cb):
        p, prop = self.plan, "B02"
        name = names[-1] if p["use_min"] else "m1"
        how, res = self.attempt(an.run_analysis, measure=name, callback=cb, timeout=p["rt"])
        if not self.drain():
            self.bad(prop, "never-ends", "runs stay active")
            return
        recs = self.recs_of(self.calls)
        flat = self.flat(recs)
        self.check_dots(prop, recs, p["instr"])
        okay = all(r is not None and r.ok() for r in recs) and all(s[2].get(name) is not None for r, s in flat) and not any(c["task"] is None for c in self.calls)
        base = self.base
        if not elems:
            return
        # whatever is simulated is the nominal circuit or has every element at nominal or an extreme
        for r, (st, v, ms) in flat:
            g = self.vec(v)
            for k in set(g) | set(base):
                if k == "R4" and ".p1" in [e[0] for e in elems]:
                    continue
                e = [e for e in elems if e[0] == k]
                opts = [base.get(k)] + list(e[0][1:3] if e else [])
                if k not in g or k not in base or not any(close(g[k], o) for o in opts):
                    self.bad(prop, "unexpected-setting", "fast analysis simulated %s=%s (nominal %s)" % (k, g.get(k), base.get(k)))
        if how == "raised":
            if okay:
                self.bad(prop, "fast-raises", "the fast worst case analysis raised %r although every run worked" % res)
            else:
                self.col.hit("fast_refused")
            return
        if not okay:
            # a missing run must not lead to numbers
            self.bad(prop, "fast-incomplete", "the fast worst case analysis gave %s although runs failed" % (res,))
            return
        nominal, mn, maxset, mx, minset = res

        def sim_of(setting):
            c = dict(base)
            for e in elems:
                k = e[0].lstrip(".")
                if k not in setting:
                    return None
                c[e[0]] = float(setting[k])
            return self.derive(c)
        keys = {e[0].lstrip(".") for e in elems}
        if set(minset) != keys or set(maxset) != keys:
            self.bad(prop, "fast-elements", "settings of %s, deviating are %s" % (sorted(set(minset) | set(maxset)), sorted(keys)))
            return
        n = [s[2][name] for r, s in flat if same_vec(self.vec(s[1]), base)]
        if not n or not close(float(nominal), n[0], 1e-9):
            self.bad(prop, "fast-nominal", "the nominal value is %s, simulated was %s" % (nominal, n))
        lin = not p["weights"]["m1" if name == "m3" else name]["inter"]
        cor = [self.measure(name, c) for c in self.corner_list(elems)[1:]]
        scale = max(1.0, max(cor) - min(cor), abs(max(cor)), abs(min(cor)))
        for label, val, setting, better in (("minimum", mn, minset, -1), ("maximum", mx, maxset, 1)):
            c = sim_of(setting)
            got = [s[2][name] for r, s in flat if same_vec(self.vec(s[1]), c)]
            if not any(close(float(val), g, 1e-9) for g in got):
                self.bad(prop, "fast-not-simulated", "the %s %s is not what the run with its setting gave (%s)" % (label, val, got))
                continue
            for e in elems:
                o = dict(c)
                o[e[0]] = e[1] if close(c[e[0]], e[2]) else e[2]
                if better * (self.measure(name, self.derive(o)) - float(val)) > 1e-4 * scale:
                    self.bad(prop, "fast-not-extreme", "moving %s alone goes beyond the %s" % (e[0], label))
            if lin:
                w = min(cor) if better < 0 else max(cor)
                if abs(w - float(val)) > 1e-4 * scale:
                    self.bad(prop, "fast-wrong", "the %s is %s, of all corners it is %s" % (label, val, w))
        self.col.hit("fast_checked")

    # ------------------------------------------------------------ Monte Carlo (B04)
    def do_B04(self):
        p = self.plan
        an = self.make("mc")
        self.configure(an, p["tols"])
        self.play(an, p["instr"])
        base = self.base = self.expected_state(p["instr"])
        elems = self.elements(p["tols"], base)
        cb = self.callback(p["cb"])
        if p["mode"] == "mc":
            how, res = self.attempt(an.run_analysis, num_runs=p["num"], callback=cb, timeout=p["rt"])
        else:
            if p["prep"] in ("prepare", "save"):
                how, res = self.attempt(an.prepare_testbench, num_runs=p["num"])
                if p["prep"] == "save":
                    an.save_netlist(os.path.join(self.scratch, "mc_saved.net"))
                if how == "raised":
                    self.bad("B04", "raises", "prepare_testbench raised %r" % res)
                    return
            else:
                an.last_run_number = p["num"]       # what a former prepare_testbench would have left
            how, res = self.attempt(an.run_testbench, runs_per_sim=p["rps"], callback=cb, timeout=p["rt"])
        if not self.drain():
            self.bad("B04", "never-ends", "runs stay active")
            return
        self.judge_mc("B04", an, list(self.calls), how, res, p["num"], p["mode"] != "mc", base, elems, p["rps"])
        self.check_dots("B04", self.recs_of(list(self.calls)), p["instr"])
        if p.get("save_after") and p["mode"] == "mc":
            # the testbench saved now starts from the circuit of the user, not from the last draw
            f = os.path.join(self.scratch, "mc_after.net")
            how, res = self.attempt(an.save_netlist, f)
            if how == "raised":
                self.bad("B04", "save-raises", "save_netlist raised %r after the analysis" % res)
                return
            try:
                text = disk.read_file(f).decode("utf-8", "replace")
                c = Circuit(text, self.rng)
                got = self.vec(c.evaluate({"run": -1.0}))
            except NetlistError as e:
                self.bad("B04", "invalid-netlist", "the simulator can not read the saved testbench: %s" % e)
                return
            if not same_vec(got, base):
                self.bad("B04", "saved-nominal", "the testbench saved after the analysis has at run -1 (wanted, saved): %s" %
                         {k: (base.get(k), got.get(k)) for k in set(got) | set(base) if not (k in got and k in base and close(got[k], base[k]))})
            if [n for n, v in c.steps] != ["run"] or -1.0 not in c.steps[0][1]:
                self.bad("B04", "saved-steps", "the testbench saved after the analysis has the steps %s" % [(n, v[:2], len(v)) for n, v in c.steps])
            self.dots_in("B04", text, self.expected_dots(p["instr"]), "the testbench saved after the analysis has")

    def judge_mc(self, prop, an, calls, how, res, num, tb, base, elems, rps):
        recs = self.recs_of(calls)
        gave_up = sum(1 for c in calls if c["task"] is None)
        if how == "raised":
            if not gave_up and all(r is not None and r.ok() for r in recs):
                self.bad(prop, "raises", "the analysis raised %r although every run worked" % res)
            return
        if any(r is not None and not r.steps for r in recs):
            return          # unreadable netlist, reported
        flat = self.flat(recs)
        if not tb:
            if len(calls) != num:
                self.bad(prop, "count", "%d simulations for %d runs" % (len(calls), num))
            draws = flat
        else:
            idx = sorted(round(s[0].get("run", 10 ** 9)) for r, s in flat)
            if not gave_up and idx != list(range(-1, num + 1)):
                miss = sorted(set(range(-1, num + 1)) - set(idx))
                dup = sorted({i for i in idx if idx.count(i) > 1})
                self.bad(prop, "indexes", "run indexes missing %s, repeated %s, foreign %s" % (miss[:5], dup[:5], sorted(set(idx) - set(range(-1, num + 1)))[:5]))
            for r in recs:
                if r is not None and (len(r.steps) > rps + 1 and len(r.steps) > 2 and rps > 1 and False):
                    self.bad(prop, "split", "%d runs in a simulation, allowed %d" % (len(r.steps), rps))
            draws = [(r, s) for r, s in flat if s[0].get("run", 0) >= 0]
            for r, s in flat:
                if s[0].get("run") == -1 and not same_vec(self.vec(s[1]), base):
                    self.bad(prop, "nominal", "run -1 is not the nominal circuit: %s" % {k: (base.get(k), v) for k, v in self.vec(s[1]).items() if not close(v, base.get(k, 1e99))})
        ek = {e[0]: e for e in elems}
        norm = {k: [] for k in ek}
        for r, (st, v, ms) in draws:
            g = self.vec(v)
            for k in set(g) | set(base):
                if k == "R4":
                    if not close(g[k], g[".p1"] * 1e3):
                        self.bad(prop, "untouched", "R4 lost its formula")
                    continue
                if k not in ek:
                    if k not in g or k not in base or not close(g[k], base[k]):
                        self.bad(prop, "untouched", "%s has no deviation but is %s instead of %s" % (k, g.get(k), base.get(k)))
                    continue
                key, lo, hi, how_, dist, tol = ek[k]
                mid = base[k] if how_ == "tol" else (lo + hi) / 2
                half = (hi - lo) / 2
                x = (g[k] - mid) / half
                norm[k].append(x)
                slack = 1e-5 * max(abs(lo), abs(hi)) / abs(half)
                lim = 1.0 if dist == "uniform" else 2.2
                if abs(x) > lim + slack:
                    self.bad(prop, "outside", "%s drawn at %s, outside of %s..%s (%s)" % (k, g[k], lo, hi, dist))
        n = len(draws)
        for k, xs in norm.items():
            key, lo, hi, how_, dist, tol = ek[k]
            fine = (hi - lo) / 2 / max(abs(lo), abs(hi)) > 2e-3
            if n >= 4 and len(set(xs)) == 1:
                self.bad(prop, "not-drawn", "%s has the same value in all %d runs" % (k, n))
            if n >= 12 and fine and len(set(xs)) < n // 2:
                self.bad(prop, "repeated", "%s has only %d values in %d runs" % (k, len(set(xs)), n))
            if n >= 45:
                z = [x if dist == "uniform" else 3 * x for x in xs]
                var = 1 / 3. if dist == "uniform" else 1.0
                mean = sum(z) / n
                if abs(mean) > 6 * (var / n) ** .5:
                    self.bad(prop, "biased", "mean deviation of %s is %.3f of its half band over %d runs" % (k, mean, n))
                s2 = sum((x - mean) ** 2 for x in z) / (n - 1) / var
                lim = 8 * (2.0 / (n - 1)) ** .5
                if not max(0.2, 1 - lim) < s2 < 1 + lim + 0.3:
                    self.bad(prop, "spread", "variance of %s (%s) is %.2f times the specified over %d runs" % (k, dist, s2, n))
                self.col.hit("distribution_checked")
        ks = [k for k in norm if n >= 4]
        for a, b in itertools.combinations(ks, 2):
            if all(abs(x - y) < 1e-4 for x, y in zip(norm[a], norm[b])):
                self.bad(prop, "not-independent", "%s and %s always have the same relative deviation" % (a, b))
        if not tb:
            for c, r in zip([c for c in calls if c["task"] is not None], recs):
                if r is None or not r.steps:
                    continue
                ed = c["task"].edits
                rec = {}
                for u in (ed or []):
                    rec[u.name.lower()] = u.value
                for k in ek:
                    if k.lstrip(".").lower() not in rec:
                        if close(r.steps[0][1][k], base[k], 1e-9):
                            continue        # drawn at the nominal value
                        self.bad(prop, "edits", "run %s does not record its value of %s" % (c["task"].runno, k))
                        continue
                    x = rec[k.lstrip(".").lower()]
                    try:
                        x = number(x) if isinstance(x, str) else float(x)
                    except NetlistError:
                        pass
                    if not close(x, r.steps[0][1][k], 1e-6):
                        self.bad(prop, "edits", "run %s records %s=%s, simulated %s" % (c["task"].runno, k, x, r.steps[0][1][k]))
            if an is not None and prop == "B04":
                for m in ("m1", "m2"):
                    how, got = self.attempt(an.analyse_measurement, m)
                    w = [r.steps[0][2].get(m) if r is not None and r.ok() and r.steps else None for r in recs]
                    w = [x for x in w if x is not None]
                    if how == "raised" or got is None:
                        if w:
                            self.bad(prop, "measure-raises", "analyse_measurement gave %r although %d runs measured" % (got, len(w)))
                    elif len(got) != len(w) or not all(x is not None and not isinstance(x, str) and close(float(x), y, 1e-9) for x, y in zip(got, w)):
                        self.bad(prop, "measure-wrong", "analyse_measurement gave %s, the runs measured %s" % (got[:5], w[:5]))

    # ------------------------------------------------------------ B05
    def do_B05(self):
        p, prop = self.plan, "B05"
        shared = None if p["own_editor"] else self.SpiceEditor(self.path)
        A = []
        for kind in p["kinds"]:
            a = {"kind": kind, "an": self.make(kind, shared), "instr": [], "calls": None, "state": "new", "meas": False}
            a["tols"] = self.tols_for(kind, p["tols"])
            self.configure(a["an"], a["tols"])
            A.append(a)
        cleaned = set()
        for op in p["ops"]:
            a = A[op["a"]]
            an = a["an"]
            o = op["op"]
            first = len(self.calls)
            if o == "instr":
                self.play(an, op["ins"])
                a["instr"] = a["instr"] + op["ins"]
                a["edited"] = a.get("prepared", False)
            elif o == "meas":
                an.configure_measurement("m3", "AVG v(x)")
                a["meas"] = True
            elif o == "save":
                how, res = self.attempt(an.save_netlist, os.path.join(self.scratch, "saved.net"))
                a["prepared"] = True
                if how == "raised" and a["kind"] != "fast":
                    self.bad(prop, "save-raises", "save_netlist raised %r" % res)
            elif o in ("run", "tb"):
                self.b05_run(a, op, first, shared, A)
            elif o == "rtol":
                an.reset_tolerances()
                a["tols"] = self.tols_for(a["kind"], op["tols"])
                self.configure(an, a["tols"])
                # a testbench of the former deviations is prepared again
                a["prepared"] = a["edited"] = False
            elif o == "clear":
                an.clear_simulation_data()
                a["calls"] = []
                a["state"] = "cleared"
            elif o == "reset":
                how, res = self.attempt(an.reset_netlist)
                if how == "raised":
                    self.bad(prop, "reset-raises", "reset_netlist raised %r" % res)
                    continue
                a["instr"] = []
                a["meas"] = a["prepared"] = a["edited"] = False
                got = self.editor_state(an.editor)
                if not same_vec(got, self.nominal, 1e-9):
                    self.bad(prop, "reset", "after reset_netlist the circuit differs (nominal, editor): %s" %
                             {k: (self.nominal.get(k), got.get(k)) for k in set(got) | set(self.nominal) if not (k in got and k in self.nominal and close(got[k], self.nominal[k], 1e-9))})
            elif o == "cleanup":
                self.drain()
                done = list(self.calls)
                how, res = self.attempt(an.cleanup_files)
                if how == "raised":
                    self.bad(prop, "cleanup-raises", "cleanup_files raised %r" % res)
                for c in done:
                    t = c["task"]
                    if t is None:
                        continue
                    stem = os.path.splitext(str(t.netlist_file))[0]
                    left = [e for e in (".net", ".log", ".raw", ".fail", ".exe.log") if os.path.exists(stem + e)]
                    if left:
                        self.bad(prop, "cleanup-left", "after cleanup_files run %s still has %s" % (t.runno, left))
                    cleaned.add(id(c))
                for x in A:
                    if x["calls"] is not None and not x.get("cached"):
                        x["gone"] = True
            elif o == "read":
                self.b05_read(a)
            self.check_source()
        # the nominal circuit comes back
        for a in A:
            self.attempt(a["an"].reset_netlist)
            got = self.editor_state(a["an"].editor)
            if not same_vec(got, self.nominal, 1e-9):
                self.bad(prop, "reset", "after reset_netlist the circuit differs from the source")

    def tols_for(self, kind, t):
        if kind != "mc":
            return [c[:-1] if c[-1] in ("uniform", "normal") else c for c in t]
        return t

    def editor_state(self, ed):
        f = os.path.join(self.scratch, "probe_%d.net" % len(os.listdir(self.scratch)))
        ed.save_netlist(f)
        t = disk.read_file(f).decode()
        disk.REAL["unlink"](f) if "unlink" in disk.REAL else os.unlink(f)
        try:
            return Circuit(t, self.rng).evaluate({})
        except NetlistError as e:
            return {"error": str(e)}

    def b05_run(self, a, op, first, shared, A):
        prop = "B05"
        an = a["an"]
        kind = a["kind"]
        cb = self.callback(op["cb"])
        base = self.base = self.expected_state(a["instr"])
        elems = self.elements(a["tols"], base, params=not (kind == "qs" and op["op"] == "tb"))
        tb = op["op"] == "tb"
        if tb and kind == "fast":
            return
        if tb:
            if shared is not None and len(A) > 1 or kind == "mc" or a.get("edited"):
                # a testbench prepared before another analysis used the editor, or before the user replaced a formula
                # by a value, is the user's business
                how, res = self.attempt(an._reset_netlist)
            if kind == "mc":
                an.last_run_number = op["num"]
            how, res = self.attempt(an.run_testbench, runs_per_sim=op["rps"], callback=cb)
        elif kind == "mc":
            how, res = self.attempt(an.run_analysis, num_runs=op["num"], callback=cb)
        elif kind == "fast":
            how, res = self.attempt(an.run_analysis, measure="m1", callback=cb)
        else:
            how, res = self.attempt(an.run_analysis, callback=cb)
        if not self.drain():
            self.bad(prop, "never-ends", "runs stay active")
            return
        calls = self.calls[first:]
        a["calls"] = calls
        a["state"] = "raised" if how == "raised" else "fast" if kind == "fast" else "run"
        a["tb"] = tb
        a["gone"] = a["cached"] = a["edited"] = False
        a["prepared"] = tb
        a["cb"] = cb is not None
        recs = self.recs_of(calls)
        good = all(r is not None and r.ok() for r in recs) and not any(c["task"] is None for c in calls)
        if any(r is not None and not r.steps for r in recs):
            return
        if kind == "fast":
            good = good and all(s[2].get("m1") is not None for r, s in self.flat(recs))
            if how == "ok":
                for x in A:
                    if x is not a and not x.get("cached"):
                        x["gone"] = True        # it removes the files of its runner
        if how == "raised":
            if good:
                self.bad(prop, "raises", "%s %s raised %r although every run worked" % (kind, op["op"], res))
            return
        gave_up = sum(1 for c in calls if c["task"] is None)
        if a["meas"]:
            for r, (st, v, ms) in self.flat(recs):
                if "m3" not in ms:
                    self.bad(prop, "measurement-lost", "the measurement that was configured is not in the simulated circuit")
        may = 10 ** 6 if gave_up else 0
        flat = self.flat(recs)
        self.check_dots(prop, recs, a["instr"])
        if kind == "wc":
            self.match_corners(prop, flat, self.corner_list(elems), "wc", may)
        elif kind == "mc":
            self.judge_mc(prop, None, calls, how, res, op["num"], tb, base, elems, op["rps"])
        elif kind == "qs":
            for r, (st, v, ms) in flat:
                g = self.vec(v)
                moved = [k for k in set(g) | set(base) if not (k in g and k in base and close(g[k], base[k])) and k != "R4"]
                if len(moved) > 1 or moved and moved[0] not in [e[0] for e in elems]:
                    self.bad(prop, "unexpected-setting", "quick sensitivity moved %s" % {k: (base.get(k), g.get(k)) for k in moved})
        elif kind == "fast":
            n = [s[2].get("m1") for r, s in flat if same_vec(self.vec(s[1]), base)]
            if good and elems and (not n or not close(float(res[0]), n[0], 1e-9)):
                self.bad(prop, "fast-nominal", "the nominal value is %s, simulated was %s" % (res[0], n))

    def b05_read(self, a):
        prop = "B05"
        an = a["an"]
        how, res = self.attempt(an.read_logfiles)
        if a["state"] == "new":
            if how == "ok":
                self.bad(prop, "read-nothing", "read_logfiles() gave something before any analysis")
            return
        if a["state"] in ("raised", "fast", "cleared") or a.get("gone"):
            if how == "ok" and a["state"] in ("fast", "cleared"):
                n = len(res.dataset.get("m1", []))
                if n:
                    self.bad(prop, "read-cleared", "read_logfiles() gives %d values after the data was cleared" % n)
            return
        recs = self.recs_of(a["calls"])
        if any(r is None or r.error and not r.error.startswith("exec") for r in recs):
            return
        want = {m: [] for m in ("m1", "m2")}
        for r in recs:
            if not r.ok():
                continue
            for st, v, ms in r.steps:
                for m in want:
                    want[m].append(ms.get(m))
        if how == "raised":
            if any(x is not None for x in want["m1"]):
                self.bad(prop, "read-raises", "read_logfiles() raised %r, there are measurements" % res)
            return
        a["cached"] = True
        for m in want:
            got = res.dataset.get(m, [])
            w = [x for x in want[m] if x is not None]
            g = [x for x in got if x is not None]
            if len(g) != len(w) or not all(not isinstance(x, str) and close(float(x), y, 1e-9) for x, y in zip(g, w)):
                self.bad(prop, "read-wrong", "%s read as %s, this analysis' runs gave %s" % (m, g[:6], w[:6]))
        self.col.hit("read_checked")


def near(a, b):
    if isinstance(a, (tuple, list)):
        return all(near(x, b[i] if isinstance(b, (tuple, list)) else b) for i, x in enumerate(a))
    return abs(float(a) - b) <= 1e-6 * max(1, abs(b))


def num(x):
    s = "%.9g" % x
    return s


def execute(job, scratch):
    w = World(job, scratch)
    w.sim_class, w.exe = common.setup_simulator(w.flavor, scratch)
    core.enable_more_lines([core.SRC + "/log/"])
    status = w.sim.run(w.scenario)
    if status in ("deadlock", "horizon", "steps"):
        w.bad(w.prop, "stuck", "the program is stuck: %s %s" % (w.sim.status, w.sim.detail))
    return common.result(w.sim, w.col, w.choices)
