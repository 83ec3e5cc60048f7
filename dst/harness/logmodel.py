"""What simulators write into logs and text exports: a model, its text, and what may be read from a part of it.

Written from the sample files of the repository and its documentation, independent of the readers under test.
"""
import math
import random
import re

STEPV = ["vin", "R1", "cap", "Temp", "freq", "idx"]
MEASN = ["Vout_rms", "t1", "gain", "period", "Fcut", "pk2", "x_1", "rise_T"]
EXPR = ["RMS(V(out))", "v(out)", "Vout_rms/Vin_rms", "time", "mag(v(out))", "max(v(in)-v(out))", "I(R1)*2", "PP(V(n001))"]


# ---------------------------------------------------------------- values
def num(rng, big=False):
    k = rng.random()
    if k < 0.15:
        return str(rng.randint(0, 5000))
    if k < 0.25:
        return str(-rng.randint(1, 99))
    if k < 0.55:
        return "%g" % (rng.uniform(-10, 10))
    if k < 0.7:
        return "%ge%s%s" % (round(rng.uniform(1, 9.9), 5), rng.choice("+-"), rng.choice(["006", "010", "08", "12"]))
    if k < 0.85:
        return "%.15g" % rng.uniform(-1e-6, 1e-6)
    if k < 0.9:
        return "0"
    return "%.6g" % (10 ** rng.uniform(-15, 9))


def cplx(rng):
    if rng.random() < 0.75:
        return "(%gdB,%g°)" % (round(rng.uniform(-80, 40), 4), round(rng.uniform(-180, 180), 3))
    return "(%g,%g)" % (round(rng.uniform(-8, 8), 4), round(rng.uniform(-8, 8), 3))


def value(text):
    """What a text of the file stands for."""
    t = text.strip()
    try:
        return int(t)
    except ValueError:
        pass
    try:
        return float(t)
    except ValueError:
        pass
    m = re.fullmatch(r"\((.*?)(dB)?,(.*?)(°)?\)", t)
    if m:
        try:
            a, b = float(m.group(1)), float(m.group(3))
        except ValueError:
            return t
        if not m.group(4):
            return complex(a, b)
        if m.group(2):
            a = 10 ** (a / 20)
        return complex(a * math.cos(math.radians(b)), a * math.sin(math.radians(b)))
    return t


def same(got, text):
    exp = value(text)
    if isinstance(exp, complex):
        if not isinstance(got, complex) or abs(got - exp) > 1e-9 * max(1e-30, abs(exp)):
            return False
        if hasattr(got, "ph_rad") and exp != 0:
            near = lambda a, b: abs(a - b) <= 1e-7 * max(1, abs(b))
            ph = math.atan2(exp.imag, exp.real)
            turn = abs(abs(ph) - math.pi) < 1e-6      # -180 and 180 degrees are the same
            return near(got.mag, abs(exp)) and near(got.mag_db(), 20 * math.log10(abs(exp))) and (turn or near(got.ph_rad(), ph) and near(got.ph, math.degrees(ph))) \
                and (got.unit == "dB") == ("dB" in text) and str(got) == text.strip()
        return True
    if isinstance(exp, str):
        return isinstance(got, str) and got == exp
    if isinstance(got, (complex, str, list)) or got is None:
        return False
    return float(got) == float(exp)


def partly(got, text):
    """A value read from a line that was not complete yet."""
    if isinstance(got, str) and got.endswith("\u00c2"):
        got = got[:-1]          # half of the degree sign, the only character that would tell the encoding
    return any(same(got, text[:j]) for j in range(0, len(text) + 1))


# ---------------------------------------------------------------- plans
def gen(rng, kind, big=False):
    """The content of one simulation's files."""
    m = {"kind": kind, "seed": rng.randint(0, 1 << 30), "nl": rng.choice(["\n", "\n", "\r\n"]), "r": rng.randint(0, 1 << 30)}
    stepped = rng.random() < 0.6
    nm = rng.choice([1, 2, 3, 5] if not big else [2, 4, 8])
    if kind in ("lt", "mout"):
        m["ver"] = rng.choice(["old", "24", "24opt", "24opt"])
        m["enc"] = rng.choice(["utf-8", "utf-8", "cp1252", "utf-16-le", "utf-16"])
    elif kind == "qs":
        m["enc"] = "utf-8"
    elif kind == "op":
        m["ver"] = rng.choice(["old", "24"])
        m["enc"] = rng.choice(["utf-8", "utf-8", "cp1252", "utf-16-le"])
        m["types"] = [{"t": t, "dev": [rng.choice([1, 2, 3, 5]) for _ in range(rng.choice([1, 1, 2]))], "par": rng.choice([3, 5, 8])}
                      for t in rng.sample(["Diodes", "Bipolar Transistors", "MOSFET Transistors", "JFETs"], rng.choice([1, 2, 3]))]
        m["noise"] = rng.random() < 0.7
        return m
    elif kind == "exp":
        m["enc"] = rng.choice(["utf-8", "cp1252", "cp1252", "utf-16-le"])
        m["cols"] = rng.choice([1, 2, 3, 5])
        m["cplx"] = rng.random() < 0.4
        m["points"] = rng.choice([1, 3, 8, 40])
        m["word"] = rng.choice(["Run", "Step"])
    m["steps"] = []
    if stepped:
        n = 1
        for name in rng.sample(STEPV, rng.choice([1, 1, 2, 3])):
            k = min(rng.choice([1, 2, 3, 4]), (30 if big else 12) // n)
            n *= k
            m["steps"].append([name, k, rng.choice(["num", "num", "num", "word"]) if kind in ("lt", "qs") else "num"])
    if kind in ("lt", "mout", "qs"):
        m["meas"] = []
        for name in rng.sample(MEASN, nm):
            form = rng.choice(["plain", "plain", "from", "at", "at"] if kind != "qs" else ["plain", "at", "two"])
            if kind == "lt" and not stepped and rng.random() < 0.12:
                form = "when"
            m["meas"].append({"name": name, "form": form, "v": rng.choice(["num", "num", "num", "cplx"]) if kind != "qs" else "num",
                              "fail": kind == "lt" and not stepped and rng.random() < 0.1})
        if kind == "lt" and rng.random() < 0.1:
            m["meas"] = []
    m["four"] = []
    if kind == "lt" and rng.random() < 0.3:
        sigs = rng.sample(["V(a)", "V(out)", "I(R1)", "V(n001)-V(n002)"], rng.choice([1, 1, 2]))
        if rng.random() < 0.3:
            sigs.append(sigs[0])        # two .four instructions for one signal
        for sig in sigs:
            m["four"].append({"sig": sig, "n": rng.choice([1, 3, 9]), "per": rng.choice(["all", "33.69", "1", "10"]), "phd": rng.random() < 0.7})
    m["noise"] = rng.random() < 0.7
    m["bare"] = rng.random() < 0.3       # a '.step' line without assignments
    m["head"] = rng.random() < 0.7 if kind == "mout" else True
    return m


class File:
    """Text of one file with what each line says.  facts: list of (table, name, index, text)."""

    def __init__(self, enc, nl):
        self.enc = enc
        self.nl = nl
        self.lines = []

    def add(self, text, *facts):
        self.lines.append((text, list(facts)))

    def bytes(self):
        self.ends = []
        out = b""
        if self.enc == "utf-16":
            out = b"\xff\xfe"
        e = "utf-16-le" if self.enc == "utf-16" else self.enc
        for text, _ in self.lines:
            out += (text + self.nl).encode(e)
            self.ends.append(len(out))
        return out

    def line_at(self, cut):
        """Index of the line that a cut at this byte leaves incomplete, or None."""
        lo = 2 if self.enc == "utf-16" else 0
        for i, e in enumerate(self.ends):
            if lo < cut < e:
                return i
            lo = e
        return None

    def complete(self, cut):
        """Number of lines that are complete before this byte."""
        return sum(1 for e in self.ends if e <= cut)


# ---------------------------------------------------------------- contents
class Model:
    def __init__(self, plan, salt=0):
        self.p = plan
        self.kind = plan["kind"]
        self.rng = random.Random("log%d/%d" % (plan["seed"], salt))
        rng = self.rng
        self.steps = {}             # name -> texts
        self.n = 1
        st = plan.get("steps") or []
        pools = []
        for name, k, what in st:
            vals = []
            while len(vals) < k:
                v = num(rng) if what == "num" else rng.choice(["2N2222", "BC547", "modA", "x1", "1N4148"])
                if self.kind == "exp":
                    v = rng.choice(["400m", "1K", "10", "2.5", "-40", "1e+006", "1e-06", "0", "3Meg", "100p"])
                if all(value(v) != value(x) for x in vals):
                    vals.append(v)
            pools.append((name, vals))
            self.n *= k
        for name, vals in pools:
            self.steps[name.lower()] = []
        self.stepped = bool(pools)
        self.rows = []              # per step {name: text} in file order
        for i in range(self.n if self.stepped else 0):
            j = i
            row = []
            for name, vals in pools:
                row.append((name, vals[j % len(vals)]))
                j //= len(vals)
            self.rows.append(row)
            for name, v in row:
                self.steps[name.lower()].append(v)
        self.meas = {}              # lower name -> texts per step
        self.order = []
        self.four = {}
        self.build()

    def header(self, f, circuit="C:\\sim\\ünit µ\\run_1"):
        p = self.p
        c = circuit if p.get("enc") != "ascii" else "C:\\sim\\run_1"
        if p["r"] % 3:
            c = "C:\\sim\\run_1"
        if p["ver"] == "old":
            f.add("Circuit: * %s.asc" % c)
            f.add("")
        else:
            f.add("LTspice 24.1.1 for Windows")
            f.add("Circuit: %s.net" % c)
            f.add("Start Time: Thu Feb  6 00:22:25 2025")
            if p["ver"] == "24opt":
                f.add("Options: plotwinsize=0 numdgt=15 measdgt=15  logopinfo")
            f.add("solver = Normal")
            f.add("Maximum thread count: 12")
            f.add("tnom = 27")
            f.add("temp = 27")
            f.add("method = modified trap")

    def trailer(self, f):
        f.add("")
        f.add("Date: Sat Sep 30 11:00:38 2023")
        f.add("Total elapsed time: 0.115 seconds.")
        f.add("")
        for t in ("tnom = 27", "temp = 27", "method = modified trap", "totiter = 2162", "matrix size = 3", "solver = Normal",
                  "Matrix Compiler1: 268 bytes object code size"):
            f.add(t)

    def noise(self, f):
        if self.p["noise"]:
            f.add("WARNING: Less than two connections to node a.  This node is used by v1.")
            f.add("Direct Newton iteration failed to find .op point.  (Use \".option noopiter\" to skip.)")
            f.add("Gmin = 10")
            f.add("vernier = 0.5")
        f.add("Direct Newton iteration for .op point succeeded.")

    def one(self, m):
        """(value text, [(suffix, text)...])"""
        rng = self.rng
        v = cplx(rng) if m["v"] == "cplx" else num(rng)
        if m["form"] == "from":
            return v, [("_from", num(rng)), ("_to", num(rng))]
        if m["form"] == "at":
            return v, [("_at", num(rng))]
        if m["form"] == "when":
            return rng.choice(["vmax/sqrt(2)", "vmax/2", "0.5*vpk"]), [("_at", num(rng))]
        return v, []

    def fourier(self, f, step):
        rng = self.rng
        for i, q in enumerate(self.p["four"]):
            per = q["per"]
            dc = num(rng)
            f0 = rng.choice([30e6, 1000, 50])
            key = ("four", q["sig"], len(self.four.get(q["sig"], [])))
            blk = {"step": step, "per": -1.0 if per == "all" else float(per), "dc": dc, "rows": [], "phd": None, "thd": None}
            self.four.setdefault(q["sig"], []).append(blk)
            f.add("N-Period=%s" % per, key + ("per",))
            f.add("Fourier components of %s" % q["sig"], key + ("sig",))
            f.add("DC component:%s" % dc, key + ("dc",))
            f.add("")
            f.add("Harmonic\tFrequency\t Fourier \tNormalized\t Phase  \tNormalized")
            f.add(" Number \t  [Hz]   \tComponent\t Component\t[degree]\tPhase [deg]")
            for k in range(q["n"]):
                row = ["%d" % (k + 1), "%.3e" % (f0 * (k + 1)), "%.3e" % rng.uniform(0, 9), "%.3e" % rng.uniform(0, 1),
                       "%.2f" % rng.uniform(-180, 180), "%.2f" % rng.uniform(-360, 360)]
                row[1:4] = [re.sub(r"e([+-])0?(\d)", r"e\1\2", x) for x in row[1:4]]
                blk["rows"].append(row)
                f.add("    %s   \t %s\t %s\t %s\t %7s°\t %7s°" % tuple(row), key + ("row",))
            if q["phd"]:
                blk["phd"] = "%.6f" % rng.uniform(0, 30)
                f.add("Partial Harmonic Distortion: %s%%" % blk["phd"], key + ("phd",))
            blk["thd"] = "%.6f" % rng.uniform(0, 120)
            f.add("Total Harmonic Distortion:   %s%%" % blk["thd"], key + ("thd",))
            f.add("")

    def put(self, name, text):
        name = name.lower()
        if name not in self.meas:
            self.meas[name] = []
            self.order.append(name)
        self.meas[name].append(text)
        return ("meas", name, len(self.meas[name]) - 1, text)

    def build(self):
        getattr(self, "build_" + self.kind)()

    def step_lines(self, f, four=False):
        if self.p["bare"] and not self.stepped:
            f.add(".step ")
        for i, row in enumerate(self.rows):
            f.add(".step " + " ".join("%s=%s" % x for x in row), *[("step", n.lower(), i, v) for n, v in row])
            if four:
                self.fourier(f, i)
        if four and not self.stepped:
            self.fourier(f, -1)

    def measures(self, f):
        exprs = list(EXPR)
        self.rng.shuffle(exprs)
        for j, m in enumerate(self.p["meas"]):
            ex = exprs[j % len(exprs)]
            if not self.stepped:
                if m.get("fail"):
                    f.add("Measurement \"%s\" FAIL'ed" % m["name"].lower())
                    continue
                v, more = self.one(m)
                facts = [self.put(m["name"], v)] + [self.put(m["name"] + s, t) for s, t in more]
                tail = ""
                if m["form"] == "from":
                    tail = " FROM %s TO %s" % (more[0][1], more[1][1])
                elif m["form"] in ("at", "when"):
                    tail = " %s %s" % ("AT" if m["form"] == "when" else "at", more[0][1])
                f.add("%s: %s=%s%s" % (m["name"].lower(), ex, v, tail), *facts)
            else:
                f.add("Measurement: %s" % m["name"])
                hd = {"from": ["FROM", "TO"], "at": ["at"]}.get(m["form"], [])
                f.add("  step\t" + "\t".join([ex] + hd))
                for i in range(self.n):
                    v, more = self.one(m)
                    facts = [self.put(m["name"], v)] + [self.put(m["name"] + s, t) for s, t in more]
                    f.add("     %d\t" % (i + 1) + "\t".join([v] + [t for _, t in more]), *facts)
                f.add("")

    def build_lt(self):
        f = self.main = File(self.p["enc"], self.p["nl"])
        self.header(f)
        self.noise(f)
        self.step_lines(f, True)
        f.add("")
        if self.stepped:
            self.measures(f)
            self.trailer(f)
        else:
            self.measures(f)
            self.trailer(f)
        self.files = {"run.log": f}

    def build_mout(self):
        lg = File(self.p["enc"], self.p["nl"])
        self.header(lg)
        self.noise(lg)
        self.step_lines(lg)
        self.trailer(lg)
        f = self.main = File(self.p["enc"], self.p["nl"])
        if self.p["head"] or not self.stepped:
            self.header(f)
        self.measures(f)
        self.files = {"run.log": lg, "run.mout": f}

    def build_qs(self):
        lg = self.main = File("utf-8", self.p["nl"])
        path = "C:\\sim\\run_1.net"
        if not self.rows:
            lg.add(path)
        for i, row in enumerate(self.rows):
            lg.add("%d of %d steps:  .step %s" % (i + 1, self.n, " ".join("%s=%s" % x for x in row)),
                   *[("step", n.lower(), i, v) for n, v in row])
            if i == 0:
                lg.add(path)
        lg.add("")
        lg.add("Total elapsed time: 0.126016 seconds.")
        f = File("utf-8", self.p["nl"])
        for j, m in enumerate(self.p["meas"]):
            typ = self.rng.choice(["tran ", "ac ", ""])
            f.add(".meas %s%s find %s at 1m:" % (typ, m["name"], EXPR[j % len(EXPR)].lower()))
            for i in range(self.n if self.stepped else 1):
                vals = [num(self.rng) for _ in range({"plain": 1, "at": 2, "two": 3}[m["form"]])]
                facts = []
                for k, v in enumerate(vals):
                    facts.append(self.put(m["name"] + ("_%d" % k if k else ""), v))
                f.add(("%4d " % i if self.stepped else "") + " ".join("%10s" % v for v in vals), *facts)
        if self.stepped and self.order:
            self.meas["step"] = [str(i) for i in range(self.n)]
            self.order.insert(0, "step")
        self.measfile = f
        self.files = {"run.log": lg}

    def build_op(self):
        f = self.main = File(self.p["enc"], self.p["nl"])
        self.header(f)
        self.noise(f)
        f.add("Semiconductor Device Operating Points:")
        f.add("")
        self.op = {}
        rng = self.rng
        for t in self.p["types"]:
            d = self.op[t["t"].lower()] = {}
            f.add("                        --- %s ---" % t["t"])
            no = 0
            pars = rng.sample(["Id", "Vd", "Ib", "Ic", "Vbe", "Gm", "Gmb", "CAP", "Cbs", "Req", "BetaDC"], t["par"])
            for cnt in t["dev"]:
                devs = []
                for _ in range(cnt):
                    no += 1
                    devs.append("%s:m%d:%s" % (t["t"][0].lower(), no, rng.choice(["1", "2", "x1:3"])))
                for x in devs:
                    d[x] = {}
                f.add("Name:  " + " ".join("%15s" % x for x in devs), *[("opn", t["t"].lower(), x, x) for x in devs])
                mods = ["mod%d%s" % (rng.randint(1, 9), rng.choice(["", ":sub"])) for _ in devs]
                for x, v in zip(devs, mods):
                    d[x]["Model"] = v
                f.add("Model: " + " ".join("%15s" % x for x in mods), *[("op", t["t"].lower(), x, "Model", v) for x, v in zip(devs, mods)])
                for q in pars:
                    vs = ["%.2e" % (rng.uniform(-9, 9) * 10 ** rng.randint(-20, 2)) for _ in devs]
                    for x, v in zip(devs, vs):
                        d[x][q] = v
                    f.add("%s%s  " % (q, "" if q == "Gmb" else ":") + " ".join("%15s" % v for v in vs),
                          *[("op", t["t"].lower(), x, q, v) for x, v in zip(devs, vs)])
                f.add("")
        self.trailer(f)
        self.files = {"run.log": f}

    def build_exp(self):
        p = self.p
        rng = self.rng
        f = self.main = File(p["enc"], p["nl"])
        ac = p["cplx"]
        self.cols = ["Freq." if ac else "time"] + ["V(out)", "I(R1)", "V(n001,n002)", "Ix(u1:2)", "V(a_b)"][:p["cols"]]
        f.add("\t".join(self.cols))
        self.data = {c.lower(): [] for c in self.cols}
        self.runs = []
        pos = 0
        for i in range(self.n if self.stepped else 1):
            if self.stepped:
                f.add("Step Information: %s  (%s: %d/%d)" % (" ".join("%s=%s" % x for x in self.rows[i]), p["word"], i + 1, self.n))
            for k in range(min(p["points"], 1 + 60 // self.n)):
                row = ["%.15e" % (k * 1e-3)] + [cplx(rng) if ac else "%.6e" % rng.uniform(-5, 5) for _ in self.cols[1:]]
                facts = []
                for c, v in zip(self.cols, row):
                    self.data[c.lower()].append(v)
                    facts.append(("exp", c.lower(), pos, v))
                self.runs.append(i)
                pos += 1
                f.add("\t".join(row), *facts)
        self.files = {"run.txt": f}
