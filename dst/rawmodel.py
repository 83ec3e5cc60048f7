"""Raw files as simulators write them, with the values they mean.

A model file is a list of plots; every value is a known function of (plot, variable,
point), so any shifted, stale or invented value is visible.  Independent of the
reader and writer under test.
"""
import random
import numpy as np

CMD = {"ltspice": "Linear Technology Corporation LTspice XVII", "qspice": "QSPICE64, Build Mar 15 2025 08:08:41",
       "ngspice": "ngspice-44.2, Build Thu Mar  6 15:34:06 UTC 2025", "xyce": None}
KINDS = {"tran": "Transient Analysis", "ac": "AC Analysis", "dc": "DC transfer characteristic",
         "op": "Operating Point", "noise": "Noise Spectral Density"}
AXIS = {"tran": ("time", "time"), "ac": ("frequency", "frequency"), "noise": ("frequency", "frequency"), "dc": ("v1", "voltage"),
        "op": ("V(n000)", "voltage")}


class Plot:
    """One plot: names, types and the values as they are stored (numpy arrays of the stored type)."""

    def __init__(self, m, spec, nr):
        self.m = m
        self.kind = spec["kind"]
        d = m.dialect
        self.steps = list(spec["steps"])              # points per step
        self.stepped = spec.get("stepped", False)
        self.n = sum(self.steps)
        self.starts = [sum(self.steps[:i]) for i in range(len(self.steps))]
        self.has_axis = self.kind != "op"
        self.complex = self.kind == "ac"
        nv = spec["nvars"]
        ax, axt = AXIS[self.kind]
        if d == "qspice" and self.kind == "tran":
            ax = "Time"
        self.names = [ax]
        self.types = [axt]
        for i in range(1, nv):
            if spec.get("odd") and i == 2:
                self.names.append("i(@r1[i])" if d == "ngspice" else "Ix(u1:VDD)")
                self.types.append("subckt_current")
            elif i % 3 == 2:
                self.names.append("I(R%d)" % i)
                self.types.append("device_current")
            else:
                self.names.append("V(n%03d)" % i)
                self.types.append("voltage")
        self.dtypes = []
        for i in range(nv):
            if self.complex:
                self.dtypes.append("f8" if i == 0 and d == "qspice" else "c16")
            elif d != "ltspice" or m.double or i == 0:
                self.dtypes.append("f8")
            else:
                self.dtypes.append("f4")
        rng = random.Random("raw%s/%s/%s" % (m.seed, nr, spec.get("vseed", 0)))
        self.data = [self._values(i, nr, rng, spec) for i in range(nv)]
        if m.ascii:             # what is printed is what was written
            self.data = [np.array([complex(float("%.15e" % x.real), float("%.15e" % x.imag)) if a.dtype.kind == "c" else float("%.15e" % float(x))
                                   for x in a], dtype=a.dtype) for a in self.data]
        self.params = {"temp": "27"} if d == "qspice" else {}
        self.aliases = {}
        if d == "qspice" and spec.get("alias") and not self.complex and nv > 1:
            self.aliases["I(Rx)"] = ("(0.5mho*V(n001,0))", lambda: 0.5 * self.data[1])
            if nv > 4:
                self.aliases["V(dif)"] = ("V(n001,n004)", lambda: self.data[1] - self.data[4])

    def _values(self, i, nr, rng, spec):
        t = self.dtypes[i]
        n = self.n
        if i == 0 and self.has_axis:
            out = np.zeros(n, dtype=t)
            for k, st in enumerate(self.starts):
                for j in range(self.steps[k]):
                    if self.kind == "tran":
                        v = 0.0 if j == 0 else j * 0.125 + (0.015625 * (k % 5))
                        if spec.get("negtime") and j and rng.random() < 0.3:
                            v = -v
                    elif self.kind in ("ac", "noise"):
                        v = 10.0 * (j + 1)
                    else:
                        v = (-1.0 if spec.get("down") else 1.0) * (0.5 * j + 0.25)
                    out[st + j] = v
            return out
        if spec.get("wild"):
            out = np.zeros(n, dtype=t)
            for j in range(n):
                out[j] = self._wild(rng, t)
            return out
        base = (nr * 64 + i + 1) * 8192
        v = (np.arange(n) + base + 1) * 0.25 * (-1 if i % 2 else 1)
        if t == "c16":
            return v.astype("c16") + 1j * (np.arange(n) + 0.5 + nr)
        return v.astype(t)

    @staticmethod
    def _wild(rng, t):
        def f():
            k = rng.random()
            if k < 0.1:
                return rng.choice([0.0, -0.0, 1e-30, -1e-30, 1e30, 3.4e37, 1e-37])
            return rng.gauss(0, 1) * 10.0 ** rng.randint(-12, 12)
        return complex(f(), f()) if t == "c16" else f()

    # ---- text
    def flags(self):
        f = ["complex" if self.complex else "real"]
        if self.m.dialect == "ltspice":
            if self.m.double and not self.complex:
                f.append("double")
            f.append("forward")
            if self.kind in ("ac", "noise"):
                f.append("log")
            if self.m.fast and not self.complex:
                f.append("fastaccess")
        if self.stepped:
            f.append("stepped")
        return " ".join(f)

    def header(self, count):
        m = self.m
        nl = "\r\n" if m.ascii and m.dialect == "ltspice" else "\n"
        c = CMD[m.dialect]
        L = ["Title: * dst model file", "Date: Tue Nov 14 22:13:20 2023"]
        if c and m.dialect == "ngspice":
            L.append("Command: " + c)
        L += ["Plotname: " + KINDS[self.kind], "Flags: " + self.flags()]
        if m.dialect == "qspice":
            L.append("Abscissa:     0.000000000000000e+00     1.000000000000000e+00                  lin")
        L += ["No. Variables: %d" % len(self.names), "No. Points: %12d" % count]
        if m.dialect == "ltspice":
            L.append("Offset:   0.0000000000000000e+00")
        if c and m.dialect != "ngspice":
            L.append("Command: " + c)
        for k, v in self.params.items():
            L.append(".param %s=%s" % (k, v))
        for k, (f, _) in self.aliases.items():
            L.append(".alias %s %s" % (k, f))
        L.append("Variables:")
        for i, (a, b) in enumerate(zip(self.names, self.types)):
            extra = "\tgrid=3" if m.dialect == "ngspice" and b == "frequency" else ""
            L.append("\t%d\t%s\t%s%s" % (i, a, b, extra))
        L.append("Values:" if m.ascii else "Binary:")
        return (nl.join(L) + nl).encode(m.encoding)

    def body(self, lo=0, hi=None):
        """Stored bytes of points lo..hi (all of them for the per-trace layout)."""
        hi = self.n if hi is None else hi
        m = self.m
        if m.ascii:
            nl = "\r\n" if m.dialect == "ltspice" else "\n"
            out = []
            for j in range(lo, hi):
                for i, d in enumerate(self.data):
                    if d.dtype.kind == "c":
                        s = "%.15e,%.15e" % (d[j].real, d[j].imag)
                    elif self.complex:
                        s = "%.15e" % d[j]
                    else:
                        s = "%.15e" % float(d[j])
                    if i == 0:
                        pre = {"ltspice": "%d\t\t", "qspice": "%d\t\t", "ngspice": " %d\t", "xyce": "%d\t"}[m.dialect] % j
                    else:
                        pre = "\t"
                    out.append(pre + s + nl)
                if m.dialect in ("ngspice", "xyce") and m.blank:
                    out.append(nl)
            return "".join(out).encode(m.encoding)
        if m.fast and not self.complex:
            return b"".join(d.tobytes() for d in self.data)
        return b"".join(self.data[i][j:j + 1].tobytes() for j in range(lo, hi) for i in range(len(self.data)))

    @property
    def record(self):
        return sum(np.dtype(t).itemsize for t in self.dtypes)

    def expect(self, name, lo, hi):
        """What a reader of this trace may return for points lo..hi."""
        if name in self.aliases:
            return self.aliases[name][1]()[lo:hi]
        d = self.data[self.names.index(name)][lo:hi]
        return d


class Model:
    def __init__(self, spec):
        self.seed = spec.get("seed", 0)
        self.dialect = spec["dialect"]
        self.ascii = spec.get("ascii", False)
        self.fast = spec.get("fast", False)
        self.double = spec.get("double", False)
        self.blank = spec.get("blank", True)
        self.encoding = "utf-16-le" if self.dialect == "ltspice" and not self.ascii and not spec.get("utf8") else "utf-8"
        self.plots = [Plot(self, p, i) for i, p in enumerate(spec["plots"])]
        self.tail = spec.get("tail", "").encode()

    def suffix(self):
        return ".qraw" if self.dialect == "qspice" else ".raw"

    def bytes(self):
        return b"".join(p.header(p.n) + p.body() for p in self.plots) + self.tail

    def log_head(self):
        return "Circuit: * dst model file\n\n" if self.dialect == "ltspice" else "QSPICE64\n"

    def step_line(self, k, total):
        if self.dialect == "ltspice":
            return ".step res=%d mode=%d\n" % (k + 1, 10 * (k + 1))
        return "%d of %d steps:  .step res=%d mode=%d\n" % (k + 1, total, k + 1, 10 * (k + 1))

    def log(self):
        p = self.plots[0]
        s = self.log_head()
        if p.stepped:
            s += "".join(self.step_line(k, len(p.steps)) for k in range(len(p.steps)))
        return (s + "\nTotal elapsed time: 0.021 seconds.\n").encode()


def gen_model(rng, stepped=None, multi=None, small=False, dialect=None):
    d = dialect or rng.choice(["ltspice", "ltspice", "qspice", "ngspice", "xyce"])
    spec = {"dialect": d, "seed": rng.randint(0, 1 << 30), "ascii": rng.random() < 0.3}
    kinds = ["tran", "tran", "ac", "dc", "op", "noise"]
    st = d in ("ltspice", "qspice") and rng.random() < 0.4 if stepped is None else stepped and d in ("ltspice", "qspice")
    np_ = 1
    if multi or (multi is None and d in ("ngspice", "qspice", "xyce") and not st and rng.random() < 0.35):
        np_ = rng.choice([2, 2, 3])
    if d == "ltspice" and not spec["ascii"]:
        spec["fast"] = rng.random() < 0.35
        spec["utf8"] = rng.random() < 0.15
    if d == "ltspice":
        spec["double"] = rng.random() < 0.2
    if d in ("ngspice", "xyce") and spec["ascii"]:
        spec["blank"] = rng.random() < 0.7
    if d == "xyce" and not spec["ascii"] and np_ == 1 and rng.random() < 0.3:
        spec["tail"] = "TIME,V(1),R1:R\n2.50000000e-01,2.50000000e-01,1.00000000e+00\n5.00000000e-01,5.0e-01,1.0e+00\n"
    plots = []
    for i in range(np_):
        k = rng.choice(kinds)
        q = {"kind": k, "nvars": rng.choice([1, 2, 3, 5, 8]), "vseed": i, "odd": rng.random() < 0.3, "alias": rng.random() < 0.6}
        if k == "op":
            q["steps"] = [1]
        else:
            q["steps"] = [rng.choice([1, 2, 3, 7, 20, 60] if small else [1, 2, 5, 20, 80, 300])]
        if st and k != "noise":
            q["stepped"] = True
            ns = rng.choice([1, 2, 3, 6])
            q["steps"] = [1] * ns if k == "op" else [rng.choice([1, 2, 3, 7, 20]) for _ in range(ns)]
        if rng.random() < 0.25 and not q["alias"]:
            q["wild"] = True
        if k == "tran" and d == "ltspice" and rng.random() < 0.2:
            q["negtime"] = True
        if k == "dc" and rng.random() < 0.3:
            q["down"] = True
        plots.append(q)
    spec["plots"] = plots
    return spec
