"""Schematics (LTspice .asc, QSPICE .qsch) for the schematics harness: generation, rendering, an own reader of saved files
and the reference model of an edit history (independent of spicelib's parsers)."""
import collections
import copy
import random
import re
from . import netmodel as nm

UNIQUE = nm.UNIQUE
WORD = re.compile(r'([A-Za-z_]\w*)\s*=\s*("[^"]*"|\{[^}]*\}|[^\s"]+)|(\S+)')
ASC_NAMED = ("Value2", "SpiceModel")
LINES = ("SpiceLine", "SpiceLine2")
BOM = "ï»¿"
INSTR = [t for t in nm.INSTR if not t.startswith(".model SW1")] + [".include models.txt", ".save V(out)", ".options plotwinsize=0"]
COMMENTS = ["a comment", "Note: a remark", "Gain: 3: exactly", ".tran 1m", ".param zz=1", "R1 in out 5k", "(x, y) = 1", ".ac dec 1 1 2\\n.param q=2", "100% of it", "a; b ! c"]


def words(text):
    """A line of component parameters: [[k, v] or word]."""
    return [[m.group(1), m.group(2)[1:-1] if re.match("<.*>$", m.group(2)) else m.group(2)] if m.group(1) else m.group(3) for m in WORD.finditer(text)]


def param_line(line):
    m = re.match(r"\.param\w*\b(.*)$", line, re.I)
    return None if m is None else [[k, v] for k, v in re.findall(r"([A-Za-z_]\w*)\s*(?:=|\s)\s*(\{[^}]*\}|[^\s=]+)", m.group(1))]


# ================================================================ the model
class Comp:
    def __init__(self, c, fmt):
        self.fmt = fmt
        self.ref, self.kind, self.sub = c["ref"], c["kind"], c.get("sub")
        self.x, self.y, self.rot = c["x"], c["y"], c["rot"]
        self.touched = False
        self.moved = False
        self.added = []             # parameters that were not there
        if fmt == "asc":
            self.symbol, self.win = c["symbol"], c["win"]
            self.attrs = collections.OrderedDict((k, v) for k, v in c["attrs"] if k not in LINES)
            self.lines = collections.OrderedDict((k, words(v)) for k, v in c["attrs"] if k in LINES)
            self.order = [k for k, _ in c["attrs"]]
        else:
            self.symbol = c["symbol"]
            self.opaque = c["opaque"]
            self.attrs = collections.OrderedDict(Value=c["value"])
            self.lines = collections.OrderedDict((i, words(t["text"])) for i, t in enumerate(c["texts"][2:]))
            self.geo = [t["geo"] for t in c["texts"]]
            self.enabled = c["en"] == 0
            self.pins = [list(p) for p in c["pins"]]
            self.type = c["type"]
            self.lib = c["lib"]
            self.nets = []

    @property
    def value(self):
        v = [self.attrs[k] for k in ("Value", "Value2") if k in self.attrs]
        return v[0] if len(v) == 1 else " ".join(str(x) for x in v) if v else None

    def params(self):
        out = collections.OrderedDict()
        for ws in self.lines.values():
            for w in ws:
                if isinstance(w, list):
                    out[w[0]] = w[1]
        return out

    def named(self):
        return {k: v for k, v in self.attrs.items() if k in ("Value",) + ASC_NAMED}

    def set_param(self, k, v):
        """-> 'set', 'added', 'deleted' or None (nothing to do)"""
        if self.fmt == "asc" and k in ASC_NAMED:
            had = k in self.attrs
            if v is None:
                if not had:
                    return None
                del self.attrs[k]
                return "deleted"
            self.attrs[k] = v
            return "set"
        if self.kind == "T" and [w for w in words(str(self.attrs["Value"])) if isinstance(w, list) and w[0] == k]:
            self.attrs["Value"] = "" if v is None else "%s=%s" % (k, v)       # it's in the value
            return "deleted" if v is None else "set"
        for name in list(self.lines):
            ws = self.lines[name]
            for i, w in enumerate(ws):
                if isinstance(w, list) and w[0] == k:
                    if v is None:
                        del ws[i]
                        if not ws:
                            del self.lines[name]
                        return "deleted"
                    ws[i] = [k, v]
                    return "set"
        if v is None:
            return None
        if self.fmt == "asc":
            self.lines.setdefault("SpiceLine", []).append([k, v])
        else:
            n = len(self.lines)
            while n in self.lines:
                n += 1
            self.lines[n] = [[k, v]]
        return "added"


class Text:
    def __init__(self, t):
        self.cmt = bool(t["cmt"])
        self.geo = t["geo"]          # None: anywhere
        self.qual = t.get("qual", True)
        self.lines = []
        for ln in ([t["text"]] if self.cmt else t["text"].split("\\n")):
            p = None if self.cmt else param_line(ln)
            self.lines.append(("i", ln) if p is None else ("p", p))

    def show(self):
        return [x[1] for x in self.lines]


class Sch:
    def __init__(self, s, fmt):
        self.fmt = fmt
        self.comps = [Comp(c, fmt) for c in s["comps"]]
        self.texts = [Text(t) for t in s["texts"]]
        self.rest = copy.deepcopy(s["rest"])        # everything that no edit touches
        self.nodes = True           # no component was moved since loading: the nets are known
        if fmt == "qsch":
            self.find_nets()

    def find_nets(self):
        """The nets at the pins, as the file says them (None: not connected)."""
        at = {}
        for kind in ("net", "wire"):
            for x in self.rest["other"]:
                if x.startswith(kind + " "):
                    name = re.search(r'"(.*)"$', x).group(1)
                    for p in re.findall(r"\((-?\d+),(-?\d+)\)", x)[:1 if kind == "net" else 2]:
                        at.setdefault((int(p[0]), int(p[1])), "0" if name == "GND" else name)
        self.names = set(at.values())
        for c in self.comps:
            c.nets = ["¥" if p[3:] else at.get(pin_place({"x": c.x, "y": c.y, "rot": c.rot}, p)) for p in c.pins]

    def find(self, ref):
        return next((c for c in self.comps if c.ref == ref), None)

    def params(self):
        out = collections.OrderedDict()
        for t in self.texts:
            for kind, x in t.lines:
                if kind == "p":
                    for k, v in x:
                        out.setdefault(k.upper(), v)
        return out

    def set_param(self, k, v):
        for t in self.texts:
            for kind, x in t.lines:
                if kind == "p":
                    for kv in x:
                        if kv[0].upper() == k.upper():
                            kv[1] = v
                            return "set"
        self.add_text("p", [[k, v]])
        return "added"

    def add_text(self, kind, x):
        t = Text({"cmt": False, "geo": None, "text": ""})
        t.lines = [(kind, x)]
        self.texts.append(t)

    def add_instr(self, text):
        """-> the instruction that was replaced"""
        if text.split()[0].upper() in UNIQUE:
            for t in self.texts:
                for i, (kind, x) in enumerate(t.lines):
                    if not t.cmt and kind == "i" and x.split() and x.split()[0].upper() in UNIQUE:
                        t.lines[i] = ("i", text)
                        return x
        self.add_text("i", text)
        return None

    def _del(self, t, i):
        x = t.lines.pop(i)[1]
        if not t.lines:
            self.texts.remove(t)
        return x

    def rm_instr(self, text):
        for t in self.texts:
            if t.cmt:
                continue
            for i, (kind, x) in enumerate(t.lines):
                if kind == "i" and text in x:
                    return self._del(t, i)
        return None

    def rmx(self, pat):
        out = []
        for t in list(self.texts):
            if t.cmt:
                continue
            for i in range(len(t.lines) - 1, -1, -1):
                kind, x = t.lines[i]
                if kind == "i" and re.match(pat, x, re.I):
                    out.append(self._del(t, i))
        return out


# ================================================================ comparison
def lines_diff(got, want):
    """Component parameter lines, word by word."""
    g, w = [x for x in got.values() if x], [x for x in want.values() if x]
    if len(g) != len(w):
        return "parameter lines are %s, expected %s" % (g, w)
    for a, b in zip(g, w):
        if len(a) != len(b):
            return "parameter line is %s, expected %s" % (a, b)
        for x, y in zip(a, b):
            if isinstance(x, list) != isinstance(y, list) or (isinstance(x, list) and (x[0] != y[0] or not nm.same(x[1], y[1]))) or (not isinstance(x, list) and x != y):
                return "parameter line is %s, expected %s" % (a, b)
    return None


def comp_diff(g, w):
    if g.symbol != w.symbol:
        return "symbol is %s, expected %s" % (g.symbol, w.symbol)
    if (g.x, g.y, g.rot) != (w.x, w.y, w.rot):
        return "place is %s, expected %s" % ((g.x, g.y, g.rot), (w.x, w.y, w.rot))
    if sorted(g.attrs) != sorted(w.attrs):
        return "attributes are %s, expected %s" % (dict(g.attrs), dict(w.attrs))
    for k, v in w.attrs.items():
        if g.attrs[k] != str(v) and not (w.touched and nm.same(decap(g.attrs[k]), decap(v))):
            return "%s is %r, expected %r" % (k, g.attrs[k], v)
    d = lines_diff(g.lines, w.lines)
    if d:
        return d
    if w.fmt == "asc":
        if g.win != w.win:
            return "windows are %s, expected %s" % (g.win, w.win)
        if not w.touched and g.order != w.order:
            return "attributes are in order %s, expected %s" % (g.order, w.order)
    else:
        if g.opaque != w.opaque:
            i = next((i for i in range(min(len(g.opaque), len(w.opaque))) if g.opaque[i] != w.opaque[i]), -1)
            return "symbol parts are %s, expected %s" % (g.opaque[i:i + 2], w.opaque[i:i + 2])
        if g.enabled != w.enabled or g.pins != w.pins or g.type != w.type or g.lib != w.lib:
            return "pins/type/library are %s, expected %s" % ((g.enabled, g.pins, g.type, g.lib), (w.enabled, w.pins, w.type, w.lib))
        n = min(len(g.geo), len(w.geo))
        if not w.touched and g.geo != w.geo or g.geo[:2] != w.geo[:2]:
            return "text places are %s, expected %s" % (g.geo[:n], w.geo[:n])
    return None


def texts_diff(got, want):
    if len(got) != len(want):
        return "texts are %s, expected %s" % ([t.show() for t in got], [t.show() for t in want])
    for g, w in zip(got, want):
        if g.cmt != w.cmt or len(g.lines) != len(w.lines):
            return "text is %s, expected %s" % (g.show(), w.show())
        if w.geo is not None and (g.geo != w.geo or g.qual != w.qual):
            return "text %s is at %s, expected %s" % (w.show(), (g.geo, g.qual), (w.geo, w.qual))
        if w.geo is None and not g.qual:
            return "text %s isn't marked as an instruction" % (w.show(),)
        for (ka, a), (kb, b) in zip(g.lines, w.lines):
            ok = ka == kb
            if ok and ka == "i":
                ok = a == b or nm.squash(a) == nm.squash(b) and not w.cmt
            elif ok:
                ok = [k for k, _ in a] == [k for k, _ in b] and all(nm.same(x[1], y[1]) for x, y in zip(a, b))
            if not ok:
                return "text line is %s, expected %s" % (a, b)
    return None


def diff(got, want):
    a, b = [c.ref for c in got.comps], [c.ref for c in want.comps]
    if a != b:
        return "components are %s, expected %s" % (a, b)
    for c in want.comps:
        d = comp_diff(got.find(c.ref), c)
        if d:
            return "%s: %s" % (c.ref, d)
    d = texts_diff(got.texts, want.texts)
    if d:
        return d
    for k in want.rest:
        if got.rest[k] != want.rest[k]:
            g, w = got.rest[k], want.rest[k]
            if isinstance(w, list):
                i = next((i for i in range(min(len(g), len(w))) if g[i] != w[i]), min(len(g), len(w)))
                return "%s differ from number %d: %s, expected %s (%d, expected %d)" % (k, i, g[i:i + 1], w[i:i + 1], len(g), len(w))
            return "%s is %r, expected %r" % (k, g, w)
    return None


# ================================================================ asc
ASC_ROT = ["R0", "R90", "R180", "R270", "M0", "M90", "M180", "M270"]
ALIGN = ["Left", "Right", "Center", "Top", "Bottom", "VLeft", "VRight", "VTop", "VBottom", "VCenter", "Invisible"]
SYMS = {"R": ["res", "res2"], "C": ["cap", "polcap"], "L": ["ind"], "V": ["voltage", "Misc\\\\battery"], "D": ["diode"], "M": ["nmos"], "I": ["current"]}
ASY = """Version 4
SymbolType %s
LINE Normal 16 88 16 96
RECTANGLE Normal -32 -32 32 32
WINDOW 0 36 40 Left 2
WINDOW 3 36 76 Left 2
%sSYMATTR Description a symbol
PIN 16 16 NONE 0
PINATTR PinName A
PINATTR SpiceOrder 1
PIN 16 96 NONE 0
PINATTR PinName B
PINATTR SpiceOrder 2
"""


ASY_PARTS = ["LINE Normal 0 -80 48 -80 1", "CIRCLE Normal -36 -18 36 54", "CIRCLE Normal 0 0 8 8 2", "ARC Normal 36 -18 92 -54 60 -7 58 -60",
             "ARC Normal -8 -8 8 8 0 8 0 -8 1", "RECTANGLE Normal 128 128 -128 -112 2", "TEXT 26 1 Left 2 amplifier", "TEXT -10 30 VBottom 1 +in",
             "TEXT 0 0 Center 2 an old part", "WINDOW 38 0 0 VRight 2", "WINDOW 39 4 8 Right 0", "WINDOW 3 8 120 VTop 1", "WINDOW 123 -8 0 Top 2", "SYMATTR SpiceLine ",
             "SYMATTR Value2 none"]
ASY_PIN = ["PIN 16 16 LEFT 8", "PIN 16 16 RIGHT 8", "PIN 16 16 TOP 4", "PIN 16 16 BOTTOM 4", "PIN 16 16 VTOP 8", "PIN 16 16 VBOTTOM 8", "PIN 16 16 VRIGHT 8", "PIN 16 16 VLEFT 8"]


def asy(seed, name, kind, attrs):
    """A symbol, with the graphics of its own."""
    rng = random.Random("%s %s" % (seed, name))
    text = ASY % (kind, attrs)
    if rng.random() < 0.6:
        parts = [x for x in rng.sample(ASY_PARTS, rng.randrange(1, 5)) if kind == "CELL" or "SYMATTR" not in x]
        text = text.replace("WINDOW 0", "\n".join(parts + ["WINDOW 0"]), 1)
        text = text.replace("PIN 16 16 NONE 0", rng.choice(ASY_PIN + ["PIN 16 16 NONE 0"] * 4))
        if rng.random() < 0.3 and "Prefix X" in text:
            text = text.replace("Prefix X", "Prefix x")
        text = text.replace("Version 4\n", rng.choice(["Version 4\n", "Version 4.1\n"]))
    return text


def gen_asc_attrs(rng, kind):
    a = []
    if kind in "RCL":
        a.append(["Value", nm.gen_value(rng, kind, text=True)])
        if rng.random() < 0.4:
            a.append(["SpiceLine", rng.choice(["tol=1% pwr=0.1", "V=10 Irms=0 Rser=0.1 mfg=\"KEMET\" pn=\"A700 D\" type=\"Al\"", "tc1=1m", "Rser=0.1 noopiter", "tc1={a*2} temp=25",
                                               "tc1={a + 2} m=2", "mfg=TDK Rser=0.1", "tc1 = 1m m = 2", "IC=0", "Rser=1e-3"])])
        if rng.random() < 0.12:
            a.append(["SpiceLine2", rng.choice(["Cpar=1p", "Lser=1n Rpar=1Meg"])])
    elif kind in "VI":
        a.append(["Value", nm.gen_value(rng, kind, text=True)])
        if rng.random() < 0.4:
            a.append(["Value2", rng.choice(["AC 1", "AC 1 90"])])
        if rng.random() < 0.3:
            a.append(["SpiceLine", rng.choice(["Rser=1", "Rser=1 Cpar=1p"])])
    elif kind in "DM":
        a.append(["Value", rng.choice(nm.MODELS[kind])])
        if rng.random() < 0.2:
            a.append(["Value2", rng.choice(["temp=50", "m=2"])])
    if kind != "X" and rng.random() < 0.1:
        a.append(["Type", rng.choice(["Capacitor", "a: b", "x y  z"])])
    if rng.random() < 0.08:
        a.append(["SpiceModel", rng.choice(["MYMODEL", "x1 x2"])])
    if rng.random() < 0.06 and kind != "X":
        a = [x for x in a if x[0] != "Value"]
    rng.shuffle(a) if rng.random() < 0.2 else None
    return a


def gen_texts(rng, fmt, n, geo):
    out = []
    uniq = False
    have = set()
    pool = rng.sample(INSTR, min(n, len(INSTR)))
    for t in pool:
        ls = []
        for k in range(rng.choice([1, 1, 1, 2, 3])):
            r = rng.random()
            if r < 0.35:
                kv = [[p, str(nm.gen_pvalue(rng))] for p in rng.sample(nm.PNAMES, rng.choice([1, 1, 2])) if p.lower() not in have]
                kv = [x for i, x in enumerate(kv) if x[0].lower() not in [y[0].lower() for y in kv[:i]]]
                have.update(x[0].lower() for x in kv)
                if kv:
                    ls.append(rng.choice([".param", ".param", ".PARAM"]) + " " + " ".join(k + rng.choice(["=", "=", " = "]) + v for k, v in kv))
            elif k == 0 or r < 0.8:
                x = t if k == 0 else rng.choice(INSTR)
                if x.split()[0].upper() in UNIQUE:
                    if uniq:
                        continue
                    uniq = True
                ls.append(x)
        if ls:
            out.append({"cmt": False, "geo": geo(), "text": "\\n".join(ls), "qual": fmt == "asc" or rng.random() < 0.85})
    for _ in range(rng.choice([0, 1, 1, 2])):
        out.insert(rng.randrange(len(out) + 1), {"cmt": True, "geo": geo(), "text": rng.choice(COMMENTS), "qual": fmt == "asc" or rng.random() < 0.5})
    if fmt == "asc" and rng.random() < 0.04:
        out.insert(rng.randrange(len(out) + 1), {"cmt": False, "geo": geo(), "text": ""})
    return out


def gen_asc(rng, blocks, libs, big, n0=1):
    co = lambda: rng.randrange(-60, 100) * 16
    size = rng.choice([1, 2, 3, 5] if not big else [3, 6, 12])
    kinds = [rng.choice("RRRCCLVVDMI") for _ in range(size)]
    comps = []
    for i, k in enumerate(kinds):
        comps.append({"kind": k, "ref": rng.choice([k + str(n0 + i), k + str(n0 + i), k + "_a%d" % (n0 + i), k + "in%d" % (n0 + i)]), "symbol": rng.choice(SYMS[k]), "attrs": gen_asc_attrs(rng, k)})
    if not any(k == "R" for k in kinds):
        comps.append({"kind": "R", "ref": "R%d" % (n0 + 50), "symbol": "res", "attrs": gen_asc_attrs(rng, "R")})
    for j, b in enumerate(blocks):
        a = [["SpiceLine", rng.choice(["gain=2 Rin=1k", "gain={a}", "e1=1"])]] if rng.random() < 0.5 else []
        comps.append({"kind": "X", "ref": rng.choice(["X%d", "X%d", "XU%d", "U%d"]) % (j + 1), "symbol": b[:-4], "attrs": a, "sub": b})
    for j, name in enumerate(libs):
        comps.append({"kind": "X", "ref": "XL%d" % (j + 1), "symbol": name, "attrs": [["Value", name]] if rng.random() < 0.5 else []})
    rng.shuffle(comps)
    for c in comps:
        c.update(x=co(), y=co(), rot=rng.choice(ASC_ROT))
        c["win"] = [[n, co(), co(), rng.choice(ALIGN), rng.choice([0, 2, 2, 3])] for n in rng.sample([0, 3, 38, 39, 123], rng.choice([0, 0, 1, 2, 4]))]
        c["at"] = rng.choice([0, 0, 0, len(c["attrs"])])       # where InstName stands
    flags = []
    for _ in range(rng.choice([0, 1, 3])):
        flags.append([co(), co(), rng.choice(["0", "out", "in", "N_1", "V+"]), rng.choice([None, None, "In", "Out", "BiDir"])])
    style = lambda: rng.choice(["", "", " 2", " 1"])
    rest = {"version": rng.choice(["4", "4", "4.1"]), "sheet": rng.choice(["1 880 680", "1 2000 -1200"]),
            "wires": [[co(), co(), co(), co()] for _ in range(rng.choice([0, 2, 5]))], "flags": flags,
            "lines": [[co(), co(), co(), co(), style()] for _ in range(rng.choice([0, 0, 1, 2]))], "shapes": []}
    for _ in range(rng.choice([0, 0, 1, 2])):
        n = rng.choice(["RECTANGLE", "CIRCLE", "ARC"])
        rest["shapes"].append([n] + [co() for _ in range(8 if n == "ARC" else 4)] + [style()])
    geo = lambda: [co(), co(), rng.choice(ALIGN[:10]), rng.choice([0, 2, 2, 3])]
    return {"comps": comps, "texts": gen_texts(rng, "asc", rng.choice([0, 1, 3, 5]), geo), "rest": rest}


def render_asc(s):
    r = s["rest"]
    out = ["Version " + r["version"], "SHEET " + r["sheet"]]
    out += ["WIRE %d %d %d %d" % tuple(w) for w in r["wires"]]
    for f in r["flags"]:
        out.append("FLAG %d %d %s" % tuple(f[:3]))
        if f[3]:
            out.append("IOPIN %d %d %s" % (f[0], f[1], f[3]))
    for c in s["comps"]:
        out.append("SYMBOL %s %d %d %s" % (c["symbol"], c["x"], c["y"], c["rot"]))
        out += ["WINDOW %d %d %d %s %d" % tuple(w) for w in c["win"]]
        at = ["SYMATTR %s %s" % (k, v) for k, v in c["attrs"]]
        at.insert(c["at"], "SYMATTR InstName " + c["ref"])
        out += at
    for t in s["texts"]:
        out.append("TEXT %d %d %s %d " % tuple(t["geo"]) + (";" if t["cmt"] else "!") + t["text"])
    out += ["LINE Normal %d %d %d %d%s" % tuple(x) for x in r["lines"]]
    out += ["%s Normal %s%s" % (x[0], " ".join(str(n) for n in x[1:-1]), x[-1]) for x in r["shapes"]]
    return "\n".join(out) + "\n"


def read_asc(text):
    """-> (spec of a schematic, problems)"""
    s = {"comps": [], "texts": [], "rest": {"version": None, "sheet": None, "wires": [], "flags": [], "lines": [], "shapes": []}}
    r, probs, c = s["rest"], [], None
    if not text.endswith("\n"):
        probs.append("the last line isn't ended: %r" % text[-40:])
    for ln in text.split("\n")[:-1]:
        t = ln.split()
        try:
            w = t[0] if t else ""
            if w == "Version":
                r["version"] = t[1]
            elif w == "SHEET":
                r["sheet"] = ln[6:]
            elif w == "WIRE":
                r["wires"].append([int(x) for x in t[1:]])
            elif w == "FLAG":
                r["flags"].append([int(t[1]), int(t[2]), " ".join(t[3:]), None])
            elif w == "IOPIN":
                f = next((f for f in reversed(r["flags"]) if f[:2] == [int(t[1]), int(t[2])]), None)
                if f is None:
                    probs.append("%r without its FLAG" % ln)
                else:
                    f[3] = t[3]
            elif w == "SYMBOL":
                c = {"kind": "?", "ref": None, "symbol": " ".join(t[1:-3]), "x": int(t[-3]), "y": int(t[-2]), "rot": t[-1], "win": [], "attrs": []}
                s["comps"].append(c)
            elif w == "WINDOW":
                c["win"].append([int(t[1]), int(t[2]), int(t[3]), t[4], int(t[5])])
            elif w == "SYMATTR":
                k = t[1]
                v = ln.split(" ", 2)[2] if len(ln.split(" ", 2)) > 2 else ""
                if not v.strip():
                    probs.append("%r says nothing" % ln)
                if k == "InstName":
                    c["ref"] = v
                elif k in dict(c["attrs"]):
                    probs.append("%s has %s twice" % (c["ref"], k))
                else:
                    c["attrs"].append([k, v])
            elif w == "TEXT":
                m = re.match(r"TEXT (-?\d+) (-?\d+) (\w+) (\d+) ([!;])(.*)$", ln)
                s["texts"].append({"cmt": m.group(5) == ";", "geo": [int(m.group(1)), int(m.group(2)), m.group(3), int(m.group(4))], "text": m.group(6)})
            elif w == "LINE":
                r["lines"].append([int(x) for x in t[2:6]] + ([" " + t[6]] if len(t) > 6 else [""]))
            elif w in ("RECTANGLE", "CIRCLE", "ARC"):
                n = 10 if w == "ARC" else 6
                r["shapes"].append([w] + [int(x) for x in t[2:n]] + ([" " + t[n]] if len(t) > n else [""]))
            else:
                probs.append("unknown line %r" % ln)
        except (ValueError, IndexError, TypeError, AttributeError) as e:
            probs.append("unreadable line %r (%r)" % (ln, e))
    for c in s["comps"]:
        if not c["ref"]:
            probs.append("a symbol without InstName")
    refs = [c["ref"] for c in s["comps"]]
    for x in set(refs):
        if refs.count(x) > 1:
            probs.append("%s is there twice" % x)
    return s, probs


# ================================================================ qsch
QKIND = {   # kind: (symbol, type, pins)
    "R": ("R", "R", [[0, 200, "1"], [0, -200, "2"]]), "C": ("C", "C", [[0, 200, "1"], [0, -200, "2"]]), "L": ("L", "L", [[0, 200, "1"], [0, -200, "2"]]),
    "V": ("V", "V", [[0, 200, "+"], [0, -200, "-"]]), "I": ("I", "I", [[0, 200, "+"], [0, -200, "-"]]), "D": ("D", "D", [[0, 200, "A"], [0, -200, "K"]]),
    "Q": ("NPN", "QN", [[100, 200, "C"], [-100, 0, "B"], [100, -200, "E"]]), "M": ("NMOS", "MN", [[100, 200, "D"], [-200, 0, "G"], [100, -200, "S"]]),
    "J": ("NJF", "JN", [[100, 200, "D"], [-100, 0, "G"], [100, -200, "S"]]), "B": ("B", "B", [[0, 200, "+"], [0, -200, "-"]]),
    "G": ("G", "G", [[0, 200, "+"], [0, -200, "-"], [-200, 100, "+"], [-200, -100, "-"]]), "S": ("SW", "S", [[0, 200, "1"], [0, -200, "2"], [-200, -100, "+"], [-200, 100, "-"]]),
    "T": ("T", "T", [[-400, 100, "L1"], [-400, -100, "L2"], [400, 100, "R1"], [400, -100, "R2"]]), "×": ("Transformer", "×", [[-200, 200, "PRI+"], [-200, -200, "PRI-"], [100, 200, "SEC+"], [100, -200, "SEC-"]]),
    "Z": ("NMF", "ZN", [[100, 200, "D"], [-200, 0, "G"], [100, -200, "S"]]), "W": ("CSW", "W", [[0, 200, "1"], [0, -200, "2"]]),
    "¥": ("AND2", "¥", [[0, 400, "Vdd"], [0, -400, "Vss"], [300, 0, "Q"], [300, -100, "¬Q"], [-300, 100, "A"], [-300, -100, "B"]]),
    "Ã": ("OpAmp", "Ã", [[100, 300, "Vdd"], [100, -300, "Vss"], [500, 0, "OUT"], [-100, 200, "IN-"], [-100, -200, "IN+"], [0, 100, "MULT+", 1], [0, -100, "MULT-", 1], [-100, 0, "EN", 1]]),
    "€": ("DAC8", "€", [[200, 900, "Vdd"], [200, -900, "Vss"], [800, 0, "OUT"], [-200, 900, "Ref"], [-700, 700, "A0"], [-700, 500, "A1"], [400, -400, "A8", 1], [-200, -900, "EN"]]),
    "£": ("TRISTATE", "£", [[-300, 600, "Vdd"], [-300, -600, "Vss"], [400, 100, "Q"], [400, -100, "¬Q"], [-300, 0, "IN"], [-400, -300, "EN"]]),
    "Ø": ("", "Ø(.DLL)", [[-800, 700, "CLK"], [-800, -100, "PRESET"], [800, 300, "OUT"], [800, -500, "IO"]])}
_P4 = [[100, 200, "C"], [-100, 0, "B"], [100, -200, "E"], [200, 0, "S"]]
QVAR = {"Q": [("PNP", "QP", None), ("NPNS", "QN", _P4), ("LPNP", "QP", _P4), ("PNPS", "QP", _P4)], "M": [("PMOS", "MP", None), ("NMOSB", "MN", _P4), ("PMOSB", "MP", _P4)],
        "J": [("PJF", "JP", None), ("PwrNJF", "JN", None)], "D": [("Zener", "D", None)], "L": [("bead", "L", None)], "Z": [("PMF", "ZP", None)]}
QVALUE = {"G": ["1", "0.5", "{gain}", 2], "S": ["MySW", "SW1"], "T": ["Td=<10n>", "Td=5n", "Td=<7n>"], "×": ["Turns=1 1", "Turns=1 2"], "Z": ["NMF", "GAN1"], "W": ["V1 CSW", "V2 CSW"], "¥": ["AND", "D-FLOP", "NOR"],
          "Ã": ["RRopAmp", "MultGmAmp"], "€": ["DAC"], "£": ["3STATE", "DGD"], "Ø": ["counter"]}
QTEXTS = {"Ã": [["Avol=<100K>", "GBW=<5Meg>", "Slew=<5Meg>"], ["Avol=<10K> GBW=<5Meg>"], []], "T": [["Z0=<50>"], ["Z0=75"]], "¥": [[], ["tripdt=<1n>"], ["m=2"]], "€": [["Rdac=<10>"], []], "Ø": [["shortfloat test = 2"], []],
          "×": [[], ["L=2"]], "S": [[], ["m=2"]]}
PAD = {"¥": 16, "Ã": 16, "€": 32, "£": 64}


def gen_qvalue(rng, kind, text=False):
    return str(rng.choice(QVALUE[kind])) if text else rng.choice(QVALUE[kind])


def decap(x):
    return re.sub(r"(\w+)=<([^>]*)>", r"\1=\2", x) if isinstance(x, str) else x


EMBED = "|.subckt mycomp OUT IN\\nE1 OUT 0 IN 0 {P}\\n.ends mycomp"


def qgeo(rng):
    return "(%d,%d) %s %d %%s 0x1000000 -1 -1" % (rng.randrange(-8, 9) * 50, rng.randrange(-8, 9) * 50, rng.choice(["1", "1", "0.681"]), rng.choice([7, 11, 12, 13, 77, 110]))


def gen_qsch(rng, blocks, big, n0=1, top=False):
    size = rng.choice([1, 2, 3, 5] if not big else [3, 6, 12])
    kinds = [rng.choice("RRRCCLVVDQMJIB") for _ in range(size)]
    if "R" not in kinds:
        kinds.append("R")
    if rng.random() < 0.15:
        kinds.append("E")
    special = rng.random() < 0.35
    if special:
        kinds += rng.sample("GST×ZW¥Ã€£", rng.choice([1, 1, 2, 4])) + (["Ø"] if top and rng.random() < 0.25 else [])
    comps = []
    for i, k in enumerate(kinds + ["X"] * len(blocks)):
        c = {"kind": k, "en": 1 if rng.random() < 0.06 else 0, "lib": None, "sub": None}
        if k == "X":
            b = blocks[i - len(kinds)]
            c.update(ref="X%d" % (i - len(kinds) + 1), symbol="", type="", pins=[[-500, 0, "IN"], [300, 0, "OUT"]][:rng.choice([1, 2, 2])], value=b[:-5], sub=b)
            ts = [["param1=9", "param2=0"], [], ["gain=2 Rin=1k"]][rng.randrange(3)]
        elif k == "E":
            c.update(ref="X%d" % (90 + i), symbol="Proportional", type="X", pins=[[300, 0, "OUT"], [-100, 0, "IN"]], value="mycomp", lib=EMBED)
            ts = ["P=2"]
        else:
            sym, typ, pins = QKIND[k]
            if special and k in QVAR and rng.random() < 0.5:
                s, typ, p = rng.choice(QVAR[k])
                sym, pins = s, p or pins
            c.update(ref="X%d" % (70 + i) if k == "Ø" else k + str(n0 + i) if k in QVALUE else rng.choice([k + str(n0 + i)] * 5 + [k + "in%d" % (n0 + i)] + (["Load%d" % (n0 + i)] if k == "R" else [])), symbol=sym, type=typ, pins=copy.deepcopy(pins),
                     value=unquoted(gen_qvalue(rng, k, True) if k in QVALUE else nm.gen_value(rng, k, text=True) if k != "J" else rng.choice(nm.MODELS["J"])))
            if k == "Ø":
                c["cfg"] = ["%s,%s" % (rng.choice(["in", "out", "input", "output", "inout", "common", "IN"]), rng.choice(["b", "uc", "f"])) for _ in pins]
            ts = rng.choice([[], [], ["tc1=1m tc2=0"], ["m=2"], ["Rser=1", "m=2"], ["tc1={a + 2}"], ["off"], ["temp = 50"], ["noise", "m=2 off"]] + [["Rser=<1>"], ["m=<2> tc1=<1m>"]] * special) if k in "RCLVID" else rng.choice(QTEXTS.get(k, [[]]))
            if k in "QMJ":
                c["lib"] = rng.choice([None, sym + ".txt", "local.txt"])
        c["texts"] = [{"geo": qgeo(rng) % "0", "text": None} for _ in range(2)] + [{"geo": qgeo(rng) % "0", "text": t} for t in ts]
        c["prims"] = ["line (0,200) (0,180) 0 0 0x1000000 -1 -1", "zigzag (-80,180) (80,-180) 0 0 0 0x1000000 -1 -1", "rect (-25,77) (25,73) 0 0 0 0x1000000 0x3000000 -1 0 -1"][:rng.choice([0, 1, 3])]
        c["desc"] = None if k == "X" else rng.choice(["Resistor(USA Style Symbol)", "a part", "Independent Voltage Source"])
        comps.append(c)
    rng.shuffle(comps)
    rest = []
    texts = []
    nn = [0]
    names = ["in", "out", "GND", "N01", "N02", "N3", "VCC", "N12", "mid", "Nx"]
    for i, c in enumerate(comps):
        c["x"], c["y"] = (4000 if special else 2000) * i - 3000, 100 * rng.randrange(-20, 20)
        c["rot"] = rng.choice([0, 0, 2, 4, 6, 1, 3, 5, 7, 8, 10, 12, 14, 9, 13])
        c["nets"] = []
        for p in c["pins"]:
            x, y = pin_place(c, p)
            r = rng.random()
            n = rng.choice(names)
            if r < 0.4:
                rest.append("net (%d,%d) 1 %d 0 \"%s\"" % (x, y, rng.choice([7, 11, 13, 14]), n))
            elif r < 0.88:
                a, b = "(%d,%d)" % (x, y), "(%d,%d)" % (x + 50, y + rng.choice([50, 1050]))
                if rng.random() < 0.5:
                    a, b = b, a
                rest.append("wire %s %s \"%s\"" % (a, b, n))
            else:
                n = None
            c["nets"].append("0" if n == "GND" else n)
    rest += rng.sample(["junction (-6700,-2400)", "line (2000,1300) (3150,-100) 1 1 0xff0000 -1 -1", "rect (1850,1550) (3650,-400) 0 0 0 0x8000 0x1000000 -1 0 -1",
                        "ellipse (2100,1150) (2650,150) 0 0 2 0xff0000 0x1000000 -1 -1", "arc3p (2700,300) (2250,1200) (2500,800) 0 2 0xff0000 -1 -1"], rng.choice([0, 1, 3]))
    geo = lambda: qgeo(rng)
    return {"comps": comps, "texts": gen_texts(rng, "qsch", rng.choice([0, 1, 3, 5]), geo), "rest": {"other": rest}, "tail": rng.random() < 0.3}


def pin_place(c, p):
    """Where a pin of a placed component is: turned by 45 degrees the symbol is larger by the square root of 2."""
    x, y, o = p[0], p[1], c["rot"] % 8
    for _ in range(o // 2):
        x, y = -y, x
    if o % 2:
        x, y = x - y, x + y
    return c["x"] + (-x if c["rot"] >= 8 else x), c["y"] + y


def render_qsch(s):
    out = ["ÿØÿÛ«schematic"]
    for c in s["comps"]:
        out.append("  «component (%d,%d) %d %d" % (c["x"], c["y"], c["rot"], c["en"]))
        out.append("    «symbol" + (" " + c["symbol"] if c["symbol"] else ""))
        if c["type"]:
            out.append("      «type: %s»" % c["type"])
        if c["desc"]:
            out.append("      «description: %s»" % c["desc"])
        if c["lib"]:
            out.append("      «library file: %s»" % c["lib"])
        out.append("      «shorted pins: false»")
        out += ["      «%s»" % p for p in c["prims"]]
        vals = [c["ref"], c["value"]] + [t["text"] for t in c["texts"][2:]]
        out += ["      «text %s \"%s\"»" % (t["geo"], v) for t, v in zip(c["texts"], vals)]
        out += ["      «pin (%d,%d) (0,0) 1 0 0 0x0 -1 \"%s\"" % tuple(p[:3]) + (" \"¥\"»" if p[3:] else "»") for p in c["pins"]]
        out += ["    »", "  »"]
    other = ["  «%s»" % x for x in s["rest"]["other"]]
    ts = ["  «text %s \"%s\"»" % (t["geo"] % (1 if t["cmt"] else 0), (BOM if t["qual"] else "") + t["text"]) for t in s["texts"]]
    out += ts + other if s["tail"] else other + ts
    out += ["»", "", ""]
    return "\n".join(out)


class Tag:
    def __init__(self):
        self.head, self.kids = "", []


def parse_tags(text, i):
    """A «...» element: (Tag, index behind it)"""
    t = Tag()
    i += 1
    while True:
        ch = text[i]
        if ch == "«":
            k, i = parse_tags(text, i)
            t.kids.append(k)
            continue
        if ch == "»":
            break
        if ch == '"':
            j = text.index('"', i + 1)
            t.head += text[i:j + 1]
            i = j + 1
            continue
        t.head += ch
        i += 1
    t.head = re.sub(r'\s+(?=(?:[^"]*"[^"]*")*[^"]*$)', " ", t.head).strip()
    return t, i + 1


def split_text(head):
    m = re.match(r'text (\([^)]*\) \S+ \S+) (\S+) (\S+ \S+ \S+) "(.*)"$', head, re.S)
    return None if m is None else (m.group(1) + " %s " + m.group(3), m.group(2), m.group(4))


def read_qsch(text):
    s, probs = {"comps": [], "texts": [], "rest": {"other": []}}, []
    if not text.startswith("ÿØÿÛ«"):
        return s, ["the header isn't there: %r" % text[:20]]
    try:
        root, end = parse_tags(text, 4)
    except (IndexError, ValueError):
        return s, ["the file isn't complete"]
    if text[end:].strip():
        probs.append("%r behind the end" % text[end:])
    if root.head != "schematic":
        probs.append("%r isn't a schematic" % root.head)
    for k in root.kids:
        w = k.head.split()[0]
        try:
            if w == "component":
                m = re.match(r"component \((-?[\d.]+),(-?[\d.]+)\) (\S+) (\S+)$", k.head)
                if m is None or len(k.kids) != 1:
                    probs.append("unreadable component %r" % k.head)
                    continue
                sy = k.kids[0]
                c = {"kind": "?", "ref": None, "x": int(m.group(1)), "y": int(m.group(2)), "rot": int(m.group(3)), "en": int(m.group(4)), "symbol": sy.head[6:].strip(), "type": "", "lib": None,
                     "texts": [], "pins": [], "opaque": [], "value": None}
                ts = []
                for q in sy.kids:
                    if q.kids:
                        probs.append("%r in a symbol has elements" % q.head)
                    if q.head.startswith("text "):
                        ts.append(split_text(q.head))
                    elif q.head.startswith("pin "):
                        p = re.match(r'pin \((-?\d+),(-?\d+)\) \(0,0\) 1 0 0 0x0 -1 "([^"]*)"( "¥")?$', q.head)
                        c["pins"].append([int(p.group(1)), int(p.group(2)), p.group(3)] + [1] * bool(p.group(4)))
                    elif q.head.startswith("type: "):
                        c["type"] = q.head[6:]
                    elif q.head.startswith("library file: "):
                        c["lib"] = q.head[14:]
                    else:
                        c["opaque"].append(q.head)
                c["ref"], c["value"] = ts[0][2], ts[1][2]
                c["texts"] = [{"geo": t[0] % t[1], "text": t[2]} for t in ts]
                s["comps"].append(c)
            elif w == "text":
                g, cmt, t = split_text(k.head)
                q = t.startswith(BOM)
                s["texts"].append({"cmt": cmt == "1", "geo": g, "text": t[len(BOM):] if q else t, "qual": q})
            else:
                s["rest"]["other"].append(k.head)
        except (ValueError, IndexError, TypeError, AttributeError) as e:
            probs.append("unreadable %r (%r)" % (k.head, e))
    refs = [c["ref"] for c in s["comps"]]
    for x in set(refs):
        if refs.count(x) > 1:
            probs.append("%s is there twice" % x)
    return s, probs


def as_spec_qsch(c):
    """What a generated component looks like to the reader (the texts of a component without reference and value)."""
    d = dict(c)
    d["opaque"] = (["description: " + c["desc"]] if c["desc"] else []) + ["shorted pins: false"] + list(c["prims"])
    return d


# ================================================================ whole specifications
def gen(rng, fmt, big=False):
    ext = "." + fmt
    top = "circuit" + ext
    spec = {"fmt": fmt, "top": top, "files": {}, "enc": rng.choice(["utf-8", "utf-8", "windows-1252"]) if fmt == "asc" else "cp1252"}
    nb = rng.choice([0, 0, 1, 1, 2])
    names = rng.choice([["blk1", "blk2", "deep"], ["blk1", "blk2", "deep"], ["blk1", "blk", "bl"], ["blk", "blk1", "blk11"], ["stage", "Gain-2", "my blk"] if fmt == "asc" else ["stage", "gain2", "b"]])
    blocks = [x + ext for x in names[:nb]]
    inner = [names[2] + ext] if nb and rng.random() < 0.4 else []
    libs = rng.choice([[], [], [], ["opa"]]) if fmt == "asc" else []
    spec["look"] = rng.randrange(100000)
    spec["libs"] = libs
    one = (lambda b, l, n: gen_asc(rng, b, l, big, n)) if fmt == "asc" else (lambda b, l, n, t=False: gen_qsch(rng, b, big, n, t))
    spec["files"][top] = one(blocks, libs, 1) if fmt == "asc" else one(blocks, libs, 1, True)
    for i, b in enumerate(blocks):
        spec["files"][b] = one(inner if i == 0 else [], [], 1)
    for b in inner:
        spec["files"][b] = one([], [], 1)
    if rng.random() < 0.35:
        for s in spec["files"].values():
            if s["texts"] and rng.random() < 0.8:
                t = rng.choice(s["texts"])
                t.update(cmt=1, text=rng.choice(["Größe 10 µm", "±5% à 25°C", "naïve"]))
    return spec


def unquoted(v):
    """How a .qsch holds a text with quotes isn't known."""
    return v.replace('"in 2.txt"', "in2.txt") if isinstance(v, str) else v


def asy_files(spec):
    """The symbols (asc)."""
    out = {}
    for k, names in SYMS.items():
        for n in names:
            out[n.replace("\\\\", "/") + ".asy"] = asy(spec.get("look"), n, "CELL", "SYMATTR Prefix %s\nSYMATTR Value %s\n" % (k, k))
    for f in spec["files"]:
        if f != spec["top"]:
            out[f[:-4] + ".asy"] = asy(spec.get("look"), f, "BLOCK", "")
    for n in spec["libs"]:
        out[n + ".asy"] = asy(spec.get("look"), n, "CELL", "SYMATTR Prefix X\nSYMATTR ModelFile dst.lib\nSYMATTR Value %s\n" % n)
    return out


def render(spec, name):
    s = spec["files"][name]
    return (render_asc(s) if spec["fmt"] == "asc" else render_qsch(s)).encode(spec["enc"])


def model(spec, name):
    s = dict(spec["files"][name])
    if spec["fmt"] == "qsch":
        s["comps"] = [as_spec_qsch(c) for c in s["comps"]]
    return Sch(s, spec["fmt"])


def from_file(data, fmt, enc):
    """-> (Sch, problems)"""
    try:
        text = data.decode(enc)
    except UnicodeDecodeError as e:
        return None, ["not %s: %r" % (enc, e)]
    s, probs = (read_asc if fmt == "asc" else read_qsch)(text)
    return (None if probs else Sch(s, fmt)), probs


# ================================================================ the netlist of a QSPICE schematic
def netlist(sch, subs, found, cfg=None):
    """The lines of the netlist: ["text", ...] exact tokens, ["elem", ref, nets, [piece...]], ["p", kv], ["lib", ...]."""
    out, libs, blocks = [], [], []
    for c in sch.comps:
        if not c.enabled:
            continue
        typ = c.type or "X"
        ref = c.ref if c.ref[0] == typ[0] else typ[0] + "´" + c.ref
        model, nets, pre, post = c.attrs["Value"], list(c.nets), [], []
        if c.lib and c.lib.startswith("|"):
            body = c.lib[1:].replace("\\n", "\n").split("\n")
            w = body[0].split()
            out.append(["text", " ".join([w[0], ref + "•" + w[1]] + w[2:])])
            out += [["text", x] for x in body[1:]]
            model = ref + "•" + str(model)
        elif c.lib and c.lib not in libs:
            libs.append(c.lib)
        if typ[0] == "Ø":
            if cfg and c.ref in cfg:
                groups = {"in": [], "out": [], "common": []}
                for n, x in zip(nets, cfg[c.ref]):
                    d, t = x.lower().split(",")
                    groups[{"input": "in", "output": "out", "inout": "common"}.get(d, d)].append((n, t))
                out.append(["dll", ref, list(groups.values()), model, [w for ws in c.lines.values() for w in ws]])
            continue
        if typ in PAD:
            nets += ["¥"] * (PAD[typ] - len(nets))
        if typ == "X" and c.sub and c.sub not in [b[0] for b in blocks]:
            blocks.append((c.sub, [p[2] for p in c.pins]))
        elif typ in ("QN", "QP", "MN", "MP"):
            post = [c.symbol]
            if typ[0] == "Q":
                post = ["PNP" if "PNP" in c.symbol else "NPN"]
                if len(nets) == 3:
                    pre = ["[0]"]
            elif len(nets) == 3:
                nets.append(nets[2])
            else:
                post = [c.symbol[:4]]
        elif typ in ("JN", "JP", "ZN", "ZP"):
            post = [c.symbol[3:] if c.symbol.startswith("Pwr") else c.symbol]
        elif typ == "T":
            model = decap(model)
        out.append(["elem", ref, nets, pre + [model] + post, [w for ws in c.lines.values() for w in ws]])
    for b, ports in blocks:
        out.append(["text", ".subckt %s %s" % (b[:-5], " ".join(ports))])
        out.append(["scope"])
        out += netlist(subs[b], subs, found)
        out.append(["endscope"])
        out.append(["text", ".ends " + b[:-5]])
    for t in sch.texts:
        if not t.cmt:
            out += [["p", x] if k == "p" else ["text", x] for k, x in t.lines if x]
    out += [["lib", x, found(x)] for x in libs]
    return out


def netlist_diff(text, want, names):
    """names: for every scope in order, the nets that the schematic names"""
    lines = [x for x in text.replace("\r\n", "\n").split("\n") if x.strip()]
    if not text.endswith("\n"):
        return "the last line isn't ended"
    if not lines or not lines[0].startswith("* ") or lines[-1] != ".end":
        return "the netlist begins with %r and ends with %r" % (lines[:1], lines[-1:])
    lines = lines[1:-1]
    scopes = [[next(names), {}]]
    i = 0
    for w in want:
        if w[0] == "scope":
            scopes.append([next(names), {}])
            continue
        if w[0] == "endscope":
            scopes.pop()
            continue
        if i >= len(lines):
            return "%s is missing" % (w,)
        ln = lines[i]
        i += 1
        if w[0] == "text":
            if nm.squash(ln) != nm.squash(w[1]):
                return "line %r, expected %r" % (ln, w[1])
        elif w[0] == "lib":
            if ln != ".lib " + (w[2] or w[1]):
                return "line %r, expected .lib %s" % (ln, w[2] or w[1])
        elif w[0] == "p":
            p = param_line(ln.strip())
            if p is None or [k for k, _ in p] != [k for k, _ in w[1]] or not all(nm.same(a[1], b[1]) for a, b in zip(p, w[1])):
                return "line %r, expected .param %s" % (ln, w[1])
        else:
            if w[0] == "dll":
                ref, groups, pieces, params = w[1:]
                m = re.match(r"(\S+) «([^«»]*)» «([^«»]*)» «([^«»]*)» (.*)$", ln)
                if m is None:
                    return "line %r, expected one of %s" % (ln, ref)
                got = [[x.rpartition("´") for x in g.split()] for g in m.groups()[1:4]]
                if [[x[2] for x in g] for g in got] != [[t for _, t in g] for g in groups]:
                    return "line %r, expected the pins %s" % (ln, groups)
                nets = [n for g in groups for n, _ in g]
                ln = " ".join([m.group(1)] + [x[0] for g in got for x in g] + [m.group(5)])
                pieces = [pieces]
            else:
                ref, nets, pieces, params = w[1:]
                if ref[0] == "×":
                    m = re.match(r"(\S+) «([^«»]*)» (.*)$", ln)
                    if m is None:
                        return "line %r, expected one of %s" % (ln, ref)
                    ln = " ".join(m.groups())
            n = len(nets)
            if ref[0] == "Q" and n == 4:
                ln = re.sub(r"^((?:\S+ ){4})\[(\S+)\] ", r"\1\2 ", ln)
                if ln == lines[i - 1]:
                    return "%r: the substrate isn't in brackets" % ln
            t = ln.split()
            if t[0] != ref or len(t) < 1 + n:
                return "line %r, expected one of %s" % (ln, ref)
            known, fresh = scopes[-1]
            mine = {}
            for k, (a, b) in enumerate(zip(t[1:1 + n], nets)):
                if b is not None and a != b:
                    return "pin %d of %s is at %r, expected %r (%r)" % (k + 1, ref, a, b, ln)
                if b is None:
                    if a in known:
                        return "the unconnected pin %d of %s is at the net %r of other pins (%r)" % (k + 1, ref, a, ln)
                    mine[a] = ref
            for a in mine:
                if a in fresh:
                    return "unconnected pins of %s and %s are both at %r" % (fresh[a], ref, a)
            fresh.update(mine)
            rest = ln.split(None, 1 + n)[1 + n] if len(t) > 1 + n else ""
            for x in pieces:
                m = len(str(x).split())
                r = rest.split(None, m)
                if not nm.same(" ".join(r[:m]), x):
                    return "%r: %r, expected %r" % (ln, " ".join(r[:m]), x)
                rest = r[m] if len(r) > m else ""
            g = words(rest)
            if len(g) != len(params) or not all(isinstance(a, list) == isinstance(b, list) and (a == b or isinstance(a, list) and a[0] == b[0] and nm.same(a[1], b[1])) for a, b in zip(g, params)):
                return "%r: parameters %s, expected %s" % (ln, g, params)
    if i < len(lines):
        return "%r isn't expected" % lines[i]
    return None
