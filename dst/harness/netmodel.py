"""SPICE netlists for the editor harness: generation, the reference model of an edit history, and an own reader of
the saved text (independent of spicelib's parser)."""
import collections
import copy
import re

UNIQUE = (".AC", ".DC", ".TRAN", ".NOISE", ".TF")
MULT = {"t": 1e12, "g": 1e9, "meg": 1e6, "k": 1e3, "m": 1e-3, "u": 1e-6, "µ": 1e-6, "n": 1e-9, "p": 1e-12, "f": 1e-15}
NUM = re.compile(r"^([+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)\s*(meg|t|g|k|m|u|µ|n|p|f)?[a-zA-ZΩ°%]*$", re.I)
NODES = {"R": 2, "C": 2, "L": 2, "V": 2, "I": 2, "D": 2, "Q": 3, "J": 3, "M": 4, "E": 2, "G": 2, "B": 2, "S": 4, "X": 2, "K": 2}


def eng(s):
    if isinstance(s, (int, float)):
        return float(s)
    m = NUM.match(str(s).strip())
    return float(m.group(1)) * MULT.get((m.group(2) or "").lower(), 1.0) if m else None


def squash(s):
    return re.sub(r"\s*([=,])\s*", r"\1", re.sub(r"\s+", " ", str(s))).strip()


def same(got, want):
    """The same value, whatever its notation (numbers are written with 6 digits)."""
    if isinstance(got, (list, tuple)):
        got = ",".join(str(x) for x in got)
    if isinstance(want, (list, tuple)):
        want = ",".join(str(x) for x in want)
    if squash(got) == squash(want):
        return True
    a, b = eng(got) if not isinstance(got, complex) else None, eng(want)
    if a is None or b is None:
        if "," in str(got) and "," in str(want):
            g, w = str(got).split(","), str(want).split(",")
            return len(g) == len(w) and all(same(x, y) for x, y in zip(g, w))
        return False
    return abs(a - b) <= 2e-5 * max(abs(a), abs(b))


# ================================================================ generation
PNAMES = ["a", "ba", "a1", "gain", "eps", "Ein", "Rload", "temp1", "x", "vin", "tau", "e0", "_k"]
CPARAMS = {"R": ["tc1", "temp", "m", "tc"], "C": ["ic", "m", "Rser"], "L": ["Rser", "ic"], "V": ["Rser", "Cpar"], "I": ["m", "R"], "D": ["temp", "m"],
           "Q": ["temp", "area"], "J": ["temp", "m"], "M": ["L", "W", "m", "ic"], "X": ["gain", "Rin", "e1"], "E": [], "G": [], "B": [], "S": [], "K": []}
MODELS = {"D": ["1N4148", "DMOD", "BAT54", "D"], "Q": ["2N2222", "QN", "BC547.A"], "J": ["J2N3819", "JX"], "M": ["IRF540", "NM1", "BSS-138"], "S": ["SW1", "MySw"]}
SOURCES = ["5", "DC 5", "SINE(0 1 1k)", "PULSE(0 5 0 1n 1n 5u 10u)", "PWL(0 0 1m 1)", "1 AC 1", "AC 1 90", "-12", "{vin}", "EXP(0 1 1u 2u 3u 4u)", "PWL file=stim.txt", 'PWL file="in 2.txt"']
INSTR = [".tran 1m", ".tran 0 5m 0 1u", ".ac dec 10 1 1Meg", ".dc V1 0 5 0.1", ".noise V(out) V1 dec 10 1 1k", ".op", ".meas tran m1 MAX V(out)",
         ".meas tran m2 FIND V(out) AT=1m", ".options reltol=1e-4", ".save V(out) I(R1)", ".ic V(out)=0", ".model DMOD D(Is=1n N=1.2)", ".step param a 1 5 1",
         ".temp 27", ".four 1k V(out)", ".nodeset V(n1)=2", ".func f(x) {x*2}", ".global vdd", ".tf V(out) V1", ".model SW1 SW(Ron=1 Roff=1Meg)"]
BLOCKS = [[".machine mealy", ".state S0 0", ".state S1 1", ".rule S0 S1 V(in)>2", ".output (out) V(n1)", ".endmachine"], [".machine", ".state R1 0", ".endmachine"]]
CONTROLS = [[".control", "run", "print all", ".endc"], [".control", "foreach v 1 2 3", "  alter R1 $v", "  run", "end", ".endc"], [".CONTROL", "op", ".ENDC"]]


FLAGS = "DJM"            # elements whose line can have a flag
LISTS = ["0.001,0.002", "0.6,5", "1,2.5,-3", "1u,{a}"]


def gen_number(rng):
    return rng.choice([0, 1, 10, 47, 1200, 4700, 1e6, 2.2e6, 4.7e-6, 1e-9, 3.3e-12, 0.5, 12.5, -5, 1000, 999, 1e9, 1.5e-3, 2e-15, 150e3, 33, 0.1, 1e12])


def gen_value(rng, kind, text=False, allow_expr=True, subs=None):
    """A component value; text=True: as it's written in a file."""
    k = rng.random()
    if kind in ("R", "C", "L"):
        if k < 0.4 and not text:
            return gen_number(rng) or 1
        if allow_expr and k < 0.55:
            return rng.choice(["{a*2}", "{Rload}", "{gain+1}", "{a}"])
        n = rng.choice(["1", "10", "4.7", "33", "0.5", "220", "1e3", "2.5e-3", "100"])
        u = {"R": ["", "k", "Meg", "m"], "C": ["n", "u", "p", "µ", ""], "L": ["u", "m", "n"]}[kind]
        return n + rng.choice(u) if "e" not in n else n
    if kind in ("V", "I"):
        return gen_number(rng) if k < 0.25 and not text else rng.choice(SOURCES)
    if kind in MODELS:
        return rng.choice(MODELS[kind])
    if kind in ("E", "G"):
        return rng.choice(["c1 0 10", "out 0 1Meg", "n1 n2 {gain}", "value={V(n1)*2}", "c1 0 0.5"])
    if kind == "B":
        return rng.choice(["V=V(n1)*2", "I=V(out)/1k", "V=if(V(n1)>1,5,0)"])
    if kind == "K":
        return rng.choice(["1", "0.98", "0.5"])
    return rng.choice(subs or ["SUB1"])


def gen_cparam(rng, key=""):
    if key in ("tc", "ic") and rng.random() < 0.5:
        return rng.choice(LISTS)
    return rng.choice([1, 2.5, 1e-6, "1k", "10u", "{a*3}", "{gain}", 0, 25, "0.1", "3.3"])


def gen_pvalue(rng):
    return rng.choice([1, 2, 5, 1200, 4.7e-6, 0.5, -3, "1k", "10u", "{a*2}", "{2*x+1}", "2.5", "1e-3", "-7", 1e9, "33", "{x}"])


def gen_comp(rng, kind, n, nodes, subs=None, layout=True):
    ref = kind + rng.choice([str(n), str(n), "%d" % n, "in%d" % n, "a_%d" % n])
    nn = NODES[kind]
    nd = [rng.choice(nodes) for _ in range(nn)]
    v = gen_value(rng, kind, text=True, subs=subs)
    ps = []
    if CPARAMS[kind] and rng.random() < 0.4:
        for k in rng.sample(CPARAMS[kind], rng.randint(1, len(CPARAMS[kind]))):
            pv = gen_cparam(rng, k if kind in "RM" else "")
            ps.append([k, str(pv).replace(",", rng.choice([",", ",", ", ", " , "]))])
    if kind in FLAGS and rng.random() < 0.2:
        ps.insert(rng.randrange(len(ps) + 1), ["off", True])
    lay = {}
    if layout:
        lay = {"sp": rng.choice([1] * 6 + [2, 3]), "cont": rng.random() < 0.1 and kind not in "BEG", "cmt": rng.choice([None] * 8 + [" ; a note", "  ; R=3 k"]),
               "eq": rng.choice(["="] * 8 + [" = "]), "trail": rng.choice([""] * 8 + ["  "]), "tab": rng.random() < 0.05, "low": rng.random() < 0.06,
               "lead": rng.choice([""] * 16 + [" "])}
    return {"t": "c", "kind": kind, "ref": ref, "nodes": nd, "value": v, "params": ps, "lay": lay}


def gen_items(rng, n, nodes, subs, kinds, size):
    items = []
    for i in range(size):
        kind = rng.choice(kinds)
        if kind == "X" and not subs:
            kind = "R"
        items.append(gen_comp(rng, kind, n[0], nodes, subs))
        n[0] += 1
    return items


def gen_net(rng, big=False):
    nodes = ["in", "out", "n1", "n2", "0", "vdd", "N_3", "net-1", "+V"]
    n = [1]
    net = {"title": rng.choice(["* dst circuit", "* C:\\work\\dst.asc", "* dst: a circuit", ".title KiCad schematic"]), "subs": [], "items": [], "tail": [],
           "end": rng.choice([".end", ".end", ".END"]), "backanno": rng.random() < 0.4, "eol": rng.choice(["\n", "\n", "\n", "\r\n"]),
           "enc": rng.choice(["utf-8"] * 6 + ["windows-1252", "utf-16-le"]), "lastnl": rng.random() < 0.9}
    names = []
    net["lib"] = []
    if rng.random() < 0.2:
        for name in rng.choice([["lamp2", "lamp"], ["op-27"], ["741"], ["lib.buf", "lib"]]):
            items = gen_items(rng, [1], ["p", "q", "s1", "0"], [], list("RCLDV"), rng.randint(1, 3))
            net["lib"].append({"name": name, "ports": ["p", "q"], "items": items, "ends": ".ends " + name, "kw": ".subckt"})
            names.append(name)
    if rng.random() < 0.5:
        for i in range(rng.choice([1, 1, 2, 3])):
            name = rng.choice(["SUB%d", "amp%d", "my.sub%d", "Filt_%d"]) % (i + 1)
            m = [1]
            items = gen_items(rng, m, ["p", "q", "s1", "0"], names[:1] if rng.random() < 0.5 else [], list("RRCLDVX"), rng.randint(1, 4))
            if rng.random() < 0.4:
                items.insert(rng.randrange(len(items) + 1), {"t": "p", "kv": [[rng.choice(["k1", "gain", "eps"]), str(gen_pvalue(rng))]], "kw": ".param"})
            if rng.random() < 0.2:
                items.insert(0, {"t": "*", "text": "* inside"})
            net["subs"].append({"name": name, "ports": ["p", "q"], "items": items, "ends": rng.choice([".ends", ".ends " + name, ".ENDS"]), "kw": rng.choice([".subckt", ".SUBCKT"])})
            names.append(name)
    size = rng.choice([2, 3, 4, 6, 8] if not big else [4, 8, 14])
    kinds = list("RRRRCCLLVVIDQMEBJSGK") + (["X"] * 6 if names else [])
    items = gen_items(rng, n, nodes, names, kinds, size)
    for c in items:
        if c.get("kind") == "X" and rng.random() < 0.12:
            c["value"] = c["value"].swapcase()
    if net["lib"]:
        items.insert(rng.randrange(len(items) + 1), {"t": "i", "text": rng.choice([".lib dst.lib", ".LIB dst.lib"])})
    if not any(c.get("kind") == "R" for c in items):
        items.append(gen_comp(rng, "R", n[0], nodes))
    for _ in range(rng.choice([0, 1, 1, 2])):
        kv = [[k, str(gen_pvalue(rng))] for k in rng.sample(PNAMES, rng.choice([1, 1, 2, 3]))]
        have = {k.lower() for i in items if i["t"] == "p" for k, _ in i["kv"]}
        kv = [x for x in kv if x[0].lower() not in have]
        if kv:
            items.insert(rng.randrange(len(items) + 1), {"t": "p", "kv": kv, "kw": rng.choice([".param", ".PARAM"]), "eq": rng.choice(["="] * 6 + [" = ", " "]),
                                                        "cmt": rng.choice([None] * 6 + [" ; a parameter", " ; a=3 b=2"])})
    uniq = False
    at = rng.randrange(len(items) + 1) if rng.random() < 0.5 else None
    for t in rng.sample(INSTR, rng.choice([0, 1, 2, 4, 6])):
        if t.split()[0].upper() in UNIQUE:
            if uniq:
                continue
            uniq = True
        items.insert(rng.randrange(len(items) + 1) if at is None else at, {"t": "i", "text": t})
    for _ in range(rng.choice([0, 0, 1, 2])):
        items.insert(rng.randrange(len(items) + 1), {"t": "*", "text": rng.choice(["* a comment", "*R9 in out 5k", "* .tran 5", "", "; another", "*.param zz=1"])})
    if rng.random() < 0.12:
        items.insert(rng.randrange(len(items) + 1), {"t": "ctl", "lines": rng.choice(CONTROLS)})
    if rng.random() < 0.06:
        items.insert(rng.randrange(len(items) + 1), {"t": "blk", "lines": rng.choice(BLOCKS)})
    net["items"] = items
    net["inc"] = None
    if rng.random() < 0.2:
        inc = {"at": rng.randrange(len(items) + 1), "first": rng.random() < 0.4, "enc": rng.choice([None, None, "utf-8", "windows-1252"]), "line": rng.choice([".include %s", ".inc %s", '.INCLUDE "%s"', ".inc %s ; common parameters"]) % "common.inc",
               "items": [{"t": "*", "text": "* common definitions"}], "subs": []}
        have = {k.lower() for i in items if i["t"] == "p" for k, _ in i["kv"]}
        for _ in range(rng.choice([1, 1, 2])):
            kv = [[k, str(gen_pvalue(rng))] for k in rng.sample(PNAMES, rng.choice([1, 2])) if k.lower() not in have]
            have |= {k.lower() for k, _ in kv}
            if kv:
                inc["items"].append({"t": "p", "kv": kv, "kw": rng.choice([".param", ".PARAM"])})
        if net["subs"] and rng.random() < 0.5:
            inc["subs"] = [net["subs"].pop(rng.randrange(len(net["subs"])))]
        net["inc"] = inc
    if rng.random() < 0.25:
        net["tail"] = [rng.choice(["", "* generated", "", "; note"]) for _ in range(rng.choice([1, 2, 3]))]
    return net


def render_comp(c):
    lay = c.get("lay") or {}
    sp = "\t" if lay.get("tab") else " " * lay.get("sp", 1)
    ref = c["ref"].lower() if lay.get("low") else c["ref"]
    parts = [ref] + c["nodes"] + [c["value"]] + [k if v is True else k + lay.get("eq", "=") + v for k, v in c["params"]]
    if lay.get("cont") and len(parts) > 3:
        text = sp.join(parts[:3]) + "\n+ " + sp.join(parts[3:])
    else:
        text = sp.join(parts)
    return lay.get("lead", "") + text + (lay.get("cmt") or "") + lay.get("trail", "")


def render_items(items):
    out = []
    for i in items:
        if i["t"] == "c":
            out.append(render_comp(i))
        elif i["t"] == "p":
            out.append(i.get("kw", ".param") + " " + " ".join(k + i.get("eq", "=") + v for k, v in i["kv"]) + (i.get("cmt") or ""))
        elif i["t"] in ("i", "*"):
            out.append(i["text"])
        elif i["t"] in ("ctl", "blk"):
            out += i["lines"]
    return out


def render_lib(net):
    out = ["* a library"]
    for s in net["lib"]:
        out.append("%s %s %s" % (s["kw"], s["name"], " ".join(s["ports"])))
        out += render_items(s["items"])
        out.append(s["ends"])
    return ("\n".join(out) + "\n").encode()


def render_inc(net):
    out = render_items(net["inc"]["items"])
    for s in net["inc"]["subs"]:
        out.append("%s %s %s" % (s["kw"], s["name"], " ".join(s["ports"])))
        out += render_items(s["items"])
        out.append(s["ends"])
    return ("\n".join(out) + "\n").replace("\n", net["eol"]).encode(net["inc"].get("enc") or net["enc"])


def render(net):
    out = [net["title"]]
    if net.get("inc") and net["inc"].get("first"):
        out.append(net["inc"]["line"])
    for s in net["subs"]:
        out.append("%s %s %s" % (s["kw"], s["name"], " ".join(s["ports"])))
        out += render_items(s["items"])
        out.append(s["ends"])
    inc = net.get("inc")
    at = inc["at"] if inc else 0
    out += render_items(net["items"][:at]) + ([inc["line"]] if inc and not inc.get("first") else []) + render_items(net["items"][at:])
    if net["backanno"]:
        out.append(".backanno")
    out.append(net["end"])
    out += net["tail"]
    text = "\n".join(out) + ("\n" if net["lastnl"] or net["tail"] else "")
    return text.replace("\n", net["eol"]).encode(net["enc"])


# ================================================================ the model
class Comp:
    def __init__(self, c):
        self.kind, self.ref, self.nodes, self.value = c["kind"], c["ref"].upper(), list(c["nodes"]), c["value"]
        self.params = collections.OrderedDict((k, v) for k, v in c["params"])
        self.raw = squash(strip_comment(render_comp(c).replace("\n+", " ")))
        self.touched = False
        self.inst = None            # own copy of the sub-circuit (after an edit inside)
        self.loose = False          # the place in the file isn't specified

    def copy(self):
        return copy.deepcopy(self)


class Circuit:
    def __init__(self, items=(), name=None, ports=()):
        self.name, self.ports = name, list(ports)
        self.comps = []
        self.params = collections.OrderedDict()     # NAME -> value
        self.instr = []
        self.comments = []
        self.controls = []
        self.subs = collections.OrderedDict()
        self.libs = {}              # sub-circuits of libraries
        for i in items:
            if i["t"] == "c":
                self.comps.append(Comp(i))
            elif i["t"] == "p":
                for k, v in i["kv"]:
                    self.params[k.upper()] = v
            elif i["t"] == "i":
                self.instr.append(i["text"])
            elif i["t"] == "*":
                self.comments.append(i["text"].strip())
            elif i["t"] == "ctl":
                self.controls.append(list(i["lines"]))
            elif i["t"] == "blk":
                self.instr += i["lines"]

    def find(self, ref):
        for c in self.comps:
            if c.ref == ref.upper():
                return c
        return None

    def sub_named(self, name, copies=True):
        """A sub-circuit defined here or in a library, or the copy of an edited instance."""
        for n, x in list(self.subs.items()) + [(c.value, c.inst) for c in self.comps if copies and c.inst is not None] + list(self.libs.items()):
            if n.upper() == str(name).upper():
                return x
        return None


def build(net):
    inc = net.get("inc") or {"items": [], "subs": []}
    top = Circuit(net["items"] + inc["items"])      # a save puts the contents of the file in the place of the .include
    for s in net["subs"] + inc["subs"]:
        top.subs[s["name"]] = Circuit(s["items"], s["name"], s["ports"])
    for s in net.get("lib") or []:
        top.libs[s["name"]] = Circuit(s["items"], s["name"], s["ports"])
    if net["backanno"]:
        top.instr.append(".backanno")
    if net["title"].startswith("."):
        top.instr.append(net["title"])
    else:
        top.comments.append(net["title"])
    top.comments += [t.strip() for t in net["tail"]]
    return top


# ================================================================ reading a saved file
def strip_comment(line):
    return line.split(";", 1)[0].rstrip()


def read_text(text, nodes_of):
    """Saved text -> (Circuit, problems).  nodes_of(ref, tokens): how many nodes an element has."""
    lines = text.replace("\r\n", "\n").split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    logical = []
    ctl = None
    for ln in lines:
        low = ln.strip().lower()
        if ctl is not None:
            ctl.append(ln.strip())
            if low.startswith(".endc"):
                ctl = None
            continue
        if low.startswith(".control"):
            ctl = [ln.strip()]
            logical.append(ctl)
        elif ln.startswith("+") and logical and isinstance(logical[-1], str):
            logical[-1] = logical[-1] + " " + ln[1:]
        else:
            logical.append(ln)
    probs = []
    top = Circuit()
    stack = [top]
    ended = False
    for ln in logical:
        cur = stack[-1]
        if isinstance(ln, list):
            cur.controls.append(ln)
            continue
        s = ln.strip()
        if ended:
            if s and s[0] not in "*;":
                probs.append("%r stands after .END" % s)
            else:
                cur.comments.append(s)
            continue
        if not s or s[0] in "*;":
            cur.comments.append(s)
            continue
        body = strip_comment(s)
        t = body.split()
        if s[0] == ".":
            w = t[0].upper()
            if w == ".SUBCKT":
                c = Circuit(name=t[1], ports=t[2:])
                if t[1] in cur.subs:
                    probs.append("sub-circuit %s is defined twice" % t[1])
                cur.subs[t[1]] = c
                stack.append(c)
            elif w == ".ENDS":
                if len(stack) == 1:
                    probs.append("%r without .SUBCKT" % s)
                else:
                    if len(t) > 1 and t[1] != cur.name:
                        probs.append("sub-circuit %s ends as %s" % (cur.name, t[1]))
                    stack.pop()
            elif w == ".END":
                ended = True
                if len(stack) > 1:
                    probs.append("sub-circuit %s isn't ended" % cur.name)
            elif w.startswith(".PARAM"):
                rest = body[len(t[0]):]
                for m in re.finditer(r"([A-Za-z_]\w*)\s*(?:=|\s)\s*(\{[^}]*\}|[^\s=]+)", rest):
                    k = m.group(1).upper()
                    if k in cur.params:
                        probs.append("parameter %s is set twice (%s)" % (k, s))
                    cur.params[k] = m.group(2)
                if re.sub(r"([A-Za-z_]\w*)\s*(?:=|\s)\s*(\{[^}]*\}|[^\s=]+)", "", rest).strip():
                    probs.append("unreadable line %r" % s)
            else:
                cur.instr.append(s)
            continue
        x = Comp.__new__(Comp)
        x.ref, x.kind = t[0].upper(), t[0][0].upper()
        x.inst, x.touched, x.loose = None, False, False
        x.raw = squash(body)
        n = nodes_of(x.ref, t)
        toks = re.sub(r"\s*([=,])\s*", r"\1", body).split() if x.kind not in "BEG" else t
        x.nodes = toks[1:1 + n]
        rest = toks[1 + n:]
        x.params = collections.OrderedDict()
        if x.kind in "BEG":
            x.value = " ".join(rest)
        else:
            k = 1 if x.kind in FLAGS else next((i for i, w in enumerate(rest) if re.match(r"^(?!file=)\w+=", w)), len(rest))
            x.value = " ".join(rest[:k])
            for w in rest[k:]:
                if "=" in w:
                    a, b = w.split("=", 1)
                    if a in x.params:
                        probs.append("parameter %s of %s is there twice" % (a, x.ref))
                    x.params[a] = b
                elif x.kind in FLAGS and w == "off" and w not in x.params:
                    x.params[w] = True
                else:
                    probs.append("%r in the line of %s" % (w, x.ref))
        if cur.find(x.ref):
            probs.append("element %s is there twice" % x.ref)
        cur.comps.append(x)
    if not ended:
        probs.append("no .END")
    if len(stack) > 1:
        probs.append("unended sub-circuit")
    return top, probs


def diff(got, want, where="", scope=None):
    """Differences between a read file and the model, as text (None: they agree)."""
    g, w = [c.ref for c in got.comps], [c.ref for c in want.comps]
    if sorted(g) != sorted(w):
        return "%selements are %s, expected %s" % (where, g, w)
    loose = {c.ref for c in want.comps if c.loose}
    if [r for r in g if r not in loose] != [r for r in w if r not in loose]:
        return "%selements are in order %s, expected %s" % (where, g, w)
    for c in want.comps:
        x = got.find(c.ref)
        if not c.touched and c.raw is not None and x.raw.upper() != c.raw.upper():
            return "%suntouched element: %r became %r" % (where, c.raw, x.raw)
        d = comp_diff(x.nodes, x.value, x.params, c)
        if d:
            return "%s%s: %s (line %r)" % (where, c.ref, d, x.raw)
    d = params_diff(got.params, want.params)
    if d:
        return where + d
    if sorted(squash(i) for i in got.instr) != sorted(squash(i) for i in want.instr):
        return "%sinstructions are %s, expected %s" % (where, sorted(got.instr), sorted(want.instr))
    missing = list(got.comments)
    for t in want.comments:
        if t in missing:
            missing.remove(t)
        else:
            return "%scomment %r is gone" % (where, t)
    if [[x.strip() for x in c] for c in got.controls] != [[x.strip() for x in c] for c in want.controls]:
        return "%scontrol sections are %s, expected %s" % (where, got.controls, want.controls)
    # sub-circuits: the definitions and a copy for every edited instance
    subs = dict(want.subs)
    for c in want.comps:
        if c.inst is not None:
            subs[c.value] = c.inst
    if sorted(got.subs) != sorted(subs):
        return "%ssub-circuits are %s, expected %s" % (where, sorted(got.subs), sorted(subs))
    for n, s in subs.items():
        if got.subs[n].ports != s.ports:
            return "%ssub-circuit %s has ports %s, expected %s" % (where, n, got.subs[n].ports, s.ports)
        d = diff(got.subs[n], s, where + n + ": ", want)
        if d:
            return d
    return None


def comp_diff(nodes, value, params, c):
    if list(nodes) != c.nodes:
        return "nodes are %s, expected %s" % (nodes, c.nodes)
    if not same(value, c.value):
        return "value is %r, expected %r" % (value, c.value)
    g = {k: v for k, v in params.items() if k != "Value"}
    if sorted(g) != sorted(c.params):
        return "parameters are %s, expected %s" % (dict(g), dict(c.params))
    for k, v in c.params.items():
        if not same(g[k], v):
            return "parameter %s is %r, expected %r" % (k, g[k], v)
    return None


def params_diff(got, want):
    if sorted(got) != sorted(want):
        return "parameters are %s, expected %s" % (sorted(got), sorted(want))
    for k, v in want.items():
        if not same(got[k], v):
            return "parameter %s is %r, expected %r" % (k, got[k], v)
    return None
