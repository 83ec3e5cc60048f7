"""Schematic editors: edit histories with failed saves on .asc (E03) and .qsch (E04) files."""
import copy
import io
import os
from .. import core, disk
from . import common, editors
from . import netmodel as nm
from . import schmodel as sm

PROPS = ["E03", "E04"]
FMT = {"E03": "asc", "E04": "qsch"}
CP = {"R": ["tc1", "m", "tol"], "C": ["Rser", "IC", "V", "m"], "L": ["Rser", "Cpar"], "V": ["Rser", "Cpar"], "I": ["m"], "D": ["temp", "m"], "M": ["m", "L"], "Q": ["temp"], "J": ["m"],
      "X": ["gain", "Rin", "param1", "e1"], "E": ["P", "m"], "B": [], "G": ["m"], "S": ["m"], "T": ["Td", "Z0"], "×": ["L", "Ct"], "Z": ["m"], "W": [], "¥": ["tripdt", "m"], "Ã": ["Avol", "GBW", "Phi"], "€": ["Rdac"], "£": ["m"], "Ø": ["test"]}


# ================================================================ plans
def gen_fault(rng):
    f = editors.gen_fault(rng)
    f["on"] = rng.choice(["main", "main", "sub"])
    return f


def gen_ops(rng, spec, n):
    fmt, top = spec["fmt"], spec["top"]
    comps = []          # (path, component)

    def walk(name, pre):
        for c in spec["files"][name]["comps"]:
            comps.append((pre + c["ref"], c))
            if c.get("sub"):
                walk(c["sub"], pre + c["ref"] + ":")
    walk(top, "")
    insts = [r for r, c in comps if c.get("sub")]
    tops = [(r, c) for r, c in comps if ":" not in r]
    texts = [x for t in spec["files"][top]["texts"] if not t["cmt"] for x in t["text"].split("\\n")]
    used = [x for x in texts if x and sm.param_line(x) is None]
    pset = [k for x in texts for k, _ in sm.param_line(x) or []]
    cur = rng.sample(nm.PNAMES, 3)
    nsave = [0]
    move = rng.random() < (0.7 if fmt == "asc" else 0.4)

    def save():
        nsave[0] += 1
        if fmt == "qsch" and rng.random() < 0.35:
            return {"op": "net", "name": rng.choice(["n%d.net" % nsave[0], "same.net", "n.cir"]), "how": rng.choice(["path", "str", "io", "write"]), "fault": gen_fault(rng) if rng.random() < 0.3 else None,
                    "cfg": {c["ref"]: c["cfg"] for _, c in tops if "cfg" in c} if rng.random() < 0.8 else {}}
        o = {"op": "save", "name": rng.choice(["s%d" % nsave[0], "same", "same", "circuit"]) + "." + fmt, "how": rng.choice(["path", "str", "as", "write", "io"] if fmt == "asc" else ["path", "str", "as", "write"]),
             "fault": gen_fault(rng) if rng.random() < 0.4 else None}
        if o["how"] == "io":
            o["fault"] = None
        return o

    def some(inner=0.3):
        return rng.choice(comps if rng.random() < inner else tops)

    def edit():
        k = rng.random()
        if k < 0.28:
            ref, c = some()
            v = sm.gen_qvalue(rng, c["kind"]) if fmt == "qsch" and c["kind"] in sm.QVALUE else nm.gen_value(rng, c["kind"]) if c["kind"] in "RCLVIDQJMEB" and c["kind"] != "E" else "opb"
            v = sm.unquoted(v) if fmt == "qsch" else v
            return {"op": "val", "ref": ref, "v": v, "how": rng.choice(["set", "set", "obj", "item", "multi", "key", "str", "np", "sub"] + (["model"] if fmt == "qsch" else []))}
        if k < 0.46:
            ref, c = some()
            ks = CP[c["kind"]] + (["Value2", "SpiceModel"] if fmt == "asc" and rng.random() < 0.3 else [])
            have = []
            if fmt == "asc":
                have = [w[0] for a, v in c["attrs"] if a in sm.LINES for w in sm.words(v) if isinstance(w, list)]
            else:
                have = [w[0] for t in c["texts"][2:] for w in sm.words(t["text"]) if isinstance(w, list)]
            ks = ks + [x for x in have if x not in ("V", "mfg", "type")] * 2
            if not ks:
                return {"op": "par", "name": rng.choice(cur), "v": nm.gen_pvalue(rng), "how": "set"}
            ks = list(dict.fromkeys(rng.sample(ks, min(len(ks), rng.choice([1, 1, 2, 3])))))
            kv = [[x, "9n" if x == "Td" else "MOD1" if x == "SpiceModel" else None if rng.random() < 0.3 else nm.gen_cparam(rng)] for x in ks]
            return {"op": "cpar", "ref": ref, "kv": kv, "how": rng.choice(["set", "obj", "item", "one"])}
        if k < 0.63:
            name = rng.choice((pset or cur) if rng.random() < 0.6 else cur)
            if name not in pset:
                pset.append(name)
            o = {"op": "par", "name": name, "v": nm.gen_pvalue(rng), "how": rng.choice(["set", "set", "multi"])}
            if insts and rng.random() < 0.2:
                o["sub"] = rng.choice(insts)
            return o
        if k < 0.75:
            t = rng.choice(sm.INSTR)
            used.append(t)
            o = {"op": "ins", "text": t, "nl": rng.random() < 0.2, "many": rng.random() < 0.2}
            if insts and rng.random() < 0.15:
                o["sub"] = rng.choice(insts)
            return o
        if k < 0.81:
            if rng.random() < 0.35:
                return {"op": "rmx", "pat": rng.choice([r"\.meas.*", r"\.step", r"\.(ac|tran).*", r"\.options?\b.*", r"\.nothing", r"\.MODEL .*",
                                                          r"\.(meas|save|ic|nodeset|temp|four|global|func|opt)", r"\.(meas|save|ic|nodeset|temp|four|global|func|opt)"])}
            return {"op": "rmi", "text": rng.choice(used or [".nothing"])}
        if k < 0.85:
            ref, c = some(0.25)
            return {"op": "rm", "ref": ref}
        if k < 0.91 and move:
            ref, c = some()
            o = {"op": "pos", "ref": ref, "x": rng.randrange(-50, 50) * 16 + 7, "y": rng.randrange(-50, 50) * 16 + 3, "rot": rng.choice(sm.ASC_ROT)}
            if fmt == "qsch":
                o.update(form=rng.choice(["enum", "int", "mirror"]), pt=rng.choice(["Point", "tuple"]))
            return o
        if k < 0.94:
            ref, c = some()
            if fmt == "asc":
                if rng.random() < 0.5 and not c.get("sub"):
                    return {"op": "sym", "ref": ref, "symbol": rng.choice([x for y in sm.SYMS.values() for x in y])}
                return {"op": "attr", "ref": ref, "name": rng.choice(["Type", "Manufacturer"]), "v": rng.choice(["ACME Inc.", "a: b", "X1"])}
        if k < 0.955:
            return {"op": "enc", "ref": rng.choice(tops)[0], "name": "enc." + fmt, "how": rng.choice(["path", "str", "as", "write"])}
        return {"op": "bad", "what": rng.choice(["val", "rm", "param-instr", "sub", "get", "cpar", "pos"])}

    ops = []
    for _ in range(n):
        r = rng.random()
        if r < 0.02 or not ops and r < 0.05:
            ops.append({"op": "away", "how": rng.choice(["path", "str", "as", "write"])})
        elif r < 0.2:
            ops.append(save())
        elif r < 0.25:
            ops.append({"op": "reset", "fault": rng.choice([None, None, None, "openr", "read"])})
        elif r < 0.29 and nsave[0]:
            ops.append({"op": "reload"})
        else:
            ops.append(dict(edit(), chk=rng.random() < 0.4))
    ops.append(save())
    return ops


def gen_plan(rng, prop, tier):
    big = tier == "thorough"
    spec = sm.gen(rng, FMT[prop], big and rng.random() < 0.5)
    p = {"kind": FMT[prop], "spec": spec, "sched": common.gen_sched(rng), "latency": rng.choice([0.0, 0.0, 0.001]), "buffer": rng.choice([None, 64, 64, 200, 17]),
         "ops": gen_ops(rng, spec, rng.choice([3, 6, 10, 16] if not big else [10, 25, 40])), "other": [], "spec2": None}
    if rng.random() < 0.25:
        p["spec2"] = sm.gen(rng, FMT[prop])
        p["other"] = gen_ops(rng, p["spec2"], rng.choice([3, 6, 10]))
    elif rng.random() < 0.35:       # where the blocks, symbols and libraries are
        p["lib"] = rng.choice(["custom", "second", "list", "tilde", "simulator", "rel", "decoy"] + (["both", "apart"] if p["kind"] == "asc" else []))
    return p


def shrink(plan):
    if plan.get("lib"):
        yield dict(copy.deepcopy(plan), lib=None)
    if plan["other"]:
        yield dict(copy.deepcopy(plan), other=[], spec2=None)
        yield dict(copy.deepcopy(plan), ops=plan["other"], spec=plan["spec2"], other=[], spec2=None)
    for key in ("ops", "other"):
        for i in range(len(plan[key]) - 1, -1, -1):
            q = copy.deepcopy(plan)
            del q[key][i]
            yield q
    for o in ("latency", "buffer"):
        if plan[o]:
            yield dict(copy.deepcopy(plan), **{o: 0.0 if o == "latency" else None})
    used = " ".join(str(o) for o in plan["ops"] + plan["other"])
    for sk in ("spec", "spec2"):
        spec = plan[sk]
        if not spec:
            continue
        for f in spec["files"]:
            s = spec["files"][f]
            for i in range(len(s["comps"]) - 1, -1, -1):
                c = s["comps"][i]
                if c["ref"] in used or c.get("sub"):
                    continue
                q = copy.deepcopy(plan)
                del q[sk]["files"][f]["comps"][i]
                yield q
            for key in ("texts",):
                for i in range(len(s[key]) - 1, -1, -1):
                    q = copy.deepcopy(plan)
                    del q[sk]["files"][f][key][i]
                    yield q
            for k, v in s["rest"].items():
                if isinstance(v, list) and v:
                    q = copy.deepcopy(plan)
                    q[sk]["files"][f]["rest"][k] = []
                    yield q
        for f in spec["files"]:
            if f != spec["top"] and ":" not in used and "'sub'" not in used:
                q = copy.deepcopy(plan)
                for g in q[sk]["files"].values():
                    g["comps"] = [c for c in g["comps"] if c.get("sub") != f]
                del q[sk]["files"][f]
                yield q


LIB = b"* a library\n.subckt other a b\nR1 a b 5k\n.ends other\n.subckt opa a b\nR1 a b 1k tc=2\nC1 a 0 {cc} Rser=1m\nD1 b 0 DIO area=2\n.param cc=1n\n.ends opa\n.model DIO D\n"
LIB_PARTS = {"R1": ("1k", 1000, {"tc": 2}), "C1": ("{cc}", None, {"Rser": "1m"}), "D1": ("DIO", None, {"area": 2})}


# ================================================================ execution
class Hist(editors.Hist):
    def __init__(self, w, who, spec, ops):
        self.w, self.who, self.spec, self.ops = w, who, spec, ops
        self.dir = os.path.join(w.scratch, who)
        os.mkdir(self.dir)
        self.moved = {}             # file -> folder, if it isn't beside the schematic
        self.place(w.plan.get("lib"))
        for f in spec["files"]:
            self.put(f, sm.render(spec, f))
        if w.fmt == "asc":
            for f, t in sm.asy_files(spec).items():
                self.put(f, t.encode())
            self.put("dst.lib", LIB)
        else:
            self.put("local.txt", b"* models\n")
        self.path = os.path.join(self.dir, spec["top"])
        self.disk = {f: sm.model(spec, f) for f in spec["files"]}
        self.top = spec["top"]
        self.editor = None
        self.saved = None
        self.n, self.cur = 0, "load"
        self.fresh()

    def put(self, f, data):
        os.makedirs(os.path.dirname(self.loc(f)), exist_ok=True)
        disk.write_file(self.loc(f), data)

    def loc(self, f):
        return os.path.join(self.moved.get(f, self.dir), f)

    def place(self, how):
        """The library folders of the editor, and what is in them."""
        if not how:
            return
        w, spec = self.w, self.spec
        if w.fmt == "asc":
            from spicelib.editor.asc_editor import AscEditor as E
        else:
            from spicelib.editor.qsch_editor import QschEditor as E
        lib, empty = os.path.join(w.scratch, "lib"), os.path.join(w.scratch, "lib0")
        os.mkdir(empty)
        disk.write_file(os.path.join(empty, "readme.txt"), b"nothing\n")
        os.chdir(self.dir)          # otherwise, the files would be found below the current folder
        self.libs = [lib]
        blocks = [f for f in spec["files"] if f != spec["top"]]
        asy = sm.asy_files(spec) if w.fmt == "asc" else {}
        rest = [f for f in asy if f[:-4] + ".asc" not in blocks] + ["dst.lib" if w.fmt == "asc" else "local.txt"]
        os.makedirs(lib)

        def decoys(d):
            for f in blocks:
                other = copy.deepcopy(spec)
                for c in other["files"][f]["comps"]:
                    c["ref"] += "9"
                disk.write_file(os.path.join(d, f), sm.render(other, f))

        def symbols(d):
            for f in rest:
                if f.endswith(".asy"):
                    os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
                    disk.write_file(os.path.join(d, f), sm.ASY.encode() % (b"CELL", b"SYMATTR Prefix X\nSYMATTR ModelFile nosuch.lib\nSYMATTR Value none\n"))
        if how == "decoy":          # files of the same names in a library: those beside the schematic are meant
            decoys(lib)
            E.set_custom_library_paths(lib)
            return
        for f in blocks + [f for f in asy if f not in rest] + rest:
            self.moved[f] = lib
        if how == "simulator":
            if w.fmt == "asc":
                for f in rest:
                    self.moved[f] = os.path.join(lib, "sub" if f == "dst.lib" else "sym")
                self.libs += [os.path.join(lib, "sub"), os.path.join(lib, "sym")]
                E.set_custom_library_paths(empty, os.path.join(lib, "blocks"))
                for f in list(self.moved):
                    if f not in rest:
                        self.moved[f] = os.path.join(lib, "blocks")
                os.makedirs(os.path.join(lib, "blocks"))
                self.libs.append(os.path.join(lib, "blocks"))
                E.set_custom_library_paths(os.path.join(lib, "blocks"))
            E.simulator_lib_paths = [empty, lib]
        elif how == "both":         # the symbols of the simulator come before those of the user
            for f in rest:
                if f != "dst.lib":
                    self.moved[f] = os.path.join(lib, "sym")
            self.libs.append(os.path.join(lib, "sym"))
            os.makedirs(os.path.join(lib, "user"))
            symbols(empty)
            E.simulator_lib_paths = [lib]
            E.set_custom_library_paths(empty, lib)
        elif how == "second":
            E.set_custom_library_paths(empty, os.path.join(w.scratch, "nosuch"), lib)
        elif how == "list":
            E.set_custom_library_paths([empty, lib])
        elif how == "tilde":
            os.environ["HOME"] = w.scratch
            E.set_custom_library_paths("~/lib")
        elif how == "rel":
            decoys(empty)           # (of a folder that was set before)
            symbols(empty)
            for f in asy:
                if f not in rest:
                    os.makedirs(os.path.dirname(os.path.join(empty, f)), exist_ok=True)
                    disk.write_file(os.path.join(empty, f), asy[f].encode())
            E.set_custom_library_paths(empty)
            E.set_custom_library_paths("../lib")
        elif how == "apart":        # the symbols and schematics of the blocks are in different folders
            for f in blocks:
                self.moved[f] = os.path.join(lib, "sch")
            os.makedirs(os.path.join(lib, "sch"))
            self.libs.append(os.path.join(lib, "sch"))
            E.set_custom_library_paths(lib)
        else:
            E.set_custom_library_paths(lib)
        w.col.hit("lib_" + how)

    def fresh(self):
        """What an editor holds that has just read its files."""
        self.model = copy.deepcopy(self.disk[self.top])
        if self.w.fmt == "qsch":
            self.model.find_nets()
        self.subs = {}
        self.enc = {None: self.encoding(self.top)}
        self._subs(self.model)
        self.upds = {"": {}}
        self.edited = set()

    def encoding(self, name):
        """What an editor takes a file for."""
        if self.w.fmt == "qsch":
            return "cp1252"
        try:
            disk.read_file(self.loc(name)).decode("utf-8")
            return "utf-8"
        except UnicodeDecodeError:
            return "windows-1252"

    def _subs(self, m):
        for c in m.comps:
            if c.sub and c.sub in self.disk:
                s = self.subs[c.sub] = copy.deepcopy(self.disk[c.sub])
                self.enc[c.sub] = self.encoding(c.sub)
                s.nodes = True
                if self.w.fmt == "qsch":
                    s.find_nets()
                self._subs(s)
        m.nodes = True


class Shim:
    def __init__(self, h, editor, upd):
        self.editor, self.upd, self.who, self.n, self.cur = editor, upd, h.who, h.n, h.cur


class World(editors.World):
    def __init__(self, job, scratch):
        p = self.plan = job["plan"]
        self.prop, self.fmt = job["prop"], FMT[job["prop"]]
        self.scratch = scratch
        from spicelib.editor.asc_editor import AscEditor
        if hasattr(AscEditor, "symbol_cache"):
            AscEditor.symbol_cache.clear()
        disk.configure(scratch, [{"op": "none", "nth": 1, "kind": "EIO"}], p["latency"])
        disk.BUFFER = p.get("buffer")
        from .. import procs
        self.choices = common.make_choices(job)
        self.sim = core.Sim(self.choices, max_steps=3_000_000)
        self.sim.scratch = scratch
        procs.TABLE = procs.ProcTable(self.sim, lambda popen: None)
        self.col = common.Collector(self.sim, self.prop)

    def bad(self, h, prop, key, msg):
        self.col.bad(self.prop, key, "%s op %d %s: %s" % (h.who, h.n, h.cur, msg))

    def load(self, path):
        if self.fmt == "asc":
            from spicelib.editor.asc_editor import AscEditor as E
        else:
            from spicelib.editor.qsch_editor import QschEditor as E
        return E(path)

    def run_hist(self, h):
        try:
            h.editor = self.load(h.path)
        except core.SimKilled:
            raise
        except Exception as ex:
            import traceback
            self.bad(h, self.prop, "load-raises %s" % type(ex).__name__, "loading the schematic raised %r\n%s" % (ex, "".join(traceback.format_tb(ex.__traceback__))[-300:]))
            return
        self.check(h, "after loading")
        for i, op in enumerate(h.ops):
            h.n, h.cur = i, {k: v for k, v in op.items() if k != "chk"}
            self.sim.rec("op", who=h.who, op=op["op"])
            getattr(self, "do_" + op["op"])(h, op)
            self.check_all_updates(h)
            if op.get("chk"):
                self.check(h, "after it")
            if self.col.violations:
                return
        h.cur = "end"
        self.check(h, "at the end")
        if not self.col.violations:
            self.do_save(h, {"op": "save", "name": "final." + self.fmt, "how": "path", "fault": None})

    # ---- where
    def locate(self, h, ref):
        """(schematic, component, prefix of the editor, file)"""
        m, pre, f = h.model, [], "main"
        parts = ref.split(":")
        for q in parts[:-1]:
            c = m.find(q)
            if c is None or c.sub is None or c.sub not in h.subs:
                return None, None, None, None
            m, f = h.subs[c.sub], c.sub
            pre.append(q)
        return m, m.find(parts[-1]), ":".join(pre), f

    def sub_editor(self, h, pre):
        return h.editor if not pre else h.editor.get_subcircuit(pre)

    def note(self, h, pre, f, key=None, val=None, drop=()):
        u = h.upds.setdefault(pre, {})
        for d in drop:
            u.pop(d, None)
        if key is not None:
            u[key] = val
        h.edited.add(f)

    def reachable(self, h):
        """The prefixes of the instances that are still there."""
        out = [""]

        def walk(m, pre):
            for c in m.comps:
                if c.sub and c.sub in h.subs:
                    out.append((pre + ":" if pre else "") + c.ref)
                    walk(h.subs[c.sub], out[-1])
        walk(h.model, "")
        return out

    def check_all_updates(self, h):
        ok = self.reachable(h)
        for pre, upd in h.upds.items():
            if pre in ok:
                try:
                    e = self.sub_editor(h, pre)
                except Exception as ex:
                    return self.bad(h, None, "get_subcircuit", "get_subcircuit(%r) raised %r" % (pre, ex))
                self.check_updates(Shim(h, e, upd))

    # ---- edits
    def do_val(self, h, op):
        e, ref, v, how = h.editor, op["ref"], op["v"], op["how"]
        m, c, pre, f = self.locate(h, ref)
        if c is None:
            return self.expect_missing(h, lambda: e.set_component_value(ref, v))
        if c.kind in "XEØ" and self.fmt == "qsch":
            return
        if "Value" not in c.attrs:
            if c.sub:
                return
            return self.expect_missing(h, lambda: e.set_component_value(ref, v))
        if how == "np":
            import numpy
            v = int(v) if isinstance(v, (int, float)) and v == int(v) and abs(v) < 1e15 else v
            arg = v if isinstance(v, str) else numpy.int64(v) if isinstance(v, int) else numpy.float64(v)
            fn = lambda: e.set_component_value(ref, arg)
        elif how == "model" and isinstance(v, str):
            fn = lambda: e.set_element_model(ref, v)
        elif how == "key":
            def fn():
                e[ref]["value"] = v
        elif how == "str":
            def fn():
                e[ref].value_str = v
        elif how == "obj":
            def fn():
                e[ref].value = v
        elif how == "item":
            def fn():
                e[ref] = v
        elif how == "sub" and pre:
            fn = lambda: e.get_subcircuit(pre).set_component_value(ref.rsplit(":", 1)[1], v)
        elif how == "multi":
            fn = lambda: e.set_component_values(**{ref: v})
        else:
            fn = lambda: e.set_component_value(ref, v)
        if self.call(h, fn)[1] is not None:
            return
        c.attrs["Value"], c.touched = v, True
        self.note(h, pre, f, (c.ref, "V"), v)
        self.sim.rec("val", kind=c.kind, deep=ref.count(":"))

    def do_enc(self, h, op):
        """A value that the encoding of the file can't represent: the save raises, keeps the edits and the other files."""
        m, c, pre, f = self.locate(h, op["ref"])
        if c is None or c.kind not in "RCL" or "Value" not in c.attrs or pre:
            return
        old = c.attrs["Value"]
        if self.call(h, h.editor.set_component_value, op["ref"], "10\u2126")[1] is not None:
            return
        c.attrs["Value"], c.touched = "10\u2126", True
        self.note(h, pre, f, (c.ref, "V"), "10\u2126")
        if "utf" in h.enc[None].lower():
            self.do_save(h, {"op": "save", "name": op["name"], "how": op["how"], "fault": None})
        else:
            st0, ex = self.call(h, self.state, h)
            if ex is not None:
                return
            before, allowed = self.files(h), {op["name"]} | set(self.edited_subs(h))
            try:
                self.target(h, op, os.path.join(h.dir, op["name"]))()
                return self.bad(h, None, "silent-unencodable", "the save of a value that %s can't represent returned" % h.enc[None])
            except core.SimKilled:
                raise
            except Exception as e:
                self.sim.rec("unencodable", exc=type(e).__name__)
            st1, ex = self.call(h, self.state, h)
            if ex is not None:
                return
            if st1 != st0:
                return self.bad(h, None, "failed-save-changes", "the failed save changed %s -> %s" % (st0, st1))
            after = self.files(h)
            for x in set(before) | set(after):
                if x not in allowed and before.get(x) != after.get(x):
                    return self.bad(h, None, "other-file", "the failed save changed %s" % x)
            self.col.hit("unencodable")
            self.check(h, "after a failed save")
        if self.call(h, h.editor.set_component_value, op["ref"], old)[1] is not None:
            return
        c.attrs["Value"] = old
        self.note(h, pre, f, (c.ref, "V"), old)

    def do_cpar(self, h, op):
        e, ref, kv = h.editor, op["ref"], dict(op["kv"])
        m, c, pre, f = self.locate(h, ref)
        if c is None:
            return self.expect_missing(h, lambda: e.set_component_parameters(ref, **kv))
        if op["how"] == "obj":
            def fn():
                e[ref].set_params(**kv)
        elif op["how"] == "item":
            def fn():
                x = e[ref]
                for k, v in kv.items():
                    x[k] = v
        elif op["how"] == "one":
            def fn():
                x = e[ref]
                for k, v in kv.items():
                    x.set_parameter(k, v)
        else:
            fn = lambda: e.set_component_parameters(ref, **kv)
        if self.call(h, fn)[1] is not None:
            return
        for k, v in kv.items():
            r = c.set_param(k, v)
            if r is None:
                continue
            c.touched = True
            name = c.ref + ":" + k
            if r == "deleted":
                self.note(h, pre, f, (name, "CPD"), None, [(name, "CP")])
            else:
                self.note(h, pre, f, (name, "CP"), v, [(name, "CPD")])

    def do_par(self, h, op):
        n, v, pre = op["name"], op["v"], op.get("sub", "")
        m, _, pre, f = self.locate(h, pre + ":?" if pre else "?")
        if m is None:
            return
        e = self.sub_editor(h, pre)
        fn = (lambda: e.set_parameters(**{n: v})) if op["how"] == "multi" else (lambda: e.set_parameter(n, v))
        if self.call(h, fn)[1] is not None:
            return
        m.set_param(n, v)
        self.note(h, pre, f, (n, "P"), v)

    def do_ins(self, h, op):
        t, pre = op["text"], op.get("sub", "")
        m, _, pre, f = self.locate(h, pre + ":?" if pre else "?")
        if m is None:
            return
        e = self.sub_editor(h, pre)
        arg = t + ("\n" if op["nl"] else "")
        if self.call(h, e.add_instructions if op.get("many") else e.add_instruction, arg)[1] is not None:
            return
        old = m.add_instr(t)
        if old is not None and old != t:
            self.note(h, pre, f, ("INSTRUCTION", old), "DeleteInstruction")
        self.note(h, pre, f, ("INSTRUCTION", t), "AddInstruction")

    def do_rmi(self, h, op):
        r, ex = self.call(h, h.editor.remove_instruction, op["text"])
        if ex is not None:
            return
        hit = h.model.rm_instr(op["text"])
        if r is not (hit is not None):
            self.bad(h, None, "remove-instruction", "returned %r, the instruction was %s" % (r, "there" if hit else "not there"))
        if hit is not None:
            self.note(h, "", "main", ("INSTRUCTION", hit), "DeleteInstruction")

    def do_rmx(self, h, op):
        r, ex = self.call(h, h.editor.remove_Xinstruction, op["pat"])
        if ex is not None:
            return
        hit = h.model.rmx(op["pat"])
        if r is not bool(hit):
            self.bad(h, None, "remove-Xinstruction", "returned %r, matching instructions: %s" % (r, hit))
        for t in hit:
            self.note(h, "", "main", ("INSTRUCTION", t), "DeleteInstruction")

    def do_rm(self, h, op):
        m, c, pre, f = self.locate(h, op["ref"])
        if m is None or (c is not None and len(m.comps) < 2):
            return
        fn = lambda: self.sub_editor(h, pre).remove_component(op["ref"].rsplit(":", 1)[-1])
        if c is None:
            return self.expect_missing(h, fn)
        if self.call(h, fn)[1] is not None:
            return
        m.comps.remove(c)
        self.forget(h, c)
        self.note(h, pre, f, (c.ref, "D"), None, [k for k in h.upds.get(pre, {}) if k[0] == c.ref and k[1] == "V"])

    def forget(self, h, c):
        """The schematic of a component that was removed: what was edited in it is not saved."""
        if c.sub in h.subs:
            for x in h.subs[c.sub].comps:
                self.forget(h, x)
            del h.subs[c.sub]
            h.edited.discard(c.sub)

    def do_pos(self, h, op):
        from spicelib.editor.base_schematic import ERotation, Point
        m, c, pre, f = self.locate(h, op["ref"])
        rot = ERotation[op["rot"]]
        pt = Point(op["x"], op["y"])
        if self.fmt == "asc":
            fn = lambda: h.editor.set_component_position(op["ref"], pt, rot)
        else:
            if op["pt"] == "tuple":
                pt = (op["x"], op["y"])
            if op["form"] == "enum":
                args = (rot,)
            elif op["form"] == "int":
                rot = ERotation(rot.value % 360)
                args = (rot.value + 0,)
            else:
                args = (rot.value % 360, True)
                rot = ERotation(360 + rot.value % 360)
            fn = lambda: h.editor.set_component_position(op["ref"], pt, *args)
        if c is None:
            return self.expect_missing(h, fn)
        if self.call(h, fn)[1] is not None:
            return
        c.x, c.y = op["x"], op["y"]
        c.rot = rot.name if self.fmt == "asc" else rot.value // 45
        m.nodes = False
        self.note(h, pre, f)

    def do_sym(self, h, op):
        m, c, pre, f = self.locate(h, op["ref"])
        fn = lambda: h.editor.set_element_model(op["ref"], op["symbol"])
        if c is None:
            return self.expect_missing(h, fn)
        if self.call(h, fn)[1] is None:
            c.symbol, c.touched = op["symbol"], True
            self.note(h, pre, f)

    def do_attr(self, h, op):
        m, c, pre, f = self.locate(h, op["ref"])
        fn = lambda: h.editor.set_component_attribute(op["ref"], op["name"], op["v"])
        if c is None:
            return self.expect_missing(h, fn)
        if self.call(h, fn)[1] is None:
            c.attrs[op["name"]], c.touched = op["v"], True
            self.note(h, pre, f)

    def do_bad(self, h, op):
        from spicelib.editor.base_schematic import ERotation, Point
        e, k = h.editor, op["what"]
        self.expect_missing(h, {
            "val": lambda: e.set_component_value("R999", "1k"), "rm": lambda: e.remove_component("C999"), "param-instr": lambda: e.add_instruction(".param q=5"),
            "sub": lambda: e.set_component_value("X999:R1", 5), "get": lambda: e.get_component_value("R999"), "cpar": lambda: e.set_component_parameters("R999", tc1=3),
            "pos": lambda: e.set_component_position("R999", Point(1, 1), ERotation.R0)}[k])
        if k == "get":
            self.expect_missing(h, lambda: e.get_parameter("nonexistent"))
        self.check(h, "after a refused edit")

    # ---- saves
    def files(self, h):
        out = {}
        for d, _, fs in os.walk(h.dir):
            for f in fs:
                out[os.path.relpath(os.path.join(d, f), h.dir)] = disk.read_file(os.path.join(d, f))
        for d in getattr(h, "libs", ()):
            for f in os.listdir(d):
                if os.path.isfile(os.path.join(d, f)):
                    out[f if h.moved.get(f) == d else "lib/" + f] = disk.read_file(os.path.join(d, f))
        return out

    def state(self, h):
        def one(pre):
            return [(u.name, u.value, u.updates) for u in self.sub_editor(h, pre).netlist_updates]
        return {pre: one(pre) for pre in self.reachable(h)}, str(h.editor.circuit_file)

    def target(self, h, op, path):
        from pathlib import Path
        e, how = h.editor, op["how"]
        if how == "str":
            return lambda: e.save_netlist(path)
        if how == "as":
            return lambda: e.save_as(Path(path) if h.n % 2 else path)
        if how == "write":
            return lambda: e.write_netlist(path)
        return lambda: e.save_netlist(Path(path))

    def edited_subs(self, h):
        """The files of sub-circuits that a save writes: edited ones and those on the way to them."""
        out = set()

        def walk(m):
            hit = False
            for c in m.comps:
                if c.sub and c.sub in h.subs and (walk(h.subs[c.sub]) | (c.sub in h.edited)):
                    out.add(c.sub)
                    hit = True
            return hit
        walk(h.model)
        return sorted(out)

    def do_save(self, h, op):
        path = os.path.join(h.dir, op["name"])
        if op["how"] == "io":
            return self.save_io(h)
        fn = self.target(h, op, path)
        moves = op["how"] == "as" or self.fmt == "qsch"
        allowed = {op["name"]} | set(self.edited_subs(h))
        before = self.files(h)
        if op["fault"]:
            f = op["fault"]
            match = os.path.basename(path)
            if f["on"] == "sub" and self.edited_subs(h):
                match = sorted(self.edited_subs(h))[0]
            if not self.faulty(h, fn, f, match, allowed, lambda: self.check_files(h, op["name"], before, allowed, True)):
                return
        if self.call(h, fn)[1] is not None:
            return
        # what is on the disk now
        h.disk[op["name"]] = copy.deepcopy(h.model)
        for s in h.subs:
            h.disk[s] = copy.deepcopy(h.subs[s])
        if moves:
            h.path, h.top = path, op["name"]
        if str(h.editor.circuit_file) != h.path:
            return self.bad(h, None, "pointer", "circuit_file is %s, expected %s" % (h.editor.circuit_file, h.path))
        h.saved = op["name"]
        self.col.hit("saved")
        if not self.check_files(h, op["name"], before, allowed, True):
            return
        self.check_reload(h, path)

    def do_away(self, h, op):
        """Saved under the same name in another folder (and back, if the editor follows)."""
        top, old = h.top, h.path
        os.makedirs(os.path.join(h.dir, "away"), exist_ok=True)
        name = "away/" + top
        path = os.path.join(h.dir, name)
        qsch = self.fmt == "qsch"
        before, allowed = self.files(h), {name} | set(self.edited_subs(h))
        if self.call(h, self.target(h, op, path) if op["how"] == "as" or not qsch else lambda: h.editor.save_as(path))[1] is not None:
            return
        for s in h.subs:
            h.disk[s] = copy.deepcopy(h.subs[s])
        moved = op["how"] == "as" or qsch
        want = path if moved else old
        if str(h.editor.circuit_file) != want:
            return self.bad(h, None, "pointer", "circuit_file is %s, expected %s" % (h.editor.circuit_file, want))
        self.col.hit("saved_elsewhere")
        if self.check_files(h, name, before, allowed, True) and moved:
            h.path = path
            self.do_save(h, {"op": "save", "name": top, "how": "as", "fault": None})

    def faulty(self, h, fn, fault, match, allowed, complete):
        """A save with a fault: raises and changes nothing but its files, or is complete."""
        st0, ex = self.call(h, self.state, h)
        if ex is not None:
            return False
        before = self.files(h)
        r = self.arm(h, {k: v for k, v in fault.items() if k != "on"}, match)
        exc = None
        try:
            fn()
        except core.SimKilled:
            raise
        except Exception as e:
            exc = e
        disk.FAULTS.rules.remove(r)
        self.sim.rec("faulty_save", fired=r["fired"], exc=type(exc).__name__ if exc else None)
        if exc is None:
            self.col.hit("fault_survived" if r["fired"] else "fault_not_reached")
            # (the pointer may have moved)
            return complete()
        if not r["fired"]:
            self.bad(h, None, "raises-without-fault", "raised %r" % exc)
            return False
        self.col.hit("save_failed")
        st1, ex = self.call(h, self.state, h)
        if ex is not None:
            return False
        if st1 != st0:
            self.bad(h, None, "failed-save-changes", "the failed save changed %s -> %s" % (st0, st1))
            return False
        after = self.files(h)
        for f in set(before) | set(after):
            if f not in allowed and before.get(f) != after.get(f):
                self.bad(h, None, "other-file", "the failed save changed %s" % f)
                return False
        self.check(h, "after a failed save")
        return not self.col.violations

    def check_files(self, h, name, before, allowed, subs):
        """The saved files say what the model says, other files are as they were."""
        after = self.files(h)
        for f in set(before) | set(after):
            if f not in allowed and before.get(f) != after.get(f):
                self.bad(h, None, "other-file", "saving %s changed %s" % (name, f))
                return False
        for f, m in [(name, h.model)] + sorted(h.subs.items()):
            if f not in after:
                self.bad(h, None, "silent-missing", "the save returned and there is no %s" % f)
                return False
            got, probs = sm.from_file(after[f], self.fmt, h.enc[None if m is h.model else f])
            if probs:
                self.bad(h, None, "file-malformed", "%s: %s" % (f, probs[0]))
                return False
            d = sm.diff(got, m)
            if d:
                self.bad(h, None, "file-differs", "in the saved file %s, %s" % (f, d))
                return False
        return True

    def save_io(self, h):
        before = self.files(h)
        s = io.StringIO()
        if self.call(h, h.editor.save_netlist, s)[1] is not None:
            return
        after = self.files(h)
        for f in set(before) | set(after):
            if f not in self.edited_subs(h) and before.get(f) != after.get(f):
                return self.bad(h, None, "other-file", "saving to a buffer changed %s" % f)
            if before.get(f) != after.get(f):
                h.disk[f] = copy.deepcopy(h.subs[f])
        got, probs = sm.from_file(s.getvalue().encode("utf-8"), self.fmt, "utf-8")
        d = probs[0] if probs else sm.diff(got, h.model)
        if d:
            self.bad(h, None, "buffer-differs", "in the buffer, " + d)

    def do_net(self, h, op):
        path = os.path.join(h.dir, op["name"])
        before = self.files(h)
        cfg = op.get("cfg")
        if op["how"] == "io":
            s = io.StringIO()
            if self.call(h, lambda: h.editor.save_netlist(s, cfg) if cfg else h.editor.save_netlist(s))[1] is None:
                self.check_net(h, s.getvalue(), cfg)
            after = self.files(h)
            if before != after:
                self.bad(h, None, "other-file", "writing the netlist to a buffer changed files")
            return
        fn = self.target(h, op, path)
        if cfg:
            fn = lambda: h.editor.save_netlist(path, verilog_config=cfg)
        if op["fault"] and not self.faulty(h, fn, op["fault"], op["name"], {op["name"]}, lambda: self.read_net(h, op["name"], before, cfg)):
            return
        if self.call(h, fn)[1] is not None:
            return
        self.col.hit("netlist")
        if str(h.editor.circuit_file) != h.path:
            return self.bad(h, None, "pointer", "circuit_file is %s, expected %s" % (h.editor.circuit_file, h.path))
        self.read_net(h, op["name"], before, cfg)

    def read_net(self, h, name, before, cfg):
        after = self.files(h)
        for f in set(before) | set(after):
            if f != name and before.get(f) != after.get(f):
                self.bad(h, None, "other-file", "writing the netlist changed %s" % f)
                return False
        if name not in after:
            self.bad(h, None, "silent-missing", "the save returned and there is no %s" % name)
            return False
        return self.check_net(h, after[name].decode("cp1252"), cfg)

    def check_net(self, h, text, cfg):
        ms = [h.model]

        def walk(m):
            for c in m.comps:
                if c.enabled and c.sub and c.sub in h.subs:
                    ms.append(h.subs[c.sub])
                    walk(h.subs[c.sub])
        walk(h.model)
        if not all(m.nodes for m in ms):
            return True
        found = lambda x: os.path.realpath(h.loc(x)) if x == "local.txt" else None
        d = sm.netlist_diff(text, sm.netlist(h.model, h.subs, found, cfg), iter([m.names for m in ms]))
        if d:
            self.bad(h, None, "netlist-differs", "in the netlist, " + d)
            return False
        return True

    def check_reload(self, h, path):
        e, ex = self.call(h, self.load, path)
        if ex is None:
            self.check_editor(h, e, h.model, "read back from the file", None)
            if len(e.netlist_updates):
                self.bad(h, None, "reload-updates", "a fresh editor has updates: %s" % [str(u) for u in e.netlist_updates])

    def do_reload(self, h, op):
        if h.saved is None:
            return
        path = os.path.join(h.dir, h.saved)
        e, ex = self.call(h, self.load, path)
        if ex is not None:
            return
        h.editor, h.path, h.top = e, path, h.saved
        h.fresh()
        self.check(h, "after reloading")

    def do_reset(self, h, op):
        if op["fault"]:
            r = self.arm(h, {"op": op["fault"], "nth": 1, "kind": "EIO", "count": 1}, os.path.basename(h.path))
            exc = None
            try:
                h.editor.reset_netlist()
            except core.SimKilled:
                raise
            except Exception as e:
                exc = e
            disk.FAULTS.rules.remove(r)
            if r["fired"] and exc is None:
                self.bad(h, None, "reset-silent", "reset_netlist() returned although the file couldn't be read")
            self.col.hit("reset_failed")
        if self.call(h, h.editor.reset_netlist)[1] is not None:
            return
        enc = h.enc[None]
        h.fresh()
        h.enc[None] = enc
        if len(h.editor.netlist_updates):
            self.bad(h, None, "reset-updates", "reset_netlist() leaves updates: %s" % [str(u) for u in h.editor.netlist_updates])
        self.col.hit("reset")
        self.check(h, "after reset_netlist()")

    # ---- oracle
    def check_editor(self, h, e, model, when, prop):
        bad = lambda key, msg: self.bad(h, None, key, "%s: %s" % (when, msg))
        try:
            self.check_sch(h, e, e, model, h.subs if model is h.model else None, "", bad)
        except core.SimKilled:
            raise
        except Exception as ex:
            import traceback
            bad("getter-raises %s" % type(ex).__name__, "a getter raised %r\n%s" % (ex, "".join(traceback.format_tb(ex.__traceback__))[-300:]))

    def check_sch(self, h, top, e, m, subs, pre, bad):
        refs = [c.ref for c in m.comps]
        if list(e.get_components()) != refs:
            return bad("get_components", "get_components() of %r is %s, expected %s" % (pre, e.get_components(), refs))
        if list(e.get_components("RC")) != [r for r in refs if r[0] in "RC"]:
            return bad("get_components-filter", "get_components('RC') is %s of %s" % (e.get_components("RC"), refs))
        for c in m.comps:
            d = self.comp(top, e, pre, c)
            if d:
                return bad("component", "%s: %s" % (pre + c.ref, d))
            if self.fmt == "qsch" and m.nodes:
                got = [str(n) for n in e.get_component_nodes(c.ref)]
                if len(got) != len(c.nets) or any(w is not None and g != w for g, w in zip(got, c.nets)):
                    return bad("nodes", "get_component_nodes(%r) is %s, expected %s" % (pre + c.ref, got, c.nets))
                if any(w is None and g in m.names for g, w in zip(got, c.nets)):
                    return bad("nodes", "get_component_nodes(%r) is %s: unconnected pins (%s) are at nets of others" % (pre + c.ref, got, c.nets))
        want = m.params()
        for k, v in want.items():
            g = e.get_parameter(k)
            if not nm.same(g, v):
                return bad("get_parameter", "%sget_parameter(%r) is %r, expected %r" % (pre, k, g, v))
        if sorted(e.get_all_parameter_names()) != sorted(want):
            return bad("parameter-names", "%sget_all_parameter_names() is %s, expected %s" % (pre, e.get_all_parameter_names(), sorted(want)))
        for c in m.comps:
            if self.fmt == "asc" and c.symbol in h.spec["libs"] and c.value in (None, c.symbol):
                d = self.check_lib(top, e, pre, c.ref)
                if d:
                    return bad("library", "%s: %s" % (pre + c.ref, d))
            if subs and c.sub in subs:
                self.check_sch(h, top, top.get_subcircuit(pre + c.ref), subs[c.sub], subs, pre + c.ref + ":", bad)

    def check_lib(self, top, e, pre, ref):
        """The sub-circuit in a library: it can be read, not changed."""
        sub = top.get_subcircuit(pre + ref)
        if list(sub.get_components()) != list(LIB_PARTS):
            return "the components are %s" % list(sub.get_components())
        if not nm.same(sub.get_parameter("cc"), "1n"):
            return "parameter cc is %r" % sub.get_parameter("cc")
        for r, (v, f, par) in LIB_PARTS.items():
            full = "%s%s:%s" % (pre, ref, r)
            for x in (top.get_component_value(full), top[full].value_str, sub.get_component_value(r), e.get_component_value("%s:%s" % (ref, r))):
                if x != v:
                    return "the value of %s is %r" % (r, x)
            if f is not None and top.get_component_floatvalue(full) != f:
                return "get_component_floatvalue of %s is %r" % (r, top.get_component_floatvalue(full))
            for g in (top.get_component_parameters(full), sub.get_component_parameters(r)):
                if any(not nm.same(g.get(k), x) for k, x in par.items()):
                    return "the parameters of %s are %s" % (r, g)
            if r == "C1":

                def item():
                    top[full].value = "9k"
                for what, fn in (("set_component_parameters", lambda: top.set_component_parameters(full, Rser=3)), ("value", item), ("remove_component", lambda: top.remove_component(full))):
                    try:
                        fn()
                    except core.SimKilled:
                        raise
                    except Exception:
                        continue
                    return "%s in a library didn't raise" % what
        self.col.hit("library_parts")
        return None

    def comp(self, top, e, pre, c):
        full = pre + c.ref
        if c.value is not None:
            v = top.get_component_value(full)
            if not self.same_value(v, c):
                return "value is %r, expected %r" % (v, c.value)
            if not self.same_value(top[full].value_str, c):
                return "value_str is %r, expected %r" % (top[full].value_str, c.value)
            n = nm.eng(c.value)
            if n is not None and c.kind in "RCL":
                f = top.get_component_floatvalue(full)
                if not abs(f - n) <= 2e-5 * abs(n):
                    return "get_component_floatvalue is %r, expected %r" % (f, n)
        g = top.get_component_parameters(full)
        if self.fmt == "asc":
            want = dict(c.named())
            got = {k: v for k, v in g.items() if k not in sm.LINES}
        else:
            want = {}
            got = {k: v for k, v in g.items() if isinstance(k, str)}
        want.update(c.params())
        for k, v in list(want.items()):
            if k in got and str(v).strip() and (str(v)[0] in '"' or not sm.re.match(r"[\d.+\-{]", str(v))):
                got[k] = v          # words and texts in quotes: how they are shown isn't specified
            elif k not in got and not sm.re.match(r"[\d.+\-{]", str(v)):
                del want[k]
        got = {k: v for k, v in got.items() if k in want or not self.wordy(c, k)}
        if sorted(got) != sorted(want):
            return "parameters are %s, expected %s" % (got, want)
        for k, v in want.items():
            if not nm.same(got[k], v):
                return "parameter %s is %r, expected %r" % (k, got[k], v)
        pt, rot = top.get_component_position(full)
        r = c.rot if self.fmt == "asc" else "M%d" % (c.rot % 8 * 45) if c.rot >= 8 else "R%d" % (c.rot * 45)
        if (pt.X, pt.Y, rot.name) != (c.x, c.y, r):
            return "position is (%s, %s) %s, expected (%s, %s) %s" % (pt.X, pt.Y, rot.name, c.x, c.y, r)
        if self.fmt == "asc":
            for k, v in c.attrs.items():
                a = top.get_component_attribute(full, k)
                if not nm.same(a, v):
                    return "get_component_attribute(%r) is %r, expected %r" % (k, a, v)
        return None

    def same_value(self, got, c):
        if "Value" in c.attrs and "Value2" in c.attrs:
            ws = str(got).split(" ")
            return any(nm.same(" ".join(ws[:i]), c.attrs["Value"]) and nm.same(" ".join(ws[i:]), c.attrs["Value2"]) for i in range(1, len(ws)))
        return nm.same(sm.decap(got), sm.decap(c.value))

    def wordy(self, c, k):
        """A name that only a free reading of the line finds."""
        return any(isinstance(w, str) for ws in c.lines.values() for w in ws) or any('"' in str(w[1]) for ws in c.lines.values() for w in ws if isinstance(w, list))

    def scenario(self):
        p = self.plan
        hs = [Hist(self, "main", p["spec"], p["ops"])]
        if p["other"]:
            hs.append(Hist(self, "other", p["spec2"], p["other"]))
        ws = [common.Worker(self.sim, h.who, lambda h=h: self.run_hist(h)) for h in hs]
        for w in ws:
            w.join()
            if w.exc:
                self.col.bad(self.prop, "harness", w.exc[-600:])


def execute(job, scratch):
    w = World(job, scratch)
    w.plan.setdefault("env_seed", 0)
    status = w.sim.run(w.scenario)
    if status in ("deadlock", "horizon", "steps"):
        w.col.bad(w.prop, "stuck", w.sim.detail)
    return common.result(w.sim, w.col, w.choices)
