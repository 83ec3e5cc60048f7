"""Editors: saves that fail (E01) and edit histories (E02)."""
import copy
import io
import os
from .. import core, disk, procs
from . import common
from . import netmodel as nm

PROPS = ["E01", "E02"]
HOMES = {"lt": ("AppData/Local/LTspice/lib", "* C:\\work\\dst.asc"), "qs": ("Documents/QSPICE", "* C:\\work\\dst.qsch")}
SUBINSTR = [".ic V(s1)=1", ".model DX D(Is=1p)", ".nodeset V(p)=0"]
V, P, CP = "UpdateComponentValue", ("AddParameter", "UpdateParameter"), ("AddComponentParameter", "UpdateComponentParameter")


# ================================================================ plans
def gen_fault(rng):
    op = rng.choice(["open", "write", "write", "write", "close", "close"])
    return {"op": op, "nth": rng.choice([1, 1, 2, 3, 6]) if op == "write" else 1, "kind": rng.choice(["ENOSPC", "EIO", "EACCES"] + (["short"] if op == "write" else [])),
            "count": rng.choice([1, 1, 1, 3, 99]), "torn": rng.choice([0, 0.3, 0.9])}


def gen_ops(rng, net, n, prop):
    """A history of operations against the names in the netlist; some of them invalid."""
    refs = [c["ref"] for c in net["items"] if c["t"] == "c"]
    kinds = {c["ref"]: c["kind"] for c in net["items"] if c["t"] == "c"}
    subs = {s["name"]: s for s in net["subs"] + net.get("lib", []) + (net.get("inc") or {"subs": []})["subs"]}
    byname = {s.upper(): x for s, x in subs.items()}
    inside = []
    insts = []
    for c in net["items"]:
        if c["t"] == "c" and c["kind"] == "X" and c["value"].upper() in byname:
            insts.append(c["ref"])
            for d in byname[c["value"].upper()]["items"]:
                if d["t"] == "c":
                    inside.append((c["ref"] + ":" + d["ref"], d["kind"]))
                    if d["kind"] == "X" and d["value"].upper() in byname:
                        insts.append(c["ref"] + ":" + d["ref"])
                        inside += [(c["ref"] + ":" + d["ref"] + ":" + e["ref"], e["kind"]) for e in byname[d["value"].upper()]["items"] if e["t"] == "c"]
    ops = []
    nsave = [0]
    new = [100]
    cur = rng.sample(nm.PNAMES, 4)
    used = [i["text"] for i in net["items"] if i["t"] == "i" and not i["text"].lower().startswith(".lib")]
    pset = [k for i in net["items"] if i["t"] == "p" for k, _ in i["kv"]]

    def save():
        nsave[0] += 1
        o = {"op": "save", "name": rng.choice(["s%d.net" % nsave[0]] * 3 + ["same.net"]), "how": rng.choice(["path", "str", "path", "as", "write"]), "fault": None}
        if rng.random() < (0.7 if prop == "E01" else 0.2):
            o["fault"] = gen_fault(rng)
        return o

    def edit(inner=True):
        k = rng.random()
        if k < 0.30 or (k < 0.42 and not inside):
            ref = rng.choice(refs)
            return {"op": "val", "ref": ref, "v": gen_val(ref), "how": rng.choice(["set", "set", "obj", "item", "multi", "model", "key", "str", "np"]), "low": rng.random() < 0.12}
        if k < 0.42:
            ref, kd = rng.choice(inside)
            if rng.random() < 0.2:
                return rng.choice([
                    {"op": "par", "sub": rng.choice(insts), "name": rng.choice(["k1", "gain", "eps", "new"]), "v": nm.gen_pvalue(rng), "how": "set"},
                    {"op": "subins", "sub": rng.choice(insts), "text": rng.choice(SUBINSTR)},
                    {"op": "rm", "ref": ref, "how": rng.choice(["sub", "inst"])},
                    {"op": "clear", "ref": ref, "key": rng.choice([None, rng.choice(nm.CPARAMS[kd])]) if nm.CPARAMS[kd] else None},
                    subadd(rng.choice(insts)),
                    {"op": "subrmi", "sub": rng.choice(insts), "text": rng.choice(SUBINSTR), "how": rng.choice(["sub", "inst"]), "x": rng.random() < 0.3},
                    {"op": "bad", "what": "inst", "sub": rng.choice(insts)}])
            if rng.random() < 0.3 and nm.CPARAMS[kd]:
                return {"op": "cpar", "ref": ref, "kv": [[ck, None if rng.random() < 0.2 else nm.gen_cparam(rng, ck if kd in "RM" else "")] for ck in [rng.choice(nm.CPARAMS[kd])]], "how": rng.choice(["set", "obj", "inst"])}
            return {"op": "val", "ref": ref, "v": nm.gen_value(rng, kd, subs=list(subs)), "how": rng.choice(["set", "obj", "sub", "inst", "institem", "instmulti", "submulti", "model"]), "low": False}
        if k < 0.55:
            c = [r for r in refs if nm.CPARAMS[kinds.get(r, "R")]]
            if not c:
                return {"op": "par", "name": rng.choice(cur), "v": nm.gen_pvalue(rng), "how": "set"}
            ref = rng.choice(c)
            ks = nm.CPARAMS[kinds.get(ref, "R")]
            if rng.random() < 0.12:
                return {"op": "clear", "ref": ref, "key": rng.choice([None, rng.choice(ks)])}
            kv = [[x, None if rng.random() < 0.2 else nm.gen_cparam(rng, x if kinds.get(ref, "R") in "RM" else "")] for x in rng.sample(ks, rng.choice([1, 1, min(2, len(ks))]))]
            return {"op": "cpar", "ref": ref, "kv": kv, "how": rng.choice(["set", "obj", "item"])}
        if k < 0.75:
            name = rng.choice((pset or cur) if rng.random() < 0.6 else cur)
            if name not in pset:
                pset.append(name)
            v = None if rng.random() < 0.15 else nm.gen_pvalue(rng)
            return {"op": "par", "name": name, "v": v, "how": rng.choice(["set", "set", "multi"])}
        if k < 0.84:
            t = rng.choice(nm.INSTR)
            used.append(t)
            return {"op": "ins", "text": t, "nl": rng.random() < 0.2}
        if k < 0.90:
            if rng.random() < 0.3:
                return {"op": "rmx", "pat": rng.choice([r"\.meas.*", r"\.step", r"\.(ac|tran).*", r"\.options?\b.*", r"\.nothing", r"\.MODEL .*",
                                                          r"\.(meas|save|ic|nodeset|temp|four|global|func|opt)", r"\.(meas|save|ic|nodeset|temp|four|global|func|opt)"])}
            return {"op": "rmi", "text": rng.choice(used or [".nothing"])}
        if k < 0.94:
            new[0] += 1
            src = rng.choice([r for r in refs if kinds.get(r, "R") in "RCLVI"] or refs)
            kd = kinds.get(src, src[0])
            ref = "%s%d" % (kd, new[0])
            o = {"op": "add", "src": src, "ref": ref, "where": rng.choice([None, "before", "after", "after"]), "at": rng.choice(refs)}
            if rng.random() < 0.3:
                o = {"op": "addline", "ref": "R%d" % new[0], "line": "R%d n1 out 1k5" % new[0]}
                kd = "R"
                ref = o["ref"]
            elif rng.random() < 0.4:
                kd = rng.choice("RCLVID")
                ref = "%s%d" % (kd, new[0]) if rng.random() < 0.7 else rng.choice([r for r in refs if kinds.get(r, r[0]) == kd] or ["%s%d" % (kd, new[0])])
                o = {"op": "addnew", "ref": ref, "kind": kd, "nodes": rng.sample(["in", "out", "n1", "0", "new"], 2), "v": nm.gen_value(rng, kd),
                     "params": [[x, nm.gen_cparam(rng)] for x in rng.sample(nm.CPARAMS[kd], 1)] if rng.random() < 0.3 else
                     [["parameter%d" % i, nm.gen_cparam(rng)] for i in range(12)] if rng.random() < 0.1 else [], "low": rng.random() < 0.15,
                     "where": rng.choice([None, None, "before", "after"]), "at": rng.choice(refs)}
            refs.append(ref)
            kinds[ref] = kd
            return o
        if k < 0.97 and len(refs) > 2:
            r = rng.choice(refs)
            if rng.random() < 0.7:
                refs.remove(r)
            return {"op": "rm", "ref": r}
        return rng.choice([{"op": "bad", "what": "val"}, {"op": "bad", "what": "rm"}, {"op": "bad", "what": "param-instr"}, {"op": "bad", "what": "sub"},
                           {"op": "bad", "what": "get"}, {"op": "ctl", "n": rng.randrange(3)}, {"op": "rmctl", "i": rng.choice([0, 0, 1])}])

    def subadd(sub):
        new[0] += 1
        kd = rng.choice("RCLV")
        return {"op": "subadd", "sub": sub, "ref": "%s%d" % (kd, new[0]), "kind": kd, "nodes": rng.sample(["p", "q", "s1", "0"], 2), "v": nm.gen_value(rng, kd), "how": rng.choice(["sub", "inst"])}

    def gen_val(ref):
        return nm.gen_value(rng, kinds.get(ref, ref[0]), subs=list(subs))

    for _ in range(n):
        r = rng.random()
        if r < 0.16 + (0.14 if prop == "E01" else 0):
            ops.append(save())
        elif r < 0.20:
            ops.append({"op": "reset", "fault": rng.choice([None, None, None, "openr", "read"])})
        elif r < 0.23 and nsave[0]:
            ops.append({"op": "reload"})
        else:
            ops.append(dict(edit(), chk=rng.random() < 0.4))
    ops.append(save())
    return ops


def gen_plan(rng, prop, tier):
    big = tier == "thorough"
    net = nm.gen_net(rng, big)
    p = {"kind": "spice", "net": net, "sched": common.gen_sched(rng), "latency": rng.choice([0.0, 0.0, 0.001]), "buffer": rng.choice([None, 64, 64, 200, 17]),
         "ops": gen_ops(rng, net, rng.choice([3, 6, 10, 16] if not big else [10, 25, 40]), prop), "other": []}
    if net["enc"] == "windows-1252" and rng.random() < 0.5:
        net["items"].insert(0, {"t": "*", "text": "* caf\u00e9, 10 \u00b5A"})
        p["ops"].insert(rng.randrange(len(p["ops"]) + 1), {"op": "enc", "ref": rng.choice([c["ref"] for c in net["items"] if c["t"] == "c" and c["kind"] in "RCL"] or ["R1"]), "how": rng.choice(["path", "str", "write"])})
    if (net["lib"] or net["inc"]) and rng.random() < 0.4:
        # The library is where the program that made the netlist has it; the other program has another one of that name
        p["home"] = rng.choice(sorted(HOMES))
        net["title"] = HOMES[p["home"]][1]
        p["foreign"] = rng.random() < 0.6
        # ... unless the user says where the libraries are, or which simulator's are to be used
        p["cust"] = rng.choice([None, None, None, "str", "list", "two", "tilde", "prep", "both"])
        for _ in range(rng.choice([0, 1, 2])):
            p["ops"].insert(rng.randrange(len(p["ops"]) + 1), {"op": "foreign"})
    if rng.random() < 0.2:
        p["other"] = gen_ops(rng, net, rng.choice([3, 6, 10]), prop)
    return p


def shrink(plan):
    if plan["other"]:
        yield dict(copy.deepcopy(plan), other=[])
    if plan.get("foreign"):
        yield dict(copy.deepcopy(plan), foreign=False)
    if plan.get("home"):
        yield dict(copy.deepcopy(plan), home=None, foreign=False, cust=None)
    if plan.get("cust"):
        yield dict(copy.deepcopy(plan), cust=None)
    for i in range(len(plan["ops"]) - 1, -1, -1):
        q = copy.deepcopy(plan)
        del q["ops"][i]
        yield q
    for o in ("latency", "buffer"):
        if plan[o]:
            yield dict(copy.deepcopy(plan), **{o: 0.0 if o == "latency" else None})
    if plan["kind"] != "spice":
        return
    net = plan["net"]
    used = " ".join(str(o) for o in plan["ops"] + plan["other"])
    for i in range(len(net["items"]) - 1, -1, -1):
        it = net["items"][i]
        if it["t"] == "c" and ("'%s" % it["ref"] in used or ":%s" % it["ref"] in used):
            continue
        q = copy.deepcopy(plan)
        del q["net"]["items"][i]
        yield q
    if net.get("inc"):
        if not net["inc"]["subs"] or (net["inc"]["subs"][0]["name"] not in used and not any(c.get("value") == net["inc"]["subs"][0]["name"] for c in net["items"])):
            q = copy.deepcopy(plan)
            q["net"]["inc"] = None
            yield q
        for i in range(len(net["inc"]["items"])):
            q = copy.deepcopy(plan)
            del q["net"]["inc"]["items"][i]
            yield q
    for i in range(len(net["subs"])):
        if net["subs"][i]["name"] not in used and not any(c.get("value") == net["subs"][i]["name"] for c in net["items"]):
            q = copy.deepcopy(plan)
            del q["net"]["subs"][i]
            yield q
    for i, it in enumerate(net["items"]):
        if it["t"] == "c":
            if it["params"] and "cpar" not in used:
                q = copy.deepcopy(plan)
                q["net"]["items"][i]["params"] = []
                yield q
            if it["lay"] and any(it["lay"].get(k) not in (1, None, "", "=", False) for k in it["lay"]):
                q = copy.deepcopy(plan)
                q["net"]["items"][i]["lay"] = {}
                yield q
    for k, v in (("tail", []), ("eol", "\n"), ("enc", "utf-8"), ("lastnl", True), ("backanno", False), ("title", "* dst circuit"), ("end", ".end")):
        if net[k] != v:
            q = copy.deepcopy(plan)
            q["net"][k] = v
            yield q


# ================================================================ execution
class Hist:
    """One editor, its model and its files."""

    def __init__(self, w, who, path, ops):
        self.w, self.who, self.path, self.ops = w, who, path, ops
        self.editor = None
        self.orig = None            # the model of the file
        self.model = None
        self.upd = {}               # (name, group) -> latest value
        self.dir = os.path.join(w.scratch, who)
        os.mkdir(self.dir)
        if w.plan["net"].get("lib") and not w.plan.get("home"):
            disk.write_file(os.path.join(self.dir, "dst.lib"), nm.render_lib(w.plan["net"]))
        self.saved = None           # (path, model) of the last complete save
        self.n = 0


class World:
    def __init__(self, job, scratch):
        p = self.plan = job["plan"]
        self.prop = job["prop"]
        self.scratch = scratch
        disk.configure(scratch, [{"op": "none", "nth": 1, "kind": "EIO"}], p["latency"])
        disk.BUFFER = p.get("buffer")
        self.choices = common.make_choices(job)
        self.sim = core.Sim(self.choices, max_steps=3_000_000)
        self.sim.scratch = scratch
        procs.TABLE = procs.ProcTable(self.sim, lambda popen: None)
        self.col = common.Collector(self.sim, self.prop)
        self.src = os.path.join(scratch, "src")
        os.mkdir(self.src)
        self.path = os.path.join(self.src, "circuit.net")
        disk.write_file(self.path, nm.render(p["net"]))
        libs = self.src
        if p.get("home"):
            for d in ("home", "cwd"):
                os.mkdir(os.path.join(scratch, d))
            os.environ["HOME"] = os.path.join(scratch, "home")
            os.chdir(os.path.join(scratch, "cwd"))
            for k, (d, title) in HOMES.items():
                d = os.path.join(scratch, "home", d)
                os.makedirs(d)
                if (k == p["home"]) != (p.get("cust") in ("prep", "both")) and p.get("cust") in (None, "prep", "both"):
                    libs = d
                else:
                    disk.write_file(os.path.join(d, "dst.lib"), "".join("* another\n.subckt %s p q\nR99 p q 99\n.ends\n" % s["name"] for s in p["net"].get("lib") or []).encode())
                    disk.write_file(os.path.join(d, "common.inc"), b"* another\n.param decoy=99\n")
                    disk.write_file(os.path.join(self.src, "foreign.net"), (title + "\nR1 a b 1k\n.end\n").encode())
            if p.get("cust") not in (None, "prep", "both"):
                libs = os.path.join(scratch, "home", "my parts")
                os.mkdir(libs)
            self.configure()
        if p["net"].get("lib"):
            disk.write_file(os.path.join(libs, "dst.lib"), nm.render_lib(p["net"]))
        if p["net"].get("inc"):
            disk.write_file(os.path.join(libs, "common.inc"), nm.render_inc(p["net"]))

    def configure(self):
        """The library paths, as the user sets them for all editors."""
        from spicelib.editor.spice_editor import SpiceEditor
        from spicelib.simulators.ltspice_simulator import LTspice
        from spicelib.simulators.qspice_simulator import Qspice
        k = self.plan.get("cust")
        home = os.path.join(self.scratch, "home")
        mine, other, gone = os.path.join(home, "my parts"), os.path.join(home, "empty"), os.path.join(home, "gone")
        os.mkdir(other)
        if k == "str":
            SpiceEditor.set_custom_library_paths(mine)
        elif k == "list":
            SpiceEditor.set_custom_library_paths(gone)
            SpiceEditor.set_custom_library_paths([gone, other, mine])
        elif k == "two":
            SpiceEditor.set_custom_library_paths(os.path.join(home, HOMES[self.plan["home"]][0]))   # replaced by the next
            SpiceEditor.set_custom_library_paths(other, gone, mine)
        elif k == "tilde":
            SpiceEditor.set_custom_library_paths("~/my parts")
        elif k in ("prep", "both"):
            if k == "both":     # the simulator's come before the user's
                SpiceEditor.set_custom_library_paths(os.path.join(home, HOMES[self.plan["home"]][0]))
            SpiceEditor.prepare_for_simulator({"lt": Qspice, "qs": LTspice}[self.plan["home"]])

    def bad(self, h, prop, key, msg):
        self.col.bad(prop, key, "%s op %d %s: %s" % (h.who, h.n, h.cur, msg))

    # ---- running a history
    def run_hist(self, h):
        h.cur = "load"
        h.orig = nm.build(self.plan["net"])
        h.model = copy.deepcopy(h.orig)
        if self.plan.get("foreign"):
            self.load(os.path.join(self.src, "foreign.net"))
        h.editor = self.load(h.path)
        self.check(h, "after loading")
        for i, op in enumerate(h.ops):
            h.n, h.cur = i, {k: v for k, v in op.items() if k != "chk"}
            self.sim.rec("op", who=h.who, op=op["op"])
            getattr(self, "do_" + op["op"])(h, op)
            self.check_updates(h)
            if op.get("chk"):
                self.check(h, "after it")
            if self.col.violations:
                return
        h.cur = "end"
        self.check(h, "at the end")
        self.resave(h)

    def load(self, path):
        from spicelib.editor.spice_editor import SpiceEditor
        return SpiceEditor(path)

    def call(self, h, fn, *a, **k):
        """A valid operation: it doesn't raise."""
        try:
            return fn(*a, **k), None
        except core.SimKilled:
            raise
        except Exception as e:
            import traceback
            self.bad(h, "E02", "raises %s" % type(e).__name__, "raised %r\n%s" % (e, "".join(traceback.format_tb(e.__traceback__))[-300:]))
            return None, e

    # ---- edits
    def locate(self, h, ref):
        """(circuit, component, the instances on the way)"""
        m, path = h.model, []
        parts = ref.upper().split(":")
        scopes = [h.model]
        for q in parts[:-1]:
            c = m.find(q)
            if c is None or c.kind != "X":
                return None, None, None
            s = c.inst
            if s is None:
                s = next((x for x in (sc.sub_named(c.value) for sc in reversed(scopes)) if x is not None), None)
            if s is None:
                return None, None, None
            path.append((m, c, s))
            m = s
            scopes.append(m)
        return m, m.find(parts[-1]), path

    def own(self, h, path, upto=None):
        """An edit inside an instance gives it its own copy of the sub-circuit."""
        m = h.model
        for i, (_, c0, s0) in enumerate(path):
            c = m.find(c0.ref)
            if c.inst is None:
                full = ":".join(x[1].ref for x in path[:i + 1])
                try:
                    new = h.editor.get_component_value(full)
                except Exception as e:
                    new = "(%r)" % e
                if m.sub_named(new) is not None or any(x.sub_named(new, False) is not None for x in [h.model] + [y[2] for y in path]):
                    self.bad(h, "E02", "copy-name", "the copy of %s for the edited instance %s is called %s, a name that is taken" % (s0.name, full, new))
                c.inst = copy.deepcopy(s0)
                c.inst.name = new
                c.value = new
                c.touched = True
                h.upd[(full, "V")] = new
            m = c.inst
        return m

    def do_val(self, h, op):
        e, ref, v, how = h.editor, op["ref"], op["v"], op["how"]
        m, c, path = self.locate(h, ref)
        if c is None:
            return self.expect_missing(h, lambda: e.set_component_value(ref, v))
        if c.kind == "X" and how == "item":
            how = "set"
        if op.get("low"):
            ref = ref.lower()
        if how == "np":
            import numpy
            v = int(v) if isinstance(v, (int, float)) and v == int(v) and abs(v) < 1e15 else v
            arg = v if isinstance(v, str) else numpy.int64(v) if isinstance(v, int) else numpy.float64(v)
            f = lambda: e.set_component_value(ref, arg)
        elif how == "model" and isinstance(v, str):
            f = lambda: e.set_element_model(ref, v)
        elif how == "key" and c.kind != "X":
            def f():
                e[ref]["value"] = v
        elif how == "str":
            def f():
                e[ref].value_str = v
        elif how in ("sub", "inst", "institem", "instmulti", "submulti") and path:
            pre, last = ref.rsplit(":", 1)
            if how == "sub":
                f = lambda: e.get_subcircuit(pre).set_component_value(last, v)
            elif how == "inst" and isinstance(v, str) and len(v) % 2:
                f = lambda: e[pre].set_element_model(last, v)
            elif how == "inst":
                f = lambda: e[pre].set_component_value(last, v)
            elif how == "instmulti":
                f = lambda: e[pre].set_component_values(**{last: v})
            elif how == "submulti":
                f = lambda: e.get_subcircuit(pre).set_component_values(**{last: v})
            else:
                def f():
                    e[pre][last] = v
        elif how == "obj":
            def f():
                e[ref].value = v
        elif how == "item":
            def f():
                e[ref] = v
        elif how == "multi":
            f = lambda: e.set_component_values(**{ref: v})
        else:
            f = lambda: e.set_component_value(ref, v)
        _, ex = self.call(h, f)
        if ex is not None:
            return
        m = self.own(h, path)
        c = m.find(c.ref)
        c.value, c.touched, c.inst = v, True, None
        h.upd[(":".join([x[1].ref for x in path] + [c.ref]), "V")] = v
        self.sim.rec("val", kind=c.kind, deep=len(path))

    def do_cpar(self, h, op):
        e, ref = h.editor, op["ref"]
        m, c, path = self.locate(h, ref)
        kv = dict(op["kv"])
        if c is None:
            return self.expect_missing(h, lambda: e.set_component_parameters(ref, **kv))
        if not nm.CPARAMS[c.kind]:
            return
        if op["how"] == "obj":
            def f():
                e[ref].set_params(**kv)
        elif op["how"] == "inst" and path:
            f = lambda: e[ref.rsplit(":", 1)[0]].set_component_parameters(ref.rsplit(":", 1)[1], **kv)
        elif op["how"] == "item" and c.kind != "X":
            def f():
                x = e[ref]
                for k, v in kv.items():
                    x[k] = v
        else:
            f = lambda: e.set_component_parameters(ref, **kv)
        _, ex = self.call(h, f)
        if ex is not None:
            return
        m = self.own(h, path)
        c = m.find(c.ref)
        full = ":".join([x[1].ref for x in path] + [c.ref])
        for k, v in kv.items():
            if v is None:
                c.params.pop(k, None)
                h.upd.pop((full + ":" + k, "CP"), None)
                h.upd[(full + ":" + k, "CPD")] = None
            else:
                c.params[k] = v
                h.upd.pop((full + ":" + k, "CPD"), None)
                h.upd[(full + ":" + k, "CP")] = v
        c.touched = True

    def do_par(self, h, op):
        e, n, v = h.editor, op["name"], op["v"]
        m = h.model
        path = []
        if op.get("sub"):
            m, _, path = self.locate(h, op["sub"] + ":?")
            if m is None:
                return
            pre = op["sub"]
            e = e.get_subcircuit(pre)
        if v is None and n.upper() not in m.params:
            return
        f = (lambda: e.set_parameters(**{n: v})) if op["how"] == "multi" else (lambda: e.set_parameter(n, v))
        _, ex = self.call(h, f)
        if ex is not None:
            return
        if path:
            m = self.own(h, path)
            n0, n = n, ":".join([x[1].ref for x in path] + [n])
        else:
            n0 = n
        if v is None:
            del m.params[n0.upper()]
            h.upd.pop((n, "P"), None)
            h.upd[(n, "PD")] = None
        else:
            m.params[n0.upper()] = v
            h.upd.pop((n, "PD"), None)
            h.upd[(n, "P")] = v

    def do_subins(self, h, op):
        m, _, path = self.locate(h, op["sub"] + ":?")
        if m is None:
            return
        _, ex = self.call(h, lambda: h.editor.get_subcircuit(op["sub"]).add_instruction(op["text"]))
        if ex is not None or op["text"] in m.instr:
            return
        m = self.own(h, path)
        m.instr.append(op["text"])

    def do_subrmi(self, h, op):
        import re
        m, _, path = self.locate(h, op["sub"] + ":?")
        if m is None:
            return
        s = h.editor[op["sub"]] if op["how"] == "inst" and hasattr(h.editor[op["sub"]], "remove_instruction") else h.editor.get_subcircuit(op["sub"])
        pat = re.escape(op["text"][:4]) + ".*"
        r, ex = self.call(h, (lambda: s.remove_Xinstruction(pat)) if op["x"] else (lambda: s.remove_instruction(op["text"])))
        if ex is not None:
            return
        hit = [t for t in m.instr if (re.match(pat, t, re.I) if op["x"] else t == op["text"])]
        if r is not bool(hit):
            self.bad(h, "E02", "remove-instruction", "in %s: returned %r, the matching instructions: %s" % (op["sub"], r, hit))
        if hit:
            m = self.own(h, path)
            for t in hit:
                m.instr.remove(t)

    def do_subadd(self, h, op):
        from spicelib.editor.spice_components import SpiceComponent
        m, _, path = self.locate(h, op["sub"] + ":?")
        if m is None or m.find(op["ref"]):
            return

        def f():
            x = SpiceComponent(reference=op["ref"], ports=op["nodes"], value=op["v"])
            (h.editor[op["sub"]] if op["how"] == "inst" else h.editor.get_subcircuit(op["sub"])).add_component(x)
        _, ex = self.call(h, f)
        if ex is not None:
            return
        m = self.own(h, path)
        c = nm.Comp({"kind": op["kind"], "ref": op["ref"], "nodes": op["nodes"], "value": str(op["v"]), "params": []})
        c.value, c.touched, c.loose = op["v"], True, True
        m.comps.append(c)
        h.upd[(":".join([x[1].ref for x in path] + [c.ref]), "A")] = op["v"]

    def do_clear(self, h, op):
        e, ref, k = h.editor, op["ref"], op["key"]
        m, c, path = self.locate(h, ref)
        if c is None or (k is None and not c.params) or (k is not None and k not in c.params):
            return
        _, ex = self.call(h, (lambda: e[ref].clear_parameters()) if k is None else (lambda: e[ref].clear_parameter(k)))
        if ex is not None:
            return
        m = self.own(h, path)
        c = m.find(c.ref)
        full = ":".join([x[1].ref for x in path] + [c.ref])
        for x in list(c.params) if k is None else [k]:
            del c.params[x]
            h.upd.pop((full + ":" + x, "CP"), None)
            h.upd[(full + ":" + x, "CPD")] = None
        c.touched = True

    def do_ins(self, h, op):
        t = op["text"]
        n0 = len(h.editor.netlist_updates)
        _, ex = self.call(h, h.editor.add_instruction, t + ("\n" if op["nl"] else ""))
        if ex is not None:
            return
        ins = h.model.instr
        if t.split()[0].upper() in nm.UNIQUE:
            for i, x in enumerate(ins):
                if x.split()[0].upper() in nm.UNIQUE:
                    ins[i] = t
                    h.upd[("INSTRUCTION", t)] = "UpdateInstruction"
                    return
        if t in ins:
            return
        ins.append(t)
        h.upd[("INSTRUCTION", t)] = "AddInstruction"

    def do_rmi(self, h, op):
        r, ex = self.call(h, h.editor.remove_instruction, op["text"])
        if ex is not None:
            return
        have = op["text"] in h.model.instr
        if r is not have:
            self.bad(h, "E02", "remove-instruction", "returned %r, the instruction was %s" % (r, "there" if have else "not there"))
        if have:
            h.model.instr.remove(op["text"])
            h.upd[("INSTRUCTION", op["text"])] = "DeleteInstruction"

    def do_rmx(self, h, op):
        import re
        r, ex = self.call(h, h.editor.remove_Xinstruction, op["pat"])
        if ex is not None:
            return
        hit = [t for t in h.model.instr if re.match(op["pat"], t, re.I)]
        if r is not bool(hit):
            self.bad(h, "E02", "remove-Xinstruction", "returned %r, matching instructions: %s" % (r, hit))
        for t in hit:
            h.model.instr.remove(t)
            h.upd[("INSTRUCTION", t)] = "DeleteInstruction"

    def do_add(self, h, op):
        src = h.model.find(op["src"])
        if src is None or src.kind not in "RCLVI" or h.model.find(op["ref"]):
            return
        at = h.model.find(op["at"]) if op["where"] else None
        if op["where"] and at is None:
            return

        def f():
            c = h.editor[op["src"]].clone()
            c.reference = op["ref"]
            h.editor.add_component(c, **({"insert_" + op["where"]: op["at"]} if op["where"] else {}))
        _, ex = self.call(h, f)
        if ex is not None:
            return
        c = src.copy()
        c.ref, c.touched = op["ref"].upper(), True
        i = len(h.model.comps)
        if at is not None:
            i = h.model.comps.index(at) + (op["where"] == "after")
        else:
            c.loose = True
        h.model.comps.insert(i, c)

    def do_addline(self, h, op):
        if h.model.find(op["ref"]):
            return
        _, ex = self.call(h, h.editor.add_instruction, op["line"])
        if ex is not None:
            return
        t = op["line"].split()
        c = nm.Comp({"kind": "R", "ref": t[0], "nodes": t[1:3], "value": t[3], "params": []})
        c.loose = True
        h.model.comps.append(c)

    def do_rm(self, h, op):
        m, c, path = self.locate(h, op["ref"])
        if m is None:
            return
        pre, last = op["ref"].rsplit(":", 1) if path else (None, op["ref"])

        def f():
            if pre is None and h.n % 3 == 0:
                del h.editor[last]
            elif pre is None:
                h.editor.remove_component(last)
            elif op["how"] == "inst":
                h.editor[pre].remove_component(last)
            else:
                h.editor.get_subcircuit(pre).remove_component(last)
        if c is None:
            return self.expect_missing(h, f)
        _, ex = self.call(h, f)
        if ex is None:
            m = self.own(h, path)
            c = m.find(c.ref)
            m.comps.remove(c)
            full = ":".join([x[1].ref for x in path] + [c.ref])
            h.upd[(full, "D")] = None

    def do_addnew(self, h, op):
        from spicelib.editor.spice_components import SpiceComponent
        old = h.model.find(op["ref"])
        at = h.model.find(op["at"]) if op["where"] else None
        if op["where"] and (at is None or at is old):
            return
        c = nm.Comp({"kind": op["kind"], "ref": op["ref"], "nodes": op["nodes"], "value": str(op["v"]), "params": [[k, str(v)] for k, v in op["params"]]})
        c.value, c.touched = op["v"], True

        def f():
            x = SpiceComponent(reference=op["ref"].lower() if op.get("low") else op["ref"].upper(), ports=op["nodes"], value=op["v"], params=dict(op["params"]))
            h.editor.add_component(x, **({"insert_" + op["where"]: op["at"]} if op["where"] else {}))
        _, ex = self.call(h, f)
        if ex is not None:
            return
        if old is not None:
            i = h.model.comps.index(old)
            c.loose = old.loose
            h.model.comps.remove(old)
        else:
            i = len(h.model.comps)
            c.loose = at is None
        if at is not None:
            c.loose = at.loose
            i = h.model.comps.index(at) + (op["where"] == "after")
        h.model.comps.insert(i, c)
        h.upd[(c.ref, "A")] = op["v"]

    def do_ctl(self, h, op):
        t = nm.CONTROLS[op["n"]]
        if t in h.model.controls:
            return
        _, ex = self.call(h, h.editor.add_control_section, "\n".join(t))
        if ex is None:
            h.model.controls.append(list(t))
            h.model.anyctl = True

    def do_rmctl(self, h, op):
        r, ex = self.call(h, h.editor.remove_control_section, op["i"])
        if ex is not None:
            return
        have = op["i"] < len(h.model.controls)
        if r is not have:
            self.bad(h, "E02", "remove-control", "returned %r with %d sections" % (r, len(h.model.controls)))
        elif have:
            del h.model.controls[op["i"]]

    def expect_missing(self, h, f):
        """An operation on something that isn't there raises, and changes nothing."""
        n0 = [(u.name, u.value, u.updates) for u in h.editor.netlist_updates]
        try:
            f()
        except core.SimKilled:
            raise
        except Exception as e:
            self.sim.rec("refused", exc=type(e).__name__)
        else:
            self.bad(h, "E02", "missing-accepted", "an operation on a component that isn't there was accepted")
        if [(u.name, u.value, u.updates) for u in h.editor.netlist_updates] != n0:
            self.bad(h, "E02", "missing-recorded", "a refused edit is recorded as an update: %s" % [str(u) for u in h.editor.netlist_updates][-2:])
        self.col.hit("refused_edit")

    def do_bad(self, h, op):
        e, k = h.editor, op["what"]
        if k == "val":
            self.expect_missing(h, lambda: e.set_component_value("R999", "1k"))
        elif k == "rm":
            self.expect_missing(h, lambda: e.remove_component("C999"))
        elif k == "param-instr":
            self.expect_missing(h, lambda: e.add_instruction(".param q=5"))
        elif k == "sub":
            self.expect_missing(h, lambda: e.set_component_value("X999:R1", 5))
        elif k == "inst":
            pre = op["sub"]
            if self.locate(h, pre + ":?")[0] is None:
                return
            i = h.n % 6
            self.expect_missing(h, [lambda: e[pre].set_component_value("R999", 5), lambda: e[pre].remove_component("C999"), lambda: e.get_subcircuit(pre).remove_component("C999"),
                                    lambda: e[pre].set_component_parameters("R999", tc1=5), lambda: e[pre].set_element_model("D999", "DX"),
                                    lambda: e.get_subcircuit(pre).set_element_model("D999", "DX")][i])
            self.call(h, lambda: e.get_subcircuit(pre).remove_instruction(".nothing"))
        elif k == "get":
            self.expect_missing(h, lambda: e.get_component_value("R999"))
            self.expect_missing(h, lambda: e.get_parameter("nonexistent"))
        self.check(h, "after a refused edit")

    # ---- saves, reloads
    def snapshot(self, h):
        out = {}
        for d in (self.src, h.dir):
            for f in os.listdir(d):
                out[os.path.join(d, f)] = disk.read_file(os.path.join(d, f))
        return out

    def state(self, h):
        s = io.StringIO()
        h.editor.save_netlist(s)
        return s.getvalue(), [(u.name, u.value, u.updates) for u in h.editor.netlist_updates]

    def write(self, h, path, how):
        from pathlib import Path
        if how == "str":
            h.editor.save_netlist(path)
        elif how == "write":
            h.editor.write_netlist(path)
        elif how == "as":
            h.editor.save_as(path)
        else:
            h.editor.save_netlist(Path(path))

    def arm(self, h, rule, match):
        r = dict(rule, match=match, thread=h.who, seen=0, fired=0)
        disk.FAULTS.rules.append(r)
        return r

    def do_save(self, h, op):
        path = os.path.join(h.dir, op["name"])
        how, fault = op["how"], op["fault"]
        if fault and how == "as":
            how = "path"
        ref = os.path.join(h.dir, "reference%d.net" % h.n)
        st0, ex = self.call(h, self.state, h)
        if ex is not None:
            return
        if self.plan["net"]["enc"] == "windows-1252":
            try:
                st0[0].encode("windows-1252")
            except UnicodeError:
                return
        _, ex = self.call(h, self.write, h, ref, "path")
        if ex is not None:
            return
        if not os.path.exists(ref):
            self.bad(h, "E01", "silent-missing", "save_netlist() returned and there is no file")
            return
        want = disk.read_file(ref)
        if fault:
            before = self.snapshot(h)
            r = self.arm(h, fault, os.path.basename(path))
            exc = None
            try:
                self.write(h, path, how)
            except core.SimKilled:
                raise
            except Exception as e:
                exc = e
            r["fired_total"] = r["fired"]
            disk.FAULTS.rules.remove(r)
            self.sim.rec("faulty_save", fired=r["fired"], exc=type(exc).__name__ if exc else None)
            if exc is None:
                if not os.path.exists(path) or disk.read_file(path) != want:
                    self.bad(h, "E01", "silent-incomplete", "save_netlist returned, the file is %s (%d bytes of %d)" % (
                        "missing" if not os.path.exists(path) else "incomplete", len(disk.read_file(path)) if os.path.exists(path) else 0, len(want)))
                    return
                self.col.hit("fault_survived" if r["fired"] else "fault_not_reached")
            else:
                if not r["fired"]:
                    self.bad(h, "E01", "raises-without-fault", "raised %r" % exc)
                    return
                self.col.hit("save_failed")
            st1, ex = self.call(h, self.state, h)
            if ex is not None:
                self.bad(h, "E01", "unusable", "after a failed save the editor can't write: %r" % ex)
                return
            if st1[0] != st0[0]:
                self.bad(h, "E01", "circuit-changed", "the failed save changed the circuit: %s" % first_diff(st0[0], st1[0]))
            if st1[1] != st0[1]:
                self.bad(h, "E01", "updates-changed", "the failed save changed the updates: %s -> %s" % (st0[1], st1[1]))
            after = self.snapshot(h)
            for f in set(before) | set(after):
                if f != path and before.get(f) != after.get(f):
                    self.bad(h, "E01", "other-file", "the failed save changed %s" % os.path.relpath(f, self.scratch))
            self.check(h, "after a failed save", prop="E01")
        _, ex = self.call(h, self.write, h, path, how)
        if ex is not None:
            self.bad(h, "E01", "retry-raises", "a save on a healthy disk raised %r" % ex)
            return
        got = disk.read_file(path) if os.path.exists(path) else b""
        if got != want:
            self.bad(h, "E01", "retry-differs", "the save gives other bytes than an undisturbed one: %s" % first_diff(decode(want), decode(got)))
            return
        if how == "as":
            h.path = path
        if path == h.path:
            h.orig = copy.deepcopy(h.model)
        h.saved = (path, copy.deepcopy(h.model))
        self.col.hit("saved")
        self.check_file(h, got)
        self.check_reload(h, path)
        if self.prop == "E02" and os.path.exists(ref):
            disk.REAL["unlink"](ref)

    def resave(self, h):
        if self.col.violations:
            return
        self.do_save(h, {"op": "save", "name": "final.net", "how": "path", "fault": None})

    def check_file(self, h, data):
        text = decode(data)
        known = {c.ref: len(c.nodes) for c in h.model.comps}
        got, probs = nm.read_text(text, lambda ref, t: known.get(ref, nm.NODES.get(t[0][0].upper(), 2)))
        if probs:
            self.bad(h, "E02", "file-malformed", "%s\n%s" % (probs[0], text[:300]))
            return
        d = nm.diff(got, h.model)
        if d:
            self.bad(h, "E02", "file-differs", "in the saved file, " + d)

    def check_reload(self, h, path):
        e, ex = self.call(h, self.load, path)
        if ex is not None:
            return
        self.check_editor(h, e, h.model, "read back from the file", "E02")
        if len(e.netlist_updates):
            self.bad(h, "E02", "reload-updates", "a fresh editor has updates: %s" % [str(u) for u in e.netlist_updates])

    def do_reload(self, h, op):
        if h.saved is None:
            return
        e, ex = self.call(h, self.load, h.saved[0])
        if ex is not None:
            return
        h.editor, h.path = e, h.saved[0]
        # the copies of edited instances are ordinary definitions in the file
        m = copy.deepcopy(h.saved[1])
        flatten(m)
        h.model, h.orig, h.upd = m, copy.deepcopy(m), {}
        self.check(h, "after reloading")

    def do_enc(self, h, op):
        """A value that the encoding of the netlist can't represent: the save raises, and the circuit stays as it is."""
        m, c, path = self.locate(h, op["ref"])
        if c is None or c.kind not in "RCL" or self.plan["net"]["enc"] != "windows-1252" or h.editor.encoding.lower().startswith("utf"):
            return
        v = "{2*\u2126}"
        self.do_val(h, {"op": "val", "ref": op["ref"], "v": v, "how": "set"})
        st0, ex = self.call(h, self.state, h)
        if ex is not None:
            return
        try:
            self.write(h, os.path.join(h.dir, "enc.net"), op["how"])
        except core.SimKilled:
            raise
        except UnicodeError:
            self.col.hit("unencodable")
        except Exception as e:
            self.bad(h, "E01", "raises-without-fault", "a save of text that can't be encoded raised %r" % e)
        else:
            got = disk.read_file(os.path.join(h.dir, "enc.net"))
            if v not in decode(got):
                self.bad(h, "E01", "silent-incomplete", "a save of text that can't be encoded returned, the file doesn't have the value")
        st1, ex = self.call(h, self.state, h)
        if ex is None and st1 != st0:
            self.bad(h, "E01", "circuit-changed", "a save of text that can't be encoded changed the circuit: %s" % first_diff(st0[0], st1[0]))
        self.check(h, "after a save that raised", prop="E01")
        self.do_val(h, {"op": "val", "ref": op["ref"], "v": "7k", "how": "set"})

    def do_foreign(self, h, op):
        """Someone opens a netlist of the other program."""
        if self.plan.get("home"):
            self.call(h, self.load, os.path.join(self.src, "foreign.net"))

    def do_reset(self, h, op):
        if h.path != self.path and h.path != (h.saved or [None])[0]:
            return
        if op["fault"]:
            r = self.arm(h, {"op": op["fault"], "nth": 1, "kind": "EIO", "count": 1}, os.path.basename(h.path))
            exc = None
            try:
                h.editor.reset_netlist()
            except core.SimKilled:
                raise
            except Exception as e:
                exc = e
            disk.FAULTS.rules.remove(r)
            if r["fired"] and exc is None:
                self.bad(h, "E02", "reset-silent", "reset_netlist() returned although the file couldn't be read")
            self.col.hit("reset_failed")
        _, ex = self.call(h, h.editor.reset_netlist)
        if ex is not None:
            return
        h.model = copy.deepcopy(h.orig)
        flatten(h.model)
        h.upd = {}
        if len(h.editor.netlist_updates):
            self.bad(h, "E02", "reset-updates", "reset_netlist() leaves updates: %s" % [str(u) for u in h.editor.netlist_updates])
        self.col.hit("reset")
        self.check(h, "after reset_netlist()")

    # ---- oracle
    def check(self, h, when, prop="E02"):
        self.check_editor(h, h.editor, h.model, when, prop)

    def check_editor(self, h, e, model, when, prop):
        bad = lambda key, msg: self.bad(h, prop, key, "%s: %s" % (when, msg))
        try:
            refs = list(e.get_components())
            want = [c.ref for c in model.comps]
            loose = {c.ref for c in model.comps if c.loose}
            if sorted(refs) != sorted(want) or [r for r in refs if r not in loose] != [r for r in want if r not in loose]:
                return bad("get_components", "get_components() is %s, expected %s" % (refs, want))
            kinds = "RC"
            if sorted(e.get_components(kinds)) != sorted(r for r in want if r[0] in kinds):
                return bad("get_components-filter", "get_components(%r) is %s, expected %s" % (kinds, e.get_components(kinds), want))
            for c in model.comps:
                d = self.comp(e, c.ref, c)
                if d:
                    return bad("component", d)
                if c.ref not in e:
                    return bad("contains", "%s in editor is False" % c.ref)
            if "R999" in e:
                return bad("contains", "'R999' in editor is True")
            for c in model.comps:
                if c.kind == "X":
                    d = self.inside(e, c.ref, c, model, [model])
                    if d:
                        return bad("inside", d)
            if e is h.editor:
                it = sorted(c.reference for c in e)
                want = sorted([c.ref for c in model.comps] + [c.ref for s in defined(model) for c in s.comps])
                if it != want:
                    return bad("iteration", "iterating gives %s, expected %s" % (it, want))
            for k, v in model.params.items():
                g = e.get_parameter(k)
                if not nm.same(g, v):
                    return bad("get_parameter", "get_parameter(%r) is %r, expected %r" % (k, g, v))
            names = e.get_all_parameter_names()
            if sorted(names) != sorted(model.params):
                return bad("parameter-names", "get_all_parameter_names() is %s, expected %s" % (names, sorted(model.params)))
            nodes = e.get_all_nodes()
            wn = {n for c in model.comps for n in c.nodes}
            if set(nodes) != wn or len(nodes) != len(set(nodes)):
                return bad("nodes", "get_all_nodes() is %s, expected %s" % (nodes, sorted(wn)))
            ctl = [[x.strip() for x in t.strip().split("\n")] for t in e.get_control_sections()]
            if ctl != [[x.strip() for x in t] for t in model.controls]:
                return bad("control", "control sections are %s, expected %s" % (ctl, model.controls))
        except core.SimKilled:
            raise
        except Exception as ex:
            import traceback
            bad("getter-raises %s" % type(ex).__name__, "a getter raised %r\n%s" % (ex, "".join(traceback.format_tb(ex.__traceback__))[-300:]))

    def comp(self, e, ref, c):
        v = e.get_component_value(ref)
        params = e.get_component_parameters(ref)
        nodes = e.get_component_nodes(ref)
        d = nm.comp_diff(nodes, v, params, c)
        if d:
            return "%s: %s" % (ref, d)
        n = nm.eng(c.value)
        if n is not None and c.kind in "RCL":
            f = e.get_component_floatvalue(ref)
            if not abs(f - n) <= 2e-5 * abs(n):
                return "%s: get_component_floatvalue is %r, expected %r" % (ref, f, n)
        if not nm.same(e[ref].value_str, c.value):
            return "%s: editor[ref].value_str is %r, expected %r" % (ref, e[ref].value_str, c.value)
        return None

    def inside(self, e, ref, c, model, scopes):
        s = c.inst
        if s is None:
            s = next((x for x in (sc.sub_named(c.value) for sc in reversed(scopes)) if x is not None), None)
        if s is None:
            return None
        sub = e.get_subcircuit(ref)
        if self.turn() % 3 == 0:
            r = self.through_instance(e[ref], ref, s, c)
            if r:
                return r
        refs, want = sub.get_components(), [d.ref for d in s.comps]
        if sorted(refs) != sorted(want):
            return "%s: get_subcircuit(%r).get_components() is %s, expected %s" % (ref, ref, refs, want)
        if sorted(sub.get_all_parameter_names()) != sorted(s.params):
            return "%s: get_subcircuit(%r).get_all_parameter_names() is %s, expected %s" % (ref, ref, sub.get_all_parameter_names(), sorted(s.params))
        for k, v in s.params.items():
            if not nm.same(sub.get_parameter(k), v):
                return "%s: get_subcircuit(%r).get_parameter(%r) is %r, expected %r" % (ref, ref, k, sub.get_parameter(k), v)
        for d in s.comps:
            r = self.comp(e, ref + ":" + d.ref, d)
            if r:
                return r
            if d.kind == "X":
                r = self.inside(e, ref + ":" + d.ref, d, s, scopes + [s])
                if r:
                    return r
        return None

    def turn(self):
        self.turns = getattr(self, "turns", 0) + 1
        return self.turns

    def through_instance(self, inst, ref, s, c):
        """The getters of the instance object, and its items."""
        want = sorted(d.ref for d in s.comps)
        if sorted(inst.get_components()) != want:
            return "editor[%r].get_components() is %s, expected %s" % (ref, inst.get_components(), want)
        if sorted(inst.get_components("RX")) != [x for x in want if x[0] in "RX"]:
            return "editor[%r].get_components('RX') is %s, expected %s" % (ref, inst.get_components("RX"), want)
        if sorted(inst.get_all_parameter_names()) != sorted(s.params):
            return "editor[%r].get_all_parameter_names() is %s, expected %s" % (ref, inst.get_all_parameter_names(), sorted(s.params))
        for k, v in s.params.items():
            if k in want or k in {x.upper() for x in c.params}:
                continue
            for g in (inst[k], inst[k.lower()]):
                if not nm.same(g, v):
                    return "editor[%r][%r] is %r, expected %r" % (ref, k, g, v)
        for d in s.comps:
            x = nm.comp_diff(inst.get_component_nodes(d.ref), inst.get_component_value(d.ref), inst.get_component_parameters(d.ref), d)
            if x:
                return "editor[%r] %s: %s" % (ref, d.ref, x)
            n = nm.eng(d.value)
            if n is not None and d.kind in "RCL" and not abs(inst.get_component_floatvalue(d.ref) - n) <= 2e-5 * abs(n):
                return "editor[%r].get_component_floatvalue(%r) is %r, expected %r" % (ref, d.ref, inst.get_component_floatvalue(d.ref), n)
            if not nm.same(inst[d.ref].value_str, d.value):
                return "editor[%r][%r].value_str is %r, expected %r" % (ref, d.ref, inst[d.ref].value_str, d.value)
        try:
            inst["R999"]
        except KeyError:
            return None
        return "editor[%r]['R999'] does not raise KeyError" % ref

    def check_updates(self, h):
        u = h.editor.netlist_updates
        if len(u) != len(list(u)) or [x.name for x in u[:]] != [x.name for x in u]:
            return self.bad(h, "E02", "updates-list", "%d updates, listed are %s" % (len(u), [x.name for x in u]))
        for x in u:
            if u[x.name].name != x.name:
                return self.bad(h, "E02", "updates-by-name", "the update of %s is %s" % (x.name, u[x.name]))
        recs = [(x.name, x.value, x.updates.name) for x in u]
        for (name, grp), v in h.upd.items():
            if grp == "V":
                g = [r for r in recs if r[0] == name and r[2] == V]
                if len(g) != 1 or not nm.same(g[0][1], v) or not nm.same(u.value(name), v):
                    return self.bad(h, "E02", "updates-value", "%s was set to %r, the updates say %s" % (name, v, [r for r in recs if r[0] == name]))
            elif grp in ("P", "CP"):
                g = [r for r in recs if r[0] == name and r[2] in (P + ("DeleteParameter",) if grp == "P" else CP + ("DeleteComponentParameter",))]
                if len(g) != 1 or g[0][2].startswith("Delete") or not nm.same(g[0][1], v) or (grp == "P" and not nm.same(u.parameter(name), v)):
                    return self.bad(h, "E02", "updates-parameter", "%s was set to %r, the updates say %s%s" % (
                        name, v, [r for r in recs if r[0] == name], ", parameter(): %r" % (u.parameter(name),) if grp == "P" else ""))
            elif grp in ("PD", "CPD"):
                if grp == "PD" and u.parameter(name) is not None:
                    return self.bad(h, "E02", "updates-deleted", "%s was deleted, the updates say %s" % (name, [r for r in recs if r[0] == name]))
                g = [r[2] for r in recs if r[0] == name and r[2] in (P + ("DeleteParameter",) if grp == "PD" else CP + ("DeleteComponentParameter",))]
                if g != ["DeleteParameter" if grp == "PD" else "DeleteComponentParameter"]:
                    return self.bad(h, "E02", "updates-deleted", "%s was deleted, the updates say %s" % (name, [r for r in recs if r[0] == name]))
            elif grp == "A":
                g = [r for r in recs if r[0] == name and r[2] == "AddComponent"]
                if len(g) != 1:
                    return self.bad(h, "E02", "updates-added", "%s was added, the updates say %s" % (name, g))
            elif grp == "D":
                if not any(r[0] == name and r[2] == "DeleteComponent" for r in recs):
                    return self.bad(h, "E02", "updates-removed", "%s was removed, the updates say %s" % (name, [r for r in recs if r[0] == name]))
            elif name == "INSTRUCTION":
                if [r[2] for r in recs if r[0] == name and r[1] == grp] != [v]:
                    return self.bad(h, "E02", "updates-instruction", "%s of %r isn't recorded: %s" % (v, grp, [r for r in recs if r[0] == name]))

    # ---- scenario
    def scenario(self):
        p = self.plan
        hs = [Hist(self, "main", self.path, p["ops"])]
        if p["other"]:
            hs.append(Hist(self, "other", self.path, p["other"]))
        ws = [common.Worker(self.sim, h.who, lambda h=h: self.run_hist(h)) for h in hs]
        for w in ws:
            w.join()
            if w.exc:
                self.col.bad(self.prop, "harness", w.exc[-600:])


def defined(m):
    """The definitions in the file: of the circuit, and those inside definitions."""
    for s in m.subs.values():
        yield s
        yield from defined(s)


def flatten(m):
    """What a saved model is when it's read again: copies are definitions."""
    for c in m.comps:
        if c.inst is not None:
            flatten(c.inst)
            m.subs[c.value] = c.inst
            c.inst = None
        c.raw = None
    for s in m.subs.values():
        flatten(s)


def decode(data):
    if data[:2] == b"\xff\xfe":
        return data.decode("utf-16")
    if data[1:2] == b"\0":
        return data.decode("utf-16-le")
    try:
        return data.decode("utf-8")
    except UnicodeDecodeError:
        return data.decode("windows-1252")


def first_diff(a, b):
    x, y = a.split("\n"), b.split("\n")
    for i in range(max(len(x), len(y))):
        p, q = x[i] if i < len(x) else None, y[i] if i < len(y) else None
        if p != q:
            return "line %d: %r / %r" % (i + 1, p, q)
    return "same lines"


def execute(job, scratch):
    w = World(job, scratch)
    w.plan.setdefault("env_seed", 0)
    status = w.sim.run(w.scenario)
    if status in ("deadlock", "horizon", "steps"):
        w.col.bad(w.prop, "stuck", w.sim.detail)
    return common.result(w.sim, w.col, w.choices)
