"""SimRunner / RunTask / simulator classes driven through their public API (R01-R13, S04)."""
import functools
import os
from pathlib import Path
from .. import core, disk, procs, spice
from . import common
from . import schmodel
from .common import facts, SOURCE, EXE, RAWEXT

PROPS = ["R%02d" % i for i in range(1, 14)]
R_VALUES = ["1k", "2k2", "4k7", "10k", "33k"]


# ================================================================ plan generation
def gen_plan(rng, prop, tier):
    big = tier == "thorough"
    flavor = rng.choice(common.FLAVORS)
    p = {"flavor": flavor, "sched": common.gen_sched(rng), "parallel": rng.choice([1, 1, 2, 2, 3, 4]),
         "timeout": rng.choice([600.0, 600.0, 40.0]), "outdir": rng.random() < 0.7, "cwd": False,
         "specs": {}, "main": [], "threads": [], "disk": [], "thread_fail": [], "foreign": [], "vanish": [],
         "cbfault": {}, "proc_name": None, "latency": 0.0, "jumps": []}
    p["setsim"] = rng.random() < 0.1
    # exact timing bounds need few stalls in some properties
    n = rng.choice([1, 2, 3, 4, 5, 6] if not big else [2, 3, 4, 5, 6, 8, 10, 14])
    st = {"tok": 0}
    p["editor"] = rng.choice(["spice"] * 4 + ["qsch"] * 2 + (["asc"] * 4 if flavor == "ltspice" else [])) if prop not in ("R01", "R03", "R06", "R07", "R11") else "spice"
    if prop in ("R01", "R02", "R08") and rng.random() < 0.3:
        p["latency"] = rng.choice([0.001, 0.02])
    if prop == "R04":
        p["cwd"] = rng.random() < 0.3
    if prop in ("R07", "R06"):
        p["timeout"] = rng.choice([600.0, 5.0, 8.0, None])
    if prop in ("R01", "R03", "R08", "R02") and rng.random() < 0.1:
        p["timeout"] = None
    if prop in ("R06", "R07", "R03") and rng.random() < 0.25:
        p["jumps"] = [{"at": round(rng.uniform(0, 8), 2), "by": rng.choice([-3600.0, -30.0, 30.0, 3600.0, 1e6])}
                      for _ in range(rng.choice([1, 2]))]

    fail_w = {"R03": 0.25, "R08": 0.35, "R05": 0.4, "R04": 0.4, "R10": 0.4, "R02": 0.35, "R12": 0.2, "R01": 0.2}.get(prop, 0.1)

    def spec(**kw):
        out = "ok"
        if rng.random() < fail_w:
            out = rng.choice(["fail", "fail", "crash", "crash_nolog", "noraw", "nolog"])
            if prop in ("R08", "R03") and out in ("noraw", "nolog"):
                out = "fail"
        dur = round(rng.choice([0.05, rng.uniform(0.05, 1.0), rng.uniform(0.3, 4.0), rng.uniform(1, 9)]), 3)
        s = {"dur": dur, "start": rng.choice([0.0, 0.001, 0.05, 0.3]), "out": out}
        if out == "fail":
            s["rc"] = rng.choice([1, 2, 255, -6, -1])
        s.update(kw)
        if s["out"] == "hang" and rng.random() < 0.5:
            s["stubborn"] = True
        return s

    def run(**kw):
        st["tok"] += 1
        tok = st["tok"]
        op = {"op": "run", "tok": tok, "src": rng.choice(["editor", "editor", "path", "str"]), "wait": True, "cb": None,
              "on_err": False, "ext": ".net"}
        if op["src"] == "editor" and p["editor"] == "asc":
            op["ext"] = ".asc"
        sp = kw.pop("spec", None) or spec()
        if prop in ("R05",):
            op["cb"] = rng.choice(["fn", "fn", "proc", "fn_dict", "fn_tuple", "raise", "proc_dict", "proc_tuple", "partial", "object"])
            op["on_err"] = rng.random() < 0.4
            op["cb_dur"] = rng.choice([0.0, 0.0, 0.5, 3.0])
        elif prop in ("R01", "R02", "R03", "R08", "R12", "R04") and rng.random() < 0.35:
            op["cb"] = rng.choice(["fn", "fn", "proc", "raise"])
            op["on_err"] = rng.random() < 0.3
            op["cb_dur"] = rng.choice([0.0, 0.5, 3.0])
        if prop in ("R04", "R09", "R10") and rng.random() < 0.3:
            op["fname"] = "cust%d%s" % (tok, ".net")
        if prop in ("R04", "R10") and rng.random() < 0.4:
            op["exe_log"] = True
        if prop == "R04" and rng.random() < 0.5:
            op["switches"] = {"ngspice": ["-D", "dst=%d" % tok], "xyce": ["-delim", "COMMA%d" % tok],
                              "qspice": ["-ascii%d" % tok], "ltspice": ["-alt%d" % tok]}[flavor]
        if prop in ("R01", "R02", "R03") and rng.random() < 0.15:
            op["wait"] = False
        if op["src"] != "editor" and flavor == "ltspice" and prop in ("R10", "R04") and rng.random() < 0.4:
            op["ext"] = ".asc"
        if op["src"] != "editor" and prop in ("R10", "R04", "R09") and rng.random() < 0.3 and "fname" not in op:
            op["ext"] = rng.choice([".cir", ".sp"])
        if prop == "R10" and flavor == "ltspice":
            ex = {}
            for e in (".op.raw", ".log.raw", ".db"):
                if rng.random() < 0.5:
                    ex[e] = "x"
            if op["ext"] == ".asc":
                ex[".net"] = "* netlist"
            sp["extra"] = ex
        # a little of everything in every property's runs
        if rng.random() < 0.12:
            op["exe_log"] = True
        if rng.random() < 0.3:
            op["mutate"] = True
        if rng.random() < 0.08 and "fname" not in op:
            op["fname"] = "cust%d.net" % tok
        if rng.random() < 0.08 and "switches" not in op:
            op["switches"] = {"ngspice": ["-D", "dst=%d" % tok], "xyce": ["-delim", "COMMA%d" % tok],
                              "qspice": ["-ascii%d" % tok], "ltspice": ["-alt%d" % tok]}[flavor]
        if op["src"] != "editor" and op["ext"] == ".net" and rng.random() < 0.08 and "fname" not in op:
            op["ext"] = rng.choice([".cir", ".sp"])
        op.update(kw)
        if op["src"] == "editor":
            op["ext"] = ".asc" if p["editor"] == "asc" else ".net"
        if op.get("fname"):
            op["fname"] = os.path.splitext(op["fname"])[0] + op["ext"]
        p["specs"][str(tok)] = sp
        return op

    def edit():
        return {"op": "edit", "what": rng.choice(["R1", "R2", "R3", "p1", "p2"]), "val": rng.choice(R_VALUES)}

    def sleep(a=0.01, b=3.0):
        return {"op": "sleep", "d": round(rng.choice([rng.uniform(a, b), a, rng.uniform(a, b / 5)]), 3)}

    m = p["main"]
    poll = lambda: [{"op": "sleep", "d": round(rng.uniform(0, 1.5), 3)}] + \
        [{"op": "poll", "n": rng.choice([5, 20, 60]), "gap": rng.choice([0.0, 0.003, 0.05, 0.4])}]

    if prop == "R01":
        if rng.random() < 0.5:
            p["sched"]["stall_max"] = min(0.05, p["sched"].get("stall_max", 0))
        for _ in range(n + 2):
            if rng.random() < 0.2:
                m.append(sleep())
            m.append(run(timeout=rng.choice([0.3, 1.0, 3.0]), cb=None) if rng.random() < 0.12 else run())
        for _ in range(rng.choice([0, 1, 2])):
            p["threads"].append(poll())
    elif prop == "R02":
        for _ in range(n):
            if rng.random() < 0.3:
                m.append(rng.choice([sleep(), edit(), {"op": "poll", "n": 1, "gap": 0.0}]))
            if rng.random() < 0.15:
                m.append(run(op="run_now", cb=None, spec=spec(dur=round(rng.uniform(0.05, 5), 3))))
            else:
                to = {}
                if rng.random() < 0.15:
                    to = {"timeout": 3.0, "spec": spec(out="hang")}
                m.append(run(**to))
        for _ in range(rng.choice([0, 1, 1, 2])):
            p["threads"].append(poll())
        if rng.random() < 0.3:
            p["threads"].append([sleep(0.1, 2), {"op": "iterate", "mode": "tasks"}])
        if rng.random() < 0.3:
            p["threads"].append([sleep(0.1, 2), {"op": "wait"}])
    elif prop == "R03":
        for _ in range(n):
            m.append(run())
            if rng.random() < 0.3:
                m.append(sleep())
            if rng.random() < 0.2:
                m.append({"op": "wait", "timeout": rng.choice([None, None, 0.5, 2.0, 4.0])})
        if rng.random() < 0.3:
            m.append(run(spec=spec(out="hang"), timeout=rng.choice([7.0, 12.0])))
        m.append({"op": "wait", "timeout": rng.choice([None, None, 0.0, 0.3, 1.5, 2.5, 5.0, 30.0])})
        if rng.random() < 0.4:
            m.append(run())
        m.append({"op": "wait", "timeout": rng.choice([None, 20.0])})
        if rng.random() < 0.2:
            m.append({"op": "wait", "timeout": rng.choice([None, 5.0])})
        if rng.random() < 0.4:
            p["threads"].append(poll())
        if rng.random() < 0.2:
            p["threads"].append([sleep(0.1, 2), {"op": "wait", "timeout": rng.choice([None, 3.0])}])
    elif prop == "R04":
        for _ in range(n):
            if rng.random() < 0.3:
                m.append(rng.choice([edit(), sleep(), {"op": "clear_switches"} if rng.random() < .2 else edit()]))
            if rng.random() < 0.15:
                m.append({"op": "add_switch", "sw": {"ngspice": ["-D", "all=1"], "xyce": ["-delim", "TAB"], "qspice": ["-binary", None],
                                                     "ltspice": ["-FastAccess", None]}[flavor]})
            r = rng.random()
            if r < 0.1:
                m.append(run(spec=spec(out="hang"), timeout=3.0))
            elif r < 0.2:
                m.append(run(spec=spec(exec=rng.choice(["ENOENT", "EACCES", "ENOMEM", "E2BIG"]))))
            elif r < 0.35:
                m.append(run(op="run_now", cb=None, spec=spec(dur=round(rng.uniform(0.05, 3), 3))))
            else:
                m.append(run())
        if rng.random() < 0.3:
            m.append({"op": "results", "which": rng.randrange(1, st["tok"] + 1)})
        if rng.random() < 0.3:
            p["threads"].append(poll())
    elif prop == "R05":
        for _ in range(n):
            m.append(run())
            if rng.random() < 0.25:
                m.append(sleep())
        for _ in range(rng.choice([0, 1, 2])):
            m.append({"op": "results", "which": rng.randrange(1, st["tok"] + 1)})
        if rng.random() < 0.4:
            m.append({"op": "iterate", "mode": "iter"})
    elif prop == "R06":
        for _ in range(n):
            T = rng.choice([None, 2.0, 3.5, 6.0, "absent", "absent"])
            eff = p["timeout"] if T in (None, "absent") else T
            r = rng.random()
            if eff is None or eff > 100:
                sp = spec(out="ok", dur=rng.choice([0.5, 3.0, 30.0, 900.0 if eff is None else 60.0]))
            elif r < 0.35:
                sp = spec(out="hang")
            elif r < 0.6:
                sp = spec(out="ok", dur=round(eff + rng.uniform(0.7, 8), 3))
            else:
                sp = spec(out="ok", dur=round(rng.uniform(0.05, max(0.1, eff - 0.7)), 3), start=0.01)
            o = {"spec": sp, "cb": None}
            if T == "absent":
                pass
            else:
                o["timeout"] = T
            if rng.random() < 0.25:
                o["op"] = "run_now"
                if p["sched"].get("stall_max", 0) > 0.3:
                    p["sched"]["stall_max"] = 0.3
            o["wait"] = rng.random() < 0.5
            m.append(run(**o))
        p["parallel"] = rng.choice([2, 4, 8])
        m.append({"op": "drain"})
    elif prop == "R07":
        p["parallel"] = rng.choice([1, 1, 2, 3])
        fill = []
        for _ in range(p["parallel"]):
            sp = rng.choice([spec(out="ok", dur=round(rng.uniform(0.5, 15), 2)), spec(out="hang"), spec(out="ok", dur=30.0)])
            fill.append(run(spec=sp, timeout=rng.choice([25.0, 60.0, 14.0]), cb=None, wait=rng.random() < 0.6))
        m += fill
        if rng.random() < 0.3:
            m.append(run(spec=spec(out="hang"), timeout=20.0, cb=None, wait=False))
        for _ in range(rng.choice([1, 2, 3])):
            T = rng.choice([0.0, 0.5, 2.0, 3.0, 5.0, 8.0, "absent"] if p["timeout"] is not None else [2.0, 5.0, "absent", "absent"])
            o = {"cb": None, "spec": spec(out="ok", dur=round(rng.uniform(0.05, 2), 2))}
            if T != "absent":
                o["timeout"] = T
                o["spec"]["dur"] = 0.2
            m.append(run(**o))
            if rng.random() < 0.3:
                m.append(sleep())
        if rng.random() < 0.4:
            p["threads"].append(poll())
        m.append({"op": "drain"})
    elif prop == "R08":
        for _ in range(n):
            if rng.random() < 0.4:
                m.append(edit())
            m.append(run(src="editor", timeout=3.0, spec=spec(out="hang")) if rng.random() < 0.08 else run(src="editor"))
            if rng.random() < 0.3:
                m.append(sleep())
        it = lambda: {"op": "iterate", "mode": rng.choice(["iter", "tasks", "tasks"]),
                      "filter": rng.choice([None, None, {"R1": "1k"}, {"R1": ["1k", "2k2"]}, {"R1": ["1k"], "R2": ["4k7", "10k"]},
                                            {"p1": ["1k", "2k2", "10k"]}, "even", "odd"]),
                      "work": rng.choice([0, 0, 0.1, 2.0])}
        k = rng.random()
        if k < 0.5:
            m.append(it())
            if rng.random() < 0.25:
                m.append(dict(m[-1], again=True))
            if rng.random() < 0.5:
                m.append(run(src="editor"))
                m.append(it())
        if k > 0.3:
            p["threads"].append([sleep(0.05, 3), it()] + ([it()] if rng.random() < 0.5 else []))
            if rng.random() < 0.4:
                p["threads"].append(poll())
            if rng.random() < 0.3:
                p["threads"].append([sleep(0.05, 3), it()])
    elif prop == "R09":
        for _ in range(n + 1):
            for _ in range(rng.choice([0, 1, 2])):
                m.append(edit())
            m.append(run() if rng.random() < 0.85 else run(op="run_now", cb=None, spec=spec(dur=round(rng.uniform(0.05, 3), 3))))
            r = rng.random()
            if r < 0.3:
                m.append(sleep(0.001, 0.5))
            elif r < 0.4:
                m.append({"op": "reset"})
        if rng.random() < 0.25:
            # one file name for several runs, one after the other
            for _ in range(rng.choice([2, 3])):
                m += [{"op": "drain"}, rng.choice([edit(), {"op": "reset"}, sleep(0.001, 0.1)]),
                      run(fname="same.net", reuse=True, src=rng.choice(["editor", "editor", "path"]), spec=spec(out="ok"))]
            m.append({"op": "drain"})
        if rng.random() < 0.6:
            p["threads"].append([x for _ in range(rng.choice([2, 4, 8])) for x in ({"op": "edit_queued", "what": rng.choice(["R1", "R2", "p1"]),
                                 "val": rng.choice(R_VALUES)}, {"op": "sleep", "d": round(rng.uniform(0, 1), 3)})])
        p["parallel"] = rng.choice([1, 1, 2])
    elif prop == "R10":
        for _ in range(n):
            m.append(run(spec=spec(out="hang"), timeout=rng.choice([3.0, 30.0])) if rng.random() < 0.15 else run())
            if rng.random() < 0.3:
                m.append(sleep())
            if rng.random() < 0.2:
                m.append({"op": "cleanup"})
        if rng.random() < 0.3:
            m.append({"op": "rmfile", "which": rng.randrange(1, st["tok"] + 1), "ext": rng.choice([".log", ".raw", ".net", ".qraw"])})
        if rng.random() < 0.5:
            m.append(sleep(0.5, 6))
        else:
            m.append({"op": "drain"})
        m.append({"op": "cleanup"})
        if rng.random() < 0.4:
            m.append({"op": "cleanup"})
        if rng.random() < 0.3:
            m += [run(), {"op": "drain"}, {"op": "cleanup"}]
    elif prop == "R11":
        for _ in range(n):
            m.append(run(spec=spec(out=rng.choice(["hang", "hang", "ok"]), dur=round(rng.uniform(0.5, 40), 2)), timeout=rng.choice([300.0, 60.0]), wait=False, cb=None))
            if rng.random() < 0.3:
                m.append(sleep())
        names = ["python3", "bash", EXE[flavor] + "_x", EXE[flavor].lower() if EXE[flavor].lower() != EXE[flavor] else "ngspic", "", "sshd", "spice"]
        p["foreign"] = [rng.choice(names) for _ in range(rng.randrange(0, 6))]
        if rng.random() < 0.4:
            p["vanish"] = sorted(rng.sample(range(n + len(p["foreign"])), rng.randrange(1, n + len(p["foreign"]) + 1)))
        if rng.random() < 0.15:
            p["proc_name"] = rng.choice(["", "NONE"])
        m.append(rng.choice([sleep(0.1, 2), sleep(0.3, 1)]))
        m.append(rng.choice([{"op": "killall"}, {"op": "killall", "old": True}, {"op": "wait", "timeout": rng.choice([0.5, 2.0]), "abort": True},
                             {"op": "wait", "timeout": rng.choice([0.5, 2.0]), "abort": True}]))
        if rng.random() < 0.3:
            m.append({"op": "wait", "timeout": 1.0})
    elif prop == "R12":
        for _ in range(n + 1):
            m.append(run())
            if rng.random() < 0.2:
                m.append(sleep())
        kinds = rng.sample(["thread", "exec", "rename", "cbproc", "cbraise", "rmexe", "cbslow"], rng.choice([1, 1, 2, 3]))
        toks = list(range(1, st["tok"] + 1))
        runs = [o for o in m if o["op"] == "run"]
        if "thread" in kinds:
            p["thread_fail"] = sorted(rng.sample(toks, rng.choice([1, 1, min(2, len(toks))])))
        if "exec" in kinds:
            for t in rng.sample(toks, rng.choice([1, min(2, len(toks))])):
                p["specs"][str(t)]["exec"] = rng.choice(["ENOENT", "ENOMEM", "EACCES", "EMFILE"])
        if "rename" in kinds:
            for o in rng.sample(runs, rng.choice([1, min(2, len(runs))])):
                p["specs"][str(o["tok"])].update({"out": "fail", "rc": 1})
            p["disk"].append({"op": "rename", "match": ".log", "nth": rng.choice([1, 1, 2]), "kind": rng.choice(["EACCES", "EIO", "ENOSPC"]), "count": rng.choice([1, 1, 9])})
        if "cbproc" in kinds:
            for o in rng.sample(runs, rng.choice([1, min(2, len(runs))])):
                o["cb"] = rng.choice(["proc", "proc", "proc_raise"])
                o["on_err"] = rng.random() < 0.5
                if o["cb"] == "proc":
                    p["cbfault"][str(o["tok"])] = rng.choice(["fork_fail", "die_early", "die_late", "die_early"])
        if "cbraise" in kinds:
            for o in rng.sample(runs, 1):
                o["cb"] = rng.choice(["raise", "raise", "raise_base"])
        if "rmexe" in kinds:
            i = rng.randrange(len(m))
            m.insert(i, {"op": "rmexe"})
            m.insert(rng.randrange(i + 1, len(m) + 1), {"op": "putexe"})
        r = rng.random()
        if r < 0.3:
            m.append({"op": "wait", "timeout": None})
        elif r < 0.5:
            m.append({"op": "iterate", "mode": "tasks"})
    elif prop == "R13":
        for _ in range(n):
            if rng.random() < 0.5:
                m.append(edit())
            m.append(run())
        k = rng.random()
        victim = rng.choice([o for o in m if o["op"] == "run"])
        if k < 0.85:
            src = victim["src"] == "editor"
            ops = ["open", "write", "write", "write", "close"] if src else ["openr", "open", "write", "read", "close", "chmod"]
            for _ in range(rng.choice([1, 1, 2])):
                p["disk"].append({"op": rng.choice(ops), "match": "@%d" % victim["tok"], "nth": rng.choice([1, 1, 1, 2, 3]),
                                  "kind": rng.choice(["ENOSPC", "EIO", "short", "EACCES", "EMFILE"]), "count": rng.choice([1, 1, 2]),
                                  "torn": rng.choice([0, 0.3, 0.9])})
            victim["retry"] = True
            p["bigsrc"] = rng.choice([0, 0, 300, 2000] if p["editor"] == "spice" else [0, 0, 0, 60])
        if k > 0.7:
            other = rng.choice([o for o in m if o["op"] == "run"])
            other["src"] = rng.choice(["path", "str"])
            other["missing"] = True
            other["retry"] = True
    if prop == "R05" and rng.random() < 0.15:
        p["disk"].append({"op": "rename", "match": ".log", "nth": rng.choice([1, 1, 2]), "kind": rng.choice(["EACCES", "EIO"]), "count": rng.choice([1, 9])})
    if rng.random() < 0.5 and prop not in ("R03", "R10", "R11", "R07", "R06"):
        m.append({"op": "wait", "timeout": None})
    # random line-level pre-emption with long stalls makes timing properties vacuous
    if prop in ("R03", "R06", "R07") and p["sched"].get("stall_max", 0) > 0.3:
        p["sched"]["stall_max"] = rng.choice([0.02, 0.3])
    return p


def shrink(plan):
    """Smaller candidate plans, most aggressive first."""
    import copy

    def without(path, i):
        q = copy.deepcopy(plan)
        x = q
        for k in path:
            x = x[k]
        del x[i]
        return q
    for k, v in (("threads", []), ("disk", []), ("jumps", []), ("foreign", []), ("vanish", []), ("thread_fail", []), ("cbfault", {})):
        if plan.get(k):
            q = copy.deepcopy(plan)
            q[k] = v
            yield q
    if plan.get("editor", "spice") == "qsch":
        q = copy.deepcopy(plan)
        q["editor"] = "spice"
        yield q
    for i in range(len(plan["threads"]) - 1, -1, -1):
        yield without(["threads"], i)
    for i in range(len(plan["main"]) - 1, -1, -1):
        yield without(["main"], i)
    for k in ("disk", "jumps", "foreign", "vanish", "thread_fail"):
        if len(plan.get(k) or []) > 1:
            for i in range(len(plan[k])):
                yield without([k], i)
    if plan["latency"]:
        q = copy.deepcopy(plan)
        q["latency"] = 0.0
        yield q
    for i, o in enumerate(plan["main"]):
        for key, dv in (("cb", None), ("switches", None), ("fname", None), ("exe_log", None), ("on_err", False), ("cb_dur", 0.0)):
            if o.get(key):
                q = copy.deepcopy(plan)
                if dv is None and key != "cb":
                    del q["main"][i][key]
                else:
                    q["main"][i][key] = dv
                yield q
    for t in range(len(plan["threads"])):
        for i in range(len(plan["threads"][t]) - 1, -1, -1):
            yield without(["threads", t], i)
        for i, o in enumerate(plan["threads"][t]):
            if o.get("n", 0) > 1:
                q = copy.deepcopy(plan)
                q["threads"][t][i]["n"] = o["n"] // 2
                yield q


# ================================================================ execution
class Rec:
    """Ground truth about one run()/run_now() call."""

    def __init__(self, op):
        self.op = op
        self.tok = op["tok"]
        self.t_call = self.t_ret = None
        self.task = None
        self.exc = None
        self.outcome = None          # task | none | raised | now
        self.runno = None
        self.want = None             # facts of the circuit at the call
        self.text = None             # exact bytes for path runs
        self.edits = {}              # recorded edits expected
        self.switches = []
        self.cb_calls = []
        self.progs = []
        self.t_none_counts = None
        self.now_result = None
        self.stall0 = 0.0

    @property
    def prog(self):
        return self.progs[0] if self.progs else None

    @property
    def launched(self):
        return self.outcome in ("task", "now")


class World:
    def __init__(self, job, scratch):
        self.job = job
        self.plan = job["plan"]
        self.prop = job["prop"]
        self.scratch = scratch
        self.flavor = self.plan["flavor"]
        self.ext = RAWEXT[self.flavor]
        disk.configure(scratch, [dict(r) for r in self.plan["disk"]], self.plan["latency"])
        self.choices = common.make_choices(job)
        self.sim = core.Sim(self.choices)
        self.sim.scratch = scratch
        self.table = procs.ProcTable(self.sim, self.launch)
        procs.TABLE = self.table
        self.col = common.Collector(self.sim, self.prop)
        self.recs = []
        self.by_tok = {}
        self.progs = []
        self.model = {}
        self.edit_log = {}
        self.iterables = {}
        self.iters = []
        self.waits = []
        self.cleanups = []
        self.kills = []
        self.main_thread = None
        self.in_run = None
        self.escapes = []
        self.src = os.path.join(scratch, "src")
        self.out = os.path.join(scratch, "out")
        os.mkdir(self.src)
        self.fmt = self.plan.get("editor", "spice")
        self.source = os.path.join(self.src, {"spice": "circuit.net", "asc": "circuit.asc", "qsch": "circuit.qsch"}[self.fmt])
        disk.write_file(self.source, self.source_bytes())
        if self.fmt == "asc":
            for name, data in schmodel.asy_files({"files": {}, "top": "circuit.asc", "libs": []}).items():
                disk.write_file(os.path.join(self.src, os.path.basename(name)), data.encode())
        disk.write_file(os.path.join(self.src, "circuit.log"), b"unrelated user file\n")
        disk.write_file(os.path.join(self.src, "notes_1.txt"), b"unrelated user file 2\n")
        procs.SimMPProcess.fault = self.cb_fault
        procs.SimMPProcess._count = 0

    def source_text(self):
        t = SOURCE
        for i in range(self.plan.get("bigsrc", 0)):
            t = t.replace(".tran 1m", "Rx%d n%d 0 %d\n.tran 1m" % (i, i, i + 1)) if i < 3 else t
        if self.plan.get("bigsrc", 0):
            extra = "".join("Rz%d m%d 0 %d\n" % (i, i, i + 1) for i in range(self.plan["bigsrc"]))
            t = t.replace(".tran 1m\n", extra + ".tran 1m\n")
        return t

    def source_bytes(self):
        """The circuit of source_text() as a netlist or drawn as a schematic."""
        text = self.source_text()
        if self.fmt == "spice":
            return text.encode()
        comps, texts = [], []
        geo = "(0,0) 1 7 %s 0x1000000 -1 -1"
        for line in text.splitlines()[1:]:
            w = line.split()
            if line == ".end":
                continue
            i = len(comps)
            if line[0] == ".":
                texts.append({"cmt": False, "qual": True, "text": line, "geo": [0, 16 * len(texts), "Left", 2] if self.fmt == "asc" else geo})
            elif self.fmt == "asc":
                comps.append({"ref": w[0], "symbol": {"V": "voltage", "R": "res", "C": "cap"}[w[0][0]], "x": 64 * i, "y": 0, "rot": "R0", "win": [], "at": 0,
                              "attrs": [["Value", w[3]]]})
            else:
                comps.append({"ref": w[0], "value": w[3], "symbol": w[0][0], "type": w[0][0], "desc": None, "lib": None, "x": 1000 * i, "y": 0, "rot": 0, "en": 0,
                              "prims": [], "texts": [{"geo": geo % 0}, {"geo": geo % 0}], "pins": [[0, 200, "+"], [0, -200, "-"]],
                              "nets": ["GND" if x == "0" else x for x in w[1:3]]})
        if self.fmt == "asc":
            return schmodel.render_asc({"comps": comps, "texts": texts, "rest": {"version": "4", "sheet": "1 880 680", "wires": [], "flags": [], "lines": [], "shapes": []}}).encode()
        other = ["net (%d,%d) 1 13 0 \"%s\"" % (c["x"] + p[0], c["y"] + p[1], n) for c in comps for p, n in zip(c["pins"], c["nets"])]
        return schmodel.render_qsch({"comps": comps, "texts": texts, "rest": {"other": other}, "tail": True}).encode("cp1252")

    def asc_facts(self, text):
        f, ref = {}, None
        for line in text.replace("\r", "").split("\n"):
            if line.startswith("SYMATTR InstName "):
                ref = line.split()[2].lower()
            elif line.startswith("SYMATTR Value "):
                f[ref] = line.split(None, 2)[2]
            elif line.startswith("TEXT ") and "!" in line:
                f.update(facts(line.split("!", 1)[1].replace("\\n", "\n")))
        return f

    # ---- simulated programs
    def launch(self, popen):
        # which run is this?  Known by its netlist path once run() has prepared it.
        prog = spice.Program(popen, self.flavor, self.spec_for, spice.default_content, self.on_read)
        nl = prog.cmd.netlist
        rec = None
        if nl:
            base = os.path.basename(nl)
            for r in self.recs:
                if r.task is not None and os.path.basename(str(r.task.netlist_file)) == base:
                    rec = r
            if rec is None and self.in_run is not None:
                rec = self.in_run
        prog.guess = rec
        if rec is not None:
            e = self.plan["specs"].get(str(rec.tok), {}).get("exec")
            if e:
                self.sim.fault("exec_" + e)
                self.sim.rec("exec_fail", err=e)
                rec.exec_failed = True
                import errno
                no = getattr(errno, e)
                raise OSError(no, os.strerror(no))
        self.progs.append(prog)
        return prog

    def spec_for(self, tok, prog):
        if tok is None:
            r = prog.guess
            return self.plan["specs"].get(str(r.tok)) if r is not None else None
        sp = self.plan["specs"].get(str(tok))
        if sp is None:
            return {"dur": 0.2, "out": "ok"}
        return sp

    def on_read(self, prog):
        r = self.by_tok.get(prog.tok)
        if r is not None:
            r.progs.append(prog)

    def cb_fault(self, proc):
        tok = getattr(type(proc), "dst_tok", None)
        return self.plan["cbfault"].get(str(tok))

    # ---- operations
    def make_cb(self, rec):
        kind = rec.op.get("cb")
        if not kind:
            return None, None
        sim, world = self.sim, self
        dur = rec.op.get("cb_dur", 0.0)
        ret = "cb-%d" % rec.tok

        def record(raw, log, kw):
            prog = rec.prog
            rec.cb_calls.append({"t": sim.now, "raw": None if raw is None else str(raw), "log": None if log is None else str(log), "kw": kw,
                                 "exited": prog is None or prog.p.rc is not None,
                                 "raw_ok": raw is not None and prog is not None and os.path.exists(raw) and disk.read_file(raw) == getattr(prog, "full_raw", None)})
            sim.rec("callback", tok=rec.tok)
            if dur:
                sim.sleep(dur)
            sim.rec("callback_end", tok=rec.tok)

        args = None
        rec.want_kw = {}
        if kind in ("fn_dict", "proc_dict"):
            args = {"alpha": rec.tok, "beta": "b%d" % rec.tok}
            rec.want_kw = dict(args)
        elif kind in ("fn_tuple", "proc_tuple"):
            args = (rec.tok, "b%d" % rec.tok)
            rec.want_kw = {"alpha": rec.tok, "beta": "b%d" % rec.tok}
        rec.want_ret = ret

        if kind == "fn":
            def cb(raw, log):
                record(raw, log, {})
                return ret
        elif kind in ("fn_dict", "fn_tuple"):
            def cb(raw, log, alpha, beta):
                record(raw, log, {"alpha": alpha, "beta": beta})
                return ret
        elif kind == "raise":
            rec.want_ret = None

            def cb(raw, log):
                record(raw, log, {})
                raise ValueError("callback of %d" % rec.tok)
        elif kind == "raise_base":
            rec.want_ret = None

            def cb(raw, log):
                record(raw, log, {})
                raise SystemExit(3)
        elif kind == "partial":
            def base(x, raw, log):
                record(raw, log, {})
                return ret
            cb = functools.partial(base, 1)
        elif kind == "object":
            class Handler:
                def __call__(self, raw, log):
                    record(raw, log, {})
                    return ret
            cb = Handler()
        else:
            from spicelib.sim.process_callback import ProcessCallback
            tok = rec.tok
            if kind == "proc_raise":
                rec.want_ret = None
            if str(tok) in self.plan["cbfault"]:
                rec.want_ret = None
            if kind in ("proc_dict", "proc_tuple"):
                class cb(ProcessCallback):
                    dst_tok = tok

                    @staticmethod
                    def callback(raw, log, alpha, beta):
                        record(raw, log, {"alpha": alpha, "beta": beta})
                        return ret
            else:
                class cb(ProcessCallback):
                    dst_tok = tok

                    @staticmethod
                    def callback(raw, log):
                        record(raw, log, {})
                        if kind == "proc_raise":
                            raise ValueError("callback process")
                        return ret
        return cb, args

    def source_for(self, op, rec):
        """Returns the netlist argument and records what the simulator has to see."""
        if op["src"] == "editor":
            self.apply_edit("tok", str(op["tok"]))
            rec.want = self.model_facts()
            rec.edits = dict(self.edit_log)
            return self.editor
        name = "c%d%s" % (op["tok"], op["ext"])
        path = os.path.join(self.src, name)
        text = self.source_text().replace("tok=0", "tok=%d" % op["tok"])
        if op["ext"] == ".asc":
            text = "Version 4\nSHEET 1 880 680\nTEXT 0 0 Left 2 !.param tok=%d\n" % op["tok"]
        if not (op.get("missing") and not rec.op.get("_retrying")):
            disk.write_file(path, text.encode())
        rec.text = text
        rec.src_path = path
        return Path(path) if op["src"] == "path" else path

    def model_facts(self):
        f = facts(self.source_text())
        if self.fmt == "asc":
            f = self.asc_facts(self.source_bytes().decode())
        for k, v in self.model.items():
            if k[0] == "R" and self.fmt == "asc":
                f[k.lower()] = v
            elif k[0] == "R":
                key = k.lower()
                f[key] = " ".join(f[key].split()[:2] + [v])
            else:
                f[".param " + k] = v
        return f

    def apply_edit(self, what, val):
        if what[0] == "R":
            self.editor.set_component_value(what, val)
        else:
            self.editor.set_parameter(what, val)
        self.model[what] = val
        self.edit_log[what] = val

    def do_run(self, op, retry=False):
        sim = self.sim
        rec = Rec(op)
        if retry:
            rec.op = dict(op, _retrying=True)
        self.recs.append(rec)
        self.by_tok[rec.tok] = rec
        r = self.runner
        src = self.source_for(op, rec)
        cb, args = self.make_cb(rec)
        kw = {}
        if op.get("switches") is not None:
            kw["switches"] = list(op["switches"])
        elif op.get("mutate"):
            kw["switches"] = None
        rec.switches = list(op.get("switches") or self.default_switches)
        self.all_switches.update(s for s in rec.switches if s != "-D")
        if "timeout" in op:
            kw["timeout"] = op["timeout"]
        if op.get("fname"):
            kw["run_filename"] = op["fname"]
        if op.get("exe_log"):
            kw["exe_log"] = True
        rec.T = op.get("timeout", None)
        if rec.T is None:
            rec.T = self.plan["timeout"]
        if disk.FAULTS is not None:
            base = op.get("fname") or ("circuit_%d" % (r.runno + 1) if op["src"] == "editor" else "c%d" % op["tok"])
            for rule in disk.FAULTS.rules:
                if rule.get("match", "").startswith("@"):
                    rule["_tok"] = int(rule["match"][1:])
                if rule.get("_tok") == op["tok"]:
                    rule["match"] = os.path.splitext(base)[0]
                    rule["off"] = retry
            disk.FAULTS.enabled = not retry
        rec.fired0 = disk.FAULTS.fired if disk.FAULTS is not None else 0
        rec.t_call, rec.i_call = sim.now, len(sim.events)
        rec.stall0 = sim.stall_total
        rec.runno0 = r.runno
        rec.done0 = r.okSim + r.failSim
        sim.rec("op_run", tok=rec.tok, kind=op["op"], wait=op["wait"])
        self.in_run = rec
        try:
            if op["op"] == "run_now":
                rec.now_result = r.run_now(src, **kw)
                rec.outcome = "now"
                rec.task = next((t for t in reversed(list(r.completed_tasks)) if t.runno == r.runno), None)
            else:
                if op.get("on_err"):
                    kw["callback_on_error"] = True
                if cb is not None:
                    kw["callback"] = cb
                    if args is not None:
                        kw["callback_args"] = args
                if not op["wait"]:
                    kw["wait_resource"] = False
                t = r.run(src, **kw)
                if t is None:
                    rec.outcome = "none"
                else:
                    rec.outcome = "task"
                    rec.task = t
        except core.SimKilled:
            raise
        except Exception as e:
            rec.outcome = "raised"
            rec.exc = e
        finally:
            self.in_run = None
        if op.get("mutate"):
            # the caller uses its containers again
            if isinstance(kw.get("switches"), list):
                kw["switches"][:] = ["-dstlater"]
            if isinstance(args, dict):
                args.update(alpha="later")
        rec.t_ret, rec.i_ret = sim.now, len(sim.events)
        rec.stall1 = sim.stall_total
        rec.runno = r.runno
        rec.fired = (disk.FAULTS.fired if disk.FAULTS is not None else 0) - rec.fired0
        sim.rec("op_run_ret", tok=rec.tok, out=rec.outcome, exc=type(rec.exc).__name__ if rec.exc else None)
        if rec.outcome == "raised" and op.get("retry") and not retry:
            # the fault clears and the caller tries again
            if "_tok" in str(disk.FAULTS.rules if disk.FAULTS else ""):
                self.col.hit("prep_fault_then_retry")
            self.by_tok.pop(rec.tok, None)
            rec.superseded = True
            self.do_run(op, retry=True)
            if disk.FAULTS is not None:
                disk.FAULTS.enabled = True

    def do(self, op, who):
        sim, r, col = self.sim, self.runner, self.col
        k = op["op"]
        if k in ("run", "run_now"):
            self.do_run(op)
        elif k == "edit":
            self.apply_edit(op["what"], op["val"])
        elif k == "edit_queued":
            # an edit by another thread while run() is past its preparation (it sleeps)
            if self.in_run is not None and self.main_thread.state == core.BLOCKED and self.main_thread.reason == "sleep":
                self.apply_edit(op["what"], op["val"])
                col.hit("edit_while_run_is_queued")
        elif k == "reset":
            self.editor.reset_netlist()
            self.model.clear()
            self.edit_log.clear()
        elif k == "sleep":
            sim.sleep(op["d"])
        elif k == "poll":
            for _ in range(op["n"]):
                r.active_threads()
                self.check_lists()
                sim.sleep(op["gap"])
        elif k == "wait":
            w = {"t_call": sim.now, "T": op.get("timeout"), "abort": op.get("abort", False), "res": None, "t_ret": None, "stall0": sim.stall_total,
                 "launched": [x for x in self.recs if x.launched], "who": who, "jumped": sim.wall_jump,
                 "live0": [pr for pr in self.progs if pr.p.rc is None], "i_call": len(sim.events)}
            self.waits.append(w)
            kw = {}
            if w["T"] is not None:
                kw["timeout"] = w["T"]
            if w["abort"]:
                kw["abort_all_on_timeout"] = True
                self.kills.append(w)
            try:
                w["res"] = r.wait_completion(**kw)
            except core.SimKilled:
                raise
            except Exception as e:
                w["exc"] = "%s: %s" % (type(e).__name__, e)
            w["t_ret"] = sim.now
            w["stall1"] = sim.stall_total
            w["launched_end"] = [x for x in self.recs if x.launched]
            w["live1"] = [pr for pr in self.progs if pr.p.rc is None]
            w["alive1"] = [x for x in w["launched_end"] if x.task is not None and x.task.is_alive()]
            w["active1"] = list(r.active_tasks)
            sim.rec("op_wait_ret", res=w["res"], T=w["T"], exc=w.get("exc"))
        elif k == "killall":
            w = {"t_call": sim.now, "abort": True, "explicit": True, "live0": [pr for pr in self.progs if pr.p.rc is None], "i_call": len(sim.events)}
            self.kills.append(w)
            try:
                (r.kill_all_ltspice if op.get("old") else r.kill_all_spice)()
            except core.SimKilled:
                raise
            except Exception as e:
                w["exc"] = "%s: %s" % (type(e).__name__, e)
            w["t_ret"] = sim.now
            w["live1"] = [pr for pr in self.progs if pr.p.rc is None]
            sim.rec("op_kill_ret", exc=w.get("exc"))
        elif k == "iterate":
            self.do_iter(op, who)
        elif k == "cleanup":
            self.do_cleanup()
        elif k == "drain":
            self.drain()
        elif k == "results":
            rec = self.by_tok.get(op["which"])
            if rec is not None and rec.outcome == "task":
                rec.t_results = sim.now
                try:
                    rec.results = ("ok", rec.task.wait_results())
                except core.SimKilled:
                    raise
                except Exception as e:
                    rec.results = ("exc", repr(e))
                sim.rec("op_results", tok=rec.tok)
        elif k == "rmfile":
            rec = self.by_tok.get(op["which"])
            if rec is not None and rec.task is not None and not rec.task.is_alive():
                f = Path(rec.task.netlist_file).with_suffix(op["ext"])
                if f.exists() and str(f.absolute()).startswith(self.scratch):
                    disk.REAL["unlink"](f)
        elif k == "rmexe":
            if os.path.exists(self.exe):
                disk.REAL["rename"](self.exe, self.exe + ".away")
                self.sim.fault("simulator_removed")
                self.exe_gone = True
        elif k == "putexe":
            if os.path.exists(self.exe + ".away"):
                disk.REAL["rename"](self.exe + ".away", self.exe)
        elif k == "add_switch":
            a, b = op["sw"]
            if b is None:
                # the path is optional
                (r.add_command_line_switch(a, None) if len(self.recs) % 3 == 0 else r.add_command_line_switch(a))
            else:
                r.add_command_line_switch(a, b)
            self.default_switches += [a] + ([b] if b is not None else [])
        elif k == "clear_switches":
            r.clear_command_line_switches()
            self.default_switches = []
        else:
            raise core.HarnessError("op " + k)

    def check_lists(self):
        """Every task listed as completed is over (harness code is not pre-empted here)."""
        for t in list(self.runner.completed_tasks):
            if t.is_alive():
                rec = next((x for x in self.recs if x.task is t), None)
                if rec is not None and rec.op["op"] == "run_now":
                    continue        # abandoned by its caller after the timeout
                self.col.bad("R02", "completed-but-running", "run %s is in completed_tasks while it is still running" % t.runno)

    def do_iter(self, op, who):
        sim, r = self.sim, self.runner
        flt = op.get("filter")
        if isinstance(flt, dict):
            cond = {k: (set(v) if isinstance(v, list) and len(v) > 2 else tuple(v) if isinstance(v, list) and len(v) == 2 else v) for k, v in flt.items()}
        elif flt == "even":
            cond = lambda t: t.runno % 2 == 0
        elif flt == "odd":
            cond = lambda t: t.runno % 2 == 1
        else:
            cond = None
        it = {"op": op, "got": [], "end": None, "t0": sim.now, "who": who, "stall0": sim.stall_total}
        self.iters.append(it)
        try:
            if op["mode"] == "iter":
                gen = iter(r)
                it["op"] = dict(op, filter=None)
            else:
                if op.get("again") and who in self.iterables:
                    src = self.iterables[who]
                else:
                    src = r.tasks(cond) if cond is not None else r.tasks()
                self.iterables[who] = src
                gen = iter(src)
            while True:
                it["tn"] = sim.now      # the last request of an element begins
                try:
                    x = next(gen)
                except StopIteration:
                    it["end"] = "stop"
                    # harness code runs on without pre-emption: a snapshot at the moment of the stop
                    it["completed"] = list(r.completed_tasks)
                    it["active"] = list(r.active_tasks)
                    break
                it["got"].append(x)
                sim.rec("yield", who=who, x=str(getattr(x, "runno", x)).replace(self.scratch, "$S"))
                if op.get("work"):
                    sim.sleep(op["work"])
        except core.SimKilled:
            raise
        except Exception as e:
            it["end"] = "%s: %s" % (type(e).__name__, e)
            it["active"] = list(r.active_tasks)
            it["completed"] = list(r.completed_tasks)
            it["wall"] = core._v_time()
        it["t1"] = sim.now
        sim.rec("iter_end", end=it["end"])

    def do_cleanup(self):
        sim = self.sim
        before = disk.tree(self.scratch)
        fin = [x for x in self.recs if x.task is not None and not x.task.is_alive()]
        act = [x for x in self.recs if x.task is not None and x.task.is_alive()]
        c = {"fin": fin, "act": act, "before": before, "exc": None, "t0": sim.now}
        try:
            self.runner.cleanup_files()
        except core.SimKilled:
            raise
        except Exception as e:
            c["exc"] = "%s: %s" % (type(e).__name__, e)
        c["after"] = disk.tree(self.scratch)
        c["t1"] = sim.now
        c["act_end"] = [x for x in act if x.task.is_alive()]
        self.cleanups.append(c)
        self.judge_cleanup(c)
        sim.rec("op_cleanup", exc=c["exc"])

    def stem_files(self, rec, tree):
        nl = os.path.relpath(os.path.abspath(str(rec.task.netlist_file)), self.scratch)
        stem = os.path.splitext(nl)[0]
        return sorted(f for f in tree if f.startswith(stem + "."))

    def judge_cleanup(self, c):
        bad = self.col.bad
        if c["exc"]:
            bad("R10", "cleanup-raises", "cleanup_files raised %s" % c["exc"])
            return
        gone_ok = set()
        for x in c["fin"]:
            left = self.stem_files(x, c["after"])
            if left:
                out = x.prog.spec.get("out") if x.prog is not None and x.prog.spec else "?"
                exts = ",".join(sorted({f[len(os.path.splitext(os.path.relpath(os.path.abspath(str(x.task.netlist_file)), self.scratch))[0]):] for f in left}))
                bad("R10", "leftover %s (%s)" % (exts, out), "files of the finished run %s remain after cleanup: %s" % (x.task.runno, left))
            gone_ok.update(self.stem_files(x, c["before"]))
        for x in c["act"]:
            fs = set(self.stem_files(x, c["before"]))
            if x in c["act_end"]:
                for f in fs:
                    if f.endswith(".log") and f not in c["after"] and f[:-4] + ".fail" in c["after"]:
                        continue        # renamed by its own task
                    if f not in c["after"]:
                        bad("R10", "active-file-removed", "file %s of the active run %s was removed" % (f, x.task.runno))
                    elif not c["after"][f].startswith(c["before"][f][:16]):
                        bad("R10", "active-file-changed", "file %s of an active run was changed" % f)
            gone_ok.update(fs)
            gone_ok.update(self.stem_files(x, c["after"]))
        for f, data in c["before"].items():
            if f in gone_ok or f.startswith("bin/"):
                continue
            if f not in c["after"]:
                bad("R10", "foreign-file-removed", "cleanup removed %s, which belongs to no run" % f)
            elif c["after"][f] != data:
                bad("R10", "foreign-file-changed", "cleanup changed %s" % f)
        self.col.hit("cleanup_with_active" if c["act"] else "cleanup_all_finished")

    def drain(self, limit=None):
        """Wait until nothing is active, by polling only (does not rely on wait_completion)."""
        sim, r = self.sim, self.runner
        durs = [s.get("dur", 1.0) for s in self.plan["specs"].values()]
        limit = limit or (sum(durs) + 20 + 4.0 * len(durs) + max([x.T or 0 for x in self.recs if getattr(x, "T", None)] + [0]) + 10)
        end = sim.now + limit
        while sim.now < end:
            r.update_completed()
            if not r.active_tasks:
                return True
            sim.sleep(0.5)
        return False

    # ---- scenario
    def scenario(self):
        from spicelib.sim.sim_runner import SimRunner
        from spicelib.editor.spice_editor import SpiceEditor
        p, sim = self.plan, self.sim
        self.main_thread = sim.current()
        disk_enabled = disk.FAULTS
        if disk.FAULTS is not None:
            disk.FAULTS.enabled = False
        kw = {"simulator": self.sim_class, "parallel_sims": p["parallel"], "timeout": p["timeout"]}
        if p["outdir"]:
            kw["output_folder"] = self.out
        if p["cwd"]:
            kw["cwd"] = os.path.join(self.scratch, "work")
        if p.get("setsim"):
            other = next(f for f in common.FLAVORS if f != self.flavor)
            self.runner = SimRunner(**dict(kw, simulator=common.simulator_class(other)))
            self.runner.set_simulator(self.sim_class)
            for wrong in (str, SimRunner):
                try:
                    self.runner.set_simulator(wrong)
                    self.col.bad("R04", "not-a-simulator", "set_simulator(%s) was accepted" % wrong.__name__)
                except TypeError:
                    pass
        else:
            self.runner = SimRunner(**kw)
        if self.fmt == "asc":
            from spicelib.editor.asc_editor import AscEditor as Editor
        elif self.fmt == "qsch":
            from spicelib.editor.qsch_editor import QschEditor as Editor
        else:
            Editor = SpiceEditor
        self.editor = Editor(self.source)
        self.default_switches = []
        self.all_switches = {"-dstlater"}
        sim.thread_start_fail = set(p["thread_fail"])
        sim.thread_starts = 0
        for i, name in enumerate(p["foreign"]):
            self.table.add_foreign(name)
        for j in p["jumps"]:
            sim.after(j["at"], lambda by=j["by"]: self.jump(by))
        if disk.FAULTS is not None:
            disk.FAULTS.enabled = True
        if p["vanish"]:
            def arm():
                pids = sorted(self.table.procs)
                self.table.vanish_on_scan = {pids[i] for i in p["vanish"] if i < len(pids)}
            self.arm_vanish = arm
        workers = [common.Worker(sim, "w%d" % i, lambda ops=ops, i=i: [self.do(o, "w%d" % i) for o in ops]) for i, ops in enumerate(p["threads"])]
        for op in p["main"]:
            if op["op"] in ("killall", "wait") and p["vanish"]:
                self.arm_vanish()
            self.do(op, "main")
        for w in workers:
            if not w.join():
                self.col.bad("R12", "stuck-worker", "a polling/iterating thread never returned")
            if w.exc:
                self.col.bad("R02", "poller-exception", w.exc[-500:])
        if disk.FAULTS is not None:
            disk.FAULTS.enabled = False
        sim.thread_start_fail = set()
        if os.path.exists(self.exe + ".away"):
            disk.REAL["rename"](self.exe + ".away", self.exe)
        self.table.vanish_on_scan = set()
        drained = self.drain()
        self.t_drained = sim.now
        if not drained:
            for key in ("R12", "R02", "R11", "R06", "R07"):
                self.col.bad(key, "never-drains", "tasks stay active for ever: %s" % sim.describe())
        # a fresh run must still work
        tok = 900
        self.plan["specs"]["900"] = {"dur": 0.3, "out": "ok"}
        probe = {"op": "run", "tok": tok, "src": "editor", "wait": True, "cb": None, "on_err": False, "ext": ".asc" if self.fmt == "asc" else ".net", "timeout": 30.0}
        self.do_run(probe)
        self.drain(20)
        self.judge()

    def jump(self, by):
        self.sim.wall_jump += by
        self.sim.fault("clock_jump")

    # ================================================================ oracles
    def thread_of(self, task):
        for t in self.sim.threads:
            if t.owner is task:
                return t
        return None

    def slack(self, a=None, b=None):
        return self.sim.stall_total + 40 * self.plan["latency"]

    def judge(self):
        r, sim, col = self.runner, self.sim, self.col
        bad = col.bad
        r.update_completed()
        completed = list(r.completed_tasks)
        active = list(r.active_tasks)
        probe = self.by_tok[900]
        S = self.slack()
        # ---- probe
        if probe.outcome != "task" or probe.prog is None or probe.prog.p.rc != 0 or probe.task.retcode != 0:
            for k in ("R12", "R01", "R11", "R06"):
                bad(k, "probe-fails", "after everything was over a new run does not work: %s %s" % (probe.outcome, probe.exc))
        recs = [x for x in self.recs if not getattr(x, "superseded", False)]
        launched = [x for x in self.recs if x.launched]
        for x in launched:
            x.th = self.thread_of(x.task) if x.task is not None else None
        # programs never read (killed at once, or no netlist): attribute by netlist path
        for pr in self.progs:
            if pr.text is None:
                for x in self.recs:
                    if x.task is not None and pr.netlist and os.path.abspath(str(x.task.netlist_file)) == pr.netlist and pr not in x.progs:
                        x.progs.append(pr)
        self.judge_R02(launched, completed, active)
        self.judge_R01_R07(launched)
        self.judge_R03()
        self.judge_R04_R05_R06(launched)
        self.judge_R08()
        self.judge_R09(launched)
        self.judge_R11()
        self.judge_R12_R13(launched)
        if disk.ESCAPES:
            for k in ("R10", "R04"):
                bad(k, "escape", "wrote outside its directories: %s" % disk.ESCAPES[:3])
        for e in sim.events:
            if e["k"] == "stray_kill":
                bad("R11", "stray-kill", "a signal was sent to a process the runner does not own")

    def unsure_now(self, x):
        return x.op["op"] == "run_now" and self.sim.stall_total > 0.3

    def expected_ok(self, x):
        return x.prog is not None and x.prog.p.rc == 0

    def judge_R02(self, launched, completed, active):
        bad = self.col.bad
        r = self.runner
        if active:
            bad("R02", "active-left", "tasks still active at the end: %s" % [t.runno for t in active])
        last = 0
        for x in launched:
            if x.task is None:
                bad("R02", "run_now-not-recorded", "run_now left no completed task")
                continue
            no = x.task.runno
            if no <= last:
                bad("R02", "runno-order", "run number %s after %s" % (no, last))
            last = no
            n = sum(1 for t in completed if t is x.task)
            if n != 1:
                bad("R02", "completed-%d-times" % n, "run %s appears %d times in completed_tasks" % (no, n))
            if any(t is x.task for t in active):
                bad("R02", "active-and-over", "run %s finished but is active" % no)
        if len(completed) != len(launched):
            bad("R02", "completed-count", "%d completed tasks for %d launched runs" % (len(completed), len(launched)))
        info = r.sim_info()
        want = {x.task.runno for x in launched if x.task is not None}
        if set(info) != want:
            bad("R02", "sim_info-keys", "sim_info has %s, launched %s" % (sorted(info), sorted(want)))
        nok = 0
        unsure = any(self.unsure_now(x) for x in launched)
        for x in launched:
            ok = self.expected_ok(x)
            nok += ok
            if x.task is None or x.task.runno not in info:
                continue
            i = info[x.task.runno]
            t = x.task
            if (i["netlist_file"], i["raw_file"], i["log_file"], i["retcode"]) != (t.netlist_file, t.raw_file, t.log_file, t.retcode):
                bad("R02", "sim_info-fields", "sim_info of run %s differs from its task" % t.runno)
            if not self.plan["jumps"]:
                if i["start_time"] is None or i["stop_time"] is None or i["start_time"] > i["stop_time"]:
                    if not self.unsure_now(x) and not self.sim.thread_exc:
                        bad("R02", "times", "start/stop times of run %s: %s %s" % (t.runno, i["start_time"], i["stop_time"]))
                else:
                    pr = x.prog
                    if pr is not None and not (i["start_time"] - core.EPOCH <= pr.p.started + 1e-6 and (pr.p.ended is None or i["stop_time"] - core.EPOCH >= pr.p.ended - 1e-6)):
                        bad("R02", "times-outside", "times of run %s do not enclose its simulation" % t.runno)
            if not self.unsure_now(x) and (i["retcode"] == 0) != ok:
                bad("R02", "retcode", "run %s reports %s, simulator returned %s" % (t.runno, i["retcode"], x.prog.p.rc if x.prog else None))
        if r.okSim + r.failSim != len(launched):
            bad("R02", "counter-sum", "okSim %d + failSim %d != %d launched" % (r.okSim, r.failSim, len(launched)))
            bad("R07", "counter-sum", "okSim %d + failSim %d != %d launched" % (r.okSim, r.failSim, len(launched)))
        if not unsure and r.okSim != nok:
            bad("R02", "okSim", "okSim %d, simulators that returned 0: %d" % (r.okSim, nok))
        # each launched run starts its simulator at most once
        for x in self.recs:
            if len(x.progs) > 1:
                bad("R02", "simulated-twice", "run %s started %d simulators" % (x.tok, len(x.progs)))
        for x in launched:
            if not x.progs and not getattr(x, "exec_failed", False) and not getattr(self, "exe_gone", False) and not self.unsure_now(x) and not self.plan["thread_fail"]:
                bad("R02", "not-simulated", "run %s was accepted but no simulator started" % x.tok)

    def judge_R01_R07(self, launched):
        bad, sim = self.col.bad, self.sim
        N = self.plan["parallel"]
        S = self.slack()
        own = {}
        for x in self.recs:
            for pr in x.progs:
                own[pr] = x
        ivs = [(pr.p.started_i, pr.p.ended_i if pr.p.ended_i is not None else 1 << 60, own[pr]) for pr in self.progs
               if pr in own and own[pr].op["wait"] and own[pr].op["op"] == "run"]
        for s, e, x in ivs:
            n = sum(1 for a, b, _ in ivs if a <= s < b)
            if n > N:
                bad("R01", "over-limit", "%d simulations run at the same time with parallel_sims=%d" % (n, N))
            if n == N and N > 1:
                self.col.hit("at_limit")
        for idx, x in enumerate(self.recs):
            if x.op["op"] != "run" or x.t_ret is None:
                continue
            if x.outcome == "raised":
                continue
            earlier = [y for y in self.recs[:idx] if y.outcome == "task" and y.th is not None]
            ends = [(y.th.ended if y.th.ended is not None else 1e18) for y in earlier if y.th.ended is None or y.th.ended > x.t_call]
            ends.sort()
            k = len(ends) - N       # this many must end before a slot is free
            t_free = x.t_call if k < 0 else ends[k]
            el = x.t_ret - x.t_call
            if not x.op["wait"]:
                if x.outcome == "none":
                    bad("R01", "nowait-none", "run(wait_resource=False) returned None")
                elif el > 0.6 + S:
                    bad("R01", "nowait-late", "run(wait_resource=False) took %.2f s" % el)
                continue
            if k >= 0:
                self.col.hit("queued")
            if x.outcome == "task":
                if x.t_ret > t_free + 1.0 + S:
                    bad("R01", "slot-not-reused", "run() started %.2f s after a slot was free" % (x.t_ret - t_free))
                if x.T is not None and el > x.T + 2.5 + S:
                    bad("R07", "late-start", "run() with timeout %s came back with a task after %.2f s" % (x.T, el))
            elif x.outcome == "none":
                self.col.hit("slot_timeout")
                if x.T is None:
                    bad("R07", "none-without-timeout", "run() without timeout gave up after %.2f s" % el)
                    bad("R01", "gave-up", "run() without timeout gave up")
                    continue
                if el < x.T - 0.02:
                    bad("R07", "gave-up-early", "run(timeout=%s) gave up after %.2f s" % (x.T, el))
                if el > x.T + 2.5 + S:
                    bad("R07", "gave-up-late", "run(timeout=%s) gave up only after %.2f s" % (x.T, el))
                if x.t_ret > t_free + 1.0 + S and t_free - x.t_call < x.T - 0.3:
                    bad("R07", "none-with-free-slot", "run() returned None although a slot was free for %.2f s" % (x.t_ret - t_free))
                    bad("R01", "none-with-free-slot", "run() returned None although a slot was free")
                if x.progs:
                    bad("R07", "refused-but-simulated", "run() returned None but its simulation was started")
                if any(t.runno == x.runno for t in list(self.runner.completed_tasks) + list(self.runner.active_tasks)) and x.runno != x.runno0:
                    bad("R07", "refused-but-recorded", "run() returned None but a task with its run number exists")
        if self.prop in ("R01", "R07"):
            for x in self.recs:
                if x.outcome == "raised" and not self.plan["thread_fail"] and not self.plan["disk"]:
                    bad(self.prop, "run-raises", "run() raised %s: %s" % (type(x.exc).__name__, x.exc))

    def ok_at(self, xs):
        return all(self.expected_ok(x) for x in xs)

    def judge_R03(self):
        bad, sim = self.col.bad, self.sim
        for w in self.waits:
            if w["t_ret"] is None:
                bad("R03", "never-returns", "wait_completion never returned")
                bad("R12", "wait-never-returns", "wait_completion never returned")
                continue
            if w.get("exc"):
                bad("R03", "raises", "wait_completion raised %s" % w["exc"])
                if w["abort"]:
                    bad("R11", "abort-raises", "wait_completion(abort) raised %s" % w["exc"])
                continue
            S = sim.stall_total
            res = w["res"]
            ths = [x.th for x in w["launched"] if x.task is not None and getattr(x, "th", None) is not None]
            ths_end = [x.th for x in w["launched_end"] if x.task is not None and getattr(x, "th", None) is not None]
            # a run that came up while it was returning doesn't count
            pending = [t for t in ths_end if (t.ended is None or t.ended > w["t_ret"]) and t.born < w["t_ret"] - 0.05 - 2 * sim.stall_max]
            if res is True:
                if [t for t in ths if t.ended is None or t.ended > w["t_ret"]]:
                    bad("R03", "true-while-active", "wait_completion returned True while a run was active")
                if not self.ok_at([x for x in w["launched"] if not self.unsure_now(x)]):
                    bad("R03", "true-with-failure", "wait_completion returned True although a run failed")
            elif res is False:
                self.col.hit("wait_false")
                failed = [x for x in w["launched_end"] if x.th is not None and x.th.ended is not None and x.th.ended <= w["t_ret"] and (not self.expected_ok(x) or self.unsure_now(x))]
                lasts = [t.ended for t in ths_end if t.ended is not None and t.ended <= w["t_ret"] - 0.05 - S]
                last = max([w["t_call"]] + [x for x in lasts if x > w["t_call"]])
                if w["T"] is None:
                    tos = [(x.T, x.th.born) for x in w["launched_end"] if x.th is not None and (x.th.ended is None or x.th.ended > w["t_ret"])]
                    elapsed = all(T is not None and w["t_ret"] >= b + T - 0.05 for T, b in tos) and tos
                else:
                    elapsed = w["t_ret"] - last >= w["T"] - 0.02
                # False may mean a failure, but then only once nothing is active any more
                if not failed and not elapsed:
                    bad("R03", "false-without-cause", "wait_completion(%s) returned False after %.2f s, %.2f s after the last completion, with no failed run" % (w["T"], w["t_ret"] - w["t_call"], w["t_ret"] - last))
                elif pending and not elapsed:
                    bad("R03", "early-timeout", "wait_completion(%s) gave up %.2f s after the call/last completion" % (w["T"], w["t_ret"] - last))
            else:
                bad("R03", "not-a-bool", "wait_completion returned %r" % (res,))
            # liveness
            if not w["launched_end"] or all(t.ended is not None and t.ended <= w["t_call"] for t in ths_end):
                if w["t_ret"] - w["t_call"] > 0.3 + S:
                    bad("R03", "late-idle", "wait_completion took %.2f s with nothing active" % (w["t_ret"] - w["t_call"]))
            allend = max([t.ended if t.ended is not None else 1e18 for t in ths_end] + [w["t_call"]])
            bound = allend + 2.0 + S
            if w["T"] is not None:
                steps = sorted(t.ended for t in ths_end if t.ended is not None and w["t_call"] < t.ended < w["t_ret"])
                lim = w["t_call"] + w["T"] + 2.1 + S
                for e in steps:
                    if e <= lim:
                        lim = max(lim, e + 1.0 + w["T"] + 2.1 + S)
                bound = min(bound, lim)
            if w["t_ret"] > bound:
                bad("R03", "late", "wait_completion(%s) returned %.2f s too late" % (w["T"], w["t_ret"] - bound))

    def judge_R04_R05_R06(self, launched):
        bad, sim = self.col.bad, self.sim
        S = self.slack()
        cleaned = bool(self.cleanups)
        touched = any(o["op"] == "rmfile" for o in self.plan["main"])
        files = disk.tree(self.scratch)
        rd = lambda p: files.get(os.path.relpath(os.path.abspath(str(p)), self.scratch))
        aborted = any(w["abort"] for w in self.waits) or any(w.get("explicit") for w in self.kills)
        excs = {n for n, *_ in sim.thread_exc}
        for x in launched:
            t, pr = x.task, x.prog
            if t is None or (x.th is not None and x.th.ended is None):
                continue
            if self.unsure_now(x):
                continue
            died = "RunTask#%d" % t.runno in excs
            if died:
                e = next(e for e in sim.thread_exc if e[0] == "RunTask#%d" % t.runno)
                msg = "the task thread of run %s died: %s %s %s" % (t.runno, e[1], e[2], e[3][-400:])
                bad("R04", "task-died " + e[1], msg)
                if x.op.get("cb"):
                    bad("R05", "task-died " + e[1], msg)
            nl = os.path.abspath(str(t.netlist_file))
            stem = os.path.splitext(nl)[0]
            spec = pr.spec if pr is not None else {}
            rc = pr.p.rc if pr is not None else None
            isolated = ["R04"] + (["R12"] if self.prop == "R12" else [])
            if pr is not None:
                if pr.netlist != nl:
                    bad("R04", "wrong-netlist", "run %s simulated %s, its task names %s" % (t.runno, pr.netlist, nl))
                if x.op.get("fname") and os.path.basename(nl) != x.op["fname"]:
                    bad("R04", "run_filename", "run_filename %s ignored: %s" % (x.op["fname"], nl))
                if self.plan["outdir"] and os.path.dirname(nl) != self.out:
                    bad("R04", "output_folder", "netlist of run %s is not in the output folder: %s" % (t.runno, nl))
                got = list(pr.p.argv)
                if x.switches and not contains(got, x.switches):
                    bad("R04", "switches", "switches %s of run %s not on its command line %s" % (x.switches, t.runno, got[1:]))
                more = [s for s in got[1:] if s in self.all_switches and s not in x.switches]
                if more:
                    bad("R04", "foreign-switches", "run %s was started with switches %s that were not set when it was requested: %s" % (t.runno, more, got[1:]))
                for y in launched:
                    mine = y.op.get("switches")
                    if y is not x and mine and not x.op.get("switches") and contains(got, mine):
                        bad("R04", "foreign-switches", "run %s got the switches of run %s" % (t.runno, y.task.runno if y.task else "?"))
                if self.plan["cwd"] and (pr.p.cwd is None or os.path.abspath(pr.p.cwd) != os.path.join(self.scratch, "work")):
                    bad("R04", "cwd", "simulator started in %s" % pr.p.cwd)
                if not pr.cmd.batch and pr.cmd.netlist is not None:
                    bad("R04", "not-batch", "simulator command line %s is not a batch run" % got[1:])
            if rc == 0:
                if t.retcode != 0:
                    for k in isolated:
                        bad(k, "ok-reported-failed", "run %s: simulator returned 0, task says %s %s" % (t.runno, t.retcode, t.exception_text))
                    if spec.get("dur") is not None and x.T is not None:
                        bad("R06", "ok-reported-failed", "a run that ended in time is reported as failed: %s" % t.exception_text)
                else:
                    out = spec.get("out", "ok")
                    if out in ("ok", "nolog"):
                        want = stem + self.ext
                        if t.raw_file is None or os.path.abspath(str(t.raw_file)) != want:
                            for k in isolated:
                                bad(k, "raw-path", "run %s: raw file %s, simulator wrote %s" % (t.runno, t.raw_file, want))
                        elif not cleaned and not touched and rd(t.raw_file) != pr.full_raw:
                            for k in isolated:
                                bad(k, "raw-content", "run %s: the raw file is not the one its simulator wrote" % t.runno)
                    if out in ("ok", "noraw"):
                        if t.log_file is None or os.path.abspath(str(t.log_file)) != stem + ".log":
                            for k in isolated:
                                bad(k, "log-path", "run %s: log file %s" % (t.runno, t.log_file))
                        elif not cleaned and not touched and rd(t.log_file) != pr.full_log:
                            for k in isolated:
                                bad(k, "log-content", "run %s: the log file is not the one its simulator wrote" % t.runno)
                    if x.op.get("exe_log") and not cleaned and not touched:
                        c = rd(stem + ".exe.log")
                        if c is None or pr.sig.encode() not in c:
                            bad("R04", "exe_log", "run %s: console output missing from its .exe.log" % t.runno)
            else:
                # failed, crashed, killed, or never started
                if t.retcode == 0:
                    bad("R04", "failed-reported-ok", "run %s: simulator ended with %s, task says 0" % (t.runno, rc))
                    bad("R12", "failed-reported-ok", "run %s: simulator ended with %s, task says 0" % (t.runno, rc))
                if t.raw_file is not None:
                    bad("R04", "failed-with-raw", "failed run %s has raw file %s" % (t.runno, t.raw_file))
                renf = self.plan["disk"] and any(q["op"] == "rename" for q in self.plan["disk"])
                if not cleaned and not touched and not renf and not died:
                    if rd(stem + ".log") is not None:
                        bad("R04", "fail-log-kept", "failed run %s left its .log in place" % t.runno)
                    if pr is not None and pr.log and pr.log in pr.files:
                        f = rd(stem + ".fail")
                        if f is None:
                            bad("R04", "fail-log-lost", "the log of failed run %s is gone" % t.runno)
                        elif not f.startswith(pr.full_log[:len(pr.full_log) // 2]):
                            bad("R04", "fail-log-content", "the .fail of run %s is not its own log" % t.runno)
                        elif t.log_file is None or os.path.abspath(str(t.log_file)) != stem + ".fail":
                            bad("R04", "fail-log-path", "failed run %s names %s as its log" % (t.runno, t.log_file))
            if x.outcome == "now" and x.now_result is not None:
                if tuple(x.now_result) != (t.raw_file, t.log_file):
                    bad("R04", "run_now-result", "run_now returned %s" % (x.now_result,))
            # ---- R06
            self.judge_timeout(x, t, pr, rc, S, aborted)
            # ---- R05
            self.judge_callback(x, t, pr, rc, died)
        for x in self.recs:
            if x.outcome == "raised" and self.prop in ("R06", "R04", "R05", "R03") and not self.plan["thread_fail"] and not self.plan["disk"]:
                bad(self.prop, "run-raises " + type(x.exc).__name__, "%s(timeout=%s) raised %r" % (x.op["op"], x.T, x.exc))

    def judge_timeout(self, x, t, pr, rc, S, aborted):
        bad = self.col.bad
        if pr is None:
            return
        T = x.T
        life = (pr.p.ended if pr.p.ended is not None else self.sim.now) - pr.p.started
        if pr.p.kills and not aborted:
            k = pr.p.kills[0] - pr.p.started
            self.col.hit("timeout_kill")
            if T is None:
                bad("R06", "killed-without-timeout", "run %s has no timeout and was killed after %.2f s" % (t.runno, k))
            else:
                if k < T - 0.01:
                    bad("R06", "killed-early", "run %s with timeout %s was killed after %.2f s" % (t.runno, T, k))
                if k > T + 0.5 + S:
                    bad("R06", "killed-late", "run %s with timeout %s was killed after %.2f s" % (t.runno, T, k))
            if t.retcode == 0:
                bad("R06", "killed-reported-ok", "killed run %s reports retcode 0" % t.runno)
            if not t.exception_text:
                bad("R06", "no-exception-text", "killed run %s has no exception text" % t.runno)
            if x.th is not None and x.th.ended is not None and x.th.ended > pr.p.kills[0] + 1.0 + S + (x.op.get("cb_dur") or 0):
                bad("R06", "slow-end", "run %s ended %.2f s after the kill" % (t.runno, x.th.ended - pr.p.kills[0]))
        elif T is not None and life > T + 0.5 + S and not aborted:
            bad("R06", "not-killed", "run %s with timeout %s ran for %.2f s" % (t.runno, T, life))

    def judge_callback(self, x, t, pr, rc, died):
        bad = self.col.bad
        kind = x.op.get("cb")
        if not kind or x.op["op"] != "run":
            return
        tf = self.plan["cbfault"].get(str(x.tok))
        if tf in ("fork_fail", "die_early"):
            want = 0
        else:
            both = rc == 0 and pr is not None and pr.raw in pr.files and (pr.log in pr.files)
            want = 1 if (both or x.op.get("on_err")) else 0
        n = len(x.cb_calls)
        if n != want:
            bad("R05", "%s-called-%d-not-%d" % ("callback" if kind in ("fn", "raise", "fn_dict", "fn_tuple") else kind, n, want),
                "callback (%s) of run %s called %d times, expected %d (rc=%s out=%s)" % (kind, t.runno, n, want, rc, pr.spec.get("out") if pr else None))
        for c in x.cb_calls:
            if not c["exited"]:
                bad("R05", "before-exit", "callback of run %s called before its simulator had exited" % t.runno)
            stem = os.path.splitext(os.path.abspath(str(t.netlist_file)))[0]
            exp_raw = stem + self.ext if rc == 0 else None
            exp_log = (stem + ".log",) if rc == 0 else (stem + ".log", stem + ".fail")
            graw = None if c["raw"] is None else os.path.abspath(c["raw"])
            glog = None if c["log"] is None else os.path.abspath(c["log"])
            if graw != exp_raw:
                bad("R05", "raw-arg", "callback of run %s got raw file %s" % (t.runno, c["raw"]))
            if glog not in exp_log:
                bad("R05", "log-arg", "callback of run %s got log file %s" % (t.runno, c["log"]))
            if rc != 0 and pr is not None and pr.log in pr.files and glog != stem + ".fail" and not self.plan["disk"]:
                bad("R05", "log-arg-fail", "callback of failed run %s got %s instead of the .fail log" % (t.runno, c["log"]))
            if rc == 0 and pr.spec.get("out", "ok") == "ok" and not c["raw_ok"]:
                bad("R05", "raw-content", "the raw file given to the callback of run %s is not that run's" % t.runno)
            if c["kw"] != x.want_kw:
                bad("R05", "args", "callback of run %s got %s, given %s" % (t.runno, c["kw"], x.want_kw))
        exp = x.want_ret if want and not tf else None
        if n == want and t.callback_return != exp:
            bad("R05", "return", "callback_return of run %s is %r instead of %r" % (t.runno, t.callback_return, exp))
        if n == want and t.get_results() != exp:
            bad("R05", "get_results", "get_results() of run %s is %r instead of %r" % (t.runno, t.get_results(), exp))
        res = getattr(x, "results", None)
        if res is not None:
            if res[0] != "ok" or (n == want and res[1] != exp):
                bad("R05", "wait_results", "wait_results() of run %s gave %r" % (t.runno, res))

    def judge_R08(self):
        bad = self.col.bad
        by_task = {id(x.task): x for x in self.recs if x.task is not None}
        for it in self.iters:
            flt = it["op"].get("filter")
            if it["end"] is None:
                bad("R08", "never-ends", "iteration never ended")
                bad("R12", "iteration-never-ends", "iteration never ended")
                continue
            if it["end"].startswith("SimRunnerTimeoutError"):
                # runs submitted while a stalled iterator was deciding do not count
                fresh = {id(x.task) for x in self.recs if x.task is not None and (x.t_ret is None or x.t_ret > it["t1"] - 0.05 - self.slack())}
                late = all(t.start_time is not None and t.timeout is not None and it["wall"] >= t.start_time + t.timeout - 0.01
                           for t in it["active"] if id(t) not in fresh)
                if not late:
                    # active tasks may have ended since; then nothing was active or they were past their timeout
                    bad("R08", "timeout-error", "iteration raised %s although runs were within their timeout" % it["end"])
                self.col.hit("iter_timeout_error")
            elif it["end"] != "stop":
                bad("R08", "raises", "iteration raised %s" % it["end"])
                continue
            comp = it["completed"]
            exp = []
            for t in comp:
                x = by_task.get(id(t))
                if x is None:
                    continue
                if self.matches(x, flt) and self.expected_ok(x):
                    exp.append(x)
            if it["op"]["mode"] == "iter":
                want = [x.want_ret if x.op.get("cb") else (x.task.raw_file, x.task.log_file) for x in exp]
                want = [self.iter_value(x) for x in exp]
                got = list(it["got"])
            else:
                want = [x.task.runno for x in exp]
                got = [t.runno for t in it["got"]]
            if it["end"] == "stop":
                # what was submitted while the iterator was deciding to stop may be missed
                missed = [x for x in exp[len(got):] if not (x.t_ret is None or x.t_ret > it["tn"])]
                if got != want[:len(got)] or missed:
                    bad("R08", "wrong-sequence", "iteration (filter %s) gave %s, completed and matching are %s" % (flt, got, want))
                th = [x for x in self.recs if x.task is not None and x.th is not None and x.t_ret is not None and x.t_ret <= it["tn"]
                      and (x.th.ended is None or x.th.ended > it["t1"]) and x.op["op"] == "run"]
                if th:
                    bad("R08", "stops-early", "iteration stopped while runs %s were active" % [x.task.runno for x in th])
            else:
                if got != want[:len(got)]:
                    bad("R08", "wrong-prefix", "iteration gave %s, completed and matching are %s" % (got, want))
            # promptness of the end
            lastend = max([x.th.ended or 1e18 for x in self.recs if x.task is not None and x.th is not None and x.t_ret <= it["t1"]] + [it["t0"]])
            work = (it["op"].get("work") or 0) * len(it["got"])
            if it["end"] == "stop" and it["t1"] > lastend + 1.0 + work + self.slack() and lastend < 1e17:
                bad("R08", "late", "iteration ended %.2f s after the last run" % (it["t1"] - lastend))
            self.col.hit("iterations")

    def iter_value(self, x):
        if x.op.get("cb"):
            both = x.prog.raw in x.prog.files and x.prog.log in x.prog.files
            return x.want_ret if (both or x.op.get("on_err")) else None
        return (x.task.raw_file, x.task.log_file)

    def matches(self, x, flt):
        if flt is None:
            return True
        if flt == "even":
            return x.task.runno % 2 == 0
        if flt == "odd":
            return x.task.runno % 2 == 1
        for k, v in flt.items():
            val = x.edits.get(k)
            if val is None or not (val in v if isinstance(v, list) else val == v):
                return False
        return True

    def judge_R09(self, launched):
        bad = self.col.bad
        if disk.read_file(self.source) != self.source_bytes():
            bad("R09", "source-changed", "the source circuit file was modified")
            bad("R13", "source-changed", "the source circuit file was modified")
        for x in self.recs:
            if x.text is not None and os.path.exists(x.src_path):
                if disk.read_file(x.src_path).decode() != x.text:
                    bad("R09", "source-changed", "the source file %s was modified" % os.path.basename(x.src_path))
                    bad("R13", "source-changed", "the source file %s was modified" % os.path.basename(x.src_path))
        seen = {}
        for x in launched:
            if x.task is None:
                continue
            nl = os.path.abspath(str(x.task.netlist_file))
            if nl in seen and not x.op.get("reuse"):
                bad("R09", "shared-netlist", "runs %s and %s use the same netlist %s" % (seen[nl], x.task.runno, nl))
            seen[nl] = x.task.runno
            for pr in x.progs:
                if pr.text is None:
                    continue
                if x.text is not None:
                    if pr.text != x.text:
                        for k in ("R09", "R13"):
                            bad(k, "wrong-circuit", "run %s simulated a circuit different from the source given" % x.task.runno)
                else:
                    f = (self.asc_facts if self.fmt == "asc" else facts)(pr.text)
                    if f != x.want:
                        d = {k: (x.want.get(k), f.get(k)) for k in set(f) | set(x.want) if f.get(k) != x.want.get(k)}
                        for k in ("R09", "R13"):
                            bad(k, "wrong-circuit", "run %s: (wanted, simulated) %s" % (x.task.runno, dict(list(d.items())[:6])))
            if x.text is None and x.op["op"] in ("run", "run_now"):
                ed = x.task.edits
                got = {}
                if ed is not None:
                    for u in ed:
                        got[u.name] = str(u.value)
                want = {k: str(v) for k, v in x.edits.items()}
                if {k.lower(): v for k, v in got.items()} != {k.lower(): v for k, v in want.items()}:
                    bad("R09", "edits", "run %s records the edits %s, made were %s" % (x.task.runno, got, want))
                for u in ed or []:
                    if u.updates.name == "UpdateComponentValue" and str(x.task.value(u.name)) != str(u.value):
                        bad("R09", "edits-value", "the value of %s in run %s is %r, simulated was %r" % (u.name, x.task.runno, x.task.value(u.name), u.value))
                if x.task.value("R999") is not None:
                    bad("R09", "edits-value", "run %s gives a value of a component without edits" % x.task.runno)
                inf = self.runner.sim_info().get(x.task.runno, {}).get("edits")
                if inf is not None and {u.name.lower(): str(u.value) for u in inf} != {k.lower(): v for k, v in want.items()}:
                    bad("R09", "sim_info-edits", "sim_info of run %s has other edits" % x.task.runno)
        # a program that read something nobody submitted
        for pr in self.progs:
            if pr.text is not None and pr.tok not in self.by_tok:
                for k in ("R09", "R13"):
                    bad(k, "unknown-circuit", "a simulator read a netlist that no run submitted (tok=%s)" % pr.tok)

    def judge_R11(self):
        bad, sim = self.col.bad, self.sim
        pname = EXE[self.flavor] if self.plan["proc_name"] is None else None
        for e in sim.events:
            if e["k"] == "foreign_killed" and (pname is None or e["name"] != pname):
                bad("R11", "foreign-killed", "process %r was killed" % e["name"])
        for w in self.kills:
            if w.get("exc"):
                bad("R11", "abort-raises", "aborting raised %s" % w["exc"])
                continue
            if w.get("t_ret") is None:
                continue
            fired = w.get("explicit") or (w.get("res") is False and w["T"] is not None and w["t_ret"] - w["t_call"] >= w["T"] - 0.01 and w["live1"] + [p for p in w["live0"] if p.p.kills])
            if not fired:
                continue
            if pname is None:
                for pr in self.progs:
                    if pr.p.kills and w["t_call"] <= pr.p.kills[0] <= w["t_ret"] and pr.p.ended <= w["t_ret"]:
                        bad("R11", "killed-without-name", "a process was killed although no process name is configured")
                continue
            for pr in w["live0"]:
                if pr.p.rc is None or (pr.p.ended > w["t_ret"]):
                    bad("R11", "survivor", "simulator process of run tok=%s survived the abort" % pr.tok)
            self.col.hit("abort", len(w["live0"]) and 1)
        for pr in self.progs:
            if pr.p.kills:
                x = self.by_tok.get(pr.tok)
                if x is not None and x.task is not None and (x.th is None or x.th.ended is not None) and x.task.retcode == 0:
                    bad("R11", "killed-reported-ok", "killed run %s reports success" % x.task.runno)

    def judge_R12_R13(self, launched):
        bad, sim = self.col.bad, self.sim
        S = self.slack()
        if self.prop == "R12":
            nthreads = 0
            for x in self.recs:
                if x.outcome is None:
                    bad("R12", "run-stuck", "run() never returned")
                elif x.outcome == "none" and x.T and x.T > 100:
                    bad("R12", "run-none", "run() gave up although all runs end")
                elif x.outcome == "raised" and not self.plan["thread_fail"]:
                    bad("R12", "run-raises", "run() raised %r" % (x.exc,))
            r = self.runner
            for x in launched:
                if x.th is not None and x.th.ended is None:
                    bad("R12", "task-stuck", "the task of run %s never ends" % x.task.runno)
            for x in self.recs:
                if x.outcome == "raised":
                    if any(t.runno == x.runno for t in r.active_tasks):
                        bad("R12", "raised-but-active", "run() raised but its task stays active")
            if r.okSim + r.failSim != len(launched) + 0:
                bad("R12", "accounting", "okSim+failSim=%d for %d launched runs" % (r.okSim + r.failSim, len(launched)))
            # the callback of a run whose environment is healthy still works
            for x in launched:
                if x.op.get("cb") in ("fn",) and x.prog is not None and x.prog.p.rc == 0 and x.prog.spec.get("out", "ok") == "ok" and len(x.cb_calls) != 1:
                    bad("R12", "callback-lost", "callback of healthy run %s called %d times" % (x.task.runno, len(x.cb_calls)))
        if self.prop == "R13":
            for x in self.recs:
                if x.outcome == "raised":
                    if not x.fired and not (x.op.get("missing") and not x.op.get("_retrying")):
                        bad("R13", "raises-without-fault", "run() raised %r without a fault" % (x.exc,))
                    elif not isinstance(x.exc, OSError):
                        bad("R13", "odd-exception", "a disk fault surfaced as %r" % (x.exc,))
                    if x.progs:
                        bad("R13", "raised-but-simulated", "run() raised but a simulator was started")
                    if any(t.runno == x.runno for t in list(self.runner.active_tasks) + list(self.runner.completed_tasks)):
                        bad("R13", "raised-but-recorded", "run() raised but left a task")
                    self.col.hit("prep_fault_raised")
                elif x.op.get("missing") and not x.op.get("_retrying"):
                    bad("R13", "missing-source-accepted", "run() of a missing source returned %s" % x.outcome)
                if x.op.get("_retrying") and x.outcome != "task" and x.outcome != "now":
                    bad("R13", "retry-fails", "the repeated run() failed: %s %r" % (x.outcome, x.exc))
                if x.outcome == "task" and x.fired:
                    self.col.hit("prep_fault_survived")
            if self.runner.okSim + self.runner.failSim != len(launched):
                bad("R13", "accounting", "okSim+failSim=%d, launched %d" % (self.runner.okSim + self.runner.failSim, len(launched)))

    def judge_stuck(self):
        """The run did not come to an end: which promise does that break?"""
        bad = self.col.bad
        st = "%s: %s" % (self.sim.status, self.sim.detail)
        cur = [w for w in self.waits if w["t_ret"] is None]
        if cur:
            bad("R03", "never-returns", "wait_completion never returns; %s" % st)
            if cur[0].get("abort"):
                bad("R11", "abort-never-returns", "wait_completion(abort) never returns; %s" % st)
        for it in self.iters:
            if it["end"] is None:
                bad("R08", "never-ends", "iteration never ends; %s" % st)
        for x in self.recs:
            if x.t_ret is None:
                for k in ("R01", "R07"):
                    bad(k, "run-never-returns", "run() never returns; %s" % st)
                if x.op["op"] == "run_now" or x.T is not None:
                    bad("R06", "run-never-returns", "%s never returns; %s" % (x.op["op"], st))
            if getattr(x, "t_results", None) is not None and getattr(x, "results", None) is None:
                bad("R05", "wait_results-never-returns", "wait_results never returns; %s" % st)
                bad("R04", "wait_results-never-returns", "wait_results never returns; %s" % st)
        bad("R12", "stuck", "the program is stuck; %s" % st)
        bad("R02", "stuck", "the program is stuck; %s" % st)
        if self.kills:
            bad("R11", "stuck", "the program is stuck; %s" % st)


def contains(argv, sub):
    n = len(sub)
    return any(argv[i:i + n] == sub for i in range(len(argv) - n + 1))


def execute(job, scratch):
    w = World(job, scratch)
    w.sim_class, w.exe = common.setup_simulator(w.flavor, scratch)
    if w.plan["proc_name"] is not None:
        w.sim_class.process_name = None if w.plan["proc_name"] == "NONE" else w.plan["proc_name"]
    status = w.sim.run(w.scenario)
    if status in ("deadlock", "horizon", "steps"):
        w.judge_stuck()
    return common.result(w.sim, w.col, w.choices)
