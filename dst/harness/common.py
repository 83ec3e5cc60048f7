"""Things shared by the harnesses."""
import os
import re
from .. import core, disk, procs, spice

FLAVORS = ("ngspice", "ltspice", "qspice", "xyce")
EXE = {"ngspice": "ngspice", "ltspice": "LTspice.exe", "qspice": "QSPICE64.exe", "xyce": "Xyce"}
RAWEXT = {"ngspice": ".raw", "ltspice": ".raw", "qspice": ".qraw", "xyce": ".raw"}

SOURCE = """* dst circuit
V1 in 0 5
R1 in mid 1k
R2 mid out 2k
R3 out 0 3k
C1 out 0 10n
.param tok=0
.param p1=1
.param p2=2
.tran 1m
.end
"""


def facts(text):
    """What the circuit says, independent of formatting: {element: tokens...}, parameters, completeness."""
    f = {}
    for line in text.replace("\r", "").split("\n"):
        line = line.strip()
        if not line or line.startswith("*"):
            continue
        low = line.lower()
        if low.startswith(".param"):
            for k, v in re.findall(r"([A-Za-z_]\w*)\s*=\s*(\{[^}]*\}|\S+)", line[6:]):
                f[".param " + k.lower()] = v
        else:
            t = line.split()
            f[t[0].lower()] = " ".join(t[1:])
    return f


def simulator_class(flavor):
    if flavor == "ngspice":
        from spicelib.simulators.ngspice_simulator import NGspiceSimulator as S
    elif flavor == "ltspice":
        from spicelib.simulators.ltspice_simulator import LTspice as S
    elif flavor == "qspice":
        from spicelib.simulators.qspice_simulator import Qspice as S
    else:
        from spicelib.simulators.xyce_simulator import XyceSimulator as S
    return S


def setup_simulator(flavor, scratch):
    """A (fake) executable file in the scratch directory and the real simulator class configured for it."""
    bindir = os.path.join(scratch, "bin")
    os.makedirs(bindir, exist_ok=True)
    exe = os.path.join(bindir, EXE[flavor])
    disk.write_file(exe, b"#!/bin/false\n")
    return simulator_class(flavor).create_from(exe), exe


class Collector:
    def __init__(self, sim, prop):
        self.sim = sim
        self.prop = prop
        self.violations = []
        self.probes = {}

    def bad(self, prop, key, msg):
        if len(self.violations) < 200 and not any(v["property"] == prop and v["key"] == key for v in self.violations):
            self.violations.append({"property": prop, "key": key, "msg": str(msg)[:600]})

    def hit(self, name, n=1):
        """'This rare condition was reached' probe."""
        self.probes[name] = self.probes.get(name, 0) + n


def gen_sched(rng, kind="mix"):
    """Swarm choice of scheduling behaviour."""
    k = rng.random()
    if k < 0.15:
        return {"gap": 0, "pick": 0.3}
    if k < 0.45:
        return {"gap": rng.choice([20, 60, 150]), "pick": rng.choice([0.0, 0.5, 1.0])}
    if k < 0.7:
        return {"gap": rng.choice([3, 6, 12]), "pick": rng.choice([0.2, 1.0])}
    return {"gap": rng.choice([15, 40, 120]), "pick": 0.5, "stall_p": rng.choice([0.05, 0.2, 0.5]),
            "stall_max": rng.choice([0.02, 0.3, 1.5])}


def make_choices(job):
    plan = job["plan"]
    if job.get("choices") is not None:
        return core.Choices(table=job["choices"], cfg=plan.get("sched", {}))
    return core.Choices(seed="sched%s/%s" % (plan.get("env_seed", 0), plan.get("sched_seed", "")), cfg=plan.get("sched", {}))


def result(sim, col, choices, extra=None):
    e = getattr(sim, "blamed", None)
    if sim.status == "scenario-error" and e is not None:
        col.bad(col.prop, "exception-" + type(e).__name__, "an operation that has to work raised %r: %s" % (e, sim.detail[-400:]))
    out = {
        "violations": [v for v in col.violations if v["property"] == col.prop],
        "other": sorted({v["property"] + ":" + v["key"] for v in col.violations if v["property"] != col.prop}),
        "status": sim.status,
        "detail": sim.detail,
        "hash": sim.h.hexdigest()[:24],
        "shape": sim.shape_h.hexdigest()[:24],
        "sched": sim.sched_h.hexdigest()[:24],
        "virtual_s": round(sim.now, 3),
        "steps": sim.step,
        "switches": sim.switches,
        "preempts": sim.preempts,
        "events": len(sim.events),
        "faults": sim.faults,
        "probes": col.probes,
        "recorded": choices.recorded,
        "escapes": list(disk.ESCAPES)[:5],
    }
    if sim.status == "scenario-error" and e is None:
        out["harness_error"] = sim.detail
    if extra:
        out.update(extra)
    if os.environ.get("DST_TRACE"):
        out["trace"] = sim.events
    return out


class Worker:
    """A thread of the scenario (a caller of the library)."""

    def __init__(self, sim, name, fn):
        self.exc = None
        self.blamed = False
        self.done = False
        self.sim = sim

        def body():
            try:
                fn()
            except core.SimKilled:
                raise
            except BaseException as e:
                import traceback
                self.exc = traceback.format_exc()
                self.blamed = core.blame(e)
                sim.rec("worker_exc", name=name, exc=type(e).__name__)
            finally:
                self.done = True
        self.t = sim.spawn(name, body)

    def join(self, limit=2000.0):
        end = self.sim.now + limit
        while not self.done and self.sim.now < end:
            self.sim.sleep(0.05)
        return self.done
