"""Worker process: installs the simulated standard library, imports spicelib, runs jobs.

Each job runs in a forked child, so every run starts from the same state, can be
killed, and cannot influence another run.  Jobs and results are JSON lines.
"""
import os
import sys

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)
for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ.setdefault("MPLBACKEND", "Agg")

from dst import core                                  # noqa: E402
core.install()
from dst import disk, procs, net                       # noqa: E402
procs.install()
disk.install()
net.install()

import gc                                              # noqa: E402
import importlib                                       # noqa: E402
import json                                            # noqa: E402
import random                                          # noqa: E402
import select                                          # noqa: E402
import shutil                                          # noqa: E402
import signal                                          # noqa: E402
import tempfile                                        # noqa: E402
import traceback                                       # noqa: E402

HARNESSES = {}


def load():
    import csv, pprint, statistics, uuid, zipfile, xmlrpc.client, xmlrpc.server, http.client  # noqa: F401,E401
    import numpy  # noqa: F401
    import scipy  # noqa: F401
    import encodings.utf_8, encodings.utf_16_le, encodings.cp1252, encodings.latin_1, encodings.utf_16  # noqa: F401,E401
    for m in ("spicelib", "spicelib.sim.sim_runner", "spicelib.sim.sim_stepping", "spicelib.client_server.sim_client",
              "spicelib.client_server.sim_server", "spicelib.sim.tookit.montecarlo", "spicelib.sim.tookit.worst_case",
              "spicelib.sim.tookit.fast_worst_case", "spicelib.sim.tookit.quick_sensitivity_analysis",
              "spicelib.simulators.ngspice_simulator", "spicelib.simulators.ltspice_simulator",
              "spicelib.simulators.qspice_simulator", "spicelib.simulators.xyce_simulator",
              "spicelib.raw.raw_read", "spicelib.raw.raw_write", "spicelib.log.ltsteps", "spicelib.log.qspice_log_reader",
              "spicelib.editor.spice_editor", "spicelib.editor.asc_editor", "spicelib.editor.qsch_editor"):
        importlib.import_module(m)
    import spicelib
    src = os.path.dirname(os.path.abspath(spicelib.__file__))
    if not src.startswith(os.path.abspath(REPO) + os.sep):
        raise SystemExit("spicelib imported from %s instead of %s" % (src, REPO))
    for h in ("runner", "clientserver", "storage", "editors", "batch", "merge", "schematics", "logs", "direct"):
        try:
            m = importlib.import_module("dst.harness." + h)
        except ModuleNotFoundError as e:
            if "dst.harness" in str(e):
                continue
            raise
        HARNESSES[h] = m
    core.install_lines([src + "/sim/", src + "/client_server/", src + "/scripts/run_server"],
                       later=[src + "/raw/", src + "/editor/", src + "/log/", src + "/utils/"])
    core.SRC = src


def seed_environment(seed):
    """All randomness of the code under test comes from the run's seed."""
    import numpy
    import uuid
    r = random.Random("env%d" % seed)
    os.urandom = lambda n: bytes(r.getrandbits(8) for _ in range(n))
    random._urandom = os.urandom
    orig = random.Random.seed

    def seed_fn(self, a=None, version=2):
        if a is None and type(self) is random.Random:
            a = r.getrandbits(64)
        orig(self, a, version)
    random.Random.seed = seed_fn
    random.seed(r.getrandbits(64))
    numpy.random.seed(r.getrandbits(32))
    uuid._generate_time_safe = None
    uuid._UuidCreate = None


def child(job, scratch, wfd):
    core.IN_CHILD = True
    gc.disable()
    devnull = os.open("/dev/null", os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    if not os.environ.get("DST_DEBUG"):
        os.dup2(devnull, 2)
    os.chdir(scratch)
    try:
        seed_environment(job["plan"].get("env_seed", 0))
        out = HARNESSES[job["harness"]].execute(job, scratch)
    except BaseException as e:
        out = {"harness_error": traceback.format_exc()}
        if core.blame(e):
            out = {"violations": [{"property": job["prop"], "key": "exception-" + type(e).__name__, "msg": "an operation that has to work raised %r: %s" % (e, out["harness_error"][-400:])}],
                   "other": [], "status": "scenario-error", "detail": "", "hash": "", "shape": "", "sched": "", "virtual_s": 0, "steps": 0, "switches": 0, "preempts": 0, "events": 0,
                   "faults": {}, "probes": {}, "recorded": [], "escapes": []}
    data = json.dumps(out, default=str).encode()
    off = 0
    while off < len(data):
        off += os.write(wfd, data[off:off + 65536])
    os._exit(0)


def make_plan(job):
    if "plan" not in job:
        rng = random.Random("%s/%s/%s/%s" % (job["harness"], job["prop"], job.get("tier", "quick"), job["seed"]))
        job["plan"] = HARNESSES[job["harness"]].gen_plan(rng, job["prop"], job.get("tier", "quick"))
        job["plan"].setdefault("env_seed", job["seed"])
    return job


def run_job(job, base, n):
    t0 = core.REAL["perf_counter"]()
    make_plan(job)
    scratch = os.path.join(base, "r%06d" % (n % 1000000))
    os.mkdir(scratch)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        child(job, scratch, w)
    os.close(w)
    buf = b""
    limit = job.get("limit", 60)
    end = core.REAL["monotonic"]() + limit
    hung = False
    while True:
        left = end - core.REAL["monotonic"]()
        if left <= 0:
            hung = True
            break
        rl, _, _ = select.select([r], [], [], left)
        if rl:
            b = os.read(r, 1 << 16)
            if not b:
                break
            buf += b
    if hung:
        REAL_KILL(pid, signal.SIGKILL)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    disk.REAL_RMTREE(scratch, ignore_errors=True)
    if hung:
        res = {"hung": limit}
    else:
        try:
            res = json.loads(buf)
        except ValueError:
            res = {"harness_error": "child ended with status %r and %d bytes" % (st, len(buf))}
    res["real_s"] = round(core.REAL["perf_counter"]() - t0, 5)
    res["seed"] = job.get("seed")
    res["id"] = job.get("id")
    if job.get("want_plan") or res.get("violations") or res.get("harness_error") or res.get("hung"):
        res["plan"] = job["plan"]
    else:
        res.pop("recorded", None)
    return res


REAL_KILL = procs.REAL_KILL


def main():
    load()
    gc.collect()
    gc.freeze()
    shm = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    base = tempfile.mkdtemp(prefix="dst-", dir=shm)
    out = os.fdopen(os.dup(1), "wb", buffering=0)
    os.dup2(2, 1)
    n = 0
    try:
        out.write(b'{"ready": true}\n')
        for line in sys.stdin.buffer:
            job = json.loads(line)
            for seed in job.pop("seeds", [job.get("seed")]):
                j = dict(job)
                j["seed"] = seed
                n += 1
                res = run_job(j, base, n)
                out.write(json.dumps(res).encode() + b"\n")
            if "batch" in job:
                out.write(json.dumps({"batch_done": job["batch"]}).encode() + b"\n")
    finally:
        disk.REAL_RMTREE(base, ignore_errors=True)
    os._exit(0)


if __name__ == "__main__":
    main()
