"""A simulator without processes for the demonstrations, and a scratch folder."""
import os
import shutil
import sys
import tempfile
import threading
import time
sys.path.insert(0, os.getcwd())
from pathlib import Path
from spicelib.sim.sim_runner import SimRunner
from spicelib.sim.simulator import Simulator
from spicelib.editor.spice_editor import SpiceEditor

TMP = Path(tempfile.mkdtemp(prefix="demo", dir="/dev/shm" if os.path.isdir("/dev/shm") else None))
NET = "* demo\nV1 in 0 1\nR1 in out 1k\nC1 out 0 1u\n.tran 1m\n.end\n"


class Fake(Simulator):
    spice_exe = ["fake"]
    process_name = "fake"
    plan = {}            # stem of the netlist -> {dur, rc, raw, log, exc}
    seen = {}            # stem -> text
    running = 0
    max_running = 0
    lock = threading.Lock()

    @classmethod
    def is_available(cls):
        return True

    @classmethod
    def valid_switch(cls, switch, path=""):
        return [switch]

    @classmethod
    def run(cls, netlist_file, cmd_line_switches=None, timeout=None, stdout=None, stderr=None, cwd=None, exe_log=False):
        p = Path(netlist_file)
        o = cls.plan.get(p.stem, {})
        with cls.lock:
            cls.running += 1
            cls.max_running = max(cls.running, cls.max_running)
        try:
            text = p.read_text()
            cls.seen[p.stem] = text
            time.sleep(o.get("dur", 0.02))
            if o.get("exc"):
                raise o["exc"]
            if o.get("log", True):
                p.with_suffix(".log").write_text("log of " + p.stem)
            if o.get("raw", True):
                p.with_suffix(cls.raw_extension).write_text("raw of " + p.stem)
            return o.get("rc", 0)
        finally:
            with cls.lock:
                cls.running -= 1


def source(name="c.net", text=NET):
    (TMP / "src").mkdir(exist_ok=True)
    p = TMP / "src" / name
    p.write_text(text)
    return p


def runner(**kw):
    kw.setdefault("output_folder", str(TMP / "out"))
    return SimRunner(simulator=Fake, **kw)


def check(cond, msg):
    if not cond:
        done(1, msg)


def done(rc=0, msg=""):
    if msg:
        print(msg)
    sys.stdout.flush()
    shutil.rmtree(TMP, ignore_errors=True)
    os._exit(rc)
