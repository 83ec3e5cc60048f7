"""A pool of worker processes that run simulation jobs (one forked child per run)."""
import json
import os
import selectors
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def cpus():
    try:
        return max(1, min(16, len(os.sched_getaffinity(0))))
    except AttributeError:
        return max(1, min(16, os.cpu_count() or 1))


class Pool:
    def __init__(self, n=None, hashseed="0", env=None):
        self.n = n or cpus()
        e = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1", PYTHONPATH="")
        e.update(env or {})
        self.env = e
        self.sel = selectors.DefaultSelector()
        self.w = []
        self.idle = []
        for _ in range(self.n):
            self._spawn()

    def _spawn(self):
        p = subprocess.Popen([sys.executable, "-m", "dst.worker"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             cwd=VERIF, env=self.env, start_new_session=True)
        os.set_blocking(p.stdout.fileno(), False)
        st = {"p": p, "buf": b"", "ready": False, "job": None}
        self.w.append(st)
        self.sel.register(p.stdout, selectors.EVENT_READ, st)

    def _send(self, st, job):
        st["job"] = job
        st["p"].stdin.write(json.dumps(job).encode() + b"\n")
        st["p"].stdin.flush()

    def run(self, jobs, deadline=None, stop=None):
        """jobs: iterable of job dicts.  Yields results as they come.  stop() -> True ends the feeding."""
        it = iter(jobs)
        exhausted = False
        busy = sum(1 for s in self.w if s["job"])

        def feed(st):
            nonlocal exhausted, busy
            if exhausted or (deadline and time.monotonic() > deadline) or (stop and stop()):
                exhausted = True
                return
            try:
                j = next(it)
            except StopIteration:
                exhausted = True
                return
            j = dict(j)
            j.setdefault("batch", 1)
            busy += 1
            self._send(st, j)
        for st in self.w:
            if st["ready"] and not st["job"]:
                feed(st)
        while True:
            if not busy and (exhausted or not self.w):
                return
            for key, _ in self.sel.select(1.0):
                st = key.data
                try:
                    b = os.read(st["p"].stdout.fileno(), 1 << 20)
                except BlockingIOError:
                    continue
                if not b:
                    self.sel.unregister(st["p"].stdout)
                    self.w.remove(st)
                    rc = st["p"].wait()
                    if st["job"]:
                        busy -= 1
                        yield {"harness_error": "worker died with status %s" % rc, "seed": None}
                    elif not st["ready"]:
                        yield {"harness_error": "worker failed to start (status %s)" % rc, "seed": None}
                    if not self.w:
                        exhausted = True
                    continue
                st["buf"] += b
                while b"\n" in st["buf"]:
                    line, st["buf"] = st["buf"].split(b"\n", 1)
                    r = json.loads(line)
                    if "ready" in r:
                        st["ready"] = True
                        feed(st)
                    elif "batch_done" in r:
                        st["job"] = None
                        busy -= 1
                        feed(st)
                    else:
                        yield r

    def close(self):
        for st in self.w:
            try:
                st["p"].stdin.close()
            except OSError:
                pass
        for st in self.w:
            try:
                st["p"].wait(5)
            except subprocess.TimeoutExpired:
                st["p"].kill()
                st["p"].wait()
        self.w = []
