"""Decides one property by seeded search over simulated runs.

  python -m dst.check PROPERTY [--tier quick|thorough] [--seed N] [--runs N] [--workers N]
  python -m dst.check --replay FILE

Exit 0: the property held in every simulated run (listed known findings are printed).
Exit 1: "VIOLATION property=<id> replay=<path>"; the replay file reproduces it.
Exit 2: the machinery failed (never a statement about the property).
"""
import argparse
import json
import os
import re
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if VERIF not in sys.path:
    sys.path.insert(0, VERIF)
from dst.pool import Pool                     # noqa: E402
from dst.registry import PROPS                # noqa: E402

CHUNK = 12
WALL = {"quick": 420.0, "thorough": 3000.0}


def load_known(prop):
    with open(os.path.join(VERIF, "known-findings.json")) as f:
        d = json.load(f)
    return [k for k in d.get("findings", []) if k["property"] == prop]


def known_match(known, v):
    for k in known:
        if v["key"] == k["key"] and re.search(k.get("match", ""), v["msg"]):
            return k
    return None


class Search:
    def __init__(self, prop, tier, seed, runs, workers, quiet=False):
        self.prop = prop
        self.info = PROPS[prop]
        self.tier = tier
        self.seed = seed
        self.known = load_known(prop)
        self.runs = runs or self.info["runs"][0 if tier == "quick" else 1]
        self.pool = Pool(workers)
        self.t0 = time.monotonic()
        self.n = 0
        self.errors = []
        self.viol = {}          # key -> (result, violation)
        self.known_hits = {}
        self.st = {}
        self.probes = {}
        self.faults = {}
        self.other = {}
        self.sched = set()
        self.hist = set()
        self.nontrivial = set()
        self.virtual = 0.0
        self.steps = self.switches = self.preempts = self.events = 0
        self.samples = []
        self.hash_of = {}
        self.hung = []

    def base_seed(self):
        return self.seed * 1_000_003

    def job(self, **kw):
        j = {"harness": self.info["harness"], "prop": self.prop, "tier": self.tier}
        j.update(kw)
        return j

    def absorb(self, r):
        if r.get("harness_error") and not r.get("violations"):
            self.errors.append(r)
            return
        if r.get("hung"):
            self.hung.append(r)
            return
        self.n += 1
        self.st[r["status"]] = self.st.get(r["status"], 0) + 1
        for a, b in r["probes"].items():
            self.probes[a] = self.probes.get(a, 0) + b
        for a, b in r["faults"].items():
            self.faults[a] = self.faults.get(a, 0) + b
        for o in r["other"]:
            self.other[o] = self.other.get(o, 0) + 1
        self.sched.add(r["sched"])
        self.hist.add(r["hash"])
        if r["faults"] or r["preempts"] or r["switches"] > 4:
            self.nontrivial.add(r["shape"])
        self.virtual += r["virtual_s"]
        self.steps += r["steps"]
        self.switches += r["switches"]
        self.preempts += r["preempts"]
        self.events += r["events"]
        if r.get("seed") is not None:
            self.hash_of[r["seed"]] = r["hash"]
        for v in r["violations"]:
            k = known_match(self.known, v)
            if k:
                self.known_hits.setdefault(k["id"], (k, r["seed"], v))
            elif v["key"] not in self.viol or r["events"] < self.viol[v["key"]][0]["events"]:
                self.viol[v["key"]] = (r, v)

    def search(self):
        base = self.base_seed()
        chunks = (self.job(seeds=list(range(base + i, base + min(i + CHUNK, self.runs))), batch=i)
                  for i in range(0, self.runs, CHUNK))
        for r in self.pool.run(chunks, deadline=self.t0 + WALL[self.tier],
                               stop=lambda: bool(self.viol) or len(self.errors) > 20 or len(self.hung) > 1):
            self.absorb(r)

    def one(self, **kw):
        out = list(self.pool.run([self.job(want_plan=True, **kw)]))
        return out[-1] if out else {"harness_error": "no answer"}

    def resample(self, k=16):
        """Runs a sample again (on whichever worker is free) and compares the complete history hashes."""
        seeds = sorted(self.hash_of)
        if not seeds:
            return {"rerun": 0, "different": 0}
        pick = seeds[::max(1, len(seeds) // k)][:k]
        diff = []
        for r in self.pool.run([self.job(seeds=[s]) for s in pick]):
            if not r.get("harness_error") and not r.get("hung") and r["hash"] != self.hash_of[r["seed"]]:
                diff.append(r["seed"])
        return {"rerun": len(pick), "different": len(diff), "different_seeds": diff}

    # ------------------------------------------------------------ minimisation
    def has(self, r, key):
        return any(v["key"] == key and not known_match(self.known, v) for v in r.get("violations", []))

    def minimise(self, r, v, budget):
        import importlib
        import copy
        key = v["key"]
        end = time.monotonic() + budget
        h = self.info["harness"]
        shrink = None
        try:
            shrink = _shrinker(h)
        except Exception:
            pass
        plan, table, best = r["plan"], r.get("recorded") or {}, r
        tried = 0
        # the schedule itself first: does it fail with the plain order?
        x = self.one(plan=plan, choices={}, seed=r["seed"])
        tried += 1
        if self.has(x, key):
            table, best = {}, x
        progress = True
        while progress and shrink and time.monotonic() < end:
            progress = False
            cands = list(shrink(copy.deepcopy(plan)))
            pos = 0
            while pos < len(cands) and time.monotonic() < end:
                group = cands[pos:pos + max(2, self.pool.n // 2)]
                jobs = []
                for gi, c in enumerate(group):
                    modes = [dict(choices={})]
                    if table:
                        modes += [dict(choices=table), {}]
                        modes += [dict(env=e) for e in range(20)]
                    for m in modes:
                        q = copy.deepcopy(c)
                        if "env" in m:
                            q["sched_seed"] = m["env"]
                        j = self.job(plan=q, want_plan=True, id=gi)
                        if "choices" in m:
                            j["choices"] = m["choices"]
                        jobs.append(j)
                hit = None
                for y in self.pool.run(jobs):
                    tried += 1
                    if self.has(y, key) and (hit is None or y["id"] < hit["id"]):
                        hit = y
                if hit is not None:
                    plan, best = hit["plan"], hit
                    table = hit.get("recorded") or {}
                    progress = True
                    break
                pos += len(group)
        # then the schedule decisions
        if table:
            keys = sorted(table, key=int)
            n = 2
            while keys and time.monotonic() < end:
                size = max(1, len(keys) // n)
                parts = [keys[i:i + size] for i in range(0, len(keys), size)]
                jobs = []
                for gi, part in enumerate(parts):
                    left = [k for k in keys if k not in part]
                    jobs.append(self.job(plan=plan, choices={k: table[k] for k in left}, want_plan=True, id=gi))
                hit = None
                for y in self.pool.run(jobs):
                    tried += 1
                    if self.has(y, key) and (hit is None or y["id"] < hit["id"]):
                        hit = y
                if hit is not None:
                    part = parts[hit["id"]]
                    keys = [k for k in keys if k not in part]
                    best = hit
                    n = max(2, n - 1)
                elif size == 1:
                    break
                else:
                    n = min(len(keys), n * 2)
            table = {k: table[k] for k in keys}
        return plan, table, tried

    def report(self, key, budget):
        r, v = self.viol[key]
        plan, table, tried = r["plan"], r.get("recorded") or {}, 0
        try:
            plan, table, tried = self.minimise(r, v, budget)
        except Exception as e:       # an unminimised replay is better than none
            print("minimisation failed: %r" % e, file=sys.stderr)
        fin = replay_run(self.info["harness"], self.prop, self.tier, plan, table)
        if not self.has(fin, key):
            plan, table = r["plan"], r.get("recorded") or {}
            fin = replay_run(self.info["harness"], self.prop, self.tier, plan, table)
            if not self.has(fin, key):
                print("note: the replay of %s does not show it again (%s)" % (key, fin.get("violations")), file=sys.stderr)
        msg = next((w["msg"] for w in fin.get("violations", []) if w["key"] == key), v["msg"])
        doc = {"property": self.prop, "key": key, "message": msg, "harness": self.info["harness"], "tier": self.tier,
               "verif_seed": self.seed, "found_with_run_seed": r["seed"], "history_hash": fin.get("hash"),
               "plan": plan, "schedule": table, "schedule_decisions": len(table), "minimisation_runs": tried,
               "history": fin.get("trace", [])[:400]}
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.json" % (self.prop, re.sub(r"[^A-Za-z0-9]+", "-", key)))
        with open(path, "w") as f:
            json.dump(doc, f, indent=1)
        return path, msg


def _shrinker(h):
    """The harness's plan shrinker, without importing the code under test."""
    import importlib.util
    src = os.path.join(VERIF, "dst", "harness", h + "_plan.py")
    if not os.path.exists(src):
        src = os.path.join(VERIF, "dst", "harness", h + ".py")
    import importlib
    return importlib.import_module("dst.harness." + os.path.basename(src)[:-3]).shrink


def replay_run(harness, prop, tier, plan, table):
    """One run in a fresh worker process."""
    p = Pool(1, env={"DST_TRACE": "1"})
    try:
        out = list(p.run([{"harness": harness, "prop": prop, "tier": tier, "plan": plan, "choices": table, "want_plan": True}]))
        return out[-1] if out else {}
    finally:
        p.close()


def do_replay(path):
    with open(path) as f:
        d = json.load(f)
    r = replay_run(d["harness"], d["property"], d["tier"], d["plan"], d["schedule"])
    if r.get("harness_error") and not r.get("violations"):
        print(r["harness_error"], file=sys.stderr)
        return 2
    for e in r.get("trace", []):
        print(json.dumps(e, default=str))
    got = [v for v in r.get("violations", []) if v["key"] == d["key"]]
    same = r.get("hash") == d["history_hash"]
    print("history hash %s (%s)" % (r.get("hash"), "identical to the recorded one" if same else "recorded: %s" % d["history_hash"]))
    if got:
        print("%s: %s" % (d["key"], got[0]["msg"]))
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    print("not reproduced: the property held in this run")
    return 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--runs", type=int, default=None)
    ap.add_argument("--workers", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    if a.replay:
        return do_replay(a.replay)
    if a.tier not in WALL:
        a.tier = "quick"
    seed = a.seed
    if seed is None:
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = 1
    print("property=%s tier=%s VERIF_SEED=%d" % (a.prop, a.tier, seed), flush=True)
    s = Search(a.prop, a.tier, seed, a.runs, a.workers)
    try:
        s.search()
        search_wall = time.monotonic() - s.t0
        # a run that does not come back in real time is run once more, alone and with a longer limit
        for r in s.hung[:1]:
            again = s.one(plan=r["plan"], seed=r["seed"], limit=100)
            if again.get("hung"):
                v = {"property": s.prop, "key": "never-ends-computing",
                     "msg": "the code under test computes without end (no result after %s s of real time)" % again["hung"]}
                r.update(violations=[v], events=0, recorded={}, status="hung")
                if not known_match(s.known, v):
                    s.viol.setdefault(v["key"], (r, v))
        det = s.resample() if not s.viol else {"rerun": 0, "different": 0}
        paths = []
        for key in sorted(s.viol)[:3]:
            if key == "never-ends-computing":
                r, v = s.viol[key]
                d = os.path.join(VERIF, "evidence", "replay")
                os.makedirs(d, exist_ok=True)
                path = os.path.join(d, "%s-%s.json" % (s.prop, key))
                with open(path, "w") as f:
                    json.dump({"property": s.prop, "key": key, "message": v["msg"], "harness": s.info["harness"], "tier": s.tier,
                               "plan": r["plan"], "schedule": {}, "history_hash": None}, f, indent=1)
                paths.append((key, path, v["msg"]))
                continue
            path, msg = s.report(key, 60.0 if len(paths) == 0 else 20.0)
            paths.append((key, path, msg))
        extra_keys = sorted(s.viol)[3:]
        if not a.no_evidence:
            write_evidence(s, a.tier, seed, det, search_wall, paths)
    finally:
        s.pool.close()
    for kid, (k, rs, v) in sorted(s.known_hits.items()):
        print("KNOWN-FINDING: property=%s %s (run seed %s: %s)" % (s.prop, k["what"], rs, v["msg"]))
    # A listed finding that this batch did not meet is still listed
    for k in s.known:
        if k["id"] not in s.known_hits:
            print("KNOWN-FINDING: property=%s %s (not met in this batch)" % (s.prop, k["what"]))
    print("%d runs, %d distinct histories, %.0f simulated s, %.1f s wall, statuses %s, faults %s" %
          (s.n, len(s.hist), s.virtual, time.monotonic() - s.t0, s.st, s.faults))
    if det.get("different"):
        print("note: %d of %d repeated runs differed: %s" % (det["different"], det["rerun"], det["different_seeds"]), file=sys.stderr)
    if paths:
        for key, path, msg in paths:
            print("%s: %s" % (key, msg))
        for key in extra_keys:
            print("also: %s: %s" % (key, s.viol[key][1]["msg"]))
        for key, path, msg in paths:
            print("VIOLATION property=%s replay=%s" % (s.prop, path))
        return 1
    if s.errors:
        for e in s.errors[:3]:
            print("harness error (run seed %s): %s" % (e.get("seed"), str(e.get("harness_error"))[-3000:]), file=sys.stderr)
        return 2
    if s.hung and not s.viol:
        print("a run exceeded its real-time limit but ended when repeated: seeds %s" % [r["seed"] for r in s.hung], file=sys.stderr)
        if s.n == 0:
            return 2
    if s.n == 0:
        print("no run completed", file=sys.stderr)
        return 2
    return 0


def write_evidence(s, tier, seed, det, search_wall, paths):
    # written-out cases: two ordinary ones and the smallest plans that met a rare condition
    samples = []
    for sd in sorted(s.hash_of)[:2]:
        r = s.one(seed=sd)
        samples.append({"run_seed": sd, "plan": r.get("plan"), "outcome": r.get("status"), "history_hash": r.get("hash"),
                        "virtual_s": r.get("virtual_s"), "faults": r.get("faults"), "probes": r.get("probes")})
    hours = max(search_wall, 1e-6) / 3600
    ev = {
        "property": s.prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": s.n,
            "distinct_nontrivial": len(s.nontrivial),
            "rule": s.info["rule"],
            "samples": samples,
            "runs_per_hour": int(s.n / hours),
            "seeds_per_hour": int(s.n / hours),
            "seeds": "%d..%d" % (s.base_seed(), s.base_seed() + s.runs - 1),
            "simulated_seconds": round(s.virtual, 1),
            "statuses": s.st,
            "faults_injected": s.faults,
            "rare_conditions_reached": s.probes,
            "distinct_interleavings": len(s.sched),
            "interleaving_measure": "distinct sequences of (step, thread given the processor) over a run",
            "distinct_histories": len(s.hist),
            "scheduler_steps": s.steps, "context_switches": s.switches, "preemptions": s.preempts, "history_events": s.events,
            "components_real": s.info["real"],
            "components_simulated": s.info["stub"],
            "repeat_check": det,
            "known_findings_met": sorted(s.known_hits),
            "workers": s.pool.n,
            "oracle_side_notes": s.other,
        },
        "assumptions": s.info["assumptions"],
        "wall_s": round(time.monotonic() - s.t0, 2),
        "violations": len(s.viol),
    }
    if paths:
        ev["coverage"]["violations_reported"] = [{"key": k, "replay": p, "message": m} for k, p, m in paths]
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.tmp" % s.prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(d, s.prop + ".json"))


if __name__ == "__main__":
    sys.exit(main())
