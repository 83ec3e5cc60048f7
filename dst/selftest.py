"""Determinism check of the machinery.

  python -m dst.selftest            a few runs per harness (setup command)
  python -m dst.selftest --large    many seeds, two hash seeds, two worker counts; exit 1 on any difference
"""
import os
import sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from dst.pool import Pool, cpus               # noqa: E402
from dst.registry import PROPS                # noqa: E402


def hashes(props, n, workers, hashseed, base=5000):
    pool = Pool(workers, hashseed=hashseed)
    out = {}
    try:
        jobs = [{"harness": PROPS[p]["harness"], "prop": p, "tier": "quick", "seeds": list(range(base + i, base + min(i + 5, n))), "id": p}
                for p in props for i in range(0, n, 5)]
        for r in pool.run(jobs):
            out[r.get("id"), r.get("seed")] = r.get("harness_error") or (r.get("hash"), r.get("sched"), tuple(sorted(map(str, r.get("other", [])))))
    finally:
        pool.close()
    return out


def main():
    large = "--large" in sys.argv
    props = sorted(PROPS)
    names = [a for a in sys.argv[1:] if not a.startswith("-")]
    if names:
        props = [p for p in props if any(p.startswith(n) for n in names)]
    if not large:
        seen, few = set(), []
        for p in props:
            if PROPS[p]["harness"] not in seen:
                seen.add(PROPS[p]["harness"])
                few.append(p)
        props = few
    n = 200 if large else 5
    a = hashes(props, n, cpus(), 0)
    bad = 0
    variants = [(1 if not large else 3, 1), (cpus(), 12345)] if large else [(2, 7)]
    for w, hs in variants:
        b = hashes(props, n, w, hs)
        for k in a:
            if a[k] != b.get(k):
                bad += 1
                if bad < 10:
                    print("differs:", k, a[k], b.get(k))
        print("%d runs of %s repeated with %d workers and PYTHONHASHSEED=%d: %d differ" % (len(a), ",".join(props), w, hs, bad))
    return 1 if bad and large else 0


if __name__ == "__main__":
    sys.exit(main())
