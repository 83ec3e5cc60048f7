"""Helpers to write and try planted bugs (not used by any check).

mkseed.make(id, prop, [(file, old, new), ...], demo, needs, breaks)   writes seeded/<id>/ when the change is confirmed
python tools/mkseed.py verify [ids]    patch applies, builds, tests pass, demo passes without and fails with it
python tools/mkseed.py catch [ids] [-- check args]    run the property's quick check against each one
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
LIB = os.path.join(V, "tools", "demo_lib.py")


def copy(tmp):
    d = os.path.join(tmp, "repo")
    subprocess.check_call(["cp", "-a", "/repo", d])
    return d


def tests(repo):
    """The stable tests in another copy of the repository."""
    os.makedirs(os.path.join(repo, "unittests", "temp"), exist_ok=True)
    r = subprocess.run([PY, "-m", "pytest", "-q", "--no-header", "--tb=no", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors",
                        "-o", "python_files=test_*.py *_unittest.py", "--ignore=unittests/test_montecarlo.py", "unittests"],
                       cwd=repo, capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=repo))
    return r.stdout.strip().splitlines()[-1] if r.stdout.strip() else r.stderr[-300:]


def demo(folder, repo):
    with tempfile.TemporaryDirectory(dir="/dev/shm") as t:
        dst = os.path.join(t, "demo")
        shutil.copytree(folder, dst, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        r = subprocess.run(["bash", os.path.join(dst, "demo.sh")], cwd=repo, capture_output=True, text=True, timeout=300)
        return r.returncode, (r.stdout + r.stderr)[-600:]


def edit(repo, edits):
    for path, old, new in edits:
        p = os.path.join(repo, path)
        s = open(p, encoding="utf-8", newline="").read()
        if "\r\n" in s:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert s.count(old) == 1, (path, s.count(old), old)
        with open(p, "w", encoding="utf-8", newline="") as f:
            f.write(s.replace(old, new))


def make(sid, prop, edits, demo_src, needs, breaks):
    folder = os.path.join(V, "seeded", sid)
    with tempfile.TemporaryDirectory(dir="/tmp") as tmp:
        repo = copy(tmp)
        os.makedirs(folder, exist_ok=True)
        with open(os.path.join(folder, "demo.py"), "w") as f:
            f.write(demo_src)
        shutil.copy(LIB, folder)
        with open(os.path.join(folder, "demo.sh"), "w") as f:
            f.write('#!/bin/bash\nexec %s "$(dirname "$0")/demo.py"\n' % PY)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(folder, "meta.json"), "w"), indent=1)
        rc, out = demo(folder, repo)
        ok = rc == 0
        if not ok:
            print(sid, "demo FAILS on the unchanged tree:", out)
        edit(repo, edits)
        with open(os.path.join(folder, "patch.diff"), "wb") as f:
            f.write(subprocess.check_output(["git", "-C", repo, "diff"]))
        rc, out = demo(folder, repo)
        if rc == 0:
            print(sid, "demo passes with the change:", out)
            ok = False
        t = tests(repo)
        print(sid, prop, "OK" if ok else "NOT OK", "| with change: rc", rc, out.strip().splitlines()[-1:] , "|", t)
    return ok


def apply(repo, sid):
    return subprocess.run(["git", "-C", repo, "apply", os.path.join(V, "seeded", sid, "patch.diff")], capture_output=True, text=True)


def main():
    what = sys.argv[1]
    rest = sys.argv[2:]
    extra = []
    if "--" in rest:
        extra = rest[rest.index("--") + 1:]
        rest = rest[:rest.index("--")]
    ids = sorted(d for d in os.listdir(os.path.join(V, "seeded")) if not rest or any(d.startswith(r) for r in rest))
    for sid in ids:
        folder = os.path.join(V, "seeded", sid)
        meta = json.load(open(os.path.join(folder, "meta.json")))
        with tempfile.TemporaryDirectory(dir="/tmp") as tmp:
            repo = copy(tmp)
            if what == "verify":
                rc0, out0 = demo(folder, repo)
                a = apply(repo, sid)
                rc1, out1 = demo(folder, repo)
                print(sid, "applies" if a.returncode == 0 else "DOES NOT APPLY " + a.stderr, "demo", rc0, rc1, "|", tests(repo), "" if rc0 == 0 else out0, flush=True)
            else:
                a = apply(repo, sid)
                if a.returncode:
                    print(sid, "DOES NOT APPLY", a.stderr)
                    continue
                r = subprocess.run([PY, "-m", "dst.check", meta["property"], "--no-evidence"] + extra, cwd=V, capture_output=True, text=True,
                                   env=dict(os.environ, DST_REPO=repo, VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
                lines = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                print(sid, meta["property"], "caught" if r.returncode == 1 and lines else "MISSED (%d)" % r.returncode, r.stdout.splitlines()[-1:] if not lines else lines[:1], flush=True)


if __name__ == "__main__":
    main()
