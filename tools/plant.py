"""plant.py ID FILE: build seeded/ID from a description (python file defining edits, demo, meta) and confirm it in a scratch copy:
tests pass with the change, demo passes without and fails with it.  Then run the checks named in `checks` against it.
usage: tools/plant.py DESCRIPTION.py [--nochecks]"""
import json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
d = runpy.run_path(sys.argv[1])
env = dict(os.environ, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg")
for bug in d["BUGS"]:
    id = bug["id"]
    if len(sys.argv) > 2 and not sys.argv[2].startswith("--") and id not in sys.argv[2:]:
        continue
    W = tempfile.mkdtemp(prefix="plant-")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", W + "/r"], check=True)
        R = W + "/r"
        out = os.path.join(V, "seeded", id)
        os.makedirs(out, exist_ok=True)
        with open(out + "/demo.py", "w") as f:
            f.write(bug["demo"].lstrip("\n"))
        with open(out + "/demo.sh", "w") as f:
            f.write('#!/bin/sh\n# run with the repository as working directory\nhere=$(cd "$(dirname "$0")" && pwd)\nexport OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$here/demo.py"\n')
        os.chmod(out + "/demo.sh", 0o755)
        json.dump(dict(property=bug["property"], needs=bug["needs"], what_it_breaks=bug["breaks"]), open(out + "/meta.json", "w"), indent=1)
        r0 = subprocess.run(["sh", out + "/demo.sh"], cwd=R, env=env, capture_output=True, text=True, timeout=300)
        for f, old, new in bug["edits"]:
            s = open(f"{R}/{f}").read()
            assert s.count(old) == 1, (id, f, old, s.count(old))
            open(f"{R}/{f}", "w").write(s.replace(old, new))
        with open(out + "/patch.diff", "w") as f:
            f.write(subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True, check=True).stdout)
        r1 = subprocess.run(["sh", out + "/demo.sh"], cwd=R, env=env, capture_output=True, text=True, timeout=300)
        t = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x", "tests"], cwd=R, env=dict(env, PYTHONPATH=R), capture_output=True, text=True)
        ok = r0.returncode == 0 and r1.returncode != 0 and t.returncode == 0
        print(f"{id}: demo clean rc={r0.returncode} patched rc={r1.returncode} tests rc={t.returncode} {'OK' if ok else '*** BAD'}", flush=True)
        if not ok:
            print(r0.stdout[-500:], r0.stderr[-800:], r1.stdout[-300:], r1.stderr[-500:], t.stdout[-900:] if t.returncode else "")
            continue
        if "--nochecks" in sys.argv:
            continue
        for c in bug.get("checks", [bug["property"]]):
            p = subprocess.run([V + "/bin/check", c, "quick"], env=dict(os.environ, VERIF_REPO=R), capture_output=True, text=True, timeout=900)
            v = [x for x in p.stdout.splitlines() if x.startswith("VIOLATION")]
            print(f"   {c}: rc={p.returncode} {len(v)} {v[0][:230] if v else p.stdout[-600:] if p.returncode == 2 else ''}", flush=True)
    finally:
        shutil.rmtree(W, ignore_errors=True)
