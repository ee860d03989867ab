#!/usr/bin/env python3
"""mutant.py (-p PATCH | -r COMMIT) ID...: runs checks against a scratch copy of /repo with a patch applied or a
commit reverted. Prints one line per check: the property, exit status, what was reported."""
import argparse, os, shutil, subprocess, sys, tempfile, re
ap = argparse.ArgumentParser()
ap.add_argument("-p"); ap.add_argument("-r"); ap.add_argument("--tier", default="quick"); ap.add_argument("--tests", action="store_true")
ap.add_argument("--keep", action="store_true"); ap.add_argument("ids", nargs="*")
a = ap.parse_args()
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = tempfile.mkdtemp(prefix="mut")
repo = d + "/repo"
try:
    subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
    if a.p:
        subprocess.run(["git", "-C", repo, "apply", os.path.abspath(a.p)], check=True)
    if a.r:
        r = subprocess.run("git -C /repo show %s | git -C %s apply -R -3" % (a.r, repo), shell=True, capture_output=True, text=True)
        if r.returncode or "with conflicts" in r.stderr:
            print("revert conflicts", r.stderr[-300:]); sys.exit(2)
    if a.tests:
        r = subprocess.run(". /opt/vp/env.sh; cd %s && go build ./... ; go vet . 2>&1 | head -3; go test ./... 2>&1 | grep -v 'no test files' | head -20" % repo, shell=True, capture_output=True, text=True)
        print(r.stdout, r.stderr[-500:])
    for i in a.ids:
        env = dict(os.environ, VERIF_REPO=repo, VERIF_OUT=d + "/out", VERIF_EVIDENCE=d + "/ev")
        r = subprocess.run([sys.executable, V + "/bin/check.py", i, "--tier", a.tier], env=env, capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if "violation:" in l]
        last = (r.stdout.strip().splitlines() or [""])[-1]
        print(i, "rc", r.returncode, (v[0][:300] if v else last[:300] + r.stderr[-300:]), flush=True)
finally:
    if not a.keep:
        shutil.rmtree(d)
