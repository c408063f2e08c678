#!/usr/bin/python3
"""plant.py ID PROP FILE NEEDS BREAKS OLD NEW [FILE OLD NEW ...], with the demo on stdin: writes /verif/seeded/ID
plant.py --check ID...: confirms the planted bugs, in private copies of /repo mounted over /repo; runs the checks too
(results in /tmp/plant/ID.txt)"""
import os, sys, subprocess, json, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
S = "/verif/seeded"


def make(id, prop, needs, breaks, edits, demo):
    d = tempfile.mkdtemp(prefix="plant", dir="/tmp")
    try:
        subprocess.check_call("git -C /repo archive HEAD | tar x -C %s; cd %s; git init -q; git add -A; git -c user.name=x -c user.email=x commit -qm x" % (d, d), shell=True)
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                sys.exit("%s: %d matches in %s: %s" % (id, s.count(old), f, old[:80]))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "diff"], cwd=d)
    finally:
        shutil.rmtree(d)
    o = os.path.join(S, id)
    os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "wb").write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(o + "/meta.json", "w"), indent=1)
    open(o + "/demo.py", "w").write('import sys\nsys.path.insert(0, "/repo")\nimport numpy as np\nimport mrcal\n' + demo.strip() + "\n")
    open(o + "/demo.sh", "w").write('#!/bin/bash\n# exit 0 if the behaviour is right\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1\nexec python3 "$(dirname "$0")/demo.py"\n')


INNER = r"""
set -e
mount --bind $D/repo /repo
mkdir -p $D/state; mount --bind $D/state /opt/vp/state
cd /repo
bash $SEED/demo.sh > $D/demo0.log 2>&1 && echo "demo clean: ok" || { echo "demo clean: FAILS"; tail -3 $D/demo0.log; exit 1; }
git apply $SEED/patch.diff
bash /opt/vp/build.sh > $D/build.log 2>&1 || { echo "does not build"; tail -5 $D/build.log; exit 1; }
bash $SEED/demo.sh > $D/demo1.log 2>&1 && { echo "demo patched: PASSES"; exit 1; } || { echo "demo patched: ok (fails)"; tail -1 $D/demo1.log; }
if test -z "$NOTESTS"; then
bash /opt/vp/test.sh $D/out.json > $D/test.log 2>&1 || true
python3 - <<'P'
import json,os
D=os.environ["D"]
r=json.load(open(D+"/out.json")); b=json.load(open("/opt/vp/BASELINE.json"))["stable"]
f=[t for t in b if t not in set(r["passed"])]
print("stable tests: ok" if not f else "stable tests: FAIL %d %s" % (len(f), f[:4]))
P
fi
for c in $CHECKS; do
  VERIF_SEED=1 timeout 900 python3 /verif/checks/$c.py > $D/$c.log 2>&1; rc=$?
  echo "check $c: rc=$rc $(grep -h '^facet' $D/$c.log | head -2 | cut -c1-300)"
done
"""


def check(id, checks=None):
    d = tempfile.mkdtemp(prefix="pc", dir="/tmp")
    os.makedirs("/tmp/plant", exist_ok=True)
    try:
        prop = json.load(open("%s/%s/meta.json" % (S, id)))["property"]
        shutil.copytree("/repo", d + "/repo", symlinks=True)
        shutil.copytree(os.path.join(S, id), d + "/seed")
        env = dict(os.environ, D=d, SEED=d + "/seed", CHECKS=checks or prop)
        if not os.path.exists("/verif/checks/%s.py" % prop) and not checks:
            env["CHECKS"] = ""
        r = subprocess.run(["unshare", "-Urm", "bash", "-c", INNER.replace("rc=$?", "rc=$?").replace("2>&1; rc", "2>&1 && true; rc")], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        o = r.stdout.decode(errors="replace")
        open("/tmp/plant/%s.txt" % id, "w").write(o)
        return "== %s (%s)\n%s" % (id, prop, o)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "--check":
        ids = sys.argv[2:] or sorted(os.listdir(S))
        with ThreadPoolExecutor(int(os.environ.get("J", 3))) as ex:
            for r in ex.map(lambda i: check(i, os.environ.get("CHECKS")), ids):
                print(r, flush=True)
    else:
        id, prop, needs, breaks = sys.argv[1:5]
        e = sys.argv[5:]
        make(id, prop, needs, breaks, [tuple(e[i:i + 3]) for i in range(0, len(e), 3)], sys.stdin.read())
