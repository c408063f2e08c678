#!/usr/bin/python3
"""mut.py CHECK[,CHECK...] FILE OLD NEW [count]: run checks against a scratch copy of /repo with a textual change.
mut.py CHECK --patch P.diff"""
import os, sys, subprocess, shutil, tempfile
d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
try:
    subprocess.check_call("git -C /repo archive HEAD | tar x -C " + d, shell=True)
    checks = sys.argv[1].split(",")
    if sys.argv[2] == "--patch":
        subprocess.check_call(["git", "apply", "--directory=" + os.path.relpath(d, d) if 0 else "-p1", os.path.abspath(sys.argv[3])], cwd=d)
    else:
        p = os.path.join(d, sys.argv[2])
        s = open(p).read()
        n = s.count(sys.argv[3])
        if n == 0:
            sys.exit("no match")
        print("matches:", n)
        s = s.replace(sys.argv[3], sys.argv[4], int(sys.argv[5]) if len(sys.argv) > 5 else -1)
        open(p, "w").write(s)
    env = dict(os.environ, MRCAL_REPO=d)
    for c in checks:
        r = subprocess.run([sys.executable, "/verif/checks/%s.py" % c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        o = r.stdout.decode(errors="replace").strip().splitlines()
        print(c, "rc=%d" % r.returncode, "\n".join(x[:600] for x in o[-3:]))
finally:
    shutil.rmtree(d)
