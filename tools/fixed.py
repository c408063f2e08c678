#!/usr/bin/python3
"""fixed.py PROP REV..REV: appends the fix: commits of /tmp/w in the range to known-findings.txt"""
import sys, subprocess
L = subprocess.check_output(["git", "-C", "/tmp/w", "log", "--reverse", "--format=%h %s", sys.argv[2]], text=True).splitlines()
with open("/verif/known-findings.txt", "a") as f:
    for l in L:
        h, m = l.split(" ", 1)
        if m.startswith("fix: "):
            f.write("fixed: property=%s %s before the fix this was broken: %s\n" % (sys.argv[1], h, m[5:]))
