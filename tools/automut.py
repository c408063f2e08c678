#!/usr/bin/python3
"""automut.py FILE N [SEED [LO-HI]]: random small mutations of FILE (a path in the repo), each judged by the checks of that file. Survivors are printed; they're for reviewing by a human"""
import os, sys, re, subprocess, shutil, tempfile, random, io, tokenize

CHECKS = {
    "mrcal/poseutils.py": "C05 C06 C07", "poseutils.c": "C05 C06 C07", "poseutils-uses-autodiff.cc": "C05 C06", "mrcal/projections.py": "C01 C02 C03 C07", "mrcal/model_analysis.py": "C15 C22 C26",
    "uncertainty.c": "C15", "mrcal/synthetic_data.py": "C24", "mrcal/utils.py": "C08 C26 C27 C09 C10 C18", "mrcal/calibration.py": "C27 C25", "mrcal/triangulation.py": "C16", "triangulation.cc": "C16 C11 C10",
    "mrcal/stereo.py": "C18 C30 C19", "stereo.c": "C18 C19", "mrcal/cameramodel.py": "C17 C28", "cameramodel-parser.re": "C17", "mrcal/cahvor.py": "C28", "cahvore.cc": "C01 C03", "mrcal/image_transforms.py": "C21",
    "image.c": "C20", "heap.cc": "C23", "traverse-sensor-links.c": "C23", "opencv.c": "C01 C03", "poseutils-opencv.c": "C05 C06", "mrcal-pywrap.c": "C09 C10 C12 C14 C11 C13 C15", "mrcal-genpywrap.py": "C07 C01 C03 C05 C06 C16 C18 C19 C20",
    "mrcal-cull-corners": "C29", "mrcal-reproject-points": "C29", "mrcal-triangulate": "C29 C30", "mrcal-report-fov": "C29", "mrcal-is-within-valid-intrinsics-region": "C29", "mrcal-rotate-corners": "C29", "mrcal-convert-lensmodel": "C28", "mrcal-from-kalibr": "C28", "mrcal-to-kalibr": "C28",
    "mrcal-from-ros": "C28", "mrcal-to-cahvor": "C28", "mrcal-from-cahvor": "C28",
}
MRCAL = [(0, 3420, "C01 C03 C02 C04"), (3420, 4300, "C09 C10 C11"), (4300, 5900, "C10 C11 C13 C12"), (5900, 9999, "C12 C13 C09 C10 C14 C23")]
OPS = [(" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), ("<", "<="), (">", ">="), (" == ", " != "), (" != ", " == "), (" + ", " - "), (" - ", " + "), ("+ ", "- "), ("- ", "+ "), ("*", "/"), ("/", "*"), ("&&", "||"), ("||", "&&"), (" and ", " or "), (" or ", " and "),
       ("not ", ""), ("!", ""), ("[0]", "[1]"), ("[1]", "[0]"), ("[2]", "[1]"), ("[-1]", "[0]"), ("min(", "max("), ("max(", "min("), ("sin(", "cos("), ("cos(", "sin("), (".x", ".y"), (".y", ".x"), ("True", "False"), ("False", "True"), ("true", "false"), ("false", "true"), ("+=", "-="), ("-=", "+="), ("++", "--"),
       ("0.5", "0.6"), ("2.", "2.1"), ("1.", "1.1"), ("i0", "i1"), ("i1", "i0"), ("width", "height"), ("height", "width"), ("W", "H"), ("H", "W"), ("intrinsics", "extrinsics"), ("transpose(", "("), ("invert_", "("), ("abs(", "("), ("round(", "("), ("floor(", "round("), ("ceil(", "floor("), ("0", "1"), ("1", "0"), ("2", "1"), ("3", "2"),
       ("-2", "-1"), ("-1", "-2")]


def code_lines(path, text):
    """line numbers that contain code; with the column range to touch"""
    L = text.split("\n")
    ok = {}
    if path.endswith(".py") or text.startswith("#!/usr/bin/env python3") or text.startswith("#!/usr/bin/python3"):
        for t in tokenize.generate_tokens(io.StringIO(text).readline):
            if t.type in (tokenize.NAME, tokenize.OP, tokenize.NUMBER) and t.start[0] == t.end[0]:
                a, b = ok.get(t.start[0] - 1, (9999, 0))
                ok[t.start[0] - 1] = min(a, t.start[1]), max(b, t.end[1])
    else:
        s = re.sub(r"/\*.*?\*/", lambda m: re.sub(r"[^\n]", " ", m.group(0)), text, flags=re.S)
        s = re.sub(r"(?m)(//.*|^\s*#.*)$", lambda m: " " * len(m.group(0)), s)
        for i, l in enumerate(s.split("\n")):
            if l.strip():
                ok[i] = len(l) - len(l.lstrip()), len(l.rstrip())
    return [(i, a, b) for i, (a, b) in ok.items() if not re.search(r"raise|MSG|print|assert|BARF|fprintf|import|__doc__|add_argument|help|#include|static|const mrcal.*,$|def |restrict|type *=|^\s*[)}\]]*[,;:]*$|Exception|gp\.|plot|viz|report|VERBOSE|verbose", L[i])]


def mutate(path, text, rnd, lo, hi):
    L = text.split("\n")
    C = [c for c in code_lines(path, text) if lo <= c[0] + 1 <= hi]
    for _ in range(1000):
        i, a, b = rnd.choice(C)
        l = L[i][a:b]
        if rnd.random() < .12 and re.match(r"[\w\.\[\]>\-\(\)*]+ *[-+*/|&]?= *[^=].*;?$", l) and l.count("(") == l.count(")"):
            new = "pass" if path.endswith(".py") or "python3" in L[0] else ";"
            if re.match(r"\w+ \w", l) or "for" in l:
                continue
        else:
            x = [(m.start(), o, n) for o, n in OPS for m in re.finditer(re.escape(o) if not re.match(r"\w", o) or not o[-1].isalnum() else r"(?<![\w.])" + re.escape(o) + r"(?![\w.])", l)]
            if not x:
                continue
            p, o, n = rnd.choice(x)
            new = l[:p] + n + l[p + len(o):]
        M = list(L)
        M[i] = L[i][:a] + new + L[i][b:]
        if M[i] != L[i]:
            return i, L[i], M[i], "\n".join(M)


def main():
    path, N = sys.argv[1], int(sys.argv[2])
    seed = int(sys.argv[3]) if len(sys.argv) > 3 else 0
    lo, hi = (int(x) for x in sys.argv[4].split("-")) if len(sys.argv) > 4 else (0, 10**9)
    rnd = random.Random(seed)
    d = tempfile.mkdtemp(prefix="amut", dir="/tmp")
    try:
        subprocess.check_call("git -C /repo archive HEAD | tar x -C " + d, shell=True)
        p = os.path.join(d, path)
        text = open(p).read()
        n = {}
        for k in range(N):
            i, a, b, new = mutate(path, text, rnd, lo, hi)
            with open(p, "w") as f:
                f.write(new)
            try:
                if path.endswith(".py"):
                    compile(new, path, "exec")
            except SyntaxError:
                n["invalid"] = n.get("invalid", 0) + 1
                continue
            checks = CHECKS[path].split() if path in CHECKS else [c for l, h, c in MRCAL if l <= i + 1 < h][0].split()
            res = "SURVIVED"
            for c in checks:
                try:
                    r = subprocess.run([sys.executable, "/verif/checks/%s.py" % c, "--jobs", os.environ.get("JOBS", "4")], env=dict(os.environ, MRCAL_REPO=d, EVIDENCE="/dev/null"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
                except subprocess.TimeoutExpired:
                    res = c + " timeout"
                    break
                o = r.stdout.decode(errors="replace")
                if r.returncode == 1:
                    res = c
                    break
                if r.returncode:
                    res = c + " rc=%d" % r.returncode + (" (build)" if "error:" in o else "")
                    break
            n[res] = n.get(res, 0) + 1
            if "rc=" in res or res == "SURVIVED" or "timeout" in res:
                print("%s %s:%d\n  %s\n  %s" % (res, path, i + 1, a.strip(), b.strip()), flush=True)
        print(path, n, flush=True)
    finally:
        shutil.rmtree(d)


main()
