#!/usr/bin/python3
import os, sys, io, re, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Violation, label, trivial, reject, note
pbt.build_and_import()
import numpy as np
from hypothesis import strategies as st
import mrcal
import ref, gens, cli
from cli import run, scratch
from gens import fl, vec

C = pbt.Check("C29", "command-line point and corner tools",
              "Cases: random models (poses, lenses, valid-intrinsics regions), tables of points and of chessboard corners with comments, missing values, culled points, extra columns, empty tables; every "
              "culling mode with thresholds that hit points exactly, filename regular expressions, board rotations, user-given feature matches. The tools are run, and their output is parsed. Oracle: the same "
              "quantity computed by an independent implementation (culling, rotations, point-in-polygon, finite differences) or by the Python API. Non-trivial: at least one point is processed",
              assumptions=["vnlog is installed", "printed numbers have the tools' number of digits"])


def tool(name, args, stdin):
    e = dict(os.environ, LC_ALL="C.UTF-8", PYTHONPATH=cli.REPO)
    p = subprocess.run([os.path.join(cli.REPO, name)] + [str(a) for a in args], input=stdin.encode(), capture_output=True, timeout=100, env=e)
    return cli.Result((p.returncode, p.stdout.decode(), p.stderr.decode()))


def ok(r, what):
    if r.rc != 0:
        raise Violation("%s failed: %s" % (what, r.err[-600:]))
    return r.out


@st.composite
def model(draw, **k):
    return dict(lens=draw(gens.lens(kinds=draw(st.sampled_from([("pinhole", "opencv", "cahvor", "cahvore", "simple"), ("pinhole", "opencv")])), amp=draw(st.sampled_from([0., .3, 1.])), central=True)), rt=draw(gens.rtvec()), size=[draw(st.integers(100, 6000)), draw(st.integers(100, 6000))])


def build(c, **kw):
    return mrcal.cameramodel(intrinsics=(c["lens"]["m"], np.array(c["lens"]["i"])), imagersize=c["size"], rt_cam_ref=np.array(c["rt"]), **kw)


def numbers(s):
    return np.array([float(x) for x in s.replace("-nan", "nan").split()])


########### mrcal-reproject-points
@C.facet("reproject-points", st.fixed_dictionaries(dict(a=model(), b=model(), near=st.booleans(), seed=gens.seeds, n=st.sampled_from([0, 1, 1, 2, 20]), only=st.booleans(), comments=st.booleans())), quick=500, thorough=6000)
def reproject(c):
    r = np.random.default_rng(c["seed"])
    if c["near"]:
        c["b"] = dict(c["b"], rt=list(np.array(c["a"]["rt"]) + r.normal(size=6) * .05))
    A, B = build(c["a"]), build(c["b"])
    q = r.uniform(-.2, 1.2, (c["n"], 2)) * c["a"]["size"]
    fmt = r.choice(["%.17g", "%.3f", "%.9e"])
    rows = [" ".join(fmt % x for x in p) for p in q]
    for i in range(len(rows)):
        if r.random() < .1:
            rows[i] = "- -"
    lines = ["# x y"] + [x for l in rows for x in ([l, "# hello 3 4"] if c["comments"] and r.random() < .4 else [l])]
    if c["comments"]:
        lines = ["## a b"] + lines + [""]
    with scratch():
        A.write("a.cameramodel")
        B.write("b.cameramodel")
        out = ok(run("mrcal-reproject-points", (["--intrinsics-only"] if c["only"] else []) + ["a.cameramodel", "b.cameramodel"], "\n".join(lines) + "\n"), "mrcal-reproject-points")
        A, B = mrcal.cameramodel("a.cameramodel"), mrcal.cameramodel("b.cameramodel")
    got = [l for l in out.splitlines() if l.strip() and not l.startswith("#")]
    leg = [l for l in out.splitlines() if re.match(r"#(?![#!])", l)]
    if leg != ["# x y"]:
        raise Violation("the legend is %s; should be '# x y'" % leg)
    if len(got) != len(rows):
        raise Violation("%d points given; %d reported" % (len(rows), len(got)))
    if c["n"] == 0:
        trivial()
    R = B.Rt_cam_ref()[:3] @ A.Rt_cam_ref()[:3].T
    for i in range(len(rows)):
        g = numbers(got[i].replace("-\t", "nan ")) if "-" not in got[i].split() else np.array((np.nan, np.nan))
        if rows[i] == "- -":
            if "CAHVORE" in B.intrinsics()[0]:
                continue    # projecting nan produces (0,0), with a message
            label("null")
            if np.isfinite(g).any():
                raise Violation("the point %s became %s" % (rows[i], got[i]))
            continue
        p = numbers(rows[i])
        v = mrcal.unproject(p, *A.intrinsics(), normalize=True)
        if not np.isfinite(v).all():
            label("not observable")
            continue
        if not c["only"]:
            v = R @ v
        w = mrcal.project(v, *B.intrinsics())
        if not np.isfinite(w).all():
            label("not projectable")
            continue
        # how sensitive is this?
        eps = 1e-10
        d = np.abs(mrcal.project(v + eps * r.normal(size=(8, 3)), *B.intrinsics()) - w)
        if not np.isfinite(d).all() or d.max() > 1e-3:
            label("degenerate")
            continue
        if not np.abs(g - w).max() < 2e-6 + 20 * d.max() + 1e-9 * np.abs(w).max():
            raise Violation("the point %s is reprojected to %s; should be %s" % (p, g, w))
        label("compared")


########### mrcal-is-within-valid-intrinsics-region
def inside(poly, p):
    """even-odd. -> (inside, distance to the nearest edge)"""
    a, b = poly[:-1], poly[1:]
    d = b - a
    t = np.clip(((p - a) * d).sum(-1) / np.maximum((d * d).sum(-1), 1e-300), 0, 1)
    dist = np.linalg.norm(a + t[:, None] * d - p, axis=-1).min()
    up = (a[:, 1] > p[1]) != (b[:, 1] > p[1])
    with np.errstate(all="ignore"):
        x = a[:, 0] + (p[1] - a[:, 1]) / (b[:, 1] - a[:, 1]) * (b[:, 0] - a[:, 0])
    return bool((up & (x > p[0])).sum() % 2), dist


@C.facet("is-within-valid-intrinsics-region", st.fixed_dictionaries(dict(m=model(), seed=gens.seeds, n=st.sampled_from([0, 1, 2, 10, 60]), corners=st.sampled_from([3, 4, 8, 20]), names=st.sampled_from([["x", "y"], ["x", "y"], ["x[0]", "y[0]"], ["u.v", "uxv"], ["px", "p"], ["y", "x"], ["a+b", "a-b"]]), extra=st.integers(0, 3), null=st.booleans(),
                                                                        comments=st.booleans(), output=st.sampled_from([None, None, "mask", "in.side"]), unicode=st.booleans())), quick=90, thorough=900)
def within(c):
    r = np.random.default_rng(c["seed"])
    th = np.sort(r.uniform(0, 2 * np.pi, c["corners"]))
    size = np.array(c["m"]["size"])
    poly = np.round((np.stack((np.cos(th), np.sin(th)), -1) * r.uniform(.15, .6, (len(th), 1)) + .5) * size, 2)
    poly = np.concatenate((poly, poly[:1]))
    M = build(c["m"], valid_intrinsics_region=poly)
    cols = list(c["names"]) + ["e%d" % i for i in range(c["extra"])]
    order = r.permutation(len(cols))
    legend = [cols[i] for i in order]
    words = ["abc", "1.5", "-", "-3", "x"] + (["καλό", "é"] if c["unicode"] else [])
    rows, q = [], []
    for i in range(c["n"]):
        p = r.uniform(-.1, 1.1, 2) * size
        f = ["%.4f" % p[0], "%.4f" % p[1]] + [str(r.choice(words)) for _ in range(c["extra"])]
        if c["null"] and r.random() < .2:
            k = r.integers(3)
            if k < 2:
                f[k] = "-"
            else:
                f[0] = f[1] = "-"
            if all(x == "-" for x in f):    # vnl-filter drops such rows
                continue
        q.append([np.nan if x == "-" else float(x) for x in f[:2]])
        rows.append([f[i] for i in order])
    sep = r.choice([" ", "  ", "\t"])
    lines = ["# " + " ".join(legend)]
    for f in rows:
        lines.append(sep.join(f))
        if c["comments"] and r.random() < .3:
            lines.append(r.choice(["## comment", "# 1 2 3", ""]))
    if c["comments"]:
        lines = ["#!/bin/thing", "## generated"] + lines
    with scratch():
        M.write("m.cameramodel")
        poly = mrcal.cameramodel("m.cameramodel").valid_intrinsics_region()
        out = ok(tool("mrcal-is-within-valid-intrinsics-region", ["--cols-xy"] + c["names"] + (["--col-output", c["output"]] if c["output"] else []) + ["m.cameramodel"], "\n".join(lines) + "\n"), "mrcal-is-within-valid-intrinsics-region")
    g = [l.split() for l in out.splitlines() if l.strip() and not re.match(r"#[#!]", l)]
    if not g or g[0] != ["#"] + legend + [c["output"] or "is-within-valid-intrinsics-region"]:
        raise Violation("the legend is %s; the columns are %s" % (g[:1], legend))
    g = [l for l in g[1:] if l[0] != "#"]
    if [l[:-1] for l in g] != rows:
        raise Violation("the rows were\n%s\nthe tool wrote\n%s" % (rows, g))
    if not rows:
        trivial()
    for i in range(len(rows)):
        if not np.isfinite(q[i]).all():
            label("null")
            if g[i][-1] not in ("-", "0"):
                raise Violation("the point %s is reported as %s" % (rows[i], g[i][-1]))
            continue
        w, d = inside(poly, np.array(q[i]))
        if d < 1e-6:
            continue
        label("inside" if w else "outside")
        if g[i][-1] != str(int(w)):
            raise Violation("the point %s is reported as %s; should be %d. The region is\n%s" % (rows[i], g[i][-1], w, poly))


########### corner tables
@st.composite
def corners(draw, square=False, missing=True):
    W = draw(st.integers(2, 7))
    return dict(W=W, H=W if square else draw(st.integers(2, 7)), n=draw(st.integers(0, 8)), seed=draw(gens.seeds), missing=draw(st.sampled_from([0., 0., .1, .5])) if missing else 0., noboard=draw(st.sampled_from([0., .3])), comments=draw(st.booleans()),
                grid=draw(st.booleans()), order=draw(st.booleans()), names=draw(st.sampled_from(["frame%03d-cam%s.jpg", "cam%s/%d", "%s/d-%d.x.png", "frame%d-cam%s.jpg"])))


def table(c):
    """-> list of (filename, rows or None); each row is [x,y,level] in text"""
    r = np.random.default_rng(c["seed"])
    data = []
    for i in range(c["n"]):
        cam = "ABDC"[r.integers(4)]
        name = c["names"] % ((i, cam) if c["names"].index("d") < c["names"].rindex("%") and c["names"].startswith("frame") else (cam, i))
        if r.random() < c["noboard"]:
            data.append((name, None))
            continue
        rows = []
        for _ in range(c["W"] * c["H"]):
            x, y = (str(v) for v in r.integers(0, 20, 2) * 50) if c["grid"] else ("%.3f" % v for v in r.uniform(0, 1000, 2))
            l = str(r.choice([0, 0, 1, 2, 3]))
            if r.random() < c["missing"]:
                x, y, l = (("-", "-", "-"), (x, y, "-"))[r.integers(2)]
            rows.append([x, y, l])
        data.append((name, rows))
    if c["order"]:
        data = [data[i] for i in r.permutation(len(data))]
    return data


def write(c, data):
    r = np.random.default_rng(c["seed"] + 1)
    s = ["# filename x y level"]
    if c["comments"]:
        s = ["## generated by something", "##", ""] + s
    for name, rows in data:
        for l in rows if rows is not None else [["-", "-", "-"]]:
            s.append(" ".join([name] + l))
            if c["comments"] and r.random() < .05:
                s.append(r.choice(["## comment", "# a b c d", "", "   "]))
    return s


MODES = st.one_of(st.fixed_dictionaries(dict(mode=st.just("left"), x=st.one_of(st.integers(-1, 21).map(lambda v: v * 50.), fl(-100, 1100)))),
                  st.fixed_dictionaries(dict(mode=st.just("rad"), d=st.one_of(st.integers(0, 15).map(lambda v: v * 50.), st.integers(-15, -1).map(lambda v: v * 50.), fl(-800, 800)), size=st.sampled_from([[1001, 1001], [901, 801], [1000, 600], [301, 401]]), where=st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 20), st.integers(0, 20)).map(lambda v: [v[0] * 50., v[1] * 50.])))),
                  st.fixed_dictionaries(dict(mode=st.just("board"), d=st.one_of(st.sampled_from([0., .5, 1., 1.5, 2., 2.5, 3.]), fl(0, 6)))))


@C.facet("cull", st.tuples(corners(), MODES, st.sampled_from([[], [], [], ["A"], ["camB", "cam[.]"], ["[.]", "A|B"], ["^frame", "nothing"], ["nothing"]])), quick=1500, thorough=20000)
def cull(c):
    c, m, files = c
    data = table(c)
    lines = write(c, data)
    args = []
    for f in files:
        args += ["--filename", f]
    if m["mode"] == "left":
        args += ["--cull-left-of=%r" % m["x"]]
    elif m["mode"] == "rad":
        args += ["--cull-rad-off-center=%r" % m["d"]]
        where = m["where"] if m["d"] >= 0 else None
        if where is None:
            args += ["--imagersize"] + m["size"]
            where = (np.array(m["size"]) - 1) / 2
        else:
            args += ["--where"] + where
        R = m["d"] if m["d"] >= 0 else np.hypot(*m["size"]) / 2 + m["d"]
    else:
        args += ["--cull-rad-off-center-board", repr(m["d"]), "--object-width-n", c["W"]] + ([] if c["W"] == c["H"] and c["seed"] % 2 else ["--object-height-n", c["H"]])
    out = ok(run("mrcal-cull-corners", args, "\n".join(lines) + "\n"), "mrcal-cull-corners").split("\n")
    assert out[-1] == ""
    if not out[0].startswith("## generated"):
        raise Violation("no header line")
    out = out[1:-1]
    if len(out) != len(lines):
        raise Violation("%d input lines, %d output lines" % (len(lines), len(out)))
    want = {}
    ncull = 0
    index = {}
    for i, l in enumerate(lines):
        if l.strip() == "" or l.startswith("#"):
            if out[i] != l:
                raise Violation("the line %r became %r" % (l, out[i]))
            continue
        name, x, y, lev = l.split()
        k = index.setdefault(name, 0)
        index[name] += 1
        cullit = None
        if x == "-" or (files and not any(re.search(f, name) for f in files)):
            cullit = False
        elif m["mode"] == "left":
            cullit = float(x) < m["x"]
        elif m["mode"] == "rad":
            d = np.hypot(float(x) - where[0], float(y) - where[1])
            cullit = d > R if abs(d - R) > 1e-9 else None if d != R else False
        else:
            d = np.hypot(k % c["W"] - (c["W"] - 1) / 2, k // c["W"] - (c["H"] - 1) / 2)
            cullit = d > m["d"] if abs(d - m["d"]) > 1e-9 else None if d != m["d"] else False
            if d == m["d"]:
                label("on the threshold")
        got = out[i].split()
        same = got == l.split()
        gone = got == [name, x, y, "-"]
        if not (gone if cullit else same if cullit is False else gone or same):
            raise Violation("the line '%s' (corner %d) became '%s'. It should%s be culled by %s" % (l, k, out[i], "" if cullit else " not", args))
        if cullit is False and m["mode"] in ("left",) and x != "-" and float(x) == m["x"]:
            label("on the threshold")
        ncull += bool(cullit)
    label("some culled" if ncull else "none culled")
    if not index:
        trivial()


@C.facet("cull-random", st.tuples(corners(), st.one_of(st.sampled_from([0., .5, 1., .25]), fl(0, 1))), quick=150, thorough=2000)
def cull_random(c):
    c, ratio = c
    data = table(c)
    lines = [l for l in write(c, data) if l.strip()]
    r = run("mrcal-cull-corners", ["--cull-random-observations-ratio", repr(ratio), "--object-width-n", c["W"], "--object-height-n", c["H"]], "\n".join(lines) + "\n")
    valid = {n: rows for n, rows in data if rows is not None and any("-" not in l for l in rows)}
    if not valid:
        trivial()
        if r.rc == 0:
            if [l for l in r.out.splitlines() if l.strip() and not l.startswith("#")]:
                raise Violation("there are no boards in the input, but there are in the output:\n%s" % r.out)
        return
    out = [l.split() for l in ok(r, "mrcal-cull-corners").splitlines() if l.strip() and not re.match("##", l)]
    if out[0] != "# filename x y level".split():
        raise Violation("the legend is %s" % out[0])
    got = {}
    last = None
    for l in out[1:]:
        if l[0] != last and l[0] in got:
            raise Violation("rows of %s aren't contiguous" % l[0])
        last = l[0]
        got.setdefault(l[0], []).append(l[1:])
    nfull = {n: rows for n, rows in got.items() if any("-" not in l for l in rows)}
    N = (1 - ratio) * len(valid)
    if not abs(len(nfull) - N) <= .5 + 1e-9:
        raise Violation("there are %d boards; kept %d with the ratio %s" % (len(valid), len(nfull), ratio))
    for n, rows in nfull.items():
        if n not in valid or len(rows) != len(valid[n]):
            raise Violation("%s has %d rows; should be %s" % (n, len(rows), len(valid.get(n, []))))
        for a, b in zip(rows, valid[n]):
            if "-" in b:
                if a[2] != "-":
                    raise Violation("%s: the corner %s became %s" % (n, b, a))
            elif "-" in a or any(float(x) != float(y) for x, y in zip(a, b)):
                raise Violation("%s: the corner %s became %s" % (n, b, a))
    label("kept %s" % ("all" if len(nfull) == len(valid) else "none" if not nfull else "some"))


########### mrcal-rotate-corners
@C.facet("rotate-corners", st.tuples(corners(square=True), st.lists(st.tuples(st.sampled_from(["90", "180", "270"]), st.sampled_from(["A", "camB", "[.]", "C|B", r"\.\.", "0", "x.png$", "^frame0", "nothing", "a b", "[AC]", "*", "q\"", "cam(A|B)"])), max_size=3), st.booleans(), st.sampled_from([0, 0, 0, 0, -1, 1]), st.booleans()), quick=100, thorough=1000)
def rotate(c):
    c, how, fancy, damage, glob = c
    if c["names"].startswith("%s/d") or True:
        data = table(c)
    # a regular expression for each file; at most one rotation for each file
    used = [(d, x) for d, x in how if x != "*"]
    N = c["W"]**2
    if damage:
        rows = [i for i in range(len(data)) if data[i][1] is not None]
        if not rows:
            damage = 0
        else:
            i = rows[c["seed"] % len(rows)]
            data[i] = (data[i][0], data[i][1][:-1] if damage < 0 else data[i][1] + [["1", "2", "0"]])
    files = {}
    for n, _ in data:
        # the documentation doesn't say what happens if several match
        a = {d for d, x in used if re.search(x, n)}
        if len(a) > 1:
            reject()
        files[n] = a.pop() if a else "0"
    args = []
    for d, x in used:
        args += ["--" + d, x]
    if c["W"] != 10 or fancy:
        args = ["--gridn", c["W"]] + args if fancy else args + ["--gridn", c["W"]]
    with scratch():
        if glob:
            for f in ("A", "C", "x", "cam1", "camA", "camB", "."):
                if f != ".":
                    open(f, "w").close()
        lines = write(c, data)
        r = tool("mrcal-rotate-corners", args, "\n".join(lines) + "\n")
    if damage:
        label("wrong number of points")
        if r.rc == 0 and N + damage != 1:
            raise Violation("%s has %d corners; the board has %d. There was no error" % (data[i][0], N + damage, N))
        return
    out = [l.split() for l in ok(r, "mrcal-rotate-corners").splitlines() if l.strip() and not re.match("#[#!]", l)]
    if out[0] != "# filename x y level".split():
        raise Violation("the legend is %s" % out[0])
    got = {}
    last = None
    for l in out[1:]:
        if l[0] == "#":
            continue
        if l[0] != last and l[0] in got:
            raise Violation("rows of %s aren't contiguous" % l[0])
        last = l[0]
        got.setdefault(l[0], []).append(l[1:])
    if set(got) != {n for n, _ in data}:
        raise Violation("the output has the files %s; the input has %s" % (sorted(got), sorted(n for n, _ in data)))
    for n, rows in data:
        if rows is None:
            if got[n] != [["-", "-", "-"]]:
                raise Violation("%s has no board; the output has %s" % (n, got[n]))
            continue
        g = np.array(rows, dtype=object).reshape(c["W"], c["W"], 3)
        # rows of the corners of the board: index (iy,ix)
        w = {"0": g, "90": g.transpose(1, 0, 2)[::-1], "180": g[::-1, ::-1], "270": g.transpose(1, 0, 2)[:, ::-1]}[files[n]]
        label("rotation " + files[n])
        if got[n] != w.reshape(-1, 3).tolist():
            raise Violation("%s, rotated by %s degrees with %s, is\n%s\nshould be\n%s" % (n, files[n], args, got[n], w.reshape(-1, 3).tolist()))
    if not any(rows for _, rows in data):
        trivial()


########### mrcal-report-fov
@C.facet("report-fov", st.lists(model(), min_size=1, max_size=3), quick=300, thorough=4000)
def fov(cc):
    M = [build(c) for c in cc]
    with scratch():
        for i, m in enumerate(M):
            m.write("%d.cameramodel" % i)
        names = ["%d.cameramodel" % i for i in range(len(M))]
        if len(M) == 1 and cc[0]["size"][0] % 2:
            out = ok(run("mrcal-report-fov", ["-"], open(names[0]).read()), "mrcal-report-fov")
        else:
            out = ok(run("mrcal-report-fov", names), "mrcal-report-fov")
        M = [mrcal.cameramodel(n) for n in names]
    parts = re.split(r"=+ .* =+\n", out) if len(M) > 1 else [None, out]
    if len(parts) != len(M) + 1:
        raise Violation("%d models, %d reports" % (len(M), len(parts) - 1))
    for m, s in zip(M, parts[1:]):
        W, H = m.imagersize()
        l, i = m.intrinsics()
        cx, cy = i[2:4] if mrcal.lensmodel_metadata_and_config(l)["has_core"] else ((W - 1) / 2, (H - 1) / 2)
        for name, mean, q in (("Valid radial angle at the centersx:", "Mean FOV vertically:", [(cx, 0), (cx, H - 1)]), ("Valid radial angle at the centersy:", "Mean FOV horizontally:", [(0, cy), (W - 1, cy)]),
                              ("Valid radial angle at the corners:", "Mean FOV corner-corner:", [(0, 0), (0, H - 1), (W - 1, 0), (W - 1, H - 1)])):
            v = np.array([mrcal.unproject(np.array(x, float), l, i) for x in q])
            v = v[np.isfinite(v).all(-1)]
            th = np.degrees(np.arctan2(np.hypot(v[:, 0], v[:, 1]), v[:, 2]))
            if len(v) < len(q):
                label("some undefined")
            x = re.search(re.escape(name) + r"\s*\[(.*)\]degrees", s)
            y = re.search(re.escape(mean) + r"\s*(\S*?)(?:degrees)?\n", s)
            if not x or not y:
                raise Violation("no '%s' or '%s' in the report:\n%s" % (name, mean, s))
            g = numbers(x.group(1))
            if len(g) != len(th) or (len(g) and np.abs(g - th).max() > .0051 + (.0051 * th.max() if "e" in x.group(1) else 0)):
                raise Violation("%s %s; should be %s" % (name, g, th))
            if len(th) == 0:
                label("undefined")
                if y.group(1) != "undefined":
                    raise Violation("%s %s; should be undefined" % (mean, y.group(1)))
            elif not abs(float(y.group(1)) - 2 * th.mean()) < .0051:
                raise Violation("%s %s; should be %s" % (mean, y.group(1), 2 * th.mean()))


########### mrcal-triangulate
@st.composite
def pairs(draw):
    return dict(a=draw(gens.lens(kinds=("pinhole", "opencv", "simple"), amp=draw(st.sampled_from([0., .3])), central=True)), b=draw(gens.lens(kinds=("pinhole", "opencv", "simple"), amp=draw(st.sampled_from([0., .3])), central=True)), rt=draw(gens.rtvec()),
                rel=draw(vec(3, -.15, .15)), t=draw(vec(3, -1, 1)), seed=draw(gens.seeds), range=draw(st.sampled_from([5., 20., 50.])), noise=draw(st.sampled_from([0., .3])), est=draw(st.one_of(st.none(), fl(.85, 1.15))),
                method=draw(st.sampled_from([None, "geometric", "lindstrom", "leecivera-l1", "leecivera-linf", "leecivera-mid2", "leecivera-wmid2"])), stdev=draw(st.sampled_from([None, None, .5, 1.])), corr=draw(st.sampled_from([None, 0., .5, .9])), model1=draw(st.booleans()))


def brackets(s):
    return numbers(s.replace("[", " ").replace("]", " "))


@C.facet("triangulate", pairs(), quick=150, thorough=2500)
def triangulate(c):
    r = np.random.default_rng(c["seed"])
    t = np.array(c["t"])
    if np.linalg.norm(t[:2]) < .2:
        t[0] += 1
    rt01 = np.concatenate((c["rel"], t))
    models = [mrcal.cameramodel(intrinsics=(c["a"]["m"], np.array(c["a"]["i"])), imagersize=(2000, 2000), rt_cam_ref=np.array(c["rt"])),
              mrcal.cameramodel(intrinsics=(c["b"]["m"], np.array(c["b"]["i"])), imagersize=(2000, 2000), rt_ref_cam=mrcal.compose_rt(mrcal.invert_rt(np.array(c["rt"])), rt01))]
    v = r.normal(size=3) * .15 + (0, 0, 1)
    p = v / np.linalg.norm(v) * c["range"]
    base = np.linalg.norm(np.cross(t, p / c["range"]))
    if base < .1:
        reject()
    q0 = mrcal.project(p, *models[0].intrinsics())
    q1 = mrcal.project(mrcal.transform_point_rt(mrcal.invert_rt(rt01), p), *models[1].intrinsics())
    q0, q1 = q0 + r.normal(size=2) * c["noise"], q1 + r.normal(size=2) * c["noise"]
    est = c["range"] * c["est"] if c["est"] else 50.
    args = ["--range-estimate", repr(est)] if c["est"] else []
    method = c["method"] or "leecivera-mid2"
    if c["method"]:
        args += ["--method", c["method"]]
    if method == "lindstrom":
        c["stdev"] = None   # not supported
    if c["stdev"]:
        args += ["--q-observation-stdev", c["stdev"]]
        if c["corr"] is not None:
            args += ["--q-observation-stdev-correlation", c["corr"]]
    if c["model1"]:
        args += ["--make-corrected-model1"]
    with scratch():
        models[0].write("a.cameramodel")
        models[1].write("b.cameramodel")
        models = [mrcal.cameramodel("%s.cameramodel" % x) for x in "ab"]
        R = run("mrcal-triangulate", args + ["a.cameramodel", "b.cameramodel"] + [repr(float(x)) for x in (*q0, *q1)])
        func = getattr(mrcal, "triangulate_" + method.replace("-", "_"))
        X = mrcal.triangulate(np.array((q0, q1)), models, method=func)
        if not np.linalg.norm(X) > 0:
            label("divergent")
            if R.rc == 0:
                raise Violation("the rays are divergent; there was no error")
            return
        if "Sampled rays divergent" in R.err:
            reject()
        out = ok(R, "mrcal-triangulate " + " ".join(map(str, args)))
        if c["model1"]:
            with open("c.cameramodel", "w") as f:
                f.write(out)
            M1 = mrcal.cameramodel("c.cameramodel")

    def find(x):
        m = re.search(x, out)
        if not m:
            raise Violation("couldn't find '%s' in the output:\n%s" % (x, out[:2000]))
        return m.groups()
    num = r"(\[[^\]]*\])"
    v0 = mrcal.unproject(q0, *models[0].intrinsics(), normalize=True)
    Rt = models[0].Rt_ref_cam()

    def close(got, want, tol, what):
        if not np.abs(got - want).max() < tol:
            raise Violation("%s is %s; should be %s" % (what, got, want))
    a, b = find(r"Triangulated point at %s; direction: %s \[camera coordinates\]" % (num, num))
    close(brackets(a), X, 6e-4 + np.abs(X).max() * 1e-7, "the triangulated point (camera)")
    close(brackets(b), v0, 6e-4, "the direction (camera)")
    a, b = find(r"Triangulated point at %s; direction: %s \[reference coordinates\]" % (num, num))
    close(brackets(a), Rt[:3] @ X + Rt[3], 6e-4 + np.abs(Rt[3]).max() * 1e-7 + np.abs(X).max() * 1e-7, "the triangulated point (reference)")
    close(brackets(b), Rt[:3] @ v0, 6e-4, "the direction (reference)")
    a, b = find(r"Range: (\S+) m \(error: (\S+) m\)")
    close(float(a), np.linalg.norm(X), 6e-3 + 1e-6 * c["range"], "the range")
    close(float(b), np.linalg.norm(X) - est, 6e-3 + 1e-6 * c["range"], "the range error")
    a, = find(r"q0 - q0_triangulation = %s" % num)
    close(brackets(a), q0 - mrcal.project(X, *models[0].intrinsics()), 6e-4 + 1e-5, "the reprojection error")
    if c["stdev"]:
        V = mrcal.triangulate(np.array((q0, q1)), models, method=func, q_observation_stdev=c["stdev"], **({} if c["corr"] is None else dict(q_observation_stdev_correlation=c["corr"])))[1]
        l, e = np.linalg.eigh(V)
        s, d = find(r"observation-time noise suggests worst confidence of sigma=(\S+?)m along %s" % num)
        close(float(s), np.sqrt(l[-1]), 6e-4 + 1e-6 * np.sqrt(l[-1]), "the worst sigma")
        if l[-1] > 2 * l[-2]:
            d = brackets(d)
            close(min(np.abs(d - e[:, -1]).max(), np.abs(d + e[:, -1]).max()), 0, 6e-3, "error of the worst direction")
    elif "Uncertainty propagation" in out:
        raise Violation("no uncertainty was requested")
    # sensitivities, by finite differences
    Rt01 = mrcal.compose_Rt(models[0].Rt_cam_ref(), models[1].Rt_ref_cam())

    def rng(q=q1, T=Rt01):
        return np.linalg.norm(func(v0, mrcal.unproject(q, *models[1].intrinsics()), Rt01=T, v_are_local=True))
    R0 = rng()
    g = np.array([(rng(q1 + d) - rng(q1 - d)) / 2e-4 for d in np.eye(2) * 1e-4])
    a, d, b = find(r"Observed-pixel range sensitivity: (\S+)m/pixel \(q1\). Worst direction: %s. Linearized correction: (\S+) pixels" % num)
    s = np.linalg.norm(g)
    close(float(a), s, 1e-3 + .03 * s, "the pixel sensitivity")
    if s > 1e-2:
        if abs(brackets(d) @ g) < s * .99:
            raise Violation("the worst pixel direction is %s; should be %s" % (d, g / s))
        want = -(R0 - est) / s
        close(float(b), want, 1e-3 + .05 * abs(want), "the pixel correction")

    def turn(axis, deg):
        axis = axis / np.linalg.norm(axis)
        T = mrcal.identity_Rt()
        T[:3] = ref.R_from_r(axis * np.radians(deg))
        return T
    n = np.cross(X, Rt01[3])
    n /= np.linalg.norm(n)
    if n[1] < 0:
        n = -n
    for what, axis in ((r"yaw \(rotation in epipolar plane\) sensitivity: (\S+?)m/deg\. Linearized correction: (\S+) degrees of yaw", n), (r"yaw \(cam0 y axis\) +sensitivity: (\S+?)m/deg\. Linearized correction: (\S+) degrees of yaw", np.array((0, 1., 0))),
                       (r"pitch \(tilt of epipolar plane\) sensitivity: (\S+?)m/deg\.()", Rt01[3])):
        g = (rng(T=mrcal.compose_Rt(turn(axis, 1e-5), Rt01)) - rng(T=mrcal.compose_Rt(turn(axis, -1e-5), Rt01))) / 2e-5
        a, b = find("Calibration " + what)
        # which direction is positive isn't documented
        close(abs(float(a)), abs(g), 2e-2 + .02 * abs(g) + 1e-8 / 1e-6 * c["range"]**2 / base, "the sensitivity '%s'" % what)
        if b and abs(g) > 1:
            want = -(R0 - est) / float(a)
            close(float(b), want, 2e-3 + .05 * abs(want), "the correction '%s'" % what)
    g = []
    for d in np.eye(3) * 1e-4:
        x = Rt01.copy()
        x[3] += d
        y = Rt01.copy()
        y[3] -= d
        g.append((rng(T=x) - rng(T=y)) / 2e-4)
    s = np.linalg.norm(g)
    a, d, b = find(r"Calibration translation sensitivity: (\S+)m/m. Worst direction: %s. Linearized correction: (\S+) meters of translation" % num)
    close(float(a), s, 1e-2 + .05 * s, "the translation sensitivity")
    if not c["model1"]:
        label("ok")
        return
    # the corrected model
    if M1.intrinsics()[0] != models[1].intrinsics()[0] or not np.allclose(M1.intrinsics()[1], models[1].intrinsics()[1], rtol=1e-9):
        raise Violation("the corrected model has different intrinsics")
    T = mrcal.compose_Rt(models[0].Rt_cam_ref(), M1.Rt_ref_cam())
    T10, S10 = mrcal.invert_Rt(T), mrcal.invert_Rt(Rt01)
    close(T10[3], S10[3], 1e-6 * (1 + np.abs(c["rt"]).max()), "the corrected translation")
    yaw, = find(r"Optimized yaw +\(rotation in epipolar plane\) correction = (\S+) degrees")
    pitch, = find(r"Optimized pitch +\(tilt of epipolar plane\) +correction = (\S+) degrees")
    dR = np.degrees(np.linalg.norm(ref.r_from_R(S10[:3].T @ T10[:3])))
    if np.hypot(float(yaw), float(pitch)) > 90:
        label("incomplete correction")
        return      # the optimization got lost
    close(dR, np.hypot(float(yaw), float(pitch)), 1.5e-3 + .02 * dR, "the size of the correction")
    a, = find(r"Optimized relative yaw \(1 <- 0\): (\S+) degrees")
    close(float(a), np.degrees(ref.r_from_R(T10[:3])[1]), 6e-4, "the relative yaw")
    X1 = func(v0, mrcal.unproject(q1, *M1.intrinsics()), Rt01=T, v_are_local=True)
    e0, e1 = abs(R0 - est), abs(np.linalg.norm(X1) - est)
    if abs(e0) < 1e-2 * est or np.linalg.norm(X1) == 0:
        label("small correction")
    else:
        label("big correction")
        if not e1 < max(.02 * est, .1 * e0):
            note("range error with the corrected model / before", e1 / e0)
            if not e1 <= e0 * 1.01:
                raise Violation("the range was off by %s. With the corrected model it's off by %s" % (e0, e1))
            label("incomplete correction")


if __name__ == "__main__":
    C.main()
