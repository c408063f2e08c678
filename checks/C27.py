#!/usr/bin/python3
import os, sys, io, contextlib, tempfile, shutil, re, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Violation, label, trivial, reject, note
pbt.build_and_import()
import numpy as np
from hypothesis import strategies as st
import mrcal
import ref, gens
from gens import fl, vec

C = pbt.Check("C27", "chessboard corner tables",
              "Cases: tables of corners of 1-4 cameras, any frame numbers (padded or not, sparse, huge), several naming schemes (directories, prefixes, suffixes) and the globs that select "
              "them, images in any order, missing boards and corners, decimation levels or weights, exclusions, comments, prefixes and directories for the images; from a file (in any "
              "directory), an open file, or a detector (a stand-in); damaged tables; detector failures. Oracle: the data the table was made from. Non-trivial: at least one board is expected",
              assumptions=["each image appears once in the table", "mrgingham isn't installed: a stand-in that prints the table is used in its place"])

SCHEMES = [  # name of frame F of camera C, and its glob
    ("frame{F}-cam{C}.jpg", "frame*-cam{C}.jpg"), ("cam{C}/frame{F}.png", "cam{C}/*.png"), ("dir7/cam{C}-{F}.jpg", "cam{C}-*.jpg"), ("/abs/dir/c{C}/x{F}y.png", "/abs/dir/c{C}/*.png"),
    ("2020-{F}-cam{C}.tif", "*-cam{C}.*"), ("camera{C}_1_{F}_22.jpg", "camera{C}_1_*_22.jpg"), ("{F}.{C}", "*.{C}"), ("a/b/../im{F}-{C}.png", "./a//im*-[{C}].png"), ("1{F}2-cam{C}.jpg", "1*2-cam{C}.jpg")]


@st.composite
def tables(draw):
    Ncam = draw(st.integers(1, 4))
    scheme = draw(st.integers(0, len(SCHEMES) - 1))
    W, H = draw(st.integers(2, 6)), draw(st.integers(2, 6))
    kind = draw(st.sampled_from(["seq", "seq", "sparse", "padded", "huge", "ones"]))
    n = draw(st.integers(2, 12))
    if kind == "seq":
        f0 = draw(st.integers(0, 120))
        frames = [str(f0 + i) for i in range(n)]
    elif kind == "ones":
        frames = draw(st.sampled_from([["1", "11"], ["1", "11", "111"], ["5", "55"], ["0", "100"], ["10", "1010"], ["1", "21"], ["12", "1212"]]))
    else:
        v = sorted(draw(st.sets(st.integers(0, 10**12 if kind == "huge" else 5000), min_size=n, max_size=n)))
        frames = [("%05d" % x if kind == "padded" else "%d" % x) for x in v]
    return dict(Ncam=Ncam, scheme=scheme, W=W, H=H, frames=frames, seed=draw(gens.seeds), order=draw(st.sampled_from(["frame", "camera", "shuffle", "shuffle", "reverse"])),
                density=draw(st.sampled_from([1., 1., .7, .4])), noboard=draw(st.sampled_from([0., .2])), missing=draw(st.sampled_from([0., .2, .6])), kind=draw(st.sampled_from(["level", "level", "weight", None])),
                columns=draw(st.sampled_from([3, 3, 3, 2])), min=draw(st.one_of(st.none(), st.none(), st.integers(0, 30))), exclude=draw(st.sampled_from([0., 0., .3])), comments=draw(st.booleans()),
                where=draw(st.sampled_from(["cwd", "dir", "abs", "fd", "fd", "mrgingham"])), images=draw(st.booleans()), paths=draw(st.sampled_from([None, None, "prefix", "directory"])),
                unrelated=draw(st.booleans()))


def build(c):
    """-> rows [(file,[lines])], dict file -> (frame,camera,grid or None)"""
    r = np.random.default_rng(c["seed"])
    name, glob = SCHEMES[c["scheme"]]
    W, H = c["W"], c["H"]
    files = {}
    for f in c["frames"]:
        for cam in range(c["Ncam"]):
            if r.random() < c["density"]:
                files[name.format(F=f, C=cam)] = (f, cam)
    if c["unrelated"]:
        for i in range(3):
            files["other%d.zzz" % i] = (None, None)
    order = list(files)
    if c["order"] == "camera":
        order.sort(key=lambda f: str(files[f][1]))
    elif c["order"] == "reverse":
        order = order[::-1]
    elif c["order"] == "shuffle":
        order = [order[i] for i in r.permutation(len(order))]
    rows, data = [], {}
    for f in order:
        lines = []
        if r.random() < c["noboard"]:
            rows.append((f, ["%s - -%s" % (f, " -" if c["columns"] == 3 else "")]))
            data[f] = files[f] + (None,)
            continue
        g = np.full((H * W, 3), -1.)
        for i in range(H * W):
            x, y = r.uniform(0, 4000, 2)
            if r.random() < .02:
                x = 0.
            x, y = "%.3f" % x, "%.3f" % y
            sep = r.choice([" ", "  ", "\t"]) if c["comments"] else " "
            ok = True
            if r.random() < c["missing"]:
                how = r.integers(5)
                ok = False
                if how == 0:
                    x, y, w = "-", "-", "-"
                elif how == 1:
                    x, y, w = "-", y, "0"
                elif how == 2:
                    x, y, w = x, "-", "1"
                elif how == 3:
                    x, y, w = "-1", y, "0"
                else:
                    w = r.choice(["-", "-1", "-0.5"] + (["0", "0.0"] if c["kind"] == "weight" else []))
                    ok = c["columns"] == 2 or c["kind"] is None      # then this is ignored
                    if ok:
                        weight = 1.
            else:
                if c["kind"] == "weight":
                    w = "%.6g" % 10**r.uniform(-3, 2)
                    weight = float(w)
                else:
                    w = str(r.integers(0, 6))
                    weight = .5**int(w)
                if c["kind"] is None or c["columns"] == 2:
                    weight = 1.
            if ok:
                g[i] = float(x), float(y), weight
            lines.append(sep.join([f, x, y] + ([w] if c["columns"] == 3 else [])))
        rows.append((f, lines))
        data[f] = files[f] + (g.reshape(H, W, 3),)
    return rows, data, [glob.format(C=cam) for cam in range(c["Ncam"])]


def text(c, rows):
    r = np.random.default_rng(c["seed"] + 1)
    s = ["# filename x y" + (" level" if c["columns"] == 3 else "")]
    if c["comments"]:
        s = ["## generated with something", "#!/usr/bin/thing"] + s
    for f, l in rows:
        for x in l:
            if c["comments"] and r.random() < .05:
                s.append(str(r.choice(["# comment", "  ## another", "#"])))
            s.append(x)
    return "\n".join(s) + "\n"


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="c27")
    cwd, path = os.getcwd(), os.environ["PATH"]
    try:
        os.chdir(d)
        yield d
    finally:
        os.chdir(cwd)
        os.environ["PATH"] = path
        shutil.rmtree(d)


def stub(d, table, rc=0):
    os.mkdir(d + "/bin")
    open(d + "/bin/table", "w").write(table)
    open(d + "/bin/mrgingham", "w").write("#!/bin/sh\nprintf '%%s\\n' \"$@\" > %s/bin/args\ncat %s/bin/table\nexit %d\n" % (d, d, rc))
    os.chmod(d + "/bin/mrgingham", 0o755)
    os.environ["PATH"] = d + "/bin:" + os.environ["PATH"]


def setup(c, d, T):
    """-> where to read the table from, the directory of the table or None"""
    if c["where"] == "fd":
        return io.StringIO(T), None
    if c["where"] == "mrgingham":
        stub(d, T)
        return "out.vnl" if c["seed"] % 2 else None, "" if c["seed"] % 2 else None
    if c["where"] == "cwd":
        p, cd = "corners.vnl", ""
    elif c["where"] == "dir":
        os.mkdir("sub")
        p, cd = "sub/corners.vnl", "sub"
    else:
        os.mkdir("abs")
        p, cd = d + "/abs/corners.vnl", d + "/abs"
    open(p, "w").write(T)
    return p, cd


def canonical(c, f, cd, d):
    if c["paths"] == "prefix":
        return "pre/fix/" + f
    if c["paths"] == "directory":
        return "/some/where/" + os.path.basename(f)
    if cd is not None and not f.startswith("/") and not os.path.exists(f):
        return os.path.join(cd, f)
    return os.path.normpath(f)


def call(c, src, globs, exclude):
    kw = dict(weight_column_kind=c["kind"])
    if c["min"] is not None:
        kw["Npoint_observations_per_board_min"] = c["min"]
    if c["paths"] == "prefix":
        kw["image_path_prefix"] = "pre/fix"
    if c["paths"] == "directory":
        kw["image_directory"] = "/some/where"
    if exclude:
        kw["exclude_images"] = exclude
    with contextlib.redirect_stderr(io.StringIO()):
        return mrcal.compute_chessboard_corners(c["W"], c["H"], globs_per_camera=globs, corners_cache_vnl=src, **kw)


def constrain(c):
    """only some combinations make sense"""
    if SCHEMES[c["scheme"]][0].startswith("/"):
        c = dict(c, paths=None)
    if c["paths"] == "directory" and "/" in SCHEMES[c["scheme"]][1]:
        c = dict(c, paths=None)
    if c["where"] == "mrgingham":
        c = dict(c, H=c["W"])
        if c["kind"] == "weight":
            c = dict(c, kind="level")
    return c


@C.facet("table", tables(), quick=2500, thorough=60000, shards=4)
def table(c):
    c = constrain(c)
    rows, data, globs = build(c)
    r = np.random.default_rng(c["seed"] + 2)
    with scratch() as d:
        T = text(c, rows)
        src, cd = setup(c, d, T)
        if c["images"] and cd is not None:      # the images are there (if only some were, their directories wouldn't be consistent)
            for f in data:
                if not f.startswith("/"):
                    os.makedirs(os.path.dirname(f) or ".", exist_ok=True)
                    if "/.." in f:
                        os.makedirs(os.path.dirname(f.split("/..")[0] + "/x"), exist_ok=True)
                    open(f, "w").close()
        exclude = set(f for f in data if r.random() < c["exclude"])
        minpoints = c["min"] if c["min"] is not None else 2 * min(c["W"], c["H"])
        want = []
        for f, (frame, cam, g) in data.items():
            if cam is None or f in exclude or g is None or np.sum(g[..., 2] > 0) < minpoints:
                continue
            want.append((canonical(c, f, cd, d), frame, cam, g))
        # exactly the minimum: the documentation says these are kept, the tests say they're not
        either = [w for w in want if np.sum(w[3][..., 2] > 0) == minpoints]
        most = [sum(w[2] == cam for w in want) for cam in range(c["Ncam"])]
        n = [a - sum(w[2] == cam for w in either) for cam, a in enumerate(most)]
        need = 2 if c["Ncam"] > 1 else 1
        toofew = min(most) < need
        # frame numbers are what varies in the file names of a camera
        name = SCHEMES[c["scheme"]][0]
        pre, post = name.split("{F}")[0], name.split("{F}")[1]
        digits = lambda s, rev: "".join(itertools.takewhile(str.isdigit, s[::-1] if rev else s))
        key = lambda fr: int(digits(pre, True)[::-1] + fr + digits(post, False))
        label("%s %s%s" % (c["where"], c["kind"], " too few" if toofew else ""))
        try:
            obs, ifc, files = call(c, src, globs, exclude)
        except Exception as e:
            if toofew or min(n) < need:
                return
            raise
        if toofew:
            raise Violation("a camera has too few images (%s), but there's no error" % most)
        want = [w for w in want if w[0] in files or not any(w is x for x in either)]
        if c["where"] == "mrgingham" and src is not None:
            if open(src).read() != T:
                raise Violation("the corners cache isn't what the detector reported")
            obs2, ifc2, files2 = call(c, src, globs, exclude)
            if not (np.array_equal(obs, obs2) and np.array_equal(ifc, ifc2)):
                raise Violation("reading the saved corners produces something else")
    if c["Ncam"] > 1 or len(want) > 1:
        want.sort(key=lambda w: (key(w[1]), w[2]))
    frames = sorted(set(key(w[1]) for w in want)) if c["Ncam"] > 1 or len(want) > 1 else [key(want[0][1])]
    if obs.shape != (len(want), c["H"], c["W"], 3) or ifc.shape != (len(want), 2) or len(files) != len(want):
        raise Violation("expected %d boards; have shapes %s, %s, %d files" % (len(want), obs.shape, ifc.shape, len(files)))
    if ifc.dtype != np.int32:
        raise Violation("the indices must be int32; have %s" % ifc.dtype)
    for i, (f, frame, cam, g) in enumerate(want):
        if files[i] != f:
            raise Violation("observation %d must come from %s, but have %s" % (i, f, files[i]))
        if list(ifc[i]) != [frames.index(key(frame)), cam]:
            raise Violation("%s must be (frame,camera) = %s; have %s" % (f, [frames.index(key(frame)), cam], ifc[i]))
        v = g[..., 2] > 0
        if not np.array_equal(obs[i, ..., 2] > 0, v) or np.any(obs[i, ..., 2][~v] >= 0):
            raise Violation("%s: valid corners\n%s\nshould be\n%s" % (f, obs[i, ..., 2], g[..., 2]))
        if not np.allclose(obs[i][v], g[v], rtol=1e-12, atol=0):
            raise Violation("%s: corners\n%s\nshould be\n%s" % (f, obs[i][v], g[v]))


DAMAGE = ["missing row", "missing rows", "extra row", "split", "short line", "long line", "not a number", "no values", "truncated", "duplicate image", "level not a number", "kind", "blank"]


@C.facet("damaged", st.tuples(tables(), st.sampled_from(DAMAGE)), quick=1500, thorough=30000, shards=2)
def damaged(case):
    c, how = case
    c = constrain(dict(c, where="fd" if c["where"] == "mrgingham" else c["where"], min=1, missing=0., noboard=0., exclude=0., unrelated=False, density=1., columns=3 if "level" in how else c["columns"]))
    if how == "level not a number" and c["kind"] is None:
        c = dict(c, kind="level")
    rows, data, globs = build(c)
    r = np.random.default_rng(c["seed"] + 3)
    i = r.integers(len(rows))
    f, L = rows[i]
    if how == "missing row":
        del L[r.integers(len(L))]
    elif how == "missing rows":
        k = r.integers(2, len(L))
        L[:] = L[-k:] if r.random() < .5 else L[:k]
    elif how == "extra row":
        L.insert(r.integers(len(L)), L[r.integers(len(L))])
    elif how == "split":
        if len(rows) < 2 or len(L) < 4:
            reject()
        k = r.integers(2, len(L) - 1)
        rows.append((f, L[k:]))
        del L[k:]
        if i == len(rows) - 2:
            rows[-1], rows[0] = rows[0], rows[-1]
        at = [j for j, (g, _) in enumerate(rows) if g == f]
        if at[1] == at[0] + 1:
            reject()
    elif how in ("short line", "long line", "not a number", "no values", "level not a number", "blank"):
        k = r.integers(len(L))
        w = L[k].split()
        w = {"short line": w[:2], "long line": w + ["1"] * (6 - len(w)), "not a number": [w[0], "12x", w[2]] + w[3:] if r.random() < .5 else w[:2] + ["a"] + w[3:], "no values": w[:1], "blank": [],
             "level not a number": w[:3] + ["x"]}[how]
        L[k] = " ".join(w)
    elif how == "duplicate image":
        rows.insert(r.integers(len(rows) + 1), (f, list(L)))
    with scratch() as d:
        T = text(c, rows)
        if how == "truncated":
            # cut the table in the middle of a board
            lines = T.splitlines()
            body = [j for j, l in enumerate(lines) if not l.strip().startswith("#")]
            n = c["W"] * c["H"]
            k = r.integers(len(rows)) * n + r.integers(2, n)
            T = "\n".join(lines[:body[k]]) + "\n"
        if how == "kind":
            c = dict(c, kind="levels")
        src, cd = setup(c, d, T)
        label(how)
        try:
            call(c, src, globs, set())
        except Exception:
            return
        raise Violation("the table is damaged (%s), but there was no error:\n%s" % (how, T))


@C.facet("detector", st.fixed_dictionaries(dict(t=tables(), how=st.sampled_from(["fails", "fails late", "missing", "jobs", "not square", "weight", "exists"]), cache=st.booleans())), quick=150, thorough=3000)
def detector(case):
    """Faults while running the detector: an error, and no cache is left behind"""
    c = constrain(dict(case["t"], where="mrgingham", min=1, missing=0., noboard=0., exclude=0., unrelated=False, density=1.))
    how = case["how"]
    rows, data, globs = build(c)
    T = text(c, rows)
    label(how)
    with scratch() as d:
        src = "cache.vnl" if case["cache"] else None
        kw = {}
        W, H = c["W"], c["H"]
        if how == "fails":
            stub(d, "# filename x y level\n", 1)
        elif how == "fails late":
            stub(d, T, 3)
        elif how == "missing":
            os.environ["PATH"] = d
        else:
            stub(d, T)
        if how == "jobs":
            kw["jobs"] = -1
        if how == "not square":
            H = W + 1
        if how == "weight":
            kw["weight_column_kind"] = "weight"
        else:
            kw["weight_column_kind"] = c["kind"]
        if how == "exists":
            open("cache.vnl", "w").write("# filename x y level\n")
            src = "cache.vnl"
        before = set(os.listdir(d))
        try:
            with contextlib.redirect_stderr(io.StringIO()):
                mrcal.compute_chessboard_corners(W, H, globs_per_camera=globs, corners_cache_vnl=src, Npoint_observations_per_board_min=1, **kw)
        except Exception:
            pass
        else:
            raise Violation("no error")
        if set(os.listdir(d)) != before or (how == "exists" and open("cache.vnl").read() != "# filename x y level\n"):
            raise Violation("a failure left something behind: %s" % (set(os.listdir(d)) - before))
        if how in ("jobs", "not square", "weight", "exists") and os.path.exists(d + "/bin/args"):
            raise Violation("the detector was called")


@C.facet("framenumbers", tables(), quick=1500, thorough=40000)
def framenumbers(c):
    r = np.random.default_rng(c["seed"])
    name = SCHEMES[c["scheme"]][0]
    pre, post = name.split("{F}")
    files = [[name.format(F=f, C=cam) for f in c["frames"] if r.random() < c["density"]] for cam in range(c["Ncam"])]
    for l in files:
        if c["order"] != "frame":
            r.shuffle(l)
    if min(map(len, files)) == 0:
        label("empty")
        try:
            mrcal.mapping_file_framenocameraindex(*files)
        except Exception:
            return
        raise Violation("no files for a camera, but no error")
    label("%d cameras" % c["Ncam"])
    got = mrcal.mapping_file_framenocameraindex(*files)
    number = lambda f: int(re.search("[0-9]*$", pre).group() + f + re.match("[0-9]*", post).group())
    want = {}
    for cam, l in enumerate(files):
        for f in c["frames"]:
            n = name.format(F=f, C=cam)
            if n in l:
                want[n] = (number(f) if len(l) > 1 else 0, cam)
    if got != want:
        bad = [(k, got.get(k), want[k]) for k in want if got.get(k) != want[k]] or [k for k in got if k not in want]
        raise Violation("(file, have, should be): %s" % bad[:3])


if __name__ == "__main__":
    C.main()
