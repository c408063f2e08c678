#!/usr/bin/python3
import os, sys, io, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Violation, label, trivial, reject, note
pbt.build_and_import()
import numpy as np
import yaml
from hypothesis import strategies as st
import mrcal, mrcal.cahvor
import ref, gens, cli
from cli import run, scratch
from gens import fl, vec

C = pbt.Check("C28", "converters",
              "Cases: random models of every lens each format supports, any poses, valid-intrinsics regions; written and read back through the API and the command-line tools (several files, standard "
              "input, --outdir, existing files with and without --force); files written independently of mrcal (.cahvor, kalibr yaml, ROS/OpenCV yaml and json), in various number formats. Oracle: "
              "the original model, the definition of each format, the CAHVOR equations in world coordinates. mrcal-convert-lensmodel --sampled is compared with the reported RMS error over "
              "its own sample grid. Non-trivial: everything, except refused conversions of unsupported lenses",
              assumptions=[".cahvor files store 10 decimals", "focal lengths are 100-8000 pixels"])


@st.composite
def model(draw, kinds=("pinhole", "opencv", "cahvor", "cahvore"), region=True):
    return dict(lens=draw(gens.lens(kinds=kinds, amp=draw(st.sampled_from([0., .3, 1.])))), rt=draw(gens.rtvec()), size=[draw(st.integers(10, 8000)), draw(st.integers(10, 8000))],
                region=draw(st.sampled_from([0, 0, 3, 7])) if region else 0, seed=draw(gens.seeds))


def build(c):
    r = np.random.default_rng(c["seed"])
    kw = {}
    if c["region"]:
        th = np.sort(r.uniform(0, 2 * np.pi, c["region"]))
        p = np.stack((np.cos(th), np.sin(th)), -1) * np.array(c["size"]) * r.uniform(.2, .5, (c["region"], 1)) + np.array(c["size"]) / 2
        kw["valid_intrinsics_region"] = np.concatenate((p, p[:1]))
    return mrcal.cameramodel(intrinsics=(c["lens"]["m"], np.array(c["lens"]["i"])), imagersize=c["size"], rt_cam_ref=np.array(c["rt"]), **kw)


def points(c, m=None):
    """in the camera coordinates"""
    r = np.random.default_rng(c["seed"] + 1)
    th = np.radians(r.uniform(0, min(45, gens.maxdeg(m or c["lens"]["m"]) * .8), 12))
    ph = r.uniform(0, 2 * np.pi, 12)
    return np.stack((np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)), -1) * 10**r.uniform(0, 2, (12, 1))


def same_camera(m, lens, Rt_cam_ref, size, c, what, tol=1e-10, region=None, exact=False):
    """m must be the same camera as (lens, Rt_cam_ref, size)"""
    if list(m.imagersize()) != list(size):
        raise Violation("%s: the imager is %s; should be %s" % (what, m.imagersize(), size))
    name, i = lens
    got = m.intrinsics()
    if got[0] != name and not (got[0] == "LENSMODEL_PINHOLE" and "CAHVOR" in name and "CAHVORE" not in name and np.linalg.norm(i[6:9]) < 2e-8):
        if not (got[0].split("=")[0] == name.split("=")[0] == "LENSMODEL_CAHVORE_linearity" and float(got[0].split("=")[1]) == float(name.split("=")[1])):
            raise Violation("%s: the lens is %s; should be %s" % (what, got[0], name))
    elif got[0] == name:
        e = np.abs(got[1] - i) / np.maximum(1, np.abs(i))
        e[np.isin(np.arange(len(i)), (0, 1, 2, 3))] = np.abs(got[1] - i)[:4] / np.linalg.norm(i[:4])
        # the optical axis of CAHVOR is undefined if there's no distortion
        if not e.max() < tol * 1e2:
            raise Violation("%s: the intrinsics are %s; should be %s" % (what, got[1], i))
    T = m.Rt_cam_ref()
    t = np.linalg.norm(T[:3] - Rt_cam_ref[:3])
    s = np.linalg.norm(T[3] - Rt_cam_ref[3])
    big = np.linalg.norm(Rt_cam_ref[3])
    # mrcal_r_from_R() isn't precise near 180deg if the matrix isn't a perfect rotation
    near = 2e-5 if np.trace(Rt_cam_ref[:3]) < -.9999 else 0
    if not (t < tol * 100 + near and s < (tol * 100 + near) * (1 + big)):
        raise Violation("%s: Rt_cam_ref is\n%s\nshould be\n%s" % (what, T, Rt_cam_ref))
    p = points(c, name)
    q0 = ref.project(name, np.array(i), p)
    q1 = mrcal.project(p, *got)
    e = np.abs(q1 - q0).max()
    if not e < tol * 100 * (np.linalg.norm(i[:4]) + np.abs(q0).max()):
        raise Violation("%s: projections off by %s" % (what, e))
    v = m.valid_intrinsics_region()
    if (v is None) != (region is None) or (v is not None and (v.shape != region.shape or np.abs(v - region).max() > .0051)):
        raise Violation("%s: the valid-intrinsics region is %s; should be %s" % (what, v, region))


def same(m, m0, c, what, tol=1e-10):
    same_camera(m, m0.intrinsics(), m0.Rt_cam_ref(), m0.imagersize(), c, what, tol, m0.valid_intrinsics_region())


@C.facet("cahvor", st.tuples(model(), st.sampled_from(["file", "fileobj", "cahvor.write", "stdout"]), st.sampled_from([None, "one", "two\nlines"])), quick=2500, thorough=60000, shards=2)
def cahvor(case):
    c, how, comment = case
    m = build(c)
    s0 = io.StringIO()
    m.write(s0)
    label(c["lens"]["m"][10:17])
    with scratch():
        if how == "file":
            m.write("x.cahvor", note=comment)
            text = open("x.cahvor").read()
            got = mrcal.cameramodel("x.cahvor")
        elif how == "fileobj":
            f = io.StringIO()
            m.write(f, cahvor=True, note=comment)
            text = f.getvalue()
            got = mrcal.cameramodel(io.StringIO(text))
        elif how == "cahvor.write":
            mrcal.cahvor.write("x.cahv", m, comment)
            text = open("x.cahv").read()
            got = mrcal.cahvor.read("x.cahv")
        else:
            m.write("in.cameramodel")
            r = run("mrcal-to-cahvor", [], open("in.cameramodel").read())
            if r.rc:
                raise Violation("mrcal-to-cahvor failed: %s" % r.err)
            text = r.out
            comment = None
            r = run("mrcal-from-cahvor", ["-"], text)
            if r.rc:
                raise Violation("mrcal-from-cahvor failed: %s\n%s" % (r.err, text))
            got = mrcal.cameramodel(io.StringIO(r.out))
    same(got, m, c, how)
    if comment is not None and not text.startswith("".join("# %s\n" % l for l in comment.splitlines())):
        raise Violation("the note is missing in the .cahvor file:\n%s" % text[:100])
    s1 = io.StringIO()
    m.write(s1)
    if s1.getvalue() != s0.getvalue():
        raise Violation("writing changed the model")


@st.composite
def numbers(draw):
    return draw(st.sampled_from(["%.17g", "%.17g", "%.12f", "%r", "%.16e", "short"]))


def fmt(x, how):
    if how == "short":      # as few digits as possible
        x = float(x)
        return str(int(x)) if x == int(x) and abs(x) < 1e6 else repr(x)
    return repr(float(x)) if how == "%r" else how % x


@C.facet("cahvor-read", st.tuples(model(region=False), numbers(), st.booleans(), gens.seeds, st.sampled_from([None, None, None, "round"])), quick=1500, thorough=30000)
def cahvor_read(case):
    """a .cahvor file projects as its vectors say"""
    c, f, unknown, seed, rnd = case
    name, i = c["lens"]["m"], np.array(c["lens"]["i"])
    r = np.random.default_rng(seed)
    Rt = ref.invert_Rt(ref.Rt_from_rt(np.array(c["rt"])))
    if rnd:     # nice round numbers: axes lined up, integers
        i[:4] = np.round(i[:4])
        Rt[:3] = np.array(([[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 0, 1], [1, 0, 0], [0, 1, 0]], [[1, 0, 0], [0, 0, 1], [0, -1, 0]])[r.integers(3)])
        Rt[3] = np.round(Rt[3])
    R = Rt[:3]
    Cv, A = Rt[3], R[:, 2].copy()
    H, V = i[0] * R[:, 0] + i[2] * A, i[1] * R[:, 1] + i[3] * A
    L = [("Dimensions", c["size"]), ("C", Cv), ("A", A), ("H", H), ("V", V)]
    kind = "CAHV = perspective, linear"
    if "OPENCV" in name:
        L.append((name if r.random() < .5 else name.replace("LENSMODEL", "DISTORTION"), i[4:]))
    elif "CAHVOR" in name:
        O = R @ np.array((np.sin(i[4]) * np.cos(i[5]), np.sin(i[5]), np.cos(i[4]) * np.cos(i[5])))
        L += [("O", O), ("R", i[6:9])]
        kind = "CAHVOR = perspective, distortion"
        if "CAHVORE" in name:
            L.append(("E", i[9:]))
            lin = float(name.split("=")[1])
            kind = "CAHVORE3,%s = general" % lin
            if lin == 1 and r.random() < .5:
                kind = r.choice(["CAHVORE1 = perspective, distortion", "CAHVORE1,1", "CAHVORE1,1.0 = x"])
            if lin == 0 and r.random() < .5:
                kind = r.choice(["CAHVORE2 = fisheye", "CAHVORE2,0"])
    if unknown:
        L += [("Hs", [i[0]]), ("Theta", [-np.pi / 2]), ("Something", [5.])]
    keep = L
    L = [keep[j] for j in r.permutation(len(keep))]
    if f == "%.12f" and "OPENCV" in name:
        pass
    lines = ["%s =%s%s" % (k, " " * r.integers(1, 4), (" " * int(r.integers(1, 4))).join(fmt(x, f) if k != "Dimensions" else "%d" % x for x in v)) for k, v in L]
    lines.insert(int(r.integers(len(lines) + 1)), "Model = " + kind)
    lines.insert(int(r.integers(len(lines) + 1)), "# a comment = 5")
    lines.insert(int(r.integers(len(lines) + 1)), "")
    text = "\n".join(lines) + "\nS =\n 0.0 0.0\n 0.0 0.0\n"
    label("%s%s %s" % (name[10:17], " round" if rnd else "", f))
    try:
        m = mrcal.cameramodel(io.StringIO(text))
    except Exception as e:
        raise Violation("can't read this .cahvor file: %s\n%s" % (e, text))
    same_camera(m, (name, i), ref.invert_Rt(Rt), c["size"], c, "reading", 1e-10)
    if name == "LENSMODEL_CAHVOR":      # the definition, in world coordinates
        P = ref.transform_Rt(Rt, points(c)) - Cv
        z = P @ O
        l = P - z[:, None] * O
        tau = np.sum(l * l, -1) / z**2
        P = P + (i[6] + i[7] * tau + i[8] * tau**2)[:, None] * l
        q0 = np.stack((P @ H, P @ V), -1) / (P @ A)[:, None]
        q = mrcal.project(mrcal.transform_point_Rt(m.Rt_cam_ref(), ref.transform_Rt(Rt, points(c))), *m.intrinsics())
        near = 1e-4 if np.trace(R) < -.9999 else 0
        if not np.abs(q - q0).max() < (1e-8 + near) * np.linalg.norm(i[:4]) * (1 + np.linalg.norm(Cv)) + 1e-7 * np.abs(q0).max():
            raise Violation("CAHVOR: projections off by %s:\n%s" % (np.abs(q - q0).max(), text))


@C.facet("tools", st.tuples(st.lists(model(kinds=("pinhole", "opencv", "cahvor", "cahvore", "simple")), min_size=1, max_size=4), gens.seeds, st.booleans(), st.booleans(), st.booleans()), quick=300, thorough=5000)
def tools(case):
    """mrcal-to-cahvor, mrcal-from-cahvor with several files"""
    cs, seed, outdir, force, back = case
    r = np.random.default_rng(seed)
    a, b = (".cahvor", ".cameramodel") if back else (".cameramodel", ".cahvor")
    tool = "mrcal-from-cahvor" if back else "mrcal-to-cahvor"
    with scratch() as d:
        os.mkdir("sub.x")
        os.mkdir("out")
        names, expect, there = [], {}, set()
        unsupported = already = False
        for k, c in enumerate(cs):
            m = build(c)
            bad = m.intrinsics()[0] in ("LENSMODEL_STEREOGRAPHIC", "LENSMODEL_LONLAT", "LENSMODEL_LATLON")
            base = ("sub.x/" if r.random() < .5 else "") + "m.%d" % k
            if bad and back:
                continue
            if r.random() < .1 and not bad:       # in the target format already
                names.append(base + b)
                m.write(names[-1])
                already = True
                continue
            if bad:
                if len(cs) > 1:
                    continue
                unsupported = True
            names.append(base + a)
            m.write(names[-1])
            out = ("out/" + os.path.basename(base) if outdir else base) + b
            if r.random() < .2:
                open(out, "w").write("existing")
                there.add(out)
            expect[out] = (m, c)
        if not names:
            reject()
        before = {n: open(n).read() for n in names}
        res = run(tool, names + (["--outdir", "out"] if outdir else []) + (["-f"] if force else []))
        label("%s%s%s%s%s" % (tool, " outdir" if outdir else "", " existing" if there else "", " force" if force else "", " already" if already else ""))
        if unsupported:
            if (force or not there) and res.rc == 0:
                raise Violation("%s reports success with %s" % (tool, cs[0]["lens"]["m"]))
            return
        if res.rc != 0:
            raise Violation("%s failed: %s" % (tool, res.err))
        for n, t in before.items():
            if n not in expect and open(n).read() != t:
                raise Violation("the input %s was changed" % n)
        for out, (m, c) in expect.items():
            if out in there and not force:
                if open(out).read() != "existing":
                    raise Violation("%s was overwritten" % out)
                continue
            if not os.path.exists(out):
                raise Violation("%s %s: %s wasn't written" % (tool, names, out))
            same(mrcal.cameramodel(out), m, c, out)
        have = set(os.path.relpath(os.path.join(x, y), ".") for x, _, ys in os.walk(".") for y in ys)
        if have != set(names) | set(expect):
            raise Violation("unexpected files: %s" % sorted(have - set(names) - set(expect)))


def kalibr_lens(name, i):
    """-> the yaml content"""
    if name == "LENSMODEL_PINHOLE":
        return dict(camera_model="pinhole", intrinsics=list(i), distortion_model="none", distortion_coeffs=[])
    if name == "LENSMODEL_OPENCV4":
        return dict(camera_model="pinhole", intrinsics=list(i[:4]), distortion_model="radtan", distortion_coeffs=list(i[4:]))
    O = [np.sin(i[4]) * np.cos(i[5]), np.sin(i[5]), np.cos(i[4]) * np.cos(i[5])]
    v = [0, 0, 0, 0, 0, 1, i[0], 0, i[2], 0, i[1], i[3]] + O + list(i[6:])
    if "CAHVORE" in name:
        return dict(camera_model="cahvore", intrinsics=v, cahvore_linearity=float(name.split("=")[1]))
    return dict(camera_model="cahvor", intrinsics=v)


@st.composite
def kalibr_models(draw):
    l = draw(st.lists(model(kinds=("pinhole", "opencv", "cahvor", "cahvore"), region=False), min_size=1, max_size=4))
    for c in l:
        if "OPENCV" in c["lens"]["m"]:
            c["lens"] = dict(m="LENSMODEL_OPENCV4", i=c["lens"]["i"][:8])
        if draw(st.integers(0, 3)) == 0:
            c["rt"] = [0.] * 6
    return l


def chain(cs, at_ref):
    """-> the T_cn_cnm1"""
    R = [ref.Rt_from_rt(np.array(c["rt"])) for c in cs]
    T = [np.vstack((np.eye(3), np.zeros((1, 3)))) if at_ref else R[0]]
    return R, T + [ref.compose_Rt(b, ref.invert_Rt(a)) for a, b in zip(R, R[1:])]


@C.facet("kalibr", st.tuples(kalibr_models(), st.booleans(), st.booleans(), st.booleans()), quick=500, thorough=10000)
def kalibr(case):
    cs, at_ref, at_ref2, one = case
    R, T = chain(cs, at_ref)
    label("%d cameras%s" % (len(cs), " stdin" if one and len(cs) == 1 else ""))
    tol = 1e-9
    with scratch() as d:
        for k, c in enumerate(cs):
            build(c).write("m%d.cameramodel" % k)
        if one and len(cs) == 1:
            r = run("mrcal-to-kalibr", ["--cam0-at-reference"] * at_ref, open("m0.cameramodel").read())
        else:
            r = run("mrcal-to-kalibr", ["m%d.cameramodel" % k for k in range(len(cs))] + ["--cam0-at-reference"] * at_ref)
        if r.rc:
            raise Violation("mrcal-to-kalibr failed: %s" % r.err)
        D = yaml.safe_load(r.out)
        if list(D) != ["cam%d" % k for k in range(len(cs))]:
            raise Violation("the cameras are %s" % list(D))
        for k, (x, c) in enumerate(zip(D.values(), cs)):
            w = kalibr_lens(c["lens"]["m"], c["lens"]["i"])
            for key in w:
                if key not in x:
                    raise Violation("camera %d has no %s:\n%s" % (k, key, r.out))
                if isinstance(w[key], str):
                    ok = x[key] == w[key]
                else:
                    A, B = np.array(x[key], float), np.array(w[key], float)
                    ok = A.shape == B.shape and (A.size == 0 or np.abs(A - B).max() < tol * (1 + np.abs(B).max()))
                if not ok:
                    raise Violation("camera %d: %s is %s; should be %s" % (k, key, x[key], w[key]))
            if x["resolution"] != c["size"]:
                raise Violation("resolution is %s" % x["resolution"])
            t = np.array(x.get("T_cn_cnm1", np.eye(4)), float)
            want = np.eye(4)
            want[:3, :3], want[:3, 3] = T[k][:3], T[k][3]
            if t.shape != (4, 4) or np.abs(t - want).max() > 1e-9 * (1 + sum(np.linalg.norm(a[3]) for a in R)) + (1.5e-6 if k == 0 else 0):
                raise Violation("camera %d: T_cn_cnm1 is\n%s\nshould be\n%s" % (k, t, want))
        # and back
        if one and len(cs) == 1:
            r = run("mrcal-from-kalibr", ["-"] + ["--cam0-at-reference"] * at_ref2, r.out)
            got = [mrcal.cameramodel(io.StringIO(r.out))] if r.rc == 0 else []
        else:
            open("k.yaml", "w").write(r.out)
            r = run("mrcal-from-kalibr", ["k.yaml"] + ["--cam0-at-reference"] * at_ref2)
            got = [mrcal.cameramodel("k-cam%d.cameramodel" % k) for k in range(len(cs))] if r.rc == 0 else []
        if r.rc:
            raise Violation("mrcal-from-kalibr failed: %s" % r.err)
    for k, (m, c) in enumerate(zip(got, cs)):
        want = R[k]
        if at_ref or at_ref2:
            want = ref.compose_Rt(R[k], ref.invert_Rt(R[0]))
        same_camera(m, (c["lens"]["m"], np.array(c["lens"]["i"])), want, c["size"], c, "camera %d" % k, 5e-8 if np.linalg.norm(cs[0]["rt"]) < 3e-6 else 1e-10)     # identity transforms aren't written


@C.facet("kalibr-read", st.tuples(kalibr_models(), numbers(), gens.seeds, st.sampled_from(["all", "one", "inline", "inline stdin", "stdin"]), st.booleans(), st.booleans(), st.booleans(), st.booleans()),
         quick=500, thorough=10000)
def kalibr_read(case):
    """yaml files mrcal didn't write"""
    cs, f, seed, how, at_ref, outdir, force, rnd = case
    r = np.random.default_rng(seed)
    names = [str(x) for x in ("cam%d" % k for k in range(len(cs)))]
    if r.random() < .3:
        names = ["left", "right", "rear", "x.y"][:len(cs)]
    if "inline" in how:
        cs, names = cs[:1], names[:1]
    if rnd:
        for c in cs:
            c["lens"]["i"] = [round(x, 5) for x in c["lens"]["i"][:4]] + [float("%.1g" % x) for x in c["lens"]["i"][4:]]
            c["rt"] = [0.] * 3 + [float("%.1g" % (x * 10**r.uniform(-6, 0))) for x in c["rt"][3:]]
    if f == "%.12f":
        f = "%r"
    R, T = chain(cs, False)
    lines = []
    for k, c in enumerate(cs):
        w = kalibr_lens(c["lens"]["m"], c["lens"]["i"])
        ind = "" if "inline" in how else "  "
        body = []
        for key, v in w.items():
            body.append("%s: %s" % (key, v if isinstance(v, str) else fmt(v, f) if np.ndim(v) == 0 else "[" + ", ".join(fmt(x, f) for x in v) + "]"))
        body.append("resolution: [%d, %d]" % tuple(c["size"]))
        if r.random() < .5:
            body.append("rostopic: /cam0/image_raw")
        if r.random() < .5:
            body.append("timeshift_cam_imu: -8.121e-05")
        if np.any(T[k][3]) or np.any(T[k][:3] != np.eye(3)) or r.random() < .5:
            body.append("T_cn_cnm1:\n" + "\n".join("%s- [%s]" % (ind, ", ".join(fmt(x, f) for x in row)) for row in [list(T[k][j][:3] if j < 3 else 0) + [T[k][3][j]] for j in range(3)] + [[0, 0, 0, 1]]))
        body = [body[j] for j in r.permutation(len(body))]
        if not ind:
            lines += body
        else:
            lines += [names[k] + ":"] + [ind + x for x in body]
    text = "\n".join(lines) + "\n"
    label("%s, %d cameras, %s%s" % (how, len(cs), f, " round" if rnd else ""))
    which = int(r.integers(len(cs)))
    args = ["--cam0-at-reference"] * at_ref
    with scratch():
        if "stdin" in how:
            sel = ["--camera", names[which]] if len(cs) > 1 else []
            x = run("mrcal-from-kalibr", args + sel + ["-"] * int(r.integers(2)), text)
            if x.rc:
                raise Violation("mrcal-from-kalibr failed: %s\n%s" % (x.err, text))
            got = {which if sel else 0: mrcal.cameramodel(io.StringIO(x.out))}
        else:
            os.mkdir("out")
            os.mkdir("in.d")
            open("in.d/k.yaml", "w").write(text)
            out = ["out/k" if outdir else "in.d/k"] * len(cs)
            out = [o + ("" if how == "inline" else "-" + n) + ".cameramodel" for o, n in zip(out, names)]
            sel = [which] if how == "one" else range(len(cs))
            there = set()
            for k in sel:
                if r.random() < .2:
                    open(out[k], "w").write("existing")
                    there.add(k)
            x = run("mrcal-from-kalibr", args + ["in.d/k.yaml"] + ["--outdir", "out"] * outdir + ["--force"] * force + (["--camera", names[which]] if how == "one" else []))
            if x.rc:
                raise Violation("mrcal-from-kalibr failed: %s\n%s" % (x.err, text))
            have = set(os.path.relpath(os.path.join(a, y), ".") for a, _, ys in os.walk(".") for y in ys)
            if have != {"in.d/k.yaml"} | set(out[k] for k in sel):
                raise Violation("the files are %s; should be %s" % (sorted(have), [out[k] for k in sel]))
            got = {}
            for k in sel:
                if k in there and not force:
                    if open(out[k]).read() != "existing":
                        raise Violation("%s was overwritten" % out[k])
                else:
                    got[k] = mrcal.cameramodel(out[k])
    for k, m in got.items():
        want = ref.compose_Rt(R[k], ref.invert_Rt(R[0])) if at_ref else R[k]
        c = cs[k]
        same_camera(m, (c["lens"]["m"], np.array(c["lens"]["i"])), want, c["size"], c, "camera %s" % names[k], 1e-10)


@C.facet("kalibr-bad", st.tuples(kalibr_models(), st.sampled_from(["lens", "distortion", "missing", "T shape", "T row", "T rotation", "which", "lens out", "empty", "cahvor size", "cahvor extrinsics"]), gens.seeds), quick=150, thorough=3000)
def kalibr_bad(case):
    """a failure is reported in the exit status"""
    cs, how, seed = case
    r = np.random.default_rng(seed)
    R, T = chain(cs, False)
    D = {}
    for k, c in enumerate(cs):
        x = kalibr_lens(c["lens"]["m"], c["lens"]["i"])
        D["cam%d" % k] = dict({a: b if np.ndim(b) == 0 else [float(z) for z in b] for a, b in x.items()}, resolution=c["size"],
                              T_cn_cnm1=[[float(z) for z in list(T[k][j]) + [T[k][3][j]]] for j in range(3)] + [[0., 0., 0., 1.]])
    k = int(r.integers(len(cs)))
    x = D["cam%d" % k]
    args = []
    if how == "lens":
        x["camera_model"] = "omni"
    elif how == "distortion":
        x["distortion_model"] = "equidistant"
    elif how == "missing":
        del x[str(r.choice([a for a in x if a not in ("T_cn_cnm1", "cahvore_linearity") and (a != "distortion_coeffs" or x["distortion_model"] == "radtan")]))]
    elif how == "T shape":
        x["T_cn_cnm1"] = x["T_cn_cnm1"][:3]
    elif how == "T row":
        x["T_cn_cnm1"][3][int(r.integers(4))] += .1
    elif how == "T rotation":
        x["T_cn_cnm1"][int(r.integers(3))][int(r.integers(3))] += .1
    elif how == "which":
        args = ["--camera", "cam17"]
    elif how == "empty":
        D = {}
    elif how in ("cahvor size", "cahvor extrinsics"):
        if "cahvor" not in x["camera_model"]:
            reject()
        if how == "cahvor size":
            x["intrinsics"] = x["intrinsics"][:-1]
        else:
            x["intrinsics"][int(r.integers(3))] = .1
    label(how)
    with scratch():
        if how == "lens out":
            c = dict(cs[k], lens=dict(m="LENSMODEL_STEREOGRAPHIC", i=cs[k]["lens"]["i"][:4]))
            build(c).write("x.cameramodel")
            x = run("mrcal-to-kalibr", ["x.cameramodel"])
        else:
            open("k.yaml", "w").write(yaml.safe_dump(D))
            x = run("mrcal-from-kalibr", ["k.yaml"] + args)
        if x.rc == 0:
            raise Violation("%s: the tool reports success" % how)
        if how in ("lens out", "which", "empty") and any(y.startswith("k-") for y in os.listdir(".")):
            raise Violation("files were written")


@C.facet("ros", st.tuples(model(kinds=("opencv", "pinhole"), region=False), numbers(), gens.seeds, st.sampled_from(["opencv", "ros", "json", "write"]), st.booleans()), quick=500, thorough=10000)
def ros(case):
    """ROS/OpenCV yaml and json"""
    c, f, seed, how, cmd = case
    r = np.random.default_rng(seed)
    name, i = c["lens"]["m"], list(c["lens"]["i"])
    if name == "LENSMODEL_PINHOLE":
        name, i = "LENSMODEL_OPENCV5", i + [0.] * 5
    elif name == "LENSMODEL_OPENCV4":
        name, i = "LENSMODEL_OPENCV5", i + [0.]
    elif name == "LENSMODEL_OPENCV12":
        name, i = "LENSMODEL_OPENCV8", i[:12]
    label("%s %s" % (how, f))
    want = ref.Rt_from_rt(np.array(c["rt"]))
    if how == "write":
        m = build(dict(c, rt=[0.] * 6))
        s = io.StringIO()
        try:
            m.write(s, _opencv=True)
        except Exception:
            if c["lens"]["m"] == "LENSMODEL_OPENCV12":
                trivial()
                return
            raise
        text = s.getvalue()
        want = np.vstack((np.eye(3), np.zeros((1, 3))))
        tol = 1e-11
    else:
        # the rectification rotates camera coordinates to the reference, and the camera is at -P[:,3]/P[0,0]
        tref = ref.invert_Rt(want)
        tref[3, 1:] = 0         # the format has only the translation along x
        want = ref.invert_Rt(tref)
        Rr, pos = tref[:3], tref[3]
        fr = r.uniform(100, 3000)
        P = np.zeros((3, 4))
        P[0, 0] = P[1, 1] = fr
        P[:2, 2] = r.uniform(100, 1000, 2)
        P[2, 2] = 1
        P[:, 3] = -pos * fr
        kind = "plumb_bob" if name == "LENSMODEL_OPENCV5" else "rational_polynomial"
        K = [i[0], 0, i[2], 0, i[1], i[3], 0, 0, 1]
        L = lambda v: "[" + ", ".join(fmt(x, f if f != "%.12f" else "%r") for x in np.ravel(v)) + "]"
        norm = r.integers(3)
        Rl, Pl = L(Rr), L(P)
        if how == "opencv":
            blocks = ["image_width: %d" % c["size"][0], "image_height: %d" % c["size"][1], "camera_name: x", "distortion_model: " + kind,
                      "camera_matrix:\n  rows: 3\n  cols: 3\n  data: " + L(K), "distortion_coefficients:\n  rows: 1\n  cols: %d\n  data: %s" % (len(i) - 4, L(i[4:])),
                      "rectification_matrix:\n  rows: 3\n  cols: 3\n  data: " + Rl, "projection_matrix:\n  rows: 3\n  cols: 4\n  data: " + Pl]
            text = "\n".join(blocks[j] for j in r.permutation(len(blocks))) + "\n"
        elif how == "ros":
            blocks = ["header:\n  seq: 5\n  frame_id: x", "height: %d" % c["size"][1], "width: %d" % c["size"][0], "distortion_model: %s" % r.choice([kind, '"%s"' % kind]), "D: " + L(i[4:]), "K: " + L(K), "R: " + Rl, "P: " + Pl,
                      "binning_x: 0", "roi:\n  x_offset: 0\n  height: 0\n  width: 0"]
            text = "\n".join(blocks[j] for j in r.permutation(len(blocks))) + "\n" + ("---\n" if r.random() < .5 else "")
        else:
            blocks = ['"height": %d' % c["size"][1], '"width": %d' % c["size"][0], '"distortion_model": "%s"' % kind, '"D": ' + L(i[4:]), '"K": ' + L(K), '"R": ' + Rl, '"P": ' + Pl]
            text = "{" + ", ".join(blocks[j] for j in r.permutation(len(blocks))) + "}"
        tol = 1e-10
    if cmd:
        with scratch():
            if r.random() < .5:
                x = run("mrcal-from-ros", ["-"], text)
                if x.rc == 0:
                    m = mrcal.cameramodel(io.StringIO(x.out))
            else:
                open("a.yaml", "w").write(text)
                x = run("mrcal-from-ros", ["a.yaml"])
                if x.rc == 0:
                    m = mrcal.cameramodel("a.cameramodel")
            if x.rc:
                raise Violation("mrcal-from-ros failed: %s\n%s" % (x.err, text))
    else:
        try:
            m = mrcal.cameramodel(io.StringIO(text))
        except Exception as e:
            raise Violation("can't read: %s\n%s" % (e, text))
    same_camera(m, (name, np.array(i)), want, c["size"], c, how, tol)


CONTAINS = dict(PINHOLE=["OPENCV4", "OPENCV5", "OPENCV8", "OPENCV12", "CAHVOR"], OPENCV4=["OPENCV5", "OPENCV8", "OPENCV12"], OPENCV5=["OPENCV8", "OPENCV12"], OPENCV8=["OPENCV12"], OPENCV12=[], CAHVOR=[])
ALL = ["LENSMODEL_" + x for x in ("PINHOLE", "STEREOGRAPHIC", "LONLAT", "OPENCV4", "OPENCV5", "OPENCV8", "OPENCV12", "CAHVOR", "CAHVORE_linearity=0.37",
                                   "SPLINED_STEREOGRAPHIC_order=3_Nx=11_Ny=9_fov_x_deg=120")]


@C.facet("convert", st.tuples(model(kinds=("pinhole", "opencv", "cahvor", "simple"), region=False), st.sampled_from(ALL), gens.seeds, st.booleans(), st.sampled_from([None, "0", "10000", "-1", "part"]),
                              st.sampled_from(["stdin", "file", "outdir", "existing", "force"]), st.sampled_from([1, 1, 2])), quick=200, thorough=4000)
def convert(case):
    """mrcal-convert-lensmodel --sampled"""
    c, to, seed, ionly, radius, io_, trials = case
    r = np.random.default_rng(seed)
    m = c["lens"]["m"]
    W, H = c["size"] = [int(x) for x in r.integers(500, 4000, 2)]
    if max(W, H) > 2 * min(W, H):
        W = H = c["size"][0] = c["size"][1]
    i = np.array(c["lens"]["i"])
    th = np.radians(min(gens.maxdeg(m), 90) * r.uniform(.2, .5))
    u = 2 * np.tan(th / 2) if "STEREO" in m else th if "LAT" in m or "LON" in m else np.tan(th)
    i[:4] = np.hypot(W, H) / 2 / u * np.array((1, r.uniform(.9, 1.1), 0, 0)) + np.array((0, 0, (W - 1) / 2 * r.uniform(.95, 1.05), (H - 1) / 2 * r.uniform(.95, 1.05)))
    if "OPENCV" in m:
        i[4:] *= .5
    c["lens"]["i"] = [float(x) for x in i]
    M = build(c)
    args = ["--sampled", "--gridn", "12", "9", "--num-trials", str(trials)]
    dist = [10.]
    if ionly:
        args.append("--intrinsics-only")
    else:
        dist = [[20., 2.], [1000., 3.]][r.integers(2)]
        args += ["--distance", ",".join(str(x) for x in dist)]
    where = (np.array((W, H)) - 1) / 2.
    if radius == "part":
        radius = float(min(W, H)) * r.uniform(.4, .5)
        where = where + r.uniform(-.1, .1, 2) * (W, H)
        args += ["--where", str(where[0]), str(where[1])]
    if radius is not None:
        args += ["--radius", str(radius)]
    short = m[10:]
    label("%s -> %s%s%s" % (short[:7], to[10:17], "" if ionly else " +pose", " contained" if to[10:] in CONTAINS.get(short, []) else ""))
    np.random.seed(seed % 2**32)
    with scratch():
        M.write("a.b.cameramodel")
        os.mkdir("out")
        out = ("out/" if io_ == "outdir" else "") + "a.b-%s.cameramodel" % to
        if io_ == "stdin":
            x = run("mrcal-convert-lensmodel", args + [to] + ["-"] * int(r.integers(2)), open("a.b.cameramodel").read())
            text = x.out
        else:
            if io_ in ("existing", "force"):
                open(out, "w").write("existing")
            x = run("mrcal-convert-lensmodel", args + [to, "a.b.cameramodel"] + (["--outdir", "out"] if io_ == "outdir" else ["--force"] if io_ == "force" else []))
            text = open(out).read() if os.path.exists(out) else None
        if io_ == "existing":
            if text != "existing":
                raise Violation("the existing model was overwritten without --force")
            if m != to and x.rc == 0:
                raise Violation("the existing model wasn't written, but success was reported")
            return
        if x.rc:
            raise Violation("mrcal-convert-lensmodel %s failed: %s" % (args, x.err))
        if m == to:
            trivial()
            return
        if text is None:
            raise Violation("%s wasn't written; have %s" % (out, os.listdir(".")))
    got = mrcal.cameramodel(io.StringIO(text))
    if got.intrinsics()[0] != to or list(got.imagersize()) != [W, H]:
        raise Violation("the result is %s, %s" % (got.intrinsics()[0], got.imagersize()))
    rms = [float(z) for z in re.findall(r"RMS error of this solution: (\S+) pixels", x.err)]
    if len(rms) != trials or (trials > 1 and float(re.search(r"BEST solution: (\S+) pixels", x.err).group(1)) != min(rms)):
        raise Violation("reported %s" % x.err)
    rms = min(rms)
    # the sample grid
    q = np.stack(np.meshgrid(np.linspace(0, W - 1, 12), np.linspace(0, H - 1, 9)), -1).reshape(-1, 2)
    R = float(radius) if radius is not None else -(min(W, H) // 4)
    if R:
        if R < 0:
            R = np.hypot(W, H) / 2 + R
        q = q[np.sum((q - where)**2, -1) < R * R]
    if not len(q):
        reject()
    p = mrcal.unproject(q, *M.intrinsics(), normalize=True)
    ok = np.isfinite(p[:, 0])
    q, p = q[ok], p[ok]
    T = ref.compose_Rt(got.Rt_cam_ref(), ref.invert_Rt(M.Rt_cam_ref()))
    if ionly and np.abs(T - np.vstack((np.eye(3), np.zeros((1, 3))))).max() > 3e-8 * (1 + np.linalg.norm(c["rt"][3:])):
        raise Violation("--intrinsics-only moved the camera:\n%s" % T)
    e2 = 0
    for d in dist:
        e2 = e2 + np.sum((mrcal.project(ref.transform_Rt(T, p * d), *got.intrinsics()) - q)**2, -1)
    true = np.sqrt(np.mean(e2 / len(dist)))
    note("true/reported", float(true / rms) if rms > 1e-3 else 1.)
    if not (true < 2 * rms + .01 and rms < 1.5 * true + .01):
        raise Violation("%s -> %s %s: the reported RMS error is %s, but the result is off by %s in the fitted region" % (m, to, args, rms, true))
    if to[10:] in CONTAINS.get(short, []) and not true < .05:
        raise Violation("%s -> %s %s: the target contains the source, but the fit is off by %s pixels" % (m, to, args, true))


@C.facet("graft", st.tuples(model(kinds=("pinhole", "opencv", "cahvor", "simple", "cahvore", "splined")), model(kinds=("pinhole", "opencv", "cahvor", "simple", "splined"), region=False), st.sampled_from(["plain", "plain", "radius", "stdin", "stdin2"]), gens.seeds),
         quick=500, thorough=10000)
def graft(case):
    a, b, how, seed = case
    r = np.random.default_rng(seed)
    if how == "radius":      # the same lens, about
        b = dict(b, size=[int(x) for x in r.integers(500, 3000, 2)])
        if max(b["size"]) > 2 * min(b["size"]):
            b["size"][0] = b["size"][1]
        W, H = b["size"]
        m = b["lens"]["m"]
        th = np.radians(min(gens.maxdeg(m), 90) * r.uniform(.2, .5))
        u = 2 * np.tan(th / 2) if "STEREO" in m else th if "LAT" in m or "LON" in m else np.tan(th)
        i = np.array(b["lens"]["i"])
        i[:4] = np.hypot(W, H) / 2 / u * np.array((1, 1, 0, 0)) + np.array((0, 0, (W - 1) / 2, (H - 1) / 2))
        b["lens"] = dict(m=m, i=[float(x) for x in i])
        j = i.copy()
        j[2:4] += r.uniform(-20, 20, 2)
        j[:2] *= r.uniform(.99, 1.01)
        a = dict(a, size=b["size"], lens=dict(m=m, i=[float(x) for x in j]))
    A, B = build(a), build(b)
    label(how)
    with scratch():
        A.write("i.cameramodel")
        B.write("e.cameramodel")
        AB = mrcal.cameramodel("i.cameramodel"), mrcal.cameramodel("e.cameramodel")
        args = []
        if how == "radius":
            rad = [-1., float(min(b["size"])) * r.uniform(.2, .6)][r.integers(2)]
            args = ["--no-uncertainties", "--gridn", "10", "8", "--radius", str(rad)]
            dist = [None, [5.], [3., 50.]][r.integers(3)]
            if dist:
                args += ["--distance", ",".join(str(x) for x in dist)]
            where = None
            if r.random() < .5:
                where = (np.array(b["size"]) - 1) / 2. + r.uniform(-50, 50, 2)
                args += ["--where"] + [repr(float(x)) for x in where]
            x = run("mrcal-graft-models", args + ["i.cameramodel", "e.cameramodel"])
        elif how == "stdin":
            x = run("mrcal-graft-models", ["-", "e.cameramodel"], open("i.cameramodel").read())
        elif how == "stdin2":
            x = run("mrcal-graft-models", ["i.cameramodel", "-"], open("e.cameramodel").read())
        else:
            x = run("mrcal-graft-models", ["i.cameramodel", "e.cameramodel"])
    if x.rc and how == "radius" and "too few points" in x.err:
        reject()
    if x.rc:
        raise Violation("mrcal-graft-models failed: %s" % x.err)
    got = mrcal.cameramodel(io.StringIO(x.out))
    want = ref.Rt_from_rt(np.array(b["rt"]))
    tol = 1e-8
    if how == "radius":
        Rt10 = mrcal.projection_diff(AB, gridn_width=10, gridn_height=8, intrinsics_only=False, distance=dist, use_uncertainties=False, focus_center=where, focus_radius=rad)[3]
        want = ref.compose_Rt(ref.invert_Rt(Rt10), want)
        tol = 1e-7
        if not dist and np.abs(Rt10[3]).max() > 1e-6:
            raise Violation("infinitely-far points can't tell us a translation: %s" % Rt10)
    i = got.intrinsics()
    if i[0] != a["lens"]["m"] or not np.allclose(i[1], a["lens"]["i"], rtol=1e-9, atol=1e-11) or list(got.imagersize()) != a["size"]:
        raise Violation("the intrinsics are %s; should be %s" % (i, a["lens"]))
    v, v0 = got.valid_intrinsics_region(), A.valid_intrinsics_region()
    if (v is None) != (v0 is None) or (v is not None and (v.shape != v0.shape or np.abs(v - v0).max() > .0051)):
        raise Violation("the valid-intrinsics region is %s; should be %s" % (v, v0))
    T = got.Rt_cam_ref()
    if how == "radius":      # the fit starts at a random place: judge the effect
        cc = (np.array(b["size"]) - 1) / 2. if where is None else where
        rr = rad if rad > 0 else min(b["size"]) / 6
        qq = cc + rr * .7 * np.array(((0, 0), (1, 0), (-1, 0), (0, 1), (0, -1)))
        for dd in dist or [1e6]:
            p = mrcal.unproject(qq, *B.intrinsics(), normalize=True) * dd
            p = ref.transform_Rt(ref.invert_Rt(B.Rt_cam_ref()), p)
            e = np.abs(np.diff([mrcal.project(mrcal.transform_point_Rt(X, p), *got.intrinsics()) for X in (T, want)], axis=0)).max()
            note("graft fit", e)
            if not e < (3 if dist else 1.5):
                raise Violation("%s: the projections at %sm are off by %s pixels from what projection_diff() says: Rt_cam_ref is\n%s\nshould be\n%s" % (args, dd, e, T, want))
    elif np.abs(T - want).max() > tol * (1 + np.linalg.norm(want[3])):
        raise Violation("%s %s: Rt_cam_ref is\n%s\nshould be\n%s" % (how, args, T, want))
    if how == "radius":
        # a drop-in replacement: far points land about where they were
        p = mrcal.unproject(np.array(((b["size"][0] / 2., b["size"][1] / 2.),)) if where is None else where[None], *B.intrinsics(), normalize=True) * (dist[0] if dist else 1e6)
        q = mrcal.project(p, *B.intrinsics())
        w = ref.transform_Rt(ref.invert_Rt(B.Rt_cam_ref()), p)
        q1 = mrcal.project(mrcal.transform_point_Rt(got.Rt_cam_ref(), w), *got.intrinsics())
        e = np.abs(q1 - q).max()
        note("graft", e)
        if not e < 8:
            raise Violation("%s: the grafted model projects the center of the region %s pixels off" % (args, e))


if __name__ == "__main__":
    C.main()
