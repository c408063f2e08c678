#!/usr/bin/python3
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Violation, label, trivial, reject, note
pbt.build_and_import()
import numpy as np
import cv2
from hypothesis import strategies as st
import mrcal
import ref, gens
from gens import fl, vec
from cli import run, scratch

import C21      # (has the stand-in for matplotlib)

C = pbt.Check("C32", "mrcal-stereo, mrcal-reproject-image, point clouds",
              "Cases: stereo pairs looking at a rendered textured plane, with drawn lenses, poses, rectification, matcher settings and image kinds; sets of images that are reprojected; point clouds with and without colors. Oracles: the rectification and the "
              "reprojection evaluated at each pixel, OpenCV's matcher run here on these images, two-ray intersections, the plane itself, and an independent reader of ply files. Non-trivial: runs that write output",
              assumptions=["the SGBM matcher of OpenCV is deterministic"])


def read_ply(path):
    """-> column names, array (N,columns)"""
    b = open(path, "rb").read()
    h, d = b.split(b"end_header\n", 1)
    l = h.decode().split("\n")
    if l[0] != "ply":
        raise Violation("not a ply file")
    fmt = [x.split()[1] for x in l if x.startswith("format")]
    N = [int(x.split()[2]) for x in l if x.startswith("element vertex")]
    cols = [x.split()[1:] for x in l if x.startswith("property")]
    if len(fmt) != 1 or len(N) != 1:
        raise Violation("broken ply header: %s" % l)
    dt = np.dtype([(n, dict(float="<f4", uchar="u1")[t]) for t, n in cols])
    if fmt[0] == "ascii":
        rows = [r.split() for r in d.decode().split("\n") if r.strip()]
        if len(rows) != N[0] or any(len(r) != len(cols) for r in rows):
            raise Violation("the ply file declares %d vertices of %d columns; it has %d of %s" % (N[0], len(cols), len(rows), sorted({len(r) for r in rows})))
        a = np.array([[float(x) for x in r] for r in rows]).reshape(N[0], len(cols))
    else:
        if len(d) != N[0] * dt.itemsize:
            raise Violation("the ply file declares %d vertices of %d bytes; it has %d bytes" % (N[0], dt.itemsize, len(d)))
        r = np.frombuffer(d, dt)
        a = np.array([r[n] for _, n in cols], float).T.reshape(N[0], len(cols))
    return [n for _, n in cols], a


@C.facet("ply", st.fixed_dictionaries(dict(seed=gens.seeds, N=st.integers(0, 30), color=st.sampled_from(["none", "gray", "bgr"]), where=st.booleans(), binary=st.sampled_from([True, False, None]), scale=fl(-3, 4), layout=st.integers(0, 2), dtype=st.sampled_from(["u1", "f8", "i4"]))), quick=600, thorough=10000)
def ply(c):
    r = np.random.default_rng(c["seed"])
    N = c["N"]
    p = r.normal(size=(N, 3)) * 10**c["scale"]
    color = dict(none=None, gray=r.integers(0, 256, N).astype(c["dtype"]), bgr=r.integers(0, 256, (N, 3)).astype(c["dtype"]))[c["color"]]
    want = p
    names = ["x", "y", "z"]
    if c["color"] == "gray":
        want, names = np.hstack((p, color[:, None])), names + ["intensity"]
    elif c["color"] == "bgr":
        want, names = np.hstack((p, color[:, ::-1])), names + ["red", "green", "blue"]
    a, kw = p, {}
    if color is not None:
        if c["where"]:
            a = np.hstack((p, color.reshape(N, 1 if color.ndim == 1 else 3)))
        else:
            kw["color"] = color
    if c["layout"] == 1:
        a = np.asfortranarray(a)
    elif c["layout"] == 2:
        a = np.repeat(a, 2, axis=0)[::2]
    if c["binary"] is not None:
        kw["binary"] = c["binary"]
    keep = a.copy()
    with scratch():
        mrcal.write_point_cloud_as_ply("a.ply", a, **kw)
        n, got = read_ply("a.ply")
    label("%s %s" % ("ascii" if c["binary"] is False else "binary", c["color"]))
    if n != names:
        raise Violation("the columns are %s; should be %s" % (n, names))
    if got.shape != want.shape or N and (np.abs(got[:, :3] - want[:, :3]) > 1e-6 * np.abs(want[:, :3])).any():
        raise Violation("the coordinates in the file are wrong: %s; should be %s" % (got[:2], want[:2]))
    if (got[:, 3:] != want[:, 3:]).any():
        raise Violation("the colors in the file are wrong")
    if (a != keep).any():
        raise Violation("the points were modified")


def lens(r, kind, size, wide):
    f = size[0] * (.8 if not wide else .5) * r.uniform(.9, 1.1)
    co = [f, f, (size[0] - 1) / 2 + r.uniform(-3, 3), (size[1] - 1) / 2 + r.uniform(-3, 3)]
    if kind == "LENSMODEL_OPENCV4":
        return kind, np.array(co + list(r.uniform(-1, 1, 4) * (.05, .01, .002, .002)))
    if kind == "LENSMODEL_OPENCV8":
        return kind, np.array(co + list(r.uniform(-1, 1, 8) * (.03, .01, .002, .002, .005, .02, .01, .005)))
    if kind == "LENSMODEL_CAHVOR":
        return kind, np.array(co + list(r.uniform(-1, 1, 5) * (.01, .01, .005, .02, .01)))
    return kind, np.array(co)


def render(model, plane, waves):
    """the image (H,W,3), float in [0,255], of a textured plane n,d,u,v given in ref coordinates"""
    W, H = model.imagersize()
    q = np.stack(np.meshgrid(np.arange(float(W)), np.arange(float(H))), -1)
    R = ref.Rt_from_rt(model.rt_cam_ref())
    Ri = ref.invert_Rt(R)
    v = mrcal.unproject(q, *model.intrinsics(), normalize=True) @ Ri[:3].T
    n, d, U, V = plane
    k = (d - Ri[3] @ n) / (v @ n)
    p = Ri[3] + k[..., None] * v
    a, b = p @ U, p @ V
    out = np.zeros((H, W, 3))
    for j in range(3):
        s = sum(w[2] * np.sin(w[0] * a + w[1] * b + w[3 + j]) for w in waves)
        out[..., j] = 127.5 + 110 * np.tanh(s * .8)
    out[~(k > 0)] = 0
    return out


@st.composite
def pairs(draw):
    return dict(seed=draw(gens.seeds), size=draw(st.tuples(st.integers(90, 150), st.integers(60, 110))), lens=[draw(st.sampled_from(["LENSMODEL_PINHOLE", "LENSMODEL_OPENCV4", "LENSMODEL_OPENCV8", "LENSMODEL_CAHVOR", "LENSMODEL_STEREOGRAPHIC", "LENSMODEL_LONLAT"])) for _ in range(2)],
                rt=draw(gens.rtvec()), ident=draw(st.booleans()), rect=draw(st.sampled_from([None, "LENSMODEL_LATLON", "LENSMODEL_PINHOLE"])), fov=[draw(fl(30, 60)), draw(fl(25, 50))], az0=draw(st.sampled_from([None, None, 0., 4.5])), el0=draw(st.sampled_from([None, 0., -3.5])), ppd=draw(st.sampled_from([None, [-1.], [-.7], [2.], [2., 1.8], [-1., -.8]])),
                base=draw(fl(.1, 1)), dist=draw(fl(4, 10)), kind=draw(st.sampled_from(["gray", "color", "color", "mixed"])), ext=draw(st.sampled_from(["png", "png", "jpg"])), gray=draw(st.booleans()), eq=draw(st.sampled_from([None, None, None, "clahe", "stretch", "--clahe"])), disp=draw(st.sampled_from([None, [0, 16], [0, 32], [-5, 30], [2, 40], [0, 28], [3, 30]])),
                block=draw(st.sampled_from([None, 3, 7])), p=draw(st.booleans()), uniq=draw(st.sampled_from([None, 5])), d12=draw(st.sampled_from([None, 1])), speckle=draw(st.sampled_from([None, [50, 2]])), mode=draw(st.sampled_from([None, "SGBM", "HH", "SGBM_3WAY"])), tag=draw(st.sampled_from([None, None, "abc", "a/b c"])),
                cloud=draw(st.sampled_from([True, True, True, False])), lims=draw(st.sampled_from([None, [1, 20]])), n=draw(st.sampled_from([1, 1, 2, 3])), outdir=draw(st.booleans()), force=draw(st.booleans()), exists=draw(st.booleans()), already=draw(st.sampled_from([False, False, False, True])), noimages=draw(st.sampled_from([False] * 7 + [True])), wrong=draw(st.sampled_from([False] * 9 + [True])), jobs=draw(st.sampled_from([None] * 9 + [2])))


def ray_ranges(disp, M, lo, hi):
    """distance from the first camera to the intersection of the rays at q and q-(disp,0); nan where there is none"""
    H, W = disp.shape
    q = np.stack(np.meshgrid(np.arange(float(W)), np.arange(float(H))), -1)
    f = M[0].intrinsics()
    v0 = mrcal.unproject(q, *f, normalize=True)
    q1 = q.copy()
    # The disparity is of the pixel relative to the center of each camera
    q1[..., 0] -= disp
    v1 = mrcal.unproject(q1, *M[1].intrinsics(), normalize=True)
    Rt = ref.compose_Rt(ref.Rt_from_rt(M[0].rt_cam_ref()), ref.invert_Rt(ref.Rt_from_rt(M[1].rt_cam_ref())))
    t = Rt[3]
    v1 = v1 @ Rt[:3].T
    # a*v0 - b*v1 = t
    with np.errstate(all="ignore"):
        # sin rule
        al = np.linalg.norm(np.cross(t, v1), axis=-1)
        x = np.cross(v0, v1)
        a = np.cross(t, v1)
        s = np.sign((x * a).sum(-1))
        return s * al / np.linalg.norm(x, axis=-1), v0


@C.facet("stereo", pairs(), quick=500, thorough=8000)
def stereo(c):
    r = np.random.default_rng(c["seed"])
    size = np.array(c["size"])
    B = c["base"]
    Rtref = ref.Rt_from_rt(np.array(c["rt"])) if not c["ident"] else ref.Rt_from_rt(np.zeros(6))
    models = []
    for k in range(2):
        kind, d = lens(r, c["lens"][k] if not c["already"] else "LENSMODEL_PINHOLE", size, c["seed"] % 2)
        if kind == "LENSMODEL_LONLAT":
            d[2:] = (size - 1) / 2
        e = np.zeros(6)
        if k:
            e[:3] = r.uniform(-.03, .03, 3)
            e[3:] = B * np.array((-1, *r.uniform(-.05, .05, 2)))
        models.append(mrcal.cameramodel(intrinsics=(kind, d), imagersize=size, Rt_cam_ref=ref.compose_Rt(ref.Rt_from_rt(e), Rtref)))
    rect = c["rect"] or "LENSMODEL_LATLON"
    ppd = c["ppd"] or [-1., -1.]
    kw = dict(az_fov_deg=c["fov"][0], el_fov_deg=c["fov"][1], az0_deg=c["az0"], el0_deg=c["el0"] or 0, pixels_per_deg_az=ppd[0], pixels_per_deg_el=ppd[-1], rectification_model=rect)
    # written with this many digits
    with scratch():
        for k in range(2):
            models[k].write("m%d.cameramodel" % k)
        models = [mrcal.cameramodel("m%d.cameramodel" % k) for k in range(2)]
    if c["already"]:
        kw.update(pixels_per_deg_az=2., pixels_per_deg_el=2.)
    try:
        MR = mrcal.rectified_system(models, **kw)
    except Exception:
        reject()
    if c["already"]:
        models = MR
    size = models[0].imagersize()
    W, H = MR[0].imagersize()
    if W < 48 or H < 20 or W > 400 or H > 400 or c["disp"] and (c["disp"][1] >= W - 8):
        reject()
    # the plane, in front of camera 0
    n0 = np.array((*r.uniform(-.3, .3, 2), 1.))
    n0 /= np.linalg.norm(n0)
    D = c["dist"] * B
    T = ref.invert_Rt(ref.Rt_from_rt(models[0].rt_cam_ref()))
    n = T[:3] @ n0
    p0 = ref.transform_Rt(T, np.array((0, 0, D)))
    U = np.cross(n, T[:3] @ (0, 1, 0))
    U /= np.linalg.norm(U)
    V = np.cross(n, U)
    k = 2 * np.pi * size[0] * .6 / D
    waves = []
    for _ in range(12):
        w = k / r.uniform(5, 25)
        th = r.uniform(0, 2 * np.pi)
        waves.append((w * np.cos(th), w * np.sin(th), r.uniform(.2, .6), *r.uniform(0, 6.3, 3)))
    plane = n, n @ p0, U, V
    cols = [c["kind"] != "gray", c["kind"] == "color"]
    gray = c["gray"] or c["eq"] is not None
    eq = "clahe" if c["eq"] == "--clahe" else c["eq"]
    with scratch():
        out = "." if not c["outdir"] else "o"
        if c["outdir"]:
            os.mkdir(out)
        args = []
        for i, m in enumerate(models):
            m.write("cam%d.cameramodel" % i)
        models = [mrcal.cameramodel("cam%d.cameramodel" % k) for k in range(2)]
        if c["already"]:
            MR = models
        files = [[], []]
        images = [[], []]
        for j in range(c["n"]):
            for i, m in enumerate(models):
                im = np.roll(render(m, plane, waves), 0, 0)
                if j:
                    im = 255 - im if j == 1 else im[..., ::-1]
                im = np.round(im).astype(np.uint8)
                if not cols[i]:
                    im = im[..., 1].copy()
                if c["wrong"] and i == 1 and j == c["n"] - 1:
                    im = im[:-3].copy()
                f = "%s-%d.%s" % ("left" if i == 0 else "right", j, c["ext"])
                mrcal.save_image(f, im)
                files[i].append(f)
                images[i].append(mrcal.load_image(f))
                if images[i][-1].shape != im.shape:
                    raise Violation("load_image(): %s instead of %s" % (images[i][-1].shape, im.shape))
        if not c["already"]:
            args += ["--az-fov-deg", repr(c["fov"][0]), "--el-fov-deg", repr(c["fov"][1])]
            if c["az0"] is not None:
                args += ["--az0-deg", c["az0"]]
            if c["el0"] is not None:
                args += ["--el0-deg", c["el0"]]
            if c["ppd"]:
                args += ["--pixels-per-deg=" + ",".join("%r" % x for x in c["ppd"])]
            if c["rect"]:
                args += ["--rectification", c["rect"]]
        else:
            args += ["--already-rectified"]
        if c["gray"]:
            args += ["--force-grayscale"]
        if c["eq"]:
            args += ["--clahe"] if c["eq"] == "--clahe" else ["--equalization", c["eq"]]
        lo, hi = c["disp"] or (0, 100)
        if hi >= W - 8:
            lo, hi = 0, 32
        if c["disp"] or (lo, hi) != (0, 100):
            args += ["--disparity-range", lo, hi]
        sg = {}
        bs = 5
        if c["block"]:
            args += ["--sgbm-block-size", c["block"]]
            bs = c["block"]
        if c["p"]:
            args += ["--sgbm-p1", 8 * bs * bs, "--sgbm-p2", 32 * bs * bs]
            sg.update(P1=8 * bs * bs, P2=32 * bs * bs)
        if c["uniq"]:
            args += ["--sgbm-uniqueness-ratio", c["uniq"]]
            sg.update(uniquenessRatio=c["uniq"])
        if c["d12"]:
            args += ["--sgbm-disp12-max-diff", c["d12"]]
            sg.update(disp12MaxDiff=c["d12"])
        if c["speckle"]:
            args += ["--sgbm-speckle-window-size", c["speckle"][0], "--sgbm-speckle-range", c["speckle"][1]]
            sg.update(speckleWindowSize=c["speckle"][0], speckleRange=c["speckle"][1])
        if c["mode"]:
            args += ["--sgbm-mode", c["mode"]]
            sg.update(mode=getattr(cv2, "STEREO_SGBM_MODE_" + c["mode"]))
        if c["tag"]:
            args += ["--tag", c["tag"]]
        if c["cloud"]:
            args += ["--write-point-cloud"]
        if c["lims"]:
            args += ["--range-image-limits"] + c["lims"]
        if c["outdir"]:
            args += ["--outdir", "o"]
        if c["force"]:
            args += ["--force"]
        tag = "" if not c["tag"] else "-" + ("abc" if c["tag"] == "abc" else "a_b_c")
        keep = None
        if c["exists"]:
            keep = "%s/left-0-disparity%s.png" % (out, tag)
            open(keep, "w").write("here first")
        if c["jobs"]:
            args += ["--jobs", c["jobs"]]
        args += ["cam0.cameramodel", "cam1.cameramodel"]
        if not c["noimages"]:
            args += ["left-?.%s" % c["ext"], "right-?.%s" % c["ext"]]
        before = set(os.listdir("."))
        o = run("mrcal-stereo", args)
        if c["wrong"] and not c["noimages"]:
            if "UNCAUGHT" in o.err or not o.rc:
                raise Violation("an image of the wrong size isn't reported in the exit status: %s %s" % (o.rc, o.err[-300:]))
            label("wrong size")
            return
        if o.rc or "UNCAUGHT" in o.err:
            raise Violation("mrcal-stereo %s failed: %s" % (args, o.err[-400:]))
        new = set(os.listdir(out)) - (before if out == "." else set())
        want = set()
        if not c["already"] or c["noimages"]:
            want |= {"rectified0%s.cameramodel" % tag, "rectified1%s.cameramodel" % tag}
        if not c["noimages"]:
            for j in range(c["n"]):
                l, rr = "left-%d" % j, "right-%d" % j
                if not c["already"]:
                    want |= {l + "-rectified%s.png" % tag, rr + "-rectified%s.png" % tag}
                want |= {l + "-disparity%s.png" % tag, l + "-disparity-uint16-scale16%s.png" % tag, l + "-range%s.png" % tag}
                if c["cloud"]:
                    want |= {l + "-points%s.ply" % tag}
        if keep:
            (new if out == "." else want).add(os.path.basename(keep))
            want.add(os.path.basename(keep))
        if new != want:
            raise Violation("wrote %s; should write %s" % (sorted(new), sorted(want)))
        if keep:
            if (open(keep, "rb").read() == b"here first") != (not c["force"] or c["noimages"]):
                raise Violation("an existing file was %soverwritten, %s --force" % ("" if not c["force"] else "not ", "with" if c["force"] else "without"))
            if not c["force"] and "already exists" not in o.out and not c["noimages"] and not c["jobs"]:
                raise Violation("not overwriting a file without saying so")
        # the models
        if not c["already"] or c["noimages"]:
            for k in range(2):
                m = mrcal.cameramodel("%s/rectified%d%s.cameramodel" % (out, k, tag))
                if m.intrinsics()[0] != MR[k].intrinsics()[0] or np.abs(m.intrinsics()[1] - MR[k].intrinsics()[1]).max() > 1e-6 or np.abs(m.rt_cam_ref() - MR[k].rt_cam_ref()).max() > 1e-6 * (1 + np.abs(MR[k].rt_cam_ref()).max()) or (m.imagersize() != MR[k].imagersize()).any():
                    raise Violation("rectified model %d isn't that of the rectified system" % k)
        if c["noimages"]:
            label("no images")
            return
        sgbm = cv2.StereoSGBM_create(minDisparity=lo, numDisparities=16 * round((hi - lo) / 16), blockSize=bs, **sg)
        cl = cv2.createCLAHE()
        cl.setClipLimit(8)
        tp = "%s/%s-%s%s.%s"
        for j in range(c["n"]):
            im = [images[k][j] for k in range(2)]
            if gray:
                im = [x if x.ndim == 2 else np.clip(x.astype(float).mean(-1), 0, 255).astype(np.uint8) for x in im]
            if eq == "clahe":
                im = [cl.apply(x) for x in im]
            elif eq == "stretch":
                im = [((x - x.min()) / (float(x.max()) - float(x.min())) * 255).astype(np.uint8) for x in im]
            if not c["already"]:
                rmap = mrcal.rectification_maps(models, MR)
                R = []
                for k in range(2):
                    g = mrcal.load_image(tp % (out, ("left", "right")[k] + "-%d" % j, "rectified", tag, "png"))
                    w = mrcal.transform_image(im[k], rmap[k])
                    # (the map in float64)
                    if g.shape != w.shape or np.abs(g.astype(int) - w).max() > (1 if gray else 0):
                        raise Violation("rectified image %d isn't the image resampled at the rectification map: %s" % (k, g.shape if g.shape != w.shape else np.abs(g.astype(int) - w).max()))
                    # and at some pixels, directly
                    for _ in range(10):
                        qr = np.array((r.integers(W), r.integers(H)), float)
                        v = mrcal.unproject(qr, *MR[k].intrinsics())
                        v = ref.Rt_from_rt(models[k].rt_cam_ref())[:3] @ ref.Rt_from_rt(MR[k].rt_cam_ref())[:3].T @ v
                        q = mrcal.project(v, *models[k].intrinsics())
                        if not ((q > 1).all() and (q < size - 2).all()):
                            continue
                        x, y = np.floor(q).astype(int)
                        fx, fy = q - (x, y)
                        P = im[k].astype(float)
                        e = (P[y, x] * (1 - fx) + P[y, x + 1] * fx) * (1 - fy) + (P[y + 1, x] * (1 - fx) + P[y + 1, x + 1] * fx) * fy
                        lim = 2 + .05 * np.ptp(P[y:y + 2, x:x + 2].reshape(4, -1), axis=0).max()
                        if np.abs(e - g[int(qr[1]), int(qr[0])]).max() > lim:
                            raise Violation("rectified image %d, pixel %s is %s; should be %s" % (k, qr, g[int(qr[1]), int(qr[0])], e))
                    R.append(g)
            else:
                R = im
            if R[0].ndim != R[1].ndim:
                R2 = [x if x.ndim == 2 else cv2.cvtColor(x, cv2.COLOR_BGR2GRAY) for x in R]
            else:
                R2 = R
            d = sgbm.compute(*R2)
            g = mrcal.load_image(tp % (out, "left-%d" % j, "disparity-uint16-scale16", tag, "png"))
            if g.shape != d.shape or g.dtype != np.uint16 or (g != d.astype(np.uint16)).any():
                raise Violation("the disparities aren't those of the matcher with these settings")
            lim = c["lims"] or (1, 1000)
            rng = mrcal.stereo_range(d, MR, disparity_scale=16, disparity_min=lo, disparity_max=hi)
            for nm, arr, a, b in (("disparity", d, lo * 16, hi * 16), ("range", rng, *lim)):
                f = tp % (out, "left-%d" % j, nm, tag, "png")
                if f == keep and not c["force"]:
                    continue
                if (mrcal.load_image(f) != mrcal.apply_color_map(arr, a_min=a, a_max=b)).any():
                    raise Violation("the %s image isn't the color map of it in %s" % (nm, (a, b)))
            if not c["cloud"]:
                continue
            names, pc = read_ply(tp % (out, "left-%d" % j, "points", tag, "ply"))
            # independently
            dd = d / 16.
            rr, v0 = ray_ranges(dd, MR, lo, hi)
            ok = (dd >= max(lo, 0)) & (dd <= hi) & (dd > 0) & np.isfinite(rr) & (rr > 0)
            T = ref.invert_Rt(ref.Rt_from_rt(MR[0].rt_cam_ref()))
            p = ref.transform_Rt(T, v0 * rr[..., None])
            with np.errstate(all="ignore"):
                q = mrcal.project(ref.transform_Rt(ref.Rt_from_rt(models[0].rt_cam_ref()), p), *models[0].intrinsics())
                inside = ok & (q > -.5).all(-1) & (q < size - .5).all(-1)
                edge = ok & ((np.abs(q + .5) < 1e-3) | (np.abs(q - size + .5) < 1e-3)).any(-1)
            src = images[0][j] if gray and eq is None else im[0]
            wantn = ["x", "y", "z"] + (["intensity"] if src.ndim == 2 else ["red", "green", "blue"])
            if names != wantn:
                raise Violation("the columns of the point cloud are %s; should be %s" % (names, wantn))
            label("%d points" % (10**len(str(len(pc))) // 10))
            if edge.any() and len(pc) != inside.sum():
                continue
            if len(pc) != inside.sum():
                if os.environ.get("DBG"):
                    z = np.linalg.norm(pc[:, :3] - T[3], axis=-1)
                    print(z.min(), np.sum(z < 1e-5), np.sum(z > 1e6), np.sum(~np.isfinite(z)), (rng == 0).sum(), ok.sum(), inside.sum(), file=sys.stderr)
                raise Violation("the point cloud has %d points; should have %d" % (len(pc), inside.sum()))
            if not len(pc):
                continue
            P, Q, RR = p[inside], q[inside], rr[inside]
            err = np.linalg.norm(pc[:, :3] - P, axis=-1)
            tol = 1e-5 * RR + 1e-6 * np.abs(P).max(-1) + 1e-5 * RR**2 / B
            if (err > tol).any():
                i = int(np.argmax(err / tol))
                raise Violation("point %d of the cloud is %s; should be %s, at range %s" % (i, pc[i, :3], P[i], RR[i]))
            near = (np.abs(Q + .5 - np.round(Q + .5)) > 1e-3).all(-1)
            qi = np.floor(Q + .5).astype(int)
            col = src[qi[:, 1], qi[:, 0]].reshape(len(P), -1)[:, ::-1]
            if (col != pc[:, 3:])[near].any():
                raise Violation("the points don't have the colors of the image of camera 0")
            # the truth
            if c["exists"] is False and j == 0 and not c["already"]:
                n_, d_ = plane[:2]
                e = np.abs(P @ n_ - d_) / (RR**2 / (B * MR[0].intrinsics()[1][0]))
                if len(e) > 500:
                    note("median error of the points, in pixels of disparity", np.median(e))
        label("written")


@st.composite
def reproj(draw):
    return dict(seed=draw(gens.seeds), size=[draw(st.tuples(st.integers(30, 60), st.integers(20, 50))) for _ in range(2)], lens=[draw(st.sampled_from(["LENSMODEL_PINHOLE", "LENSMODEL_OPENCV4", "LENSMODEL_CAHVOR", "LENSMODEL_STEREOGRAPHIC"])) for _ in range(2)], mode=draw(st.sampled_from(["to", "to", "pinhole", "both"])),
                intr=draw(st.booleans()), dist=draw(st.sampled_from([None, None, 3.])), plane=draw(st.booleans()), fit=draw(st.sampled_from([None, "corners", "centers-horizontal", "centers-vertical", "points", "fpoints"])), sf=draw(st.sampled_from([None, .7, 1.5])), si=draw(st.sampled_from([None, .5, 1.7])), outdir=draw(st.booleans()), force=draw(st.booleans()), exists=draw(st.booleans()),
                region=draw(st.sampled_from([None, "draw", "mask"])), n=draw(st.integers(1, 3)), color=draw(st.booleans()), kind=draw(st.sampled_from(["u1", "u1", "u2"])), bad=draw(st.sampled_from([None] * 6 + ["size", "broken"])), jobs=draw(st.sampled_from([None] * 9 + [2])))


@C.facet("reproject", reproj(), quick=800, thorough=10000)
def reproject(c):
    r = np.random.default_rng(c["seed"])
    M = []
    for k in range(2):
        s = np.array(c["size"][k])
        t = np.concatenate((r.uniform(-.1, .1, 3), r.uniform(-.3, .3, 3)))
        reg = np.array([(3.2, 2.1), (s[0] - 4, 3), (s[0] - 6, s[1] - 4), (2, s[1] - 3)]) if c["region"] else None
        M.append(mrcal.cameramodel(intrinsics=lens(r, c["lens"][k], s, False), imagersize=s, rt_cam_ref=t, valid_intrinsics_region=reg))
    with scratch():
        for k in range(2):
            M[k].write("m%d.cameramodel" % k)
        M = [mrcal.cameramodel("m%d.cameramodel" % k) for k in range(2)]
        args = []
        out = "."
        if c["outdir"]:
            os.mkdir("o")
            out = "o"
            args += ["--outdir", "o"]
        if c["force"]:
            args += ["--force"]
        if c["jobs"]:
            args += ["--jobs", c["jobs"]]
        both = c["mode"] == "both"
        kw = dict(intrinsics_only=False)
        kwt = dict(intrinsics_only=False)
        if c["mode"] != "pinhole":
            if c["plane"]:
                n = np.round(np.array((*r.uniform(-.2, .2, 2), 1.)) * r.uniform(.5, 2), 4)
                kw.update(plane_n=n, plane_d=4.5)
                args += ["--plane-n"] + ["%.4f" % x for x in n] + ["--plane-d", "4.5"]
            elif c["intr"]:
                kw.update(intrinsics_only=True)
                kwt.update(intrinsics_only=True)
                args += ["--intrinsics-only"]
            elif c["dist"]:
                kw.update(distance=c["dist"])
                kwt.update(distance=c["dist"])
                args += ["--distance", c["dist"]]
        if c["region"] == "draw":
            args += ["--valid-intrinsics-region"]
        elif c["region"] == "mask":
            kw.update(mask_valid_intrinsics_region_from=True)
            kwt.update(mask_valid_intrinsics_region_from=True)
            args += ["--mask-valid-intrinsics-region"]
        target = M[1]
        if c["mode"] != "to":
            base = M[0] if c["mode"] == "pinhole" else M[1]
            fit, fk = c["fit"], {}
            if fit in ("points", "fpoints"):
                w, h = base.imagersize()
                fit = [1, 1, w - 3, 2, w - 2, h - 4] if fit == "points" else [1.5, 1.25, w - 3.5, 2, w - 2, h - 4.75]
                args += ["--fit", ",".join(str(x) for x in fit)]
                fit = np.array(fit, float).reshape(-1, 2)
            elif fit:
                args += ["--fit", fit]
            if fit is None and c["sf"]:
                args += ["--scale-focal", c["sf"]]
                fk.update(scale_focal=c["sf"])
            if c["si"]:
                args += ["--scale-image", c["si"]]
                fk.update(scale_image=c["si"])
            args += ["--to-pinhole"]
            target = mrcal.pinhole_model_for_reprojection(base, fit, **fk)
        images = [[], []]
        for k in range(2 if both else 1):
            for j in range(c["n"]):
                s = M[k].imagersize()
                y, x = np.mgrid[:s[1], :s[0]]
                im = np.stack([127 + 60 * np.sin(x * r.uniform(.05, .3) + y * r.uniform(.05, .3) + i) + 60 * np.sin(x * r.uniform(-.2, .3) + i + y * r.uniform(.05, .3)) for i in range(3)], -1)
                im = np.round(im * (1 if c["kind"] == "u1" else 200)).astype(c["kind"])
                if not c["color"] or c["kind"] == "u2":
                    im = im[..., 0].copy()
                f = "im%d_%d.png" % (k, j)
                if c["bad"] == "size" and j == 0:
                    im = im[:-2].copy()
                mrcal.save_image(f, im)
                if c["bad"] == "broken" and j == 0:
                    open(f, "w").write("nothing")
                images[k].append((f, im))
        suffix = ["pinhole-remapped", "pinhole"] if both else ["reprojected"]
        outs = {}
        for k, suf in enumerate(suffix):
            for f, im in images[k]:
                outs["%s/%s-%s.png" % (out, f[:-4], suf)] = k, im
        taken = None
        if c["exists"]:
            taken = sorted(outs)[-1]
            open(taken, "w").write("here first")
        before = set(os.listdir(out))
        args += ["m0.cameramodel"] + (["m1.cameramodel"] if c["mode"] != "pinhole" else []) + ["im0_?.png"] + (["im1_?.png"] if both else [])
        o = run("mrcal-reproject-image", args)
        if "UNCAUGHT" in o.err:
            raise Violation("mrcal-reproject-image %s: %s" % (args, o.err[-400:]))
        label("%s%s" % (c["mode"], " bad" if c["bad"] else ""))
        if c["exists"] and not c["force"]:
            if not o.rc:
                raise Violation("an existing output file was accepted")
            if open(taken).read() != "here first":
                raise Violation("an existing file was overwritten")
            return
        if c["bad"]:
            if not o.rc:
                raise Violation("an image that couldn't be processed (%s) isn't reported in the exit status: %s" % (c["bad"], o.err[-200:]))
        elif o.rc:
            raise Violation("mrcal-reproject-image %s failed: %s" % (args, o.err[-400:]))
        maps = [mrcal.image_transformation_map(M[0], target, **kw)] + ([mrcal.image_transformation_map(M[1], target, **kwt)] if both else [])
        for f, (k, im) in outs.items():
            if c["bad"] and "_0-" in f:
                if os.path.exists(f) and f != taken:
                    raise Violation("%s was written" % f)
                continue
            if not os.path.exists(f):
                raise Violation("%s wasn't written" % f)
            g = mrcal.load_image(f)
            w = im
            if c["region"] == "draw":
                w = im.copy()
                mrcal.annotate_image__valid_intrinsics_region(w, M[k])
            w = mrcal.transform_image(w, maps[k])
            if g.shape != w.shape or g.dtype != w.dtype or (g != w).any():
                raise Violation("%s isn't the image resampled at the transformation map: shape %s %s" % (f, g.shape, w.shape))
        extra = set(os.listdir(out)) - before - {os.path.basename(f) for f in outs}
        if extra:
            raise Violation("also wrote %s" % extra)
        if c["mode"] != "to":
            open("target.cameramodel", "w").write(o.out)
            m = mrcal.cameramodel("target.cameramodel")
            if m.intrinsics()[0] != "LENSMODEL_PINHOLE" or np.abs(m.intrinsics()[1] - target.intrinsics()[1]).max() > 1e-6 * np.abs(target.intrinsics()[1]).max() or (m.imagersize() != target.imagersize()).any() or np.abs(m.rt_cam_ref() - target.rt_cam_ref()).max() > 1e-7:
                raise Violation("the written pinhole model isn't the one that was used")


if __name__ == "__main__":
    C.main()
