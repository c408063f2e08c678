#!/usr/bin/python3
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Violation, label, trivial, reject, note
pbt.build_and_import()
import numpy as np
from hypothesis import strategies as st
import mrcal
import ref, gens
from gens import fl, vec
from cli import run, scratch

C = pbt.Check("C31", "mrcal-calibrate-cameras",
              "Cases: rigs of 1-3 cameras with drawn lenses, a drawn (warped) board in 8-14 poses, missing corners and images, decimation levels or weights, image names, noise, gross errors; with a seed or without; with each solver option. Oracle: the "
              "drawn truth. The written models must store the given observations, the solution must explain these at least as well as the truth does, and what was asked to be kept must be kept. Non-trivial: runs that produce models",
              assumptions=["the boards fill a good part of the images and are tilted; each camera sees at least 6 of them", "the initial focal length is within 25% of the truth"])

LEVELS = [0, 0, 0, 1, 2]


@st.composite
def rigs(draw, seed=None):
    c = dict(seed=draw(gens.seeds), N=draw(st.sampled_from([1, 1, 2, 2, 2, 3])), W=draw(st.integers(5, 9)), H=draw(st.integers(5, 9)), sp=10**draw(fl(-2, 0)), frames=draw(st.integers(8, 14)), f=draw(fl(.7, 1.6)), aspect=draw(st.sampled_from([1., 1., .97, 1.05])),
             lens=draw(st.sampled_from(["LENSMODEL_PINHOLE", "LENSMODEL_STEREOGRAPHIC", "LENSMODEL_OPENCV4", "LENSMODEL_OPENCV4", "LENSMODEL_OPENCV5", "LENSMODEL_OPENCV8", "LENSMODEL_CAHVOR", "splined"])), amp=draw(fl(0, 1)), warp=draw(st.booleans()), skip_warp=draw(st.booleans()),
             noise=draw(st.sampled_from([0., 0., .1, .5])), outliers=draw(st.sampled_from([0, 0, 0, 4])), skip_reg=draw(st.booleans()), skip_out=draw(st.booleans()), missing=draw(st.sampled_from([0., 0., .05, .3])), weights=draw(st.booleans()), names=draw(st.integers(0, 3)),
             first=draw(st.sampled_from([0, 1, 7, 95])), step=draw(st.sampled_from([1, 1, 3])), ferr=draw(fl(.8, 1.25)), flist=draw(st.booleans()), pairs=draw(st.booleans()), sizes=draw(st.sampled_from(["arg", "arg", "images"])), square=draw(st.booleans()),
             spacing=draw(st.sampled_from([True, True, True, False])), same=draw(st.booleans()), region=draw(st.sampled_from([None, None, [1, .5, 1.5, 3, 0], [2, 5, 4, 1, 3]])))
    return c


def make(c, lens=None):
    """the true rig, and its observations"""
    r = np.random.default_rng(c["seed"])
    N = c["N"]
    lens = lens or c["lens"]
    W, H, sp = c["W"], c["H"] if not c["square"] else c["W"], c["sp"] if c["spacing"] else .1
    size = np.array((W - 1, H - 1)) * sp
    g = np.zeros((H, W, 3))
    g[..., 0], g[..., 1] = np.meshgrid(np.arange(W) * sp, np.arange(H) * sp)
    warp = r.uniform(-.01, .01, 2) * size.max() if c["warp"] and not c["skip_warp"] else np.zeros(2)
    x, y = g[..., 0] / size[0], g[..., 1] / size[1]
    g[..., 2] = warp[0] * 4 * x * (1 - x) + warp[1] * 4 * y * (1 - y)
    sizes, intr, ext = [], [], []
    for k in range(N):
        s = r.integers(500, 2500, 2) if k == 0 or c["sizes"] == "images" and not c["same"] else sizes[0]
        s = np.array((s[0], int(np.clip(s[1], s[0] * .6, s[0] * 1.5))))
        sizes.append(s)
        f = c["f"] * s.max() * (1 if c["same"] else r.uniform(.9, 1.1))
        co = np.array((f, f * c["aspect"], (s[0] - 1) / 2 + r.uniform(-.03, .03) * s[0], (s[1] - 1) / 2 + r.uniform(-.03, .03) * s[1]))
        a = c["amp"]
        if lens == "LENSMODEL_OPENCV4":
            d = r.uniform(-1, 1, 4) * (.15 * a, .05 * a, .003 * a, .003 * a)
        elif lens == "LENSMODEL_OPENCV5":
            d = r.uniform(-1, 1, 5) * (.15 * a, .05 * a, .003 * a, .003 * a, .02 * a)
        elif lens == "LENSMODEL_OPENCV8":
            d = r.uniform(-1, 1, 8) * (.1 * a, .03 * a, .002 * a, .002 * a, .01 * a, .05 * a, .02 * a, .01 * a)
        elif lens == "LENSMODEL_CAHVOR":
            d = r.uniform(-1, 1, 5) * (.01, .01, .02 * a, .1 * a, .05 * a)
        elif lens.startswith("LENSMODEL_SPLINED"):
            co[:2] = f
            co[2:] = (s - 1) / 2
            d = np.zeros(mrcal.lensmodel_num_params(lens) - 4)
        else:
            d = np.zeros(0)
        intr.append(np.concatenate((co, d)))
        ext.append(np.zeros(6) if k == 0 else np.concatenate((r.uniform(-.08, .08, 3), r.uniform(-.3, .3, 3) * size.max())))
    Rt = [ref.Rt_from_rt(e) for e in ext]
    obs, frames = {}, []
    for _ in range(200):
        if len(frames) >= c["frames"]:
            break
        # aim at a camera
        k = int(r.integers(N))
        s, i = sizes[k], intr[k]
        z = i[0] * size.max() / s.max() / r.uniform(.35, .75)
        q = r.uniform(.25, .75, 2) * s
        p = np.array(((q[0] - i[2]) / i[0] * z, (q[1] - i[3]) / i[1] * z, z))
        R = ref.R_from_r(r.uniform(-1, 1, 3) * (.6, .6, .4))
        T = np.vstack((R, (p - R @ g.reshape(-1, 3).mean(0))[None]))
        T = ref.compose_Rt(ref.invert_Rt(Rt[k]), T)
        here = {}
        for j in range(N):
            pc = ref.transform_Rt(ref.compose_Rt(Rt[j], T), g)
            if (pc[..., 2] < .1 * size.max()).any():
                continue
            q = mrcal.project(pc, lens, intr[j])
            ok = ((q > 1) & (q < sizes[j] - 2)).all(-1)
            if ok.mean() > .7:
                here[j] = q, ok
        if k in here:
            n = len(frames)
            frames.append(T)
            for j, (q, ok) in here.items():
                obs[n, j] = q, ok
    cnt = [sum(1 for _, j in obs if j == k) for k in range(N)]
    M = np.array([[sum(1 for n in range(len(frames)) if (n, a) in obs and (n, b) in obs) for b in range(N)] for a in range(N)])
    # everything is linked well
    linked = {0}
    while True:
        more = {b for a in linked for b in range(N) if M[a, b] >= 4} - linked
        if not more:
            break
        linked |= more
    if len(frames) < 8 or min(cnt) < 6 or len(linked) < N:
        reject()
    # the table
    table = {}
    bad = set()
    for (n, j), (q, ok) in sorted(obs.items()):
        q = q + r.normal(0, c["noise"], q.shape) * 1. if c["noise"] else q.copy()
        lev = np.array([LEVELS[x] for x in r.integers(0, len(LEVELS), q.shape[:2]).ravel()]).reshape(q.shape[:2])
        w = .5**lev if not c["weights"] else np.round(r.uniform(.2, 1.5, q.shape[:2]), 3)
        gone = ~ok | (r.random(q.shape[:2]) < c["missing"])
        if (~gone).sum() < .6 * gone.size:
            gone = ~ok
        table[n, j] = [q, lev, w, gone]
    keys = sorted(table)
    for _ in range(c["outliers"]):
        k = keys[int(r.integers(len(keys)))]
        y, x = int(r.integers(H)), int(r.integers(W))
        if not table[k][3][y, x] and (k, y, x) not in bad and sum(b[0] == k for b in bad) < 2:
            th = r.uniform(0, 6.3)
            q = table[k][0][y, x] + np.array((np.cos(th), np.sin(th))) * r.uniform(60, 200)
            if (q > 0).all():
                table[k][0][y, x] = q
                bad.add((k, y, x))
    return dict(r=r, W=W, H=H, sp=sp, warp=warp, sizes=sizes, intr=intr, Rt=Rt, frames=frames, table=table, bad=bad, lens=lens)


def name(c, n, k):
    num = c["first"] + n * c["step"]
    return ["cam%d-%d.png" % (k, num), "cam%d/img%05d.png" % (k, num), "d/%s%03d-x.png" % ("abc"[k], num), "cam%d/frame%d_1.png" % (k, num)][c["names"]]


def globs(c, k):
    return ["cam%d-*.png" % k, "cam%d/*.png" % k, "d/%s*-x.png" % "abc"[k], "cam%d/frame*_1.png" % k][c["names"]]


def write_table(c, P, path):
    r = P["r"]
    keys = [tuple(k) for k in r.permutation(sorted(P["table"]))]
    with open(path, "w") as f:
        f.write("# filename x y %s\n" % ("weight" if c["weights"] else "level"))
        for i, k in enumerate(keys):
            q, lev, w, gone = P["table"][k]
            for y in range(P["H"]):
                for x in range(P["W"]):
                    if gone[y, x]:
                        f.write("%s - - -\n" % name(c, *k) if (x + y) % 2 else "%s %.3f %.3f -\n" % (name(c, *k), *np.abs(q[y, x])))
                    else:
                        f.write("%s %r %r %s\n" % (name(c, *k), float(q[y, x, 0]), float(q[y, x, 1]), repr(float(w[y, x])) if c["weights"] else lev[y, x]))
            if i % 5 == 0:      # this one saw nothing
                f.write("%s - - -\n" % name(c, 500 + i, k[1]))


def args0(c, P):
    a = ["--corners-cache", "corners.vnl", "--object-width-n", P["W"]]
    if not c["square"]:
        a += ["--object-height-n", P["H"]]
    if c["spacing"]:
        a += ["--object-spacing", repr(float(P["sp"]))]
    if c["weights"]:
        a += ["--corners-cache-has-weights"]
    if c["skip_reg"]:
        a += ["--skip-regularization"]
    if c["skip_warp"]:
        a += ["--skip-calobject-warp-solve"]
    if c["skip_out"]:
        a += ["--skip-outlier-rejection"]
    if c["pairs"] and c["N"] % 2 == 0:
        a += ["--pairs"]
    if c["region"]:
        a += ["--valid-intrinsics-region-parameters"] + c["region"]
    return a


def size_args(c, P):
    if c["sizes"] == "arg":
        return ["--imagersize"] + [int(x) for x in P["sizes"][0]]
    for (n, k) in P["table"]:
        f = name(c, n, k)
        if os.path.dirname(f):
            os.makedirs(os.path.dirname(f), exist_ok=True)
        if not os.path.exists(f):
            mrcal.save_image(f, np.zeros(P["sizes"][k][::-1], np.uint8))
    return []


def judge(c, P, o, seeded=False):
    N = c["N"]
    if "Traceback" in o.err or "UNCAUGHT" in o.err or o.rc:
        raise Violation("mrcal-calibrate-cameras failed: %s" % o.err[-600:])
    files = ["camera%d-%d.cameramodel" % (k // 2, k % 2) if c["pairs"] and c["N"] % 2 == 0 else "camera-%d.cameramodel" % k for k in range(N)]
    if sorted(f for f in os.listdir("out")) != sorted(files):
        raise Violation("wrote %s; should write %s" % (sorted(os.listdir("out")), files))
    M = [mrcal.cameramodel("out/" + f) for f in files]
    oi = M[0].optimization_inputs()
    keys = sorted(P["table"])
    W, H = P["W"], P["H"]
    idx = oi["indices_frame_camintrinsics_camextrinsics"]
    fr = {n: i for i, n in enumerate(sorted({n for n, _ in keys}))}
    if idx.tolist() != [[fr[n], k, k - 1] for n, k in keys]:
        raise Violation("the observation indices are %s; should be %s" % (idx.tolist(), [[fr[n], k, k - 1] for n, k in keys]))
    ob = oi["observations_board"]
    want = np.array([np.concatenate((P["table"][k][0], P["table"][k][2][..., None]), -1) for k in keys])
    gone = np.array([P["table"][k][3] for k in keys])
    if ob.shape != want.shape or (ob[gone][:, 2] > 0).any() or np.abs(ob[~gone][:, :2] - want[~gone][:, :2]).max() > 1e-6:
        raise Violation("the observations stored in the model aren't those in the table")
    out = ~gone & (ob[..., 2] <= 0)
    if np.abs(np.abs(ob[..., 2]) - want[..., 2])[~gone & ~out].max() > 1e-9:
        raise Violation("the weights stored in the model aren't those in the table")
    if c["skip_out"] and out.any():
        raise Violation("outliers were rejected in spite of --skip-outlier-rejection")
    if [name(c, *k) for k in keys] != list(oi["imagepaths"]):
        raise Violation("imagepaths = %s" % list(oi["imagepaths"]))
    if oi["calibration_object_spacing"] != P["sp"]:
        raise Violation("calibration_object_spacing = %s" % oi["calibration_object_spacing"])
    if (oi.get("calobject_warp") is None) != c["skip_warp"] or bool(oi["do_optimize_calobject_warp"]) != (not c["skip_warp"]) or bool(oi["do_apply_regularization"]) != (not c["skip_reg"]) or bool(oi["do_apply_outlier_rejection"]) != (not c["skip_out"]):
        raise Violation("the options aren't those asked for")
    if len(oi["rt_ref_frame"]) != len(fr) or len(oi["rt_cam_ref"]) != N - 1:
        raise Violation("%d frames and %d cameras" % (len(oi["rt_ref_frame"]), 1 + len(oi["rt_cam_ref"])))
    for k, m in enumerate(M):
        if m.intrinsics()[0] != P["lens"] or m.imagersize().tolist() != P["sizes"][k].tolist():
            raise Violation("model %d: %s, %s" % (k, m.intrinsics()[0], m.imagersize()))
        if np.abs(m.intrinsics()[1] - oi["intrinsics"][k]).max() > 1e-6 * np.abs(oi["intrinsics"][k]).max() or np.abs(m.rt_cam_ref() - (oi["rt_cam_ref"][k - 1] if k else 0)).max() > 1e-6:
            raise Violation("model %d isn't the one in its optimization_inputs" % k)
        if m.icam_intrinsics() != k:
            raise Violation("icam_intrinsics of model %d: %s" % (k, m.icam_intrinsics()))
        v = m.valid_intrinsics_region()
        if v is not None and len(v) and ((v < -1e-6).any() or (v > m.imagersize() - 1 + 1e-6).any()):
            raise Violation("the valid-intrinsics region of model %d leaves the imager: %s" % (k, v))
        label("region: %s" % ("none" if v is None else "empty" if not len(v) else "some"))
    x = mrcal.optimizer_callback(**oi, no_jacobian=True, no_factorization=True)[1]
    nb = mrcal.num_measurements_boards(**oi)
    # what is reported
    inl = ~gone & ~out
    rms = np.sqrt((x**2).mean())
    m = re.search(r"RMS reprojection error: (.*) pixels", o.out)
    if not m or abs(float(m.group(1)) - rms) > .0501:
        raise Violation("the reported RMS error is %s; it's %s" % (m and m.group(1), rms))
    m = re.search(r"Worst residual \(by measurement\): (.*) pixels", o.out)
    worst = np.sqrt((x[:nb].reshape(-1, 2)**2).sum(-1).max())
    if not m or abs(float(m.group(1)) - worst) > .0501:
        raise Violation("the reported worst residual is %s; it's %s" % (m and m.group(1), worst))
    m = re.search(r"Noutliers: (\d+) out of (\d+)", o.out)
    if (m is None) != c["skip_out"] or m and int(m.group(2)) != W * H * len(keys):
        raise Violation("the report of the outliers is wrong: %s" % o.out[-300:])
    if m and int(m.group(1)) not in (out.sum(), (out | gone).sum()):
        raise Violation("reported %s outliers; there are %d" % (m.group(1), out.sum()))
    return M, oi, x, nb, inl, out, keys


def truth_cost(P, oi):
    """total cost of the truth, with the weights of the solution"""
    t = dict(oi)
    t["intrinsics"] = np.array(P["intr"])
    t["rt_cam_ref"] = np.array([ref.rt_from_Rt(x) for x in P["Rt"][1:]]).reshape(-1, 6)
    t["rt_ref_frame"] = np.array([ref.rt_from_Rt(P["frames"][n]) for n in sorted({n for n, _ in P["table"]})])
    if t.get("calobject_warp") is not None:
        t["calobject_warp"] = np.array(P["warp"])
    return mrcal.optimizer_callback(**t, no_jacobian=True, no_factorization=True)[1]


@C.facet("calibrate", rigs(), quick=100, thorough=2500)
def calibrate(c):
    if c["lens"] == "splined":
        c["same"] = True
    lens = c["lens"] if c["lens"] != "splined" else "LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=9_Ny=8_fov_x_deg=100"
    P = make(c, lens if c["lens"] != "splined" else "LENSMODEL_OPENCV4")
    P["lens"] = lens
    np.random.seed(c["seed"] % 2**31)
    f = ["%.6f" % (i[0] * c["ferr"]) for i in P["intr"]]
    with scratch():
        os.mkdir("out")
        write_table(c, P, "corners.vnl")
        o = run("mrcal-calibrate-cameras", args0(c, P) + size_args(c, P) + ["--lensmodel", lens, "--focal", ",".join(f) if c["flist"] or not c["same"] else f[0], "--outdir", "out"] + [globs(c, k) for k in range(c["N"])])
        M, oi, x, nb, inl, out, keys = judge(c, P, o)
    label(c["lens"])
    rms = np.sqrt((x[:nb]**2).sum() / inl.sum() / 2)
    if c["lens"] == "splined":
        note("splined: RMS error, pixels, noise=%s" % c["noise"], rms)
        if not P["bad"] and not rms < max(.5, 1.1 * c["noise"]):
            raise Violation("the RMS error of the solution is %s pixels; the noise is %s" % (rms, c["noise"]))
        return
    if c["lens"] == "LENSMODEL_CAHVOR":
        # From a seed with a symmetric lens the solver may settle in a local minimum: the axis of the distortion has no gradient where there is no distortion
        note("CAHVOR: RMS error, pixels, noise=%s" % c["noise"], rms)
        if not P["bad"] and not rms < max(2, 1.1 * c["noise"]):
            raise Violation("the RMS error of the solution is %s pixels; the noise is %s" % (rms, c["noise"]))
        return
    xt = truth_cost(P, oi)
    ratio = (x @ x) / (xt @ xt + nb * 1e-6)
    note("cost of the solution, relative to that of the truth", ratio)
    if not ratio < 1.02:
        raise Violation("the cost of the solution is %s (RMS %s pixels); that of the truth is %s (RMS %s pixels)" % (x @ x, rms, xt @ xt, np.sqrt((xt[:nb]**2).sum() / inl.sum() / 2)))
    if P["bad"] and not c["skip_out"]:
        b = [bool(out[keys.index(k)][y, x_]) for k, y, x_ in P["bad"]]
        w = [P["table"][k][2][y, x_] for k, y, x_ in P["bad"]]
        label("outliers")
        if not all(b):
            raise Violation("a gross error wasn't rejected: %s" % [(k, y, x_) for k, y, x_ in P["bad"] if not out[keys.index(k)][y, x_]])
    if c["noise"] == 0 and not P["bad"] and c["skip_reg"]:
        for k in range(1, c["N"]):
            th = ref.angle_between_R(ref.Rt_from_rt(oi["rt_cam_ref"][k - 1])[:3], P["Rt"][k][:3])
            note("error of the relative orientations, rad, without noise", th)


@C.facet("seed", st.tuples(rigs(), st.fixed_dictionaries(dict(ext=st.booleans(), intr=st.booleans(), err=st.sampled_from([0., .003]), rt=gens.rtvec(), glob=st.booleans()))), quick=60, thorough=1500)
def seed(a):
    c, s = a
    if c["lens"] == "splined":
        c["lens"] = "LENSMODEL_OPENCV4"
    c["weights"] = c["weights"] and not c["outliers"]
    P = make(c)
    r = P["r"]
    np.random.seed(c["seed"] % 2**31)
    S = []
    for k in range(c["N"]):
        i = P["intr"][k].copy()
        if not s["intr"]:
            i[:4] *= 1 + s["err"] * r.uniform(-1, 1, 4)
        e = np.zeros(6)
        if not s["ext"] and k:
            e = s["err"] * r.uniform(-1, 1, 6)
            e[3:] *= P["sp"] * 5
        Rt = ref.compose_Rt(ref.Rt_from_rt(e), P["Rt"][k], ref.Rt_from_rt(np.array(s["rt"])))
        S.append(mrcal.cameramodel(intrinsics=(P["lens"], i), imagersize=P["sizes"][k], Rt_cam_ref=Rt))
    with scratch():
        os.mkdir("out")
        for k, m in enumerate(S):
            m.write("seed%d.cameramodel" % k)
        write_table(c, P, "corners.vnl")
        args = args0(c, P) + ["--seed", "seed*.cameramodel" if s["glob"] else ",".join("seed%d.cameramodel" % k for k in range(c["N"]))]
        if s["ext"]:
            args += ["--skip-extrinsics-solve"]
        if s["intr"]:
            args += ["--skip-intrinsics-solve"]
        o = run("mrcal-calibrate-cameras", args + ["--outdir", "out"] + [globs(c, k) for k in range(c["N"])])
        M, oi, x, nb, inl, out, keys = judge(c, P, o, True)
    label("%s %s" % ("keep ext" if s["ext"] else "", "keep intr" if s["intr"] else ""))
    if bool(oi["do_optimize_extrinsics"]) != (not s["ext"]) or bool(oi["do_optimize_intrinsics_core"]) != (not s["intr"]) or bool(oi["do_optimize_intrinsics_distortions"]) != (not s["intr"]):
        raise Violation("the options aren't those asked for")
    for k in range(c["N"]):
        if s["intr"] and np.abs(M[k].intrinsics()[1] - S[k].intrinsics()[1]).max() > 1e-9 * np.abs(S[k].intrinsics()[1]).max():
            raise Violation("--skip-intrinsics-solve: intrinsics of camera %d changed" % k)
        if s["ext"] and k:
            want = ref.compose_Rt(ref.Rt_from_rt(S[k].rt_cam_ref()), ref.invert_Rt(ref.Rt_from_rt(S[0].rt_cam_ref())))
            if np.abs(want - ref.Rt_from_rt(M[k].rt_cam_ref())).max() > 1e-7 * (1 + np.abs(S[k].rt_cam_ref()[3:]).max() + np.abs(S[0].rt_cam_ref()[3:]).max()):
                raise Violation("--skip-extrinsics-solve: the relative pose of camera %d changed" % k)
    xt = truth_cost(P, oi)
    ratio = (x @ x) / (xt @ xt + nb * 1e-6)
    note("seed: cost of the solution, relative to that of the truth", ratio)
    if not ratio < 1.02:
        raise Violation("the cost of the solution is %s; that of the truth is %s" % (x @ x, xt @ xt))


WHATS = ["focal+seed", "neither", "nolens", "skipext", "skipintr", "pairs", "focal-count", "focal<0", "nocamera", "wrong-count", "wrong-size", "seed-count", "seed-size", "seed-lens", "nosize", "outdir"]


@C.facet("refused", rigs(), quick=10, thorough=120)
def refused(c):
    c.update(N=2, noise=0., lens="LENSMODEL_PINHOLE", sizes="arg", pairs=False)
    P = make(c)
    for what in WHATS:
        refuse(c, P, what)


def refuse(c, P, what):
    f = ["--focal", "%.3f" % P["intr"][0][0]]
    lens = ["--lensmodel", c["lens"]]
    g = [globs(c, k) for k in range(2)]
    args, size, out = args0(c, P), size_args(c, P), ["--outdir", "out"]
    with scratch():
        os.mkdir("out")
        for k in range(3):
            mrcal.cameramodel(intrinsics=("LENSMODEL_OPENCV4", np.concatenate((P["intr"][0], np.zeros(4)))) if what == "seed-lens" and k == 1 else (c["lens"], P["intr"][k % 2]), imagersize=P["sizes"][k % 2] + (what == "seed-size")).write("s%d.cameramodel" % k)
        sd = ["--seed", "s0.cameramodel,s1.cameramodel"]
        write_table(c, P, "corners.vnl")
        if what == "focal+seed":
            a = f + sd
        elif what == "neither":
            a = lens
        elif what == "nolens":
            a = f
        elif what == "skipext":
            a = f + lens + ["--skip-extrinsics-solve"]
        elif what == "skipintr":
            a = f + lens + ["--skip-intrinsics-solve"]
        elif what == "pairs":
            a, g = f + lens + ["--pairs"], g[:1]
        elif what == "focal-count":
            a = ["--focal", "500,500,500"] + lens
        elif what == "focal<0":
            a = ["--focal=-500"] + lens
        elif what == "nocamera":
            a, g = f + lens, [g[0], "nothing*.png"]
        elif what == "wrong-count":
            a, args = f + lens, ["--corners-cache", "corners.vnl", "--object-width-n", P["W"] + 1, "--object-height-n", P["H"]]
        elif what == "wrong-size":
            mkdirs = os.path.dirname(name(c, 0, 0))
            if mkdirs:
                for k in range(2):
                    os.makedirs(os.path.dirname(name(c, 0, k)), exist_ok=True)
            for n, k in P["table"]:
                mrcal.save_image(name(c, n, k), np.zeros(P["sizes"][k][::-1] // 2, np.uint8))
            a = f + lens
        elif what == "seed-count":
            a = ["--seed", "s*.cameramodel"]
        elif what == "seed-size":
            a = sd
        elif what == "seed-lens":
            a, size = sd, []
        elif what == "nosize":
            a, size = f + lens, []
        else:
            a, out = f + lens, ["--outdir", "nowhere"]
        o = run("mrcal-calibrate-cameras", args + size + a + out + g)
        label(what)
        if not o.rc:
            raise Violation("%s was accepted" % what)
        if "UNCAUGHT" in o.err:
            raise Violation("%s: %s" % (what, o.err[-300:]))
        if os.listdir("out"):
            raise Violation("%s: files were written" % what)


if __name__ == "__main__":
    C.main()
