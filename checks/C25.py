#!/usr/bin/python3
import os, sys, io, contextlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Violation, label, trivial, reject, note
pbt.build_and_import()
import numpy as np
from hypothesis import strategies as st
import mrcal
import ref, gens
from gens import fl, vec

C = pbt.Check("C25", "calibration seeding",
              "Cases: rigs of 1-5 cameras, chained so that distant cameras may share nothing with camera 0 and may face anywhere; boards of any size and spacing, placed in view of the "
              "cameras; random subsets of observations, with corners marked invalid (and garbage in them) and corners outside of the imager; disconnected rigs. Oracle: the true poses. "
              "Non-trivial: every case with an expected pose",
              assumptions=["boards are in front of the cameras, within 65deg, and not seen edge-on; every board has at least 10 valid corners, not on a line",
                           "cv2.solvePnP() works on exact data: a board whose pose it gets wrong when called directly, with the same exact pinhole data, isn't judged"])


def board(c):
    g = np.zeros((c["H"], c["W"], 3))
    g[..., 0], g[..., 1] = np.meshgrid(np.arange(c["W"]), np.arange(c["H"]))
    return g * c["sp"]


@st.composite
def rigs(draw, maxcam=5, stereo=True):
    Ncam = draw(st.integers(1, maxcam))
    c = dict(Ncam=Ncam, W=draw(st.integers(3, 8)), H=draw(st.integers(3, 8)), sp=10**draw(fl(-2, 1)), seed=draw(gens.seeds), parent=[draw(st.integers(0, max(0, k - 1))) for k in range(Ncam)],
             link=[draw(st.integers(2, 4)) for _ in range(Ncam)], extra=draw(st.integers(0, 6)), invalid=draw(st.sampled_from([0., 0., .1, .4])), how=draw(st.sampled_from(["weight", "weight", "negative"])),
             perm=draw(st.booleans()))
    if not stereo:
        c["l"] = [draw(gens.lens(kinds=("pinhole", "simple", "opencv", "cahvor", "splined"), amp=.3)) for _ in range(Ncam)]
    return c


def make(c):
    r = np.random.default_rng(c["seed"])
    N = c["Ncam"]
    obj = board(c)
    size = ref.mag(obj[-1, -1])
    ctr = obj.reshape(-1, 3).mean(0)
    # the chain of cameras
    R = [np.vstack((np.eye(3), np.zeros((1, 3))))]
    for k in range(1, N):
        e = np.concatenate((r.uniform(-.4, .4, 3), r.uniform(-.3, .3, 3) * size))
        R.append(ref.compose_Rt(ref.Rt_from_rt(e), R[c["parent"][k]]))
    if c["perm"]:       # any camera may be camera 0
        p = r.permutation(N)
        R = [R[i] for i in p]
        R = [ref.compose_Rt(x, ref.invert_Rt(R[0])) for x in R]
        edges = [(int(np.argwhere(p == k)[0, 0]), int(np.argwhere(p == c["parent"][k])[0, 0])) for k in range(1, N)]
    else:
        edges = [(k, c["parent"][k]) for k in range(1, N)]
    # imagers
    sizes = [[int(x) for x in r.integers(200, 4000, 2)] for _ in range(N)]
    for s in sizes:
        if max(s) > 3 * min(s):
            s[0] = s[1]
    cams = []
    for k in range(N):
        W, H = sizes[k]
        if "l" in c:
            l = c["l"][k]
            th = np.radians(min(.6 * gens.maxdeg(l["m"]), 60))
            u = 2 * np.tan(th / 2) if "STEREO" in l["m"] else th if "LAT" in l["m"] else np.tan(th)
            f = np.hypot(W, H) / 2 / u
            i = np.array(l["i"])
            i[:4] = [f, f * 1.05, (W - 1) / 2 * 1.03, (H - 1) / 2 * .98]
            cams.append((l["m"], i))
        else:
            th = np.radians(r.uniform(30, 60))
            f = np.hypot(W, H) / 2 / (2 * np.tan(th / 2))
            cams.append(("LENSMODEL_STEREOGRAPHIC", np.array((f, f, (W - 1) / 2, (H - 1) / 2))))

    def see(k, B):
        """-> pixels or None"""
        p = ref.transform_Rt(R[k], B)
        n = p / ref.mag(p)[..., None]
        if np.any(n[..., 2] < np.cos(np.radians(65))) or np.any(p[..., 2] < .2 * size):
            return None
        # not edge-on
        nn = np.cross(p[0, -1] - p[0, 0], p[-1, 0] - p[0, 0])
        nn /= ref.mag(nn)
        if abs(nn @ n[c["H"] // 2, c["W"] // 2]) < .35:
            return None
        q = ref.project(cams[k][0], cams[k][1], p)
        if not np.all(np.isfinite(q)) or np.any(q < 0) or np.any(q > np.array(sizes[k]) - 1):
            return None
        with np.errstate(all="ignore"):      # inside the invertible region
            v = mrcal.unproject(q, *cams[k], normalize=True)
        if not np.all(np.isfinite(v)) or ref.mag(v - n).max() > 1e-7:
            return None
        # nor too small
        if np.ptp(q, axis=(0, 1)).max() < 20:
            return None
        return q

    def place(ks):
        k0 = ks[0]
        for _ in range(60):
            d = size * 10**r.uniform(0, .7)
            th, ph = np.radians(r.uniform(0, 40)), r.uniform(0, 2 * np.pi)
            v = np.array((np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th))) * d
            e = r.normal(size=3)
            e *= r.uniform(0, .9) / ref.mag(e)
            T = ref.compose_Rt(ref.Rt_from_rt(np.concatenate((e, v))), ref.Rt_from_rt(np.array((0, 0, r.uniform(-np.pi, np.pi), 0, 0, 0))), np.vstack((np.eye(3), -ctr)))
            T = ref.compose_Rt(ref.invert_Rt(R[k0]), T)
            B = ref.transform_Rt(T, obj)
            if all(see(k, B) is not None for k in ks):
                return T
        reject()
    frames = []
    for (k, p), n in zip(edges, c["link"][1:]):
        for _ in range(n):
            frames.append((place([k, p]), [k, p]))
    for _ in range(c["extra"] + (1 if N == 1 else 0)):
        frames.append((place([int(r.integers(N))]), None))
    frames = [frames[i] for i in r.permutation(len(frames))]
    ifc, obs, tr_cam_board, tr_ref_board = [], [], [], []
    for f, (T, must) in enumerate(frames):
        B = ref.transform_Rt(T, obj)
        tr_ref_board.append(T)
        any_ = False
        vis = [k for k in range(N) if see(k, B) is not None]
        use = [k for k in vis if (must and k in must) or r.random() < .4] or vis[:1]
        for k in sorted(use):
            q = see(k, B)
            w = np.ones(q.shape[:2] + (1,)) * r.uniform(.1, 3)
            o = np.concatenate((q, w), -1)
            bad = r.random(q.shape[:2]) < c["invalid"]
            for _ in range(100):
                good = np.argwhere(~bad)
                if len(good) >= max(6, min(10, bad.size - 1)) and np.linalg.matrix_rank(good - good.mean(0)) == 2 and np.linalg.svd(good - good.mean(0))[1][-1] > 1:
                    break
                bad[tuple(r.integers(bad.shape))] = False
                bad &= r.random(bad.shape) < .9
            if c["how"] == "negative":
                o[bad] = (-1, -1, 1.)
                o[bad, 0] = np.where(r.random(bad.sum()) < .5, -1, 10)
            else:
                o[bad] = np.stack((r.uniform(-100, 5000, bad.sum()), r.uniform(-100, 5000, bad.sum()), -r.integers(0, 2, bad.sum())), -1)
            ifc.append((f, k))
            obs.append(o)
            tr_cam_board.append(ref.compose_Rt(R[k], T))
    return dict(ifc=np.array(ifc, np.int32), obs=np.array(obs), cams=cams, sizes=sizes, R=R, cam_board=tr_cam_board, ref_board=tr_ref_board, obj=obj, size=size, edges=edges)


def pnp_is_right(c, P):
    """cv2.solvePnP() sometimes converges to a wrong pose. That isn't judged"""
    import cv2
    obj = P["obj"]
    for (f, k), o, T in zip(P["ifc"], P["obs"], P["cam_board"]):
        p = ref.transform_Rt(T, obj)
        ok = (o[..., 2] > 0) & np.all(o[..., :2] >= 0, -1)
        F = P["cams"][k][1]
        K = np.array(((F[0], 0, F[2]), (0, F[1], F[3]), (0, 0, 1.)))
        q = p[..., :2] / p[..., 2:] * F[:2] + F[2:4]
        res, rv, tv = cv2.solvePnP(obj[ok], q[ok], K, None)
        if tv[2] <= 0:
            return False
        got = ref.Rt_from_rt(np.concatenate((rv.ravel(), tv.ravel())))
        if pose_error(got, T, P) > 1e-5:
            return False
    return True


def pose_error(got, T, P):
    p = ref.transform_Rt(T, P["obj"])
    return float((ref.mag(ref.transform_Rt(got, P["obj"]) - p) / ref.mag(p)).max())


@C.facet("monocular", rigs(maxcam=2, stereo=False), quick=500, thorough=12000, shards=3)
def monocular(c):
    P = make(c)
    label("%s%s" % (P["cams"][0][0][10:17], " invalid" if c["invalid"] else ""))
    r = np.random.default_rng(c["seed"])
    ms = [m if r.random() < .5 else mrcal.cameramodel(intrinsics=m, imagersize=s) for m, s in zip(P["cams"], P["sizes"])]
    obs0 = P["obs"].copy()
    try:
        got = mrcal.estimate_monocular_calobject_poses_Rt_tocam(P["ifc"], P["obs"], c["sp"], ms)
    except Exception:
        if not pnp_is_right(c, P):
            trivial()
            return
        raise
    if not np.array_equal(obs0, P["obs"]):
        raise Violation("the observations were modified")
    if got.shape != (len(P["ifc"]), 4, 3):
        raise Violation("shape is %s" % (got.shape,))
    e = [pose_error(g, T, P) for g, T in zip(got, P["cam_board"])]
    note("error", max(e))
    if not max(e) < 1e-4:
        if not pnp_is_right(c, P):
            trivial()
            return
        i = int(np.argmax(e))
        raise Violation("observation %d (%s): the board pose is %s; should be %s" % (i, P["cams"][P["ifc"][i, 1]][0], got[i], P["cam_board"][i]))


@C.facet("seed", rigs(), quick=500, thorough=12000, shards=3)
def seed(c):
    P = make(c)
    N = c["Ncam"]
    r = np.random.default_rng(c["seed"])
    f = [m[1][0] for m in P["cams"]]
    how = r.integers(4)
    if N == 1 and how == 3:
        f = float(f[0])
    elif N == 1 and how == 2:
        f = np.array(f)
    elif how == 1:
        f = np.array(f)
    elif how == 2:
        f = tuple(f)
    label("%d cameras, %d levels%s" % (N, depth(P["edges"]), " invalid" if c["invalid"] else ""))
    try:
        got = mrcal.seed_stereographic(P["sizes"] if r.random() < .5 else np.array(P["sizes"]), f, P["ifc"], P["obs"], c["sp"])
    except Exception:
        if not pnp_is_right(c, P):
            trivial()
            return
        raise
    I, rc, rf = got
    if I.shape != (N, 4) or rc.shape != (N - 1, 6) or rf.shape != (len(P["ref_board"]), 6):
        raise Violation("shapes are %s %s %s" % (I.shape, rc.shape, rf.shape))
    if not np.allclose(I, [m[1] for m in P["cams"]], rtol=1e-12):
        raise Violation("intrinsics are %s; should be %s" % (I, [m[1] for m in P["cams"]]))
    e = []
    for k in range(1, N):
        T = ref.Rt_from_rt(rc[k - 1])
        e.append((ref.mag(ref.transform_Rt(T, np.eye(3) * P["size"]) - ref.transform_Rt(P["R"][k], np.eye(3) * P["size"])).max() / P["size"], "camera %d" % k, rc[k - 1], ref.rt_from_Rt(P["R"][k])))
    for k, T in enumerate(P["ref_board"]):
        B = ref.transform_Rt(T, P["obj"])
        e.append((ref.mag(ref.transform_Rt(ref.Rt_from_rt(rf[k]), P["obj"]) - B).max() / P["size"], "frame %d" % k, rf[k], ref.rt_from_Rt(T)))
    w = max(e, key=lambda x: x[0])
    note("error", w[0])
    if not w[0] < 1e-3:
        if not pnp_is_right(c, P):
            trivial()
            return
        raise Violation("%s: the pose is %s; should be %s" % w[1:])


def depth(edges):
    d = {0: 0}
    for _ in range(6):
        for a, b in edges:
            for x, y in ((a, b), (b, a)):
                if x in d and y not in d:
                    d[y] = d[x] + 1
    return max(d.values())


@C.facet("onefocal", rigs(maxcam=4), quick=60, thorough=1000)
def onefocal(c):
    """a single focal length is used for all the cameras"""
    P = make(c)
    if c["Ncam"] < 2:
        reject()
    f = float(P["cams"][0][1][0])
    r = []
    label("%d cameras" % c["Ncam"])
    for F in (f, [f], (f,), np.array((f,)), [f] * c["Ncam"], np.array([f] * c["Ncam"])):
        try:
            r.append(mrcal.seed_stereographic(P["sizes"], F, P["ifc"], P["obs"], c["sp"]))
        except Exception as e:
            r.append(repr(e).split("(")[0])
    for x in r[1:]:
        if isinstance(x, str) != isinstance(r[0], str) or (not isinstance(x, str) and not all(np.array_equal(a, b) for a, b in zip(x, r[0]))):
            raise Violation("the ways to specify one focal length produce different results: %s" % (r,))
    if isinstance(r[0], str):
        trivial()


@C.facet("disconnected", st.tuples(rigs(), st.sampled_from(["frames", "frames", "camera", "last"])), quick=150, thorough=3000)
def disconnected(case):
    c, how = case
    if c["Ncam"] < 2:
        reject()
    P = make(c)
    r = np.random.default_rng(c["seed"] + 9)
    N = c["Ncam"]
    ifc = P["ifc"]
    if how in ("camera", "last"):
        k = N - 1 if how == "last" else int(r.integers(1, N))
        keep = ifc[:, 1] != k
    else:
        # no frame is seen by both parts
        part = np.zeros(N, bool)
        part[r.permutation(np.arange(1, N))[:r.integers(1, N)]] = True
        keep = np.ones(len(ifc), bool)
        for f in np.unique(ifc[:, 0]):
            i = np.flatnonzero(ifc[:, 0] == f)
            s = part[ifc[i, 1]]
            if np.any(s) and not np.all(s):
                keep[i[s == (r.random() < .5)]] = False
        if len(np.unique(ifc[keep, 1])) < N and ifc[keep, 1].max() < N - 1:
            pass
    ifc = ifc[keep]
    if not len(ifc):
        reject()
    ifc = np.stack((np.unique(ifc[:, 0], return_inverse=True)[1].ravel(), ifc[:, 1]), -1).astype(np.int32)
    label(how)
    try:
        got = mrcal.seed_stereographic(P["sizes"], [m[1][0] for m in P["cams"]], ifc, P["obs"][keep], c["sp"])
    except Exception:
        return
    raise Violation("some cameras share no frames with camera 0 (the frames, cameras are %s), but there's no error: %s" % (ifc.tolist(), got[1]))


@C.facet("joint", st.tuples(rigs(), fl(-8, -1)), quick=300, thorough=6000)
def joint(case):
    """noisy monocular poses are merged: a fit to the mean positions of the corners"""
    c, s = case
    P = make(c)
    r = np.random.default_rng(c["seed"] + 5)
    s = 10**s
    Rt = np.array([ref.compose_Rt(ref.Rt_from_rt(np.concatenate((r.normal(size=3), r.normal(size=3) * P["size"])) * s), T) for T in P["cam_board"]])
    got = mrcal.estimate_joint_frame_poses(Rt, np.array(P["R"][1:]).reshape(-1, 4, 3), P["ifc"], c["W"], c["H"], c["sp"])
    label("%d cameras" % c["Ncam"])
    if got.shape != (len(P["ref_board"]), 6):
        raise Violation("shape is %s" % (got.shape,))
    obj = P["obj"].reshape(-1, 3)
    for f in range(len(got)):
        i = np.flatnonzero(P["ifc"][:, 0] == f)
        x = np.mean([ref.transform_Rt(ref.compose_Rt(ref.invert_Rt(P["R"][P["ifc"][j, 1]]), Rt[j]), obj) for j in i], 0)
        a, b = x - x.mean(0), obj - obj.mean(0)
        U, S, Vt = np.linalg.svd(a.T @ b)
        M = U @ np.diag((1, 1, np.linalg.det(U @ Vt))) @ Vt
        want = b @ M.T + x.mean(0)
        e = ref.mag(ref.transform_Rt(ref.Rt_from_rt(got[f]), obj) - want).max() / P["size"]
        if not e < 1e-8:
            raise Violation("frame %d, seen in %d observations: the pose %s isn't the best fit to the mean corners: off by %s sizes of the board" % (f, len(i), got[f], e))


if __name__ == "__main__":
    C.main()
