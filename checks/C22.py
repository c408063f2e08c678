#!/usr/bin/python3
import os, sys, io, contextlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Violation, label, trivial, reject, note
pbt.build_and_import()
import numpy as np
from hypothesis import strategies as st
import mrcal
import ref, gens, problem
from gens import fl, vec

C = pbt.Check("C22", "projection differencing",
              "Cases: 2-4 cameras of any lens model on a common imager, with any poses, grids, focus regions, distances (infinity, one, several); exact correspondences through a known "
              "transformation, with invalid data, weights and garbage outside of the focus region; stereo pairs. Oracles: zero differences where the cameras differ only in pose; the "
              "known transformation; the reported differences recomputed with the reference lens models from the reported transformation; nearby transformations aren't better. "
              "Non-trivial: at least one pixel was judged",
              assumptions=["relative transformations to recover are below 0.3 rad, and translations below 20% of the distance: the fit is local, from no transformation",
                           "with a finite distance, transformations are compared through the directions they produce: narrow fields of view do not separate translations from rotations"])
KINDS = ("pinhole", "simple", "opencv", "cahvor", "cahvore", "splined")


def silent(f):
    with contextlib.redirect_stderr(io.StringIO()) as s:
        r = f()
    return r, s.getvalue()


@st.composite
def camera(draw, W, H, kinds=KINDS, thmax=110, central=True):
    l = draw(gens.lens(kinds=kinds, amp=.3, central=central))
    th = np.radians(draw(fl(10, .7 * min(gens.maxdeg(l["m"]), thmax))))
    R = np.hypot(W, H) / 2
    u = 2 * np.tan(th / 2) if "STEREO" in l["m"] else th if "LAT" in l["m"] else np.tan(min(th, 1.4))
    f = R / u
    l["i"][:4] = [f, f * draw(st.sampled_from([1., .95, 1.1])), (W - 1) / 2 + draw(fl(-.1, .1)) * W, (H - 1) / 2 + draw(fl(-.1, .1)) * H]
    return l


def model(l, W, H, rt):
    return mrcal.cameramodel(intrinsics=(l["m"], np.array(l["i"])), imagersize=(W, H), rt_cam_ref=np.array(rt))


def central(l):
    i = np.array(l["i"])
    if "CAHVORE" in l["m"]:
        i[-3:] = 0
    return i


@st.composite
def common(draw, n=None, central=True):
    W, H = draw(st.integers(20, 5000)), draw(st.integers(20, 5000))
    if max(W, H) > 10 * min(W, H):
        W = H
    dist = draw(st.sampled_from(["inf", "inf", "one", "one", "list"]))
    c = dict(W=W, H=H, gw=draw(st.integers(5, 14)), gh=draw(st.one_of(st.none(), st.integers(5, 12))),
             distance=None if dist == "inf" else 10**draw(fl(-1, 3)) if dist == "one" else [10**draw(fl(-1, 2)) for _ in range(draw(st.integers(1, 3)))],
             cams=[draw(camera(W, H, central=central)) for _ in range(n or draw(st.integers(2, 4)))], unc=draw(st.booleans()), center=draw(st.one_of(st.none(), vec(2, .3, .7))),
             radius=draw(st.sampled_from([None, .4, .6, 3.])), seed=draw(gens.seeds), npy=draw(st.booleans()))
    c["rt"] = [draw(gens.rtvec(3.)) for _ in c["cams"]]
    return c


def kwargs(c):
    kw = dict(gridn_width=c["gw"], gridn_height=c["gh"], distance=np.array(c["distance"]) if c["npy"] and isinstance(c["distance"], list) else c["distance"], use_uncertainties=c["unc"])
    W, H = c["W"], c["H"]
    if c["center"] is not None:
        kw["focus_center"] = (c["center"][0] * (W - 1), c["center"][1] * (H - 1))
    if c["radius"] is not None:
        kw["focus_radius"] = c["radius"] * min(W, H)
    return kw


def grid(c):
    W, H, gw = c["W"], c["H"], c["gw"]
    gh = c["gh"] or int(round(H / W * gw))
    if gh < 3:
        reject()
    return np.stack(np.meshgrid(np.linspace(0, W - 1, gw), np.linspace(0, H - 1, gh)), -1)


def focus(c, q):
    W, H = c["W"], c["H"]
    ctr = np.array(c["center"] or (.5, .5)) * (W - 1., H - 1.)
    r = c["radius"] * min(W, H) if c["radius"] is not None else min(W, H) / 6.
    return ref.mag(q - ctr) - r


def check_shapes(c, q, N, got):
    difflen, diff, q0, Rt10 = got
    lead = (len(c["distance"]),) if isinstance(c["distance"], list) else ()
    if q0.shape != q.shape or np.any(np.abs(q0 - q) > 1e-9 * max(c["W"], c["H"])):
        raise Violation("the sampled pixels are wrong: %s; should be %s" % (q0, q))
    if difflen.shape != lead + q.shape[:2] or (N == 2) != (diff is not None) or (N == 2 and diff.shape != lead + q.shape):
        raise Violation("difflen, diff have shapes %s, %s" % (difflen.shape, None if diff is None else diff.shape))
    if Rt10.shape != (() if N == 2 else (N - 1,)) + (4, 3):
        raise Violation("Rt10 has shape %s" % (Rt10.shape,))
    Rs = Rt10.reshape(-1, 4, 3)
    for R in Rs:
        if not np.allclose(R[:3] @ R[:3].T, np.eye(3), atol=1e-9) or np.linalg.det(R[:3]) < 0:
            raise Violation("not a rotation: %s" % R)
        if c["distance"] is None and np.any(R[3]) and c.get("mode") != "extrinsics":
            raise Violation("at infinity, but there's a translation: %s" % R)
    return Rs


@C.facet("self", common(), quick=400, thorough=10000, shards=4)
def same(c):
    """Cameras that differ only in pose: no difference"""
    W, H = c["W"], c["H"]
    q = grid(c)
    l = c["cams"][0]
    N = len(c["cams"])
    ms = [model(l, W, H, rt) for rt in c["rt"]]
    fo = focus(c, q)
    if np.sum(fo < 0) < 8:
        reject()
    np.random.seed(c["seed"])
    label("%d cameras, %s" % (N, "inf" if c["distance"] is None else type(c["distance"]).__name__))
    got, _ = silent(lambda: mrcal.projection_diff(ms, **kwargs(c)))
    check_shapes(c, q, N, got)
    with np.errstate(all="ignore"):
        ok = np.all(np.isfinite(mrcal.unproject(q, l["m"], np.array(l["i"]))), -1) & (fo < .1 * min(W, H))
    d = got[0][..., ok]
    tol = 1e-6 * max(l["i"][:2]) * 10
    if not d.size:
        trivial()
        return
    note("diff", float(d.max()))
    note("diff/f", float(d.max() / max(l["i"][:2])))
    if not np.all(d < tol):
        raise Violation("cameras that differ only in their pose, but the reported difference is %s pixels" % d.max())


def skipped_pixels(c, l0):
    pass


@st.composite
def general_cases(draw):
    inf = draw(st.booleans())
    c = draw(common(central=draw(st.integers(0, 3)) > 0))
    c["mode"] = draw(st.sampled_from(["fit", "fit", "intrinsics", "extrinsics", "given"]))
    if c["mode"] == "given":
        c["cams"], c["rt"] = c["cams"][:2], c["rt"][:2]
        c["Rt10"] = draw(gens.rt_mild(.6, .2))
    c["rt"] = [[float(x) for x in ref.rt_from_Rt(ref.compose_Rt(ref.Rt_from_rt(np.array(draw(gens.rt_mild(.4, .1)))), ref.Rt_from_rt(np.array(c["rt"][0]))))] for _ in c["cams"]]
    return c


@C.facet("general", general_cases(), quick=1200, thorough=40000, shards=4)
def general(c):
    """The reported difference matches the reported transformation"""
    W, H = c["W"], c["H"]
    q = grid(c)
    cams = c["cams"]
    N = len(cams)
    noncentral = any("CAHVORE" in l["m"] and np.any(l["i"][-3:]) for l in cams)
    if noncentral and (c["distance"] is not None):
        c = dict(c, distance=None)
    if noncentral:
        c = dict(c, unc=False)
    ms = [model(l, W, H, rt) for l, rt in zip(cams, c["rt"])]
    before = [(m.intrinsics()[1].copy(), m.rt_cam_ref().copy()) for m in ms]
    kw = kwargs(c)
    fo = focus(c, q)
    mode = c["mode"]
    if mode == "intrinsics":
        kw["intrinsics_only"] = True
    elif mode == "extrinsics":
        kw["focus_radius"] = 0
    elif mode == "given":
        kw["implied_Rt10"] = ref.Rt_from_rt(np.array(c["Rt10"]))
    elif np.sum(fo < 0) < 8:
        reject()
    np.random.seed(c["seed"])
    label("%s %s%s" % (mode, "inf" if c["distance"] is None else "finite", " noncentral" if noncentral else ""))
    got, _ = silent(lambda: mrcal.projection_diff(ms, **kw))
    for m, b in zip(ms, before):
        if not np.array_equal(m.intrinsics()[1], b[0]) or not np.array_equal(m.rt_cam_ref(), b[1]):
            raise Violation("the models were modified")
    if mode == "given":
        c = dict(c, mode="extrinsics")
    Rs = check_shapes(c, q, N, got)
    difflen, diff, q0, _ = got
    if mode == "intrinsics" and not np.allclose(Rs, np.vstack((np.eye(3), np.zeros((1, 3)))), atol=1e-12):
        raise Violation("intrinsics only, but Rt10 = %s" % Rs)
    if mode == "extrinsics":
        want = np.array([ref.compose_Rt(ref.Rt_from_rt(b[1]), ref.invert_Rt(ref.Rt_from_rt(before[0][1]))) for b in before[1:]])
        if not np.allclose(Rs, want, atol=1e-9):
            raise Violation("should be using the extrinsics %s, but have %s" % (want, Rs))
    if mode == "given" and not np.array_equal(Rs[0], kw["implied_Rt10"]):
        raise Violation("the given Rt10 isn't used")
    ii = [central(l) for l in cams]
    with np.errstate(all="ignore"):
        v = [mrcal.unproject(q, l["m"], i, normalize=True) for l, i in zip(cams, ii)]
    ok0 = np.all(np.isfinite(v[0]), -1)
    # check that v is right: it has to project to q
    v0 = np.where(ok0[..., None], v[0], (0, 0, 1.))
    with np.errstate(all="ignore"):
        ok0 &= ref.mag(ref.project(cams[0]["m"], ii[0], v0) - q) < 1e-3
    D = np.atleast_1d(np.array(c["distance"] if c["distance"] is not None else 1.))
    judged = 0
    for k, d in enumerate(D):
        ds, oks = [], []
        for j in range(1, N):
            p = ref.transform_Rt(Rs[j - 1], v0 * d)
            if c["distance"] is None and mode in ("extrinsics", "given"):
                pass
            ok = ok0 & (ref.mag(p) > .05 * d)
            import C18
            ok &= C18.in_domain(cams[j]["m"], p, .98) & (C18.away_from_poles(cams[j]["m"], p) > .03)
            w = np.zeros(q.shape)
            with np.errstate(all="ignore"):
                w[ok] = ref.project(cams[j]["m"], ii[j], p[ok])
            ok &= np.all(np.isfinite(w), -1) & (np.abs(w).max(-1) < 1e6)
            oks.append(ok)
            ds.append(w - q)
        ok = np.all(oks, 0)
        ds = np.array(ds)
        g = difflen[k] if isinstance(c["distance"], list) else difflen
        tol = 1e-4 + 1e-6 * (np.abs(ds).max((0, -1)) + max(W, H))
        judged += int(np.sum(ok))
        if N == 2:
            gd = diff[k] if isinstance(c["distance"], list) else diff
            bad = ok & ~(np.abs(gd - ds[0]).max(-1) <= tol)
            if np.any(bad):
                y, x = np.argwhere(bad)[0]
                raise Violation("diff at %s is %s; with the reported Rt10 it is %s" % (q[y, x], gd[y, x], ds[0, y, x]))
        wl = np.sqrt(np.mean(np.sum(ds**2, -1), 0))
        bad = ok & ~(np.abs(g - wl) <= tol)
        if np.any(bad):
            y, x = np.argwhere(bad)[0]
            raise Violation("%d models: difflen at %s is %s; with the reported Rt10 it is %s" % (N, q[y, x], g[y, x], wl[y, x]))
    if not judged:
        trivial()
    if mode != "fit" or c["distance"] is not None:       # a narrow field of view separates a translation from a rotation poorly
        return
    # the fit: moving away doesn't improve a robust sum of squares of the angle errors, over the region
    unc = False      # no optimization_inputs, so there are no uncertainties
    r = np.random.default_rng(c["seed"])
    for j in range(1, N):
        f = np.ones(q.shape[:2], bool)
        f = fo < 0
        f &= np.all(np.isfinite(v[0]), -1) & np.all(np.isfinite(v[j]), -1)
        if np.sum(f) < 8:
            continue

        def cost(Rt):
            p = ref.transform_Rt(Rt, v[0][f] * D[:, None, None])
            x = 2 - 2 * np.sum(p / ref.mag(p)[..., None] * v[j][f], -1)
            s = np.radians(5)**2
            return np.sum(np.where(x < s, x**2, 2 * s * x - s * s))
        c0 = cost(Rs[j - 1])
        for _ in range(6):
            e = r.normal(size=6) * 10**r.uniform(-4, -2)
            e[3:] *= D.max()
            if c["distance"] is None:
                e[3:] = 0
            if r.random() < .5:
                e[:3 if r.random() < .5 else 6] = 0
                if c["distance"] is None:
                    e[:3] = r.normal(size=3) * 1e-3
            c1 = cost(ref.compose_Rt(ref.Rt_from_rt(e), Rs[j - 1]))
            if not c1 > c0 * (1 - 3e-2) - 1e-16 * f.sum() * len(D):
                raise Violation("the fitted transformation isn't optimal: a small change by %s improves the fit: %s to %s" % (e, c0, c1))


@st.composite
def implied_cases(draw):
    inf = draw(st.booleans())
    c = dict(inf=inf, seed=draw(gens.seeds), gw=draw(st.integers(4, 12)), gh=draw(st.integers(4, 12)), lead=[] if inf and draw(st.integers(0, 2)) else draw(st.sampled_from([[], [], [1], [2], [3], [2, 2]])),
             th=draw(fl(30, 75)), r=draw(vec(3, -1, 1)), ang=draw(st.sampled_from([0., 1e-9, 1e-4, .05, .2, .3])), t=draw(vec(3, -1, 1)), d=10**draw(fl(-1, 2)),
             weights=draw(st.sampled_from([None, "any", "any", "bad"])), nans=draw(st.sampled_from([0., 0., .15])), focus=draw(st.booleans()), tamp=draw(st.sampled_from([0., .02, .1])))
    return c


@C.facet("implied", implied_cases(), quick=600, thorough=20000, shards=2)
def implied(c):
    """Exact correspondences: the transformation is recovered"""
    r = np.random.default_rng(c["seed"])
    gw, gh = c["gw"], c["gh"]
    q0 = np.stack(np.meshgrid(np.linspace(0, 999, gw), np.linspace(0, 799, gh)), -1)
    u = (q0 - (499.5, 399.5)) / np.hypot(499.5, 399.5)
    m = ref.mag(u)[..., None]
    v = np.concatenate((u / np.maximum(m, 1e-9) * np.sin(m * np.radians(c["th"])), np.cos(m * np.radians(c["th"]))), -1)
    lead = tuple(c["lead"])
    if c["inf"]:
        p = np.broadcast_to(v, lead + v.shape).copy()
    else:
        p = v * (c["d"] * r.uniform(.7, 2., lead + (1, 1, 1)))
    rr = np.array(c["r"])
    if ref.mag(rr) < .1:
        reject()
    rr = rr / ref.mag(rr) * c["ang"]
    Rt = ref.Rt_from_rt(np.concatenate((rr, np.zeros(3) if c["inf"] else np.array(c["t"]) * c["d"] * c["tamp"])))
    if not c["inf"]:
        # one v1 must be consistent with all the p. I pick it, and move the points onto the rays
        if lead and np.any(Rt[3]):
            # points at different ranges along the ray of camera 1, but not along the same ray of camera 0
            v1 = ref.transform_Rt(Rt, v * c["d"])
            v1 /= ref.mag(v1)[..., None]
            p = ref.transform_Rt(ref.invert_Rt(Rt), v1 * (c["d"] * r.uniform(.7, 2., lead + (1, 1, 1))))
    p1 = ref.transform_Rt(Rt, p)
    v1 = (p1 / ref.mag(p1)[..., None])[(0,) * len(lead)].copy()
    kw = dict(atinfinity=c["inf"])
    used = np.ones(lead + (gh, gw), bool)
    if c["focus"]:
        kw["focus_center"] = (500., 400.)
        kw["focus_radius"] = 450.
        out = ref.mag(q0 - (500, 400)) >= 450.
        if r.random() < .5:
            v1[out] = r.normal(size=(out.sum(), 3))
            v1[out] /= ref.mag(v1[out])[..., None]
        used[..., out] = False
    if c["weights"]:
        w = 10**r.uniform(-1, 1, lead + (gh, gw))
        if c["weights"] == "bad":
            b = r.random(w.shape) < .2
            w[b] = r.choice([np.nan, np.inf, -np.inf, 0.], b.sum())
            p[b] += r.normal(size=(b.sum(), 3)) * (c["d"] * .2)
            if c["inf"]:
                p /= ref.mag(p)[..., None]
            used[b] = False
        kw["weights"] = w
    if c["nans"]:
        b = r.random(lead + (gh, gw)) < c["nans"]
        p[b, r.integers(3)] = r.choice([np.nan, np.inf])
        used[b] = False
        b = r.random((gh, gw)) < c["nans"]
        v1[b, r.integers(3)] = r.choice([np.nan, -np.inf])
        used[..., b] = False
    if used.sum() < 12 * max(1, np.prod(lead)):
        reject()
    label("%s %s lead %d%s" % ("inf" if c["inf"] else "finite", c["weights"], len(lead), " focus" if c["focus"] else ""))
    inputs = [q0.copy(), p.copy(), v1.copy(), None if not c["weights"] else kw["weights"].copy()]
    np.random.seed(c["seed"])
    with np.errstate(all="ignore"):
        got = mrcal.implied_Rt10__from_unprojections(q0, p, v1, **kw)
    for a, b in zip((q0, p, v1, kw.get("weights")), inputs):
        if a is not None and not np.array_equal(a, b, equal_nan=True):
            raise Violation("the inputs were modified")
    if got.shape != (4, 3) or not np.allclose(got[:3] @ got[:3].T, np.eye(3), atol=1e-9) or (c["inf"] and np.any(got[3])):
        raise Violation("not a transformation (or a translation, at infinity): %s" % got)
    a, b = ref.transform_Rt(got, p[used]), ref.transform_Rt(Rt, p[used])
    e = ref.mag(a / ref.mag(a)[..., None] - b / ref.mag(b)[..., None]).max()
    note("angle error", float(e))
    if not e < 1e-5:
        raise Violation("exact data, but the recovered transformation is off by %s rad: %s; should be %s" % (e, got, Rt))


# ---------------------------------------------------------------- stereo_pair_diff

@st.composite
def stereo_cases(draw):
    W0, H0, W1, H1 = [draw(st.integers(20, 3000)) for _ in range(4)]
    if max(W0, H0) > 8 * min(W0, H0):
        W0 = H0
    cen = draw(st.integers(0, 3)) > 0
    c = dict(size=[[W0, H0], [W1, H1]], same=draw(st.booleans()), l=[[draw(camera(W0, H0, central=cen)), draw(camera(W1, H1, central=cen))] for _ in range(2)],
             ref=[draw(gens.rtvec(3.)) for _ in range(2)], rel=[draw(gens.rt_mild(.5, 1.)) for _ in range(2)], gw=draw(st.integers(2, 14)), gh=draw(st.one_of(st.none(), st.integers(2, 10))),
             distance=draw(st.sampled_from([None, None, 1., 10., 300.])))
    if c["same"]:
        c["l"][1], c["rel"][1] = c["l"][0], c["rel"][0]
    return c


@C.facet("stereo", stereo_cases(), quick=1500, thorough=40000, shards=2)
def stereo(c):
    import C18
    q = grid(dict(W=c["size"][0][0], H=c["size"][0][1], gw=c["gw"], gh=c["gh"] or max(int(round(c["size"][0][1] / c["size"][0][0] * c["gw"])), 3)))
    gh = q.shape[0] if c["gh"] is None and int(round(c["size"][0][1] / c["size"][0][0] * c["gw"])) < 3 else c["gh"]
    noncentral = any("CAHVORE" in l["m"] and np.any(l["i"][-3:]) for p in c["l"] for l in p)
    d = None if noncentral else c["distance"]
    pairs, Rs = [], []
    for p in range(2):
        R0 = ref.Rt_from_rt(np.array(c["ref"][p]))
        R1 = ref.compose_Rt(ref.Rt_from_rt(np.array(c["rel"][p])), R0)
        pairs.append([model(l, *s, ref.rt_from_Rt(R)) for l, s, R in zip(c["l"][p], c["size"], (R0, R1))])
        Rs.append(ref.compose_Rt(ref.Rt_from_rt(pairs[p][1].rt_cam_ref()), ref.invert_Rt(ref.Rt_from_rt(pairs[p][0].rt_cam_ref()))))
    before = [m.intrinsics()[1].copy() for p in pairs for m in p]
    difflen, diff, q0, f = mrcal.stereo_pair_diff(pairs, gridn_width=c["gw"], gridn_height=gh, distance=d)
    label("%s %s%s" % ("same" if c["same"] else "different", d, " noncentral" if noncentral else ""))
    if any(not np.array_equal(m.intrinsics()[1], b) for m, b in zip([m for p in pairs for m in p], before)):
        raise Violation("the models were modified")
    if q0.shape != q.shape or np.abs(q0 - q).max() > 1e-6 or difflen.shape != q.shape[:2] or diff.shape != q.shape:
        raise Violation("wrong sampling: %s %s %s" % (q0, difflen.shape, diff.shape))

    def re(p, i):
        """pixels of camera i to the other camera"""
        l, m = c["l"][p][i], c["l"][p][1 - i]
        Q = q if i == 0 else np.stack(np.meshgrid(np.linspace(0, c["size"][1][0] - 1, 5), np.linspace(0, c["size"][1][1] - 1, 4)), -1)
        T = Rs[p] if i == 0 else ref.invert_Rt(Rs[p])
        if d is None:
            T = np.vstack((T[:3], np.zeros((1, 3))))
        with np.errstate(all="ignore"):
            v = mrcal.unproject(Q, l["m"], central(l), normalize=True)
        ok = np.all(np.isfinite(v), -1)
        v = np.where(ok[..., None], v, (0, 0, 1.))
        x = ref.transform_Rt(T, v * (d or 1))
        ok &= ref.mag(x) > .05 * (d or 1)
        ok &= C18.in_domain(m["m"], x, .98) & (C18.away_from_poles(m["m"], x) > .03)
        w = np.zeros(Q.shape)
        w[ok] = ref.project(m["m"], central(m), x[ok])
        ok &= np.all(np.isfinite(w), -1) & (np.abs(w).max(-1) < 1e6)
        return Q, w, ok
    Q, a, oka = re(0, 0)
    _, b, okb = re(1, 0)
    ok = oka & okb
    tol = 1e-4 + 1e-6 * (np.abs(a).max(-1) + np.abs(b).max(-1))
    if not np.any(ok):
        trivial()
    bad = ok & ~((np.abs(diff - (b - a)).max(-1) < tol) & (np.abs(difflen - ref.mag(b - a)) < tol))
    if np.any(bad):
        y, x = np.argwhere(bad)[0]
        raise Violation("stereo_pair_diff() at %s: %s, %s; should be %s" % (q[y, x], diff[y, x], difflen[y, x], (b - a)[y, x]))
    if c["same"] and not np.all(difflen[ok] < tol[ok]):
        raise Violation("the same pair in a moved reference frame, but the difference is %s" % difflen[ok].max())
    for p in range(2):
        for i in range(2):
            Q, w, ok = re(p, i)
            with np.errstate(all="ignore"):
                g = f(Q, p, i)
            bad = ok & ~(np.abs(g - w).max(-1) < 1e-4 + 1e-6 * np.abs(w).max(-1))
            if np.any(bad):
                y, x = np.argwhere(bad)[0]
                raise Violation("reproject_pairp_from_cami(pair %d, camera %d): %s maps to %s; should be %s" % (p, i, Q[y, x], g[y, x], w[y, x]))


@C.facet("invalid", st.sampled_from(["one model", "given and three", "imagersize", "noncentral at finite", "noncentral stereo", "stereo imagersize0", "stereo imagersize1", "three pairs", "few points"]), quick=30, thorough=30)
def invalid(bad):
    label(bad)
    m = mrcal.cameramodel(intrinsics=("LENSMODEL_PINHOLE", np.array((10., 10, 5, 5))), imagersize=(10, 10))
    m2 = mrcal.cameramodel(intrinsics=("LENSMODEL_PINHOLE", np.array((10., 10, 5, 5))), imagersize=(10, 11))
    n = mrcal.cameramodel(intrinsics=("LENSMODEL_CAHVORE_linearity=0.37", np.array((10., 10, 5, 5, 0, 0, 0, 0, 0, .01, 0, 0))), imagersize=(10, 10))
    f = {"one model": lambda: mrcal.projection_diff([m]), "given and three": lambda: mrcal.projection_diff([m, m, m], implied_Rt10=mrcal.identity_Rt()),
         "imagersize": lambda: mrcal.projection_diff([m, m2]), "noncentral at finite": lambda: mrcal.projection_diff([n, n], distance=1., use_uncertainties=False),
         "noncentral stereo": lambda: mrcal.stereo_pair_diff([[m, n], [m, n]], distance=3.), "stereo imagersize0": lambda: mrcal.stereo_pair_diff([[m, m], [m2, m]]),
         "stereo imagersize1": lambda: mrcal.stereo_pair_diff([[m, m], [m, m2]]), "three pairs": lambda: mrcal.stereo_pair_diff([[m, m], [m, m], [m, m]]),
         "few points": lambda: mrcal.projection_diff([m, m], use_uncertainties=False, focus_radius=1e-3, focus_center=(-100., -100.))}[bad]
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            f()
    except Exception as e:
        if isinstance(e, (AttributeError, NameError, TypeError, IndexError, UnboundLocalError)):
            raise Violation("%s is reported as %s" % (bad, repr(e)))
        return
    raise Violation("accepted: " + bad)


if __name__ == "__main__":
    C.main()
