#!/usr/bin/python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Violation, label, trivial, reject, note
pbt.build_and_import()
import numpy as np
from hypothesis import strategies as st
import mrcal
import ref, gens
from gens import fl, vec
import C18

C = pbt.Check("C19", "stereo ranging",
              "Cases: any rectified system (latlon or pinhole; made directly, at any pose, or by rectified_system()), points in view of both cameras, disparity images and "
              "arrays of every integer and floating type, scale, limits and shape. Oracles: the true point; the intersection of the two rays in the epipolar plane for every "
              "pixel; the documented validity rule evaluated in exact arithmetic. Non-trivial: at least one valid range.",
              assumptions=["disparities that put the second ray behind az=-90deg (no intersection in front of the cameras) are not judged"])


@st.composite
def systems(draw, maxn=40):
    model = draw(st.sampled_from(["LENSMODEL_LATLON", "LENSMODEL_PINHOLE"]))
    W, H = draw(st.integers(1, maxn)), draw(st.integers(1, maxn))
    fov = draw(fl(5, 150 if model == "LENSMODEL_LATLON" else 120))
    fx = W / np.radians(fov) if model == "LENSMODEL_LATLON" else W / 2 / np.tan(np.radians(fov) / 2)
    fy = fx * draw(fl(.5, 2))
    az0 = draw(fl(-20, 20))
    return dict(m=model, f=[fx, fy, (W - 1) / 2 - np.radians(az0) * fx if model == "LENSMODEL_LATLON" else (W - 1) / 2 + draw(fl(-.3, .3)) * W,
                            (H - 1) / 2 + draw(fl(-1, 1)) * H], W=W, H=H, b=10**draw(fl(-2, 2)), rt=draw(st.one_of(st.just([0.] * 6), gens.rtvec(1.))))


def make(s):
    m0 = mrcal.cameramodel(intrinsics=(s["m"], np.array(s["f"])), imagersize=(s["W"], s["H"]), rt_cam_ref=np.array(s["rt"]))
    rt1 = np.array(s["rt"])
    rt1[3] -= s["b"]
    m1 = mrcal.cameramodel(intrinsics=(s["m"], np.array(s["f"])), imagersize=(s["W"], s["H"]), rt_cam_ref=rt1)
    return m0, m1


def grid(s):
    return np.stack(np.meshgrid(np.arange(s["W"], dtype=float), np.arange(s["H"], dtype=float)), -1)


def intersect(s, q, d):
    """-> range, point: where the rays of the pixels q and q-(d,0) meet. nan if not in front"""
    f = s["f"]
    v0 = C18.unproject(s["m"], f, q)
    v1 = C18.unproject(s["m"], f, q - np.stack((d, np.zeros_like(d)), -1))
    v0 /= ref.mag(v0)[..., None]
    v1 /= ref.mag(v1)[..., None]
    bx = np.array((s["b"], 0, 0))
    n = np.cross(v0, v1)
    # k v0 = b + l v1  ->  k v0 x v1 = b x v1
    with np.errstate(all="ignore"):
        n2 = (n * n).sum(-1)
        k = (np.cross(bx, v1) * n).sum(-1) / n2
        l = (np.cross(bx, v0) * n).sum(-1) / n2
    if s["m"] == "LENSMODEL_LATLON":
        az1 = (q[..., 0] - d - f[2]) / f[0]
        ok = (np.abs(az1) < np.pi / 2 - 1e-6) & (np.abs((q[..., 0] - f[2]) / f[0]) < np.pi / 2 - 1e-6)
    else:
        ok = np.ones(k.shape, bool)
    ok &= (k > 0) & (l > 0) & np.isfinite(k)
    return np.where(ok, k, np.nan), v0 * k[..., None]


@st.composite
def point_cases(draw):
    return dict(s=draw(systems(3000)), shape=draw(st.sampled_from([[], [1], [5], [3, 4], [2, 1, 3]])), seed=draw(gens.seeds), scale=draw(st.sampled_from([1, 16, 7, 2.5, 256.])),
                near=draw(fl(-.5, 3)))


@C.facet("points", point_cases(), quick=3000, thorough=150000)
def points(case):
    s, shape = case["s"], tuple(case["shape"])
    mm = make(s)
    rg = gens.rng(case["seed"])
    f, b = s["f"], s["b"]
    q = rg.uniform(0, 1, shape + (2,)) * np.array((s["W"] - 1, s["H"] - 1))
    v = C18.unproject(s["m"], f, q)
    v /= ref.mag(v)[..., None]
    r = b * 10**rg.uniform(-.5, case["near"], shape)
    p = v * r[..., None]
    if s["m"] == "LENSMODEL_PINHOLE" and np.any(p[..., 2] < 1e-3 * b):
        reject()
    if np.any(np.hypot(p[..., 1], p[..., 2]) < 1e-3 * b):
        reject()
    q1 = C18.project(s["m"], f, p - np.array((b, 0, 0)))
    d = q[..., 0] - q1[..., 0]
    if np.any(d < 1e-9):
        reject()
    # the same through mrcal
    pref = ref.transform_Rt(ref.invert_Rt(ref.Rt_from_rt(mm[0].rt_cam_ref())), p)
    label("%s %s" % (s["m"][10:], len(shape)))
    sc = case["scale"]
    got_r = mrcal.stereo_range(d * sc if shape else float(d * sc), mm, disparity_scale=sc, qrect0=q)
    got_p = mrcal.stereo_unproject(d * sc if shape else float(d * sc), mm, disparity_scale=sc, qrect0=q)
    got_p2 = mrcal.stereo_unproject(None, mm, ranges=got_r, qrect0=q)
    if np.shape(got_r) != shape or np.shape(got_p) != shape + (3,):
        raise Violation("stereo_range(), stereo_unproject() of shape %s returned shapes %s, %s" % (shape, np.shape(got_r), np.shape(got_p)))
    # angle between the rays, as seen in pixels
    c = (v * p).sum(-1)
    p1 = p - np.array((b, 0, 0))
    sin = ref.mag(np.cross(p, p1)) / ref.mag(p) / ref.mag(p1)
    tol = 3e-13 * r * (1 + (np.abs(q[..., 0]) + np.abs(q1[..., 0]) + np.abs(f[2])) / f[0]) / sin * (1 + 100 * (s["m"] == "LENSMODEL_PINHOLE") * (ref.mag(p1) / np.abs(p[..., 2])) * (ref.mag(p) / np.abs(p[..., 2]))) + 1e-12 * r
    # the baseline is known as well as the poses are
    tol = tol + r * 1e-11
    e = np.abs(got_r - r)
    note("range err/tol", float((e / tol).max()) if e.size else 0)
    if not np.all(e <= tol):
        raise Violation("%s: stereo_range() gives %s instead of %s" % (s["m"], got_r, r))
    for g in (got_p, got_p2):
        if not np.all(ref.mag(g - p) <= tol + 1e-11 * r):
            raise Violation("%s: stereo_unproject() gives %s instead of %s" % (s["m"], g, p))
    # limits that don't exclude anything don't matter
    g = mrcal.stereo_range(d * sc if shape else float(d * sc), mm, disparity_scale=sc, qrect0=q, disparity_min=float(d.min()) * .99, disparity_max=float(d.max()) * 1.01 + 1e-6)
    if not np.array_equal(g, got_r):
        raise Violation("stereo_range() with disparity_min,max that include all the disparities changed the result")
    # and those that do, do
    if d.size > 1:
        lim = float(np.median(d)) * (1 + 1e-9)
        for kw, bad in ((dict(disparity_min=lim), d < lim), (dict(disparity_max=lim), d > lim), (dict(disparity_scaled_min=lim * sc), d < lim), (dict(disparity_scaled_max=lim * sc), d > lim)):
            g = mrcal.stereo_range(d * sc, mm, disparity_scale=sc, qrect0=q, **kw)
            if np.any(np.abs(d - lim) < 1e-10 * lim):
                continue
            if not np.array_equal(g, np.where(bad, 0, got_r)):
                raise Violation("stereo_range(%s): disparities %s became ranges %s" % (kw, d, g))


TYPES = ["int16", "uint16", "int16", "uint16", "int32", "int64", "uint8", "float64", "float32"]


@st.composite
def dense_cases(draw):
    s = draw(systems())
    dt = draw(st.sampled_from(TYPES))
    scale = draw(st.sampled_from([1, 16, 16, 8, 100]))
    if dt[0] == "f" and draw(st.booleans()):
        scale = draw(st.sampled_from([2.5, .5, 16.]))
    lim = {}
    k = draw(st.integers(0, 5))
    dmax = s["W"] * .7 + 1
    if k in (1, 3):
        x = draw(fl(0, dmax * .5))
        lim["disparity_min"] = x if draw(st.booleans()) else float(int(x))
    if k in (2, 3):
        x = draw(fl(dmax * .5, dmax * 1.5))
        lim["disparity_max"] = x if draw(st.booleans()) else float(int(x)) + 1
    if k == 4:
        lim["disparity_scaled_min"] = draw(st.integers(0, int(dmax * scale * .5) + 1))
        lim["disparity_scaled_max"] = lim["disparity_scaled_min"] + draw(st.integers(1, int(dmax * scale) + 1))
    if k == 5:
        lim["disparity_min"] = float(draw(st.integers(-5, 0)))
    return dict(s=s, dt=dt, scale=scale, lim=lim, seed=draw(gens.seeds), layout=draw(st.sampled_from(["c", "f", "strided", "flipped"])), frac=draw(st.booleans()))


@C.facet("dense", dense_cases(), quick=2500, thorough=100000)
def _(case):
    s, dt, scale = case["s"], np.dtype(case["dt"]), case["scale"]
    mm = make(s)
    rg = gens.rng(case["seed"])
    W, H = s["W"], s["H"]
    d = rg.uniform(-.1, .7, (H, W)) * (W + 3) * scale
    d[rg.uniform(size=d.shape) < .1] = 0
    if dt.kind != "f":
        ii = np.iinfo(dt)
        d = np.clip(np.round(d), ii.min, ii.max)
        # the usual invalid-value markers
        d[rg.uniform(size=d.shape) < .05] = -scale if dt.kind == "i" else 0
        d[rg.uniform(size=d.shape) < .02] = ii.max if dt.itemsize <= 2 else 70000
        d[rg.uniform(size=d.shape) < .05] = 1
        if dt.kind == "i":
            d[rg.uniform(size=d.shape) < .02] = max(ii.min, -70000)
    elif not case["frac"]:
        d = np.round(d)
    d = d.astype(dt)
    lim = dict(case["lim"])
    # limits at exactly representable values of the data
    x = {"c": d, "f": np.asfortranarray(d), "strided": np.repeat(d, 2, axis=1)[:, ::2], "flipped": d[::-1][::-1]}[case["layout"]]
    x.setflags(write=False)
    if lim.get("disparity_max", 1e9) <= lim.get("disparity_min", 0):
        reject()
    label(case["dt"])
    label("limits " + " ".join(sorted(lim)))
    kw = dict(disparity_scale=scale, **lim)
    r = mrcal.stereo_range(x, mm, **kw)
    if r.shape != (H, W):
        raise Violation("stereo_range() of a %s image returned %s" % ((H, W), r.shape))
    # documented validity
    dp = d.astype(float) / scale
    ds = d.astype(float)
    valid = dp > 0
    lo = lim["disparity_min"] * scale if "disparity_min" in lim else lim.get("disparity_scaled_min", 0)
    hi = lim["disparity_max"] * scale if "disparity_max" in lim else lim.get("disparity_scaled_max", 0x7fff if dt == np.int16 else np.inf)
    unclear = (np.abs(ds - lo) < 1e-9 * (1 + np.abs(lo))) & (lo != int(lo)) | (np.abs(ds - hi) < 1e-9 * np.abs(hi) if np.isfinite(hi) and hi != int(hi) else False)
    valid &= (ds >= lo) & (ds <= hi)
    want, pw = intersect(s, grid(s), dp)
    judge = ~unclear & (~valid | np.isfinite(want))
    if not np.any(valid & judge):
        trivial()
    e = np.abs(r - np.where(valid, want, 0))
    with np.errstate(all="ignore"):
        tol = np.where(valid, 1e-9 * want * (1 + want / s["b"]) * (1 + np.abs(s["f"][2]) / s["f"][0]), 0)
    bad = judge & ~(e <= tol)
    if np.any(bad):
        y, xx = np.argwhere(bad)[0]
        raise Violation("stereo_range(%s image, %s): pixel (x,y)=(%d,%d) with disparity %s gives %s instead of %s" % (dt, kw, xx, y, d[y, xx], r[y, xx], want[y, xx] if valid[y, xx] else 0))
    # the sparse path
    rs = mrcal.stereo_range(x, mm, qrect0=grid(s), **{k: v for k, v in kw.items()})
    bad = ~unclear & (np.abs(rs - r) > 1e-12 * np.abs(r))
    if dt == np.int16 and "disparity_max" not in lim and "disparity_scaled_max" not in lim:
        pass
    if np.any(bad):
        y, xx = np.argwhere(bad)[0]
        raise Violation("stereo_range() with an explicit qrect0 grid differs from the dense result: %s vs. %s for disparity %s, %s" % (rs[y, xx], r[y, xx], d[y, xx], kw))
    # points
    if not lim:
        p = mrcal.stereo_unproject(x, mm, disparity_scale=scale)
        if p.shape != (H, W, 3):
            raise Violation("stereo_unproject() of a %s image returned %s" % ((H, W), p.shape))
        e = ref.mag(p - np.where(valid[..., None], pw, 0))
        if np.any(judge & ~(e <= tol)):
            raise Violation("stereo_unproject() is wrong: max error %s" % np.nanmax(np.where(judge, e, 0)))
        p2 = mrcal.stereo_unproject(None, mm, ranges=r)
        if not np.array_equal(p, p2):
            raise Violation("stereo_unproject(ranges=stereo_range()) differs from stereo_unproject(disparity)")


@st.composite
def broadcast_cases(draw):
    return dict(s=draw(systems(500)), k=draw(st.integers(0, 5)), seed=draw(gens.seeds), scalar=draw(st.booleans()))


@C.facet("broadcast", broadcast_cases(), quick=500, thorough=20000)
def _(case):
    s = case["s"]
    mm = make(s)
    rg = gens.rng(case["seed"])
    sd, sq = [((4, 1), (3, 2)), ((3,), (4, 3, 2)), ((4, 3), (2,)), ((1,), (5, 2)), ((), (4, 2)), ((2, 3), (3, 2))][case["k"]]
    q = rg.uniform(0, 1, sq) * np.array((s["W"] - 1, s["H"] - 1))
    d = rg.uniform(-.1, .5, sd) * s["W"]
    shape = np.broadcast_shapes(sd, sq[:-1])
    arg = float(d) if not sd and case["scalar"] else d
    label("%s %s" % (sd, sq))
    r = mrcal.stereo_range(arg, mm, qrect0=q)
    p = mrcal.stereo_unproject(arg, mm, qrect0=q)
    D, Q = np.broadcast_to(d, shape), np.broadcast_to(q, shape + (2,))
    if r.shape != shape or p.shape != shape + (3,):
        raise Violation("shapes %s and %s should broadcast to %s. Have %s, %s" % (sd, sq, shape, r.shape, p.shape))
    for i in np.ndindex(*shape):
        ri = mrcal.stereo_range(float(D[i]), mm, qrect0=Q[i])
        pi = mrcal.stereo_unproject(float(D[i]), mm, qrect0=Q[i])
        if ri != r[i] or not np.allclose(p[i], pi, rtol=1e-13, atol=0):
            raise Violation("broadcasting: element %s is %s, %s instead of %s, %s" % (i, r[i], p[i], ri, pi))
        w, pw = intersect(s, Q[i], D[i])
        if D[i] <= 0:
            w = 0.
        if np.isfinite(w) and abs(ri - w) > 1e-9 * w * (1 + w / s["b"]) * (1 + np.abs(s["f"][2]) / s["f"][0]):
            raise Violation("stereo_range(%s, qrect0=%s) = %s instead of %s" % (D[i], Q[i], ri, w))


@C.facet("invalid", st.fixed_dictionaries(dict(s=systems(), bad=st.sampled_from(["lens", "intrinsics", "size", "rotation", "translation", "count", "shape", "both", "neither", "limits"]),
                                               x=fl(0, 1))), quick=300, thorough=5000)
def _(case):
    s, bad, x = case["s"], case["bad"], case["x"]
    m0, m1 = make(s)
    mm = [m0, m1]
    d = np.ones((s["H"], s["W"]))
    kw = {}
    if bad == "lens":
        mm[1] = mrcal.cameramodel(m1)
        other = "LENSMODEL_PINHOLE" if s["m"] == "LENSMODEL_LATLON" else "LENSMODEL_LATLON"
        mm[1].intrinsics((other, np.array(s["f"])))
        if x > .5:
            mm = [mrcal.cameramodel(m) for m in (m0, m1)]
            for m in mm:
                m.intrinsics(("LENSMODEL_STEREOGRAPHIC", np.array(s["f"])))
    elif bad == "intrinsics":
        f = np.array(s["f"])
        f[int(x * 3.99)] += .1
        m1.intrinsics((s["m"], f))
    elif bad == "size":
        m1 = mm[1] = mrcal.cameramodel(intrinsics=m1.intrinsics(), imagersize=(s["W"] + (x < .5), s["H"] + (x >= .5)), rt_cam_ref=m1.rt_cam_ref())
    elif bad == "rotation":
        m1.rt_cam_ref(ref.rt_from_Rt(ref.compose_Rt(ref.Rt_from_rt(np.array((0, .02 + x, .01, 0, 0, 0))), ref.Rt_from_rt(m1.rt_cam_ref()))))
    elif bad == "translation":
        t = m1.rt_cam_ref()
        t[4 + int(x * 1.99)] += s["b"]
        m1.rt_cam_ref(t)
    elif bad == "count":
        mm = [m0] if x < .5 else [m0, m1, m1]
    elif bad == "shape":
        d = np.ones((s["H"] + 1, s["W"]))
    elif bad == "both":
        kw = dict(disparity_min=1., disparity_scaled_min=2.) if x < .5 else dict(disparity_max=10., disparity_scaled_max=20.)
    elif bad == "limits":
        kw = dict(disparity_min=5., disparity_max=4.)
    label(bad)
    for f in (mrcal.stereo_range, mrcal.stereo_unproject):
        k = dict(kw)
        a = d
        if f is mrcal.stereo_unproject:
            if bad in ("both", "limits"):
                continue
            if bad == "neither":
                if x < .5:
                    a = None
                else:
                    k = dict(ranges=d)
        elif bad == "neither":
            continue
        try:
            r = f(a, mm, **k)
        except Exception:
            continue
        raise Violation("%s() accepted an invalid call (%s)" % (f.__name__, bad))


if __name__ == "__main__":
    C.main()
