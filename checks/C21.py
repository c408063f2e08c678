#!/usr/bin/python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Violation, label, trivial, reject, note
pbt.build_and_import()
import numpy as np
import cv2
from hypothesis import strategies as st
import mrcal
import ref, gens
from gens import fl, vec
import C18

try:
    import matplotlib.path
except ModuleNotFoundError:
    # image_transformation_map(mask_valid_intrinsics_region_from) uses just this much of matplotlib. A stand-in
    import types

    class _Path:
        def __init__(self, v):
            self.v = np.asarray(v, float)

        def contains_points(self, q):
            return polygon(self.v, np.asarray(q, float))[0]
    sys.modules["matplotlib"] = types.ModuleType("matplotlib")
    sys.modules["matplotlib.path"] = sys.modules["matplotlib"].path = types.ModuleType("matplotlib.path")
    sys.modules["matplotlib.path"].Path = _Path

C = pbt.Check("C21", "image reprojection",
              "Cases: pairs of cameras with any lens models and poses, each mode of image_transformation_map(), random valid-intrinsics regions; images of any type, maps that point "
              "in and out of the image, border modes; pinhole fits of any model, with any fit specification and scales. Oracles: the reference lens models applied to the ray, "
              "the ray's point at a distance, the ray's intersection with the plane; bilinear interpolation within the resolution of cv2.remap(); the "
              "inequalities that define the best fit. Non-trivial: at least one pixel was judged",
              assumptions=["maps are judged where the ray is inside the domain of the lens model",
                           "mrcal.unproject() is right (C02); the models that map to the same pixel are compared through the reference projection",
                           "matplotlib.path.Path.contains_points() is right. If matplotlib isn't installed, a stand-in for this function is used"])
KINDS = ("pinhole", "simple", "opencv", "opencv", "cahvor", "cahvore", "splined")


@st.composite
def small_camera(draw, kinds=KINDS, maxn=25):
    """A camera with a small imager that covers a part of the domain of the model"""
    l = draw(gens.lens(kinds=kinds, amp=.3, central=True))
    W, H = draw(st.integers(2, maxn)), draw(st.integers(2, maxn))
    th = np.radians(draw(fl(5, .7 * min(gens.maxdeg(l["m"]), 120))))
    R = np.hypot(W, H) / 2
    u = 2 * np.tan(th / 2) if "STEREO" in l["m"] else th if "L" + l["m"][11:] in ("LONLAT", "LATLON") or l["m"][10:] in ("LONLAT", "LATLON") else np.tan(min(th, 1.4))
    f = R / u
    l["i"][:4] = [f, f * draw(fl(.9, 1.1)), (W - 1) / 2 + draw(fl(-.1, .1)) * W, (H - 1) / 2 + draw(fl(-.1, .1)) * H]
    return dict(m=l["m"], i=l["i"], W=W, H=H)


@st.composite
def map_cases(draw):
    mode = draw(st.sampled_from(["full", "full", "intrinsics", "distance", "plane", "plane"]))
    f = draw(gens.lens(kinds=KINDS, amp=.3, central=draw(st.integers(0, 3)) > 0))
    to = draw(small_camera(kinds=draw(st.sampled_from([KINDS, KINDS, ("pinhole",)]))))
    rot = draw(st.sampled_from(["same", "mild", "mild", "any"]))
    rel = [0.] * 6 if rot == "same" else draw(gens.rt_mild(.5, 1.)) if rot == "mild" else draw(gens.rtvec())
    c = dict(mode=mode, f=f, to=to, rt=draw(st.one_of(st.just([0.] * 6), gens.rtvec(3.))), rel=rel, mask=draw(st.sampled_from([False, False, False, True])))
    if mode == "distance":
        c["distance"] = 10**draw(fl(-1, 3))
    if mode == "plane":
        c["p0"] = draw(vec(3, -1, 1))
        c["z"] = 10**draw(fl(0, 2))
        c["n"] = draw(vec(3, -1, 1))
        c["scale"] = draw(st.sampled_from([1., 1., -1., .01, -300.]))
    if c["mask"]:
        c["region"] = [draw(fl(.05, 1.5)) for _ in range(draw(st.integers(3, 8)))] if draw(st.integers(0, 5)) else []
    return c


@C.facet("maps", map_cases(), quick=3000, thorough=100000, shards=4)
def maps(c):
    f, to = c["f"], c["to"]
    Rtf = ref.Rt_from_rt(np.array(c["rt"]))
    Rtt = ref.compose_Rt(ref.Rt_from_rt(np.array(c["rel"])), Rtf)
    mf = mrcal.cameramodel(intrinsics=(f["m"], np.array(f["i"])), imagersize=(1000, 800), rt_cam_ref=ref.rt_from_Rt(Rtf))
    mt = mrcal.cameramodel(intrinsics=(to["m"], np.array(to["i"])), imagersize=(to["W"], to["H"]), rt_cam_ref=ref.rt_from_Rt(Rtt))
    kw = dict(intrinsics_only=c["mode"] == "intrinsics")
    T = ref.compose_Rt(ref.Rt_from_rt(mf.rt_cam_ref()), ref.invert_Rt(ref.Rt_from_rt(mt.rt_cam_ref())))   # from <- to
    noncentral = "CAHVORE" in f["m"] and np.any(np.array(f["i"])[-3:])
    g = np.stack(np.meshgrid(np.arange(to["W"], dtype=float), np.arange(to["H"], dtype=float)), -1)
    with np.errstate(all="ignore"):
        v = mrcal.unproject(g, to["m"], np.array(to["i"]), normalize=True)
    ok = np.all(np.isfinite(v), -1)
    v = np.where(ok[..., None], v, (0, 0, 1.))
    if c["mode"] == "intrinsics":
        p = v
    elif c["mode"] == "full":
        p = v @ T[:3].T
    elif c["mode"] == "distance":
        kw["distance"] = c["distance"]
        p = ref.transform_Rt(T, v * c["distance"])
    else:
        n = np.array(c["n"])
        p0 = (np.array(c["p0"]) * .5 + (0, 0, 1)) * c["z"]
        if ref.mag(n) < .1:
            reject()
        d = n @ p0
        kw["plane_n"], kw["plane_d"] = n * c["scale"], float(d * c["scale"])
        if abs(d) < .05 * ref.mag(n) * ref.mag(p0):
            reject()
        o = T[3]
        r = v @ T[:3].T
        den = r @ n
        num = d - n @ o
        if abs(num) < .05 * abs(d):
            reject()
        with np.errstate(all="ignore"):
            s = num / den
        ok &= (s > 0) & (np.abs(den) > 1e-3 * ref.mag(n)) & np.isfinite(s)
        p = o + r * np.where(ok, s, 1.)[..., None]
    # at infinity, a noncentral model isn't at the infinity of its projection
    if noncentral and c["mode"] in ("full", "intrinsics"):
        ok &= False
    ok &= ref.mag(p) > 1e-3
    ok &= C18.in_domain(f["m"], p, .98)
    ok &= C18.away_from_poles(f["m"], p) > .03
    if noncentral:
        ok &= ref.mag(p) > .5
    th = np.arccos(np.clip(np.einsum("...i,...i", v, np.array((0, 0, 1.))), -1, 1))
    want = np.zeros(g.shape)
    if np.any(ok):
        want[ok] = ref.project(f["m"], np.array(f["i"]), p[ok])
    ok &= np.all(np.isfinite(want), -1) & (np.abs(want).max(-1) < 1e5)
    if not np.any(ok):
        trivial()
        return
    label(c["mode"] + (" masked" if c["mask"] else ""))
    if "OPENCV" in f["m"] and to["m"] == "LENSMODEL_PINHOLE":
        label("opencv to pinhole")
    region = None
    if c["mask"]:
        k = len(c["region"])
        a = np.arange(k) * 2 * np.pi / max(k, 1)
        ctr, ext = np.median(want[ok], 0), np.ptp(want[ok], axis=0) / 2 + 1
        region = ctr + np.array(c["region"])[:, None] * ext * np.stack((np.cos(a), np.sin(a)), -1) if k else np.zeros((0, 2))
        mf.valid_intrinsics_region(region)
        kw["mask_valid_intrinsics_region_from"] = True
    M = mrcal.image_transformation_map(mf, mt, **kw)
    if M.dtype != np.float32 or M.shape != (to["H"], to["W"], 2):
        raise Violation("the map must have the shape %s, float32. Have %s, %s" % ((to["H"], to["W"], 2), M.shape, M.dtype))
    q = want
    if c["mask"]:
        inside, margin = polygon(region, want)
        ok &= margin > 2e-2
        out = ok & ~inside
        if np.any(M[out] != -1):
            raise Violation("pixels outside of the valid-intrinsics region aren't masked")
        ok &= inside
    fmax = max(f["i"][:2])
    thp = np.arccos(np.clip(p[..., 2] / ref.mag(p), -1, 1))
    amp = {"LENSMODEL_PINHOLE": 1 / np.cos(np.minimum(thp, 1.55))**2, "LENSMODEL_STEREOGRAPHIC": 1 / np.cos(thp / 2)**2}.get(f["m"], 1 / np.cos(np.minimum(thp, 1.3))**2)
    # how well are pixels of the TO camera unprojected: 1e-6 pixels; and "rotations" below 1e-6 may be ignored
    tol = np.abs(q) * 1.3e-7 + 1e-4 + (fmax * amp * (3e-7 + (0 if ref.mag(np.array(c["rel"][:3])) > 1e-5 or not np.any(c["rel"][:3]) else 2e-6) + 1e-5 / min(to["i"][:2])))[..., None]
    if c["mode"] in ("distance", "plane"):
        tol *= (1 + 10 / np.minimum(ref.mag(p), 1.))[..., None]
    e = np.abs(M.astype(float) - q)
    bad = ok & np.any(~(e <= tol), -1)
    note("err/tol", float((e[ok] / tol[ok]).max()) if np.any(ok) else 0.)
    if np.any(bad):
        y, x = np.argwhere(bad)[0]
        raise Violation("%s (%s to %s): pixel (x,y)=(%d,%d) maps to %s instead of %s" % (c["mode"], f["m"], to["m"], x, y, M[y, x], q[y, x]))


def polygon(P, q):
    """-> inside, distance to the boundary"""
    inside = np.zeros(q.shape[:-1], bool)
    dist = np.full(q.shape[:-1], np.inf)
    for a, b in zip(P, np.roll(P, -1, axis=0)):
        if np.all(a == b):
            continue
        c = (a[1] > q[..., 1]) != (b[1] > q[..., 1])
        with np.errstate(all="ignore"):
            inside ^= c & (q[..., 0] < (b[0] - a[0]) * (q[..., 1] - a[1]) / (b[1] - a[1]) + a[0])
        t = np.clip(((q - a) @ (b - a)) / ((b - a) @ (b - a)), 0, 1)
        dist = np.minimum(dist, ref.mag(q - a - t[..., None] * (b - a)))
    return inside, dist


# ---------------------------------------------------------------- transform_image

BORDERS = dict(constant=cv2.BORDER_CONSTANT, replicate=cv2.BORDER_REPLICATE, reflect=cv2.BORDER_REFLECT_101, wrap=cv2.BORDER_WRAP, transparent=cv2.BORDER_TRANSPARENT)


@C.facet("transform", st.fixed_dictionaries(dict(W=st.integers(1, 40), H=st.integers(1, 40), w=st.integers(1, 30), h=st.integers(1, 30), seed=gens.seeds, color=st.booleans(),
                                                 dtype=st.sampled_from(["uint8", "uint16", "int16", "float32", "float64"]), layout=st.sampled_from(["C", "flip", "T", "crop"]),
                                                 border=st.sampled_from([None, "constant", "replicate", "reflect", "wrap", "transparent"]), value=st.sampled_from([None, 0, 37]),
                                                 interp=st.sampled_from([None, None, "nearest"]), out=st.booleans(), coords=st.sampled_from(["any", "int", "inside", "nan"]))),
         quick=2500, thorough=60000, shards=2)
def transform(c):
    r = np.random.default_rng(c["seed"])
    W, H, w, h = c["W"], c["H"], c["w"], c["h"]
    ch = (3,) if c["color"] else ()
    n = 3 if c["color"] else 1
    full = r.uniform(0, 255 if c["dtype"] == "uint8" else 30000, (2 * H, 2 * W) + ch).astype(c["dtype"])
    I = full[:H, :W]
    I = {"C": np.ascontiguousarray(I), "flip": I[::-1, ::-1], "T": np.swapaxes(np.ascontiguousarray(np.swapaxes(I, 0, 1)), 0, 1), "crop": I}[c["layout"]]
    lo, hi = (0, 1) if c["coords"] == "inside" else (-.5, 1.5)
    q = np.stack((r.uniform(lo, hi, (h, w)) * (W - 1), r.uniform(lo, hi, (h, w)) * (H - 1)), -1)
    if c["coords"] == "int":
        q = np.round(q)
    q = q.astype(np.float32)
    if c["coords"] == "nan":
        q[r.random((h, w)) < .2] = -1
    kw = {}
    border = BORDERS[c["border"] or "constant"]
    if c["border"]:
        kw["borderMode"] = border
    if c["value"] is not None:
        kw["borderValue"] = (c["value"],) * n if c["color"] else c["value"]
    if c["interp"]:
        kw["interpolation"] = cv2.INTER_NEAREST
    out = None
    if c["out"] or c["border"] == "transparent":
        out = np.full((h, w) + ch, 11, c["dtype"])
        kw["out"] = out
    if c["border"] == "wrap" and (W < 2 or H < 2) or c["border"] == "reflect" and (W < 2 or H < 2):
        trivial()
        return
    label("%s %s" % (c["dtype"], c["border"]))
    I0, q0 = I.copy(), q.copy()
    got = mrcal.transform_image(I, q, **kw)
    if not np.array_equal(I, I0) or not np.array_equal(q, q0):
        raise Violation("the inputs were modified")
    if got.shape != (h, w) + ch or got.dtype != I.dtype:
        raise Violation("the result has shape,type %s,%s" % (got.shape, got.dtype))
    if out is not None and got is not out and not np.array_equal(got, out):
        raise Violation("the result isn't in out=")
    # reference
    J = I.astype(float).reshape(H, W, n)
    val = float(c["value"] or 0)

    def at(x, y):
        x, y = x.astype(int), y.astype(int)
        inb = (x >= 0) & (x < W) & (y >= 0) & (y < H)
        if c["border"] == "replicate":
            return J[np.clip(y, 0, H - 1), np.clip(x, 0, W - 1)], inb
        if c["border"] == "wrap":
            return J[y % H, x % W], inb
        if c["border"] == "reflect":
            def R(k, N):
                k = np.abs(k) % (2 * N - 2)
                return np.where(k >= N, 2 * N - 2 - k, k)
            return J[R(y, H), R(x, W)], inb
        return np.where(inb[..., None], J[np.clip(y, 0, H - 1), np.clip(x, 0, W - 1)], val), inb
    qx, qy = q[..., 0].astype(float), q[..., 1].astype(float)
    G = got.astype(float).reshape(h, w, n)
    if c["interp"]:
        judge = (np.abs(qx - np.floor(qx) - .5) > .02) & (np.abs(qy - np.floor(qy) - .5) > .02)
        want, inb = at(np.round(qx), np.round(qy))
        tol = np.zeros(want.shape) + 1e-3
        if c["border"] == "transparent":
            want = np.where(inb[..., None], want, 11)
    else:
        x0, y0 = np.floor(qx), np.floor(qy)
        a, b = qx - x0, qy - y0
        v = [[at(x0 + i, y0 + j) for i in range(2)] for j in range(2)]
        want = (v[0][0][0] * ((1 - a) * (1 - b))[..., None] + v[0][1][0] * (a * (1 - b))[..., None] + v[1][0][0] * ((1 - a) * b)[..., None] + v[1][1][0] * (a * b)[..., None])
        # cv2 rounds the coordinates to 1/32 pixel. At a cell boundary this may be the next cell
        spread = 0
        for i in range(-1, 3):
            for j in range(-1, 3):
                spread = np.maximum(spread, np.abs(at(x0 + i, y0 + j)[0] - want))
        tol = spread * .04 + (1. if I.dtype.kind != "f" else 1e-2)
        judge = np.ones((h, w), bool)
        if c["border"] == "transparent":
            # cv2 writes the pixels that need no data from the outside; the details depend on the rounding of the coordinates
            allin = v[0][0][1] & v[0][1][1] & v[1][0][1] & v[1][1][1] & (qx > .1) & (qy > .1) & (qx < W - 1.1) & (qy < H - 1.1)
            noneq = ~(v[0][0][1] | v[0][1][1] | v[1][0][1] | v[1][1][1]) & ((qx < -1.1) | (qx > W + .1) | (qy < -1.1) | (qy > H + .1))
            judge = allin | noneq
            want = np.where(allin[..., None], want, 11)
    bad = judge[..., None] & ~(np.abs(G - want) <= tol)
    if np.any(bad):
        y, x, k = np.argwhere(bad)[0]
        raise Violation("transform_image(): pixel (x,y)=(%d,%d) mapped from %s is %s; should be %s" % (x, y, q[y, x], G[y, x], want[y, x]))


# ---------------------------------------------------------------- pinhole fits

@C.facet("pinhole", st.fixed_dictionaries(dict(l=gens.lens(kinds=KINDS, amp=.3, central=True), th=fl(5, 120), W=st.integers(2, 4000), H=st.integers(2, 4000), c=st.one_of(
    st.just([0., 0.]), vec(2, -.4, .4), vec(2, -.4, .4)), aspect=st.sampled_from([1., 1., .8, 1.3]), fit=st.sampled_from([None, "corners", "corners", "centers-horizontal", "centers-vertical", "array"]),
    q=st.lists(vec(2, 0, 1), min_size=1, max_size=5), shape=st.sampled_from(["N", "1", "AB"]), scale=st.one_of(st.none(), fl(.1, 10)), image=st.one_of(st.none(), st.none(), fl(.1, 3), st.just(2.)),
    rt=gens.rtvec(3.))), quick=3000, thorough=100000, shards=2)
def pinhole(c):
    l, W, H = c["l"], c["W"], c["H"]
    if c["fit"] and c["image"] is None and c["scale"] is not None:
        c = dict(c, scale=None)
    th = np.radians(min(c["th"], gens.maxdeg(l["m"]) * .8))
    R = np.hypot(W, H) / 2
    u = 2 * np.tan(th / 2) if "STEREO" in l["m"] else th if "LAT" in l["m"] else np.tan(min(th, 1.45))
    i = np.array(l["i"])
    i[:4] = [R / u, R / u * c["aspect"], (W - 1) * (.5 + c["c"][0]), (H - 1) * (.5 + c["c"][1])]
    rt = np.array(c["rt"])
    m = mrcal.cameramodel(intrinsics=(l["m"], i.copy()), imagersize=(W, H), rt_cam_ref=rt)
    rt = m.rt_cam_ref().copy()
    fit, scale = c["fit"], None if c["fit"] else c["scale"]
    pts = {"corners": [(0, 0), (0, H - 1), (W - 1, H - 1), (W - 1, 0)], "centers-horizontal": [(0, (H - 1) / 2), (W - 1, (H - 1) / 2)],
           "centers-vertical": [((W - 1) / 2, 0), ((W - 1) / 2, H - 1)], "array": [(a * (W - 1), b * (H - 1)) for a, b in c["q"]], None: []}[fit]
    pts = np.array(pts, dtype=float).reshape(-1, 2)
    if fit == "array":
        if c["shape"] == "AB":
            pts = np.concatenate((pts, pts[::-1]))
        fit = pts.copy() if c["shape"] == "N" else pts.reshape(2, -1, 2) if c["shape"] == "AB" else pts[0].copy()
        pts = fit.reshape(-1, 2)
    v = None
    possible = True
    if len(pts):
        with np.errstate(all="ignore"):
            v = mrcal.unproject(pts, l["m"], i, normalize=True)
        if not np.all(np.isfinite(v)) or np.any(np.abs(v[:, 2]) < 1e-3):
            reject()
        possible = np.all(v[:, 2] > 0)
        if np.all(np.abs(v[:, :2]) < 1e-6):
            reject()      # nothing to fit
    label("%s%s" % (c["fit"], "" if possible else " impossible"))
    if c["image"] is not None and min(round(W * c["image"]), round(H * c["image"])) < 1:
        reject()
    kw = {}
    if fit is not None:
        kw["fit"] = fit
    elif scale is not None:
        kw["scale_focal"] = scale
    if c["image"] is not None:
        kw["scale_image"] = c["image"]
    try:
        P = mrcal.pinhole_model_for_reprojection(m, **kw)
        k = mrcal.scale_focal__best_pinhole_fit(m, pts if isinstance(fit, np.ndarray) else fit)
    except Exception as e:
        if not possible:
            return
        raise
    if not np.array_equal(m.intrinsics()[1], i) or not np.array_equal(m.rt_cam_ref(), rt) or list(m.imagersize()) != [W, H] or m.intrinsics()[0] != l["m"]:
        raise Violation("the input model was modified")
    lm, f = P.intrinsics()
    if lm != "LENSMODEL_PINHOLE" or np.any(np.abs(P.rt_cam_ref() - rt) > 0):
        raise Violation("must be a pinhole model at the same pose: %s %s %s" % (lm, P.rt_cam_ref(), rt))
    si = c["image"] or 1.
    size = [W * si, H * si]
    if not all(abs(a - b) <= .5 + 1e-9 for a, b in zip(P.imagersize(), size)):
        raise Violation("imagersize is %s; should be %s" % (P.imagersize(), size))
    ks = scale if scale is not None else k if fit is not None else 1.
    if not np.isfinite(k) or k <= 0:
        raise Violation("scale_focal__best_pinhole_fit() = %s" % k)
    wantf = [i[0] * ks * si, i[1] * ks * si]
    if not np.all(np.abs(f[:2] - wantf) <= 1e-9 * np.array(wantf)):
        raise Violation("focal lengths %s; should be %s" % (f[:2], wantf))
    # the centre of the imager must see along the same direction (with the size not rounded)
    wc = [((size[j] - 1) / 2) - ((x - 1) / 2 - i[2 + j]) * si for j, x in enumerate((W, H))]
    if not np.all(np.abs(f[2:] - wc) <= 1e-9 * (1 + np.abs(wc))):
        raise Violation("center pixel %s; should be %s" % (f[2:], wc))
    if fit is None:
        return
    # the defining property of the fit, in the unscaled image
    q = v[:, :2] / v[:, 2:] * i[:2] * k + i[2:4]
    tol = 1e-6 * (1 + np.abs(i[2:4]) + max(W, H))
    if not possible:
        raise Violation("points at more than 90deg can't be represented by a pinhole model, but the fit succeeded, with the scale %s" % k)
    WH = np.array((W - 1, H - 1.))
    if np.any(q < -tol) or np.any(q > WH + tol):
        raise Violation("fit=%s: the points end up at %s: outside of the %d x %d image" % (c["fit"], q, W, H))
    if not np.any((np.abs(q) < tol) | (np.abs(q - WH) < tol)):
        raise Violation("fit=%s: no point ends up at the edge of the image: %s" % (c["fit"], q))


@C.facet("invalid", st.sampled_from(["n without d", "d without n", "plane and intrinsics", "distance and intrinsics", "distance and plane", "fit and scale", "bad fit", "fit shape", "list image", "list map"]),
         quick=40, thorough=40)
def invalid(bad):
    m = mrcal.cameramodel(intrinsics=("LENSMODEL_PINHOLE", np.array((10., 10, 5, 5))), imagersize=(10, 10))
    n = np.array((0, 0, 1.))
    label(bad)
    f = {"n without d": lambda: mrcal.image_transformation_map(m, m, plane_n=n), "d without n": lambda: mrcal.image_transformation_map(m, m, plane_d=1.),
         "plane and intrinsics": lambda: mrcal.image_transformation_map(m, m, plane_n=n, plane_d=1., intrinsics_only=True),
         "distance and intrinsics": lambda: mrcal.image_transformation_map(m, m, distance=1., intrinsics_only=True),
         "distance and plane": lambda: mrcal.image_transformation_map(m, m, distance=1., plane_n=n, plane_d=2.),
         "fit and scale": lambda: mrcal.pinhole_model_for_reprojection(m, fit="corners", scale_focal=1.),
         "bad fit": lambda: mrcal.pinhole_model_for_reprojection(m, fit="corner"), "fit shape": lambda: mrcal.pinhole_model_for_reprojection(m, fit=np.zeros((3, 3))),
         "list image": lambda: mrcal.transform_image([[1, 2]], np.zeros((2, 2, 2), np.float32)), "list map": lambda: mrcal.transform_image(np.zeros((2, 2)), [[[0., 0.]]])}[bad]
    try:
        f()
    except Exception:
        return
    raise Violation("accepted: " + bad)


if __name__ == "__main__":
    C.main()
