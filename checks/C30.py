#!/usr/bin/python3
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Violation, label, trivial, reject, note
pbt.build_and_import()
import numpy as np
from hypothesis import strategies as st
import cv2
import mrcal
import ref, gens, cli
from cli import run, scratch
from gens import fl, vec

C = pbt.Check("C30", "feature matching",
              "Cases: random band-limited textures rendered analytically into two images related by a random homography (translation, rotation, scale, skew, perspective), query points, wrong initial estimates, "
              "template sizes, search radii (also beyond the image), 8-bit and float images, every matching method, query points near the edges; planes seen by two random cameras (for mrcal-triangulate); "
              "striped and featureless images; homographies of any scale, shape and type. Oracle: the homography used for the rendering; correlations recomputed in numpy. Non-trivial: a match is expected",
              assumptions=["OpenCV's matchTemplate() is right"])

METHODS = ["TM_CCORR_NORMED", "TM_CCOEFF_NORMED", "TM_SQDIFF_NORMED", "TM_SQDIFF", "TM_CCOEFF"]


class Texture:
    """band-limited: smooth at the scale of pixels, detailed at the scale of templates"""
    def __init__(self, seed, wave=(7., 30.)):
        r = np.random.default_rng(seed)
        n = 40
        th, w = r.uniform(0, 2 * np.pi, n), 2 * np.pi / np.exp(r.uniform(*np.log(wave), n))
        self.k = np.stack((np.cos(th), np.sin(th)), -1) * w[:, None]
        self.ph = r.uniform(0, 2 * np.pi, n)
        self.a = r.uniform(.5, 1, n)
        self.a /= np.sqrt((self.a**2).sum() / 2)

    def __call__(self, q, scale=50.):
        """q (...,2) -> intensity, 0..255"""
        v = np.zeros(q.shape[:-1])
        for k, ph, a in zip(self.k, self.ph, self.a):
            v += a * np.cos(q @ k + ph)
        return np.clip(128 + scale * v, 0, 255)


def grid(W, H):
    return np.stack(np.meshgrid(np.arange(W, dtype=float), np.arange(H, dtype=float)), -1)


def homog(H, q):
    v = np.concatenate((q, np.ones(q.shape[:-1] + (1,))), -1) @ np.asarray(H, float).T
    return v[..., :2] / v[..., 2:]


def as_image(v, dtype):
    return np.round(v).astype(np.uint8) if dtype == "u8" else (v / 255).astype(np.float32)


@st.composite
def homography(draw):
    """about the center of the match"""
    kind = draw(st.sampled_from(["id", "mild", "mild", "wild"]))
    if kind == "id":
        return [[1., 0, 0], [0, 1, 0], [0, 0, 1]]
    if kind == "mild":
        th, s, k, p = draw(fl(-.3, .3)), draw(fl(.8, 1.25)), draw(vec(2, -.15, .15)), draw(vec(2, -2e-4, 2e-4))
    else:
        th, s, k, p = draw(fl(-3.2, 3.2)), draw(fl(.7, 1.5)), draw(vec(2, -.3, .3)), draw(vec(2, -1e-3, 1e-3))
    A = s * np.array(((np.cos(th), -np.sin(th)), (np.sin(th), np.cos(th)))) @ np.array(((1 + k[0], k[1]), (0, 1 - k[0])))
    return [[*A[0], 0.], [*A[1], 0.], [*p, 1.]]


def shift(d):
    return np.array(((1, 0, d[0]), (0, 1, d[1]), (0, 0, 1.)))


@st.composite
def matches(draw):
    return dict(H=draw(homography()), seed=draw(gens.seeds), size0=[draw(st.integers(120, 260)), draw(st.integers(120, 260))], size1=[draw(st.integers(100, 220)), draw(st.integers(100, 220))], tw=draw(st.integers(25, 45)), th=draw(st.integers(25, 45)), square=draw(st.booleans()),
                radius=draw(st.sampled_from([5, 10, 20, 40, 1000])), method=draw(st.sampled_from([None] + METHODS)), dtype=draw(st.sampled_from(["u8", "u8", "f32"])), est=draw(st.booleans()), off=draw(vec(2, -.9, .9)), integer=draw(st.booleans()), where=draw(st.sampled_from(["in", "in", "in", "any"])), k=draw(st.sampled_from([1., 1., 3., -.5])),
                layout=draw(st.sampled_from(["c", "c", "view", "flip"])), q32=draw(st.booleans()), np_size=draw(st.booleans()))


def setup(c):
    r = np.random.default_rng(c["seed"])
    W0, H0 = c["size0"]
    W1, H1 = c["size1"]
    t = np.array((c["tw"], c["tw"] if c["square"] else c["th"]))
    q0 = r.uniform(.3, .7, 2) * (W0 - 1, H0 - 1)
    m = np.minimum((t + 1) / 2 + 3, np.array((W1, H1)) * .4)
    q1 = r.uniform(0, 1, 2) * ((W1 - 1, H1 - 1) - 2 * m) + m if c["where"] == "in" else r.uniform(-.1, 1.1, 2) * (W1, H1)
    if c["integer"]:
        q0 = np.round(q0)
    H10 = shift(q1) @ np.array(c["H"]) @ shift(-q0)
    return r, q0, q1, t, H10


def layout(im, how):
    if how == "view":
        big = np.full((im.shape[0] + 3, im.shape[1] * 2 + 5), 7, im.dtype)
        v = big[2:2 + im.shape[0], 3:3 + 2 * im.shape[1]:2]
        v[:] = im
        return v
    if how == "flip":
        return np.ascontiguousarray(im[::-1, ::-1])[::-1, ::-1]
    return im


def ambiguous(T, im, lo, hi, true, m, margin, ring=1.01):
    """does the exact template match about as well somewhere else? lo..hi: where the template's corner goes; true: where it should go"""
    best = rest = None
    w = np.lib.stride_tricks.sliding_window_view(im[lo[1]:hi[1] + T.shape[0], lo[0]:hi[0] + T.shape[1]], T.shape)
    if "CCOEFF" in m:
        T = T - T.mean()
        w = w - w.mean((-1, -2), keepdims=True)
    c, n2, t2 = np.einsum("ijkl,kl->ij", w, T, optimize=True), (w**2).sum((-1, -2)), (T**2).sum()
    if "SQDIFF" in m:
        v = -(n2 - 2 * c + t2) / (np.sqrt(n2 * t2) if "NORMED" in m else t2)
    else:
        v = c / np.sqrt(np.maximum(n2 * t2, 1e-9))
    g = np.abs(grid(*v.shape[::-1]) + lo - true).max(-1)
    near = g < 1.01
    return not near.any() or (v[g > ring] > v[near].max() - margin).any()


@C.facet("match", matches(), quick=350, thorough=8000)
def match(c):
    r, q0, q1, t, H10 = setup(c)
    tex = Texture(c["seed"], (6.5, 16.))
    W0, H0 = c["size0"]
    W1, H1 = c["size1"]
    im0 = as_image(tex(grid(W0, H0)), c["dtype"])
    Hinv = np.linalg.inv(H10)
    # nothing behind the horizon
    g1 = grid(W1, H1)
    den = np.concatenate((g1, np.ones((H1, W1, 1))), -1) @ Hinv[2]
    if c["est"] and np.abs(np.array(c["H"]) - np.eye(3)).max() > 0:
        c["est"] = False
    den1 = np.array((*q1, 1)) @ Hinv[2]
    sel = np.abs(g1 - q1).max(-1) < t.max() / 2 + c["radius"] + 2
    if (den[sel] / den1 < .3).any():
        reject()
    den = np.where(den / den1 < .05, 1e9, den)
    v = np.concatenate((g1, np.ones((H1, W1, 1))), -1) @ Hinv.T
    src = v[..., :2] / den[..., None]
    im1 = as_image(tex(src), c["dtype"])
    off = np.array(c["off"]) * min(c["radius"], 60)
    if c["radius"] > 3:
        off *= (min(c["radius"], 60) - 2.5) / min(c["radius"], 60)
    est = q1 + off
    Hs = shift(off) @ H10
    tm = np.round(est - (t - 1.) / 2.)
    margin = np.array([tm.min(), (np.array((W1, H1)) - (tm + t)).min()])
    corners = tm + np.array(((0, 0), (1, 0), (0, 1), (1, 1))) * (t - 1)
    c0 = homog(np.linalg.inv(Hs), corners)
    in1 = margin.min() >= 0
    m0 = min(c0.min(), (np.array((W0, H0)) - 1 - c0).min())
    fr = np.abs(est - (t - 1.) / 2. - np.floor(est - (t - 1.) / 2.) - .5).min()
    kw = dict(search_radius1=c["radius"], template_size1=int(t[0]) if c["square"] else (np.array(t) if c["np_size"] else (int(t[0]), int(t[1]))))
    if c["est"]:
        kw["q1_estimate"] = est.copy()
    else:
        kw["H10"] = Hs * c["k"]
    if c["method"]:
        kw["method"] = getattr(cv2, c["method"])
    q0a = q0.astype(np.float32) if c["q32"] else q0.copy()
    im0, im1 = layout(im0, c["layout"]), layout(im1, c["layout"])
    args = [im0, im1, q0a]
    before = [x.copy() for x in args], {k: np.array(v) for k, v in kw.items()}
    try:
        got, d = mrcal.match_feature(*args, **kw)
    except Exception as e:
        if "Too close to" not in str(e):
            raise Violation("match_feature() failed: %s" % e)
        trivial()
        label("out of bounds")
        if fr > 1e-3 and in1 and m0 > 1e-2:
            raise Violation("the template is inside both images; but match_feature() says: %s" % e)
        return
    finally:
        if any((a != b).any() for a, b in zip(args, before[0])) or any(np.any(np.array(kw[k]) != before[1][k]) for k in kw):
            raise Violation("match_feature() modified its inputs")
    if fr > 1e-3 and (not in1 or m0 < -1.01):
        raise Violation("the template isn't inside the images (corners in image0: %s, in image1: %s), but there's no error" % (c0, corners))
    if m0 < .51 or fr < 1e-3:
        reject()
    # what's searched
    lo = np.maximum(tm - c["radius"], 0)
    hi = np.minimum(tm + c["radius"] + t - 1, (W1 - 1, H1 - 1))
    M = d["matchoutput_image"]
    want = (hi - lo + 1 - t + 1)[::-1].astype(int)
    if tuple(M.shape) != tuple(want):
        raise Violation("the match output has shape %s; should be %s" % (M.shape, want))
    # check the correlations
    T = tex(homog(np.linalg.inv(Hs), tm + grid(*t)))
    i1 = im1.astype(float) * (255 if c["dtype"] == "f32" else 1)
    for _ in range(4):
        x, y = (int(r.integers(n)) for n in M.shape[::-1])
        I = i1[int(lo[1]) + y:int(lo[1]) + y + t[1], int(lo[0]) + x:int(lo[0]) + x + t[0]]
        m = c["method"] or "TM_CCORR_NORMED"
        s = np.sqrt((T**2).sum() * (I**2).sum())
        dev = np.sqrt(((T - T.mean())**2).sum() * ((I - I.mean())**2).sum())
        f = 1 if c["dtype"] == "u8" else 255.**2
        # the template is interpolated linearly
        if m == "TM_CCORR_NORMED":
            e = abs(M[y, x] - (T * I).sum() / s)
        elif m == "TM_CCOEFF_NORMED":
            e = abs(M[y, x] - ((T - T.mean()) * (I - I.mean())).sum() / dev)
        elif m == "TM_CCOEFF":
            e = abs(M[y, x] * f - ((T - T.mean()) * (I - I.mean())).sum()) / dev
        elif m == "TM_SQDIFF":
            e = abs(M[y, x] * f - ((T - I)**2).sum()) / s
        else:
            e = abs(M[y, x] - ((T - I)**2).sum() / s)
        if not e < .12:
            raise Violation("the match output at %s is off by %s (relative)" % ((x, y), e))
    best = np.argmin(M) if "SQDIFF" in m else np.argmax(M)
    best = np.array(np.unravel_index(best, M.shape))[::-1]
    sh = lo + est - tm
    true = q1 - sh
    if m != "TM_CCOEFF" and ambiguous(T, i1, lo.astype(int), (hi - t + 1).astype(int), true + lo, m, .002):
        label("ambiguous")
        trivial()
        return
    if got is None:
        trivial()
        label("not matched")
        if (best > 0).all() and (best < np.array(M.shape)[::-1] - 1).all() and np.abs(best - true).max() < .8:
            raise Violation("no match reported; the true match %s is in the search window" % q1)
        if not ((true < 1.01).any() or (true > np.array(M.shape)[::-1] - 2.01).any()) and m != "TM_CCOEFF":
            raise Violation("no match reported; the true match is %s; the estimate is off by %s; the search radius is %s" % (q1, off, c["radius"]))
        return
    if np.abs(d["matchoutput_optimum_subpixel_at"] + d["qshift_image1_matchoutput"] - got).max() > 1e-6 * (1 + np.abs(got).max()):
        raise Violation("q1 = %s, matchoutput_optimum_subpixel_at = %s, qshift_image1_matchoutput = %s" % (got, d["matchoutput_optimum_subpixel_at"], d["qshift_image1_matchoutput"]))
    if np.abs(d["qshift_image1_matchoutput"] - sh).max() > 1e-3:
        raise Violation("qshift_image1_matchoutput = %s; should be %s" % (d["qshift_image1_matchoutput"], sh))
    if np.abs(d["matchoutput_optimum_subpixel_at"] - best).max() > 1.001:
        raise Violation("the optimum of the match output is at %s; the subpixel optimum is %s" % (best, d["matchoutput_optimum_subpixel_at"]))
    rng = np.ptp(M[best[1] - 1:best[1] + 2, best[0] - 1:best[0] + 2])
    if abs(d["matchoutput_optimum_subpixel"] - M[best[1], best[0]]) > .5 * rng + 1e-6:
        raise Violation("the optimum of the match output is %s; the subpixel optimum is %s" % (M[best[1], best[0]], d["matchoutput_optimum_subpixel"]))
    # the unnormalized correlation isn't optimal at the match
    if m == "TM_CCOEFF" or (true < .99).any() or (true > np.array(M.shape)[::-1] - 1.99).any():
        label("match not judged")
        return
    e = np.abs(got - q1).max()
    note("error, pixels, %s%s" % (m, ""), e)
    label("matched")
    if not e < .15:
        raise Violation("the match is %s; should be %s. The estimate was %s" % (got, q1, est))


@C.facet("degenerate", st.fixed_dictionaries(dict(seed=gens.seeds, kind=st.sampled_from(["stripes", "stripes", "steps", "constant", "half", "dot"]), method=st.sampled_from([None] + METHODS), radius=st.sampled_from([0, 1, 5, 15]), size=st.integers(1, 25), angle=st.sampled_from([0, 0, 90, 90, 45, 20]))), quick=200, thorough=4000)
def degenerate(c):
    """no texture: the result is either no match, or something near the discrete optimum"""
    r = np.random.default_rng(c["seed"])
    g = grid(120, 100)
    th = np.radians(c["angle"])
    u = g @ (np.cos(th), np.sin(th)) if c["angle"] != 90 else g[..., 1]
    p, ph = r.uniform(8, 30), r.uniform(0, 6)
    im = {"stripes": 128 + 100 * np.sin(2 * np.pi * u / p + ph), "steps": 50 + 150. * (np.sin(2 * np.pi * u / p + ph) > 0), "constant": 0 * u + r.integers(256), "half": 200. * (u > 50), "dot": 200. * (np.linalg.norm(g - (60, 50), axis=-1) < 4)}[c["kind"]]
    im = np.round(im).astype(np.uint8)
    q0 = np.round(r.uniform(40, 60, 2), 2)
    kw = {} if c["method"] is None else dict(method=getattr(cv2, c["method"]))
    try:
        with np.errstate(all="ignore"):
            q1, d = mrcal.match_feature(im, im, q0, q1_estimate=q0 + r.integers(-3, 4, 2), search_radius1=c["radius"], template_size1=c["size"], **kw)
    except Exception as e:
        raise Violation("match_feature() failed: %s" % e)
    M = d["matchoutput_image"]
    if q1 is None:
        label("no match")
        trivial()
        return
    label("match")
    if not np.isfinite(q1).all():
        raise Violation("the reported match is %s" % q1)
    best = np.argmin(M) if "SQDIFF" in str(c["method"]) else np.argmax(M)
    best = np.array(np.unravel_index(best, M.shape))[::-1]
    if np.abs(q1 - d["qshift_image1_matchoutput"] - best).max() > 1.001:
        raise Violation("the optimum of the match output is at %s; the reported match is at %s in the output" % (best, q1 - d["qshift_image1_matchoutput"]))


@C.facet("refused", st.sampled_from(["both", "neither", "color0", "color1", "size3", "size0", "sizef", "big"]), quick=30, thorough=60, shards=1)
def refused(c):
    im = np.round(Texture(1)(grid(100, 90))).astype(np.uint8)
    a = dict(image0=im, image1=im, q0=np.array((50., 45)), q1_estimate=np.array((50., 45)), search_radius1=10, template_size1=(11, 13))
    q, _ = mrcal.match_feature(**a)
    if np.abs(q - a["q0"]).max() > .2:
        raise Violation("matching an image to itself: %s" % q)
    if c == "both":
        a["H10"] = np.eye(3)
    elif c == "neither":
        a["q1_estimate"] = None
    elif c[:5] == "color":
        a["image" + c[5]] = np.stack((im,) * 3, -1)
    else:
        a["template_size1"] = {"size3": (11, 13, 15), "size0": (0, 13), "sizef": (11.5, 13), "big": (101, 13)}[c]
    try:
        mrcal.match_feature(**a)
    except Exception:
        return
    raise Violation("%s: there was no error" % c)


########### apply_homography
@C.facet("apply_homography", st.fixed_dictionaries(dict(seed=gens.seeds, H=st.sampled_from([(), (), (3,), (2, 1), (1,)]), q=st.sampled_from([(), (5,), (3,), (2, 3), (4, 2, 3), (0,)]), k=st.sampled_from([1., -1., 1e-9, 1e9]), dtype=st.sampled_from(["f8", "f8", "f4", "mixed", "int"]), out=st.booleans(), layout=st.sampled_from(["c", "f", "neg", "view"]), wild=st.booleans())), quick=1500, thorough=30000)
def apply(c):
    r = np.random.default_rng(c["seed"])
    c["H"], c["q"] = tuple(c["H"]), tuple(c["q"])
    H = np.eye(3) + r.normal(size=c["H"] + (3, 3)) * np.array(((.5, .5, 100), (.5, .5, 100), (1e-4, 1e-4, .1))) * (10 if c["wild"] else 1)
    H *= c["k"]
    q = r.uniform(-2000, 4000, c["q"] + (2,))
    try:
        shape = np.broadcast_shapes(c["H"], c["q"])
    except ValueError:
        reject()
    if c["dtype"] == "f4":
        H, q = H.astype(np.float32), q.astype(np.float32)
    elif c["dtype"] == "int":
        q = np.round(q)
    want = np.einsum("...ij,...j->...i", H.astype(float), np.concatenate((q, np.ones(q.shape[:-1] + (1,))), -1).astype(float))
    big = np.einsum("...ij,...j->...i", np.abs(H).astype(float), np.concatenate((np.abs(q), np.ones(q.shape[:-1] + (1,))), -1).astype(float))
    if want.size and (np.abs(want[..., 2]) < 1e-3 * big[..., 2]).any():
        reject()
    tol = big / np.abs(want[..., 2:])
    tol = tol[..., :2] + np.abs(want[..., :2] / want[..., 2:]) * tol[..., 2:]
    want = want[..., :2] / want[..., 2:]
    if c["layout"] == "f":
        H, q = np.asfortranarray(H), np.asfortranarray(q)
    elif c["layout"] == "neg":
        H, q = np.ascontiguousarray(H[..., ::-1])[..., ::-1], np.ascontiguousarray(q[..., ::-1])[..., ::-1]
    elif c["layout"] == "view":
        H, q = np.concatenate((H, H), -1)[..., :3], np.concatenate((q, q), -1)[..., 1:3][..., ::-1] if False else np.concatenate((q, q), -1)[..., :2]
    if c["dtype"] == "int":
        q = q.astype(int)
    if c["dtype"] == "mixed":
        q = q.astype(np.float32)
        want = homog_b(H, q)
    h0, q00 = H.copy(), q.copy()
    kw = {}
    if c["out"] and c["dtype"] in ("f8", "f4"):
        kw["out"] = np.full(shape + (2,), 7, H.dtype)
    try:
        got = mrcal.apply_homography(H, q, **kw)
    except Exception as e:
        if c["dtype"] in ("int", "mixed"):
            label("type refused")
            return
        raise Violation("apply_homography() failed: %s" % e)
    if kw and got is not kw["out"] and not np.array_equal(got, kw["out"]):
        raise Violation("out=... wasn't filled")
    if got.shape != shape + (2,):
        raise Violation("the result has shape %s; should be %s" % (got.shape, shape + (2,)))
    if (H != h0).any() or (q != q00).any():
        raise Violation("apply_homography() modified its inputs")
    if not want.size:
        trivial()
        return
    eps = 1e-14 if c["dtype"] in ("f8", "int") else 1e-6
    if not (np.abs(got - want) <= eps * tol * 10 + eps).all():
        raise Violation("the result is\n%s\nshould be\n%s" % (got, want))
    label("ok")


def homog_b(H, q):
    v = np.einsum("...ij,...j->...i", np.asarray(H, float), np.concatenate((np.asarray(q, float), np.ones(q.shape[:-1] + (1,))), -1))
    return v[..., :2] / v[..., 2:]


########### mrcal-triangulate, with images
@C.facet("triangulate-images", st.fixed_dictionaries(dict(seed=gens.seeds, a=gens.lens(kinds=("pinhole", "opencv", "simple"), amp=.3, central=True), b=gens.lens(kinds=("pinhole", "opencv", "simple"), amp=.3, central=True), rt=gens.rtvec(), rel=vec(3, -.1, .1), plane=st.sampled_from(["range", "plane", "tilted"]), off=fl(-.06, .06), size=st.sampled_from([None, [21, 31]]))), quick=45, thorough=900)
def triangulate(c):
    r = np.random.default_rng(c["seed"])
    S = np.array((500, 400))
    def lens(l):
        m, i = l["m"], np.array(l["i"], float)
        i[:2] = 600 * r.uniform(.9, 1.1)
        i[2:4] = (S - 1) / 2 + r.uniform(-10, 10, 2)
        if m in ("LENSMODEL_LONLAT", "LENSMODEL_LATLON"):
            m = "LENSMODEL_STEREOGRAPHIC"
        return m, i
    la, lb = lens(c["a"]), lens(c["b"])
    base = r.uniform(.3, 1)
    Z = base * r.uniform(8, 25)
    rt01 = np.concatenate((c["rel"], (base, r.uniform(-.05, .05) * base, r.uniform(-.2, .2) * base)))
    # aim them at the same place
    A = mrcal.cameramodel(intrinsics=la, imagersize=S, rt_cam_ref=np.array(c["rt"]))
    look = np.array((base * .5, 0, Z))
    fwd = look - rt01[3:]
    R = ref.R_from_r(np.array(c["rel"]))
    ax = np.cross((0, 0, 1.), fwd / np.linalg.norm(fwd))
    rt01[:3] = ref.r_from_R(ref.R_from_r(ax) @ ref.R_from_r(np.array((0, 0, c["rel"][2]))) @ ref.R_from_r(.1 * np.array((c["rel"][0], c["rel"][1], 0))))
    B = mrcal.cameramodel(intrinsics=lb, imagersize=S, rt_ref_cam=mrcal.compose_rt(A.rt_ref_cam(), rt01))
    n = np.array((0, 0, 1.)) + mrcal.rotate_point_r(rt01[:3], np.array((0, 0, 1.)))
    n /= np.linalg.norm(n)
    if c["plane"] == "tilted":
        n = n + r.uniform(-.5, .5, 3)
        n /= np.linalg.norm(n)
    q0 = np.round((S - 1) / 2 + r.uniform(-.15, .15, 2) * S, 2)
    v0 = mrcal.unproject(q0, *A.intrinsics(), normalize=True)
    rng = Z / v0[2]
    d = n @ (v0 * rng)
    tex = Texture(c["seed"], (6., 20.))
    e1 = np.cross(n, (0, 1., 0))
    e1 /= np.linalg.norm(e1)
    e2 = np.cross(n, e1)
    ims = []
    for m, T in ((A, mrcal.identity_rt()), (B, rt01)):
        v = mrcal.unproject(grid(*S), *m.intrinsics(), normalize=True)
        v = mrcal.rotate_point_r(T[:3], v)
        k = (d - n @ T[3:]) / (v @ n)
        if (k < 0).any() or not np.isfinite(k).all():
            reject()
        p = T[3:] + k[..., None] * v
        ims.append(np.round(tex(np.stack((p @ e1, p @ e2), -1) / Z * 600)).astype(np.uint8))
    X = v0 * rng
    def surface(q):
        v = mrcal.rotate_point_r(rt01[:3], mrcal.unproject(q, *B.intrinsics(), normalize=True))
        p = rt01[3:] + ((d - n @ rt01[3:]) / (v @ n))[..., None] * v
        return np.stack((p @ e1, p @ e2), -1) / Z * 600
    q1 = mrcal.project(mrcal.transform_point_rt(mrcal.invert_rt(rt01), X), *B.intrinsics())
    if (q1 < 60).any() or (q1 > S - 60).any():
        reject()
    t = np.array(c["size"] or (13, 13))
    T = tex(surface(q1 - (t - 1) / 2 + grid(*t)))
    corner = np.floor(q1 - (t - 1) / 2).astype(int)
    if ambiguous(T, ims[1].astype(float), corner - 30, corner + 31, q1 - (t - 1) / 2, "TM_CCORR_NORMED", .015, 4):
        reject()
    args = []
    if c["plane"] == "range":
        args += ["--range-estimate", repr(rng * (1 + c["off"]))]
    else:
        args += ["--plane-n"] + ["%.12f" % x for x in n] + ["--plane-d", repr(d * (1 + c["off"])), "--range-estimate", repr(rng)]
    if c["size"]:
        args += ["--template-size"] + c["size"]
    with scratch():
        A.write("a.cameramodel")
        B.write("b.cameramodel")
        mrcal.save_image("a.png", ims[0])
        mrcal.save_image("b.png", ims[1])
        o = run("mrcal-triangulate", args + ["a.cameramodel", "b.cameramodel", "a.png", "b.png"] + [repr(float(x)) for x in q0])
    m = re.search(r"Feature match found at \[(.*)\]", o.out)
    if o.rc or not m:
        if "Feature-matching failed" in o.out or "too close" in o.err.lower() or "Too close" in o.err or "divergent" in o.err:
            # is the true match in the search window?
            raise Violation("the match wasn't found; it's at %s; the initial estimate is off by %s%% of the range: %s %s" % (q1, c["off"] * 100, o.out[-400:], o.err[-400:]))
        raise Violation("mrcal-triangulate failed: %s" % o.err[-500:])
    got = np.array([float(x) for x in m.group(1).split()])
    e = np.abs(got - q1).max()
    note("error of mrcal-triangulate, pixels", e)
    if not e < .3:
        raise Violation("the match is at %s; should be %s" % (got, q1))
    label("matched")


if __name__ == "__main__":
    C.main()
