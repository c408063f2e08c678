#!/usr/bin/python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Violation, label, trivial, reject, note
pbt.build_and_import()
import numpy as np
from hypothesis import strategies as st
import mrcal
import ref, gens
from gens import fl, vec

C = pbt.Check("C18", "stereo rectification",
              "Cases: two cameras with any central lens models, any relative pose (sideways, vertical, fore/aft baselines, rotated), any pose in the reference frame, and "
              "any field of view, az0/el0, margin, resolution and rectification model; invalid requests. Oracles: geometry computed from the poses alone, closed forms of "
              "the documented centre/field-of-view/resolution requirements, epipolar rows and disparities of random 3D points, and the reference lens models "
              "for the maps. Non-trivial: models were returned (or an invalid request was made)",
              assumptions=["maps are judged where the ray is inside the domain of the input lens model",
                           "error/no error is not judged within 2e-3 deg of the azimuth margin"])

D = np.pi / 180


def unit(v):
    return v / ref.mag(v)


def clean(x):
    return 0. if abs(x) < 1e-12 else x


@st.composite
def pairs(draw, kinds=("pinhole", "simple", "opencv", "cahvor", "cahvore", "splined")):
    l0 = draw(gens.lens(kinds=kinds, amp=.3, central=True))
    l1 = draw(gens.lens(kinds=kinds, amp=.3, central=True)) if draw(st.booleans()) else l0
    for l in (l0, l1):
        if l["m"].startswith("LENSMODEL_CAHVORE"):
            l["i"][-3:] = [0., 0., 0.]
    kind = draw(st.sampled_from(["nominal", "sideways", "sideways", "any", "any", "vertical", "forward", "left"]))
    b = 10**draw(fl(-3, 3))
    t = {"nominal": [1., 0, 0], "left": [-1., 0, 0], "vertical": [0, 1., 0], "forward": [.3, 0, 1.]}.get(kind)
    if t is None:
        t = [clean(x) for x in draw(vec(3, -1, 1))]
        if kind == "sideways":
            t = [1. if t[0] > 0 else -1., t[1] * .3, t[2] * .5]
    if ref.mag(np.array(t)) < .1:
        t = [1., 0, 0]
    t = unit(np.array(t)) * b
    r = [0., 0, 0] if kind == "nominal" else [clean(x) * draw(st.sampled_from([.01, .2, .6])) for x in draw(vec(3, -1, 1))]
    return dict(l=[l0, l1], rt01=list(r) + t.tolist(), rt0=draw(st.one_of(st.just([0.] * 6), gens.rtvec())), kind=kind)


@st.composite
def requests(draw, maxn=None):
    model = draw(st.sampled_from(["LENSMODEL_LATLON", "LENSMODEL_LATLON", "LENSMODEL_PINHOLE"]))
    margin = draw(st.sampled_from([10., 10., 10., 0.5, 25.]))
    az = draw(st.one_of(fl(1, 130), st.sampled_from([90., 60., 45., 120., 80.])))
    el = draw(st.one_of(fl(1, 130), st.sampled_from([90., 60., 45., 120., 80.])))
    if model == "LENSMODEL_LATLON" and draw(st.integers(0, 4)) == 0:
        el = draw(fl(130, 360))
    q = dict(model=model, az=az, el=el, margin=margin)
    if draw(st.booleans()):
        k = draw(fl(-1, 1))
        w = 90 - margin - az / 2
        q["az0"] = k * w if draw(st.integers(0, 5)) else k * 80
    if draw(st.booleans()):
        q["el0"] = draw(st.sampled_from([0., 10., -30.])) if draw(st.booleans()) else draw(fl(-50, 50) if model != "LENSMODEL_LATLON" else fl(-180, 180))
    q["ppd"] = [None if draw(st.integers(0, 3)) == 0 else (-10**draw(fl(-1, .5)) if draw(st.booleans()) else 10**draw(fl(-.5, 2))) for i in range(2)]
    return q


def make(case):
    Rt0 = ref.Rt_from_rt(np.array(case["rt0"]))
    Rt01 = ref.Rt_from_rt(np.array(case["rt01"]))
    Rt1 = ref.compose_Rt(ref.invert_Rt(Rt01), Rt0)
    ms = [mrcal.cameramodel(intrinsics=(l["m"], np.array(l["i"])), imagersize=(1000, 800), rt_cam_ref=ref.rt_from_Rt(Rt))
          for l, Rt in zip(case["l"], (Rt0, Rt1))]
    # as stored
    Rts = [ref.Rt_from_rt(m.rt_cam_ref()) for m in ms]
    return ms, Rts


def call(ms, q):
    kw = dict(az_fov_deg=q["az"], el_fov_deg=q["el"], rectification_model=q["model"], az_edge_margin_deg=q["margin"])
    if "az0" in q:
        kw["az0_deg"] = q["az0"]
    if "el0" in q:
        kw["el0_deg"] = q["el0"]
    if q["ppd"][0] is not None:
        kw["pixels_per_deg_az"] = q["ppd"][0]
    if q["ppd"][1] is not None:
        kw["pixels_per_deg_el"] = q["ppd"][1]
    return mrcal.rectified_system(ms, return_metadata=True, **kw)


def direction(model, az, el):
    """the ray at a given rectified az,el. PINHOLE: independent tangents"""
    if model == "LENSMODEL_LATLON":
        return np.stack([np.sin(az) * np.ones_like(el), np.cos(az) * np.sin(el), np.cos(az) * np.cos(el)], -1)
    if model == "LENSMODEL_LONLAT":
        return np.stack([np.cos(el) * np.sin(az), np.sin(el) * np.ones_like(az), np.cos(el) * np.cos(az)], -1)
    return np.stack([np.tan(az) * np.ones_like(el), np.tan(el) * np.ones_like(az), np.ones_like(az) * np.ones_like(el)], -1)


def unproject(model, f, q):
    x = (q[..., 0] - f[2]) / f[0]
    y = (q[..., 1] - f[3]) / f[1]
    return direction(model, x, y) if model == "LENSMODEL_LATLON" else np.stack([x, y, np.ones_like(x)], -1)


def project(model, f, p):
    if model == "LENSMODEL_LATLON":
        x = np.arctan2(p[..., 0], np.hypot(p[..., 1], p[..., 2]))
        y = np.arctan2(p[..., 1], p[..., 2])
    else:
        x, y = p[..., 0] / p[..., 2], p[..., 1] / p[..., 2]
    return np.stack([x * f[0] + f[2], y * f[1] + f[3]], -1)


def in_domain(m, v, slack=1.):
    """boolean: the ray is inside the domain in which the model is well-defined"""
    th = np.arccos(np.clip(v[..., 2] / ref.mag(v), -1, 1)) / D
    return th < gens.maxdeg(m) * slack


def away_from_poles(m, v):
    """some distance from the singularities of lonlat, latlon: poles and the wraparound"""
    if m not in ("LENSMODEL_LONLAT", "LENSMODEL_LATLON"):
        return 1.
    v = v / ref.mag(v)[..., None]
    a, b = (v[..., 0], v[..., 1]) if m == "LENSMODEL_LONLAT" else (v[..., 1], v[..., 0])
    return np.minimum(np.pi - np.abs(np.arctan2(a, v[..., 2])), np.hypot(a, v[..., 2]))


def resolution_at(l, R_cam_rect, model, az0, el0):
    """|dq/daz|, |dq/del| per degree: Richardson-extrapolated differences of the reference projection; None outside of the domain"""
    m, i = l["m"], np.array(l["i"])
    h = 1e-5 if "SPLINED" in m else 1e-3     # the splines' 2nd derivatives are discontinuous
    out = []
    d0 = direction(model, np.array(az0), np.array(el0)) @ R_cam_rect.T
    if not in_domain(m, d0, .9) or away_from_poles(m, d0) < .01:
        return None
    for u in (np.array((1., 0)), np.array((0, 1.))):
        def q(k):
            d = direction(model, np.array(az0 + u[0] * k), np.array(el0 + u[1] * k)) @ R_cam_rect.T
            return ref.project(m, i, d)
        g = (8 * (q(h) - q(-h)) - (q(2 * h) - q(-2 * h))) / (12 * h)
        out.append(ref.mag(g) * D)
    return out


def geometry(Rts):
    """-> R_rect_cam0, baseline, mean forward in cam0, |forward normal to baseline|"""
    Rt01 = ref.compose_Rt(Rts[0], ref.invert_Rt(Rts[1]))
    b = ref.mag(Rt01[3])
    x = Rt01[3] / b
    f = np.array((0, 0, 1.)) + Rt01[:3, 2]
    z = f - (f @ x) * x
    n = ref.mag(z)
    if n < 1e-2 or ref.mag(f) < 1e-2:
        return None
    z = z / n
    return np.array((x, np.cross(z, x), z)), b, f / ref.mag(f)


@C.facet("system", st.fixed_dictionaries(dict(pair=pairs(), q=requests(), seed=gens.seeds)), quick=2500, thorough=100000)
def system(case):
    ms, Rts = make(case["pair"])
    q = case["q"]
    g = geometry(Rts)
    if g is None:
        reject()
    R_rect_cam0, b, fwd = g
    if b < 2e-6:
        reject()
    scale = max(ref.mag(Rts[0][3]), ref.mag(Rts[1][3]), b)
    angtol = 1e-12 + 1e-14 * scale / b      # direction of the baseline as known from the stored poses

    # what's expected
    az0auto = np.arcsin(np.clip(fwd @ R_rect_cam0[0], -1, 1)) / D
    lim = 90 - q["margin"]
    expect_error = None
    if "az0" in q:
        edge = abs(q["az0"]) + q["az"] / 2 - lim
        if abs(edge) < 2e-3:
            expect_error = "unknown"
        elif edge > 0:
            expect_error = "margin"
        az0 = q["az0"]
    else:
        if abs(q["az"] / 2 - lim) < 2e-3:
            expect_error = "unknown"
        elif q["az"] / 2 > lim:
            expect_error = "fov"
        az0 = np.clip(az0auto, -lim + q["az"] / 2, lim - q["az"] / 2)
    el0 = q.get("el0", 0.)
    if q["model"] == "LENSMODEL_PINHOLE" and (q["el"] > 179.9 or q["az"] > 179.9):
        reject()

    ppd_have = resolution_at(case["pair"]["l"][0], R_rect_cam0.T, q["model"], az0 * D, el0 * D)
    ppd = []
    for i in range(2):
        p = q["ppd"][i]
        if p is None:
            p = -1.
        if p < 0:
            p = None if ppd_have is None else -p * ppd_have[i]
        ppd.append(p)
    fov = (q["az"], q["el"])
    if None not in ppd and not expect_error:
        if max(ppd) > 3e5:
            reject()
        if min(fov[i] * ppd[i] for i in range(2)) < (1.5 if q["model"] == "LENSMODEL_LATLON" else 6):
            reject()     # less than 1 pixel; ambiguous for such tiny pinhole images
    try:
        (m0, m1), meta = call(ms, q)
    except Exception as e:
        if expect_error:
            label("error: " + expect_error)
            return
        if None in ppd:
            reject()
        raise Violation("rectified_system() failed for a valid request: %s %s" % (q, e))
    if expect_error in ("margin", "fov"):
        raise Violation("rectified_system() looks along the baseline: az0=%s az_fov=%s margin=%s" % (q.get("az0"), q["az"], q["margin"]))
    if None in ppd:
        reject()
    label("%s %s" % (q["model"][10:], case["pair"]["kind"]))
    label("az0 " + ("given" if "az0" in q else "auto" if az0 == az0auto else "auto shifted"))

    # intrinsics
    lm, f = m0.intrinsics()
    lm1, f1 = m1.intrinsics()
    if lm != q["model"] or lm1 != lm or not np.array_equal(f, f1) or not np.array_equal(m0.imagersize(), m1.imagersize()):
        raise Violation("the two rectified models have different intrinsics, or not the requested ones: %s %s; %s %s" % (lm, f, lm1, f1))
    if not np.all(np.isfinite(f)) or f[0] <= 0 or f[1] <= 0 or min(m0.imagersize()) <= 0:
        raise Violation("nonsensical rectified intrinsics %s, imagersize %s" % (f, m0.imagersize()))

    # geometry
    want = R_rect_cam0 @ Rts[0][:3]
    rtol = 1e-6 if np.trace(want) < -1 + 2e-6 else 1e-10      # next to 180 degrees, r_from_R() is less accurate
    Rr = [ref.Rt_from_rt(m.rt_cam_ref()) for m in (m0, m1)]
    if not ref.angle_between_R(Rr[0][:3], Rr[1][:3]) < 1e-13:
        raise Violation("the rectified models have different orientations")
    for i in range(2):
        c_have = ref.invert_Rt(Rr[i])[3]
        c_want = ref.invert_Rt(Rts[i])[3]
        if not ref.mag(c_have - c_want) < 1e-13 * scale + (angtol * b + rtol * (b + scale)) * 3:
            raise Violation("rectified camera %d is not at the position of camera %d: %s vs. %s" % (i, i, c_have, c_want))
    Rt01 = ref.compose_Rt(Rr[0], ref.invert_Rt(Rr[1]))
    if not ref.mag(Rt01[3] - np.array((b, 0, 0))) < 1e-13 * scale + (angtol * b + rtol * (b + scale)) * 3:
        raise Violation("rectified camera 1 is not at +baseline along x: %s, baseline %s" % (Rt01[3], b))
    if not ref.angle_between_R(want, Rr[0][:3]) < 300 * angtol + rtol:
        raise Violation("the rectified orientation is not (baseline, forward x right, mean forward): error %g rad" % ref.angle_between_R(want, Rr[0][:3]))

    # metadata
    for k, v in (("az_fov_deg", q["az"]), ("el_fov_deg", q["el"]), ("el0_deg", el0)):
        if meta[k] != v:
            raise Violation("metadata %s = %s instead of the requested %s" % (k, meta[k], v))
    if abs(meta["baseline"] - b) > 1e-13 * scale + angtol * b:
        raise Violation("metadata baseline %s instead of %s" % (meta["baseline"], b))
    if abs(meta["az0_deg"] - az0) > 1e-3 * (abs(az0 - az0auto) > 0 and "az0" not in q) + 1e-7 + 1e5 * angtol * ("az0" not in q):
        raise Violation("az0_deg is %s. Should be %s" % (meta["az0_deg"], az0))
    if "az0" in q and meta["az0_deg"] != q["az0"]:
        raise Violation("az0_deg is %s. Requested %s" % (meta["az0_deg"], q["az0"]))
    az0 = meta["az0_deg"]
    if abs(az0) + q["az"] / 2 > lim + 2e-3:
        raise Violation("the azimuth margin isn't respected: az0=%s fov=%s margin=%s" % (az0, q["az"], q["margin"]))

    # resolution, center, field of view
    for i, (th0, name) in enumerate(((az0, "az"), (el0, "el"))):
        N = m0.imagersize()[i]
        p = meta["pixels_per_deg_" + name]
        tol = (1e-3 if "SPLINED" in case["pair"]["l"][0]["m"] else 1e-6) if (q["ppd"][i] or -1) < 0 else 1e-13
        if tol > 1e-10 and "az0" not in q:
            tol += 1e4 * angtol + 1e-5
        if q["model"] == "LENSMODEL_LATLON":
            Nw = fov[i] * ppd[i]
            if abs(N - Nw) > .5 + Nw * tol:
                raise Violation("%s: %d pixels for %s deg at %s pixels/deg" % (name, N, fov[i], ppd[i]))
            if abs(p - N / fov[i]) > 1e-12 * p or abs(f[i] * D - p) > 1e-12 * p:
                raise Violation("%s: resolution %s (metadata), %s (intrinsics) does not fit %d pixels in %s deg" % (name, p, f[i] * D, N, fov[i]))
            c = ((N - 1) / 2. - f[2 + i]) / f[i] / D
            if abs(c - th0) > 1e-9:
                raise Violation("%s: the center of the rectified image is at %s deg instead of %s" % (name, c, th0))
        else:
            if abs(p - ppd[i]) > tol * p:
                raise Violation("%s: resolution %s instead of %s" % (name, p, ppd[i]))
            fw = p / D * np.cos(th0 * D)**2
            if abs(f[i] - fw) > 1e-12 * fw:
                raise Violation("%s: focal length %s does not give %s pixels/deg at the center: want %s" % (name, f[i], p, fw))
            # exact edges: tan(th0) -+ s with atan(th0+s)-atan(th0-s) = fov
            T = np.tan(th0 * D)
            F = fov[i] * D
            # tan(F)(1 + T^2 - s^2) = 2s
            t = np.sin(F), np.cos(F)
            s = (-t[1] + np.sqrt(t[1]**2 + t[0]**2 * (1 + T * T))) / t[0]
            cw = (s - T) * f[i]
            n1 = 2 * s * f[i]
            tolp = 1e-6 * (1 + n1) * (1 + T * T)
            note("pinhole center err", abs(f[2 + i] - cw) / tolp)
            if abs(f[2 + i] - cw) > tolp:
                raise Violation("%s: the field of view around %s deg isn't %s deg: center pixel %s instead of %s (f=%s)" % (name, th0, fov[i], f[2 + i], cw, f[i]))
            if abs(N - 1 - n1) > .5 + tolp:
                raise Violation("%s: %d pixels don't cover %s deg around %s deg at f=%s" % (name, N, fov[i], th0, f[i]))

    # epipolar rows and disparities
    rg = gens.rng(case["seed"])
    W, H = m0.imagersize()
    qq = rg.uniform(0, 1, (20, 2)) * np.array((W - 1, H - 1))
    v0 = unproject(lm, f, qq)
    v0 /= ref.mag(v0)[:, None]
    pr = v0 * 10**rg.uniform(-1, 4, (20, 1)) * b
    pref = ref.transform_Rt(ref.invert_Rt(Rr[0]), pr)
    q0 = mrcal.project(ref.transform_Rt(Rr[0], pref), lm, f)
    q1 = mrcal.project(ref.transform_Rt(Rr[1], pref), lm, f)
    p1 = pr - np.array((b, 0, 0))
    # LATLON's elevation is noisy near the poles
    rho = np.minimum(np.hypot(pr[:, 1], pr[:, 2]) , np.hypot(p1[:, 1], p1[:, 2]))
    zmin = np.minimum(pr[:, 2], p1[:, 2]) if lm == "LENSMODEL_PINHOLE" else rho
    poserr = 1e-15 * (scale + b + ref.mag(pr)) * 30
    tolrow = f[1] * poserr / zmin * (1 + np.abs(pr[:, 1]) / zmin) + 1e-11 * (1 + np.abs(q0[:, 1]))
    period = f[1] * 2 * np.pi if lm == "LENSMODEL_LATLON" else np.inf
    d = np.abs(q0[:, 1] - q1[:, 1])
    d = np.minimum(d, np.abs(d - period))
    ok = zmin > 1e-6 * (scale + b)
    if np.any(d[ok] > tolrow[ok]):
        k = np.argmax(np.where(ok, d / tolrow, 0))
        raise Violation("rectified rows aren't epipolar: point %s is seen at %s and %s" % (pref[k], q0[k], q1[k]))
    disp = q0[:, 0] - q1[:, 0]
    tolx = f[0] * poserr / zmin * (1 + np.abs(pr[:, 0]) / zmin) + 1e-11 * (1 + np.abs(q0[:, 0]))
    if np.any(disp[ok] < -tolx[ok]):
        raise Violation("negative disparity")
    want = project(lm, f, pr)[:, 0] - project(lm, f, p1)[:, 0]
    if np.any(np.abs(disp - want)[ok] > 2 * tolx[ok]):
        raise Violation("disparities don't match the baseline")


@st.composite
def invalid_requests(draw):
    pair = draw(pairs())
    q = draw(requests())
    bad = draw(st.sampled_from(["fov0", "fov<0", "ppd0", "baseline", "noncentral", "model", "az0-margin", "az-fov", "el-pinhole"]))
    return dict(pair=pair, q=q, bad=bad, k=draw(st.integers(0, 1)), x=draw(fl(0, 1)))


@C.facet("invalid", invalid_requests(), quick=600, thorough=20000)
def _(case):
    q = dict(case["q"])
    pair = case["pair"]
    bad, k, x = case["bad"], case["k"], case["x"]
    ok = True
    if bad == "fov0":
        q["az" if k else "el"] = 0.
    elif bad == "fov<0":
        q["az" if k else "el"] = -1 - 50 * x
    elif bad == "ppd0":
        q["ppd"] = [0., 10.] if k else [10., 0.]
    elif bad == "baseline":
        pair = dict(pair, rt01=pair["rt01"][:3] + [1e-7 * x, 0., 0.])
        if ref.mag(np.array(pair["rt0"][3:])) > 1:
            pair["rt0"] = pair["rt0"][:3] + [0., 0, 0]
    elif bad == "noncentral":
        i = [1000., 1000., 500., 400., .01, .02, 0., 0., 0., 0., 0., 0.]
        i[9 + int(x * 2.99)] = 1e-4
        l = list(pair["l"])
        l[k] = dict(m="LENSMODEL_CAHVORE_linearity=0.37", i=i)
        pair = dict(pair, l=l)
    elif bad == "model":
        q["model"] = ["LENSMODEL_LONLAT", "LENSMODEL_STEREOGRAPHIC", "LENSMODEL_OPENCV4", "LENSMODEL_CAHVOR"][int(x * 3.99)]
    elif bad == "az0-margin":
        q["az0"] = (1 if k else -1) * (90 - q["margin"] - q["az"] / 2 + .01 + 30 * x)
    elif bad == "az-fov":
        q.pop("az0", None)
        q["az"] = 180 - 2 * q["margin"] + .01 + 30 * x
    else:
        q["model"] = "LENSMODEL_PINHOLE"
        q["el"] = 180 + 180 * x
        if q["ppd"] and q["ppd"][1] is None:
            q["ppd"] = [10., 10.]
        q["el0"] = 0.
    label(bad)
    ms, _ = make(pair)
    if "ppd" in q and bad != "ppd0":
        q["ppd"] = [p if p is not None and p > 0 else 7. for p in q["ppd"]]
    try:
        mm, meta = call(ms, q)
    except Exception:
        return
    raise Violation("an invalid request (%s) was accepted: %s -> %s %s" % (bad, q, mm[0].intrinsics(), mm[0].imagersize()))


@st.composite
def map_cases(draw):
    p = draw(pairs())
    q = draw(requests())
    q["margin"] = 10.
    q["az"] = min(q["az"], 150.)
    if "az0" in q:
        w = 80 - q["az"] / 2
        q["az0"] = max(-w, min(w, q["az0"]))
    n = draw(st.sampled_from(["small", "small", "small", "small", "wide", "tall", "tiny"]))
    Naz, Nel = {"small": (draw(st.integers(2, 30)), draw(st.integers(2, 30))), "wide": (draw(st.integers(500, 5000)), 2), "tall": (2, draw(st.integers(500, 5000))),
                "tiny": (draw(st.integers(1, 3)), draw(st.integers(1, 3)))}[n]
    q["ppd"] = [Naz / q["az"], Nel / q["el"]]
    return dict(pair=p, q=q, n=n, rot=draw(st.one_of(st.none(), st.just([0.] * 3), gens.rvec())))


@C.facet("maps", map_cases(), quick=2500, thorough=100000)
def maps(case):
    ms, Rts = make(case["pair"])
    if geometry(Rts) is None or geometry(Rts)[1] < 2e-6:
        reject()
    q = case["q"]
    try:
        mm, meta = call(ms, q)
    except Exception:       # facet "system" knows about these
        reject()
    W, H = [int(x) for x in mm[0].imagersize()]
    if W * H > 40000 or W < 1 or H < 1:
        reject()
    if case["rot"] is not None:
        # any orientation is good, as long as it's the same for both
        for i, m in enumerate(mm):
            R = ref.R_from_r(np.array(case["rot"]))
            Rt = np.concatenate([R, np.array([[-.7 * i, 0, 0]])], 0)
            m.Rt_cam_ref(Rt)
    label(case["n"])
    for i in range(2):
        label(case["pair"]["l"][i]["m"][10:18])
    f = mm[0].intrinsics()[1]
    out = mrcal.rectification_maps(ms, mm)
    if len(out) != 2 or any(o.dtype != np.float32 or o.shape != (H, W, 2) for o in out):
        raise Violation("rectification_maps() must return two (Nel,Naz,2)=(%d,%d,2) float32 arrays. Have %s %s" % (H, W, out.shape, out.dtype))
    qq = np.stack(np.meshgrid(np.arange(W, dtype=float), np.arange(H, dtype=float)), -1)
    v = unproject(q["model"], f, qq)
    v = v / ref.mag(v)[..., None]
    n = 0
    for i in range(2):
        R = Rts[i][:3] @ ref.Rt_from_rt(mm[i].rt_cam_ref())[:3].T
        vc = v @ R.T
        l = case["pair"]["l"][i]
        mask = in_domain(l["m"], vc, .98)
        mask &= away_from_poles(l["m"], vc) > .03
        if not np.any(mask):
            continue
        want = np.zeros(vc.shape[:2] + (2,))
        want[mask] = ref.project(l["m"], np.array(l["i"]), vc[mask])
        # the local scale: how fast the pixel moves
        e = np.abs(out[i].astype(float) - want)[mask]
        fmax = max(l["i"][:2])
        th = np.arccos(np.clip(vc[..., 2], -1, 1))[mask]
        amp = {"LENSMODEL_PINHOLE": 1 / np.cos(np.minimum(th, 1.55))**2, "LENSMODEL_STEREOGRAPHIC": 1 / np.cos(th / 2)**2}.get(l["m"], 1 / np.cos(np.minimum(th, 1.3))**2)
        tol = np.abs(want[mask]) * 1.3e-7 + 1e-5 + (fmax * amp * 2e-11)[:, None]
        n += mask.sum()
        note("map err/tol", float((e / tol).max()))
        if np.any(e > tol):
            k = np.argmax((e / tol).max(-1))
            a = np.argwhere(mask)[k]
            raise Violation("rectification map %d (%s, %s): pixel (x,y)=(%d,%d) maps to %s instead of %s" % (i, l["m"], q["model"], a[1], a[0], out[i][a[0], a[1]], want[a[0], a[1]]))
    if n == 0:
        trivial()


@st.composite
def resolution_cases(draw):
    l = draw(gens.lens(kinds=("pinhole", "simple", "opencv", "cahvor", "splined"), amp=.3))
    return dict(l=l, model=draw(st.sampled_from(["LENSMODEL_LATLON", "LENSMODEL_LONLAT", "LENSMODEL_PINHOLE"])),
                r=draw(st.one_of(st.just([0.] * 3), vec(3, -.5, .5), gens.rvec())), az0=draw(fl(-60, 60)), el0=draw(fl(-60, 60)), fov=[draw(fl(5, 150)), draw(fl(5, 150))],
                ppd=[draw(st.sampled_from([-1., -.5, -2., 12.3, .7])) for _ in range(2)])


@C.facet("resolution", resolution_cases(), quick=2500, thorough=80000)
def _(case):
    R = ref.R_from_r(np.array(case["r"]))
    have = resolution_at(case["l"], R, case["model"], case["az0"] * D, case["el0"] * D)
    if have is None:
        reject()
    m = mrcal.cameramodel(intrinsics=(case["l"]["m"], np.array(case["l"]["i"])), imagersize=(1000, 800))
    got = mrcal.rectified_resolution(m, az_fov_deg=case["fov"][0], el_fov_deg=case["fov"][1], az0_deg=case["az0"], el0_deg=case["el0"], R_cam0_rect0=R,
                                     pixels_per_deg_az=case["ppd"][0], pixels_per_deg_el=case["ppd"][1], rectification_model=case["model"])
    label(case["model"])
    for i in range(2):
        p = case["ppd"][i]
        w = p if p > 0 else -p * have[i]
        tol = (1e-3 if "SPLINED" in case["l"]["m"] else 1e-6) * max(w, max(have) * 1e-2)
        if case["model"] == "LENSMODEL_PINHOLE":
            if abs(got[i] - w) > tol:
                raise Violation("resolution along %d: %s instead of %s" % (i, got[i], w))
        else:
            N = got[i] * case["fov"][i]
            if abs(N - round(N)) > 1e-9 * max(1, N):
                raise Violation("pixels_per_deg %s does not fit %s deg" % (got[i], case["fov"][i]))
            if abs(N - w * case["fov"][i]) > .5 + tol * case["fov"][i]:
                raise Violation("resolution along %d: %s instead of %s" % (i, got[i], w))


if __name__ == "__main__":
    C.main()
