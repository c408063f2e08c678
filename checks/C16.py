#!/usr/bin/python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Violation, label, trivial, reject, note
pbt.build_and_import()
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import minimize_scalar
import mrcal
import ref, gens
from gens import fl, vec

C = pbt.Check("C16", "triangulation",
              "Cases: a point in front of two cameras with any baseline, parallax 1e-3 to 2 rad, and relative rotation; observation vectors of any length; "
              "angular noise of a chosen fraction of the parallax; rays that diverge. Oracles: the true point; the criterion each method documents, minimised "
              "numerically over all epipolar planes; closed forms from the papers; differentiation. Non-trivial: a decided (not borderline) case.",
              assumptions=["convergence/divergence is not judged where its decisive quantity is within 1e-6 (relative) of its threshold"])
M = ["geometric", "lindstrom", "leecivera_l1", "leecivera_linf", "leecivera_mid2", "leecivera_wmid2"]


def unit(v):
    return v / ref.mag(v)


def angle(a, b):
    a, b = unit(a), unit(b)
    return 2 * np.arctan2(ref.mag(a - b), ref.mag(a + b))


def clean(x):
    """no 1e-160: such rays are parallel for all purposes"""
    return 0. if abs(x) < 1e-15 else x


@st.composite
def scenes(draw, noise=False):
    z = 10**draw(fl(-2, 3))
    p = np.array([clean(draw(fl(-1.5, 1.5))), clean(draw(fl(-1.5, 1.5))), 1.]) * z
    par = 10**draw(fl(-3, 0))        # baseline / range
    t = np.array([clean(draw(fl(-1, 1))) for _ in range(3)])
    if ref.mag(t) < .1:
        t = np.array((1., 0, 0))
    t = unit(t) * par * ref.mag(p) * .9
    if draw(st.integers(0, 3)) == 0:
        t[1:] = 0
    r = draw(st.sampled_from([0., .05, .3])) * np.array(draw(vec(3, -1, 1)))
    r[np.abs(r) < 1e-15] = 0
    c = dict(p=p.tolist(), rt01=list(r) + t.tolist(), s=[10**draw(fl(-4, 4)) if draw(st.booleans()) else 1., 10**draw(fl(-4, 4)) if draw(st.booleans()) else 1.])
    if noise:
        c.update(n=[clean(draw(fl(-1, 1))) for _ in range(4)], frac=10**draw(fl(-4, -.7)))
    return c


def rays(case):
    """-> p, Rt01, v0, v1 in camera-0 coordinates, unit. None if it is not seen in front of both"""
    p = np.array(case["p"])
    Rt01 = ref.Rt_from_rt(np.array(case["rt01"]))
    t = Rt01[3]
    v0, v1 = unit(p), unit(p - t)
    th = angle(v0, v1)
    if th < 1e-3 or th > 2.:
        reject()
    v1l = Rt01[:3].T @ v1
    if min(v0[2], v1[2], v1l[2]) < .15:
        reject()
    return p, Rt01, v0, v1, th


def call(m, v0, v1, Rt01, local):
    """v1 in the camera-0 coordinates"""
    if local:
        return getattr(mrcal, "triangulate_" + m)(v0, Rt01[:3].T @ v1, Rt01=Rt01, v_are_local=True)
    if m == "lindstrom":
        return mrcal.triangulate_lindstrom(v0, v1, Rt01, v_are_local=False)
    return getattr(mrcal, "triangulate_" + m)(v0, v1, Rt01[3])


@C.facet("exact", scenes(), quick=3000, thorough=150000)
def exact(case):
    p, Rt01, v0, v1, th = rays(case)
    s0, s1 = case["s"]
    label("th<1e-2" if th < 1e-2 else "th<.1" if th < .1 else "th>.1")
    label("scaled" if case["s"] != [1, 1] else "unit")
    for m in M:
        if m == "geometric" and th < 1e-4:
            continue
        r0 = None
        for local in (False, True):
            r = call(m, v0 * s0, v1 * s1, Rt01, local)
            # direction errors of eps become position errors of eps range/angle. l1,linf,lindstrom: also across the angle with the xz, yz planes
            tol = 3e-14 * ref.mag(p) / th / th * 10
            e = ref.mag(r - p)
            if not e <= tol:
                raise Violation("triangulate_%s(local=%s) of exact rays: %s instead of %s: error %g, parallax %g. v0=%s v1=%s Rt01=%s" % (m, local, r, p, e, th, v0 * s0, v1 * s1, Rt01))
            note("exact err*th^2/range", e * th * th / ref.mag(p))
        if m != "lindstrom":
            r = getattr(mrcal, "triangulate_" + m)(v0 * s0, v1 * s1, Rt01=Rt01)
            if not ref.mag(r - p) <= tol:
                raise Violation("triangulate_%s(Rt01=) of exact rays: %s instead of %s" % (m, r, p))


def noisy(case):
    p, Rt01, v0, v1, th = rays(case)
    n = np.array(case["n"]) * th * case["frac"]
    v0 = unit(v0 + np.array((n[0], n[1], 0)))
    v1 = unit(v1 + np.array((n[2], n[3], 0)))
    return p, Rt01, v0, v1, th


def over_epipolar_planes(cost, n0):
    """min over the normals of planes that contain t, near n0 (a unit vector normal to t). cost(n)"""
    u, w = n0
    g = np.linspace(-np.pi / 2, np.pi / 2, 181)
    c = [cost(u * np.cos(a) + w * np.sin(a)) for a in g]
    k = int(np.argmin(c))
    r = minimize_scalar(lambda a: cost(u * np.cos(a) + w * np.sin(a)), bounds=(g[k] - .02, g[k] + .02), method="bounded", options=dict(xatol=1e-13))
    a = r.x
    # refine near the minimum: the interesting range is tiny
    return min(r.fun, c[k], cost(u * np.cos(a) + w * np.sin(a)))


@C.facet("criterion", scenes(noise=True), quick=900, thorough=40000)
def criterion(case):
    """Noisy rays: each method returns the optimum it documents"""
    p, Rt01, v0, v1, th = noisy(case)
    R, t = Rt01[:3], Rt01[3]
    s0, s1 = case["s"]
    label("frac<1e-3" if case["frac"] < 1e-3 else "frac<1e-2" if case["frac"] < 1e-2 else "frac>1e-2")
    # angle of v and t: the epipolar plane must be defined
    if min(ref.mag(np.cross(v0, unit(t))), ref.mag(np.cross(v1, unit(t)))) < max(.1 * th, 3 * th * case["frac"]):
        reject()
    n1 = np.cross(unit(t), v0)
    n2 = np.cross(unit(t), v1)
    nb = unit(unit(n1) + unit(n2))
    basis = (nb, np.cross(nb, unit(t)))
    tol = 1e-13 / th

    def ang(r):
        return angle(r, v0), angle(r - t, v1)
    # --- geometric: the midpoint of the shortest segment
    A = np.stack([v0, -v1], -1)
    k = np.linalg.lstsq(A, t, rcond=None)[0]
    if min(k) > 0:
        want = (v0 * k[0] + t + v1 * k[1]) / 2
        for loc in (0, 1):
            r = call("geometric", v0 * s0, v1 * s1, Rt01, loc)
            if not ref.mag(r - want) <= 1e-12 * ref.mag(want) / th**2:
                raise Violation("triangulate_geometric: %s. The midpoint of the shortest segment is %s" % (r, want))
    # --- L1, Linf: the smallest angular correction
    for m, agg in (("leecivera_l1", lambda a, b: a + b), ("leecivera_linf", max)):
        best = over_epipolar_planes(lambda n: agg(np.arcsin(min(1, abs(v0 @ n))), np.arcsin(min(1, abs(v1 @ n)))), basis)
        for loc in (0, 1):
            r = call(m, v0 * s0, v1 * s1, Rt01, loc)
            got = agg(*ang(r))
            if not got <= best * (1 + 1e-6) + 1e-9 * th + 1e-13 / th:
                raise Violation("triangulate_%s: angle errors %s: %g in total, but %g is possible. %s, parallax %g, true point %s" % (m, ang(r), got, best, r, th, p))
    # --- Lindstrom: image-plane errors in the local frames
    l0, l1 = v0 / v0[2], R.T @ v1
    l1 = l1 / l1[2]

    def lcost(n):
        nl0, nl1 = n, R.T @ n
        return (l0 @ nl0)**2 / (nl0[:2] @ nl0[:2]) + (l1 @ nl1)**2 / (nl1[:2] @ nl1[:2])
    best = over_epipolar_planes(lcost, basis)
    r = call("lindstrom", v0 * s0, v1 * s1, Rt01, True)
    q0 = r / r[2]
    q1 = R.T @ (r - t)
    q1 = q1 / q1[2]
    got = ((q0 - l0)**2).sum() + ((q1 - l1)**2).sum()
    note("lindstrom excess", (np.sqrt(got) - np.sqrt(best)) / (np.sqrt(best) + 1e-8 * th + 1e-13 / th))
    if not np.sqrt(got) <= np.sqrt(best) * (1 + .05 * case["frac"]**2 + 1e-5) + 1e-8 * th + 1e-13 / th:
        raise Violation("triangulate_lindstrom: reprojection error %g, but %g is possible. %s" % (np.sqrt(got), np.sqrt(best), r))
    # listing 3 (niter2) of Lindstrom's paper
    E = ref.skew(t) @ R
    S = E[:2, :2]
    n, nn = (E @ l1)[:2], (E.T @ l0)[:2]
    a, b, c = n @ S @ nn, (n @ n + nn @ nn) / 2, l0 @ E @ l1
    d = np.sqrt(b * b - a * c)
    l = c / (b + d)
    n, nn = n - S @ (l * nn), nn - S.T @ (l * n)
    l = l * 2 * d / (n @ n + nn @ nn)
    w0, w1 = l0 - np.append(l * n, 0), l1 - np.append(l * nn, 0)
    kk = np.linalg.lstsq(np.stack([w0, -R @ w1], -1), t, rcond=None)[0]
    if min(kk) > 1e-9:
        want = w0 * kk[0]
        # the two iterations leave a 4th-order error in the intersection
        gap = ref.mag(w0 * kk[0] - t - R @ w1 * kk[1])
        if not ref.mag(r - want) <= 1e-12 * ref.mag(want) / th**2 + 3 * gap / th:
            raise Violation("triangulate_lindstrom: %s. The paper's algorithm gives %s" % (r, want))
    # --- mid2, wmid2: the papers' closed forms
    z = ref.mag(np.cross(v0, v1))
    a0, a1 = ref.mag(np.cross(v1, t)) / z, ref.mag(np.cross(v0, t)) / z
    for m, want in (("leecivera_mid2", (a0 * v0 + t + a1 * v1) / 2),
                    ("leecivera_wmid2", (v0 + t / a1 + v1) / (1 / a0 + 1 / a1))):
        for loc in (0, 1):
            r = call(m, v0 * s0, v1 * s1, Rt01, loc)
            if not ref.mag(r - want) <= 1e-12 * ref.mag(want) / th**2:
                raise Violation("triangulate_%s: %s. The closed form is %s" % (m, r, want))


@C.facet("divergent", st.fixed_dictionaries(dict(s=scenes(noise=True), kind=st.sampled_from(["parallel", "divergent", "behind", "random"]), k=fl(.02, .5),
                                                 rnd=vec(6, -1, 1))), quick=2000, thorough=80000)
def divergent(case):
    """(0,0,0) exactly if the rays do not meet in front"""
    p, Rt01, v0, v1, th = noisy(case["s"])
    R, t = Rt01[:3], Rt01[3]
    kind = case["kind"]
    label(kind)
    if kind == "parallel":
        v1 = v0.copy()
    elif kind == "divergent":        # past parallel
        ax = np.cross(v1, v0)
        v1 = ref.rotate_r(unit(ax) * (th * (1 + case["k"])), v1)
    elif kind == "behind":           # the rays meet behind both
        p = -p
        t = -t
        Rt01 = np.concatenate([R, t[None]])
    else:
        a = np.array(case["rnd"])
        v0 = unit(a[:3] * (1, 1, 0) + (0, 0, 1.))
        v1 = unit(a[3:] * (1, 1, 0) + (0, 0, 1.))
    s0, s1 = case["s"]["s"]
    if min(ref.mag(np.cross(v0, t)), ref.mag(np.cross(v1, t))) < 1e-3 * ref.mag(t):
        reject()
    if (R.T @ v1)[2] < .1:
        reject()
    z = ref.mag(np.cross(v0, v1))
    if kind != "parallel" and z < 1e-3:
        reject()

    def rel(x):
        return abs(x) < 1e-6 * (1 + ref.mag(t)) / max(z, 1e-3)
    # the geometry of each method, spelled out
    exp = {}
    if kind == "parallel":
        exp = {m: False for m in M}
    else:
        def intersect(a, b):
            if ref.mag(np.cross(a, b)) < 1e-3 * ref.mag(a) * ref.mag(b):
                return None
            k = np.linalg.lstsq(np.stack([a, -b], -1), t, rcond=None)[0]
            return None if rel(k[0]) or rel(k[1]) else bool(min(k) > 0)
        exp["geometric"] = intersect(v0, v1)
        # L1: move the ray that is more along t
        c0, c1 = abs(v0 @ t), abs(v1 @ t)
        if abs(c0 - c1) < 1e-9 * ref.mag(t):
            exp["leecivera_l1"] = None
        elif c0 > c1:
            n = unit(np.cross(v1, t))
            exp["leecivera_l1"] = intersect(v0 - n * (v0 @ n), v1)
        else:
            n = unit(np.cross(v0, t))
            exp["leecivera_l1"] = intersect(v0, v1 - n * (v1 @ n))
        na, nb = np.cross(v0 + v1, t), np.cross(v0 - v1, t)
        if abs(ref.mag(na) - ref.mag(nb)) < 1e-9 * ref.mag(t):
            exp["leecivera_linf"] = None
        else:
            n = unit(na if ref.mag(na) > ref.mag(nb) else nb)
            exp["leecivera_linf"] = intersect(v0 - n * (v0 @ n), v1 - n * (v1 @ n))
        a0, a1 = ref.mag(np.cross(v1, t)) / z, ref.mag(np.cross(v0, t)) / z

        def gap(i, j):
            return ((a0 * v0 * i - t - a1 * v1 * j)**2).sum()
        g = gap(1, 1)
        o = min(gap(-1, 1), gap(1, -1), gap(-1, -1))
        exp["leecivera_mid2"] = None if abs(o - g) < 1e-9 * (a0 + a1)**2 else bool(o > g)
        exp["leecivera_wmid2"] = exp["leecivera_mid2"]
    for m in M:
        if m not in exp or exp[m] is None:
            continue
        for loc in (0, 1):
            r = call(m, v0 * s0, v1 * s1, Rt01, loc)
            zero = (r == 0).all()
            label("%s %s" % (m, "zero" if zero else "point"))
            # parallel rays after a rotation are parallel only to eps
            if exp[m] is False and not zero:
                if kind == "parallel" and not np.isfinite(r).all():
                    raise Violation("triangulate_%s of parallel rays is %s" % (m, r))
                if kind == "parallel" and (loc or s0 != s1) and ref.mag(r) > 1e6 * ref.mag(t):
                    continue
                raise Violation("triangulate_%s: the rays do not meet in front (%s), but the result is %s: v0=%s v1=%s t=%s" % (m, kind, r, v0, v1, t))
            if exp[m] is True and zero:
                raise Violation("triangulate_%s: the rays meet in front, but (0,0,0) is reported: v0=%s v1=%s t=%s" % (m, v0 * s0, v1 * s1, t))
            if exp[m] is True and not np.isfinite(r).all():
                raise Violation("triangulate_%s: %s" % (m, r))


@C.facet("gradients", st.fixed_dictionaries(dict(s=scenes(noise=True), m=st.sampled_from(M))), quick=800, thorough=40000)
def gradients(case):
    p, Rt01, v0, v1, th = noisy(case["s"])
    R, t = Rt01[:3], Rt01[3]
    m = case["m"]
    label(m)
    if min(ref.mag(np.cross(v0, unit(t))), ref.mag(np.cross(v1, unit(t)))) < .3 * th or th < 5e-3:
        reject()
    s0, s1 = case["s"]["s"]
    v0, v1 = v0 * s0, v1 * s1
    if m == "lindstrom":
        v1 = R.T @ v1
        args = [v0, v1, Rt01]

        def f(*a):
            return mrcal.triangulate_lindstrom(*a, v_are_local=True)
        out = mrcal.triangulate_lindstrom(*args, v_are_local=True, get_gradients=True)
    else:
        args = [v0, v1, t]
        f = getattr(mrcal, "triangulate_" + m)
        out = f(*args, get_gradients=True)
    val = f(*args)
    if not (out[0] == val).all():
        raise Violation("triangulate_%s: the value with gradients is %s, without it is %s" % (m, out[0], val))
    if (val == 0).all():
        for k in (1, 2, 3):
            if (out[k] != 0).any():
                raise Violation("triangulate_%s: divergent, with gradient %d of %s" % (m, k, out[k]))
        label("divergent")
        return
    for k, a in enumerate(args):
        h = 2e-3 * th * (s0 if k == 0 else s1 if k == 1 else ref.mag(t))
        if k == 2 and m == "lindstrom":
            h = np.full((4, 3), 2e-3 * th)
            h[3] *= ref.mag(t)

        def g(x):
            b = list(args)
            b[k] = x
            return f(*b)
        # a step may leave the converging domain
        D, err = ref.deriv(g, a, h)
        scale = np.abs(D).max()
        tol = 1e-6 * scale + 20 * err
        if not (np.abs(out[k + 1] - D) <= tol).all():
            # a kink (l1, linf)?
            D2, err2 = ref.deriv(g, a, np.asarray(h) / 30)
            if (np.abs(out[k + 1] - D2) <= 1e-6 * scale + 20 * err2).all():
                label("kink")
                continue
            raise Violation("triangulate_%s: gradient %d is\n%s\nnumerically\n%s\n+- %g. v0=%s v1=%s t=%s" % (m, k, out[k + 1], D2, err2.max(), v0, v1, t))
        note("gradient rel err", (np.abs(out[k + 1] - D) / scale).max())


# ---------------------------------------------------------------- triangulate() with models
LM = [("LENSMODEL_PINHOLE", []), ("LENSMODEL_OPENCV4", [-.05, .01, 1e-3, -1e-3]), ("LENSMODEL_STEREOGRAPHIC", []),
      ("LENSMODEL_CAHVOR", [.01, .02, .01, -.02, .003])]


@C.facet("models", st.fixed_dictionaries(dict(s=scenes(noise=True), lm=st.lists(st.integers(0, 3), min_size=2, max_size=2), rt=gens.rt_mild(1., 5.),
                                              m=st.sampled_from(M), N=st.integers(1, 3), bmodels=st.booleans(), sd=st.sampled_from([None, 0, .3, 2.]), corr=st.sampled_from([0, .4, 1.]),
                                              calib0=st.sampled_from([None, None, 0]), seed=gens.seeds)), quick=300, thorough=8000)
def models(case):
    p, Rt01, v0, v1, th = rays(case["s"])
    R, t = Rt01[:3], Rt01[3]
    g = gens.rng(case["seed"])
    m = case["m"]
    label(m)
    if min(ref.mag(np.cross(v0, unit(t))), ref.mag(np.cross(v1, unit(t)))) < .3 * th or th < 2e-2 or ref.mag(t) < 1e-3:
        reject()
    Rt0r = ref.Rt_from_rt(np.array(case["rt"]))
    Rt1r = ref.compose_Rt(ref.invert_Rt(Rt01), Rt0r)
    ms = []
    for k, Rt in zip(case["lm"], (Rt0r, Rt1r)):
        mm = mrcal.cameramodel(intrinsics=(LM[k][0], np.array([1200., 1150., 1000., 700.] + LM[k][1])), imagersize=(2000, 1400), Rt_cam_ref=Rt)
        ms.append(mm)
    N = case["N"]
    P = p + g.normal(size=(N, 3)) * ref.mag(p) * .05
    q = np.stack([ref.project(ms[0].intrinsics()[0], ms[0].intrinsics()[1], P),
                  ref.project(ms[1].intrinsics()[0], ms[1].intrinsics()[1], (P - t) @ R)], -2)
    q += g.normal(size=q.shape) * min(.5, 20 * th)
    if N == 1:
        q = q[0]
    meth = getattr(mrcal, "triangulate_" + m)
    sd = case["sd"]
    if m == "lindstrom" and sd:
        sd = None
    mods = np.array([ms] * N, dtype=object) if case["bmodels"] and N > 1 else ms

    def one(qq):
        v = [mrcal.unproject(np.array(qq[k]), *ms[k].intrinsics()) for k in (0, 1)]
        return meth(*v, Rt01=mrcal.compose_Rt(ms[0].Rt_cam_ref(), ms[1].Rt_ref_cam()), v_are_local=True)
    want = np.stack([one(x) for x in q.reshape(-1, 2, 2)]).reshape(q.shape[:-2] + (3,))
    kw = {}
    if case["calib0"] is not None:
        kw["q_calibration_stdev"] = 0
    out = mrcal.triangulate(q, mods, q_observation_stdev=sd, q_observation_stdev_correlation=case["corr"], method=meth, **kw)
    nout = 1 + ("q_calibration_stdev" in kw) + (sd is not None) + ("q_calibration_stdev" in kw and sd is not None)
    if nout > 1 and (not isinstance(out, tuple) or len(out) != nout):
        raise Violation("triangulate() returned %d values and not %d" % (len(out), nout))
    got = out[0] if nout > 1 else out
    if got.shape != want.shape or not np.allclose(got, want, rtol=1e-9, atol=1e-9 * ref.mag(p)):
        raise Violation("triangulate(%s): %s and not %s" % (m, got, want))
    if case["calib0"] is not None:
        V = out[1]
        if V.shape != q.shape[:-2] + (3,) + q.shape[:-2] + (3,) or (V != 0).any():
            raise Violation("triangulate(q_calibration_stdev=0): Var_p_calibration is %s" % V)
    if sd is None:
        return
    V = out[1 + (case["calib0"] is not None)]
    if V.shape != q.shape[:-2] + (3, 3):
        raise Violation("Var_p_observation has shape %s" % (V.shape,))
    if sd == 0:
        if (V != 0).any():
            raise Violation("Var_p_observation is not 0 with stdev=0")
        return
    cov = np.eye(4)
    cov[0, 2] = cov[2, 0] = cov[1, 3] = cov[3, 1] = case["corr"]**2
    cov = cov * sd * sd
    label("Var_p_observation")
    Vs = V.reshape(-1, 3, 3)
    for i, qq in enumerate(q.reshape(-1, 2, 2)):
        if (want.reshape(-1, 3)[i] == 0).all():
            continue
        K, err = ref.deriv(lambda x: one(x.reshape(2, 2)), qq.ravel(), .5 * th)
        W = K @ cov @ K.T
        e = np.abs(Vs[i] - W).max() / np.abs(W).max()
        er = err.max() / np.abs(K).max()
        if er > 1e-4:
            label("inaccurate derivative")
            continue
        if not e < 1e-4 + 10 * er:
            raise Violation("triangulate(%s): Var_p_observation is\n%s\nThe propagated covariance is\n%s" % (m, Vs[i], W))
    if case["calib0"] is not None:
        J = out[3].reshape(3 * N, 3 * N)
        w = np.zeros((3 * N, 3 * N))
        for i in range(N):
            w[3 * i:3 * i + 3, 3 * i:3 * i + 3] = Vs[i]
        if not np.allclose(J, w, rtol=1e-12, atol=0):
            raise Violation("Var_p_joint is not the sum of the two: %s vs %s" % (J, w))


if __name__ == "__main__":
    C.main()
