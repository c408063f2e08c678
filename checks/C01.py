#!/usr/bin/python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Violation, label, trivial, reject, note
pbt.build_and_import()
import numpy as np
from hypothesis import strategies as st
import mrcal
import ref, gens, capi
from gens import fl, vec

C = pbt.Check("C01", "projection == documented equations",
              "Cases: a lens model with drawn intrinsics and 1-6 drawn points (near-axis, axis-plane, edge, behind, per-cell for "
              "splines). Non-trivial: at least one point is in the domain where the documentation defines the projection, and it "
              "is compared with an independent numpy implementation.",
              assumptions=["the numpy reference in lib/ref.py is written from doc/lensmodels.org and the Gennery papers",
                           "CAHVORE points whose projection the library declares out of bounds are not compared"])


def tolerance(m, q, i):
    """numerical tolerance per point"""
    t = 1e-9 * (1 + np.abs(q - i[2:4]).max(-1) * 10 + np.abs(i[2:4]).max())
    if m in ("LENSMODEL_LONLAT", "LENSMODEL_LATLON"):
        # asin() next to the pole
        k = 1 if m == "LENSMODEL_LONLAT" else 0
        lat = (q[..., k] - i[2 + k]) / i[k]
        t = t + i[k] * np.minimum(6e-8, 1e-15 / np.maximum(np.abs(np.cos(lat)), 1e-30))
    return t


@st.composite
def points(draw, m, n=(1, 6)):
    out = []
    for _ in range(draw(st.integers(*n))):
        d = draw(gens.direction(gens.maxdeg(m)))
        s = 10. ** draw(fl(-3, 4))
        if draw(st.integers(0, 9)) == 0:
            s = 1.
        if (m.startswith("LENSMODEL_OPENCV") or m in ("LENSMODEL_PINHOLE",)) and draw(st.integers(0, 7)) == 0:
            s = -s        # "Pinhole-like projections will work normally if projecting a point behind the camera"
        if m.startswith("LENSMODEL_CAHVORE"):
            s = 10. ** draw(fl(-.5, 3))
        out.append([x * s for x in d])
    return out


@st.composite
def spline_points(draw, m):
    """points aimed at drawn knot cells, edges included"""
    order, Nx, Ny, fov = ref.parse_splined(m)
    lo = 1 if order == 3 else .5
    out = []
    s = ref.splined_segments_per_u(m)
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.sampled_from(["gen", "gen", "gen", "knot", "edge"]))
        i = []
        for N in (Nx, Ny):
            if k == "gen":
                x = draw(fl(lo, N - 1 - lo))
            elif k == "knot":
                x = lo + draw(st.integers(0, int(N - 1 - 2 * lo))) + draw(st.sampled_from([0, 1e-9, .5, .5 - 1e-9]))
            else:
                x = draw(st.sampled_from([lo + 1e-6, N - 1 - lo - 1e-6]))
            i.append(min(max(x, lo), N - 1 - lo))
        u = (np.array(i) - (np.array([Nx, Ny]) - 1) / 2.) / s
        # closed-form inverse stereographic
        h = (u * u).sum() / 4.
        v = np.array([u[0], u[1], 1 - h]) / (1 + h)
        out.append([float(x) for x in v * 10. ** draw(fl(-2, 3))])
    return out


@st.composite
def cases(draw, kinds):
    l = draw(gens.lens(kinds))
    if l["m"].startswith("LENSMODEL_SPLINED"):
        p = draw(spline_points(l["m"]))
    else:
        p = draw(points(l["m"]))
    return dict(l, p=p)


def in_domain(m, i, p):
    ok = np.ones(len(p), bool)
    if m.startswith("LENSMODEL_SPLINED"):
        u = ref.stereographic(p)
        ok &= ref.spline_in_bounds(m, u)
    if m == "LENSMODEL_CAHVOR":
        a, b = i[4:6]
        o = np.array([np.sin(a) * np.cos(b), np.sin(b), np.cos(a) * np.cos(b)])
        ok &= (p @ o) > 1e-2 * ref.mag(p)
        k = np.asarray(i[4:])
        lam = p - (p @ o)[:, None] * o
        tau = (lam * lam).sum(-1) / (p @ o)**2
        mu = k[2] + k[3] * tau + k[4] * tau * tau
        ok &= (p + mu[:, None] * lam)[:, 2] > 1e-2 * ref.mag(p)
    if m.startswith("LENSMODEL_CAHVORE"):
        pd, th = ref.cahvore_distort(m, np.asarray(i[4:]), p)
        lin = ref.cahvore_linearity(m)
        ok &= np.isfinite(pd).all(-1) & (np.abs(th * lin) < np.pi / 2 * .97) & (th >= 0)
        ok &= pd[:, 2] > 1e-2 * ref.mag(p)
    if m.startswith("LENSMODEL_OPENCV"):
        k = np.zeros(12)
        k[:len(i) - 4] = i[4:]
        r2 = (p[:, :2]**2).sum(-1) / p[:, 2]**2
        ok &= np.abs(1 + k[5] * r2 + k[6] * r2**2 + k[7] * r2**3) > 1e-2
    return ok


def check(case):
    m, i, p = case["m"], np.array(case["i"]), np.array(case["p"])
    fam = m.split("_")[1]
    n = ref.num_params(m)
    if mrcal.lensmodel_num_params(m) != n:
        raise Violation("%s has %d params" % (m, mrcal.lensmodel_num_params(m)))
    ok = in_domain(m, i, p)
    label(fam)
    if not ok.any():
        trivial()
        return
    p = p[ok]
    q = mrcal.project(p, m, i)
    qr = ref.project(m, i, p)
    tol = tolerance(m, qr, i)
    if m.startswith("LENSMODEL_CAHVORE"):
        # within 1e-8 rad of the optical axis the library skips the distortion, as the JPL implementation does
        tol = tol * 10 + 3e-8 * max(abs(i[0]), abs(i[1])) * np.abs(i[4:]).max()
    bad = np.abs(q - qr).max(-1) > tol
    note("err/tol", (np.abs(q - qr).max(-1) / tol).max())
    if bad.any() or not np.isfinite(q).all():
        j = int(np.argmax(bad))
        raise Violation("%s: project(%s) = %s; the documented equations give %s" % (m, p[j], q[j], qr[j]))
    # batch of one == batch of many; grad path gives the same; the C API gives the same
    if len(p) > 1:
        label("batch")
    q1 = np.array([mrcal.project(x, m, i) for x in p])
    if np.abs(q1 - q).max() > tol.max():
        raise Violation("%s: one-at-a-time projection differs from the batch" % m)
    for a, b in ((False, False), (True, True), (True, False), (False, True)):
        okc, qc, _, _ = capi.project(m, i, p, a, b)
        if not okc or not (np.abs(qc - qr).max(-1) <= tol).all():
            raise Violation("%s: C mrcal_project(dq_dp=%d,dq_di=%d) of %d points gave %s, should be %s" % (m, a, b, len(p), qc, qr))
    # scale invariance
    if not m.startswith("LENSMODEL_CAHVORE") or not i[-3:].any():
        for s in (1e-3, 7.3, 1e3):
            if m.startswith("LENSMODEL_CAHVORE") and s < 1:
                continue
            q2 = mrcal.project(p * s, m, i)
            if not (np.abs(q2 - qr).max(-1) <= tol * 10).all():
                raise Violation("%s: projection changes when the points are scaled by %s" % (m, s))
    # broadcasting over the intrinsics
    i2 = np.stack([i, i])
    i2[1, 2:4] += 5.
    q3 = mrcal.project(p, m, i2[:, None, :])
    if q3.shape != (2, len(p), 2) or not (np.abs(q3[0] - qr).max(-1) <= tol).all() or not (np.abs(q3[1] - 5 - qr).max(-1) <= 2 * tol).all():
        raise Violation("%s: broadcasting over intrinsics gives a wrong projection" % m)


for kind, n in (("simple", 1000), ("opencv", 1500), ("cahvor", 1000), ("cahvore", 800), ("splined", 1500)):
    C.facet("project-" + kind, (lambda kind=kind: cases((kind,))), quick=n, thorough=60 * n)(check)


@st.composite
def simple_cases(draw):
    w = draw(st.sampled_from(["pinhole", "stereographic", "lonlat", "latlon"]))
    m = "LENSMODEL_" + w.upper()
    i = draw(st.one_of(st.none(), gens.core()))
    return dict(w=w, i=i, p=draw(points(m)))


@C.facet("simple-functions", simple_cases, quick=1000, thorough=40000)
def _(case):
    w, i, p = case["w"], case["i"], np.array(case["p"])
    m = "LENSMODEL_" + w.upper()
    label(w)
    ii = np.array(i if i is not None else (1., 1., 0., 0.))
    f = getattr(mrcal, "project_" + w)
    q = f(p) if i is None else f(p, ii)
    qr = ref.project(m, ii, p)
    tol = tolerance(m, qr, ii)
    if i is None:
        label("default intrinsics")
    if not (np.abs(q - qr).max(-1) <= tol).all():
        raise Violation("project_%s(%s) = %s; the documented equations give %s" % (w, p, q, qr))
    # the C functions, batched, with and without gradients
    import ctypes
    g = getattr(capi.lib(), "mrcal_project_" + w)
    g.restype = None
    for grad in (False, True):
        qc = np.full((len(p), 2), np.nan)
        d = np.zeros((len(p), 2, 3)) if grad else None
        pc = np.ascontiguousarray(p)
        g(capi.dp(qc), capi.dp(d), capi.dp(pc), ctypes.c_int(len(p)), capi.dp(ii))
        if not (np.abs(qc - qr).max(-1) <= tol).all():
            raise Violation("C mrcal_project_%s() of %d points gave %s, should be %s" % (w, len(p), qc, qr))


if __name__ == "__main__":
    C.main()
