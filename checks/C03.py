#!/usr/bin/python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Violation, label, trivial, reject, note
pbt.build_and_import()
import ctypes
import numpy as np
from hypothesis import strategies as st
import mrcal
import ref, gens, capi
from gens import fl, vec
import C01, C02

C = pbt.Check("C03", "projection gradients are the derivatives",
              "Cases: a lens model with drawn intrinsics and 1-4 drawn points or pixels. Every gradient element is compared with "
              "6th-order central differences of the function itself. Non-trivial: at least one point is strictly inside the "
              "domain, and not at a place where the function is not differentiable.",
              assumptions=["numerical differences are accurate to the stated tolerance (1e-5 relative; 1e-3 next to a knot of a spline)"])


def domain(m, i, p):
    ok = C01.in_domain(m, i, p)
    # stay clear of the folds and the poles, where higher derivatives blow up
    r = ref.mag(p)
    if m in ("LENSMODEL_PINHOLE",) or m.startswith(("LENSMODEL_OPENCV",)):
        ok &= np.abs(p[:, 2]) > .3 * r
    if m.startswith("LENSMODEL_OPENCV"):
        k = np.zeros(12)
        k[:len(i) - 4] = i[4:]
        r2 = (p[:, :2]**2).sum(-1) / p[:, 2]**2
        ok &= np.abs(1 + k[5] * r2 + k[6] * r2**2 + k[7] * r2**3) > .3
    if m == "LENSMODEL_CAHVOR":
        a, b = i[4:6]
        o = np.array([np.sin(a) * np.cos(b), np.sin(b), np.cos(a) * np.cos(b)])
        ok &= (p @ o) > .3 * r
        qr = ref.project(m, i, p)
        ok &= (np.abs(qr - i[2:4]) < 8 * i[:2]).all(-1)
    if m.startswith("LENSMODEL_CAHVORE"):
        pd, th = ref.cahvore_distort(m, np.asarray(i[4:]), p)
        lin = ref.cahvore_linearity(m)
        ok &= (th > 1e-4) & (np.abs(th * lin) < np.pi / 2 * .9) & (pd[:, 2] > .15 * r)
    if m == "LENSMODEL_STEREOGRAPHIC":
        ok &= p[:, 2] > -.97 * r
    if m == "LENSMODEL_LONLAT":
        ok &= np.hypot(p[:, 0], p[:, 2]) > .05 * r
        ok &= ~((p[:, 2] < 0) & (np.abs(p[:, 0]) < .02 * r))
    if m == "LENSMODEL_LATLON":
        ok &= np.hypot(p[:, 1], p[:, 2]) > .05 * r
        ok &= ~((p[:, 2] < 0) & (np.abs(p[:, 1]) < .02 * r))
    return ok


def near_knot(m, p):
    if not m.startswith("LENSMODEL_SPLINED"):
        return np.zeros(len(p), bool)
    order = ref.parse_splined(m)[0]
    ix, iy = ref.spline_cell(m, ref.stereographic(p))
    s = ref.splined_segments_per_u(m)
    out = np.zeros(len(p), bool)
    for x in (ix, iy):
        y = x + (0 if order == 3 else .5)
        out |= np.abs(y - np.round(y)) < .02 * max(s, 1) + .01
    return out


def param_steps(m, i, p):
    """step sizes for the intrinsics"""
    n = len(i)
    h = np.full(n, 1e-3)
    h[:2] = np.abs(i[:2]) * 1e-3
    h[2:4] = 1.
    return h


def nd(f, x, h):
    """numerical derivative, and an estimate of its error"""
    a, b = ref.numdiff(f, x, h), ref.numdiff(f, x, h * .4)
    return b, np.abs(a - b)


def cmp(what, got, num, tol, scale=None, floor=0.):
    """relative to the biggest element of the gradient of that point"""
    num, err = num
    floor = floor + err
    if got.shape != num.shape:
        raise Violation("%s has shape %s, not %s" % (what, got.shape, num.shape))
    s = np.abs(num).max() if scale is None else scale
    e = np.abs(got - num)
    note(what.split("(")[0] + " err", (e / (s + 1e-300)).max())
    if not (e <= tol * s + floor).all():
        j = np.unravel_index(np.argmax(np.where(np.isfinite(e), e, np.inf)), e.shape)
        raise Violation("%s: element %s is %g, the numerical derivative is %g (scale %g)" % (what, tuple(int(x) for x in j), got[j], num[j], s))


def check(case):
    m, i, p = case["m"], np.array(case["i"]), np.array(case["p"])
    label(m.split("_")[1])
    p = p[domain(m, i, p)]
    if not len(p):
        trivial()
        return
    N = len(p)
    q0 = mrcal.project(p, m, i)
    q, dq_dp, dq_di = mrcal.project(p, m, i, get_gradients=True)
    if q.shape != (N, 2) or dq_dp.shape != (N, 2, 3) or dq_di.shape != (N, 2, len(i)):
        raise Violation("%s: shapes %s %s %s" % (m, q.shape, dq_dp.shape, dq_di.shape))
    if not (np.abs(q - q0) <= 1e-9 * (1 + np.abs(q0).max() + i[0])).all():
        raise Violation("%s: project(get_gradients) gives %s, without: %s" % (m, q, q0))
    nk = near_knot(m, p)
    if m.startswith("LENSMODEL_SPLINED"):
        s = ref.splined_segments_per_u(m)
    for k in range(N):
        r = ref.mag(p[k])
        hp = 2e-3 * r if not nk[k] else 1e-5 * r
        if m in ("LENSMODEL_LONLAT", "LENSMODEL_LATLON"):
            hp = 1e-3 * r
        if m.startswith("LENSMODEL_SPLINED"):
            hp = min(hp, 2e-3 * r / s)
        if m.startswith("LENSMODEL_CAHVORE"):
            pd, th = ref.cahvore_distort(m, i[4:], p[k:k + 1])
            hp = min(hp, th[0] * r * .03)
        if nk[k]:
            label("near a knot")
        num = nd(lambda x: mrcal.project(x, m, i), p[k], hp)
        tol = 1e-5 if not nk[k] else 2e-3
        if m.startswith("LENSMODEL_CAHVORE"):
            tol = 1e-4
        cmp("dq_dp(%s)" % m, dq_dp[k], num, tol)
        # intrinsics: all at once, broadcasting
        h = param_steps(m, i, p)
        if m.startswith("LENSMODEL_OPENCV"):
            r2 = (p[k, :2]**2).sum() / p[k, 2]**2
            h[4:] /= max(1., r2)**3
        n = len(i)
        ds = np.array((-3, -2, -1, 1, 2, 3.))
        w = np.array((-1, 9, -45, 45, -9, 1.)) / 60
        if m.startswith("LENSMODEL_CAHVORE"):
            # alpha,beta move the axis: near it the function is singular
            h = np.where(np.isin(np.arange(n), (4, 5)), np.minimum(h, th[0] * .03), h)
        num = []
        for hh in (h, h * .4):
            I = i + (ds[:, None, None] * (np.eye(n) * hh))
            qq = mrcal.project(p[k], m, I)
            num.append(((w[:, None, None] * qq).sum(0) / hh[:, None]).T)
        num, err = num[1], np.abs(num[0] - num[1])
        # each column has its own units
        for a, b in ((0, 2), (2, 4), (4, n)):
            if b > a:
                sc = max(np.abs(num[:, a:b]).max(), 1e-3 if a < 4 else 1e-6 * i[0])
                cmp("dq_di(%s,%d:%d)" % (m, a, b), dq_di[k][:, a:b], (num[:, a:b], err[:, a:b]), 1e-5 if not m.startswith("LENSMODEL_CAHVORE") else 1e-4, scale=sc)
    # the C function, any number of points, any selection of gradients
    if N > 1:
        label("C batch")
    for a, b in ((True, True), (True, False), (False, True)):
        ok, qc, A, B = capi.project(m, i, p, a, b)
        if not ok:
            raise Violation("%s: mrcal_project() failed" % m)
        if not (np.abs(qc - q) <= 1e-9 * (1 + np.abs(q).max() + i[0])).all():
            raise Violation("%s: C mrcal_project(%d,%d) of %d points gives %s, not %s" % (m, a, b, N, qc, q))
        if a and not (np.abs(A - dq_dp) <= 1e-9 * (1e-6 * i[0] + np.abs(dq_dp).max())).all():
            raise Violation("%s: C mrcal_project(dq_dp%s) of %d points: dq_dp is %s, not %s" % (m, ",dq_di" if b else "", N, A, dq_dp))
        if b and not (np.abs(B - dq_di) <= 1e-9 * (1e-6 * i[0] + np.abs(dq_di).max())).all():
            raise Violation("%s: C mrcal_project(dq_di%s) of %d points: wrong dq_di" % (m, ",dq_dp" if a else "", N))


for kind, n in (("simple", 500), ("opencv", 500), ("cahvor", 400), ("cahvore", 400), ("splined", 500)):
    C.facet("project-" + kind, (lambda kind=kind: C01.cases((kind,))), quick=n, thorough=50 * n, shards=2)(check)


@C.facet("unproject", lambda: C02.cases(("opencv", "cahvor", "cahvore", "splined"), .5), quick=400, thorough=20000, shards=3)
def unproject_check(case):
    m, i, p = case["m"], np.array(case["i"]), np.array(case["p"][:2])
    label(m.split("_")[1])
    p = p[C02.good(m, i, p)]
    if m.startswith("LENSMODEL_CAHVORE") and len(p):
        p = p[ref.cahvore_distort(m, i[4:], p)[1] > 1e-2]
    p = p[~near_knot(m, p)] if len(p) else p
    if m.startswith("LENSMODEL_SPLINED") and len(p):
        p = p[ref.spline_in_bounds(m, 1.03 * ref.stereographic(p))]
    if not len(p):
        trivial()
        return
    q = ref.project(m, i, p)
    n = len(i)
    for normalize in (False, True):
        v, dv_dq, dv_di = mrcal.unproject(q, m, i, get_gradients=True, normalize=normalize)
        N = len(q)
        if v.shape != (N, 3) or dv_dq.shape != (N, 3, 2) or dv_di.shape != (N, 3, n):
            raise Violation("%s: shapes %s %s %s" % (m, v.shape, dv_dq.shape, dv_di.shape))
        for k in range(N):
            if not C02.angle(v[k], p[k]) < 1e-4:
                label("another preimage")
                continue
            hq = min(.5, 1e-3 * i[0])
            if m.startswith("LENSMODEL_SPLINED"):
                hq = min(hq, 2e-3 * i[0] / ref.splined_segments_per_u(m))

            # The function whose derivative this is: the documented scale is that of get_gradients=True
            def f(q_, i_=i):
                return mrcal.unproject(q_, m, i_, get_gradients=True, normalize=normalize)[0]
            num = nd(f, q[k], hq)
            if not np.isfinite(num[0] + num[1]).all():
                label("numerical derivative not available")
                continue
            cmp("dv_dq(%s,normalize=%s)" % (m, normalize), dv_dq[k], num, 2e-4)
            h = param_steps(m, i, p) * .3
            h[2:4] = hq
            h[:2] = np.minimum(h[:2], 1e-4 * i[:2])
            if m.startswith("LENSMODEL_SPLINED"):
                h[4:] = 1e-3 / ref.splined_segments_per_u(m)
                # a sample of the many knots, and those that have an effect
                cols = np.unique(np.concatenate([np.arange(4), 4 + np.nonzero(np.abs(dv_di[k][:, 4:]).max(0))[0][:8], [n - 1, 4, n // 2]]))
            elif m.startswith("LENSMODEL_CAHVORE"):
                # E is held at 0 by the unprojection
                cols = np.arange(n - 3)
            else:
                cols = np.arange(n)
            def g(z):
                ii = i.copy()
                ii[cols] = z
                return f(q[k], ii)
            D, err = nd(g, i[cols], h[cols])
            if not np.isfinite(D + err).all():
                label("numerical derivative not available")
                continue
            for a, b in ((0, 2), (2, 4), (4, n)):
                sel = (cols >= a) & (cols < b)
                sc = max(np.abs(D[:, sel]).max(), 1e-3 / i[0] if a < 4 else 1e-3)
                cmp("dv_di(%s,%d:%d,normalize=%s)" % (m, a, b, normalize), dv_di[k][:, cols[sel]], (D[:, sel], err[:, sel]), 5e-4, scale=sc)
            if normalize:
                # documented: these are orthogonal to the vector
                if not np.abs(v[k] @ dv_dq[k]).max() < 1e-9 * (1e-3 + np.abs(dv_dq[k]).max()):
                    raise Violation("%s: normalized gradient is not orthogonal to v" % m)


@C.facet("cahvore-failure", lambda: C01.cases(("cahvore",)), quick=200, thorough=5000)
def _(case):
    """a CAHVORE projection that fails sets the result and the gradients to 0"""
    m, i, p = case["m"], np.array(case["i"]), np.array(case["p"])
    p = np.vstack((p, -p))
    q = mrcal.project(p, m, i)
    bad = (q == 0).all(-1) & ~C01.in_domain(m, i, p)
    if not bad.any():
        trivial()
        return
    label("failed projection")
    q, dq_dp, dq_di = mrcal.project(p, m, i, get_gradients=True, out=[np.full(s, np.nan) for s in ((len(p), 2), (len(p), 2, 3), (len(p), 2, len(i)))])
    for k in np.nonzero(bad)[0]:
        if (q[k] != 0).any():
            continue
        if not (dq_dp[k] == 0).all():
            raise Violation("%s: the projection of %s failed, but the gradient is %s" % (m, p[k], dq_dp[k]))


@st.composite
def axis_cases(draw):
    l = draw(gens.lens(kinds=("cahvore",), amp=.5))
    return dict(m=l["m"], i=l["i"], th=draw(st.sampled_from([0., 1e-9, 9e-9, 1.2e-8, 1e-7, 1e-6])) * draw(fl(.5, 1)), ph=draw(fl(-3, 3)), r=10**draw(fl(-1, 2)))


@C.facet("cahvore-axis", axis_cases(), quick=1500, thorough=30000)
def _(case):
    """At the optical axis the projection is pinhole(p + r0 (p - o (o.p))), up to terms in theta^3"""
    m, i = case["m"], np.array(case["i"])

    def axis(i):
        a, b = i[4:6]
        return np.array([np.sin(a) * np.cos(b), np.sin(b), np.cos(a) * np.cos(b)])

    def approx(p, i):
        o = axis(i)
        pd = p + i[6] * (p - o * (o @ p))
        return pd[:2] / pd[2] * i[:2] + i[2:4]
    o = axis(i)
    u = ref.R_from_r(np.array([-np.pi / 2, 0, 0])) @ o
    u = u - o * (u @ o)
    u /= ref.mag(u)
    w = np.cross(o, u)
    p = (o * np.cos(case["th"]) + np.sin(case["th"]) * (u * np.cos(case["ph"]) + w * np.sin(case["ph"]))) * case["r"]
    q, dq_dp, dq_di = mrcal.project(p, m, i, get_gradients=True)
    if not ref.mag(q - approx(p, i)) < 1e-9 * (1 + ref.mag(q)) + 1e-9 * i[0]:
        raise Violation("%s near the axis: %s instead of %s" % (m, q, approx(p, i)))
    label("theta < 1e-8" if case["th"] < 1e-8 else "theta > 1e-8")
    h = 1e-3 * case["r"]
    for k in range(3):
        e = np.eye(3)[k] * h
        d = (8 * (approx(p + e, i) - approx(p - e, i)) - (approx(p + 2 * e, i) - approx(p - 2 * e, i))) / (12 * h)
        if not np.abs(d - dq_dp[:, k]).max() < 1e-6 * max(i[:2]) / case["r"] + 1e-7 * case["th"]:
            raise Violation("%s: dq/dp[%d] near the optical axis (theta=%g) is %s instead of %s" % (m, k, case["th"], dq_dp[:, k], d))
    for k in range(len(i)):
        h = 1e-3 * (1. if k >= 4 else i[0])
        e = np.eye(len(i))[k] * h
        d = (8 * (approx(p, i + e) - approx(p, i - e)) - (approx(p, i + 2 * e) - approx(p, i - 2 * e))) / (12 * h)
        if not np.abs(d - dq_di[:, k]).max() < (1e-6 * (max(i[:2]) if k >= 4 else 1.)):
            raise Violation("%s: dq/dintrinsics[%d] near the optical axis (theta=%g) is %s instead of %s" % (m, k, case["th"], dq_di[:, k], d))


def simple_domain(w, p):
    m = "LENSMODEL_" + w.upper()
    return domain(m, np.array((1., 1., 0, 0)), p)


@C.facet("simple-functions", C02.simple_cases, quick=400, thorough=30000, shards=3)
def _(case):
    w, p = case["w"], np.array(case["p"])
    m = "LENSMODEL_" + w.upper()
    i = np.array(case["i"] if case["i"] is not None else (1., 1., 0., 0.))
    args = () if case["i"] is None else (i,)
    label(w)
    p = p[simple_domain(w, p)]
    if not len(p):
        trivial()
        return
    P, U = getattr(mrcal, "project_" + w), getattr(mrcal, "unproject_" + w)
    q0 = P(p, *args)
    q, dq = P(p, *args, get_gradients=True)
    if not (np.abs(q - q0) <= 1e-12 * (1 + np.abs(q0).max())).all():
        raise Violation("project_%s(get_gradients) gives a different value" % w)
    v0 = U(q0, *args)
    v, dv = U(q0, *args, get_gradients=True)
    # "The magnitude may change" is documented for the generic unproject() only
    if not (np.abs(v - v0) <= 1e-12 * (1 + np.abs(v0).max())).all():
        raise Violation("unproject_%s(get_gradients) gives a different value" % w)
    if dq.shape != (len(p), 2, 3) or dv.shape != (len(p), 3, 2):
        raise Violation("%s: shapes %s %s" % (w, dq.shape, dv.shape))
    for k in range(len(p)):
        r = ref.mag(p[k])
        cmp("project_%s()" % w, dq[k], nd(lambda x: P(x, *args), p[k], 1e-3 * r), 1e-5)
        for a in (0, 1):      # per axis: f may differ
            n = nd(lambda x: U(x, *args), q0[k], i[:2] * 1e-3)
            cmp("unproject_%s()" % w, dv[k][:, a], (n[0][:, a], n[1][:, a]), 1e-6)
    # C, batched
    for name, x, ny, g in (("project", p, 2, dq), ("unproject", q0, 3, dv)):
        f = getattr(capi.lib(), "mrcal_%s_%s" % (name, w))
        f.restype = None
        y = np.full((len(p), ny), np.nan)
        G = np.full(g.shape, np.nan)
        xx = np.ascontiguousarray(x)
        f(capi.dp(y), capi.dp(G), capi.dp(xx), ctypes.c_int(len(p)), capi.dp(i))
        if not (np.abs(G - g) <= 1e-9 * (np.abs(g).max() + 1e-12)).all():
            raise Violation("C mrcal_%s_%s() of %d points: gradient %s, not %s" % (name, w, len(p), G, g))
    # the generic interface, with gradients of the intrinsics
    for normalize in (False, True):
        v, dv_dq, dv_di = mrcal.unproject(q0, m, i, get_gradients=True, normalize=normalize)
        for k in range(len(p)):
            f = lambda q_, i_: mrcal.unproject(q_, m, i_, get_gradients=True, normalize=normalize)[0]
            D = nd(lambda x: f(x, i), q0[k], i[:2] * 1e-3)
            for a in (0, 1):
                cmp("unproject-dv_dq(%s)" % m, dv_dq[k][:, a], (D[0][:, a], D[1][:, a]), 1e-5)
            D = nd(lambda x: f(q0[k], x), i, np.array((i[0], i[1], i[0], i[1])) * 1e-3)
            for a in range(4):
                cmp("unproject-dv_di(%s)" % m, dv_di[k][:, a], (D[0][:, a], D[1][:, a]), 1e-5, scale=np.abs(D[0][:, a]).max() + 1e-6 / i[a % 2])


if __name__ == "__main__":
    C.main()
