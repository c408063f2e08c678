#!/usr/bin/python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Violation, label, trivial, reject, note
pbt.build_and_import()
import ctypes
import numpy as np
from hypothesis import strategies as st
import mrcal
import ref, gens, capi
from gens import fl, vec

C = pbt.Check("C02", "unproject inverts project",
              "Cases: a lens model with drawn intrinsics, and 1-5 drawn directions or pixels. A case is non-trivial if at least one "
              "of them is where the reference projection is locally one-to-one along the whole path from the optical axis, so "
              "that the inverse is unique; wild cases (any pixel, any intrinsics) are non-trivial if the result is finite; "
              "cases just past the reach of the lens always are.",
              assumptions=["unproject() solves to within sqrt(2e-4) pixels or reports nan, as its source states"])

SIMPLE = {"LENSMODEL_" + w.upper(): w for w in ("pinhole", "stereographic", "lonlat", "latlon")}


def u_to_v(u):
    h = (u * u).sum(-1)[..., None] / 4.
    return np.concatenate([u, 1 - h], -1) / (1 + h)


def jac_dets(m, i, v):
    """det(dq/du)/(fx fy) at several points between the optical axis and v; u is the stereographic coordinate"""
    u = ref.stereographic(v)
    s = np.linspace(0.02, 1.05, 12)[:, None, None] * u          # (12,N,2)
    h = 1e-5

    def f(u):
        return (ref.project(m, i, u_to_v(u)) - i[2:4]) / i[:2]
    with np.errstate(all="ignore"):
        dx = (f(s + [h, 0]) - f(s - [h, 0])) / (2 * h)
        dy = (f(s + [0, h]) - f(s - [0, h])) / (2 * h)
        det = dx[..., 0] * dy[..., 1] - dx[..., 1] * dy[..., 0]
        # also each direction must be well conditioned
        fro = (dx**2).sum(-1) + (dy**2).sum(-1)
    return det, fro


def good(m, i, v):
    det, fro = jac_dets(m, i, v)
    with np.errstate(all="ignore"):
        g = np.isfinite(det).all(0) & (det > .4).all(0) & (det < 8).all(0) & ((fro / det) < 5).all(0)
    if m.startswith("LENSMODEL_SPLINED"):
        g &= ref.spline_in_bounds(m, 1.03 * ref.stereographic(v))
    return g


def angle(a, b):
    a = a / ref.mag(a)[..., None]
    b = b / ref.mag(b)[..., None]
    return 2 * np.arcsin(np.minimum(1, ref.mag(a - b) / 2))


def check_all(m, i, q, vtrue, what, tol_v, tol_q):
    """q: (N,2), vtrue: (N,3) the true directions"""
    N = len(q)

    def cmp(v, w):
        if v.shape[-1:] != (3,):
            raise Violation("%s: %s has shape %s" % (m, w, v.shape))
        with np.errstate(all="ignore"):
            a = angle(v.reshape(-1, 3), vtrue)
            bad = ~(a <= tol_v)
            if bad.any() and m.startswith(("LENSMODEL_OPENCV", "LENSMODEL_CAHVOR")):
                # These models fold over at large angles, so another vector in front of the camera may project here
                vv = v.reshape(-1, 3)
                other = bad & (vv[:, 2] > 0) & (np.abs(ref.project(m, i, vv) - q).max(-1) < tol_q)
                if other.any():
                    label("another preimage")
                bad &= ~other
            if bad.any():
                raise Violation("%s: %s of q=%s gives the direction %s; %s projects there (angle error %s)" % (m, w, q, v, vtrue, a))
            qq = mrcal.project(v.reshape(-1, 3), m, i)
            e = np.abs(qq - q).max(-1)
            note("q err", np.nanmax(e))
            if not (e <= tol_q).all():
                raise Violation("%s: project(%s()) is off by %s pixels" % (m, w, e))
    q0 = q.copy()
    i0 = i.copy()
    v = mrcal.unproject(q, m, i)
    cmp(v, "unproject")
    vn = mrcal.unproject(q, m, i, normalize=True)
    cmp(vn, "unproject(normalize)")
    if not (np.abs(ref.mag(vn) - 1) < 1e-9).all():
        raise Violation("%s: unproject(normalize=True) has length %s" % (m, ref.mag(vn)))
    vg = mrcal.unproject(q, m, i, get_gradients=True)[0]
    cmp(vg, "unproject(get_gradients)")
    vg = mrcal.unproject(q, m, i, get_gradients=True, normalize=True)[0]
    cmp(vg, "unproject(get_gradients,normalize)")
    if not (np.abs(ref.mag(vg) - 1) < 1e-9).all():
        raise Violation("%s: unproject(normalize=True,get_gradients=True) has length %s" % (m, ref.mag(vg)))
    # broadcasting shapes
    vb = mrcal.unproject(q.reshape(N, 1, 2), m, i.reshape(1, 1, -1))
    if vb.shape != (N, 1, 3):
        raise Violation("%s: unproject() shape %s from (%d,1,2)" % (m, vb.shape, N))
    cmp(vb, "unproject(shape N,1)")
    v1 = mrcal.unproject(q[0], m, i)
    if v1.shape != (3,):
        raise Violation("%s: unproject() of one pixel has shape %s" % (m, v1.shape))
    ok, vc = capi.unproject(m, i, q)
    if not ok:
        raise Violation("%s: mrcal_unproject() failed" % m)
    cmp(vc, "C mrcal_unproject")
    out = np.full((N, 3), 7.)
    r = mrcal.unproject(q, m, i, out=out)
    cmp(out, "unproject(out)")
    if not (np.array_equal(q, q0) and np.array_equal(i, i0)):
        raise Violation("%s: unproject() changed its input" % m)


@st.composite
def cases(draw, kinds, amp):
    l = draw(gens.lens(kinds, amp=amp, central=True))
    md = gens.maxdeg(l["m"])
    if l["m"].startswith("LENSMODEL_SPLINED") or l["m"] in SIMPLE:
        md = md * .95
    else:
        md = min(md, 45)
    p = [[x * draw(fl(.5, 30)) for x in draw(gens.direction(md))] for _ in range(draw(st.integers(1, 5)))]
    return dict(l, p=p)


def run(case, from_p=True):
    m, i, p = case["m"], np.array(case["i"]), np.array(case["p"])
    label(m.split("_")[1])
    p = p[good(m, i, p)]
    if not len(p):
        trivial()
        label("none in the invertible domain")
        return
    q = mrcal.project(p, m, i)
    f = i[:2].max()
    check_all(m, i, q, p, "", 1e-7, 1e-5)


for kind, n, amp in (("opencv", 500, 1), ("cahvor", 400, 1), ("cahvore", 400, 1), ("splined", 700, 1)):
    C.facet("inverse-" + kind, (lambda kind=kind, amp=amp: cases((kind,), amp)), quick=n, thorough=60 * n)(run)


@st.composite
def simple_cases(draw):
    w = draw(st.sampled_from(sorted(SIMPLE.values())))
    m = "LENSMODEL_" + w.upper()
    i = draw(st.one_of(st.none(), gens.core()))
    md = gens.maxdeg(m)
    p = []
    for _ in range(draw(st.integers(1, 5))):
        d = draw(gens.direction(md * (.999 if md > 170 else 1)))
        s = draw(fl(.01, 100))
        p.append([x * s for x in d])
    return dict(w=w, i=i, p=p)


@C.facet("simple-functions", simple_cases, quick=1000, thorough=40000)
def _(case):
    w, p = case["w"], np.array(case["p"])
    m = "LENSMODEL_" + w.upper()
    i = np.array(case["i"] if case["i"] is not None else (1., 1., 0., 0.))
    args = () if case["i"] is None else (i,)
    label(w)
    # stay away from the poles of lonlat/latlon, where the longitude is not defined
    if w in ("lonlat", "latlon"):
        ax = 1 if w == "lonlat" else 0
        pole = np.abs(p[:, ax]) / ref.mag(p) > 1 - 1e-12
        p = p[~pole]
        if not len(p):
            trivial()
            return
    q = getattr(mrcal, "project_" + w)(p, *args)
    fun = getattr(mrcal, "unproject_" + w)

    def cmp(v, what):
        a = angle(v, p)
        note("angle err", a.max())
        tol = 1e-6 if w in ("lonlat", "latlon") else 1e-9
        if not (a <= tol).all():
            raise Violation("%s(project_%s(%s)) = %s: off by %s rad" % (what, w, p, v, a))
        d = getattr(mrcal, "project_" + w)(v, *args) - q
        if w in ("lonlat", "latlon"):     # at longitude +-pi
            k = 0 if w == "lonlat" else 1
            d[:, k] -= np.round(d[:, k] / (2 * np.pi * i[k])) * 2 * np.pi * i[k]
        tolq = 1e-9 * (np.abs(i[:2]).max() * (1 + np.abs((q - i[2:]) / i[:2]).max()**2) + np.abs(i).max() + 1) * (1e3 if w in ("lonlat", "latlon") else 1)
        if not (np.abs(d) <= tolq).all():
            raise Violation("project_%s(%s(q)) - q = %s (q=%s)" % (w, what, d, q))
    v = fun(q, *args)
    cmp(v, "unproject_" + w)
    vg, dv = fun(q, *args, get_gradients=True)
    cmp(vg, "unproject_%s(get_gradients)" % w)
    g = getattr(capi.lib(), "mrcal_unproject_" + w)
    g.restype = None
    for grad in (0, 1):
        vc = np.full((len(q), 3), np.nan)
        d = np.zeros((len(q), 3, 2)) if grad else None
        qc = np.ascontiguousarray(q)
        g(capi.dp(vc), capi.dp(d), capi.dp(qc), ctypes.c_int(len(q)), capi.dp(i))
        cmp(vc, "C mrcal_unproject_" + w)
    if w in ("lonlat", "latlon"):
        if not (np.abs(ref.mag(v) - 1) < 1e-12).all():
            raise Violation("unproject_%s() is documented to give unit vectors" % w)
    # through the generic interface
    vn = mrcal.unproject(q, m, i, normalize=True)
    cmp(vn, "unproject(normalize)")
    if not (np.abs(ref.mag(vn) - 1) < 1e-9).all():
        raise Violation("unproject(%s,normalize=True) has length %s" % (m, ref.mag(vn)))
    vn = mrcal.unproject(q, m, i, get_gradients=True, normalize=True)[0]
    cmp(vn, "unproject(normalize,get_gradients)")
    if not (np.abs(ref.mag(vn) - 1) < 1e-9).all():
        raise Violation("unproject(%s,normalize=True,get_gradients=True) has length %s" % (m, ref.mag(vn)))
    cmp(mrcal.unproject(q, m, i), "unproject")


@st.composite
def wild_cases(draw):
    l = draw(gens.lens(("opencv", "cahvor", "cahvore", "splined"), amp=draw(st.sampled_from([1., 3.])), central=draw(st.integers(0, 5)) != 0))
    f, c = l["i"][:2], l["i"][2:4]
    q = [[c[0] + f[0] * draw(fl(-6, 6)), c[1] + f[1] * draw(fl(-6, 6))] for _ in range(draw(st.integers(1, 5)))]
    return dict(l, q=q)


@C.facet("never-wrong", wild_cases, quick=700, thorough=40000)
def _(case):
    never_wrong(case["m"], np.array(case["i"]), np.array(case["q"]))


def never_wrong(m, i, q, edge=False):
    label(m.split("_")[1])
    if m.startswith("LENSMODEL_CAHVORE") and i[-3:].any():
        # documented: cannot unproject a noncentral projection
        label("noncentral")
        try:
            v = mrcal.unproject(q, m, i)
        except Exception:
            return
        raise Violation("%s with E!=0: unproject() returned %s instead of failing" % (m, v))
    v = mrcal.unproject(q, m, i)
    fin = np.isfinite(v).all(-1)
    if not np.isnan(v[~fin]).all():
        raise Violation("%s: a pixel that cannot be unprojected is reported as %s" % (m, v[~fin]))
    vn = mrcal.unproject(q, m, i, normalize=True)
    if not fin.any() and not edge:
        trivial()
    label("finite" if fin.all() else "nan")
    qq = mrcal.project(v[fin], m, i) if fin.any() else q[:0]
    e = np.abs(qq - q[fin])
    if e.size:
        note("q err", e.max())
    if not (e < 1.5e-2).all():
        raise Violation("%s: unproject(%s) = %s, but that projects to %s" % (m, q[fin], v[fin], qq))
    if not mrcal.lensmodel_metadata_and_config(m)["can_project_behind_camera"] and (v[fin, 2] < 0).any():
        raise Violation("%s: unproject() reports z<0" % m)
    # the normalized result is parallel, or 0 where the other is nan
    for a, b, f in zip(v, vn, fin):
        if f and not angle(a, b) < 1e-9:
            raise Violation("%s: normalize=True gives %s, False gives %s" % (m, b, a))
        if not f and np.isfinite(b).all() and b.any():
            raise Violation("%s: a pixel that cannot be unprojected gives %s with normalize=True" % (m, b))


@st.composite
def edge_cases(draw):
    m = draw(st.sampled_from(["LENSMODEL_OPENCV4", "LENSMODEL_OPENCV5", "LENSMODEL_OPENCV8", "LENSMODEL_CAHVOR"]))
    f = 10 ** draw(fl(2, 3.7))
    i = [f, f * draw(fl(.9, 1.1)), draw(fl(300, 900)), draw(fl(200, 700))]
    k = -draw(fl(.1, .6))
    small = vec(4, -.003, .003)
    t = list(draw(small))
    if m == "LENSMODEL_CAHVOR":
        i += [t[0], t[1], t[2], k, 0.]
    else:
        i += [k, 0.] + t[:2] + ([t[2]] if m[-1] in "58" else []) + ([0., 0., 0.] if m[-1] == "8" else [])
    return dict(m=m, i=i, at=draw(st.lists(st.tuples(fl(-3.1, 3.1), fl(-2.5, .5)), min_size=2, max_size=8)))


@C.facet("edge-of-reach", edge_cases, quick=250, thorough=20000)
def _(case):
    """pixels just past the farthest one that this lens can reach: a strong barrel distortion folds over"""
    m, i = case["m"], np.array(case["i"])
    r = np.linspace(0, 4, 4001)[:, None]
    q = []
    for th, d in case["at"]:
        v = np.concatenate((r * np.cos(th), r * np.sin(th), r * 0 + 1), -1)
        dq = ref.project(m, i, v) - i[2:4]
        rad = ref.mag(dq)
        k = int(np.argmax(np.diff(rad) < 0))
        if k < 10:
            continue
        q.append(i[2:4] + dq[k] * (1 + 10 ** d / rad[k]))
    if not q:
        reject()
    never_wrong(m, i, np.array(q), True)


if __name__ == "__main__":
    C.main()
