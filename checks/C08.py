#!/usr/bin/python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Violation, label, trivial, reject, note
pbt.build_and_import()
import numpy as np
from hypothesis import strategies as st
import mrcal
import ref, gens
from gens import fl

C = pbt.Check("C08", "Procrustes alignment is optimal",
              "Cases: broadcasted batches of point/vector sets (1-60 points; generic, planar, mirrored, noisy, collinear, coincident; scales 1e-6..1e5; "
              "far from the origin), weights (none, random over decades, some 0), memory layouts. Oracle: Horn's quaternion eigenvalue method in "
              "longdouble-free numpy, written for the documented cost, plus the generating transform for exact data. Non-trivial: noisy, weighted or degenerate data.",
              assumptions=["sets within 1e-9 (relative singular value) of the documented singular condition are not classified"])

KINDS = ("generic", "planar", "mirrored", "few", "tiny-noise")


def rot(g):
    q = g.normal(size=4)
    q /= ref.mag(q)
    return quat(q)


def quat(q):
    w, x, y, z = q
    return np.array(((1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)),
                     (2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)),
                     (2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y))))


def horn(M):
    """max over proper rotations of trace(R^T M), M = sum a b^T"""
    S = M.T       # Horn: S = sum b a^T (a = R b)
    (Sxx, Sxy, Sxz), (Syx, Syy, Syz), (Szx, Szy, Szz) = S
    N = np.array(((Sxx + Syy + Szz, Syz - Szy, Szx - Sxz, Sxy - Syx),
                  (Syz - Szy, Sxx - Syy - Szz, Sxy + Syx, Szx + Sxz),
                  (Szx - Sxz, Sxy + Syx, -Sxx + Syy - Szz, Syz + Szy),
                  (Sxy - Syx, Szx + Sxz, Syz + Szy, -Sxx - Syy + Szz)))
    lam, v = np.linalg.eigh(N)
    return lam[-1], quat(v[:, -1]), (lam[-1] - lam[-2]) / max(abs(lam[-1]), abs(lam[0]), 1e-300)


SET = st.fixed_dictionaries(dict(
    kind=st.sampled_from(KINDS), N=st.integers(3, 60), seed=st.integers(0, 2**32 - 1),
    noise=st.sampled_from((0., 0., 1e-9, 1e-4, .03, .3, 3.)), far=st.sampled_from((0., 1., 30.)),
    angle=st.sampled_from(("any", "small", "pi", "identity"))))


def points(s, N, scale):
    """-> a, b, R, t; a = R b + t + noise"""
    g = np.random.default_rng(s["seed"])
    b = g.normal(size=(N, 3)) * 10.**g.uniform(-.7, 0, 3)
    if s["kind"] == "planar":
        b[:, 2] = 0
    b = b @ rot(g).T + s["far"] * g.normal(size=3)
    R = rot(g)
    if s["angle"] == "identity":
        R = np.eye(3)
    elif s["angle"] == "small":
        R = ref.R_from_r(g.normal(size=3) * 1e-6)
    elif s["angle"] == "pi":
        u = g.normal(size=3)
        R = ref.R_from_r(u / ref.mag(u) * np.pi)
    t = g.normal(size=3) * g.choice((0, 1, 20))
    a = b @ R.T + t
    if s["kind"] == "mirrored":
        u = g.normal(size=3)
        u /= ref.mag(u)
        a = a - 2 * np.outer(a @ u, u)
    a = a + s["noise"] * g.normal(size=a.shape)
    return a * scale, b * scale, R, t * scale


def weights(kind, N, seed):
    g = np.random.default_rng(seed)
    if kind == "none":
        return None
    if kind == "one":
        return np.ones(N)
    if kind == "mild":
        return g.uniform(.3, 2, N)
    if kind == "decades":
        return 10.**g.uniform(-2, 1, N)
    w = g.uniform(.3, 2, N)
    w[g.permutation(N)[:max(N - 4, 0)]] = 0
    return w


def layout(x, how):
    if how == "C":
        return np.ascontiguousarray(x)
    if how == "F":
        return np.asfortranarray(x)
    y = np.zeros(x.shape[:-1] + (5,))
    y[..., 1:4] = x
    return y[..., 1:4]


BATCH = st.fixed_dictionaries(dict(
    sets=st.lists(SET, min_size=1, max_size=3), N=st.integers(3, 60), scale=st.sampled_from((1e-6, 1e-3, 1., 1., 50., 1e5)),
    w=st.sampled_from(("none", "one", "mild", "decades", "zeros")), wseed=st.integers(0, 2**32 - 1),
    layout=st.sampled_from(("C", "C", "F", "pad"))))


def proper(R, what):
    e = np.abs(R @ R.T - np.eye(3)).max()
    if not (e < 1e-10 and np.linalg.det(R) > 0):
        raise Violation("%s: not a proper rotation: R Rt - I: %g, det %g\n%s" % (what, e, np.linalg.det(R), R))


def spectrum(M):
    s = np.linalg.svd(M, compute_uv=False)
    return s[1] / s[0] if s[0] > 0 else 0.


@C.facet("points", BATCH, quick=1500, thorough=60000)
def _(c):
    N = c["N"]
    S = [points(s, N, c["scale"]) for s in c["sets"]]
    w = weights(c["w"], N, c["wseed"])
    a, b = np.array([s[0] for s in S]), np.array([s[1] for s in S])
    kw = {} if w is None else dict(weights=w)
    got = mrcal.align_procrustes_points_Rt01(layout(a, c["layout"]), layout(b, c["layout"]), **kw)
    if got.shape != (len(S), 4, 3):
        raise Violation("shape %s for %d sets" % (got.shape, len(S)))
    ww = np.ones(N) if w is None else w * w
    nontrivial = False
    for s, ai, bi, Rt, (_, _, R0, t0) in zip(c["sets"], a, b, got, S):
        ma, mb = ww @ ai / ww.sum(), ww @ bi / ww.sum()
        A, B = ai - ma, bi - mb
        M = (A * ww[:, None]).T @ B
        sep = spectrum(M)
        if sep < 1e-7:
            continue
        nontrivial |= s["noise"] > 0 or c["w"] not in ("none", "one")
        what = "%s set, N=%d, scale %g, weights %s, layout %s" % (s["kind"], N, c["scale"], c["w"], c["layout"])
        if not Rt.any():
            raise Violation("%s: reported as degenerate; relative singular value %g" % (what, sep))
        R, t = Rt[:3], Rt[3]
        proper(R, what)
        mag = max(np.abs(ai).max(), np.abs(bi).max())
        # optimal t for this R
        terr = np.abs(t - (ma - R @ mb)).max()
        # optimal R. trace is quadratic around the maximum
        best, Rh, gap = horn(M)
        tr = (R * M).sum()
        size = np.sqrt((ww * (A**2).sum(-1)).sum() * (ww * (B**2).sum(-1)).sum())
        note("translation error", terr / mag)
        note("suboptimality", (best - tr) / size)
        if terr > 1e-11 * mag:
            raise Violation("%s: translation is not optimal for the rotation: off by %g; data magnitude %g" % (what, terr, mag))
        if best - tr > 1e-11 * size + 1e-13 * mag * mag * ww.sum():
            raise Violation("%s: a better rotation exists: sum w^2 a^T R b = %.15g but %.15g is possible; relative %g\nreturned\n%s\nbetter\n%s"
                            % (what, tr, best, (best - tr) / size, R, Rh))
        # the cost itself, as documented
        cost = (ww * ((ai - bi @ R.T - t)**2).sum(-1)).sum()
        cost0 = (ww * ((ai - bi @ Rh.T - (ma - Rh @ mb))**2).sum(-1)).sum()
        if cost > cost0 * (1 + 1e-9) + 1e-20 * mag * mag * ww.sum():
            raise Violation("%s: cost %.15g; possible: %.15g" % (what, cost, cost0))
        if gap > 1e-3:
            if np.abs(R - Rh).max() > 1e-9 / gap + 1e-13 * mag * mag * ww.sum() / size / gap:
                raise Violation("%s: rotation differs from the unique optimum by %g (gap %g)" % (what, np.abs(R - Rh).max(), gap))
        if s["noise"] == 0 and s["kind"] != "mirrored":
            # limited by how well-conditioned the rotation is, and by the rounding of the input
            e = np.abs(R - R0).max()
            lim = 1e-14 * (mag / max(np.abs(A).max(), 1e-300))**1 * 100 / sep
            if e > lim + 1e-12:
                raise Violation("%s: exact data: rotation error %g, limit %g" % (what, e, lim))
            label("exact")
        label(s["kind"])
    label("weights " + c["w"])
    label("layout " + c["layout"])
    if not nontrivial:
        trivial()


@C.facet("vectors", BATCH, quick=1200, thorough=50000)
def _(c):
    N = c["N"] if c["N"] > 4 else c["N"] - 1
    S = [points({**s, "far": s["far"] / 10}, N, 1.) for s in c["sets"]]
    w = weights(c["w"], N, c["wseed"])

    def vecs(i):
        g = np.random.default_rng(c["wseed"] + i)
        s = c["sets"][i]
        b = S[i][1] + g.normal(size=3) * s["far"] / 3
        b = b / ref.mag(b)[:, None]
        a = b @ S[i][2].T
        if s["kind"] == "mirrored":
            a = a * (1, 1, -1)
        a = a + s["noise"] * g.normal(size=a.shape)
        return a / ref.mag(a)[:, None], b
    V = [vecs(i) for i in range(len(S))]
    a, b = np.array([v[0] for v in V]), np.array([v[1] for v in V])
    kw = {} if w is None else dict(weights=w)
    got = mrcal.align_procrustes_vectors_R01(layout(a, c["layout"]), layout(b, c["layout"]), **kw)
    if got.shape != (len(S), 3, 3):
        raise Violation("shape %s for %d sets" % (got.shape, len(S)))
    w1 = np.ones(N) if w is None else w
    nontrivial = False
    for s, ai, bi, R, (_, _, R0, _) in zip(c["sets"], a, b, got, S):
        M = (ai * w1[:, None]).T @ bi
        sep = spectrum(M)
        if sep < 1e-7:
            continue
        nontrivial |= s["noise"] > 0 or c["w"] not in ("none", "one")
        what = "%s vectors, N=%d, weights %s, layout %s" % (s["kind"], N, c["w"], c["layout"])
        if not R.any():
            raise Violation("%s: reported as degenerate; relative singular value %g" % (what, sep))
        proper(R, what)
        best, Rh, gap = horn(M)
        tr = (R * M).sum()
        note("suboptimality (vectors)", (best - tr) / w1.sum())
        if best - tr > 1e-12 * w1.sum():
            raise Violation("%s: a better rotation exists: sum w cos = %.15g but %.15g is possible\nreturned\n%s\nbetter\n%s" % (what, tr, best, R, Rh))
        if s["noise"] == 0 and s["kind"] != "mirrored" and np.abs(R - R0).max() > 1e-12 / sep:
            raise Violation("%s: exact data: rotation error %g" % (what, np.abs(R - R0).max()))
        label(s["kind"])
    label("weights " + c["w"])
    if not nontrivial:
        trivial()


DEG = st.fixed_dictionaries(dict(
    kind=st.sampled_from(("one", "two", "collinear", "collinear-both", "coincident", "zero weights", "one weight", "two weights")),
    N=st.integers(3, 60), seed=st.integers(0, 2**32 - 1), scale=st.sampled_from((1e-6, 1e-2, 1., 30., 1e4)), far=st.sampled_from((0., 1., 30.)),
    extra=st.integers(0, 2), pos=st.integers(0, 2), weighted=st.booleans(), layout=st.sampled_from(("C", "F")),
    vectors=st.booleans(), noise=st.sampled_from((0., .1))))


@C.facet("degenerate", DEG, quick=1500, thorough=50000)
def _(c):
    g = np.random.default_rng(c["seed"])
    N, k = c["N"], c["kind"]
    if k == "one":
        N = 1
    if k == "two" and not c["vectors"]:
        N = 2
    sc = c["scale"]
    w = g.uniform(.3, 2, N) if c["weighted"] else None
    if c["vectors"]:
        # only the rank matters: all the vectors of one set are the same
        sc = 1.
        if k == "zero weights":
            w = np.zeros(N)
        unit = lambda x: x / ref.mag(x)[:, None]
        good = lambda n: unit(g.normal(size=(n, 3)))
        b = np.repeat(good(1), N, axis=0)
        if k == "zero weights":
            b = good(N)
        if k in ("one weight", "two weights"):
            b = good(N)
            w = np.zeros(N)
            w[g.integers(N)] = 1.7
        a = b @ rot(g).T
        if k == "collinear" and N > 1:
            a = good(N)
    else:
        line = lambda n: g.normal(size=(n, 1)) * g.normal(size=3)
        cen = c["far"] * g.normal(size=3)
        good = lambda n: g.normal(size=(n, 3)) * sc
        b = g.normal(size=(N, 3)) + cen
        if k.startswith("collinear"):
            b = line(N) + cen
        if k == "coincident":
            b = np.repeat(b[:1], N, axis=0)
        R = rot(g)
        a = b @ R.T + g.normal(size=3)
        if k == "collinear" or k == "coincident":
            a = a + c["noise"] * g.normal(size=a.shape)
        if k == "zero weights":
            w = np.zeros(N)
        elif k == "one weight" or k == "two weights":
            w = np.zeros(N)
            w[g.permutation(N)[:1 if k == "one weight" else 2]] = g.uniform(.3, 2)
        a, b = a * sc, b * sc
    # other, well-posed, slices around this one
    n = 1 + c["extra"]
    pos = c["pos"] % n
    A, B, RR = [], [], []
    for i in range(n):
        if i == pos:
            A.append(a), B.append(b), RR.append(None)
            continue
        R = rot(g)
        B.append(good(N))
        A.append(B[-1] @ R.T)
        RR.append(R)
    A, B = np.array(A), np.array(B)
    kw = {} if w is None else dict(weights=w)
    f = mrcal.align_procrustes_vectors_R01 if c["vectors"] else mrcal.align_procrustes_points_Rt01
    got = f(layout(A, c["layout"]), layout(B, c["layout"]), **kw)
    what = "%s, %s, N=%d scale %g far %g layout %s, slice %d/%d" % ("vectors" if c["vectors"] else "points", k, N, sc, c["far"], c["layout"], pos, n)
    if got[pos].any():
        raise Violation("%s: singular input is not reported: got\n%s" % (what, got[pos]))
    alone = f(layout(A[pos], c["layout"]), layout(B[pos], c["layout"]), **kw)
    if alone.any():
        raise Violation("%s: singular input is not reported on its own: got\n%s" % (what, alone))
    active = N if w is None else (w > 0).sum()
    for i in range(n):
        if i == pos or active < (2 if c["vectors"] else 3):
            continue
        ww = np.ones(N) if w is None else w
        if not c["vectors"]:
            ww = ww**2
        m = lambda x: x - (0 if c["vectors"] else ww @ x / ww.sum())
        sep = spectrum((m(A[i]) * ww[:, None]).T @ m(B[i]))
        if sep < 1e-7:
            continue
        if np.abs(got[i][:3] - RR[i]).max() > 1e-11 / sep:
            raise Violation("%s: well-posed slice %d is wrong: expected\n%s\ngot\n%s" % (what, i, RR[i], got[i]))
        label("mixed with well-posed slices")
    label(k)
    label("vectors" if c["vectors"] else "points")


VEC = st.fixed_dictionaries(dict(
    base=st.sampled_from(("any", "x", "-x", "y", "z", "-z", ".9", "-.9")), eps=st.sampled_from((0., 1e-17, 1e-9, 1e-3, .1)),
    mag=st.sampled_from((1., 1., 1e-100, 1e-8, 3., 1e9, 1e100)), seed=st.integers(0, 2**32 - 1), lead=st.sampled_from(((), (1,), (2, 3))),
    out=st.booleans()))


@C.facet("aligned-to-vector", VEC, quick=1500, thorough=40000)
def _(c):
    g = np.random.default_rng(c["seed"])
    d = g.normal(size=tuple(c["lead"]) + (3,))
    d /= ref.mag(d)[..., None]
    base = {"any": d, "x": (1, 0, 0), "-x": (-1, 0, 0), "y": (0, 1, 0), "z": (0, 0, 1), "-z": (0, 0, -1)}.get(c["base"])
    if base is None:
        th = g.uniform(0, 2 * np.pi)
        base = np.array((.9, np.sqrt(.19) * np.cos(th), np.sqrt(.19) * np.sin(th))) * (1 if c["base"] == ".9" else -1)
    v = np.array(base) + c["eps"] * d
    v = np.ascontiguousarray(v / ref.mag(v)[..., None] * c["mag"])
    if c["out"]:
        R = np.full(tuple(c["lead"]) + (3, 3), np.nan)
        mrcal.R_aligned_to_vector(v, out=R)
    else:
        R = mrcal.R_aligned_to_vector(v)
    if R.shape != tuple(c["lead"]) + (3, 3):
        raise Violation("shape %s" % (R.shape,))
    for vi, Ri in zip(v.reshape(-1, 3), R.reshape(-1, 3, 3)):
        e = np.abs(Ri @ Ri.T - np.eye(3)).max()
        if not (e < 1e-13 and np.linalg.det(Ri) > 0):
            raise Violation("R_aligned_to_vector(%s) is not a proper rotation: %g, det %g" % (vi, e, np.linalg.det(Ri)))
        u = Ri @ (vi / c["mag"])
        if not np.abs(u / ref.mag(u) - (0, 0, 1)).max() < 1e-13:
            raise Violation("R_aligned_to_vector(%s) maps it to %s" % (vi, u))
    label(c["base"])


if __name__ == "__main__":
    C.main()
