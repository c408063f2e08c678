#!/usr/bin/python3
import os, sys, io, contextlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Violation, label, trivial, reject, note
pbt.build_and_import()
import numpy as np
from hypothesis import strategies as st
import mrcal
import ref, gens
from gens import fl, vec

C = pbt.Check("C26", "valid regions and polygons",
              "Cases: random simple polygons (star-shaped, rectilinear staircases, combs, spirals of any scale, orientation, closed or not), pairs of them at every relative position "
              "(disjoint, overlapping, nested with tiny holes, sharing vertices or edges); query points everywhere and near the edges. Oracle: crossing numbers, away from the edges; "
              "areas by the shoelace formula. Non-trivial: points inside and outside were both judged",
              assumptions=["the polygons are simple", "edges don't almost coincide, within 1e-7 of the size: the GEOS library then reports arbitrary differences", "points within 1e-9 of the size of the polygon from an edge aren't judged"])


@st.composite
def polygon(draw, integer=None):
    kind = draw(st.sampled_from(["star", "star", "star", "rect", "stairs", "comb", "spiral", "tri"]))
    if kind in ("star", "tri"):
        k = 3 if kind == "tri" else draw(st.integers(3, 12))
        s = draw(gens.seeds)
        g = np.random.default_rng(s)
        a = np.sort(g.uniform(0, 2 * np.pi, k))
        if np.max(np.diff(np.r_[a, a[0] + 2 * np.pi])) > 3.1 or np.min(np.diff(np.r_[a, a[0] + 2 * np.pi])) < 1e-2:
            a = np.arange(k) * 2 * np.pi / k
        p = g.uniform(.2, 1, k)[:, None] * np.stack((np.cos(a), np.sin(a)), -1)
    elif kind == "rect":
        p = np.array(((-1, -1), (1, -1), (1, 1), (-1, 1.))) * (1, draw(st.sampled_from([1, .5, .01])))
    elif kind == "stairs":
        n = draw(st.integers(2, 6))
        p = [(-1., -1.), (1., -1.)]
        for i in range(n):
            p += [(1 - 2 * i / n, -1 + 2 * (i + 1) / n), (1 - 2 * (i + 1) / n, -1 + 2 * (i + 1) / n)]
        p = np.array(p)
    elif kind == "comb":
        n = draw(st.integers(2, 5))
        p = [(-1., -1.), (1., -1.)]
        for i in range(n):
            p += [(1 - 2 * i / n, 1.), (1 - 2 * (i + .4) / n, 1.), (1 - 2 * (i + .4) / n, -.5), (1 - 2 * (i + 1) / n, -.5)]
        p = np.array(p)
    else:
        n = draw(st.integers(8, 24))
        t = np.linspace(0, draw(fl(2, n / 3)), n)
        r = .15 + .08 * t
        a = np.stack((r * np.cos(t), r * np.sin(t)), -1)
        p = np.concatenate((a, (a * (1 + .02 / r)[:, None])[::-1]))
        if not simple(p, 0):
            p = np.array(((-1, -1), (1, -1), (1, 1.)))
    if draw(st.booleans()):
        p = p[::-1]
    p = np.roll(p, draw(st.integers(0, len(p) - 1)), axis=0)
    th = draw(st.sampled_from([0., 0., .3, np.pi / 2, 2.]))
    return dict(kind=kind, p=[[float(x) for x in q] for q in p @ np.array(((np.cos(th), np.sin(th)), (-np.sin(th), np.cos(th))))])


def inside(P, q):
    r = np.zeros(q.shape[:-1], bool)
    for a, b in zip(P, np.roll(P, -1, axis=0)):
        c = (a[1] > q[..., 1]) != (b[1] > q[..., 1])
        with np.errstate(all="ignore"):
            r ^= c & (q[..., 0] < (b[0] - a[0]) * (q[..., 1] - a[1]) / (b[1] - a[1]) + a[0])
    return r


def distance(P, q):
    d = np.full(q.shape[:-1], np.inf)
    for a, b in zip(P, np.roll(P, -1, axis=0)):
        l = (b - a) @ (b - a)
        t = np.clip((q - a) @ (b - a) / l, 0, 1) if l > 0 else np.zeros(q.shape[:-1])
        d = np.minimum(d, ref.mag(q - a - t[..., None] * (b - a)))
    return d


def area(P):
    P = P - P[0]
    x, y = P[:, 0], P[:, 1]
    return .5 * np.sum(x * np.roll(y, -1) - y * np.roll(x, -1))


def simple(P, eps):
    """no two nonadjacent edges cross"""
    n = len(P)
    A, B = P, np.roll(P, -1, axis=0)
    for i in range(n):
        for j in range(i + 1, n):
            if j == i + 1 or (i == 0 and j == n - 1):
                continue
            a, b, c, d = A[i], B[i], A[j], B[j]
            cr = lambda o, p, q: ((p[0] - o[0]) * (q[1] - o[1]) - (p[1] - o[1]) * (q[0] - o[0])) / max(ref.mag(p - o), 1e-300)
            across = lambda x, y: x * y < 0 and min(abs(x), abs(y)) > eps
            if across(cr(a, b, c), cr(a, b, d)) and across(cr(c, d, a), cr(c, d, b)):
                return False
    return True


def queries(r, polys, n):
    """points everywhere, and near edges and vertices"""
    V = np.concatenate(polys)
    lo, hi = V.min(0), V.max(0)
    s = (hi - lo).max()
    q = [r.uniform(lo - .1 * s, hi + .1 * s, (n, 2))]
    for P in polys:
        sp = np.ptp(P, axis=0).max()
        q.append(r.uniform(P.min(0) - .1 * sp, P.max(0) + .1 * sp, (n, 2)))
        t = r.uniform(0, 1, (n // 2, 1))
        i = r.integers(len(P), size=n // 2)
        e = P[i] * t + np.roll(P, -1, axis=0)[i] * (1 - t)
        q.append(e + r.normal(size=e.shape) * sp * 10**r.uniform(-6, -1, (n // 2, 1)))
    return np.concatenate(q)


@C.facet("region", st.fixed_dictionaries(dict(p=polygon(), s=fl(-2, 4), c=vec(2, -1, 1), close=st.booleans(), seed=gens.seeds, how=st.sampled_from(["arg", "set", "file"]), empty=st.sampled_from([0] * 12 + [1, 2]),
                                              shape=st.sampled_from(["N", "1", "AB", "T", "int", "0"]))), quick=1500, thorough=40000)
def region(c):
    r = np.random.default_rng(c["seed"])
    P = (np.array(c["p"]["p"]) + c["c"]) * 10**c["s"]
    if c["close"]:
        P = np.concatenate((P, P[:1]))
    size = np.ptp(P, axis=0).max()
    Q = None if c["empty"] == 1 else np.zeros((0, 2)) if c["empty"] == 2 else P
    kw = dict(intrinsics=("LENSMODEL_PINHOLE", np.array((1000., 1000, 500, 500))), imagersize=(1000, 1000))
    if c["how"] == "arg":
        m = mrcal.cameramodel(valid_intrinsics_region=Q, **kw)
    else:
        m = mrcal.cameramodel(**kw)
        m.valid_intrinsics_region(Q)
    margin = 1e-9
    if c["how"] == "file":
        f = io.StringIO()
        m.write(f)
        m = mrcal.cameramodel(io.StringIO(f.getvalue()))
        margin = 1e-7
    q = queries(r, [P], 30)
    if c["shape"] == "int":
        q = np.round(q).astype(int)
    q = {"N": q, "1": q[0], "AB": q[:60].reshape(6, 10, 2), "T": np.ascontiguousarray(q.T).T, "int": q, "0": q[:0]}[c["shape"]]
    got = mrcal.is_within_valid_intrinsics_region(q, m)
    if c["empty"] == 1:
        label("no region")
        if got is not None:
            raise Violation("there's no region, so the result must be None; have %s" % got)
        return
    if not isinstance(got, np.ndarray) or got.shape != q.shape[:-1] or got.dtype != bool:
        raise Violation("the mask must be boolean, with shape %s: have %s" % (q.shape[:-1], got))
    if c["empty"] == 2:
        label("empty region")
        if np.any(got):
            raise Violation("the region is empty, but points are reported to be inside")
        return
    label("%s %s" % (c["p"]["kind"], c["how"]))
    ok = distance(P, q) > margin * (size + np.abs(P).max())
    want = inside(P, q.astype(float))
    if not (np.any(want & ok) and np.any(~want & ok)):
        trivial()
    bad = ok & (got != want)
    if np.any(bad):
        i = tuple(np.argwhere(bad)[0])
        raise Violation("%s is %s the region %s, but the opposite is reported" % (q[i], "in" if want[i] else "outside of", P))


@C.facet("close", st.fixed_dictionaries(dict(p=polygon(), close=st.sampled_from([0, 1, 2]), s=fl(-1, 4), kind=st.sampled_from(["float"] * 6 + ["int", "None", "empty", "empty1", "one"]))), quick=300, thorough=5000)
def close(c):
    if c["kind"] == "None":
        if mrcal.close_contour(None) is not None:
            raise Violation("None must remain None")
        return
    if c["kind"].startswith("empty"):
        r = mrcal.close_contour(np.zeros((0, 2) if c["kind"] == "empty" else (0,)))
        if r.shape != (0, 2):
            raise Violation("an empty contour must have shape (0,2)")
        return
    P = np.array(c["p"]["p"]) * 10**c["s"]
    if c["kind"] == "int":
        P = np.round(P * 1000).astype(int)
    if c["kind"] == "one":
        P = P[:1]
    if c["close"]:
        P = np.concatenate((P, P[:1]))
        if c["close"] == 2 and c["kind"] != "int":
            P[-1] += 1e-8
    P0 = P.copy()
    r = mrcal.close_contour(P)
    if not np.array_equal(P, P0):
        raise Violation("the input was modified")
    closed = c["close"] or len(P) == 1 or ref.mag((P[0] - P[-1]).astype(float)) < 1e-6
    label("closed" if closed else "open")
    want = P if closed else np.concatenate((P, P[:1]))
    if r.shape != want.shape or not np.array_equal(r, want):
        raise Violation("%s closes to %s; should be %s" % (P, r, want))


@st.composite
def pairs(draw):
    A, B = draw(polygon()), draw(polygon())
    rel = draw(st.sampled_from(["any", "any", "inside", "inside", "tiny", "same", "disjoint", "covers", "shared", "vertex"]))
    return dict(A=A, B=B, rel=rel, c=draw(vec(2, -1, 1)), k=10**draw(fl(-.5, .3)), tiny=10**draw(fl(-4, -1)), s=draw(fl(-2, 4)), off=draw(vec(2, -1, 1)), closed=draw(st.tuples(st.booleans(), st.booleans())), seed=draw(gens.seeds))


@C.facet("difference", pairs(), quick=2500, thorough=60000, shards=2)
def difference(c):
    r = np.random.default_rng(c["seed"])
    A, B = np.array(c["A"]["p"]), np.array(c["B"]["p"])
    rel = c["rel"]
    if rel == "any":
        B = B * c["k"] + c["c"]
    elif rel in ("inside", "tiny"):
        # strictly inside: around an interior point, at a fraction of its distance to the boundary
        q = r.uniform(A.min(0), A.max(0), (200, 2))
        q = q[inside(A, q)]
        if not len(q):
            reject()
        d = distance(A, q)
        i = np.argmax(d) if rel == "inside" else r.integers(len(q))
        B = q[i] + B / ref.mag(B).max() * d[i] * (.9 if rel == "inside" else .9 * c["tiny"])
    elif rel == "same":
        B = A.copy()[::-1]
    elif rel == "disjoint":
        B = B + (5, 3)
    elif rel == "covers":
        B = np.array(((-3, -3), (3, -3), (3, 3), (-3, 3.)))
    elif rel == "shared":      # shares an edge of A
        e = A[1] - A[0]
        nrm = np.array((-e[1], e[0]))
        B = np.array((A[0], A[1], A[1] + nrm * c["c"][0], A[0] + nrm * c["c"][0]))
        if abs(c["c"][0]) < .01:
            reject()
    elif rel == "vertex":
        B = B - B[0] + A[0]
    A, B = [(P + c["off"]) * 10**c["s"] for P in (A, B)]
    size = np.ptp(A, axis=0).max()
    if abs(area(A)) < 1e-4 * size**2 and rel != "any":
        reject()
    # edges that almost coincide: nothing is guaranteed by the underlying library
    for P, Q in ((A, B), (B, A)):
        d = distance(P, Q)
        exact = np.any(np.all(Q[:, None] == P[None], -1), -1)
        if rel != "shared" and np.any(~exact & (d < 1e-7 * size)):
            reject()
    Ac, Bc = [np.concatenate((P, P[:1])) if k else P.copy() for P, k in zip((A, B), c["closed"])]
    A0, B0 = Ac.copy(), Bc.copy()
    err = io.StringIO()
    with contextlib.redirect_stderr(err):
        D = mrcal.polygon_difference(Ac, Bc)
    if not np.array_equal(Ac, A0) or not np.array_equal(Bc, B0):
        raise Violation("the inputs were modified")
    label("%s: %s" % (rel, "empty" if not D else "1 piece" if len(D) == 1 else "pieces"))
    if not isinstance(D, list):
        raise Violation("must be a list")
    eps = 1e-9 * (size + np.abs(A).max())
    for P in D:
        if P.ndim != 2 or P.shape[1] != 2 or len(P) < 4 or not np.array_equal(P[0], P[-1]):
            raise Violation("each piece must be a closed polygon of shape (N,2): %s" % P)
        if not simple(P[:-1], eps):
            raise Violation("a piece crosses itself: %s" % P)
    q = queries(r, [A, B] + [P[:-1] for P in D], 40)
    ok = (distance(A, q) > 10 * eps) & (distance(B, q) > 10 * eps)
    for P in D:
        ok &= distance(P[:-1], q) > 10 * eps
    want = inside(A, q) & ~inside(B, q)
    n = sum(inside(P[:-1], q).astype(int) for P in D) if D else np.zeros(len(q), int)
    if not (np.any(want & ok) and np.any(~want & ok)):
        trivial()
    bad = ok & (n != want)
    if np.any(bad):
        i = np.argwhere(bad)[0][0]
        raise Violation("%s: the point %s is in %d pieces of the difference; should be %d" % (rel, q[i], n[i], want[i]))
    if rel in ("inside", "tiny"):
        a, w = sum(abs(area(P[:-1])) for P in D), abs(area(A)) - abs(area(B))
        if not abs(a - w) < 1e-9 * size * (size + np.abs(A).max()):
            raise Violation("the area of the difference is %s; should be %s" % (a, w))


if __name__ == "__main__":
    C.main()
