#!/usr/bin/python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Violation, label, trivial, reject, note
pbt.build_and_import()
import numpy as np
from hypothesis import strategies as st
import mrcal
import ref, gens, problem
from gens import fl

C = pbt.Check("C11", "optimizer Jacobian",
              "Cases: problems of every kind (see C09) at states away from the optimum. Oracle: numerical differentiation of x with respect to every state variable "
              "(or to up to 25 of them, and random combinations of all), with an error estimate from two orders; outlier rows; the same outputs with every "
              "combination of no_jacobian/no_factorization. Non-trivial: J has entries.",
              assumptions=["rows whose numerical derivative doesn't converge (a spline knot, a divergent triangulation) aren't judged; at most a small part may be such"])


def quiet_stderr():
    os.dup2(os.open("/dev/null", os.O_WRONLY), 2)


def setup(c):
    s, seed, scale = c
    quiet_stderr()
    oi = problem.make(s)
    if not problem.layout(oi):
        reject()
    r = np.random.default_rng(seed)
    problem.perturb(oi, r, scale)
    return s, oi, r


def getx(oi):
    return mrcal.optimizer_callback(no_factorization=True, no_jacobian=True, **oi)[1]


def check_sparse(J):
    p, i, v = J.indptr, J.indices, J.data
    if p[0] != 0 or p[-1] != len(v) or len(i) != len(v) or np.any(np.diff(p) < 0) or (len(i) and (i.min() < 0 or i.max() >= J.shape[1])):
        raise Violation("J is not a valid sparse matrix")
    for k in range(J.shape[0]):
        a = i[p[k]:p[k + 1]]
        if len(np.unique(a)) != len(a):
            raise Violation("row %d of J has repeated columns: %r" % (k, a))
    if not np.all(np.isfinite(v)):
        raise Violation("J has non-finite entries")


@C.facet("derivative", st.tuples(problem.problem_spec(), gens.seeds, st.sampled_from([0., 1., 1.])), quick=1500, thorough=60000, shards=3)
def derivative(c):
    s, oi, r = setup(c)
    L = problem.layout(oi)
    sc = np.array([l[2] for l in L])
    b, x, J, _ = mrcal.optimizer_callback(no_factorization=True, **oi)
    if J.shape != (len(x), len(L)):
        raise Violation("J has shape %r; should be %r" % (J.shape, (len(x), len(L))))
    check_sparse(J)
    if not len(x):
        reject()
    J = J.toarray()
    u = problem.state(oi)
    cols = np.arange(len(L)) if len(L) <= 25 else np.sort(r.choice(len(L), 25, replace=False))
    # one of each kind at least
    if len(L) > 25:
        first = {}
        for j in r.permutation(len(L)):
            first.setdefault((L[j][0], L[j][2]), j)
        cols = np.union1d(cols, list(first.values()))
    h1 = np.array([1e-2 * q for q in np.where(sc == 500, .1, np.where(sc == 20, .5, 1e-2))])
    h1 = np.where([l[0] == "intrinsics" and l[2] == 1 for l in L], 1e-4, h1)
    dirs = [(np.arange(len(L)) == j).astype(float) for j in cols] + [r.normal(0, 1, len(L)) / np.sqrt(len(L)) for _ in range(2)]
    what = [("variable %d: %s" % (j, L[j][:2])) for j in cols] + ["direction 0", "direction 1"]
    njudged = nrows = 0
    for d, w in zip(dirs, what):
        f = lambda t: getx(problem.set_state(oi, u + t * d * h1))
        g, e = ref.deriv(f, 0., 1e-1)
        have = J @ (d * h1 / sc)
        ok = (e < 1e-6 * (1 + np.abs(g))) & (np.abs(x) < 1e5)
        nrows += len(ok)
        njudged += ok.sum()
        bad = ok & (np.abs(have - g) > 1e-9 + 20 * e + 1e-5 * np.abs(g))
        if np.any(bad):
            k = np.nonzero(bad)[0][0]
            raise Violation("%s, measurement %d of %r: J has %.8g, the numerical derivative is %.8g +- %.1g" %
                            (w, k, {a: len(v) for a, v in problem.x_parts(oi).items()}, have[k], g[k], e[k]))
    label("judged >90%" if njudged > .9 * nrows else "judged >50%" if njudged > .5 * nrows else "judged <50%")
    # outliers
    at = 0
    for k in ("observations_board", "observations_point"):
        if k in oi:
            out = np.nonzero(np.repeat((oi[k][..., 2] < 0).ravel(), 2))[0]
            if np.any(J[at + out] != 0):
                raise Violation("J of outliers in %s isn't 0" % k)
            at += 2 * oi[k][..., 2].size
    if "observations_point_triangulated" in oi:
        op = oi["observations_point_triangulated"]
        label("triangulated")
        for j, (i0, i1) in enumerate(problem.tri_pairs(oi)):
            if (op[i0, 2] < 0 or op[i1, 2] < 0) and np.any(J[at + j] != 0):
                raise Violation("J of a triangulated outlier isn't 0")
    if not np.any(J):
        trivial()
    for a in set(l[0] for l in L):
        label(a)


@C.facet("options", st.tuples(problem.problem_spec(), gens.seeds, st.sampled_from([0., 1., 1.])), quick=1000, thorough=40000)
def options(c):
    """x and b don't depend on what else is computed"""
    s, oi, r = setup(c)
    b, x, J, F = mrcal.optimizer_callback(**oi)
    for nj in (False, True):
        for nf in (False, True):
            b1, x1, J1, F1 = mrcal.optimizer_callback(no_jacobian=nj, no_factorization=nf, **oi)
            if not np.array_equal(b, b1) or not np.array_equal(x, x1):
                raise Violation("no_jacobian=%r, no_factorization=%r changes b or x" % (nj, nf))
            # a factorization needs the Jacobian
            if (J1 is None) != (nj and nf):
                raise Violation("no_jacobian=%r, no_factorization=%r: J is %r" % (nj, nf, J1))
            if J1 is not None and (J1 != J).nnz:
                raise Violation("no_factorization=%r changes J" % nf)
            if nf and F1 is not None:
                raise Violation("no_factorization gives a factorization")
    label("factorized" if F is not None else "singular")


C.main()
