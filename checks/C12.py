#!/usr/bin/python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Violation, label, trivial, reject, note
pbt.build_and_import()
import numpy as np
from hypothesis import strategies as st
import mrcal
import ref, gens, problem
from gens import fl

C = pbt.Check("C12", "solving",
              "Cases: calibration, structure-from-motion and mixed problems with enough data (cond of the scaled Jacobian < 1e5), any selection of variables, starting away from "
              "the optimum. Oracle: invariants relating the input, the outputs and optimizer_callback(); the true state for noise-free data. Non-trivial: the problem is "
              "well-conditioned and overdetermined, and the seed is away from the optimum.",
              assumptions=["problems with an ill-conditioned or underdetermined optimum are only checked for consistency, not for convergence"])


def quiet_stderr():
    os.dup2(os.open("/dev/null", os.O_WRONLY), 2)


def callback(oi):
    return mrcal.optimizer_callback(no_factorization=True, no_jacobian=True, **oi)[:2]


def consistent(oi0, oi, stats, outliers=False):
    """What must hold of any solve. oi0: before. oi: after"""
    L = problem.layout(oi)
    b, x = callback(oi)
    if stats["b_packed"].shape != b.shape or np.any(np.abs(stats["b_packed"] - b) > 1e-11 * (1 + np.abs(b))):
        raise Violation("b_packed isn't the state of the updated arrays")
    if stats["x"].shape != x.shape or np.any(np.abs(stats["x"] - x) > 1e-6 + 1e-7 * np.abs(x)):
        j = np.argmax(np.abs(stats["x"] - x))
        raise Violation("x isn't the residuals of the updated arrays: %g, %g" % (stats["x"][j], x[j]))
    xs = stats["x"]
    rms = np.sqrt(xs @ xs / len(xs))
    if not abs(stats["rms_reproj_error__pixels"] - rms) <= 1e-9 * rms + 1e-12:
        raise Violation("rms_reproj_error__pixels = %g; x has %g" % (stats["rms_reproj_error__pixels"], rms))
    for k, v in oi0.items():
        if not isinstance(v, np.ndarray):
            continue
        sel = np.zeros(v.size, bool)
        sel[[i for a, i, sc in L if a == k]] = True
        w = oi[k].ravel()
        if outliers and k == "observations_board":
            sel.reshape(-1, 3)[:, 2] = True
        if not np.array_equal(v.ravel()[~sel], w[~sel], equal_nan=True):
            raise Violation("optimize() modified %s, where it isn't being optimized" % k)
        if not np.all(np.isfinite(w[sel])):
            raise Violation("optimize() wrote non-finite numbers to %s" % k)
    if "observations_board" in oi and stats["Noutliers_board"] != np.sum(oi["observations_board"][..., 2] < 0):
        raise Violation("Noutliers_board = %r; %d weights are negative" % (stats["Noutliers_board"], np.sum(oi["observations_board"][..., 2] < 0)))


def wellposed(oi):
    return problem.condition(oi) < 1e5


cases = st.tuples(problem.wellposed_spec(triangulated=True, outliers=True), gens.seeds, st.sampled_from([.1, .3, 1.]))


@C.facet("solve", cases, quick=500, thorough=20000, shards=3)
def solve(c):
    s, seed, scale = c
    quiet_stderr()
    oi = problem.make(s, noise=.3)
    if not problem.layout(oi):
        reject()
    wp = wellposed(oi)
    r = np.random.default_rng(seed)
    problem.perturb(oi, r, scale)
    oi["do_apply_outlier_rejection"] = False
    oi0 = problem.copy(oi)
    x0 = callback(oi)[1]
    try:
        stats = mrcal.optimize(**oi)
    except Exception:
        if wp and scale < 1:
            raise Violation("a well-posed problem can't be solved")
        label("failed")
        reject()
    consistent(oi0, oi, stats)
    c0, c1 = x0 @ x0, stats["x"] @ stats["x"]
    if c1 > c0 * (1 + 1e-9) + 1e-12:
        raise Violation("the cost grew from %.10g to %.10g" % (c0, c1))
    if not wp or not wellposed(oi):
        label("badly conditioned")
        trivial()
        return
    label("well-conditioned, " + s["kind"])
    tri = "observations_point_triangulated" in oi
    cost, dec = problem.decrement(oi)
    if c1 > 1. * len(x0) or tri:
        # it could be at a local minimum that has points behind the camera, ...
        label("large residual" if not tri else "triangulated")
        return
    note("relative decrement", dec / (cost + 1e-9))
    if dec > 1e-5 * cost + 1e-9:
        if problem.iterations(problem.copy(oi0)) >= 290:
            label("iteration limit")
            return
        raise Violation("not converged: cost %g; can be reduced by %g" % (cost, dec))
    # again
    oi1 = problem.copy(oi)
    stats2 = mrcal.optimize(**oi)
    consistent(oi1, oi, stats2)
    db = np.abs(stats2["b_packed"] - stats["b_packed"]).max()
    c2 = stats2["x"] @ stats2["x"]
    note("move when solved again", db)
    if c2 > c1 * (1 + 1e-9) + 1e-12 or c1 - c2 > 1e-5 * c1 + 1e-9:
        raise Violation("solving again changes the cost from %.10g to %.10g" % (c1, c2))
    if db > 1e-2:
        raise Violation("solving again moves the state by %g (packed)" % db)


@C.facet("recover", st.tuples(problem.wellposed_spec(), gens.seeds, st.sampled_from([.1, .3])), quick=500, thorough=20000, shards=2)
def recover(c):
    """Noise-free data"""
    s, seed, scale = c
    quiet_stderr()
    s.update(reg=False, unity=False)
    oi = problem.make(s, noise=0.)
    if not problem.layout(oi) or "SPLINED" in s["m"]:
        reject()
    if not wellposed(oi):
        reject()
    true = problem.copy(oi)
    b = callback(oi)[0]
    r = np.random.default_rng(seed)
    problem.perturb(oi, r, scale)
    # what isn't optimized is right
    L = problem.layout(oi)
    for k in ("intrinsics", "rt_cam_ref", "rt_ref_frame", "points", "calobject_warp"):
        if k in oi:
            sel = np.zeros(oi[k].size, bool)
            sel[[i for a, i, sc in L if a == k]] = True
            oi[k].reshape(-1)[~sel] = true[k].ravel()[~sel]
    oi["do_apply_outlier_rejection"] = bool(r.integers(2))
    oi0 = problem.copy(oi)
    stats = mrcal.optimize(**oi)
    consistent(oi0, oi, stats, outliers=True)
    if oi["do_apply_outlier_rejection"] and stats["Noutliers_board"] > 0:
        # with residuals of 1e-10 the distribution of roundoff is arbitrary
        label("roundoff outliers")
        reject()
    x = stats["x"]
    note("rms", np.sqrt(x @ x / len(x)))
    if np.sqrt(x @ x / len(x)) > 1e-3:
        raise Violation("noise-free data gives an rms of %g" % np.sqrt(x @ x / len(x)))
    e = np.abs(stats["b_packed"] - b).max()
    note("state error", e)
    if e > 1e-2:
        raise Violation("the state differs from the true one by %g (packed)" % e)


@C.facet("gauge", st.tuples(problem.wellposed_spec(kinds=("allext",), boards=True), gens.seeds), quick=200, thorough=10000)
def gauge(c):
    """No camera is at the reference, so the solution isn't unique. It fits, nevertheless"""
    s, seed = c
    quiet_stderr()
    s.update(reg=False, unity=False, flags=[False, False, True, True, False], fixed=0)
    oi = problem.make(s, noise=0.)
    if s["ncam"] < 2:
        trivial()
    r = np.random.default_rng(seed)
    problem.perturb(oi, r, .1)
    for k in ("intrinsics", "calobject_warp"):
        if k in oi:
            oi[k] = problem.make(s, noise=0.)[k]
    oi0 = problem.copy(oi)
    oi["do_apply_outlier_rejection"] = oi0["do_apply_outlier_rejection"] = False
    stats = mrcal.optimize(**oi)
    consistent(oi0, oi, stats)
    if stats["rms_reproj_error__pixels"] > 1e-3:
        raise Violation("noise-free data gives an rms of %g" % stats["rms_reproj_error__pixels"])


@C.facet("history", st.tuples(problem.wellposed_spec(outliers=True), gens.seeds, st.lists(st.lists(st.booleans(), min_size=5, max_size=5), min_size=2, max_size=5)), quick=300, thorough=10000, shards=2)
def hist(c):
    """Solves of different subsets, one after the other. The cost of the same problem never grows"""
    s, seed, steps = c
    quiet_stderr()
    oi = problem.make(s, noise=.3)
    r = np.random.default_rng(seed)
    problem.perturb(oi, r, .3)
    oi.update(do_apply_outlier_rejection=False, do_apply_regularization=False, do_apply_regularization_unity_cam01=False)
    n = 0
    last = None
    for flags in steps:
        oi.update(zip(problem.FLAGS, flags))
        if "calobject_warp" not in oi:
            oi["do_optimize_calobject_warp"] = False
        if not problem.layout(oi):
            continue
        x0 = callback(oi)[1]
        oi0 = problem.copy(oi)
        if not np.all(np.isfinite(x0)):
            reject()
        try:
            stats = mrcal.optimize(**oi)
        except Exception:
            label("failed")
            break
        consistent(oi0, oi, stats)
        c0, c1 = x0 @ x0, stats["x"] @ stats["x"]
        if last is not None and abs(c0 - last) > 1e-5 + 1e-6 * last:
            raise Violation("the cost changed from %g to %g with the selection of variables" % (last, c0))
        if c1 > c0 * (1 + 1e-9) + 1e-12:
            raise Violation("the cost grew from %g to %g" % (c0, c1))
        last = c1
        n += 1
    if n < 2:
        trivial()


@C.facet("verbose", st.tuples(problem.problem_spec(), st.booleans()), quick=100, thorough=2000)
def verbose(c):
    """Asking for diagnostics doesn't change anything"""
    s, rej = c
    quiet_stderr()
    oi = problem.make(s, noise=.3)
    if not problem.layout(oi):
        reject()
    oi["do_apply_outlier_rejection"] = rej
    other = problem.copy(oi)
    out = []
    with open("/dev/null", "w") as null:
        keep = os.dup(1)
        try:
            os.dup2(null.fileno(), 1)
            for o, v in ((oi, False), (other, True)):
                try:
                    out.append(mrcal.optimize(**dict(o, verbose=v)))
                except RuntimeError:
                    out.append(None)
        finally:
            os.dup2(keep, 1)
            os.close(keep)
    a, b = out
    if (a is None) != (b is None):
        raise Violation("verbose=True changes the outcome")
    if a is None:
        label("failed")
        trivial()
        return
    if not np.array_equal(a["b_packed"], b["b_packed"], equal_nan=True) or not np.array_equal(a["x"], b["x"], equal_nan=True):
        raise Violation("verbose=True changes the solution")


C.main()
