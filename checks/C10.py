#!/usr/bin/python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Violation, label, trivial, reject, note
pbt.build_and_import()
import numpy as np
from hypothesis import strategies as st
import mrcal
import ref, gens, problem
from gens import fl

C = pbt.Check("C10", "cost terms",
              "Cases: problems of every kind (see C09), at states away from the optimum, with random weights, outliers with arbitrary pixel values, all regularizations. "
              "Oracle: an independent numpy evaluation of every measurement and of the measurement layout; permutations of cameras and frames; rigid motions of the reference. "
              "Non-trivial: the problem has measurements.",
              assumptions=["the value of a triangulated-point error is not judged when the rays diverge (a continuous penalty of unspecified size is added there)"])


def quiet_stderr():
    os.dup2(os.open("/dev/null", os.O_WRONLY), 2)


cases = st.tuples(problem.problem_spec(), gens.seeds, st.sampled_from([0., 1., 1., 1.]))


def setup(c):
    s, seed, scale = c
    quiet_stderr()
    oi = problem.make(s)
    if not problem.layout(oi):
        reject()
    r = np.random.default_rng(seed)
    problem.perturb(oi, r, scale)
    return s, oi, r


def callback(oi):
    return mrcal.optimizer_callback(no_factorization=True, no_jacobian=True, **oi)[1]


def close(x, w):
    return np.all((np.abs(x - w) <= 1e-7 + 1e-9 * np.abs(w)) | np.isnan(w))


@C.facet("values", cases, quick=2500, thorough=100000, shards=2)
def values(c):
    s, oi, r = setup(c)
    junk = r.choice([0, 0, -1, 1e7, np.inf, np.nan])
    if junk:
        for k in ("observations_board", "observations_point"):
            if k in oi:
                oi[k][oi[k][..., 2] < 0, :2] = junk
    p = problem.x_parts(oi)
    keep = problem.copy(oi)
    x = callback(oi)
    for k, v in keep.items():
        if isinstance(v, np.ndarray) and not np.array_equal(v, oi[k], equal_nan=True):
            raise Violation("optimizer_callback() modified %s" % k)
    names = ("board", "point", "tri", "reg")
    N = [len(p[k]) for k in names]
    if len(x) != sum(N):
        raise Violation("len(x) = %d; should be %r" % (len(x), N))
    at = np.cumsum([0] + N)
    for k, a, b in zip(names, at, at[1:]):
        w = p[k]
        if k in ("board", "point") and b > a:
            ob = oi["observations_" + k]
            out = np.repeat((ob[..., 2] <= 0).ravel(), 2)
            if np.any(x[a:b][out] != 0):
                raise Violation("%s: the residual of an outlier isn't 0: %r" % (k, x[a:b][out]))
            w = np.where(out, 0, w)
        if not close(x[a:b], w):
            j = np.argmax(np.abs(x[a:b] - w))
            raise Violation("%s measurement %d is %.10g; should be %.10g" % (k, j, x[a + j], w[j]))
        if b > a:
            label(k)
    if "observations_point_triangulated" in oi:
        op = oi["observations_point_triangulated"]
        for j, (i0, i1) in enumerate(problem.tri_pairs(oi)):
            if (op[i0, 2] < 0 or op[i1, 2] < 0) and x[at[2] + j] != 0:
                raise Violation("the residual of a triangulated outlier isn't 0")
    # the layout
    f = dict(boards=N[0], points=N[1], points_triangulated=N[2], regularization=N[3])
    for i, (k, n) in enumerate(f.items()):
        got = getattr(mrcal, "num_measurements_" + k)(**oi)
        if got != n:
            raise Violation("num_measurements_%s() = %r; should be %d" % (k, got, n))
        mi = getattr(mrcal, "measurement_index_" + k)
        if k == "regularization":
            got = mi(**oi)
            if got != (int(at[i]) if n else None):
                raise Violation("measurement_index_regularization() = %r; should be %r" % (got, at[i] if n else None))
        elif k == "points_triangulated":
            if n:
                idx = oi["indices_point_triangulated_camintrinsics_camextrinsics"][:, 0]
                first = {}
                for j, (i0, i1) in enumerate(problem.tri_pairs(oi)):
                    first.setdefault(idx[i0], j)
                for pt, j in first.items():
                    got = mi(int(pt), **oi)
                    if got != at[i] + j:
                        raise Violation("measurement_index_points_triangulated(%d) = %r; should be %r" % (pt, got, at[i] + j))
            elif mi(0, **oi) is not None:
                raise Violation("measurement_index_points_triangulated() without any isn't None")
        else:
            nobs = len(oi.get("observations_" + k[:-1], ()))
            for o in {0, nobs // 2, nobs - 1}:
                got = mi(int(o), **oi)
                want = int(at[i] + o * (n // nobs)) if n else None
                if got != want:
                    raise Violation("measurement_index_%s(%d) = %r; should be %r" % (k, o, got, want))
    if mrcal.num_measurements(**oi) != len(x):
        raise Violation("num_measurements() = %r; should be %d" % (mrcal.num_measurements(**oi), len(x)))


@C.facet("select", cases, quick=1000, thorough=40000)
def select(c):
    """measurements_board(), measurements_point()"""
    s, oi, r = setup(c)
    x = callback(oi)
    n = problem.counts(oi)
    if not n["nob"] + n["nop"]:
        trivial()
    nb = 0
    if n["nob"]:
        nb = oi["observations_board"][..., 0].size * 2
    for what, xx, okey, ikey, f in (("board", x[:nb], "observations_board", "indices_frame_camintrinsics_camextrinsics", mrcal.measurements_board),
                                    ("point", x[nb:nb + 2 * n["nop"]], "observations_point", "indices_point_camintrinsics_camextrinsics", mrcal.measurements_point)):
        for icam in [None] + list(range(n["ncam"])):
            wx, wo = [], []
            ob = oi.get(okey, np.zeros((0, 3)))
            if len(ob):
                xs = xx.reshape(ob.shape[:-1] + (2,))
                for o in range(len(ob)):
                    if icam is not None and oi[ikey][o, 1] != icam:
                        continue
                    for q, e in zip(ob[o].reshape(-1, 3), xs[o].reshape(-1, 2)):
                        if q[2] > 0:
                            wx.append(e)
                            wo.append(q[:2])
            wx, wo = np.array(wx).reshape(-1, 2), np.array(wo).reshape(-1, 2)
            kw = dict(x=x) if r.integers(2) else {}
            if icam is not None or r.integers(2):
                kw["icam_intrinsics"] = icam
            got = f(oi, **kw)
            gx, go = f(oi, return_observations=True, **kw)
            if not (np.array_equal(got, wx) and np.array_equal(gx, wx) and np.array_equal(go, wo)):
                raise Violation("measurements_%s(icam_intrinsics=%r) reports the wrong measurements: %r, should be %r" % (what, icam, gx, wx))


def parts(oi, x):
    """-> residuals keyed by what they are of"""
    out = {}
    at = 0
    if "observations_board" in oi:
        ob = oi["observations_board"]
        n = ob[0, ..., :2].size
        for o in range(len(ob)):
            out["b", o] = x[at:at + n]
            at += n
    for o in range(len(oi.get("observations_point", ()))):
        out["p", o] = x[at:at + 2]
        at += 2
    return out, at


@C.facet("permute", st.tuples(problem.problem_spec(triangulated=False), gens.seeds, st.just(1.)), quick=1000, thorough=40000)
def permute(c):
    """Another order of the cameras, of the frames and of the points"""
    s, oi, r = setup(c)
    n = problem.counts(oi)
    pc, pe, pf = r.permutation(n["ncam"]), r.permutation(n["next"]), r.permutation(n["nframes"])
    pp = np.concatenate((r.permutation(n["nvar"]), n["nvar"] + r.permutation(n["npoints"] - n["nvar"]))).astype(int)
    o2 = problem.copy(oi)
    o2["intrinsics"] = oi["intrinsics"][pc]
    o2["imagersizes"] = oi["imagersizes"][pc]
    for k, p in (("rt_cam_ref", pe), ("rt_ref_frame", pf), ("points", pp)):
        if k in oi and len(oi[k]):
            o2[k] = oi[k][p]
    ic, ie = np.argsort(pc), np.concatenate((np.argsort(pe), [-1])).astype(int)
    x = callback(oi)
    a, na = parts(oi, x)
    order = []
    for t, okey, ikey, ip in (("b", "observations_board", "indices_frame_camintrinsics_camextrinsics", np.argsort(pf)),
                              ("p", "observations_point", "indices_point_camintrinsics_camextrinsics", np.argsort(pp))):
        if okey not in oi:
            continue
        idx = oi[ikey]
        new = np.stack((ip[idx[:, 0]], ic[idx[:, 1]], ie[idx[:, 2]]), -1).astype(np.int32)
        o = np.lexsort((new[:, 2], new[:, 1], new[:, 0]))
        new = new[o]
        if t == "b":      # this order is required of the boards
            for f in range(n["nframes"]):
                e = new[new[:, 0] == f, 2]
                if np.any(np.diff(e) < 0):
                    reject()
        o2[ikey] = np.ascontiguousarray(new)
        o2[okey] = np.ascontiguousarray(oi[okey][o])
        order += [(t, j) for j in o]
    b, nb = parts(o2, callback(o2))
    if na != nb:
        raise Violation("the number of measurements has changed")
    for k, kb in zip(order, b):
        if not close(b[kb], a[k]):
            raise Violation("the residuals of observation %r depend on the order: %r, %r" % (k, a[k], b[kb]))
    if len(order) == 0 or len(pc) + len(pe) + len(pf) + len(pp) < 4:
        trivial()


@C.facet("rigid", st.tuples(problem.problem_spec(flags=False), gens.seeds, st.just(1.)), quick=1000, thorough=40000)
def rigid(c):
    """Everything moves together, when no camera sits at the reference"""
    s, oi, r = setup(c)
    for k in ("indices_frame_camintrinsics_camextrinsics", "indices_point_camintrinsics_camextrinsics", "indices_point_triangulated_camintrinsics_camextrinsics"):
        if k in oi and np.any(oi[k][:, 2] < 0):
            reject()
    x = callback(oi)
    o2 = problem.copy(oi)
    T = np.concatenate((r.normal(0, 1, 3), r.normal(0, 10, 3)))
    RT = ref.Rt_from_rt(T)
    o2["rt_cam_ref"] = np.array([ref.rt_from_Rt(ref.compose_Rt(ref.Rt_from_rt(e), ref.invert_Rt(RT))) for e in oi["rt_cam_ref"]])
    if len(oi.get("rt_ref_frame", ())):
        o2["rt_ref_frame"] = np.array([ref.rt_from_Rt(ref.compose_Rt(RT, ref.Rt_from_rt(f))) for f in oi["rt_ref_frame"]])
    if "points" in oi:
        o2["points"] = oi["points"] @ RT[:3].T + RT[3]
    o2["do_apply_regularization_unity_cam01"] = oi["do_apply_regularization_unity_cam01"] = False
    x, x2 = callback(oi), callback(o2)
    if not np.all(np.abs(x - x2) < 1e-6 * (1 + np.abs(x))):
        j = np.argmax(np.abs(x - x2))
        raise Violation("measurement %d is %.10g, and %.10g after a common rigid motion" % (j, x[j], x2[j]))


@C.facet("legacy_names", cases, quick=300, thorough=5000)
def legacy_names(c):
    s, oi, r = setup(c)
    x = callback(oi)
    o2 = dict(oi)
    for new, old in (("rt_cam_ref", "extrinsics_rt_fromref"), ("rt_ref_frame", "frames_rt_toref")):
        if new in o2:
            o2[old] = o2.pop(new)
    if not np.array_equal(x, callback(o2), equal_nan=True) or mrcal.num_states(**oi) != mrcal.num_states(**o2):
        raise Violation("the legacy array names give another result")


C.main()
