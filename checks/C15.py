#!/usr/bin/python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Violation, label, trivial, reject, note
pbt.build_and_import()
import numpy as np
import scipy.sparse
from hypothesis import strategies as st
import mrcal
import mrcal.model_analysis as ma
import ref, gens, problem
from gens import fl

C = pbt.Check("C15", "uncertainty propagation",
              "Cases: symmetric matrices of any size and eigenvalue structure; calibration, structure-from-motion and mixed problems (stationary or moving cameras, any lens model, "
              "weights, outliers, regularization, any selection of variables) with a condition number < 3e4, and query points. Oracle: the documented dense formulas in numpy: "
              "K = -pinv(Jcross) J, dq/db from numerical differences of the definition of each method, Var = s^2 dq/db (JtJ)^-1 Jo^t Jo (JtJ)^-1 dq/db^t. Non-trivial: a "
              "covariance was compared.",
              assumptions=["projection gradients and the optimizer's J are right (decided by C03, C11)",
                           "combinations that mrcal documents as unsupported, or refuses, are not judged"])


def quiet_stderr():
    os.dup2(os.open("/dev/null", os.O_WRONLY), 2)


# ---------------------------------------------------------------- matrices

@st.composite
def matrices(draw):
    n = draw(st.integers(1, 6))
    shape = draw(st.sampled_from([(), (), (1,), (3,), (2, 3), (0,)]))
    kind = draw(st.sampled_from(["psd", "psd", "rank", "repeated", "zero", "diagonal", "scaled"]))
    return dict(n=n, shape=list(shape), kind=kind, e=draw(fl(-12, 12)), seed=draw(gens.seeds), sym=draw(st.booleans()))


def make_matrices(c):
    r = np.random.default_rng(c["seed"])
    n, s = c["n"], tuple(c["shape"])
    lam = r.uniform(0, 1, s + (n,))
    if c["kind"] == "rank":
        lam[..., r.integers(n):] = 0
    elif c["kind"] == "repeated":
        lam = np.round(lam * 2) / 2
    elif c["kind"] == "zero":
        lam *= 0
    elif c["kind"] == "scaled":
        lam *= 10**r.uniform(-8, 0, lam.shape)
    if c["sym"]:
        lam = lam * r.choice((-1, 1), lam.shape)
    Q = np.linalg.qr(r.normal(size=s + (n, n)))[0] if s != (0,) else np.zeros((0, n, n))
    if c["kind"] == "diagonal":
        Q = np.zeros(s + (n, n)) + np.eye(n)
    M = (Q * lam[..., None, :]) @ np.swapaxes(Q, -1, -2) * 10**c["e"]
    return (M + np.swapaxes(M, -1, -2)) / 2, lam * 10**c["e"]


@C.facet("eig", matrices(), quick=2500, thorough=100000)
def eig(c):
    M, lam = make_matrices(c)
    label("%s N=%d" % (c["kind"], c["n"]))
    M0 = M.copy()
    if M.size == 0:
        trivial()
    lw = lam.max(-1) if lam.size else np.zeros(tuple(c["shape"]))
    tol = 1e-12 * np.abs(lam).max() if lam.size else 0
    if not c["sym"]:
        s = mrcal.worst_direction_stdev(M)
        if np.shape(s) != tuple(c["shape"]):
            raise Violation("worst_direction_stdev() of %s has the shape %s" % (M.shape, np.shape(s)))
        if not np.all(np.abs(np.square(s) - lw) <= tol + 1e-9 * lw):
            raise Violation("worst_direction_stdev(): %s; the largest eigenvalue is %s" % (np.square(s), lw))
    if M.size:
        l, v = mrcal.utils.sorted_eig(M)
        if np.iscomplexobj(l) or np.iscomplexobj(v):
            raise Violation("sorted_eig() of a symmetric matrix is complex")
        if np.shape(l) != lam.shape or np.shape(v) != M.shape:
            raise Violation("sorted_eig(): shapes %s, %s" % (np.shape(l), np.shape(v)))
        if not np.all(np.abs(l - np.sort(lam, -1)) <= tol):
            raise Violation("sorted_eig(): eigenvalues %s, not %s" % (l, np.sort(lam, -1)))
        if not np.all(np.abs(M @ v - v * l[..., None, :]) <= 30 * tol):
            raise Violation("sorted_eig(): the columns aren't the eigenvectors")
        G = np.swapaxes(v, -1, -2) @ v
        if not np.all(np.abs(np.diagonal(G, axis1=-2, axis2=-1) - 1) < 1e-9):
            raise Violation("sorted_eig(): the eigenvectors aren't normalized")
        if not np.all(np.abs(G - np.eye(c["n"])) < 1e-6) and np.all(np.abs(np.diff(np.sort(lam, -1))) > 1e-4 * np.abs(lam).max()):
            raise Violation("sorted_eig(): the eigenvectors aren't orthogonal")
    if not np.array_equal(M, M0):
        raise Violation("the input was modified")


@C.facet("AJtJAt", st.fixed_dictionaries(dict(m=st.integers(1, 12), n=st.integers(1, 8), nx=st.integers(1, 5), lead=st.integers(1, 12), density=fl(0, 1), seed=gens.seeds,
                                              shape=st.sampled_from([[], [1], [3], [2, 2]]))), quick=2000, thorough=60000)
def AJtJAt(c):
    r = np.random.default_rng(c["seed"])
    J = r.normal(size=(c["m"], c["n"])) * (r.random((c["m"], c["n"])) < c["density"])
    S = scipy.sparse.csr_matrix(J)
    A = r.normal(size=tuple(c["shape"]) + (c["nx"], c["n"]))
    lead = min(c["lead"], c["m"])
    want = A @ J[:lead].T @ J[:lead] @ np.swapaxes(A, -1, -2)
    label("nx=%d" % c["nx"])
    fs = ["_A_Jt_J_At"] + (["_A_Jt_J_At__2"] if c["nx"] == 2 else [])
    for f in fs:
        got = getattr(mrcal._mrcal_npsp, f)(A, S.indptr.astype(np.int32), S.indices.astype(np.int32), S.data, Nleading_rows_J=lead)
        if got.shape != want.shape or not np.all(np.abs(got - want) < 1e-11 * (1 + np.abs(want).max())):
            raise Violation("%s() differs from the dense product" % f)


# ---------------------------------------------------------------- problems

@st.composite
def problems(draw, methods=("ccp", "ccp", "rrp", "mean-pcam")):
    s = draw(problem.wellposed_spec(outliers=True))
    m = draw(st.sampled_from(methods))
    s["method"] = m
    wild = draw(st.integers(0, 5)) == 0      # whatever comes
    ext = draw(st.sampled_from([True, True, None, False]))
    if wild:
        return s
    fix = s["kind"] == "allext" or draw(st.integers(0, 3)) == 0       # the gauge must be fixed
    intr = draw(st.sampled_from([(True, True), (None, True), (True, False), (True, None), (False, True)]))
    s["fixed"] = 0
    if m == "ccp":
        s["flags"] = [*intr, False if fix and draw(st.booleans()) else True, True, draw(st.booleans())]
        if fix and s["flags"][2]:
            if s["kind"] == "allext" and draw(st.booleans()):
                s["flags"][3] = False
            elif s["npoints"] >= 3 and s["kind"] == "allext":
                s["fixed"] = draw(st.integers(3, s["npoints"]))
            elif s["kind"] == "allext":
                s["flags"][2] = False
    else:
        s["flags"] = [*draw(st.sampled_from([intr, intr, (False, False)])), ext and not fix, draw(st.sampled_from([True, None])), draw(st.booleans())]
        if s["kind"] == "moving":
            s["kind"], s["next"] = "stationary", s["ncam"] - 1
            if m == "mean-pcam":
                # a moving camera, never at the reference, sees stationary boards
                s.update(kind="moving", noref=True, all=True, ncam=1, next=draw(st.integers(1, 4)))
                s["flags"][2:4] = True, draw(st.sampled_from([False, False, None]))
    if m == "mean-pcam":
        s["npoints"] = 0
        s["nframes"] = s["nframes"] or 4
    if s["nframes"] and s["npoints"] and draw(st.booleans()):
        s["warp"] = "none"
    return s


def setup(s):
    oi = problem.make(s)
    r = np.random.default_rng(s["seed"] + 1)
    if not len(problem.layout(oi)):
        reject()
    problem.perturb(oi, r, .1)
    with np.errstate(all="ignore"):
        k = problem.condition(oi)
    if not k < 3e4:
        reject()
    b, x, J, F = mrcal.optimizer_callback(**oi)
    return oi, k, J.toarray(), x, F, problem.layout(oi), r


def observations(oi):
    """-> icam_intrinsics, rt_cam_ref, p_ref (n,3), weight(n) for each observation, in the order of the measurements. And is_fixed"""
    e = oi.get("rt_cam_ref")
    out = []
    if problem.counts(oi)["nob"]:
        B = problem.board(oi["observations_board"].shape[2], oi["observations_board"].shape[1], oi["calibration_object_spacing"], oi.get("calobject_warp"))
        for (f, c, j), o in zip(oi["indices_frame_camintrinsics_camextrinsics"], oi["observations_board"]):
            p = ref.transform_rt(oi["rt_ref_frame"][f], B).reshape(-1, 3)
            out.append((c, None if j < 0 else e[j], p, np.maximum(o[..., 2].ravel(), 0), False))
    if oi.get("points") is not None and len(oi["points"]):
        nv = len(oi["points"]) - oi.get("Npoints_fixed", 0)
        for (i, c, j), o in zip(oi["indices_point_camintrinsics_camextrinsics"], oi["observations_point"]):
            out.append((c, None if j < 0 else e[j], oi["points"][i][None], np.maximum(o[2:], 0), i >= nv))
    return out


def cross_jacobian(oi, icam):
    """icam>=0: d(measurements of that camera)/d(rt_cam_camperturbed). icam<0: d(all measurements)/d(rt_ref_refperturbed). -> Jcross, rows (of J)"""
    rows, out, i0 = [], [], 0
    for c, e, p, w, fixed in observations(oi):
        n = 2 * len(p)
        if icam < 0 or c == icam:
            pc = p if e is None else ref.transform_rt(e, p)
            dq = mrcal.project(pc, oi["lensmodel"], oi["intrinsics"][c], get_gradients=True)[1]
            x = pc if icam >= 0 else p
            D = np.zeros((len(p), 3, 6))       # d(transform(rt,x))/drt at 0
            D[..., 3:] = np.eye(3)
            for k in range(3):
                D[..., k] = np.cross(np.eye(3)[k], x)
            if icam < 0 and e is not None:
                D = ref.R_from_r(e[:3]) @ D
            out.append((w[:, None, None] * (dq @ D)).reshape(n, 6))
            rows += list(range(i0, i0 + n))
        i0 += n
    return np.concatenate(out, 0) if out else np.zeros((0, 6)), rows


def supported(oi, s, method, icam, kernel=False):
    """None, or why mrcal doesn't (claim to) support this"""
    sel, n = problem.selections(oi), problem.counts(oi)
    atref = [e is None for c, e, *_ in observations(oi) if icam < 0 or c == icam]
    fixed = oi.get("Npoints_fixed", 0) > 0 and n.get("nvar", 0) is not None
    if not atref:
        return "camera without observations"
    fp = sel["do_optimize_frames"]
    warp = sel["do_optimize_calobject_warp"] and n["nob"]
    if warp and s["npoints"]:
        return "boards, points and warp"
    if method == "ccp":
        if not (sel["do_optimize_intrinsics_core"] or sel["do_optimize_intrinsics_distortions"] and ref.num_params(s["m"]) > 4):
            return "intrinsics fixed"
        if any(atref) and not fp:
            return "camera at the reference; frames fixed"
        if any(atref) and oi.get("Npoints_fixed", 0):
            return "camera at the reference; fixed points"
        if not sel["do_optimize_extrinsics"] and not all(atref):
            if kernel or s["kind"] == "moving":
                return "extrinsics fixed"
            if not fp:
                return "extrinsics and frames fixed"
            if oi.get("Npoints_fixed", 0):
                return "extrinsics fixed; fixed points"
    elif method == "rrp":
        if not fp:
            return "frames fixed"
        if oi.get("Npoints_fixed", 0):
            return "fixed points"
    return None


def K_dense(oi, J, L, icam):
    Jc, rows = cross_jacobian(oi, icam)
    d = np.sqrt((Jc * Jc).sum(0))
    if np.any(d == 0) or not len(Jc):
        reject()
    kc = np.linalg.cond(Jc / d)
    if not kc < 1e5:
        reject()
    if not len(L) or not len(rows):
        reject()
    cols = [a in (("rt_cam_ref", "rt_ref_frame", "points", "calobject_warp") if icam >= 0 else ("rt_ref_frame", "points", "calobject_warp")) for a, *_ in L]
    Jx = np.where(cols, J[rows], 0)
    Q, R = np.linalg.qr(Jc / d)
    return -np.linalg.solve(R, Q.T @ Jx) / d[:, None], kc, d


@C.facet("K", st.tuples(problems(("ccp", "rrp")), st.integers(0, 2)), quick=1400, thorough=50000, shards=4)
def K(c):
    s, icam = c
    quiet_stderr()
    oi, k, J, x, F, L, r = setup(s)
    method = s["method"]
    icam = min(icam, s["ncam"] - 1) if method == "ccp" else -1
    why = supported(oi, s, method, icam, True)
    incomplete = why == "camera at the reference; fixed points"
    if why and not incomplete:
        label(why)
        trivial()
        return
    want, kc, d = K_dense(oi, J, L, icam)
    label("%s %s" % (method, s["kind"]))
    oi0 = problem.copy(oi)
    try:
        got = mrcal.drt_cross_reprojection__dbpacked(icam_intrinsics=icam, **oi)
    except RuntimeError:
        if incomplete:       # refused. All right
            trivial()
            return
        raise
    if got.shape != want.shape:
        raise Violation("shape %s; wanted %s" % (got.shape, want.shape))
    e = np.abs(got - want) * d[:, None]
    m = np.abs(want * d[:, None]).max()
    if not np.all(e <= (1e-9 + 1e-14 * kc**2) * m):
        msg = "%s: K differs from its dense formula by %g (relative; cond %g) in the columns of %s" % \
            (method, e.max() / m, kc, sorted(set(L[j][0] for j in np.nonzero(e.max(0) > 1e-6 * m)[0])))
        if incomplete:
            pbt.known("K-fixed-points", msg)
        raise Violation(msg)



# ---------------------------------------------------------------- projection

def dq_db(oi, L, icam, p, method, inf, Kp):
    """d(reprojection)/db (unpacked), shape (2,Nstate). Kp: packed K"""
    sc = np.array([l[2] for l in L])
    q, dqdp, dqdi = mrcal.project(p, oi["lensmodel"], oi["intrinsics"][icam], get_gradients=True)
    D = np.zeros((2, len(L)))
    n = dqdi.shape[-1]
    for j, (a, i, _) in enumerate(L):
        if a == "intrinsics" and i // n == icam:
            D[:, j] += dqdi[:, i % n]
    z = (lambda rt: np.concatenate((rt[:3], 0 * rt[3:]))) if inf else (lambda rt: rt)
    inv = lambda rt: ref.invert_Rt(ref.Rt_from_rt(rt))
    poses = sorted(set(-1 if e is None else [k for k in range(len(oi["rt_cam_ref"])) if oi["rt_cam_ref"][k] is e or np.array_equal(oi["rt_cam_ref"][k], e)][0]
                       for c, e, *_ in observations(oi) if c == icam))
    ext = [np.zeros(6) if k < 0 else z(oi["rt_cam_ref"][k]) for k in poses]

    def add(name, base, f, h=1e-3):
        """f(rt): the moved point for each value of the 6 variables that start at base of the array "name" """
        cols = {i: j for j, (a, i, _) in enumerate(L) if a == name}
        if base not in cols:
            return
        rt0 = oi[name].ravel()[base:base + 6]
        G = ref.numdiff(f, rt0, h)
        for i in range(6):
            D[:, cols[base + i]] += dqdp @ G[:, i]
    if method == "mean-pcam":
        if poses[0] >= 0:
            for k, e in zip(poses, ext):
                pref = ref.transform_Rt(inv(e), p)
                add("rt_cam_ref", 6 * k, lambda rt: ref.transform_rt(z(rt), pref) / len(poses))
        nf = len(oi["rt_ref_frame"])
        for i in range(nf):
            f = z(oi["rt_ref_frame"][i])

            def moved(rt):
                return sum(ref.transform_rt(e, ref.transform_rt(z(rt), ref.transform_Rt(inv(f), ref.transform_Rt(inv(e), p)))) for e in ext) / len(ext) / nf
            add("rt_ref_frame", 6 * i, moved)
        return D
    G = ref.numdiff((lambda rt: ref.transform_Rt(inv(z(rt)), p)) if method == "ccp" else
                    (lambda rt: ref.transform_rt(ext[0], ref.transform_Rt(inv(z(rt)), ref.transform_Rt(inv(ext[0]), p)))), np.zeros(6), 1e-3)
    D += dqdp @ G @ Kp / sc
    if method == "rrp" and poses[0] >= 0:
        pref = ref.transform_Rt(inv(ext[0]), p)
        add("rt_cam_ref", 6 * poses[0], lambda rt: ref.transform_rt(z(rt), pref))
    return D


NAMES = dict(ccp="cross-reprojection-ccp", rrp="cross-reprojection-rrp-Jfp")
NAMES["mean-pcam"] = "mean-pcam"


def n_observations(oi, L):
    """The number of the measurements that come from pixel observations"""
    return 2 * sum(len(p) for c, e, p, *_ in observations(oi))


def propagate(oi, J, L, D):
    """-> the covariance for unit noise"""
    sc = np.array([l[2] for l in L])
    Jo = J[:n_observations(oi, L)]
    # in scaled columns, for accuracy
    d = np.sqrt((J * J).sum(0))
    Q, R = np.linalg.qr(J / d)
    A = np.linalg.solve(R, np.linalg.solve(R.T, (D * sc / d).T))     # (Nstate, n)
    B = (Jo / d) @ A
    return B.T @ B


@C.facet("projection", st.fixed_dictionaries(dict(s=problems(), icam=st.integers(0, 2), inf=st.booleans(),
                                                  shape=st.sampled_from([[], [1], [3], [2, 2]]), sigma=st.one_of(st.none(), fl(.01, 3)), e=fl(-1, 2))),
         quick=1800, thorough=50000, shards=6)
def projection(c):
    s, method, inf = c["s"], c["s"]["method"], c["inf"]
    quiet_stderr()
    oi, k, J, x, F, L, r = setup(s)
    icam = min(c["icam"], s["ncam"] - 1)
    sel = problem.selections(oi)
    why = supported(oi, s, "rrp" if method == "rrp" else "ccp", -1 if method == "rrp" else icam) if method != "mean-pcam" else None
    mine = [e for cc, e, *_ in observations(oi) if cc == icam]
    if method != "ccp":
        if not mine:
            why = "camera without observations"
        elif s["kind"] == "moving":
            n = len(set(None if e is None else tuple(e) for e in mine))
            if method == "rrp" or any(e is None for e in mine) and n > 1:
                why = "moving camera"
            elif n != s["next"] + any(e is None for e in mine):
                why = "moving camera"
        if method == "mean-pcam" and (s["npoints"] or not s["nframes"]):
            why = "mean-pcam with points"
    if inf and np.any(mrcal.lensmodel_metadata_and_config(s["m"])["noncentral"]):
        why = "noncentral at infinity"
    if why:
        label(why)
        trivial()
        return
    if method == "ccp" or method == "rrp":
        Kp, kc, d = K_dense(oi, J, L, icam if method == "ccp" else -1)
    else:
        Kp, kc = None, 1
    label("%s %s%s%s" % (method, s["kind"], " inf" if inf else "", "" if sel["do_optimize_extrinsics"] else " ext fixed"))
    # points in view
    p = np.concatenate((r.uniform(-.3, .3, tuple(c["shape"]) + (2,)), np.ones(tuple(c["shape"]) + (1,))), -1) * 10**c["e"]
    M = mrcal.cameramodel(optimization_inputs=oi, icam_intrinsics=icam, **(dict(icam_extrinsics=0) if s["kind"] == "moving" else {}))
    kw = dict(method=NAMES[method], atinfinity=inf, observed_pixel_uncertainty=c["sigma"])
    sigma = c["sigma"]
    if sigma is None:
        sigma = pixel_uncertainty(oi, x)
    p0 = p.copy()
    V = mrcal.projection_uncertainty(p, M, **kw)
    if not np.array_equal(p, p0):
        raise Violation("p_cam was modified")
    want = np.array([propagate(oi, J, L, dq_db(oi, L, icam, pp, method, inf, Kp)) for pp in p.reshape(-1, 3)]).reshape(p.shape[:-1] + (2, 2)) * sigma**2
    if V.shape != want.shape:
        raise Violation("shape %s; wanted %s" % (V.shape, want.shape))
    tr = np.trace(want, axis1=-2, axis2=-1)[..., None, None]
    tol = 1e-7 + 1e-13 * k**2 + 1e-14 * kc**2
    if tol > 1e-3:
        reject()
    if not np.all(np.abs(V - want) <= tol * tr):
        raise Violation("%s%s: Var(q) = %s; the dense formula gives %s (cond %g %g)" % (method, " at infinity" if inf else "", V.ravel()[:4], want.ravel()[:4], k, kc))
    if not np.all(np.abs(V - np.swapaxes(V, -1, -2)) <= 1e-9 * tr) or not np.all(np.linalg.eigvalsh((V + np.swapaxes(V, -1, -2)) / 2) >= -1e-9 * tr[..., 0]):
        raise Violation("the covariance isn't symmetric and positive semi-definite: %s" % V)
    w = mrcal.projection_uncertainty(p, M, what="worstdirection-stdev", **kw)
    l = np.linalg.eigvalsh((V + np.swapaxes(V, -1, -2)) / 2)
    if np.shape(w) != p.shape[:-1] or not np.all(np.abs(w - np.sqrt(l[..., 1])) <= 1e-7 * np.sqrt(tr[..., 0, 0])):
        raise Violation("worstdirection-stdev = %s; the covariance has %s" % (w, np.sqrt(l[..., 1])))
    w = mrcal.projection_uncertainty(p, M, what="rms-stdev", **kw)
    if np.shape(w) != p.shape[:-1] or not np.all(np.abs(w - np.sqrt((V[..., 0, 0] + V[..., 1, 1]) / 2)) <= 1e-7 * np.sqrt(tr[..., 0, 0])):
        raise Violation("rms-stdev isn't the root mean square of the standard deviations")
    if inf:
        V2 = mrcal.projection_uncertainty(p * 7.3, M, **kw)
        if not np.all(np.abs(V2 - V) <= tol * tr):
            raise Violation("at infinity the uncertainty depends on the length of p_cam")
    if c["sigma"] is not None:
        kw["observed_pixel_uncertainty"] *= 3
        V2 = mrcal.projection_uncertainty(p, M, **kw)
        if not np.all(np.abs(V2 - 9 * V) <= 1e-9 * tr * 9):
            raise Violation("the covariance isn't proportional to the square of observed_pixel_uncertainty")


def pixel_uncertainty(oi, x):
    """The documented estimate"""
    no = sum(2 * np.count_nonzero(w > 0) for c, e, p, w, f in observations(oi))
    n = n_observations(oi, None)
    xo = x[:n]
    xo = xo[np.concatenate([np.repeat(w > 0, 2) for c, e, p, w, f in observations(oi)])]
    ns = len(problem.layout(oi))
    if ns >= no:      # not overdetermined
        reject()
    return np.sqrt(np.mean(xo**2)) / np.sqrt(1 - ns / no)


# ---------------------------------------------------------------- other propagations

@st.composite
def stationary_problems(draw):
    s = draw(problems(("ccp", "rrp", "mean-pcam")))
    s["ncam"] = max(s["ncam"], 2)
    s["next"] = s["ncam"] - (s["kind"] == "stationary")
    if s["kind"] == "moving":
        s["kind"], s["next"] = "stationary", s["ncam"] - 1
    return s


@C.facet("propagate", st.tuples(problems(("ccp", "rrp", "mean-pcam")), st.integers(0, 4), st.booleans(), st.one_of(st.none(), fl(.01, 3))), quick=600, thorough=20000, shards=2)
def propagate_any(c):
    s, n, packed, sigma = c
    quiet_stderr()
    oi, k, J, x, F, L, r = setup(s)
    D = r.normal(size=(n, len(L)) if n else len(L))      # n=0: a scalar F
    sc = np.array([l[2] for l in L])
    if len(L) >= 2 and n:
        D[:, r.integers(len(L))] = 0
    want = propagate(oi, J, L, np.atleast_2d(D)) * (pixel_uncertainty(oi, x) if sigma is None else sigma)**2
    label("n=%d%s" % (n, " regularization" if len(J) > n_observations(oi, L) else ""))
    D0 = D.copy()
    kw = dict(dF_dbpacked=D * sc) if packed else dict(dF_dbunpacked=D)
    V = ma._propagate_calibration_uncertainty("covariance", observed_pixel_uncertainty=sigma, optimization_inputs=oi, **kw)
    if not np.array_equal(D, D0):
        raise Violation("the gradient was modified")
    if np.shape(V) != ((n, n) if n else ()):
        raise Violation("shape %s" % (np.shape(V),))
    tol = 1e-7 + 1e-13 * k**2
    d = np.sqrt(np.diag(want))
    if not np.all(np.abs(V - want) <= tol * d[:, None] * d):
        raise Violation("the propagated covariance is %s; the dense formula gives %s (cond %g)" % (V, want, k))


METHODS = ["triangulate_geometric", "triangulate_leecivera_mid2", "triangulate_leecivera_wmid2"]


@C.facet("triangulate", st.fixed_dictionaries(dict(s=stationary_problems(), method=st.sampled_from(METHODS), n=st.integers(0, 3), stab=st.booleans(), pair=gens.seeds,
                                                   cal=st.one_of(st.just(-1), fl(.01, 3), st.none(), st.just(0)), obs=st.one_of(st.none(), fl(.01, 3), st.just(0)), corr=fl(0, 1))),
         quick=700, thorough=40000, shards=4)
def triangulate(c):
    s = c["s"]
    quiet_stderr()
    oi, k, J, x, F, L, r = setup(s)
    sel = problem.selections(oi)
    if c["stab"] and s["npoints"]:
        label("stabilization with points")
        trivial()
        return
    seen = set(cc for cc, *_ in observations(oi))
    if seen != set(range(s["ncam"])):
        trivial()
        return
    ext = [np.zeros(6) if j < 0 else oi["rt_cam_ref"][j] for j in range(-(s["kind"] == "stationary"), s["next"])]
    sc = np.array([l[2] for l in L])
    m = s["m"]
    n = max(c["n"], 1)
    pairs, qs, models, Ds, ps = [], [], [], [], []
    method = getattr(mrcal, c["method"])
    M = [mrcal.cameramodel(optimization_inputs=oi, icam_intrinsics=i) for i in range(s["ncam"])]
    for i in range(n):
        a, b = r.permutation(s["ncam"])[:2]
        if i and r.integers(2):
            a, b = pairs[0]
        pref = np.array((*r.uniform(-.6, .6, 2), r.uniform(2, 5)))
        q = np.array([ref.project(m, oi["intrinsics"][j], ref.transform_rt(ext[j], pref)) for j in (a, b)]) + r.normal(0, .2, (2, 2))
        if np.linalg.norm(ref.transform_Rt(ref.invert_Rt(ref.Rt_from_rt(ext[a])), np.zeros(3)) - ref.transform_Rt(ref.invert_Rt(ref.Rt_from_rt(ext[b])), np.zeros(3))) < .1:
            reject()
        v, dvq, dvi = zip(*[mrcal.unproject(q[h], m, oi["intrinsics"][j], get_gradients=True) for h, j in enumerate((a, b))])
        pairs.append((a, b))
        qs.append(q)
        models.append([M[a], M[b]])

        def tri(dq, di, e, stab=None):
            """di (2,Nintrinsics), e: 2 poses"""
            w = [v[h] + dvq[h] @ dq[h] + dvi[h] @ di[h] for h in range(2)]
            T01 = ref.compose_Rt(ref.Rt_from_rt(e[0]), ref.invert_Rt(ref.Rt_from_rt(e[1])))
            return method(w[0], w[1] @ T01[:3].T, t01=T01[3])
        e0 = [ext[a], ext[b]]
        z = np.zeros((2, dvi[0].shape[-1]))
        p = tri(np.zeros((2, 2)), z, e0)
        if np.linalg.norm(p) < 1e-6 or np.linalg.norm(p) > 100:
            reject()
        T0i = ref.invert_Rt(ref.Rt_from_rt(e0[0]))
        frames = oi["rt_ref_frame"] if s["nframes"] and sel["do_optimize_frames"] else None

        def f(dq, di, e, f1=None):
            y = tri(dq, di, e)
            if not c["stab"]:
                return y
            y = ref.transform_Rt(ref.invert_Rt(ref.Rt_from_rt(e[0])), y)
            if f1 is not None:
                g, fj = f1
                y = y + (ref.transform_rt(frames[g], ref.transform_Rt(ref.invert_Rt(ref.Rt_from_rt(fj)), y)) - y) / len(frames)
            return ref.transform_rt(e0[0], y)
        D = np.zeros((3, len(L)))
        err = 0
        cols = {}
        for j, (nm, ii, _) in enumerate(L):
            cols.setdefault(nm, {})[ii] = j
        N = z.shape[-1]
        for h, j in enumerate((a, b)):
            fi = lambda u: f(np.zeros((2, 2)), np.stack([u if h == hh else 0 * u for hh in range(2)]), e0)
            act = [ii for ii in range(N) if j * N + ii in cols.get("intrinsics", {}) and np.any(dvi[h][:, ii])]
            for ii in act:
                hs = 1e-3 / np.abs(dvi[h][:, ii]).max()
                u0 = np.zeros(1)
                G, er = ref.deriv(lambda u: fi(np.eye(N)[ii] * u[0]), u0, hs)
                D[:, cols["intrinsics"][j * N + ii]] += G[:, 0]
                err = max(err, er.max() * hs)
            je = j - (s["kind"] == "stationary")
            if 6 * je in cols.get("rt_cam_ref", {}) and je >= 0:
                G, er = ref.deriv(lambda u: f(np.zeros((2, 2)), z, [u if hh == h else e0[hh] for hh in range(2)]), e0[h], 1e-3)
                for ii in range(6):
                    D[:, cols["rt_cam_ref"][6 * je + ii]] += G[:, ii]
                err = max(err, er.max() * 1e-3)
        if c["stab"] and frames is not None:
            for g in range(len(frames)):
                G, er = ref.deriv(lambda u: f(np.zeros((2, 2)), z, e0, (g, u)), frames[g], 1e-3)
                for ii in range(6):
                    D[:, cols["rt_ref_frame"][6 * g + ii]] += G[:, ii]
        Gq = ref.deriv(lambda u: tri(u, z, e0), np.zeros((2, 2)), 1e-1)[0].reshape(3, 4)
        if err > 1e-7 * np.linalg.norm(p):
            reject()
        Ds.append(D)
        ps.append((p, Gq))
    q = np.array(qs)
    mm = np.array(models, dtype=object)
    shape = (n,)
    if c["n"] == 0:
        q, mm, shape = q[0], mm[0], ()
    cal, obs = c["cal"], c["obs"]
    label("%s%s%s" % ("cal " if cal else "", "obs " if obs else "", "stabilized" if c["stab"] else ""))
    out = mrcal.triangulate(q, mm, q_calibration_stdev=cal, q_observation_stdev=obs, q_observation_stdev_correlation=c["corr"], method=method, stabilize_coords=c["stab"])
    if cal is None and obs is None:
        out = (out,)
    elif not isinstance(out, tuple) or len(out) != (4 if cal is not None and obs is not None else 2):
        raise Violation("triangulate(q_calibration_stdev=%s, q_observation_stdev=%s) returned %s things" % (cal, obs, len(out)))
    p = out[0]
    want = np.array([x[0] for x in ps]).reshape(shape + (3,))
    if p.shape != want.shape or not np.all(np.abs(p - want) < 1e-9 * np.linalg.norm(want, axis=-1)[..., None]):
        raise Violation("triangulated %s; should be %s" % (p, want))
    Vc = Vo = None
    if cal is not None:
        Vc = np.zeros((3 * n, 3 * n))
        if cal != 0:
            Vc = propagate(oi, J, L, np.concatenate(Ds)) * (cal if cal > 0 else pixel_uncertainty(oi, x))**2
        Vc = Vc.reshape(shape + (3,) + shape + (3,))
    if obs is not None:
        Vq = obs**2 * np.kron(np.array([[1, c["corr"]**2], [c["corr"]**2, 1]]), np.eye(2))
        Vo = np.array([g @ Vq @ g.T for _, g in ps]).reshape(shape + (3, 3))
    tol = 1e-5 + 1e-13 * k**2

    def same(got, want, what):
        if got.shape != want.shape:
            raise Violation("%s has the shape %s, not %s" % (what, got.shape, want.shape))
        if not np.all(np.abs(got - want) <= tol * np.abs(want).max()):
            raise Violation("%s = %s; should be %s (cond %g)" % (what, got.ravel()[:9], want.ravel()[:9], k))
    if Vc is not None:
        same(out[1], Vc, "Var_p_calibration")
    if Vo is not None:
        same(out[2 if Vc is not None else 1], Vo, "Var_p_observation")
    if Vc is not None and Vo is not None:
        Vj = Vc.reshape(3 * n, 3 * n).copy()
        for i in range(n):
            Vj[3 * i:3 * i + 3, 3 * i:3 * i + 3] += Vo.reshape(n, 3, 3)[i]
        same(out[3], Vj.reshape(Vc.shape), "Var_p_joint")


C.main()
