#!/usr/bin/python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Violation, label, trivial, reject, note
pbt.build_and_import()
import numpy as np
from hypothesis import strategies as st
import mrcal
import gens, problem, ref
from gens import fl

C = pbt.Check("C24", "synthetic data and board geometry",
              "Cases: boards of every shape, spacing (scalar, per axis, broadcast), warp (none, broadcast) and sampling range against the documented parabolas; "
              "random rigs observing random boards with every visibility requirement; optimization problems of every kind made perfect, with and without noise; "
              "corner positions and measurements against the reference model of the optimizer. "
              "Non-trivial: the board has more than one corner, some pose is culled or kept for a reason, the problem has observations.")


# ----------------------------------------------------------------------------------------------- the board
@st.composite
def boards(draw):
    d = dict(W=draw(st.integers(2, 12)), H=draw(st.integers(2, 12)))
    lead = draw(st.sampled_from([(), (), (1,), (3,), (2, 3)]))
    sk = draw(st.sampled_from(["scalar", "scalar", "int", "pair", "lead"]))
    d["sk"], d["lead"], d["seed"] = sk, lead, draw(gens.seeds)
    wk = draw(st.sampled_from(["none", "zero", "one", "one", "lead", "outer"]))
    d["wk"] = wk
    for a in "xy":
        if draw(st.booleans()):
            d[a + "_corner0"] = draw(st.one_of(st.integers(-3, 12), fl(-3, 12)))
        if draw(st.booleans()):
            d[a + "_corner1"] = draw(st.one_of(st.integers(-3, 12), fl(-3, 12)))
        if draw(st.booleans()):
            d["N" + a] = draw(st.integers(1, 15))
    return d


@C.facet("board", boards(), quick=2000, thorough=100000)
def board(d):
    r = np.random.default_rng(d["seed"])
    W, H, lead = d["W"], d["H"], tuple(d["lead"])
    sp = dict(scalar=lambda: float(r.uniform(.01, 2)), int=lambda: int(r.integers(1, 5)), pair=lambda: r.uniform(.01, 2, 2), lead=lambda: r.uniform(.01, 2, lead + (2,)))[d["sk"]]()
    wp = dict(none=lambda: None, zero=lambda: np.zeros(2), one=lambda: r.uniform(-.1, .1, 2), lead=lambda: r.uniform(-.1, .1, lead + (2,)), outer=lambda: r.uniform(-.1, .1, (4,) + (1,) * len(lead) + (2,)))[d["wk"]]()
    label(d["sk"]); label("warp "+d["wk"])
    kw = {k: d[k] for k in ("x_corner0", "x_corner1", "Nx", "y_corner0", "y_corner1", "Ny") if k in d}
    keep = [None if a is None else np.array(a) for a in (sp, wp)]
    got = mrcal.ref_calibration_object(W, H, sp, calobject_warp=wp, **kw)
    for a, b in zip((sp, wp), keep):
        if a is not None and not np.array_equal(a, b):
            raise Violation("ref_calibration_object() changed its inputs")
    gx = np.linspace(d.get("x_corner0", 0), d.get("x_corner1", W - 1), d.get("Nx", W))
    gy = np.linspace(d.get("y_corner0", 0), d.get("y_corner1", H - 1), d.get("Ny", H))
    spa = np.broadcast_to(np.asarray(sp, dtype=float), (2,)) if np.ndim(sp) == 0 else np.asarray(sp)
    wpa = np.zeros(2) if wp is None else wp
    shape = np.broadcast_shapes(spa.shape[:-1], wpa.shape[:-1])
    want = np.zeros(shape + (len(gy), len(gx), 3))
    for i in np.ndindex(*shape):
        s_ = np.broadcast_to(spa, shape + (2,))[i]
        w_ = np.broadcast_to(wpa, shape + (2,))[i]
        for iy, y in enumerate(gy):
            xr, yr = gx / (W - 1), y / (H - 1)
            want[i][iy, :, 0] = gx * s_[0]
            want[i][iy, :, 1] = y * s_[1]
            # a parabola that's 0 at both edges, k at the center, in each direction
            want[i][iy, :, 2] = w_[0] * (1 - (2 * xr - 1)**2) + w_[1] * (1 - (2 * yr - 1)**2)
    if got.shape != want.shape or not np.allclose(got, want, rtol=1e-12, atol=1e-12):
        raise Violation("ref_calibration_object(%d,%d,%s, calobject_warp=%s, %s): shape %s, should be %s. %s" % (
            W, H, sp, wp, kw, got.shape, want.shape, "" if got.shape != want.shape else "Differs by %g" % np.abs(got - want).max()))
    if not shape and not kw:
        oi = dict(observations_board=np.zeros((1, H, W, 3)), calibration_object_spacing=sp, calobject_warp=wp)
        g2 = mrcal.ref_calibration_object(optimization_inputs=oi)
        if not np.array_equal(g2, got):
            raise Violation("ref_calibration_object(optimization_inputs=...) is a different board")
        for bad in (dict(W=W), dict(W=W, H=H), dict(H=H, object_spacing=sp), dict(), dict(W=W, H=H, object_spacing=sp, optimization_inputs=oi), dict(W=W, optimization_inputs=oi)):
            try:
                mrcal.ref_calibration_object(**bad)
            except Exception:
                continue
            raise Violation("ref_calibration_object() accepts only %s" % list(bad))


# ----------------------------------------------------------------------------------------------- synthesis
WHICH = ["all-cameras-must-see-full-board", "some-cameras-must-see-full-board", "all-cameras-must-see-half-board", "some-cameras-must-see-half-board"]


@st.composite
def rigs(draw):
    return dict(n=draw(st.integers(1, 4)), m=draw(st.sampled_from([m for m in problem.MODELS if m != "splined"] + ["LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=9_Ny=7_fov_x_deg=140"])),
                W=draw(st.integers(2, 9)), H=draw(st.integers(2, 9)), seed=draw(gens.seeds), which=draw(st.sampled_from(WHICH + [None])), N=draw(st.integers(1, 20)),
                warp=draw(st.booleans()), oblique=draw(st.one_of(st.none(), fl(10, 80))), pcam=draw(st.booleans()), size=draw(st.sampled_from([.3, .6, 1., 1.5])),
                noise=draw(st.sampled_from([0., .1, .3, 1.])))


def angle(a, b):
    return np.degrees(np.arctan2(ref.mag(np.cross(a, b)), np.sum(a * b, -1)))


@C.facet("synthesize", rigs(), quick=700, thorough=30000, shards=2)
def synthesize(c):
    r = np.random.default_rng(c["seed"])
    I = problem._lens(r, c["m"], c["n"])
    sizes = np.stack((r.integers(900, 1600, c["n"]), r.integers(700, 1200, c["n"])), -1)
    rt = np.concatenate((r.uniform(-.12, .12, (c["n"], 3)), r.uniform(-.4, .4, (c["n"], 3))), -1)
    models = [mrcal.cameramodel(intrinsics=(c["m"], I[i]), imagersize=sizes[i], rt_cam_ref=rt[i]) for i in range(c["n"])]
    W, H = c["W"], c["H"]
    sp = c["size"] / max(W, H)
    warp = r.uniform(-.02, .02, 2) if c["warp"] else None
    rt0 = np.concatenate((r.uniform(-.3, .3, 3), r.uniform(-.2, .2, 2), r.uniform(2.5, 3.5, 1)))
    rad = np.concatenate((r.uniform(0, .8, 3), r.uniform(0, 1., 3))) * c["noise"]
    kw = {}
    if c["which"] is not None:
        kw["which"] = c["which"]
    if c["oblique"] is not None:
        kw["max_oblique_angle_deg"] = c["oblique"]
    pcam = np.zeros(3)
    if c["pcam"]:
        pcam = r.uniform(-.5, .5, 3)
        kw["pcamera_nominal_ref"] = pcam
    which = c["which"] or WHICH[0]
    P = problem.board(W, H, sp, warp)
    center = np.array(((W - 1) * sp / 2, (H - 1) * sp / 2, 0))

    def look(rtc):
        """-> q, ok: of a center-referenced board pose. ok: +1: must be kept; -1: mustn't be; 0: too close to call"""
        p = ref.transform_rt(rtc, P - center)
        q = np.array([ref.project(c["m"], I[i], ref.transform_rt(rt[i], p)) for i in range(c["n"])])

        def vis(m):
            n = ((q >= -m) & (q <= sizes[:, None, None, :] - 1 + m)).all(-1).sum((-1, -2))
            good = n == W * H if "full" in which else n >= W * H / 2
            return (good.all() if which.startswith("all") else good.any()), n
        a, n = vis(1e-6)
        b, _ = vis(-1e-6)
        o = True, True
        if c["oblique"] is not None:
            th = angle(ref.R_from_r(rtc[:3])[:, 2], rtc[3:] - pcam)
            th = min(th, 180 - th)
            o = th < c["oblique"] + 1e-6, th < c["oblique"] - 1e-6
        if a and o[0]:
            # exactly half might be counted either way
            return q, 0 if "half" in which and (n * 2 == W * H).any() else 1 if b and o[1] else 0
        return q, -1

    # is it feasible?
    ok = [look(rt0 + r.uniform(-1, 1, 6) * rad)[1] for i in range(60)]
    if sum(o == 1 for o in ok) < 6:
        reject()
    label(which); label("culling" if -1 in ok else "no culling")
    if -1 not in ok:
        trivial()
    np.random.seed(c["seed"] % 2**32)
    q, Rt = mrcal.synthesize_board_observations(models, object_width_n=W, object_height_n=H, object_spacing=sp, calobject_warp=warp, rt_ref_boardcenter=rt0,
                                                rt_ref_boardcenter__noiseradius=rad, Nframes=c["N"], **kw)
    if q.shape != (c["N"], c["n"], H, W, 2) or Rt.shape != (c["N"], 4, 3):
        raise Violation("synthesize_board_observations(): shapes %s, %s" % (q.shape, Rt.shape))
    rts = []
    for f in range(c["N"]):
        R = Rt[f, :3]
        if not np.allclose(R @ R.T, np.eye(3), atol=1e-9) or np.linalg.det(R) < 0:
            raise Violation("the pose is not a rigid transform: %s" % Rt[f])
        p = ref.transform_Rt(Rt[f], P)
        for i in range(c["n"]):
            e = np.abs(ref.project(c["m"], I[i], ref.transform_rt(rt[i], p)) - q[f, i])
            if not (e < 1e-6 * (1 + np.abs(q[f, i]))).all():
                raise Violation("frame %d, camera %d: the observations aren't those of the board at the returned pose: off by %g pixels" % (f, i, np.nanmax(e)))
        rtc = ref.rt_from_Rt(ref.compose_Rt(Rt[f], np.concatenate((np.eye(3), [center]))))
        rts.append(rtc)
        if not (np.abs(rtc - rt0) <= rad + 1e-6).all():
            raise Violation("the pose of the board center %s is further than %s from %s" % (rtc, rad, rt0))
        if look(rtc)[1] == -1:
            raise Violation("frame %d doesn't satisfy %s, %s" % (f, which, kw))
    if c["N"] > 1 and c["noise"]:
        for k in np.where(rad > 1e-3)[0]:
            if len(set(np.round(np.array(rts)[:, k], 9))) == 1:
                raise Violation("the same pose repeats")
    if c["N"] > 1 and all(look(rt0 + rad * np.where(np.array(b), 1, -1))[1] == 1 for b in np.ndindex(*(2,) * 6)) and all(look(rt0 + 1.5 * r.uniform(-1, 1, 6) * rad)[1] == 1 for _ in range(60)):
        # nothing can be thrown out: then asking for fewer poses yields the first of those
        label("prefix")
        np.random.seed(c["seed"] % 2**32)
        q2, Rt2 = mrcal.synthesize_board_observations(models, object_width_n=W, object_height_n=H, object_spacing=sp, calobject_warp=warp, rt_ref_boardcenter=rt0,
                                                      rt_ref_boardcenter__noiseradius=rad, Nframes=c["N"] - 1, **kw)
        if not np.array_equal(Rt2, Rt[:-1]):
            raise Violation("asking for %d poses doesn't produce the first poses we get when asking for %d" % (c["N"] - 1, c["N"]))
    models_ok = [m.Rt_cam_ref() for m in models]
    for i in range(c["n"]):
        if not np.allclose(models_ok[i], ref.Rt_from_rt(rt[i]), atol=1e-9):
            raise Violation("the models were changed")


@C.facet("synthesize-invalid", st.tuples(st.sampled_from(["", "full", "all-cameras-must-see-full-boards", "ALL-CAMERAS-MUST-SEE-FULL-BOARD"])), quick=4, thorough=4)
def synthesize_invalid(c):
    m = mrcal.cameramodel(intrinsics=("LENSMODEL_PINHOLE", np.array((1000., 1000, 500, 500))), imagersize=(1000, 1000))
    try:
        mrcal.synthesize_board_observations([m], object_width_n=3, object_height_n=3, object_spacing=.1, calobject_warp=None, rt_ref_boardcenter=np.array((0, 0, 0, 0, 0, 4.)),
                                            rt_ref_boardcenter__noiseradius=np.zeros(6), Nframes=1, which=c[0])
    except Exception:
        return
    raise Violation("which=%r is accepted" % c[0])


# ----------------------------------------------------------------------------------------------- problems
def same(a, b):
    return a is b or np.array_equal(np.asarray(a, dtype=object) if not isinstance(a, np.ndarray) else a, b)


def check_kept(oi, was, what, but=()):
    if set(oi) != set(was):
        raise Violation("%s changed the set of inputs: %s" % (what, set(oi) ^ set(was)))
    for k in was:
        if k not in but and not same(oi[k], was[k]):
            raise Violation("%s changed %s" % (what, k))


def build(s):
    oi = problem.make(s)
    if s.get("norefs") and not len(oi.get("rt_cam_ref", ())):
        oi["rt_cam_ref"] = None
    return oi


SPECS = problem.problem_spec(triangulated=True)
OBS = ("observations_board", "observations_point")


@C.facet("perfect", st.tuples(SPECS, st.sampled_from([0, 0, 0., 1e-3, .3, None]), gens.seeds, st.booleans()), quick=900, thorough=40000, shards=2)
def perfect(case):
    """residuals are 0, or exactly the noise that was asked for; everything else stays"""
    s, sigma, seed, norefs = case
    oi = build(dict(s, norefs=norefs))
    n = problem.counts(oi)
    r = np.random.default_rng(seed)
    was0 = problem.copy(oi)
    problem.perturb(oi, r, .3)
    oi["verbose"] = False
    was = problem.copy(oi)
    if n["nob"] + n["nop"] == 0:
        trivial()
        return
    if not problem.layout(oi):
        reject()
    nm = 2 * (oi["observations_board"].shape[1] * oi["observations_board"].shape[2] * n["nob"] if n["nob"] else 0) + 2 * n["nop"]
    if sigma is None:
        xs = problem.x_parts(oi)
        inl = np.concatenate([np.repeat(oi[k][..., 2].ravel() > 0, 2) for k in OBS if oi.get(k) is not None])
        xx = np.concatenate((xs["board"], xs["point"]))[inl]
        ns = len(problem.layout(oi))
        if len(xx) <= ns + 1:
            reject()
        want_sigma = np.sqrt(xx @ xx / (len(xx) - ns))
        label("noise of the solve")
    else:
        want_sigma = sigma
        label("no noise" if not sigma else "noise")
    np.random.seed(seed % 2**32)
    kw = {} if sigma is None else dict(observed_pixel_uncertainty=sigma)
    if mrcal.make_perfect_observations(oi, **kw) is not None:
        raise Violation("make_perfect_observations() returns something")
    check_kept(oi, was, "make_perfect_observations()", OBS)
    z = problem.x_parts(oi)
    if not np.isfinite(np.concatenate((z["board"], z["point"]))).all():
        reject()
    err = []
    for k in OBS:
        if oi.get(k) is None or not oi[k].size:
            continue
        if not np.array_equal(oi[k][..., 2], was[k][..., 2]):
            i = np.argwhere(oi[k][..., 2] != was[k][..., 2])[0]
            raise Violation("make_perfect_observations(observed_pixel_uncertainty=%s) changed the weight of %s%s from %g to %g" % (
                sigma, k, list(i), was[k][..., 2][tuple(i)], oi[k][..., 2][tuple(i)]))
        # the errors, as if all the weights were 1 and then as weighted
        one = problem.copy(oi)
        one[k][..., 2] = 1
        e = problem.x_parts(one)["board" if k == OBS[0] else "point"].reshape(oi[k].shape[:-1] + (2,))
        w = oi[k][..., 2:]
        err.append((e * np.where(w > 0, w, 1)).ravel())
    err = np.concatenate(err)
    if not want_sigma:
        if not (np.abs(err) < 1e-6).all():
            raise Violation("the perfect observations are off by %g pixels" % np.abs(err).max())
        x = mrcal.optimizer_callback(**oi, no_jacobian=True, no_factorization=True)[1]
        m0 = mrcal.num_measurements_boards(**oi) + mrcal.num_measurements_points(**oi)
        if not (np.abs(x[:m0]) < 1e-6).all():
            raise Violation("the optimizer reports an error of %g with perfect observations" % np.abs(x[:m0]).max())
        return
    # weighted noise is N(0,sigma): chi2 test with probability of a false alarm around 1e-12, and nothing is far out
    k = len(err)
    c2 = err @ err / want_sigma**2
    lim = 7.2
    hi = k + lim * np.sqrt(2 * k) + lim**2
    lo = max(0, k - lim * np.sqrt(2 * k))
    if k >= 60 and not lo <= c2 <= hi:
        raise Violation("the noise should be %g but it's %g, in %d measurements" % (want_sigma, np.sqrt(err @ err / k), k))
    if k < 60 and c2 > hi:
        raise Violation("the noise should be %g but it's %g, in %d measurements" % (want_sigma, np.sqrt(err @ err / k), k))
    if not (np.abs(err) < 8 * want_sigma).all() or (err == 0).any():
        raise Violation("the noise should be %g in each measurement; is up to %g" % (want_sigma, np.abs(err).max()))
    if len(set(np.round(err / want_sigma, 7))) < k - 2 - k // 100:
        raise Violation("the noise isn't independent")
    if k >= 60:
        m = err.mean() * np.sqrt(k) / want_sigma
        cor = (err[0::2] @ err[1::2]) / want_sigma**2 / np.sqrt(k / 2)
        if abs(m) > 7.5 or abs(cor) > 7.5 + 3:
            raise Violation("the noise is biased or correlated: %g %g" % (m, cor))


@C.facet("corners", st.tuples(SPECS, gens.seeds, st.booleans(), st.booleans()), quick=900, thorough=40000, shards=2)
def corners(case):
    """hypothesis_board_corner_positions()"""
    s, seed, manual, norefs = case
    oi = build(dict(s, norefs=norefs))
    r = np.random.default_rng(seed)
    problem.perturb(oi, r, .3)
    was = problem.copy(oi)
    n = problem.counts(oi)
    if not n["nob"]:
        trivial()
        if "observations_board" not in oi:
            try:
                mrcal.hypothesis_board_corner_positions(**oi)
            except Exception:
                return
            raise Violation("hypothesis_board_corner_positions() works without any boards")
        return
    ob = oi["observations_board"]
    inl = ob[..., 2] > 0
    kw = {}
    if manual:
        inl = r.integers(0, 2, inl.shape) == 0
        kw["idx_inliers"] = inl.copy()
        label("manual inliers")
    if not problem.layout(oi):
        reject()
    idx = oi["indices_frame_camintrinsics_camextrinsics"]
    H, W = ob.shape[1:3]
    P = problem.board(W, H, oi["calibration_object_spacing"], oi.get("calobject_warp"))
    want = np.array([ref.transform_rt(oi["rt_ref_frame"][f], P) if e < 0 else ref.transform_rt(oi["rt_cam_ref"][e], ref.transform_rt(oi["rt_ref_frame"][f], P)) for f, c, e in idx])
    x = mrcal.optimizer_callback(**oi, no_jacobian=True, no_factorization=True)[1][:ob[..., :2].size].reshape(ob[..., :2].shape)
    for icam in [None] + list(range(n["ncam"])) + [None]:
        got = mrcal.hypothesis_board_corner_positions(icam, **kw, **oi) if icam is not None else mrcal.hypothesis_board_corner_positions(**kw, **oi)
        check_kept(oi, was, "hypothesis_board_corner_positions()")
        sel = np.ones(len(idx), dtype=bool) if icam is None else idx[:, 1] == icam
        m = sel[:, None, None] & np.ones(inl.shape, dtype=bool)
        for g, w, t in zip(got, (want, want[sel], want[inl & m], want[~inl & m]), ("all", "this camera", "inliers", "outliers")):
            if g.shape != w.shape or not np.allclose(g, w, rtol=1e-9, atol=1e-9):
                raise Violation("hypothesis_board_corner_positions(icam_intrinsics=%s%s)%s: %s" % (
                    icam, ", idx_inliers=..." if manual else "", " [%s]" % t, "shape %s, should be %s" % (g.shape, w.shape) if g.shape != w.shape else "off by %g" % np.abs(g - w).max()))
        if len(got) != 4:
            raise Violation("%d things returned" % len(got))
        if manual and not np.array_equal(kw["idx_inliers"], inl):
            raise Violation("hypothesis_board_corner_positions(icam_intrinsics=%s) changed the given idx_inliers" % icam)
        if icam is None:
            for o, (f, c, e) in enumerate(idx):
                q = mrcal.project(got[0][o], oi["lensmodel"], oi["intrinsics"][c])
                w = ob[o, ..., 2:]
                bad = (w > 0) & ~(np.abs((q - ob[o, ..., :2]) * w - x[o]) < 1e-6 * (1 + np.abs(q)))
                if bad.any():
                    raise Violation("the projected corners don't match the observations with the reported residuals")
    if n["ncam"] > 1:
        label("several cameras")


@C.facet("measurements", st.tuples(SPECS, gens.seeds, st.booleans()), quick=900, thorough=40000)
def measurements(case):
    """measurements_board(), measurements_point(): inliers of the camera only, weighted"""
    s, seed, givex = case
    oi = build(s)
    r = np.random.default_rng(seed)
    problem.perturb(oi, r, .3)
    was = problem.copy(oi)
    n = problem.counts(oi)
    z = problem.x_parts(oi)
    if n["nob"] + n["nop"] == 0:
        trivial()
    if not problem.layout(oi):
        reject()
    x = mrcal.optimizer_callback(**oi, no_jacobian=True, no_factorization=True)[1]
    for k, part, f, fold, ik in (("observations_board", "board", mrcal.measurements_board, mrcal.residuals_board, "indices_frame_camintrinsics_camextrinsics"),
                                 ("observations_point", "point", mrcal.measurements_point, mrcal.residuals_point, "indices_point_camintrinsics_camextrinsics")):
        for icam in [None] + list(range(n["ncam"])):
            kw = dict(icam_intrinsics=icam) if icam is not None else {}
            if givex:
                kw["x"] = x
            if oi.get(k) is None or not oi[k].size:
                want, wantq = np.zeros((0, 2)), np.zeros((0, 2))
            else:
                sel = oi[k][..., 2] > 0
                if icam is not None:
                    sel[oi[ik][:, 1] != icam] = False
                want = z[part].reshape(oi[k].shape[:-1] + (2,))[sel]
                wantq = oi[k][sel][..., :2]
            got = f(oi, **kw)
            got2, q = f(oi, return_observations=True, **kw)
            if "x" in kw:
                kw["residuals"] = kw.pop("x")
            got3 = fold(oi, **kw)
            for g in (got, got2, got3):
                if g.shape != want.shape or not np.allclose(g, want, rtol=1e-6, atol=1e-5):
                    raise Violation("measurements_%s(%s): %s" % (part, kw.keys(), "shape %s should be %s" % (g.shape, want.shape) if g.shape != want.shape else "off by %g" % np.abs(g - want).max()))
            if not np.array_equal(q, wantq):
                raise Violation("measurements_%s(return_observations=True) returns the wrong observations" % part)
    check_kept(oi, was, "measurements_...()")


if __name__ == "__main__":
    C.main()
