"""Random optimization problems, and a reference model of their state and measurement vectors.

A spec (JSON-able, drawn by problem_spec()) gives the sizes and options; its seed gives the numbers. make(spec) builds the
arguments of mrcal.optimize(): a scene seen by cameras near the reference origin that look along +z"""
import numpy as np
from hypothesis import strategies as st
import gens
import ref
from gens import fl

FLAGS = ["do_optimize_intrinsics_core", "do_optimize_intrinsics_distortions", "do_optimize_extrinsics", "do_optimize_frames", "do_optimize_calobject_warp"]
MODELS = ["LENSMODEL_PINHOLE", "LENSMODEL_STEREOGRAPHIC", "LENSMODEL_LONLAT", "LENSMODEL_LATLON", "LENSMODEL_CAHVOR", "LENSMODEL_CAHVORE_linearity=0.40",
          "LENSMODEL_OPENCV4", "LENSMODEL_OPENCV5", "LENSMODEL_OPENCV8", "LENSMODEL_OPENCV12", "splined"]


@st.composite
def problem_spec(draw, models=MODELS, triangulated=True, flags=True, outliers=True, maxcam=3):
    m = draw(st.sampled_from(models))
    if m == "splined":
        m = draw(gens.splined_name(maxn=7, fov=(100, 160)))
    s = dict(m=m, seed=draw(gens.seeds))
    kind = draw(st.sampled_from(["stationary", "stationary", "moving", "allext"]))
    s["kind"] = kind
    s["ncam"] = draw(st.integers(1, maxcam))
    s["next"] = draw(st.integers(0, 3)) if kind == "moving" else s["ncam"] - (kind == "stationary")
    s["nframes"] = draw(st.sampled_from([0, 1, 1, 2, 3]))
    s["npoints"] = draw(st.sampled_from([0, 0, 1, 2, 4]))
    tri = draw(st.integers(0, 4)) == 0 if triangulated else False
    s["ntri"] = draw(st.integers(1, 3)) if tri and s["next"] > 0 and "CAHVORE" not in m else 0
    if s["nframes"] + s["npoints"] + s["ntri"] == 0:
        s["nframes"] = 1
    s["W"], s["H"] = draw(st.integers(2, 5)), draw(st.integers(2, 4))
    s["fixed"] = draw(st.integers(0, s["npoints"])) if draw(st.booleans()) else 0
    s["warp"] = draw(st.sampled_from(["none", "zero", "yes", "yes"]))
    s["flags"] = [draw(st.sampled_from([None, True, True, True, False])) if flags else True for _ in FLAGS]
    s["reg"] = draw(st.sampled_from([None, True, False, False]))
    s["unity"] = draw(st.sampled_from([None, False, True]))
    s["weights"] = draw(st.booleans())
    s["out"] = draw(st.sampled_from([0., .1, .4])) if outliers else 0.
    return s


def _lens(r, m, n):
    out = []
    for _ in range(n):
        f = r.uniform(600, 1500)
        c = [f, f * r.uniform(.9, 1.1), r.uniform(400, 900), r.uniform(300, 700)]
        k = []
        if m.startswith("LENSMODEL_OPENCV"):
            sc = np.array([.15, .05, .01, .01, .03, .1, .03, .01, .01, .005, .01, .005])[:int(m[16:])]
            k = r.uniform(-1, 1, len(sc)) * sc
            k[5:8] = np.abs(k[5:8])
        elif m.startswith("LENSMODEL_CAHVORE"):
            k = r.uniform(-1, 1, 8) * (.1, .1, .1, .05, .01, .01, .005, .002)
        elif m == "LENSMODEL_CAHVOR":
            k = r.uniform(-1, 1, 5) * (.1, .1, .1, .05, .01)
        elif ref.parse_splined(m):
            k = r.uniform(-1, 1, ref.num_params(m) - 4) * .15 / ref.splined_segments_per_u(m)
        out.append(np.concatenate((c, k)))
    return np.array(out)


def make(s, noise=.5):
    """-> optimization_inputs. The observations are those of the given state, plus noise"""
    r = np.random.default_rng(s["seed"])
    ncam, next_ = s["ncam"], s["next"]
    oi = dict(lensmodel=s["m"], intrinsics=_lens(r, s["m"], ncam))
    oi["imagersizes"] = np.stack((r.integers(900, 1600, ncam), r.integers(700, 1200, ncam)), -1).astype(np.int32)
    ext = np.concatenate((r.uniform(-.12, .12, (next_, 3)), r.uniform(-.4, .4, (next_, 3))), -1)
    if next_ or r.integers(2):
        oi["rt_cam_ref"] = ext
    pairs = [(c, c - 1) for c in range(ncam)] if s["kind"] == "stationary" else [(c, c) for c in range(ncam)] if s["kind"] == "allext" else \
        [(c, e) for c in range(ncam) for e in range(0 if s.get("noref") else -1, next_)]

    W, H = s["W"], s["H"]
    sp = .6 / max(W, H)
    obs, idx = [], []
    nf = s["nframes"]
    frames = np.zeros((nf, 6))
    warp = None if s["warp"] == "none" else np.zeros(2) if s["warp"] == "zero" else r.uniform(-.02, .02, 2)
    weight = (lambda n: r.uniform(.2, 1.5, n)) if s["weights"] else (lambda n: np.ones(n))
    for f in range(nf):
        frames[f, :3] = r.uniform(-.35, .35, 3)
        frames[f, 3:] = r.uniform(-.7, .3, 3) + (0, 0, 2.5)
        k = len(pairs) if s.get("all") else r.integers(1, len(pairs) + 1)
        # monotonic in both of the indices
        p = [pairs[j] for j in np.sort(r.choice(len(pairs), k, replace=False))]
        c_, e_ = sorted(a for a, b in p), sorted(b for a, b in p)
        p = list(zip(c_, e_)) if s["kind"] == "moving" else p
        for c, e in p:
            idx.append((f, c, e))
    if nf:
        oi["rt_ref_frame"] = frames
        oi["calibration_object_spacing"] = sp
        oi["indices_frame_camintrinsics_camextrinsics"] = np.array(idx, dtype=np.int32)
        ob = np.zeros((len(idx), H, W, 3))
        for o, (f, c, e) in enumerate(idx):
            p = ref.transform_rt(frames[f], board(W, H, sp, warp))
            ob[o, ..., :2] = ref.project(s["m"], oi["intrinsics"][c], p if e < 0 else ref.transform_rt(ext[e], p))
        ob[..., :2] += r.normal(0, 1, ob[..., :2].shape) * noise
        ob[..., 2] = weight(ob[..., 2].size).reshape(ob[..., 2].shape)
        ob[..., 2] *= np.where(r.random(ob[..., 2].shape) < s["out"], -1, 1)
        oi["observations_board"] = ob
    elif r.integers(2):
        oi["rt_ref_frame"] = np.zeros((0, 6))
    if warp is not None:
        oi["calobject_warp"] = warp
    npt = s["npoints"]
    if npt:
        oi["points"] = np.concatenate((r.uniform(-1, 1, (npt, 2)), r.uniform(2, 5, (npt, 1))), -1)
        idx = []
        for i in range(npt):
            for j in r.choice(len(pairs), min(len(pairs), 4 if s.get("all") else r.integers(1, 4)), replace=False):
                idx.append((i,) + pairs[j])
        if r.integers(2):      # points may appear in any order after their first observation
            first = {}
            rest = []
            for t in idx:
                first.setdefault(t[0], t) is t or rest.append(t)
            idx = [first[i] for i in range(npt)] + [rest[j] for j in r.permutation(len(rest))]
        oi["indices_point_camintrinsics_camextrinsics"] = np.array(idx, dtype=np.int32)
        op = np.zeros((len(idx), 3))
        for o, (i, c, e) in enumerate(idx):
            p = oi["points"][i]
            op[o, :2] = ref.project(s["m"], oi["intrinsics"][c], p if e < 0 else ref.transform_rt(ext[e], p))
        op[:, :2] += r.normal(0, 1, (len(idx), 2)) * noise
        op[:, 2] = weight(len(idx)) * np.where(r.random(len(idx)) < s["out"], -1, 1)
        oi["observations_point"] = op
        if s["fixed"]:
            oi["Npoints_fixed"] = s["fixed"]
    if s["ntri"]:
        idx, op = [], []
        poses = sorted(set(e for c, e in pairs))
        for i in range(s["ntri"]):
            p = np.array((*r.uniform(-1, 1, 2), r.uniform(2, 6)))
            for e in r.permutation(poses)[:r.integers(2, 4)] if len(poses) >= 2 else []:
                c = [cc for cc, ee in pairs if ee == e]
                c = c[r.integers(len(c))]
                q = ref.project(s["m"], oi["intrinsics"][c], p if e < 0 else ref.transform_rt(ext[e], p))
                idx.append((i, c, e))
                op.append((*(q + r.normal(0, 1, 2) * noise * 3), -1 if r.random() < s["out"] else 1))
        if idx:
            oi["indices_point_triangulated_camintrinsics_camextrinsics"] = np.array(idx, dtype=np.int32)
            oi["observations_point_triangulated"] = np.array(op)
    for k, v in zip(FLAGS, s["flags"]):
        if v is not None:
            oi[k] = v
    if s["ntri"]:
        oi["do_optimize_intrinsics_core"] = oi["do_optimize_intrinsics_distortions"] = False
        oi["do_optimize_extrinsics"] = True
    if warp is None and nf:
        oi["do_optimize_calobject_warp"] = False
    if s["reg"] is not None:
        oi["do_apply_regularization"] = s["reg"]
    if s["unity"] is not None:
        oi["do_apply_regularization_unity_cam01"] = s["unity"]
    return oi


def copy(oi):
    return {k: v.copy() if isinstance(v, np.ndarray) else v for k, v in oi.items()}


def perturb(oi, r, scale):
    """Moves the state away from the truth, in place"""
    for k, sc in (("intrinsics", (20, 20, 10, 10)), ("rt_cam_ref", (.02,) * 6), ("rt_ref_frame", (.05,) * 6), ("points", (.05,) * 3), ("calobject_warp", (.005,) * 2)):
        a = oi.get(k)
        if a is None or not a.size:
            continue
        w = np.zeros(a.shape[-1])
        w[:len(sc)] = sc
        if k == "intrinsics":
            w[4:] = .002
        a += r.uniform(-1, 1, a.shape) * w * scale
    return oi


def board(W, H, sp, warp):
    x, y = np.meshgrid(np.arange(W), np.arange(H))
    z = np.zeros((H, W))
    if warp is not None:
        xr, yr = x / (W - 1.), y / (H - 1.)
        z = warp[0] * 4 * xr * (1 - xr) + warp[1] * 4 * yr * (1 - yr)
    return np.stack((x * sp, y * sp, z), -1)


# ------------------------------------------------------------------------------------ the reference model
def selections(oi):
    """The flags with their defaults"""
    return {k: bool(oi.get(k, True)) for k in FLAGS}


def counts(oi):
    n = lambda k: len(oi[k]) if oi.get(k) is not None else 0
    return dict(ncam=n("intrinsics"), next=n("rt_cam_ref"), nframes=n("rt_ref_frame"), npoints=n("points"), nvar=n("points") - (oi.get("Npoints_fixed") or 0),
                nob=n("observations_board"), nop=n("observations_point"), not_=n("observations_point_triangulated"))


SC = dict(f=500., c=20., k=1., rc=.1 * np.pi / 180, tc=1., rf=15 * np.pi / 180, tf=1., pt=1., warp=.01)


def layout(oi):
    """-> list of (array name, flat index in it, scale) in the order of the state vector"""
    s, n = selections(oi), counts(oi)
    out = []
    np_ = ref.num_params(oi["lensmodel"])
    for c in range(n["ncam"]):
        for j in range(np_):
            if j < 4 and s["do_optimize_intrinsics_core"] or j >= 4 and s["do_optimize_intrinsics_distortions"]:
                out.append(("intrinsics", c * np_ + j, SC["f"] if j < 2 else SC["c"] if j < 4 else SC["k"]))
    if s["do_optimize_extrinsics"]:
        out += [("rt_cam_ref", i, SC["rc"] if i % 6 < 3 else SC["tc"]) for i in range(6 * n["next"])]
    if s["do_optimize_frames"]:
        out += [("rt_ref_frame", i, SC["rf"] if i % 6 < 3 else SC["tf"]) for i in range(6 * n["nframes"])]
        out += [("points", i, SC["pt"]) for i in range(3 * n["nvar"])]
    if s["do_optimize_calobject_warp"] and n["nob"]:
        out += [("calobject_warp", i, SC["warp"]) for i in range(2)]
    return out


def state(oi):
    """the unpacked state vector"""
    return np.array([oi[a].ravel()[i] for a, i, _ in layout(oi)])


def set_state(oi, b):
    """-> a copy with the unpacked state"""
    oi = copy(oi)
    for (a, i, _), x in zip(layout(oi), b):
        oi[a].reshape(-1)[i] = x
    return oi


def triangulation_vectors(oi):
    """The rays of the triangulated observations: they are computed once, from the intrinsics that cannot change"""
    import mrcal
    op = oi["observations_point_triangulated"]
    return [mrcal.unproject(op[o, :2], oi["lensmodel"], oi["intrinsics"][c]) for o, (i, c, e) in enumerate(oi["indices_point_triangulated_camintrinsics_camextrinsics"])]


def tri_pairs(oi):
    idx = oi["indices_point_triangulated_camintrinsics_camextrinsics"]
    out = []
    a = 0
    while a < len(idx):
        b = a
        while b < len(idx) and idx[b, 0] == idx[a, 0]:
            b += 1
        out += [(i, j) for i in range(a, b) for j in range(i + 1, b)]
        a = b
    return out


def tri_error(v0, v1, t01):
    """twice the angle between v0 and the Lee-Civera mid2 point. -> (error, is the geometry convergent)"""
    v0, v1 = v0 / ref.mag(v0), v1 / ref.mag(v1)
    p = ref.mag(np.cross(v0, v1))
    l0, l1 = ref.mag(np.cross(v1, t01)) / p, ref.mag(np.cross(v0, t01)) / p
    a, b = l0 * v0, t01 + l1 * v1
    m = (a + b) / 2
    best = ref.mag(b - a)
    ok = all(best < ref.mag(s1 * l1 * v1 + t01 - s0 * l0 * v0) for s0, s1 in ((1, -1), (-1, 1), (-1, -1)))
    m = m / ref.mag(m)
    return 2 * ref.mag(m - v0), ok      # 2-2cos(th) = |m-v0|^2


def x_parts(oi):
    """-> dict(board, point, tri, reg), flat. The reference model of the measurement vector. Weights are applied"""
    import mrcal
    s, n = selections(oi), counts(oi)
    m, I = oi["lensmodel"], oi["intrinsics"]

    def cam(e, p):
        return p if e < 0 else ref.transform_rt(oi["rt_cam_ref"][e], p)
    out = dict(board=np.zeros(0), point=np.zeros(0), tri=np.zeros(0))
    if n["nob"]:
        ob = oi["observations_board"]
        H, W = ob.shape[1:3]
        P = board(W, H, oi["calibration_object_spacing"], oi.get("calobject_warp"))
        x = np.zeros(ob.shape[:-1] + (2,))
        for o, (f, c, e) in enumerate(oi["indices_frame_camintrinsics_camextrinsics"]):
            x[o] = ref.project(m, I[c], cam(e, ref.transform_rt(oi["rt_ref_frame"][f], P))) - ob[o, ..., :2]
        out["board"] = (x * np.maximum(ob[..., 2:], 0)).ravel()
    if n["nop"]:
        op = oi["observations_point"]
        x = np.array([ref.project(m, I[c], cam(e, oi["points"][i])) - op[o, :2] for o, (i, c, e) in enumerate(oi["indices_point_camintrinsics_camextrinsics"])])
        out["point"] = (x * np.maximum(op[:, 2:], 0)).ravel()
    if n["not_"]:
        v = triangulation_vectors(oi)
        idx = oi["indices_point_triangulated_camintrinsics_camextrinsics"]
        op = oi["observations_point_triangulated"]
        x = []
        for a, b in tri_pairs(oi):
            if op[a, 2] <= 0 or op[b, 2] <= 0:
                x.append(0.)
                continue
            rt = [np.zeros(6) if idx[j, 2] < 0 else oi["rt_cam_ref"][idx[j, 2]] for j in (a, b)]
            Rt10 = ref.compose_Rt(ref.Rt_from_rt(rt[1]), ref.invert_Rt(ref.Rt_from_rt(rt[0])))
            # in the coordinates of the camera b
            e, ok = tri_error(v[b], Rt10[:3] @ v[a], Rt10[3])
            x.append(e if ok else np.nan)
        out["tri"] = np.array(x)
    reg = []
    sp = ref.parse_splined(m)
    if oi.get("do_apply_regularization", True):
        if s["do_optimize_intrinsics_distortions"]:
            for c in range(n["ncam"]):
                k = I[c, 4:]
                if sp:
                    _, Nx, Ny, _ = sp
                    for iy in range(Ny):
                        for ix in range(Nx):
                            d = k[2 * (iy * Nx + ix):][:2]
                            u = np.array((ix - (Nx - 1) / 2., iy - (Ny - 1) / 2.))
                            if not u.any():
                                u, g = np.array((1., 0)), 1.
                            else:
                                u, g = u / ref.mag(u), 10.
                            reg += [.01 * (d @ u), .01 * g * (d[0] * u[1] - d[1] * u[0])]
                else:
                    for j, v in enumerate(k):
                        reg.append(v * .1 * (5 if m in ("LENSMODEL_OPENCV8", "LENSMODEL_OPENCV12") and 5 <= j <= 7 else 1))
        if s["do_optimize_intrinsics_core"]:
            for c in range(n["ncam"]):
                sc = .1 / (.1 * oi["imagersizes"][0, 0])
                reg += list(sc * (I[c, 2:4] - (oi["imagersizes"][c] - 1) / 2.))
    if oi.get("do_apply_regularization_unity_cam01", False) and s["do_optimize_extrinsics"] and n["next"]:
        t = oi["rt_cam_ref"][0, 3:]
        reg.append(10. * (t @ t - 1))
    out["reg"] = np.array(reg)
    return out


def x(oi):
    p = x_parts(oi)
    return np.concatenate([p[k] for k in ("board", "point", "tri", "reg")])


# ------------------------------------------------------------------------------------ well-posed problems
@st.composite
def wellposed_spec(draw, triangulated=False, outliers=False, kinds=("stationary", "stationary", "moving", "allext"), boards=False):
    """Problems with enough data to solve them"""
    m = draw(st.sampled_from(["LENSMODEL_PINHOLE", "LENSMODEL_STEREOGRAPHIC", "LENSMODEL_OPENCV4", "LENSMODEL_OPENCV5", "LENSMODEL_OPENCV8", "LENSMODEL_CAHVOR",
                              "LENSMODEL_LONLAT", "LENSMODEL_LATLON", "splined"]))
    if m == "splined":
        m = "LENSMODEL_SPLINED_STEREOGRAPHIC_order=%d_Nx=%d_Ny=%d_fov_x_deg=%d" % (draw(st.integers(2, 3)), draw(st.integers(5, 6)), draw(st.integers(4, 5)), draw(st.integers(100, 140)))
    s = dict(m=m, seed=draw(gens.seeds), kind=draw(st.sampled_from(kinds)))
    s["ncam"] = draw(st.integers(1, 3))
    s["next"] = draw(st.integers(1, 2)) if s["kind"] == "moving" else s["ncam"] - (s["kind"] == "stationary")
    s["nframes"] = draw(st.integers(3, 6)) if boards else draw(st.sampled_from([0, 3, 4, 5, 6]))
    s["npoints"] = draw(st.integers(0, 6)) if s["nframes"] else draw(st.integers(8, 20))
    s["ntri"] = draw(st.integers(1, 10)) if triangulated and s["next"] > 0 and draw(st.integers(0, 3)) == 0 else 0
    s["W"], s["H"] = draw(st.integers(5, 8)), draw(st.integers(4, 6))
    s["fixed"] = draw(st.integers(0, s["npoints"]))
    s["warp"] = draw(st.sampled_from(["none", "yes"]))
    s["flags"] = [draw(st.sampled_from([None, True, True, False])) for _ in FLAGS]
    s["reg"] = draw(st.sampled_from([None, True, False, False])) if not ref.parse_splined(m) else True
    s["unity"] = draw(st.sampled_from([None, False, True]))
    s["weights"] = draw(st.booleans())
    s["out"] = draw(st.sampled_from([0., .05])) if outliers else 0.
    s["all"] = True
    return s


def condition(oi):
    """The condition number of the column-scaled Jacobian. inf if not overdetermined"""
    import mrcal
    b, x, J, F = mrcal.optimizer_callback(no_factorization=True, **oi)
    if len(x) <= len(b):
        return np.inf
    J = J.toarray()
    d = np.sqrt((J * J).sum(0))
    if np.any(d == 0) or not np.all(np.isfinite(J)):
        return np.inf
    return np.linalg.cond(J / d)


def decrement(oi):
    """-> the cost, and by how much a Gauss-Newton step promises to reduce it"""
    import mrcal
    b, x, J, F = mrcal.optimizer_callback(no_factorization=True, **oi)
    J = J.toarray()
    d = np.sqrt((J * J).sum(0))
    U = np.linalg.qr(J / np.where(d > 0, d, 1))[0]
    return x @ x, ((U.T @ x)**2).sum()


def iterations(oi):
    """How many iterations does mrcal.optimize(**oi) take? (slow). oi is modified"""
    import mrcal, os, re, tempfile
    with tempfile.TemporaryFile() as f:
        keep = [os.dup(1), os.dup(2)]
        try:
            for i in (1, 2):
                os.dup2(f.fileno(), i)
            mrcal.optimize(**dict(oi, verbose=True))
        finally:
            for i, k in zip((1, 2), keep):
                os.dup2(k, i)
                os.close(k)
        f.seek(0)
        return max([int(l.split()[0]) for l in f if re.match(rb"\d+ [01] [-\d.]+ [-\d.]+ ", l)] + [0])
