#!/usr/bin/python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Violation, label, trivial, reject, note
pbt.build_and_import()
import contextlib, copy as copy_, io, resource, warnings
import numpy as np
from hypothesis import strategies as st
import mrcal
import ref, gens, problem
from gens import fl

C = pbt.Check("C33", "malformed problems are rejected",
              "Cases: a random valid problem (see C09) with exactly one thing made wrong, from a list of malformations: an index out of range, out of order or not covering; "
              "inconsistent lengths; a wrong shape, type or memory layout; a missing or contradicting argument; then handed to a function. The oracle: the unmodified problem is accepted; the malformed "
              "one raises an ordinary exception, no array is modified, the process survives, and the unmodified problem gives afterwards bit for bit what it gave before. Non-trivial: the malformation changed the problem.")

T = {"board": ("indices_frame_camintrinsics_camextrinsics", "observations_board"), "point": ("indices_point_camintrinsics_camextrinsics", "observations_point"),
     "tri": ("indices_point_triangulated_camintrinsics_camextrinsics", "observations_point_triangulated")}
ARRAYS = ["intrinsics", "imagersizes", "rt_cam_ref", "rt_ref_frame", "points", "calobject_warp"] + [k for t in T.values() for k in t]
WRONG = ["index", "order", "gap", "uncovered", "length", "columns", "ndim", "dtype", "type", "list", "strided", "absent", "lensmodel", "params", "spacing", "fixed", "unknown", "positional"]


def quiet_stderr():
    os.dup2(os.open("/dev/null", os.O_WRONLY), 2)


def break_it(oi, what, r):
    """Makes one thing wrong, in place -> a description, or None if this doesn't apply to this problem"""
    n, ne, nf, npt = len(oi["intrinsics"]), len(oi.get("rt_cam_ref", ())), len(oi.get("rt_ref_frame", ())), len(oi.get("points", ()))
    have = [k for k in ARRAYS if isinstance(oi.get(k), np.ndarray) and oi[k].size]
    tables = [t for t in T if T[t][0] in have]

    def pick(l):
        return l[r.integers(len(l))] if len(l) else None
    t = pick(tables)
    a = oi[T[t][0]] if t else None
    k = pick(have)
    if what == "index":
        if t is None:
            return
        i, j = r.integers(len(a)), r.integers(3)
        N = ((nf, npt, None)["board point tri".split().index(t)], n, ne)[j]
        bad = [-2, -2**31, 2**31 - 1] + ([-1] if j < 2 else []) + ([N, N + 1, N + 1000] if N is not None else [])
        old = a[i, j]
        a[i, j] = pick(bad)
        return "%s[%d,%d] is %d" % (T[t][0], i, j, a[i, j])
    if what == "order":
        # boards: the frames in order, the cameras in order in each
        if t == "board" and len(a) >= 2:
            i = r.integers(len(a) - 1)
            if (a[i] == a[i + 1]).all():
                return
            oi[T[t][0]] = a = np.ascontiguousarray(np.concatenate((a[:i], a[i + 1:i + 2], a[i:i + 1], a[i + 2:])))
            b = a[[i, i + 1]]
            if b[0, 0] == b[1, 0] and not (b[0, 1] > b[1, 1] or b[0, 2] > b[1, 2]):
                return
            return "the rows %d,%d of %s are swapped" % (i, i + 1, T[t][0])
        if t == "tri" and len(np.unique(a[:, 0])) >= 2:
            oi[T[t][0]] = np.ascontiguousarray(a[::-1])
            return "the triangulated points are backwards"
        return
    if what == "gap":
        if t is None:
            return
        i = r.integers(len(a))
        a[a[:, 0] >= a[i, 0], 0] += 1
        if t == "board":
            oi["rt_ref_frame"] = np.concatenate((oi["rt_ref_frame"], np.zeros((1, 6)) + (0, 0, 0, 0, 0, 1.)))
        elif t == "point":
            oi["points"] = np.concatenate((oi["points"], [(0, 0, 3.)]))
        return "a gap in the first column of %s" % T[t][0]
    if what == "uncovered":
        if t == "board":
            oi["rt_ref_frame"] = np.concatenate((oi["rt_ref_frame"], np.zeros((1, 6)) + (0, 0, 0, 0, 0, 1.)))
        elif t == "point":
            oi["points"] = np.concatenate((oi["points"], [(0, 0, 3.)]))
        elif t == "tri":
            m = pick(np.unique(a[:, 0]))
            w = np.nonzero(a[:, 0] == m)[0][1:]
            for q in T[t]:
                oi[q] = np.ascontiguousarray(np.delete(oi[q], w, axis=0))
            return "triangulated point %d is observed once" % m
        else:
            return
        return "a %s without observations" % t
    if what == "length":
        k = pick([q for q in have if q in ("imagersizes", "intrinsics") or q in sum(T.values(), ())])
        m = len(oi[k])
        n2 = pick([m - 1, m + 1, 0, 2 * m])
        oi[k] = np.ascontiguousarray(oi[k][np.arange(n2) % m])
        if n2 == 0 and k in ("imagersizes", "intrinsics"):
            pass
        return "%s has %d rows, not %d" % (k, n2, m)
    if what == "columns":
        w = oi[k].shape[-1]
        n2 = pick([w - 1, w + 1, 0, 2 * w])
        oi[k] = np.ascontiguousarray(oi[k][..., np.arange(n2) % w])
        return "%s has %d columns, not %d" % (k, n2, w)
    if what == "ndim":
        oi[k] = pick([oi[k][None], oi[k].ravel() if oi[k].ndim > 1 else oi[k][0], oi[k][..., None], oi[k][0] if oi[k].ndim > 1 else oi[k][:, None]])
        if not isinstance(oi[k], np.ndarray):
            oi[k] = np.array(oi[k])
        return "%s has shape %s" % (k, oi[k].shape)
    if what == "dtype":
        d = oi[k].dtype
        d2 = pick([x for x in ("f4", "f8", "i4", "i8", "u4", "O", "c16", "S8", "i2", ">f8", ">i4") if np.dtype(x) != d])
        oi[k] = oi[k].astype(d2)
        return "%s is of type %s" % (k, oi[k].dtype)
    if what == "type":
        v = pick([5, "x", b"", [[[[[1]]]]], {}, object(), (1,), 1.5])
        oi[k] = v
        return "%s is %r" % (k, v)
    if what == "list":
        oi[k] = oi[k].tolist()
        return "%s is a list" % k
    if what == "strided":
        x = oi[k]
        oi[k] = pick([np.repeat(x, 2, axis=-1)[..., ::2], np.repeat(x, 2, axis=0)[::2], np.ascontiguousarray(x[::-1])[::-1], np.asfortranarray(x)])
        if oi[k].flags.c_contiguous:
            return
        return "%s isn't contiguous" % k
    if what == "absent":
        q = [x for x in have if x not in ("rt_cam_ref", "calobject_warp")] + ["lensmodel"]
        if t == "board" and oi.get("calobject_warp") is not None and oi.get("do_optimize_calobject_warp"):
            q.append("calobject_warp")
        if any((oi[T[x][0]][:, 2] >= 0).any() for x in tables):
            q.append("rt_cam_ref")
        k = pick(q)
        if r.integers(2):
            oi[k] = None
        else:
            del oi[k]
        return "%s is absent" % k
    if what == "lensmodel":
        oi["lensmodel"] = pick(["", "PINHOLE", "LENSMODEL_PINHOLE_", "LENSMODEL_OPENCV6", "LENSMODEL_CAHVORE", "LENSMODEL_SPLINED_STEREOGRAPHIC", "LENSMODEL_CAHVORE_linearity=", 5, b"LENSMODEL_PINHOLE", None, "LENSMODEL_\xe9",
                                "LENSMODEL_PINHOLE\0", "LENSMODEL_SPLINED_STEREOGRAPHIC_order=4_Nx=5_Ny=5_fov_x_deg=100", "x" * 10000])
        return "lensmodel is %.100r" % (oi["lensmodel"],)
    if what == "params":
        m = pick(["LENSMODEL_PINHOLE", "LENSMODEL_OPENCV4", "LENSMODEL_OPENCV12", "LENSMODEL_CAHVOR", "LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=4_Ny=5_fov_x_deg=100"])
        if ref.num_params(m) == oi["intrinsics"].shape[1]:
            return
        oi["lensmodel"] = m
        return "%s with %d parameters" % (m, oi["intrinsics"].shape[1])
    if what == "spacing":
        if "board" not in tables:
            return
        v = pick([0., -1., -.001, float("nan"), None, "x"])
        if v is None:
            del oi["calibration_object_spacing"]
        else:
            oi["calibration_object_spacing"] = v
        return "calibration_object_spacing is %s" % v
    if what == "fixed":
        v = pick([-1, -5, -2**31, npt + 1, npt + 100, 2**31 - 1, 2**31, 1.5, "x"])
        oi["Npoints_fixed"] = v
        return "Npoints_fixed is %s, with %d points" % (v, npt)
    if what == "unknown":
        q = pick(["observations", "Npoint_fixed", "do_optimize", "camera", "rt_ref_cam"])
        oi[q] = 1
        return "there is an argument %s" % q
    if what == "positional":
        return "a positional argument too many"


def evaluate(oi):
    x = mrcal.optimizer_callback(no_factorization=True, **oi)
    return [x[0].tobytes(), x[1].tobytes(), x[2].data.tobytes(), x[2].indices.tobytes()]


def snapshot(oi):
    return {k: (v.dtype, v.shape, v.tobytes() if v.dtype != object else str(v.tolist())) for k, v in oi.items() if isinstance(v, np.ndarray)}


FUNCS = {"optimize": lambda oi: dict(), "optimizer_callback": lambda oi: dict(), "callback nothing": lambda oi: dict(no_jacobian=True, no_factorization=True),
         "callback all": lambda oi: dict(no_jacobian=False, no_factorization=False)}


@C.facet("problem", st.fixed_dictionaries(dict(s=problem.problem_spec(), what=st.sampled_from(WRONG), f=st.sampled_from(sorted(FUNCS)), seed=gens.seeds)), quick=3000, thorough=150000, shards=3)
def problem_(c):
    quiet_stderr()
    oi = problem.make(c["s"])
    if not problem.layout(oi):
        reject()
    before = evaluate(oi)
    bad = problem.copy(oi)
    r = np.random.default_rng(c["seed"])
    w = break_it(bad, c["what"], r)
    if w is None:
        trivial()
        return
    label(c["what"])
    f = mrcal.optimize if c["f"] == "optimize" else mrcal.optimizer_callback
    S = snapshot(bad)
    if c["what"] == "list":
        # array-like things may be taken, if they're taken right
        try:
            x = evaluate(bad)
        except Exception:
            return
        if x != before:
            raise Violation("%s: the problem isn't that of the same array" % w)
        return
    try:
        args = (1,) * 100 if c["what"] == "positional" else ()
        f(*args, **bad, **FUNCS[c["f"]](oi))
    except SystemError as e:
        raise Violation("%s: %s() fails with %r" % (w, c["f"], e))
    except Exception as e:
        if not str(e):
            raise Violation("%s: %s() fails without saying why: %r" % (w, c["f"], e))
    else:
        raise Violation("%s: %s() accepts this" % (w, c["f"]))
    if snapshot(bad) != S:
        raise Violation("%s: %s() fails, but modifies its arguments" % (w, c["f"]))
    if evaluate(oi) != before:
        raise Violation("%s: after %s() a valid problem gives something else" % (w, c["f"]))


@C.facet("bounds", st.fixed_dictionaries(dict(s=problem.problem_spec(), f=st.sampled_from(["optimize", "callback nothing", "callback nothing", "callback all"]), seed=gens.seeds)), quick=2000, thorough=30000, shards=2)
def bounds_(c):
    """every bound of one problem, exactly at and just past it"""
    quiet_stderr()
    oi = problem.make(c["s"])
    if not problem.layout(oi):
        reject()
    f = mrcal.optimize if c["f"] == "optimize" else mrcal.optimizer_callback
    r = np.random.default_rng(c["seed"])
    n, ne, nf, npt = len(oi["intrinsics"]), len(oi.get("rt_cam_ref", ())), len(oi.get("rt_ref_frame", ())), len(oi.get("points", ()))
    have = [k for k in ARRAYS if isinstance(oi.get(k), np.ndarray) and oi[k].size]
    bad = []
    for t in T:
        q = T[t][0]
        if q not in have:
            continue
        for i in sorted({0, len(oi[q]) - 1, int(r.integers(len(oi[q])))}):
            for j in range(3):
                N = (dict(board=nf, point=npt).get(t), n, ne)[j]
                for v in ([-1] if j < 2 else []) + [-2] + ([N, N + 1] if N is not None else []):
                    a = oi[q].copy()
                    a[i, j] = v
                    bad.append(("%s[%d,%d] is %d" % (q, i, j, v), {q: a}))
        if t == "board":
            a = oi[q]
            for i in range(len(a) - 1):
                if a[i, 0] != a[i + 1, 0] or a[i, 1] < a[i + 1, 1] or a[i, 2] < a[i + 1, 2]:
                    b = a.copy()
                    b[[i, i + 1]] = a[[i + 1, i]]
                    bad.append(("the rows %d,%d of %s are swapped" % (i, i + 1, q), {q: b}))
    for k in have:
        a = oi[k]
        if k in ("imagersizes", "intrinsics") or k in sum(T.values(), ()):
            for m in (len(a) - 1, len(a) + 1):
                if m or k not in ("imagersizes", "intrinsics"):
                    bad.append(("%s has %d rows, not %d" % (k, m, len(a)), {k: np.ascontiguousarray(a[np.arange(m) % len(a)])}))
        for m in (a.shape[-1] - 1, a.shape[-1] + 1):
            bad.append(("%s has %d columns, not %d" % (k, m, a.shape[-1]), {k: np.ascontiguousarray(a[..., np.arange(m) % a.shape[-1]])}))
    for v in (-1, npt + 1):
        bad.append(("Npoints_fixed is %d, with %d points" % (v, npt), dict(Npoints_fixed=v)))
    if c["f"] == "callback all":
        bad = [bad[i] for i in r.permutation(len(bad))[:15]]
    S = snapshot(oi)
    for w, d in bad:
        try:
            f(**{**oi, **d}, **FUNCS[c["f"]](oi))
        except SystemError as e:
            raise Violation("%s: %s() fails with %r" % (w, c["f"], e))
        except Exception as e:
            if not str(e):
                raise Violation("%s: %s() fails without saying why: %r" % (w, c["f"], e))
        else:
            raise Violation("%s: %s() accepts this" % (w, c["f"]))
    if snapshot(oi) != S:
        raise Violation("%s(): its arguments were modified" % c["f"])
    f(**oi, **FUNCS[c["f"]](oi)) if c["f"] != "optimize" else None
    label(c["f"])


# ---------------------------------------------------------------- the other functions that take a problem

def sizes(oi):
    o = dict(Ncameras_intrinsics=len(oi["intrinsics"]), Ncameras_extrinsics=len(oi.get("rt_cam_ref", ())), Nframes=len(oi.get("rt_ref_frame", ())), Npoints=len(oi.get("points", ())),
             Nobservations_board=len(oi.get("observations_board", ())), Nobservations_point=len(oi.get("observations_point", ())))
    return o


SIMPLE = ["num_states", "num_states_intrinsics", "num_states_extrinsics", "num_states_frames", "num_states_points", "num_states_calobject_warp", "num_intrinsics_optimization_params",
          "num_measurements", "num_measurements_boards", "num_measurements_points", "num_measurements_points_triangulated", "num_measurements_regularization", "measurement_index_regularization",
          "state_index_calobject_warp"]
INDEXED = ["state_index_intrinsics", "state_index_extrinsics", "state_index_frames", "state_index_points", "measurement_index_boards", "measurement_index_points", "measurement_index_points_triangulated",
           "corresponding_icam_extrinsics", "decode_observation_indices_points_triangulated"]


@C.facet("layout", st.fixed_dictionaries(dict(s=problem.problem_spec(), what=st.sampled_from(["columns", "ndim", "dtype", "type", "strided", "lensmodel", "unknown", "positional", "index", "rows", "none", "none", "lensmodel absent"]),
                                              f=st.sampled_from(SIMPLE + INDEXED + ["corresponding_icam_extrinsics"] * 10 + ["pack_state", "unpack_state"]), how=st.sampled_from(["arrays", "sizes"]), i=st.sampled_from([0, 0, 0, 1, "none", "float", "str", "huge"]), seed=gens.seeds)),
         quick=2500, thorough=100000)
def layout(c):
    quiet_stderr()
    oi = problem.make(c["s"])
    r = np.random.default_rng(c["seed"])
    f = getattr(mrcal, c["f"])
    n = len(problem.layout(oi))
    if c["f"] in INDEXED:
        args = (c["i"],) if isinstance(c["i"], int) else ({"none": None, "float": 1.5, "str": "1", "huge": 2**31}[c["i"]],)
    elif c["f"] in SIMPLE:
        args = ()
    else:
        args = (r.normal(size=n),)
    bad = problem.copy(oi)
    w, must = None, True
    if c["what"] == "rows":
        # fewer rows than the given size
        t = [k for k in T if k != "tri" and T[k][0] in oi]
        k = t[r.integers(len(t))] if t else None
        if k is None:
            trivial()
            return
        bad.update({q: v for q, v in sizes(oi).items()})
        bad["Nobservations_" + k] += int(r.integers(1, 1000))
        w, must = "%d observations, with %d rows in the table" % (bad["Nobservations_" + k], len(oi[T[k][0]])), c["f"] == "corresponding_icam_extrinsics"
    elif c["what"] == "index":
        w = break_it(bad, "index", r)
        must = c["f"] == "corresponding_icam_extrinsics" and T["tri"][0] not in (w or "") and not (w or "").startswith(tuple("%s[%d,0]" % (q[0], j) for q in T.values() for j in range(1000)))
        if must:
            # any negative index of the extrinsics is the reference
            must = not any((bad[q[0]][:, 2] < -1).any() for q in T.values() if q[0] in bad)
    elif c["what"] == "none":
        k = [q for q in ARRAYS if q in bad]
        k = k[r.integers(len(k))]
        bad[k] = None
        without = {q: v for q, v in bad.items() if q != k}
        if c["how"] == "sizes":
            bad.update(sizes(oi))
            without.update(sizes(oi))
        label("none")

        def out(kw):
            try:
                with np.errstate(all="ignore"):
                    o = f(*copy_.deepcopy(args), **kw)
                return repr(o)
            except SystemError as e:
                raise Violation("%s=None: %s() fails with %r" % (k, c["f"], e))
            except Exception as e:
                return "an error"
        o = out(bad), out(without)
        if o[0] != o[1]:
            raise Violation("%s() with %s=None: %s; without it: %s" % (c["f"], k, o[0], o[1]))
        return
    elif c["what"] == "lensmodel absent":
        w = "there's no lensmodel"
        del bad["lensmodel"]
        must = False
    elif not isinstance(c["i"], int) and c["f"] in INDEXED:
        w = "the index is %r" % args
        must = c["f"] != "decode_observation_indices_points_triangulated" or c["i"] != "huge"
    else:
        w = break_it(bad, c["what"], r)
        if c["what"] == "type" and w:
            must = not w.startswith("imagersizes")
        # not all of them need the lens model
        if c["what"] == "lensmodel":
            must = not isinstance(bad["lensmodel"], str) or "\0" in bad["lensmodel"]
            if bad["lensmodel"] is None:
                must = False
    if w is None:
        trivial()
        return
    if c["what"] == "columns" and "intrinsics has" in w:
        must = False
    label("%s %s" % (c["what"], "must fail" if must else ""))
    if c["how"] == "sizes" and c["what"] not in ("rows",):
        bad.update(sizes(oi))
    a0 = [np.copy(x) if isinstance(x, np.ndarray) else x for x in args]
    S = snapshot(bad)
    try:
        f(*args, *((1,) * 100 if c["what"] == "positional" else ()), **bad)
    except SystemError as e:
        raise Violation("%s: %s() fails with %r" % (w, c["f"], e))
    except Exception as e:
        if not str(e):
            raise Violation("%s: %s() fails without saying why: %r" % (w, c["f"], e))
        if any(isinstance(x, np.ndarray) and not np.array_equal(x, y) for x, y in zip(args, a0)):
            raise Violation("%s: %s() fails, but modifies its argument" % (w, c["f"]))
    else:
        if must:
            raise Violation("%s: %s() accepts this" % (w, c["f"]))
    if snapshot(bad) != S:
        raise Violation("%s: %s() modifies its arguments" % (w, c["f"]))


@C.facet("pack", st.fixed_dictionaries(dict(s=problem.problem_spec(), what=st.sampled_from(["longer", "shorter", "f4", ">f8", "strided", "readonly", "0d", "none", "int", "str", "transposed", "misaligned"]), un=st.booleans(), seed=gens.seeds)), quick=600, thorough=20000)
def pack(c):
    quiet_stderr()
    oi = problem.make(c["s"])
    n = len(problem.layout(oi))
    if n < 2:
        reject()
    r = np.random.default_rng(c["seed"])
    b = r.normal(size=n)
    w = c["what"]
    x = dict(longer=lambda: np.concatenate((b, [1.])), shorter=lambda: b[:-1].copy(), strided=lambda: np.repeat(b, 2)[::2], readonly=lambda: b.copy(), none=lambda: None, int=lambda: 5, str=lambda: "x",
             transposed=lambda: r.normal(size=(n, 3)).T, misaligned=lambda: np.frombuffer(bytearray(8 * n + 1), dtype=np.uint8)[1:].view(float)).get(w, lambda: b.astype(w) if w != "0d" else np.array(1.))()
    if w == "readonly":
        x.flags.writeable = False
    label(w)
    x0 = np.copy(x) if isinstance(x, np.ndarray) else x
    f = mrcal.unpack_state if c["un"] else mrcal.pack_state
    try:
        f(x, **oi)
    except SystemError as e:
        raise Violation("%s: %s() fails with %r" % (w, f.__name__, e))
    except Exception as e:
        if isinstance(x, np.ndarray) and not np.array_equal(x, x0):
            raise Violation("%s: %s() fails, but modifies the array" % (w, f.__name__))
    else:
        raise Violation("%s(): an array that's %s is accepted" % (f.__name__, w))


# ---------------------------------------------------------------- junk in place of an argument, anywhere

def api():
    """name -> (function, args, kwargs): valid calls"""
    r = np.random.default_rng(0)
    v, v2, q = r.normal(size=(4, 3)) + (0, 0, 3), r.normal(size=(4, 3)), r.uniform(100, 700, (4, 2))
    rr, rt = r.normal(size=(4, 3)), r.normal(size=(4, 6))
    R, Rt = ref.R_from_r(rr[0]), mrcal.Rt_from_rt(rt)
    i = np.array((800., 810., 499.5, 399.5, .01, -.02, .001, .002))
    m = [mrcal.cameramodel(intrinsics=("LENSMODEL_OPENCV4", i), imagersize=(1000, 800), rt_cam_ref=np.array((.01 * k, -.02 * k, .01, -.3 * k, .01 * k, .02 * k))) for k in range(2)]
    im = r.integers(0, 255, (20, 30)).astype(np.uint8)
    A = {}

    def add(f, *a, **k):
        n = f.__name__
        while n in A:
            n += "'"
        A[n] = (f, a, k)
    for f in ("identity_R", "identity_Rt", "identity_r", "identity_rt"):
        add(getattr(mrcal, f))
    for f, a in dict(R_from_r=[rr], r_from_R=[R], invert_R=[R], rt_from_Rt=[Rt], Rt_from_rt=[rt], invert_Rt=[Rt], invert_rt=[rt], rotate_point_r=[rr, v], rotate_point_R=[R, v], transform_point_rt=[rt, v],
                     transform_point_Rt=[Rt, v], compose_r=[rr, rr[0]], R_from_quat=[np.array((1., 0, 0, 0))], quat_from_R=[R], Rt_from_qt=[np.array((1., 0, 0, 0, 1, 2, 3))], qt_from_Rt=[Rt],
                     skew_symmetric=[rr], R_aligned_to_vector=[rr], compose_Rt=[Rt, Rt[0]], compose_rt=[rt, rt[0]], compose_r_tinyr0_gradientr0=[rr[0]], sorted_eig=[np.eye(3)],
                     project_pinhole=[v], unproject_pinhole=[q], project_stereographic=[v], unproject_stereographic=[q], project_lonlat=[v], unproject_lonlat=[q], project_latlon=[v], unproject_latlon=[q],
                     apply_homography=[np.eye(3), q], worst_direction_stdev=[np.eye(2)]).items():
        add(getattr(mrcal, f), *a)
    add(mrcal.project, v, "LENSMODEL_OPENCV4", i, get_gradients=True)
    add(mrcal.unproject, q, "LENSMODEL_OPENCV4", i, normalize=True, get_gradients=False)
    add(mrcal.project, v, "LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=5_Ny=4_fov_x_deg=100", np.concatenate((i[:4], np.zeros(40))))
    for f in ("geometric", "leecivera_l1", "leecivera_linf", "leecivera_mid2", "leecivera_wmid2", "lindstrom"):
        add(getattr(mrcal, "triangulate_" + f), v, v + (.1, 0, 0), *((Rt[0],) if f == "lindstrom" else (np.array((1., 0, 0)),)), get_gradients=True, **({} if f == "lindstrom" else dict(v_are_local=False)))
    add(mrcal.align_procrustes_points_Rt01, v, v2, weights=np.ones(4))
    add(mrcal.align_procrustes_vectors_R01, v, v2, weights=np.ones(4))
    add(mrcal.lensmodel_num_params, "LENSMODEL_OPENCV4")
    add(mrcal.lensmodel_metadata_and_config, "LENSMODEL_OPENCV4")
    add(mrcal.knots_for_splined_models, "LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=5_Ny=4_fov_x_deg=100")
    add(mrcal.supported_lensmodels)
    add(mrcal.rectified_resolution, m[0], az_fov_deg=40, el_fov_deg=30, az0_deg=0., el0_deg=0., R_cam0_rect0=np.eye(3), pixels_per_deg_az=-1, pixels_per_deg_el=-1, rectification_model="LENSMODEL_LATLON")
    add(mrcal.rectified_system, m, az_fov_deg=40, el_fov_deg=30, az0_deg=0., el0_deg=0., pixels_per_deg_az=5, pixels_per_deg_el=5, rectification_model="LENSMODEL_LATLON", return_metadata=False)
    rect = mrcal.rectified_system(m, az_fov_deg=40, el_fov_deg=30, pixels_per_deg_az=5, pixels_per_deg_el=5)
    add(mrcal.rectification_maps, m, rect)
    add(mrcal.stereo_range, np.array((5., 7.)), rect, disparity_scale=1, disparity_min=None, disparity_scaled_min=None, disparity_scaled_max=None, qrect0=np.array(((10., 10), (20, 20))))
    add(mrcal.stereo_unproject, np.array((5., 7.)), rect, ranges=None, disparity_scale=1, qrect0=np.array(((10., 10), (20, 20))))
    add(mrcal.apply_color_map, im, a_min=0, a_max=200, function_red=7, function_green=5, function_blue=15)
    add(mrcal.triangulate, np.array(((500., 400), (480., 402))), m, stabilize_coords=True, method=mrcal.triangulate_leecivera_mid2)
    add(mrcal.cameramodel, intrinsics=("LENSMODEL_OPENCV4", i), imagersize=(1000, 800), rt_cam_ref=np.zeros(6), valid_intrinsics_region=np.array(((0., 0), (10, 0), (10, 10), (0, 0))))
    add(mrcal.sample_imager, 3, 4, 100, 80)
    add(mrcal.sample_imager_unproject, 3, 4, 100, 80, "LENSMODEL_OPENCV4", i, normalize=True)
    add(mrcal.imagergrid_using, np.array((100, 80)), 4, 3)
    add(mrcal.is_within_valid_intrinsics_region, q, m[0])
    add(mrcal.close_contour, q)
    add(mrcal.polygon_difference, np.array(((0., 0), (10, 0), (10, 10), (0, 10), (0, 0))), np.array(((2., 2), (5, 2), (5, 5), (2, 2))))
    add(mrcal.ref_calibration_object, 4, 3, .1, calobject_warp=np.array((.001, .002)))
    add(mrcal.projection_diff, m, implied_Rt10=None, gridn_width=20, gridn_height=None, intrinsics_only=False, distance=None, use_uncertainties=False, focus_center=None, focus_radius=-1)
    add(mrcal.image_transformation_map, m[0], m[1], intrinsics_only=True, distance=None, plane_n=None, plane_d=None, mask_valid_intrinsics_region_from=False)
    add(mrcal.pinhole_model_for_reprojection, m[0], fit=None, scale_focal=None, scale_image=.5)
    add(mrcal.scale_focal__best_pinhole_fit, m[0], "corners")
    add(mrcal.model_resolution__deg_pixel, q, m[0])
    add(mrcal.transform_image, im, np.zeros((5, 6, 2), np.float32), borderMode=None, interpolation=None)
    add(mrcal.traverse_sensor_links, connectivity_matrix=np.array(((0, 1), (1, 0)), np.uint16), callback_sensor_link=lambda a, b: None)
    oi = problem.make(SPEC)
    add(mrcal.measurements_board, oi, icam_intrinsics=None, x=None, return_observations=False)
    add(mrcal.measurements_point, oi)
    add(mrcal.hypothesis_board_corner_positions, **oi)

    def ingest_packed_state(*a, **k):  # writes into its other arguments, by definition
        return mrcal.ingest_packed_state(*a, **{x: np.array(y) if isinstance(y, np.ndarray) else y for x, y in k.items()})
    add(ingest_packed_state, mrcal.optimizer_callback(**oi)[0], **oi)
    J = mrcal.optimizer_callback(**oi)[2]
    add(mrcal.CHOLMOD_factorization, J)
    add(mrcal.optimizer_callback, no_factorization=True, **oi)
    for n in SIMPLE:
        add(getattr(mrcal, n), **oi)
    for n in INDEXED[:-1]:
        add(getattr(mrcal, n), 0, **oi)
    ob_ = problem.make(dict(SPEC, npoints=0))
    mo = mrcal.cameramodel(optimization_inputs=problem.copy(ob_), icam_intrinsics=0)
    add(mrcal.projection_uncertainty, v, mo, method="mean-pcam", atinfinity=False, what="covariance", observed_pixel_uncertainty=1.)
    add(mrcal.projection_uncertainty, v, mo, method="cross-reprojection-ccp", atinfinity=True, what="worstdirection-stdev", observed_pixel_uncertainty=None)
    add(mrcal.drt_cross_reprojection__dbpacked, icam_intrinsics=0, **ob_)
    add(mrcal.residuals_board, oi)
    add(mrcal.show_geometry, m, cameranames=None, return_plot_args=True, axis_scale=1.)
    ob = oi["observations_board"].copy()
    ob[..., 2] = 1
    ifc = np.ascontiguousarray(oi["indices_frame_camintrinsics_camextrinsics"][:, :2])
    add(mrcal.estimate_monocular_calobject_poses_Rt_tocam, ifc, ob, .2, m, paths=None)
    add(mrcal.seed_stereographic, [(1000, 800)] * 2, 800., ifc, ob, .2, paths=None)
    Rcf = mrcal.estimate_monocular_calobject_poses_Rt_tocam(ifc, ob, .2, m)
    add(mrcal.estimate_joint_frame_poses, Rcf, mrcal.Rt_from_rt(oi["rt_cam_ref"]), ifc, 3, 3, .2)
    big = r.integers(0, 255, (60, 80)).astype(np.uint8)
    add(mrcal.match_feature, big, big, np.array((40., 30)), search_radius1=4, template_size1=7, q1_estimate=np.array((41., 29)), H10=None)
    add(mrcal.match_feature, big, big, np.array((40., 30)), search_radius1=4, template_size1=(7, 9), H10=np.eye(3))
    vv = mrcal.sample_imager_unproject(5, 4, 1000, 800, "LENSMODEL_OPENCV4", i)
    add(mrcal.implied_Rt10__from_unprojections, mrcal.sample_imager(5, 4, 1000, 800), vv[0] if isinstance(vv, tuple) else vv, vv[0] if isinstance(vv, tuple) else vv, weights=np.ones((4, 5)), atinfinity=True, focus_center=np.array((500., 400)), focus_radius=1e4)
    add(mrcal.stereo_pair_diff, [m, m], gridn_width=4, gridn_height=3, distance=1.)
    F = mrcal.CHOLMOD_factorization(J)
    add(F.solve_xt_JtJ_bt, np.ones((2, J.shape[1])))
    return A


SPEC = dict(m="LENSMODEL_OPENCV4", seed=1, kind="stationary", ncam=2, next=1, nframes=2, npoints=2, ntri=0, W=3, H=3, fixed=1, warp="yes", flags=[True] * 5, reg=True, unity=None, weights=True, out=.1, all=True)
API = None
JUNK = ["None", "5", "-1", "0", "2**40", "-1.5", "nan", "x", "empty", "bytes", "list", "dict", "object", "class", "nested", "empty array", "row", "zeros", "nans", "ints", "strings", "objects", "huge shape", "cut", "longer", "flat", "extra dim",
        "scalar array", "f4", "i4", "complex", "fortran", "absent", "true", "tuple", "negative strides", "recursive"]


def junk(how, x):
    a = np.array(x, dtype=float) if isinstance(x, np.ndarray) and x.dtype.kind in "fiub" and x.size < 10**6 else np.arange(6.).reshape(2, 3)
    if a.ndim == 0 and how in ("cut", "negative strides"):
        return a
    if how == "recursive":
        l = []
        l.append(l)
        return l
    return {"None": lambda: None, "5": lambda: 5, "-1": lambda: -1, "0": lambda: 0, "2**40": lambda: 2**40, "-1.5": lambda: -1.5, "nan": lambda: float("nan"), "x": lambda: "x", "empty": lambda: "", "bytes": lambda: b"LENSMODEL_PINHOLE",
            "list": lambda: [], "dict": lambda: {}, "object": object, "class": lambda: int, "nested": lambda: [[1], [1, 2]], "empty array": lambda: np.zeros(0), "row": lambda: np.zeros((1, 3)), "zeros": lambda: a * 0,
            "nans": lambda: a * np.nan, "ints": lambda: np.nan_to_num(a).astype(int), "strings": lambda: a.astype(str), "objects": lambda: a.astype(object), "huge shape": lambda: np.broadcast_to(1., (3, 2**40)),
            "cut": lambda: a[..., :-1], "longer": lambda: np.concatenate((a, a), -1) if a.ndim else a, "flat": lambda: a.ravel(), "extra dim": lambda: a[..., None], "scalar array": lambda: np.array(1.), "f4": lambda: a.astype("f4"),
            "i4": lambda: np.nan_to_num(a).astype("i4"), "complex": lambda: a + 1j, "fortran": lambda: np.asfortranarray(a), "true": lambda: True, "tuple": lambda: (1, 2), "negative strides": lambda: a[..., ::-1]}[how]()


def same(x, y):
    """the same, up to roundoff"""
    if isinstance(x, (tuple, list)):
        return type(x) == type(y) and len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))
    if isinstance(x, dict):
        return sorted(x, key=str) == sorted(y, key=str) and all(same(x[k], y[k]) for k in x)
    if isinstance(x, np.ndarray) and x.dtype.kind == "f":
        return x.shape == y.shape and np.allclose(x, y, rtol=1e-6, atol=1e-9, equal_nan=True)
    return flatten(x) == flatten(y)


def flatten(x):
    if isinstance(x, (tuple, list)):
        return b"".join(flatten(y) for y in x)
    if isinstance(x, dict):
        return b"".join(flatten(x[k]) for k in sorted(x, key=str))
    if isinstance(x, np.ndarray):
        return str(x.tolist()).encode() if x.dtype == object else x.tobytes()
    if hasattr(x, "indptr"):
        return x.data.tobytes() + x.indices.tobytes()
    if isinstance(x, (int, float, str, bool, type(None), np.generic)):
        return repr(x).encode()
    return b"?"


@C.facet("junk", st.fixed_dictionaries(dict(f=st.integers(0, 10**6), arg=st.integers(0, 10**6), how=st.sampled_from(JUNK), how2=st.one_of(st.none(), st.none(), st.sampled_from(JUNK)), arg2=st.integers(0, 10**6))), quick=4000, thorough=200000, shards=3)
def junk_(c):
    global API
    quiet_stderr()
    warnings.simplefilter("ignore")
    if API is None:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
        API = api()
    name = sorted(API)[c["f"] % len(API)]
    f, a, k = API[name]
    a, k = list(a), dict(k)
    np.random.seed(0)
    before = copy_.deepcopy(f(*a, **k)) if "CHOLMOD" not in name else None
    S = flatten([a, k])
    keys = list(range(len(a))) + sorted(k)
    if not keys:
        trivial()
        return
    w = name
    for arg, how in ((c["arg"], c["how"]), (c["arg2"], c["how2"])):
        if how is None:
            continue
        q = keys[arg % len(keys)]
        w += " %s=%s" % (q, how)
        if how == "absent":
            if isinstance(q, int):
                if q < len(a):
                    del a[-1]
            else:
                k.pop(q, None)
        elif isinstance(q, int):
            if q < len(a):
                a[q] = junk(how, a[q])
        elif q in k:
            k[q] = junk(how, k[q])
    if name == "transform_image" and "huge shape" in (c["how"], c["how2"]):
        reject()  # cv2.remap() itself crashes
    label(c["how"])
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            f(*a, **k)
    except SystemError as e:
        raise Violation("%s: %r" % (w, e))
    except Exception:
        label("exception")
    f, a, k = API[name]
    if flatten([list(a), k]) != S:
        raise Violation("%s: another argument was modified" % w)
    np.random.seed(0)
    if not same(f(*a, **k), before) and "CHOLMOD" not in name:
        raise Violation("%s: the valid call gives something else afterwards" % w)


if __name__ == "__main__":
    C.main()
