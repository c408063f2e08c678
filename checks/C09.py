#!/usr/bin/python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Violation, label, trivial, reject, note
pbt.build_and_import()
import numpy as np
from hypothesis import strategies as st
import mrcal
import gens, problem
from gens import fl

C = pbt.Check("C09", "state layout",
              "Cases: problems of every kind (camera/frame/point counts incl. 0, fixed points, all lens models, every do_optimize_... combination incl. omitted, "
              "stationary and moving cameras, triangulated points), with an independent model of the state layout; plus bare sizes without any arrays. "
              "Non-trivial: there is at least one state variable.")
NM = dict(intrinsics="intrinsics", extrinsics="rt_cam_ref", frames="rt_ref_frame", points="points", calobject_warp="calobject_warp")


def quiet_stderr():
    os.dup2(os.open("/dev/null", os.O_WRONLY), 2)


def index(what, i, **kw):
    f = getattr(mrcal, "state_index_" + what)
    return f(**kw) if what == "calobject_warp" else f(i, **kw)


def check_indices(L, n, kw):
    """L: list of array names, element by element of the state vector; n: number of items of each kind"""
    total = 0
    for what, arr in NM.items():
        ii = [k for k, a in enumerate(L) if a == arr]
        assert ii == list(range(ii[0], ii[0] + len(ii))) if ii else True
        N = getattr(mrcal, "num_states_" + what)(**kw)
        if N != len(ii):
            raise Violation("num_states_%s() = %r; should be %d" % (what, N, len(ii)))
        total += N
        ni = n[what]
        if ii and ni:
            each = len(ii) // ni
            assert each * ni == len(ii)
        for i in sorted({-1, 0, 1, ni // 2, ni - 2, ni - 1, ni, ni + 1}):
            if what == "calobject_warp" and i != 0:
                continue
            got = index(what, i, **kw)
            want = ii[0] + i * each if ii and 0 <= i < ni else None
            if got != want:
                raise Violation("state_index_%s(%d) = %r; should be %r" % (what, i, got, want))
    if mrcal.num_states(**kw) != len(L) or total != len(L):
        raise Violation("num_states() = %r; should be %d" % (mrcal.num_states(**kw), len(L)))


def nitems(oi, L):
    n = problem.counts(oi)
    return dict(intrinsics=n["ncam"], extrinsics=n["next"], frames=n["nframes"], points=n["nvar"], calobject_warp=1)


@C.facet("indices", problem.problem_spec(maxcam=4), quick=2500, thorough=100000)
def indices(s):
    oi = problem.make(s)
    L = [a for a, i, sc in problem.layout(oi)]
    if not L:
        trivial()
    check_indices(L, nitems(oi, L), oi)
    np_ = sum(1 for a in L if a == "intrinsics") // problem.counts(oi)["ncam"]
    if mrcal.num_intrinsics_optimization_params(**oi) != np_:
        raise Violation("num_intrinsics_optimization_params() = %r; should be %d" % (mrcal.num_intrinsics_optimization_params(**oi), np_))
    label(s["kind"])


@st.composite
def sizes(draw):
    m = draw(st.sampled_from(problem.MODELS))
    if m == "splined":
        m = draw(gens.splined_name(maxn=20))
    big = draw(st.booleans())
    N = st.integers(0, 1000) if big else st.integers(0, 4)
    np_ = draw(N)
    return dict(m=m, n=[draw(N), draw(N), draw(N), np_, draw(N)], fixed=draw(st.integers(0, np_)), flags=[draw(st.sampled_from([None, True, False])) for _ in range(5)])


@C.facet("bare_sizes", sizes(), quick=3000, thorough=100000)
def bare_sizes(c):
    """The sizes given as integers, without any of the arrays"""
    nc, ne, nf, npt, nob = c["n"]
    kw = dict(lensmodel=c["m"], Ncameras_intrinsics=nc, Ncameras_extrinsics=ne, Nframes=nf, Npoints=npt, Npoints_fixed=c["fixed"], Nobservations_board=nob)
    for k, v in zip(problem.FLAGS, c["flags"]):
        if v is not None:
            kw[k] = v
    s = {k: v is not False for k, v in zip(problem.FLAGS, c["flags"])}
    nd = mrcal.lensmodel_num_params(c["m"]) - 4
    nvar = npt - c["fixed"]
    L = ["intrinsics"] * nc * (4 * s["do_optimize_intrinsics_core"] + nd * s["do_optimize_intrinsics_distortions"]) + \
        ["rt_cam_ref"] * (6 * ne * s["do_optimize_extrinsics"]) + ["rt_ref_frame"] * (6 * nf * s["do_optimize_frames"]) + \
        ["points"] * (3 * nvar * s["do_optimize_frames"]) + ["calobject_warp"] * (2 * (s["do_optimize_calobject_warp"] and nob > 0))
    check_indices(L, dict(intrinsics=nc, extrinsics=ne, frames=nf, points=nvar, calobject_warp=1), kw)
    # pack_state() with these alone, and the defaults given explicitly
    if len(L) and len(L) < 20000:
        b = np.arange(1., len(L) + 1)
        b1 = b.copy()
        mrcal.unpack_state(b1, **kw)
        for k in s:
            kw[k] = s[k]
        b2 = b.copy()
        mrcal.unpack_state(b2, **kw)
        if nc and ne and (nf or nvar) and nob and np.any(b1 != b2):
            raise Violation("the do_optimize_... defaults aren't True")
        mrcal.pack_state(b2, **kw)
        if not np.allclose(b2, b, rtol=1e-14, atol=0):
            raise Violation("pack(unpack(b)) != b")
    else:
        trivial()


@C.facet("pack", st.tuples(problem.problem_spec(maxcam=4), gens.seeds, st.sampled_from([(), (1,), (3,), (2, 3), (0,)]),
                           st.sampled_from(["C", "C", "strided", "T", "f4"])), quick=2500, thorough=100000)
def pack(c):
    s, seed, shape, kind = c
    oi = problem.make(s)
    L = problem.layout(oi)
    N = len(L)
    r = np.random.default_rng(seed)
    b = r.normal(0, 1, tuple(shape) + (N,)) * 10**r.uniform(-3, 3, tuple(shape) + (N,))
    if not N:
        trivial()
    one = np.ones(N)
    mrcal.unpack_state(one, **oi)
    if not (np.all(np.isfinite(one)) and np.all(one > 0)):
        raise Violation("the scale factors aren't positive: %r" % one)
    # all the elements of one kind have one scale
    for k in set((a, sc) for a, i, sc in L):
        v = one[[j for j, (a, i, sc) in enumerate(L) if (a, sc) == k]]
        if np.any(v != v[0]):
            raise Violation("scales of %r differ: %r" % (k, v))
    for f, want in ((mrcal.unpack_state, b * one), (mrcal.pack_state, b / one)):
        if kind == "strided":
            big = np.full(b.shape[:-1] + (2 * N,), 7.)
            a = big[..., ::2]
            a[...] = b
        elif kind == "T":
            a = np.array(b.T, order="C", copy=True).T
        elif kind == "f4":
            a = b.astype(np.float32)
        else:
            a = b.copy()
        try:
            ret = f(a, **oi)
        except Exception as e:
            if kind in ("C", "T") and b.flags.c_contiguous and isinstance(a, np.ndarray) and a.flags.c_contiguous:
                raise Violation("%s() raised %r" % (f.__name__, e))
            label("refused " + kind)
            trivial()
            return
        if ret is not None:
            raise Violation("%s() returned %r" % (f.__name__, ret))
        if not np.allclose(a, want, rtol=1e-6 if kind == "f4" else 1e-14, atol=0):
            raise Violation("%s() is not an elementwise scaling (%s)" % (f.__name__, kind))
        if kind == "strided" and np.any(big[..., 1::2] != 7):
            raise Violation("%s() writes outside its array" % f.__name__)
    for d in (-1, 1) if N else (1,):
        for f in (mrcal.unpack_state, mrcal.pack_state):
            try:
                f(np.ones(N + d), **oi)
            except Exception:
                continue
            raise Violation("%s() accepts a state of the wrong size" % f.__name__)


@C.facet("callback", problem.problem_spec(maxcam=3), quick=1500, thorough=60000)
def callback(s):
    """b is the packed state: element for element. And the Jacobian has that many columns"""
    quiet_stderr()
    oi = problem.make(s)
    L = problem.layout(oi)
    if not L:
        reject()
    b, x, J, f = mrcal.optimizer_callback(no_factorization=True, **oi)
    if b.shape != (len(L),) or J.shape != (len(x), len(L)):
        raise Violation("b has shape %r and J %r; there are %d state variables" % (b.shape, J.shape, len(L)))
    u = b.copy()
    mrcal.unpack_state(u, **oi)
    want = problem.state(oi)
    bad = np.abs(u - want) > 1e-12 * np.abs(want)
    if np.any(bad):
        j = np.nonzero(bad)[0][0]
        raise Violation("state %d should be element %r; have %r, want %r" % (j, L[j], u[j], want[j]))
    label("splined" if "SPLINED" in s["m"] else "other")


@C.facet("ingest", st.tuples(problem.problem_spec(maxcam=3), gens.seeds), quick=1500, thorough=60000)
def ingest(c):
    s, seed = c
    quiet_stderr()
    oi = problem.make(s)
    L = problem.layout(oi)
    if not L:
        reject()
    r = np.random.default_rng(seed)
    b0 = mrcal.optimizer_callback(no_factorization=True, no_jacobian=True, **oi)[0]
    if r.integers(2):
        b1 = b0 + r.normal(0, 1e-4, len(b0))
    else:      # only some
        b1 = b0 + r.normal(0, 1e-4, len(b0)) * (r.random(len(b0)) < .2)
    u = b1.copy()
    mrcal.unpack_state(u, **oi)
    want = problem.set_state(oi, u)
    b1_ = b1.copy()
    got = problem.copy(oi)
    arrays = {k: v for k, v in got.items() if isinstance(v, np.ndarray)}
    mrcal.ingest_packed_state(b1_, **got)
    if np.any(b1_ != b1):
        raise Violation("ingest_packed_state() modifies its input")
    for k, v in got.items():
        if isinstance(v, np.ndarray):
            if v is not arrays[k]:
                raise Violation("%s was replaced" % k)
            sel = np.zeros(v.size, bool)
            sel[[i for a, i, sc in L if a == k]] = True
            v, w = v.ravel(), want[k].ravel()
            if not np.allclose(v[sel], w[sel], rtol=1e-12, atol=0):
                raise Violation("%s was not ingested properly: %r; should be %r" % (k, v[sel], w[sel]))
            if np.any(v[~sel] != w[~sel]):
                raise Violation("ingest_packed_state() modified something that isn't in the state, in %s" % k)
    b2 = mrcal.optimizer_callback(no_factorization=True, no_jacobian=True, **got)[0]
    if not np.allclose(b1, b2, rtol=1e-12, atol=0):
        raise Violation("the state isn't reproduced after ingest_packed_state()")
    mrcal.ingest_packed_state(b0, **got)
    b2 = mrcal.optimizer_callback(no_factorization=True, no_jacobian=True, **got)[0]
    if not np.allclose(b0, b2, rtol=1e-12, atol=0):
        raise Violation("the original state isn't reproduced after ingest_packed_state()")


@C.facet("no_arguments", cases=["num_states()", "pack_state(np.zeros(4))", "unpack_state(np.zeros(4))", "state_index_points(0)", "num_states_frames()", "num_measurements()",
                               "state_index_intrinsics(0)", "measurement_index_boards(0)", "num_measurements_boards()", "measurement_index_regularization()"])
def no_arguments(s):
    """Nothing is described: an error, or an empty state. And no crash"""
    quiet_stderr()
    try:
        r = eval("mrcal." + s)
    except Exception:
        return
    if r not in (0, None):
        raise Violation("mrcal.%s = %r" % (s, r))


C.main()
