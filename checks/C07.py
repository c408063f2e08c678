#!/usr/bin/python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Violation, label, trivial, reject, note
pbt.build_and_import()
import numpy as np
from hypothesis import strategies as st
import mrcal
import ref, gens
from gens import fl, vec

C = pbt.Check("C07", "memory layout, broadcasting, out= do not matter",
              "Cases: a vectorised function, flags, leading dimensions for each argument (0-3 of them, lengths 0-3, broadcast 1s and "
              "missing dimensions), a memory layout for each input (contiguous, transposed, padded, negative strides, read-only, "
              "0-stride broadcast views, list of floats) and for each output. The result is compared with one-slice-at-a-time calls on contiguous "
              "copies. Non-trivial: more than one slice, or some non-contiguous array.",
              assumptions=["functions documented as needing contiguous innermost dimensions may raise for other inner layouts, but may not return wrong data"])


# ---------------------------------------------------------------- values
def v_r(g, n):
    th = 10.**g.uniform(-9, .6, n) * (g.random(n) < .95)
    d = g.normal(size=(n, 3))
    return d / ref.mag(d)[:, None] * th[:, None]


KINDS = {
    "r": ((3,), v_r),
    "rt": ((6,), lambda g, n: np.concatenate([v_r(g, n), g.normal(size=(n, 3)) * 5], -1)),
    "R": ((3, 3), lambda g, n: ref.R_from_r(v_r(g, n))),
    "Rt": ((4, 3), lambda g, n: ref.Rt_from_rt(KINDS["rt"][1](g, n))),
    "x": ((3,), lambda g, n: g.normal(size=(n, 3)) * 3),
    "qt": ((7,), lambda g, n: np.concatenate([(lambda q: q / ref.mag(q)[:, None])(g.normal(size=(n, 4))), g.normal(size=(n, 3))], -1)),
    "quat": ((4,), lambda g, n: (lambda q: q / ref.mag(q)[:, None])(g.normal(size=(n, 4)))),
    "v": ((3,), lambda g, n: np.concatenate([g.uniform(-.5, .5, (n, 2)), g.uniform(.8, 1.5, (n, 1))], -1)),
    "q": ((2,), lambda g, n: g.uniform(-300, 300, (n, 2)) + 1000),
    "qn": ((2,), lambda g, n: g.uniform(-.6, .6, (n, 2))),
    "fxycxy": ((4,), lambda g, n: np.stack([g.uniform(800, 1500, n), g.uniform(800, 1500, n), g.uniform(950, 1050, n), g.uniform(950, 1050, n)], -1)),
    "H": ((3, 3), lambda g, n: np.eye(3) + g.uniform(-.1, .1, (n, 3, 3)) * np.array(((1, 1, 1), (1, 1, 1), (1e-4, 1e-4, 0)))),
    "t": ((3,), lambda g, n: np.array((1., 0, 0)) + g.uniform(-.2, .2, (n, 3))),
    "Rt01": ((4, 3), lambda g, n: ref.Rt_from_rt(np.concatenate([g.uniform(-.2, .2, (n, 3)), np.array((1., 0, 0)) + g.uniform(-.2, .2, (n, 3))], -1))),
    "pts": ((5, 3), lambda g, n: g.normal(size=(n, 5, 3))),
    "w": ((5,), lambda g, n: g.uniform(.1, 2, (n, 5))),
    "sym2": ((2, 2), lambda g, n: (lambda a: a + np.swapaxes(a, -1, -2))(g.normal(size=(n, 2, 2)))),
    "disp": ((), lambda g, n: g.uniform(.5, 60, n)),
    "qr": ((2,), lambda g, n: g.uniform(0, 200, (n, 2))),
}
MODELS = {"LENSMODEL_PINHOLE": [], "LENSMODEL_STEREOGRAPHIC": [], "LENSMODEL_LONLAT": [], "LENSMODEL_LATLON": [],
          "LENSMODEL_OPENCV4": [-.05, .01, 1e-3, 1e-3], "LENSMODEL_OPENCV8": [-.05, .01, 1e-3, 1e-3, .001, .01, .01, .001],
          "LENSMODEL_CAHVOR": [.01, .02, .01, -.03, .002], "LENSMODEL_CAHVORE_linearity=0.37": [.01, .02, .01, -.03, .002, 0, 0, 0],
          "LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=6_Ny=5_fov_x_deg=120": None}


def v_intrinsics(m):
    d = MODELS[m]

    def f(g, n):
        c = KINDS["fxycxy"][1](g, n)
        k = g.uniform(-.02, .02, (n, 60)) if d is None else np.array(d) * g.uniform(.5, 1.5, (n, len(d)))
        return np.concatenate([c, k], -1)
    return ((4 + (60 if d is None else len(d)),), f)


# name: inputs, outputs without / with gradients (None: no such option), boolean flags, contiguous-only, in-place
T = {}


def reg(name, ins, out, outg=None, flags=(), contiguous=False, inplace=(), fn=None, haveout=True, tol=0):
    T[name] = dict(ins=ins, out=out, outg=outg, flags=flags, contiguous=contiguous, inplace=inplace,
                   fn=fn or getattr(mrcal, name), haveout=haveout, tol=tol)


reg("rotate_point_R", ("R", "x"), [(3,)], [(3,), (3, 3, 3), (3, 3)], ("inverted",), inplace=(1,))
reg("rotate_point_r", ("r", "x"), [(3,)], [(3,), (3, 3), (3, 3)], ("inverted",), inplace=(0, 1))
reg("transform_point_Rt", ("Rt", "x"), [(3,)], [(3,), (3, 4, 3), (3, 3)], ("inverted",), inplace=(1,))
reg("transform_point_rt", ("rt", "x"), [(3,)], [(3,), (3, 6), (3, 3)], ("inverted",), inplace=(1,))
reg("r_from_R", ("R",), [(3,)], [(3,), (3, 3, 3)])
reg("R_from_r", ("r",), [(3, 3)], [(3, 3), (3, 3, 3)])
reg("rt_from_Rt", ("Rt",), [(6,)], [(6,), (3, 3, 3)])
reg("Rt_from_rt", ("rt",), [(4, 3)], [(4, 3), (3, 3, 3)])
reg("invert_R", ("R",), [(3, 3)], inplace=(0,))
reg("invert_Rt", ("Rt",), [(4, 3)], inplace=(0,))
reg("invert_rt", ("rt",), [(6,)], [(6,), (6, 6)], inplace=(0,))
reg("compose_Rt", ("Rt", "Rt"), [(4, 3)], flags=("inverted0", "inverted1"), inplace=(0, 1))
reg("compose_r", ("r", "r"), [(3,)], [(3,), (3, 3), (3, 3)], ("inverted0", "inverted1"), inplace=(0, 1))
reg("compose_rt", ("rt", "rt"), [(6,)], [(6,), (6, 6), (6, 6)], ("inverted0", "inverted1"), inplace=(0, 1))
reg("compose_Rt3", ("Rt", "Rt", "Rt"), [(4, 3)], fn=mrcal.compose_Rt, inplace=(0, 1, 2))
reg("compose_rt3", ("rt", "rt", "rt"), [(6,)], fn=mrcal.compose_rt, inplace=(0, 1, 2))
reg("compose_r3", ("r", "r", "r"), [(3,)], fn=mrcal.compose_r, inplace=(0, 1, 2))
reg("compose_r_tinyr0_gradientr0", ("r",), [(3, 3)])
reg("compose_r_tinyr1_gradientr1", ("r",), [(3, 3)])
reg("compose_rt_tinyrt0_gradientrt0", ("rt",), [(6, 6)])
reg("compose_rt_tinyrt1_gradientrt1", ("rt",), [(6, 6)])
reg("R_from_quat", ("quat",), [(3, 3)])
reg("qt_from_Rt", ("Rt",), [(7,)], haveout=False)    # raises for some out=: "not yet complete"
reg("Rt_from_qt", ("qt",), [(4, 3)])
reg("skew_symmetric", ("x",), [(3, 3)])
reg("R_aligned_to_vector", ("x",), [(3, 3)], contiguous=True)
reg("align_procrustes_points_Rt01", ("pts", "pts"), [(4, 3)], contiguous=True, haveout=False)
reg("align_procrustes_vectors_R01", ("pts", "pts"), [(3, 3)], contiguous=True, haveout=False)
reg("align_procrustes_points_Rt01 weights", ("pts", "pts", "w"), [(4, 3)], contiguous=True, haveout=False,
    fn=lambda a, b, w: mrcal.align_procrustes_points_Rt01(a, b, weights=w))
reg("align_procrustes_vectors_R01 weights", ("pts", "pts", "w"), [(3, 3)], contiguous=True, haveout=False,
    fn=lambda a, b, w: mrcal.align_procrustes_vectors_R01(a, b, weights=w))
reg("apply_homography", ("H", "q"), [(2,)])
reg("worst_direction_stdev", ("sym2",), [()], haveout=False, fn=lambda M: mrcal.worst_direction_stdev(np.matmul(M, np.swapaxes(M, -1, -2))), tol=1e-12)
for w in ("pinhole", "stereographic", "lonlat", "latlon"):
    reg("project_" + w, ("v", "fxycxy"), [(2,)], [(2,), (2, 3)], contiguous=True)
    reg("unproject_" + w, ("q", "fxycxy"), [(3,)], [(3,), (3, 2)], contiguous=True)
for m in MODELS:
    KINDS[m] = v_intrinsics(m)
    n = KINDS[m][0][0]
    reg("project " + m, ("v", m), [(2,)], [(2,), (2, 3), (2, n)], contiguous=True,
        fn=lambda v, i, m=m, **kw: mrcal.project(v, m, i, **kw))
    reg("unproject " + m, ("q", m), [(3,)], [(3,), (3, 2), (3, n)], ("normalize",), contiguous=True, tol=1e-9,
        fn=lambda q, i, m=m, **kw: mrcal.unproject(q, m, i, **kw))
for w in ("geometric", "leecivera_l1", "leecivera_linf", "leecivera_mid2", "leecivera_wmid2"):
    reg("triangulate_" + w, ("v", "v", "t"), [(3,)], [(3,), (3, 3), (3, 3), (3, 3)], contiguous=True)
    reg("triangulate_%s Rt01" % w, ("v", "v", "Rt01"), [(3,)], None, ("v_are_local",), contiguous=True,
        fn=lambda v0, v1, Rt01, w=w, **kw: getattr(mrcal, "triangulate_" + w)(v0, v1, Rt01=Rt01, **kw))
reg("triangulate_lindstrom", ("v", "v", "Rt01"), [(3,)], None, ("v_are_local",), contiguous=True)
reg("triangulate_lindstrom grad", ("v", "v", "Rt01"), [(3,)], [(3,), (3, 3), (3, 3), (3, 4, 3)], contiguous=True,
    fn=lambda a, b, c, **kw: mrcal.triangulate_lindstrom(a, b, c, v_are_local=True, **kw))
MR = None


def sparse_shape(r, d, q):
    """scalar disparities give scalar ranges if there is only one: documented"""
    return np.reshape(r, np.broadcast_shapes(np.shape(d), q.shape[:-1])) if np.shape(d) == () and np.shape(r) == () and q[..., 0].size == 1 else r


def rectified():
    global MR
    if MR is None:
        i = ("LENSMODEL_LATLON", np.array((200., 210., 100., 90.)))
        MR = [mrcal.cameramodel(intrinsics=i, imagersize=(400, 300), rt_cam_ref=np.array((0, 0, 0, -.2 * k, 0, 0))) for k in (0, 1)]
    return MR


reg("stereo_range sparse", ("disp", "qr"), [()], haveout=False, contiguous=True,
    fn=lambda d, q: sparse_shape(mrcal.stereo_range(d, rectified(), qrect0=q), d, q))
reg("stereo_unproject sparse", ("disp", "qr"), [(3,)], haveout=False, contiguous=True,
    fn=lambda d, q: mrcal.stereo_unproject(d, models_rectified=rectified(), qrect0=q))


# ---------------------------------------------------------------- layouts
LAYOUTS = ["C", "C", "F", "pad", "neg", "readonly", "innerT", "leadT", "outerpad"]


def place(a, layout):
    """a copy of a, stored in this layout; and the memory owner, with the unused memory marked"""
    M = 12345.678
    if layout == "C":
        o = np.array(a, order="C")
        return o, o
    if layout == "readonly":
        o = np.array(a, order="C")
        o.flags.writeable = False
        return o, o
    if layout == "F":
        o = np.array(a, order="F")
        return o, o
    if layout == "pad":       # gaps everywhere
        o = np.full(tuple(2 * n + 1 for n in a.shape), M)
        x = o[tuple(slice(1, 1 + 2 * n, 2) for n in a.shape)]
    elif layout == "outerpad":     # gaps between slices and around the rows
        if a.ndim == 0:
            o = np.full((3,), M)
            x = o[1:2].reshape(())
        else:
            o = np.full(tuple(n + 2 for n in a.shape), M)
            x = o[tuple(slice(1, 1 + n) for n in a.shape)]
    elif layout == "neg":
        o = np.full(a.shape, M)
        x = o[tuple(slice(None, None, -1) for n in a.shape)]
    elif layout == "innerT":
        if a.ndim < 2:
            return place(a, "pad")
        o = np.full(a.shape[:-2] + a.shape[:-3:-1], M)
        x = np.swapaxes(o, -1, -2)
    elif layout == "leadT":        # first dimension last in memory
        if a.ndim < 2:
            return place(a, "outerpad")
        o = np.full(a.shape[1:] + a.shape[:1], M)
        x = np.moveaxis(o, -1, 0)
    else:
        raise ValueError(layout)
    if a.ndim == 0:
        x = o.reshape(-1)[:1].reshape(())
    assert x.shape == a.shape
    x[...] = a
    return x, o


def padding_intact(x, o):
    """nothing outside x was written"""
    if o is x or o.size == x.size:
        return True
    m = np.zeros(o.shape, np.int8)
    # mark x in o, by replaying the view on a mask
    off = (x.__array_interface__["data"][0] - o.__array_interface__["data"][0]) // 8
    view = np.lib.stride_tricks.as_strided(m.reshape(-1)[off:], x.shape, tuple(s // 8 for s in x.strides))
    view[...] = 1
    return (o[m == 0] == 12345.678).all()


def inner_contiguous(a, nd):
    """the last nd dimensions are stored contiguously"""
    s = 8
    for k in range(1, nd + 1):
        if a.shape[-k] != 1 and a.strides[-k] != s:
            return False
        s *= a.shape[-k]
    return True


def same(a, b, tol):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    eq = (a == b) | (np.isnan(a) & np.isnan(b))
    if eq.all():
        return True
    t = max(tol, 1e-13)
    s = np.abs(b[np.isfinite(b)]).max() if np.isfinite(b).any() else 1.
    with np.errstate(invalid="ignore"):
        return bool((eq | (np.abs(a - b) <= t * (1e-3 + s))).all())


@st.composite
def cases(draw):
    name = draw(st.sampled_from(sorted(T)))
    d = T[name]
    # the broadcast leading shape
    full = draw(st.lists(st.sampled_from([1, 2, 3, 2, 0]) if draw(st.integers(0, 9)) == 0 else st.integers(1, 3), min_size=0, max_size=3))
    ins = []
    for k in d["ins"]:
        n = draw(st.integers(0, len(full)))
        lead = full[len(full) - n:]
        lead = [1 if draw(st.integers(0, 4)) == 0 else x for x in lead]
        ins.append(dict(lead=lead, layout=draw(st.sampled_from(LAYOUTS)), bcast=draw(st.integers(0, 5)) == 0))
    grad = d["outg"] is not None and draw(st.booleans())
    no = len(d["outg"] if grad else d["out"])
    return dict(name=name, ins=ins, grad=grad, flags=[draw(st.booleans()) for _ in d["flags"]],
                out=[draw(st.sampled_from([x for x in LAYOUTS if x != "readonly"])) for _ in range(no)] if d["haveout"] and draw(st.booleans()) else None,
                seed=draw(gens.seeds))


def kwargs(d, case):
    kw = dict(zip(d["flags"], case["flags"]))
    if case["grad"]:
        kw["get_gradients"] = True
    # documented incompatibilities
    return kw


def compute_reference(d, kw, vals, leads, shape, outs):
    """one call per slice"""
    res = [np.zeros(tuple(shape) + s) for s in outs]
    for idx in np.ndindex(*shape):
        a = []
        for v, lead in zip(vals, leads):
            j = idx[len(idx) - len(lead):]
            a.append(np.array(v[tuple(0 if n == 1 else i for i, n in zip(j, lead))], order="C"))
        r = d["fn"](*a, **kw)
        r = r if len(outs) > 1 else [r]
        for o, x, s in zip(res, r, outs):
            if np.shape(x) != s:
                raise Violation("one slice: the output has shape %s, not %s" % (np.shape(x), s))
            o[idx] = x
    return res


@C.facet("layout", cases(), quick=4000, thorough=150000)
def check(case):
    d = T[case["name"]]
    name = case["name"]
    label(name.split()[0])
    g = gens.rng(case["seed"])
    kw = kwargs(d, case)
    outs = d["outg"] if case["grad"] else d["out"]
    vals, leads = [], []
    for k, i in zip(d["ins"], case["ins"]):
        shape, f = KINDS[k]
        n = int(np.prod(i["lead"]))
        vals.append(f(g, max(n, 1))[:n].reshape(tuple(i["lead"]) + shape))
        leads.append(tuple(i["lead"]))
    shape = np.broadcast_shapes(*leads)
    if 0 in shape:
        label("empty")
    try:
        want = compute_reference(d, kw, vals, leads, shape, outs)
    except (RuntimeError, np.linalg.LinAlgError) as e:
        raise Violation("%s(%s): a single slice failed: %s" % (name, kw, e))
    args, owners, excuse = [], [], False
    noncontig = False
    for k, v, i in zip(d["ins"], vals, case["ins"]):
        a, o = place(v, i["layout"])
        if i["bcast"] and i["lead"] and i["lead"][0] == 1 and len(shape) >= len(i["lead"]):
            # 0-stride
            a = np.broadcast_to(a, tuple(shape[len(shape) - len(i["lead"]):][:1]) + a.shape[1:])
        if not inner_contiguous(a, len(KINDS[k][0])):
            excuse = excuse or d["contiguous"]
        noncontig = noncontig or not a.flags.c_contiguous
        args.append(a)
        owners.append((a, o, np.array(a)))
    out = None
    if case["out"] is not None:
        label("out=")
        # nan: uninitialised memory
        out = [place(np.full(tuple(shape) + s, np.nan), l) for s, l in zip(outs, case["out"])]
        for (x, o), s in zip(out, outs):
            if not inner_contiguous(x, len(s)):
                excuse = excuse or d["contiguous"]
            noncontig = noncontig or not x.flags.c_contiguous
        kw = dict(kw, out=out[0][0] if len(outs) == 1 else tuple(x for x, _ in out))
    if not noncontig and int(np.prod(shape)) == 1:
        trivial()
    what = "%s(%s, shapes %s, layouts %s, out %s)" % (name, {k: v for k, v in kw.items() if k != "out"}, [a.shape for a in args],
                                                     [i["layout"] for i in case["ins"]], case["out"])
    try:
        res = d["fn"](*args, **kw)
    except Exception as e:
        if excuse:
            label("raised: needs contiguous")
            for a, o, c in owners:
                if not same(a, c, 0):
                    raise Violation("%s modified its input" % what)
            return
        if 0 in shape:
            label("raised: empty")
            return
        raise Violation("%s raised %s: %s" % (what, type(e).__name__, e))
    res = list(res) if len(outs) > 1 else [res]
    for j, (r, w) in enumerate(zip(res, want)):
        if np.shape(r) != w.shape:
            raise Violation("%s: output %d has shape %s, not %s" % (what, j, np.shape(r), w.shape))
        if not same(r, w, d["tol"]):
            raise Violation("%s: output %d is\n%s\nnot\n%s" % (what, j, r, w))
    if out is not None:
        for j, ((x, o), w) in enumerate(zip(out, want)):
            if not same(x, w, d["tol"]):
                raise Violation("%s: the array given in out[%d] contains\n%s\nnot\n%s" % (what, j, x, w))
            if not padding_intact(x, o):
                raise Violation("%s: memory outside out[%d] was written" % (what, j))
    for j, (a, o, c) in enumerate(owners):
        if not same(a, c, 0):
            raise Violation("%s modified its input %d" % (what, j))
        if not padding_intact(a, o) if a.base is not None and not case["ins"][j]["bcast"] else False:
            raise Violation("%s wrote next to its input %d" % (what, j))


INPLACE = [(n, k) for n in sorted(T) for k in T[n]["inplace"]]


@C.facet("in-place", st.fixed_dictionaries(dict(nk=st.sampled_from(INPLACE), grad=st.booleans(), flags=st.lists(st.booleans(), min_size=2, max_size=2),
                                                n=st.lists(st.integers(1, 3), max_size=2), layout=st.sampled_from([x for x in LAYOUTS if x != "readonly"]),
                                                both=st.booleans(), seed=gens.seeds)), quick=2000, thorough=80000)
def inplace(case):
    name, k = case["nk"]
    d = T[name]
    label("%s[%d]" % (name, k))
    g = gens.rng(case["seed"])
    grad = case["grad"] and d["outg"] is not None
    outs = d["outg"] if grad else d["out"]
    kw = dict(zip(d["flags"], case["flags"]))
    if grad:
        kw["get_gradients"] = True
    n = int(np.prod(case["n"]))
    vals = [KINDS[x][1](g, n).reshape(tuple(case["n"]) + KINDS[x][0]) for x in d["ins"]]
    same_kind = [j for j, x in enumerate(d["ins"]) if x == d["ins"][k]]
    aliases = [k]
    if case["both"] and len(same_kind) > 1:
        for j in same_kind:
            vals[j] = vals[k].copy()
        aliases = same_kind
        label("all inputs are the output")
    want = d["fn"](*[v.copy() for v in vals], **kw)
    want = list(want) if len(outs) > 1 else [want]
    x, o = place(vals[k], case["layout"])
    args = [x if j in aliases else v.copy() for j, v in enumerate(vals)]
    other = [a.copy() for a in args]
    out = [x] + [np.full(tuple(case["n"]) + s, np.nan) for s in outs[1:]]
    d["fn"](*args, out=out[0] if len(outs) == 1 else tuple(out), **kw)
    for j, (r, w) in enumerate(zip(out, want)):
        if not same(r, w, 0):
            raise Violation("%s(%s) in place of argument %s (%s): output %d is\n%s\nnot\n%s" % (name, kw, aliases, case["layout"], j, r, w))
    for j, (a, b) in enumerate(zip(args, other)):
        if j not in aliases and not (a == b).all():
            raise Violation("%s in place of %s modified argument %d" % (name, aliases, j))
    if not padding_intact(x, o):
        raise Violation("%s in place wrote outside of its output" % name)


ZS = ["rotate_point_R", "rotate_point_r", "transform_point_Rt", "transform_point_rt", "R_from_r", "compose_r", "Rt_from_rt"]


@C.facet("zero-stride", st.fixed_dictionaries(dict(name=st.sampled_from(ZS), x=fl(-2, 2), seed=gens.seeds)), quick=60, thorough=2000)
def zerostride(case):
    """np.broadcast_to() of a number gives an array with strides of 0 bytes. Memory past its end is preset, so that this is decided"""
    d = T[case["name"]]
    label(case["name"])
    g = gens.rng(case["seed"])
    vals = [KINDS[k][1](g, 1)[0] for k in d["ins"]]
    store = np.full((64,), 777.)
    store[0] = case["x"]
    k = len(vals) - 1
    vals[k] = np.broadcast_to(store[:1], KINDS[d["ins"][k]][0])
    a = d["fn"](*vals)
    b = d["fn"](*[np.array(v) for v in vals])
    if not same(a, b, 0):
        pbt.known("zero-stride", "%s of %s with strides of 0 is %s, not %s" % (case["name"], d["ins"][k], a, b))


if __name__ == "__main__":
    C.main()
