#!/usr/bin/python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Violation, label, trivial, reject, note
pbt.build_and_import()
import ctypes
import numpy as np
from hypothesis import strategies as st
import mrcal
import ref, gens, capi
from gens import fl, vec

C = pbt.Check("C06", "pose gradients are the derivatives",
              "Cases: one or two drawn poses (all the special angles) and a drawn point. Each gradient element is compared with a "
              "6th-order central difference of the function without gradients. Non-trivial: a nonzero rotation, away from the "
              "180-degree wrap of the Rodrigues vector of the result.",
              assumptions=["gradients with respect to a rotation matrix are compared along directions tangent to SO(3)",
                           "the gradient of a Rodrigues vector is not compared where the result is within 0.02 of a 180-degree rotation"])


def nd(f, x, h):
    a, b = ref.numdiff(f, x, h), ref.numdiff(f, x, h * .4)
    return b, np.abs(a - b)


def cmp(what, got, num, tol=1e-7, scale=1.):
    num, err = num
    if got.shape != num.shape:
        raise Violation("%s has shape %s, not %s" % (what, got.shape, num.shape))
    s = scale + np.abs(num).max()
    e = np.abs(got - num)
    note(what + " err", (e / s).max())
    if not np.isfinite(err).all():
        reject("numerical derivative")
    if not (e <= tol * s + err).all():
        raise Violation("%s is\n%s\nnot\n%s" % (what, got, num))


def wraps(r):
    th = ref.mag(r)
    return not (th < np.pi - .02)


def tag(*r):
    th = [ref.mag(np.array(x)) for x in r]
    if not any(x > 0 for x in th):
        trivial()
    for x in th:
        label("zero" if x == 0 else "tiny" if x < 1e-4 else "pi" if abs(x - np.pi) < 1e-2 else "beyond pi" if x > 3.2 else "generic")


def same_value(what, a, b, S):
    if not np.allclose(a, b, rtol=0, atol=1e-11 * S):
        raise Violation("%s: %s with gradients, %s without" % (what, a, b))


POINT = st.fixed_dictionaries(dict(rt=gens.rtvec(), p=vec(3, -10, 10), inv=st.booleans()))


@C.facet("points", POINT, quick=1500, thorough=60000)
def _(case):
    rt, p, inv = np.array(case["rt"]), np.array(case["p"]), case["inv"]
    tag(rt[:3])
    S = 1 + np.abs(rt[3:]).max() + np.abs(p).max()
    f = mrcal.rotate_point_r
    y, dr, dx = f(rt[:3], p, get_gradients=True, inverted=inv)
    same_value("rotate_point_r", y, f(rt[:3], p, inverted=inv), S)
    cmp("rotate_point_r dr", dr, nd(lambda r: f(r, p, inverted=inv), rt[:3], 2e-3), scale=S)
    cmp("rotate_point_r dx", dx, nd(lambda x: f(rt[:3], x, inverted=inv), p, 1.))
    f = mrcal.transform_point_rt
    y, drt, dx = f(rt, p, get_gradients=True, inverted=inv)
    same_value("transform_point_rt", y, f(rt, p, inverted=inv), S)
    cmp("transform_point_rt dr", drt[:, :3], nd(lambda r: f(np.concatenate((r, rt[3:])), p, inverted=inv), rt[:3], 2e-3), scale=S)
    cmp("transform_point_rt dt", drt[:, 3:], nd(lambda t: f(np.concatenate((rt[:3], t)), p, inverted=inv), rt[3:], S))
    cmp("transform_point_rt dx", dx, nd(lambda x: f(rt, x, inverted=inv), p, 1.))
    # linear in the elements of the matrix: these are exact for any matrix
    Rt = ref.Rt_from_rt(rt)
    f = mrcal.rotate_point_R
    y, dR, dx = f(Rt[:3], p, get_gradients=True, inverted=inv)
    cmp("rotate_point_R dR", dR, nd(lambda R: f(R, p, inverted=inv), Rt[:3], .1))
    cmp("rotate_point_R dx", dx, nd(lambda x: f(Rt[:3], x, inverted=inv), p, 1.))
    f = mrcal.transform_point_Rt
    y, dRt, dx = f(Rt, p, get_gradients=True, inverted=inv)
    cmp("transform_point_Rt dRt", dRt, nd(lambda R: f(R, p, inverted=inv), Rt, .1 * S), scale=S)
    cmp("transform_point_Rt dx", dx, nd(lambda x: f(Rt, x, inverted=inv), p, 1.))


@C.facet("conversions", st.fixed_dictionaries(dict(rt=gens.rtvec())), quick=1500, thorough=60000)
def _(case):
    rt = np.array(case["rt"])
    tag(rt[:3])
    r = rt[:3]
    S = 1 + np.abs(rt[3:]).max()
    R, dR = mrcal.R_from_r(r, get_gradients=True)
    cmp("R_from_r", dR, nd(mrcal.R_from_r, r, 2e-3))
    Rt, dR2 = mrcal.Rt_from_rt(rt, get_gradients=True)
    if not np.allclose(dR, dR2, rtol=0, atol=1e-12):
        raise Violation("Rt_from_rt: gradient %s, not %s" % (dR2, dR))
    same_value("Rt_from_rt", Rt, mrcal.Rt_from_rt(rt), S)
    # r_from_R along the tangent: R -> exp(w) R
    Rt = ref.Rt_from_rt(rt)
    R = Rt[:3]
    r1, dr = mrcal.r_from_R(R, get_gradients=True)
    rt1, dr2 = mrcal.rt_from_Rt(Rt, get_gradients=True)
    if dr.shape != (3, 3, 3) or not np.allclose(dr, dr2, rtol=1e-9, atol=1e-9):
        raise Violation("rt_from_Rt: gradient %s, not %s" % (dr2, dr))
    same_value("rt_from_Rt", rt1, mrcal.rt_from_Rt(Rt), S)
    same_value("r_from_R", r1, mrcal.r_from_R(R), S)
    if wraps(r1):
        label("wraps")
    else:
        # d(exp(w) R)/dw = skew(e_k) R
        D = np.stack([ref.skew(e) @ R for e in np.eye(3)], -1)
        got = np.tensordot(dr, D, ((1, 2), (0, 1)))
        cmp("r_from_R", got, nd(lambda w: mrcal.r_from_R(ref.R_from_r(w) @ R), np.zeros(3), 2e-3), tol=1e-6)
    f = mrcal.invert_rt
    y, J = f(rt, get_gradients=True)
    cmp("invert_rt", J[:, :3], nd(lambda x: f(np.concatenate((x, rt[3:]))), r, 2e-3), scale=S)
    cmp("invert_rt dt", J[:, 3:], nd(lambda x: f(np.concatenate((r, x))), rt[3:], S))


TWO = st.fixed_dictionaries(dict(a=gens.rtvec(), b=gens.rtvec(), i0=st.booleans(), i1=st.booleans()))


@C.facet("compose", TWO, quick=1500, thorough=60000)
def _(case):
    a, b = np.array(case["a"]), np.array(case["b"])
    kw = dict(inverted0=case["i0"], inverted1=case["i1"])
    name = "compose(%s)" % kw
    tag(a[:3], b[:3])
    S = 1 + np.abs(a[3:]).max() + np.abs(b[3:]).max()
    rt, da, db = mrcal.compose_rt(a, b, get_gradients=True, **kw)
    r, dra, drb = mrcal.compose_r(a[:3], b[:3], get_gradients=True, **kw)
    if da.shape != (6, 6) or db.shape != (6, 6):
        raise Violation("shapes")
    for x, y in ((da[:3, :3], dra), (db[:3, :3], drb)):
        if not np.allclose(x, y, rtol=1e-9, atol=1e-9):
            raise Violation("%s: dr of compose_rt() %s, of compose_r() %s" % (name, x, y))
    if not ((da[:3, 3:] == 0).all() and (db[:3, 3:] == 0).all()):
        raise Violation("%s: dr/dt is not 0" % name)
    f = mrcal.compose_rt
    t = lambda x, y: f(x, y, **kw)[3:]
    cat = np.concatenate
    cmp(name + " dt/dr0", da[3:, :3], nd(lambda x: t(cat((x, a[3:])), b), a[:3], 2e-3), scale=S)
    cmp(name + " dt/dt0", da[3:, 3:], nd(lambda x: t(cat((a[:3], x)), b), a[3:], S))
    cmp(name + " dt/dr1", db[3:, :3], nd(lambda x: t(a, cat((x, b[3:]))), b[:3], 2e-3), scale=S)
    cmp(name + " dt/dt1", db[3:, 3:], nd(lambda x: t(a, cat((b[:3], x))), b[3:], S))
    same_value(name, cat((rt[3:], r, rt[:3])), cat((f(a, b, **kw)[3:], mrcal.compose_r(a[:3], b[:3], **kw), f(a, b, **kw)[:3])), S)
    if wraps(r) or any(abs(ref.mag(x[:3]) - 2 * np.pi) < .1 for x in (a, b)):
        label("wraps")
        return
    g = mrcal.compose_r
    # the wrap must be far for the whole stencil
    h = 2e-3
    cmp(name + " dr/dr0", dra, nd(lambda x: g(x, b[:3], **kw), a[:3], h), tol=1e-6)
    cmp(name + " dr/dr1", drb, nd(lambda x: g(a[:3], x, **kw), b[:3], h), tol=1e-6)


@C.facet("tiny", st.fixed_dictionaries(dict(a=gens.rtvec())), quick=1000, thorough=40000)
def _(case):
    a = np.array(case["a"])
    tag(a[:3])
    S = 1 + np.abs(a[3:]).max()
    Z = np.zeros(6)
    J0 = mrcal.compose_rt_tinyrt0_gradientrt0(a)
    J1 = mrcal.compose_rt_tinyrt1_gradientrt1(a)
    r0 = mrcal.compose_r_tinyr0_gradientr0(a[:3])
    r1 = mrcal.compose_r_tinyr1_gradientr1(a[:3])
    if J0.shape != (6, 6) or J1.shape != (6, 6) or r0.shape != (3, 3) or r1.shape != (3, 3):
        raise Violation("shapes")
    for x, y in ((J0, r0), (J1, r1)):
        if not np.allclose(x[:3, :3], y, rtol=1e-7, atol=1e-7) or not (x[:3, 3:] == 0).all():
            raise Violation("compose_rt_tiny: %s compose_r_tiny: %s" % (x, y))
    f = mrcal.compose_rt
    cmp("tinyrt0 dt", J0[3:], nd(lambda x: f(x, a)[3:], Z, 2e-3), scale=S)
    cmp("tinyrt1 dt", J1[3:], nd(lambda x: f(a, x)[3:], Z, 2e-3), scale=S)
    if wraps(a[:3]):
        label("wraps")
        # the same as compose_rt(), but for the choice of branch
        return
    e = .02 * np.minimum(1, np.pi - ref.mag(a[:3]))
    cmp("tinyrt0 dr", r0, nd(lambda x: mrcal.compose_r(x, a[:3]), Z[:3], e / 2), tol=1e-6)
    cmp("tinyrt1 dr", r1, nd(lambda x: mrcal.compose_r(a[:3], x), Z[:3], e / 2), tol=1e-6)
    w = f(Z, a, get_gradients=True)[1]
    if not np.allclose(J0, w, rtol=1e-6, atol=1e-7 * S):
        raise Violation("compose_rt_tinyrt0_gradientrt0() = %s; compose_rt() gives %s" % (J0, w))
    w = f(a, Z, get_gradients=True)[2]
    if not np.allclose(J1, w, rtol=1e-6, atol=1e-7 * S):
        raise Violation("compose_rt_tinyrt1_gradientrt1() = %s; compose_rt() gives %s" % (J1, w))


# ---------------------------------------------------------------- C, any selection of the outputs, strided
PROTO = {  # outputs (the first is not optional), inputs, number of flags
    "rotate_point_R": ([(3,), (3, 3, 3), (3, 3)], [(3, 3), (3,)], 1),
    "rotate_point_r": ([(3,), (3, 3), (3, 3)], [(3,), (3,)], 1),
    "transform_point_Rt": ([(3,), (3, 4, 3), (3, 3)], [(4, 3), (3,)], 1),
    "transform_point_rt": ([(3,), (3, 6), (3, 3)], [(6,), (3,)], 1),
    "r_from_R": ([(3,), (3, 3, 3)], [(3, 3)], 0),
    "R_from_r": ([(3, 3), (3, 3, 3)], [(3,)], 0),
    "rt_from_Rt": ([(6,), (3, 3, 3)], [(4, 3)], 0),
    "Rt_from_rt": ([(4, 3), (3, 3, 3)], [(6,)], 0),
    "invert_rt": ([(6,), (3, 3), (3, 3)], [(6,)], 0),
    "compose_r": ([(3,), (3, 3), (3, 3)], [(3,), (3,)], 2),
    "compose_rt": ([(6,)] + [(3, 3)] * 6, [(6,), (6,)], 2),
}


def reference(name, ins, flags):
    kw = dict(get_gradients=True)
    if len(flags) == 1:
        kw["inverted"] = flags[0]
    if len(flags) == 2:
        kw["inverted0"], kw["inverted1"] = flags
    out = getattr(mrcal, name)(*ins, **kw)
    if name == "invert_rt":
        return [out[0], out[1][3:, :3], out[1][3:, 3:]]
    if name == "compose_rt":
        rt, a, b = out
        return [rt, a[:3, :3], b[:3, :3], a[3:, :3], b[3:, :3], a[3:, 3:], b[3:, 3:]]
    return list(out)


def strided(shape, k, g, value=None):
    """array of this shape; k selects contiguous, or several strided layouts"""
    if k == 0:
        a = np.full(shape, np.nan)
    elif k == 1:      # padded rows and elements
        a = np.full(tuple(2 * n + 1 for n in shape), np.nan)[tuple(slice(1, None, 2) for _ in shape)]
    elif k == 2:      # transposed
        a = np.full(shape[::-1], np.nan).T
    else:
        a = np.full(shape[:-1] + (shape[-1] + 3,), np.nan)[..., 2:2 + shape[-1]]
    assert a.shape == tuple(shape)
    if value is not None:
        a[...] = value
    return a


@C.facet("C", st.fixed_dictionaries(dict(name=st.sampled_from(sorted(PROTO)), a=gens.rtvec(), b=gens.rtvec(), p=vec(3, -10, 10),
                                         flags=st.lists(st.booleans(), min_size=2, max_size=2), want=st.integers(0, 63), seed=gens.seeds)),
         quick=2500, thorough=100000)
def _(case):
    name = case["name"]
    outs, ins, nf = PROTO[name]
    label(name)
    pool = {(6,): [np.array(case["a"]), np.array(case["b"])]}
    pool[(3,)] = [x[:3] for x in pool[(6,)]]
    pool[(4, 3)] = [ref.Rt_from_rt(x) for x in pool[(6,)]]
    pool[(3, 3)] = [x[:3] for x in pool[(4, 3)]]
    vals = [pool[s][j] for j, s in enumerate(ins)]
    if "point" in name:
        vals[1] = np.array(case["p"])
    flags = case["flags"][:nf]
    g = gens.rng(case["seed"])
    want = [True] + [bool(case["want"] & (1 << j)) for j in range(len(outs) - 1)]
    if not all(want):
        label("some gradients not requested")
    layout = g.integers(0, 4, len(outs) + len(ins)) * (g.random() < .7)
    O = [strided(s, k, g) if w else None for s, k, w in zip(outs, layout, want)]
    I = [strided(s, k, g, v) for s, k, v in zip(ins, layout[len(outs):], vals)]
    args = []
    for arr, s, k in zip(O + I, outs + ins, layout):
        if arr is None:
            args.append(None)
            args += [ctypes.c_int(0)] * len(s)
        else:
            args.append(ctypes.c_void_p(arr.ctypes.data))
            args += [ctypes.c_int(0 if k == 0 and g.random() < .5 else x) for x in arr.strides]
    # 0 strides mean "contiguous" for all, or for none
    args += [ctypes.c_bool(f) for f in flags]
    fn = getattr(capi.lib(), "mrcal_%s_full" % name)
    fn.restype = None
    fn(*args)
    expect = reference(name, vals, flags)
    for j, (o, e) in enumerate(zip(O, expect)):
        if o is None:
            continue
        s = 1 + np.abs(e).max()
        if not np.allclose(o, e, rtol=0, atol=1e-9 * s):
            raise Violation("mrcal_%s_full(flags=%s, outputs=%s, strides=%s): output %d is\n%s\nnot\n%s" %
                            (name, flags, want, [x.strides for x in O if x is not None], j, o, e))
    for v, i in zip(vals, I):
        if not (v == i).all():
            raise Violation("mrcal_%s_full() modified its input" % name)


if __name__ == "__main__":
    C.main()
