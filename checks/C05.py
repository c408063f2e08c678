#!/usr/bin/python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Violation, label, trivial, reject, note
pbt.build_and_import()
import numpy as np
from hypothesis import strategies as st
import mrcal
import ref, gens
from gens import fl, vec

C = pbt.Check("C05", "pose functions form a consistent group",
              "Cases: 1-4 drawn poses (Rodrigues vectors that are 0, tiny, generic, next to pi, exactly pi, beyond pi; translations "
              "of magnitude 0, 1e-3..1e3) and drawn points. Non-trivial: not all rotations are 0.",
              assumptions=["rotations within 1e-3 of 180 degrees are compared to 1e-6 (the Rodrigues vector is ill-conditioned there), others to 1e-10"])

poses = lambda a, b: st.lists(gens.rtvec(), min_size=a, max_size=b)


def close(what, got, want, tol=1e-10, scale=None):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Violation("%s has shape %s, not %s" % (what, got.shape, want.shape))
    s = (1. + np.abs(want).max()) if scale is None else scale
    e = np.abs(got - want)
    note(what.split("(")[0] + " err", (e / s).max() / tol)
    if not (e <= tol * s).all():
        raise Violation("%s is\n%s\nnot\n%s" % (what, got, want))


def rot_tol(R):
    """1e-10, except next to 180 degrees"""
    c = (np.trace(R, axis1=-2, axis2=-1) - 1) / 2
    return np.where(c < -1 + 1e-6, 1e-6, 1e-10)


def proper(what, R):
    E = np.abs(np.swapaxes(R, -1, -2) @ R - np.eye(3)).max()
    if not E < 1e-11:
        raise Violation("%s is not orthogonal: %s" % (what, R))
    if not np.abs(np.linalg.det(R) - 1).max() < 1e-10:
        raise Violation("%s is not a proper rotation: det %s" % (what, np.linalg.det(R)))


def same_rotation(what, r, R):
    """the Rodrigues vector r describes R"""
    if not np.isfinite(r).all():
        raise Violation("%s = %s" % (what, r))
    e = np.abs(ref.R_from_r(r) - R).max((-1, -2))
    t = rot_tol(R)
    note(what.split("(")[0] + " rot err", np.max(e / t))
    if not (e <= t).all():
        raise Violation("%s describes\n%s\nnot\n%s" % (what, ref.R_from_r(r), R))


def tag(P):
    th = ref.mag(P[..., :3])
    if not (th > 0).any():
        trivial()
    for name, sel in (("zero", th == 0), ("tiny", (th > 0) & (th < 1e-4)), ("near pi", np.abs(th - np.pi) < 1e-2), ("beyond pi", th > 3.2)):
        if sel.any():
            label(name)


@C.facet("conversions", poses(1, 4), quick=1500, thorough=60000)
def _(case):
    P = np.array(case)
    tag(P)
    Rt0 = ref.Rt_from_rt(P)
    r, t, R0 = P[:, :3], P[:, 3:], Rt0[:, :3]
    R = mrcal.R_from_r(r)
    close("R_from_r()", R, R0, 1e-12)
    proper("R_from_r()", R)
    Rt = mrcal.Rt_from_rt(P)
    close("Rt_from_rt()", Rt[:, :3], R0, 1e-12)
    if not (Rt[:, 3] == t).all():
        raise Violation("Rt_from_rt() changed the translation")
    r1 = mrcal.r_from_R(R0)
    same_rotation("r_from_R()", r1, R0)
    if not (ref.mag(r1) <= np.pi + 1e-6).all():
        raise Violation("r_from_R() = %s is longer than pi" % r1)
    if not np.allclose(r1, mrcal.r_from_R(R), rtol=1e-6, atol=1e-7) and (rot_tol(R0) == 1e-10).all():
        raise Violation("r_from_R() of equal matrices differ")
    # the r itself is unique inside the ball
    inside = ref.mag(r) < np.pi - 1e-2
    if inside.any():
        e = ref.mag(r1 - r)[inside]
        note("r_from_R err", e.max())
        if not (e < 1e-10).all():
            raise Violation("r_from_R(R_from_r(%s)) = %s" % (r[inside], r1[inside]))
    rt1 = mrcal.rt_from_Rt(Rt0)
    same_rotation("rt_from_Rt()", rt1[:, :3], R0)
    if not (rt1[:, 3:] == t).all():
        raise Violation("rt_from_Rt() changed the translation")
    # quaternions
    qt = mrcal.qt_from_Rt(Rt0)
    if qt.shape != (len(P), 7):
        raise Violation("qt_from_Rt() has shape %s" % (qt.shape,))
    close("|quat|", ref.mag(qt[:, :4]), np.ones(len(P)), 1e-12)
    th = ref.mag(r)
    axis = r / np.where(th == 0, 1, th)[:, None]
    q0 = np.concatenate([np.cos(th / 2)[:, None], np.sin(th / 2)[:, None] * axis], -1)
    close("R_from_quat()", mrcal.R_from_quat(q0), R0, 1e-11)
    e = np.minimum(ref.mag(qt[:, :4] - q0), ref.mag(qt[:, :4] + q0))
    if not (e < 1e-7).all():
        raise Violation("qt_from_Rt(): quat %s, not %s" % (qt[:, :4], q0))
    close("Rt_from_qt(qt_from_Rt())", mrcal.Rt_from_qt(qt), Rt0, 1e-11)
    # with gradients: the same value
    for name, x in (("r_from_R", R0), ("R_from_r", r), ("rt_from_Rt", Rt0), ("Rt_from_rt", P)):
        f = getattr(mrcal, name)
        a, b = f(x), f(x, get_gradients=True)[0]
        if not np.allclose(a, b, rtol=1e-12, atol=1e-12):
            raise Violation("%s(get_gradients=True) gives %s, not %s" % (name, b, a))
    K = mrcal.skew_symmetric(t)
    close("skew_symmetric()", K, ref.skew(t), 0)
    close("identity", np.vstack((mrcal.identity_R(), mrcal.identity_Rt())), np.vstack((np.eye(3), np.eye(3), np.zeros((1, 3)))), 0)
    if not ((mrcal.identity_r() == 0).all() and (mrcal.identity_rt() == 0).all() and mrcal.identity_rt().shape == (6,)):
        raise Violation("identity_rt()")


@C.facet("compose", st.fixed_dictionaries(dict(P=poses(2, 4), p=vec(3, -10, 10), broadcast=st.booleans())), quick=1500, thorough=60000)
def _(case):
    P, p = np.array(case["P"]), np.array(case["p"])
    tag(P)
    label("%d poses" % len(P))
    Rt = ref.Rt_from_rt(P)
    want = ref.compose_Rt(*Rt)
    near = (rot_tol(Rt[:, :3]) > 1e-10).any() or rot_tol(want[:3]) > 1e-10
    tol = 1e-6 if near else 1e-10
    S = 1 + np.abs(P[:, 3:]).max() + np.abs(p).max()
    a = mrcal.compose_Rt(*Rt)
    close("compose_Rt()", a, want, 1e-12, S)
    proper("compose_Rt()", a[:3])
    r = mrcal.compose_r(*P[:, :3])
    same_rotation("compose_r()", r, want[:3])
    rt = mrcal.compose_rt(*P)
    same_rotation("compose_rt()", rt[:3], want[:3])
    close("compose_rt()", rt[3:], want[3], 1e-11 if len(P) == 2 or not near else tol, S)
    # a sequence of transforms
    x = p
    for T in P[::-1]:
        x = ref.transform_rt(T, x)
    close("transform_point_rt(compose_rt())", mrcal.transform_point_rt(rt, p), x, tol, S)
    close("transform_point_Rt(compose_Rt())", mrcal.transform_point_Rt(a, p), x, 1e-11, S)
    # associativity
    if len(P) > 2:
        b = mrcal.compose_rt(mrcal.compose_rt(P[0], P[1]), *P[2:])
        close("compose_rt(compose_rt(a,b),c)", mrcal.transform_point_rt(b, p), x, 2e-6, S)
    if len(P) == 2 and case["broadcast"]:
        label("broadcast")
        # (2,1,6) x (2,6) -> (2,2,6)
        g = mrcal.compose_rt(P[:, None], P)
        G = mrcal.compose_Rt(Rt[:, None], Rt)
        h = mrcal.compose_r(P[:, None, :3], P[:, :3])
        for i in range(2):
            for j in range(2):
                w = ref.compose_Rt(Rt[i], Rt[j])
                close("broadcast compose_Rt()", G[i, j], w, 1e-12, S)
                same_rotation("broadcast compose_rt()", g[i, j, :3], w[:3])
                same_rotation("broadcast compose_r()", h[i, j], w[:3])
                close("broadcast compose_rt()", g[i, j, 3:], w[3], 1e-11, S)


@C.facet("inverted", st.fixed_dictionaries(dict(P=poses(2, 2), p=vec(3, -10, 10))), quick=1500, thorough=60000)
def _(case):
    P, p = np.array(case["P"]), np.array(case["p"])
    tag(P)
    Rt = ref.Rt_from_rt(P)
    Ri = ref.invert_Rt(Rt)
    S = 1 + np.abs(P[:, 3:]).max() + np.abs(p).max()
    # inversion
    close("invert_R()", mrcal.invert_R(Rt[:, :3]), Ri[:, :3], 1e-14)
    close("invert_Rt()", mrcal.invert_Rt(Rt), Ri, 1e-13, S)
    rti = mrcal.invert_rt(P)
    same_rotation("invert_rt()", rti[:, :3], Ri[:, :3])
    close("invert_rt()", rti[:, 3:], Ri[:, 3], 1e-12, S)
    close("invert_rt(get_gradients)", mrcal.invert_rt(P, get_gradients=True)[0], rti, 1e-12, S)
    back = mrcal.invert_rt(rti)
    close("invert_rt(invert_rt())", back[:, 3:], P[:, 3:], 1e-11, S)
    for k in range(2):
        e = mrcal.compose_rt(P[k], rti[k])
        close("compose_rt(a, invert_rt(a))", mrcal.transform_point_rt(e, p), p, 1e-7, S)
        e = mrcal.compose_Rt(mrcal.invert_Rt(Rt[k]), Rt[k])
        close("compose_Rt(invert_Rt(a), a)", e, np.vstack((np.eye(3), np.zeros(3))), 1e-11, S)
    # points
    for k in range(2):
        for inv in (False, True):
            T = Ri[k] if inv else Rt[k]
            w = ref.transform_Rt(T, p)
            close("transform_point_Rt(inverted=%s)" % inv, mrcal.transform_point_Rt(Rt[k], p, inverted=inv), w, 1e-12, S)
            close("transform_point_rt(inverted=%s)" % inv, mrcal.transform_point_rt(P[k], p, inverted=inv), w, 1e-12, S)
            w = T[:3] @ p
            close("rotate_point_R(inverted=%s)" % inv, mrcal.rotate_point_R(Rt[k, :3], p, inverted=inv), w, 1e-12, S)
            close("rotate_point_r(inverted=%s)" % inv, mrcal.rotate_point_r(P[k, :3], p, inverted=inv), w, 1e-12, S)
            for f, x in ((mrcal.transform_point_Rt, Rt[k]), (mrcal.transform_point_rt, P[k]), (mrcal.rotate_point_R, Rt[k, :3]), (mrcal.rotate_point_r, P[k, :3])):
                close("%s(get_gradients,inverted=%s)" % (f.__name__, inv), f(x, p, inverted=inv, get_gradients=True)[0], f(x, p, inverted=inv), 1e-12, S)
    # flags of the compositions
    for i0 in (False, True):
        for i1 in (False, True):
            w = ref.compose_Rt(Ri[0] if i0 else Rt[0], Ri[1] if i1 else Rt[1])
            f = dict(inverted0=i0, inverted1=i1)
            close("compose_Rt(%s)" % f, mrcal.compose_Rt(*Rt, **f), w, 1e-12, S)
            r = mrcal.compose_r(*P[:, :3], **f)
            same_rotation("compose_r(%s)" % f, r, w[:3])
            rt = mrcal.compose_rt(*P, **f)
            same_rotation("compose_rt(%s)" % f, rt[:3], w[:3])
            close("compose_rt(%s)" % f, rt[3:], w[3], 1e-11, S)
            g = mrcal.compose_rt(*P, get_gradients=True, **f)[0]
            same_rotation("compose_rt(get_gradients,%s)" % f, g[:3], w[:3])
            close("compose_rt(get_gradients,%s)" % f, g[3:], w[3], 1e-11, S)
            same_rotation("compose_r(get_gradients,%s)" % f, mrcal.compose_r(*P[:, :3], get_gradients=True, **f)[0], w[:3])


@C.facet("matrices", st.fixed_dictionaries(dict(q=vec(4, -1, 1), k=st.integers(0, 30))), quick=1500, thorough=60000)
def _(case):
    """r_from_R() of matrices built without Rodrigues vectors: quaternions, signed permutations"""
    q = np.array(case["q"])
    n = np.sqrt(q @ q)
    if case["k"] < 24:
        import itertools
        M = []
        for perm in itertools.permutations(range(3)):
            for s in itertools.product((1., -1.), repeat=3):
                R = np.zeros((3, 3))
                R[range(3), perm] = s
                if np.linalg.det(R) > 0:
                    M.append(R)
        R = M[case["k"]]
        label("axis permutation")
    else:
        if n < 1e-2:
            q, n = np.array((1., 0, 0, 0)), 1.
        w, x, y, z = q / n
        R = np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
                      [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                      [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])
        label("quaternion")
    r = mrcal.r_from_R(R)
    same_rotation("r_from_R()", r, R)
    close("R_from_r(r_from_R())", mrcal.R_from_r(r), R, float(rot_tol(R)))
    q1 = mrcal.qt_from_Rt(np.vstack((R, (1., 2, 3))))
    close("R_from_quat(qt_from_Rt())", mrcal.R_from_quat(q1[:4]), R, 1e-12)


if __name__ == "__main__":
    C.main()
