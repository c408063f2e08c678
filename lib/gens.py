"""Hypothesis strategies shared by the checks. All cases are plain JSON-able data"""
import numpy as np
from hypothesis import strategies as st


def fl(a, b):
    return st.floats(a, b, allow_nan=False, allow_infinity=False, allow_subnormal=False)


def vec(n, a, b):
    return st.lists(fl(a, b), min_size=n, max_size=n)


seeds = st.integers(0, 2**31 - 1)


def rng(seed):
    return np.random.default_rng(seed)


@st.composite
def direction(draw, maxdeg):
    """unit vector within maxdeg of the +z axis. All three elements; includes exactly on-axis and near-axis"""
    kind = draw(st.sampled_from(["gen", "gen", "gen", "gen", "axis", "near", "edge", "plane"]))
    if kind == "axis":
        return [0., 0., 1.]
    if kind == "near":
        th = np.radians(10.**draw(fl(-9, 0)))
    elif kind == "edge":
        th = np.radians(maxdeg * (1 - 10.**draw(fl(-6, -1))))
    else:
        th = np.radians(maxdeg) * draw(fl(0, 1))
    ph = draw(fl(-np.pi, np.pi)) if kind != "plane" else draw(st.integers(0, 3)) * np.pi / 2
    v = [np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)]
    if kind == "plane":
        v = [0. if abs(x) < 1e-15 else x for x in v]
    return [float(x) for x in v]


@st.composite
def core(draw, fmin=100, fmax=4000):
    f = draw(fl(fmin, fmax))
    ar = draw(st.one_of(st.just(1.), fl(.5, 2)))
    return [f, f * ar, draw(fl(-100, 3000)), draw(fl(-100, 3000))]


MODELS_SIMPLE = ["LENSMODEL_PINHOLE", "LENSMODEL_STEREOGRAPHIC", "LENSMODEL_LONLAT", "LENSMODEL_LATLON"]
MODELS_OPENCV = ["LENSMODEL_OPENCV%d" % i for i in (4, 5, 8, 12)]


@st.composite
def linearity(draw):
    return draw(st.sampled_from([0., 1., .37, .5, -.4, .8, -1.]))


@st.composite
def splined_name(draw, maxn=11, minn=None, fov=(30, 260)):
    order = draw(st.sampled_from([2, 3]))
    n0 = minn or order + 1
    Nx = draw(st.integers(n0, maxn))
    Ny = draw(st.integers(n0, maxn))
    return "LENSMODEL_SPLINED_STEREOGRAPHIC_order=%d_Nx=%d_Ny=%d_fov_x_deg=%d" % (order, Nx, Ny, draw(st.integers(*fov)))


@st.composite
def lens(draw, kinds=("simple", "opencv", "cahvor", "cahvore", "splined"), amp=1., central=False, **kw):
    """-> dict(m=lensmodel, i=intrinsics). amp scales the distortions: amp <= .3 is invertible near the image"""
    kind = draw(st.sampled_from(kinds))
    c = draw(core())
    if kind == "simple":
        return dict(m=draw(st.sampled_from(MODELS_SIMPLE)), i=c)
    if kind == "pinhole":
        return dict(m="LENSMODEL_PINHOLE", i=c)
    if kind == "opencv":
        m = draw(st.sampled_from(MODELS_OPENCV))
        n = int(m[16:])
        scale = [.3, .1, .02, .02, .05, .2, .05, .02, .02, .01, .02, .01]
        k = [draw(fl(-1, 1)) * s * amp for s in scale[:n]]
        if n >= 8:      # keep the denominator away from 0
            for j in (5, 6, 7):
                k[j] = abs(k[j])
        return dict(m=m, i=c + k)
    if kind == "cahvor":
        k = [draw(fl(-1, 1)) * s * amp for s in (.1, .1, .1, .1, .02)]
        return dict(m="LENSMODEL_CAHVOR", i=c + k)
    if kind == "cahvore":
        lin = draw(linearity())
        k = [draw(fl(-1, 1)) * s * amp for s in (.1, .1, .1, .05, .01)]
        e = [0., 0., 0.] if central or draw(st.booleans()) else [draw(fl(-1, 1)) * s * amp for s in (.02, .01, .005)]
        return dict(m="LENSMODEL_CAHVORE_linearity=%.2f" % lin, i=c + k + e)
    if kind == "splined":
        m = draw(splined_name(**kw))
        from ref import num_params, splined_segments_per_u
        n = num_params(m) - 4
        a = draw(st.sampled_from([0., .2, 1.])) * amp
        # smoothness relative to the knot spacing keeps the surface invertible
        s = rng(draw(seeds)).uniform(-1, 1, n) * a * .25 / splined_segments_per_u(m)
        return dict(m=m, i=c + [float(x) for x in s])
    raise ValueError(kind)


def maxdeg(m):
    """The half-angle of the domain to be used for a model"""
    from ref import parse_splined
    if m in ("LENSMODEL_STEREOGRAPHIC",):
        return 170
    if m in ("LENSMODEL_LONLAT", "LENSMODEL_LATLON"):
        return 180
    if m == "LENSMODEL_PINHOLE":
        return 88
    if m.startswith("LENSMODEL_CAHVORE"):
        lin = abs(float(m.split("=")[1]))
        return min(75, 70 / lin if lin else 75)
    if m == "LENSMODEL_CAHVOR":
        return 65
    if m.startswith("LENSMODEL_OPENCV"):
        return 65
    c = parse_splined(m)
    return min(c[3] / 2., 150)


@st.composite
def rvec(draw):
    """Rodrigues vectors including the special places"""
    kind = draw(st.sampled_from(["gen", "gen", "gen", "zero", "tiny", "small", "pi", "pi-exact", "beyond", "axis", "pi-axis"]))
    if kind == "zero":
        return [0., 0., 0.]
    d = np.array(draw(vec(3, -1, 1)))
    if kind in ("axis", "pi-axis") or mag1(d) < 1e-3:
        d = np.zeros(3)
        d[draw(st.integers(0, 2))] = draw(st.sampled_from([1., -1.]))
    d = d / mag1(d)
    if kind == "tiny":
        th = 10.**draw(fl(-18, -5))
    elif kind == "small":
        th = 10.**draw(fl(-5, -1))
    elif kind == "pi":
        th = np.pi * (1 - draw(st.sampled_from([1., -1.])) * 10.**draw(fl(-12, -1)))
    elif kind in ("pi-exact", "pi-axis"):
        th = np.pi
    elif kind == "beyond":
        th = draw(fl(np.pi, 3 * np.pi))
    else:
        th = draw(fl(0, np.pi))
    return [float(x) for x in d * th]


def mag1(x):
    return float(np.sqrt(np.sum(np.asarray(x)**2)))


@st.composite
def tvec(draw, scale=None):
    s = scale if scale is not None else 10.**draw(fl(-3, 3))
    if draw(st.integers(0, 9)) == 0:
        return [0., 0., 0.]
    return [x * s for x in draw(vec(3, -1, 1))]


@st.composite
def rtvec(draw, scale=None):
    return draw(rvec()) + draw(tvec(scale))


@st.composite
def rt_mild(draw, rmax=.3, tmax=1.):
    """a generic small pose"""
    return draw(vec(3, -rmax, rmax)) + draw(vec(3, -tmax, tmax))
