#!/usr/bin/python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Violation, label, trivial, reject, note
pbt.build_and_import()
import re, tempfile, math
import numpy as np
from fractions import Fraction
from hypothesis import strategies as st
import mrcal
import gens
from gens import fl
try:
    import cv2
except ImportError:
    cv2 = None

C = pbt.Check("C20", "images and color maps",
              "Cases: images of every size from 1x1, contents (noise, ramps in each direction, constant, extremes), memory layouts (padded, flipped, transposed copies, repeated rows), "
              "formats and requested conversions; arrays of all 10 element types with generated ranges, limits and colour functions. Oracles: the pixels that were saved; "
              "independent decoders (an own PNM parser, OpenCV); exact rational arithmetic for the colour maps. Non-trivial: more than one distinct pixel value.",
              assumptions=["the OpenCV image codecs are used as an independent reader and writer of .png files"])
TMP = None


def tmp():
    global TMP
    if TMP is None:
        TMP = tempfile.TemporaryDirectory(prefix="C20.")
    return TMP.name


@st.composite
def images(draw, kinds=(8, 16, 24), maxn=40):
    return dict(bpp=draw(st.sampled_from(kinds)), w=draw(st.integers(1, maxn)), h=draw(st.integers(1, maxn)), seed=draw(gens.seeds),
                content=draw(st.sampled_from(["noise", "up", "down", "constant", "extremes", "few", "narrow"])),
                layout=draw(st.sampled_from(["dense", "padded", "crop", "flipud", "flipud-padded", "repeat", "transposed"])))


def pixels(c):
    r = np.random.default_rng(c["seed"])
    top = 65535 if c["bpp"] == 16 else 255
    shape = (c["h"], c["w"]) + ((3,) if c["bpp"] == 24 else ())
    n = int(np.prod(shape))
    k = c["content"]
    if k == "noise":
        a = r.integers(0, top + 1, n)
    elif k in ("up", "down"):
        a = np.linspace(r.integers(0, top // 2), r.integers(top // 2, top + 1), n).round()
        if k == "down":
            a = a[::-1]
    elif k == "constant":
        a = np.full(n, r.choice((0, 1, top // 2, top - 1, top)))
    elif k == "extremes":
        a = r.choice((0, top), n)
    elif k == "few":
        a = r.choice(r.integers(0, top + 1, 3), n)
    else:
        lo = r.integers(0, top - 5)
        a = r.integers(lo, lo + 5, n)
    return np.asarray(a).reshape(shape).astype(np.uint16 if c["bpp"] == 16 else np.uint8)


def lay(a, c):
    """the same pixels, in another memory layout. The rows are dense, as documented"""
    k = c["layout"]
    if k == "dense":
        return a
    fill = np.array(0xA5A5).astype(a.dtype) if a.dtype == np.uint16 else np.array(0xA5, dtype=np.uint8)
    h, w = a.shape[:2]
    r = a.reshape(h, -1)
    pad = c["seed"] % 5
    if k in ("padded", "flipud-padded"):
        b = np.full((h, r.shape[1] + pad), fill, dtype=a.dtype)
        s = -1 if k == "flipud-padded" else 1
        b = b[::s]
        b[:, :r.shape[1]] = r
        return np.lib.stride_tricks.as_strided(b, shape=a.shape, strides=(b.strides[0],) + a.strides[1:])
    if k == "crop":
        b = np.full((h + 3, w + 4) + a.shape[2:], fill, dtype=a.dtype)
        b[1:1 + h, 2:2 + w] = a
        return b[1:1 + h, 2:2 + w]
    if k == "flipud":
        return np.ascontiguousarray(a[::-1])[::-1]
    if k == "repeat" and w > 1:
        a[:] = a[:1]
        return np.broadcast_to(a[0].copy(), a.shape)
    return np.ascontiguousarray(a)          # of a transposed image
    

def read_pnm(path):
    b = open(path, "rb").read()
    m = re.match(rb"(P[56])\s+(\d+)\s+(\d+)\s+(\d+)\s", b)
    if not m:
        raise Violation("the PNM header is wrong: %r" % b[:30])
    w, h, mx = (int(m.group(i)) for i in (2, 3, 4))
    ch = 3 if m.group(1) == b"P6" else 1
    a = np.frombuffer(b[m.end():], dtype=">u2" if mx > 255 else np.uint8)
    if mx not in (255, 65535) or a.size != w * h * ch:
        raise Violation("the PNM file has %d values up to %d for a %dx%dx%d image" % (a.size, mx, w, h, ch))
    return a.reshape((h, w, 3) if ch == 3 else (h, w))


def same(what, got, want):
    if got.shape != want.shape or got.dtype != want.dtype:
        raise Violation("%s: %s %s instead of %s %s" % (what, got.shape, got.dtype, want.shape, want.dtype))
    if not (got == want).all():
        i = tuple(np.argwhere(got != want)[0])
        raise Violation("%s: %d of %d values differ; the first at %s: %d instead of %d" % (what, (got != want).sum(), got.size, i, got[i], want[i]))


def FMT(bpp):
    return {8: ["png", "pgm"], 16: ["png", "pgm"], 24: ["png", "ppm"]}[bpp]


@C.facet("roundtrip", st.tuples(images(), st.integers(0, 1), st.booleans()), quick=4000, thorough=60000, shards=4)
def roundtrip(case):
    c, ifmt, upper = case
    ext = FMT(c["bpp"])[ifmt]
    label("%d %s" % (c["bpp"], ext)); label(c["layout"])
    a = pixels(c)
    l = lay(a, c)
    a = a.copy()
    if a.min() == a.max():
        trivial()
    p = "%s/a.%s" % (tmp(), ext.upper() if upper else ext)
    if os.path.exists(p):
        os.unlink(p)
    assert (l == a).all()
    mrcal.save_image(p, l)
    if not (l == a).all():
        raise Violation("save_image() changed the image")
    g = mrcal.load_image(p)
    same("load_image(save_image())", g, a)
    if not g.flags["C_CONTIGUOUS"] or not g.flags["WRITEABLE"]:
        raise Violation("the image is not an ordinary array: %s" % g.flags)
    for path in (p, p.encode()):
        if path is p:
            same("load_image() with the format given", mrcal.load_image(path, bits_per_pixel=c["bpp"], channels=1 + 2 * (c["bpp"] == 24)), a)
    # other software reads the same thing
    if ext != "png":
        r = read_pnm(p)
        if c["bpp"] == 24:
            r = r[..., ::-1]
        r = r.astype(a.dtype)
        if c["bpp"] == 16 and (r == a.byteswap()).all() and not (r == a).all():
            pbt.known("pgm16-byte-order", "a 16-bit .pgm file has its bytes in the order of the machine, not the most significant one first")
        same("the %s file" % ext, r, a)
    elif cv2 is not None:
        same("the png file read by opencv", cv2.imread(p, cv2.IMREAD_UNCHANGED), a)


@C.facet("convert", st.tuples(images(), st.integers(0, 3)), quick=3000, thorough=40000, shards=3)
def convert(case):
    """conversions when loading"""
    c, ifmt = case
    a = pixels(c)
    if a.min() == a.max():
        trivial()
    bpp = c["bpp"]
    if ifmt == 2 and bpp == 24 and cv2 is not None:
        # an alpha channel is ignored
        label("alpha")
        p = tmp() + "/b.png"
        al = np.random.default_rng(c["seed"]).integers(0, 256, a.shape[:2] + (1,)).astype(np.uint8)
        cv2.imwrite(p, np.concatenate((a, al), -1))
        same("an image with an alpha channel", mrcal.load_image(p), a)
    elif ifmt == 3 and cv2 is not None:
        label("by opencv")
        p = tmp() + "/c.png"
        cv2.imwrite(p, a)
        same("a file written by opencv", mrcal.load_image(p), a)
    else:
        p = tmp() + "/d." + FMT(bpp)[ifmt % 2]
        mrcal.save_image(p, a)
    for want, ch in ((8, 1), (16, 1), (24, 3)):
        try:
            g = mrcal.load_image(p, bits_per_pixel=want, channels=ch)
        except Exception as e:
            g = None
        label("%d to %d" % (bpp, want))
        if want == 16 and bpp != 16 or want == 24 and bpp == 16:
            if g is not None:
                raise Violation("a %d-bit image can be loaded as a %d-bit one: that isn't supported" % (bpp, want))
            continue
        if g is None:
            raise Violation("a %d-bit image cannot be loaded as a %d-bit one" % (bpp, want))
        if bpp == want:
            w = a
        elif bpp == 8:
            w = np.stack((a, a, a), -1)
        elif bpp == 24:
            e = a.astype(float) @ (.114, .587, .299)
            if g.shape != e.shape or g.dtype != np.uint8 or np.abs(g - e).max() > 1.5:
                raise Violation("BGR loaded as gray: %s %s: off by %s" % (g.dtype, g.shape, np.abs(g - e).max() if g.shape == e.shape else "?"))
            continue
        else:
            # stretch equalization
            lo, hi = int(a.min()), int(a.max())
            if g.shape != a.shape or g.dtype != np.uint8:
                raise Violation("16-bit loaded as 8-bit: %s %s" % (g.dtype, g.shape))
            if lo == hi:
                if (g != g.flat[0]).any():
                    raise Violation("a constant 16-bit image loaded as 8-bit is not constant")
                continue
            e = (a.astype(float) - lo) * 255 / (hi - lo)
            d = np.abs(g - e)
            if d.max() > .502:
                i = np.unravel_index(d.argmax(), d.shape)
                raise Violation("stretch equalization of values %d...%d: %d becomes %d instead of %.2f" % (lo, hi, a[i], g[i], e[i]))
            continue
        same("%d-bit loaded as %d-bit" % (bpp, want), g, w)


@C.facet("jpg", st.tuples(images(kinds=(8, 24), maxn=64)), quick=1000, thorough=10000, shards=2)
def jpg(case):
    """jpg is lossy, but smooth images survive to a few levels"""
    c, = case
    r = np.random.default_rng(c["seed"])
    h, w = c["h"], c["w"]
    y, x = np.mgrid[:h, :w] / 64.
    ch = [(128 + 110 * np.sin(r.uniform(-4, 4) * x + r.uniform(-4, 4) * y + r.uniform(0, 6))) for i in range(3 if c["bpp"] == 24 else 1)]
    a = (np.stack(ch, -1) if c["bpp"] == 24 else ch[0]).round().astype(np.uint8)
    l = lay(a, c)
    label("%d" % c["bpp"]); label(c["layout"])
    p = tmp() + "/e.jpg"
    mrcal.save_image(p, l)
    g = mrcal.load_image(p)
    if g.shape != a.shape or g.dtype != np.uint8:
        raise Violation("the jpg is %s %s; was %s" % (g.shape, g.dtype, a.shape))
    d = np.abs(g.astype(int) - l)
    if d.max() > 20 or d.mean() > 3:
        raise Violation("jpg: a smooth image comes back off by up to %d, %.1f on average" % (d.max(), d.mean()))
    if cv2 is not None:
        v = cv2.imread(p, cv2.IMREAD_UNCHANGED)
        if v is None or v.shape != a.shape or np.abs(v.astype(int) - l).max() > 20:
            raise Violation("the jpg file read by opencv is not the image")


BAD = ["16 jpg", "24 pgm", "8 ppm", "16 ppm", "bmp", "noext", "short", "dir", "full pgm", "full ppm", "full png", "full jpg", "4 channels", "2 channels", "float", "int16", "bool", "1d", "4d",
       "empty", "empty2", "not dense", "not dense3", "list", "bgr16", "load missing", "load garbage", "load truncated", "load bpp only", "load channels only", "load 8 3", "load 24 1", "load 7", "big endian"]


@C.facet("invalid", st.tuples(st.sampled_from(BAD), images()), quick=400, thorough=6000, shards=2)
def invalid(case):
    """an exception, or the right thing"""
    k, c = case
    label(k)
    a = pixels(c)
    d = tmp()
    p = d + "/f.png"
    im = lambda bpp: pixels(dict(c, bpp=bpp))
    w = k.split()
    if k.startswith("load"):
        mrcal.save_image(p, a)
        b = open(p, "rb").read()
        args = {}
        if k == "load missing":
            p = d + "/nothere.png"
        elif k == "load garbage":
            open(p, "wb").write(np.random.default_rng(c["seed"]).bytes(200))
        elif k == "load truncated":
            open(p, "wb").write(b[:int(len(b) * (c["seed"] % 50) / 100)])
        elif k == "load bpp only":
            args = dict(bits_per_pixel=c["bpp"])
        elif k == "load channels only":
            args = dict(channels=3)
        elif k == "load 8 3":
            args = dict(bits_per_pixel=8, channels=3)
        elif k == "load 24 1":
            args = dict(bits_per_pixel=24, channels=1)
        else:
            args = dict(bits_per_pixel=7, channels=1)
        f = lambda: mrcal.load_image(p, **args)
    else:
        if k == "big endian":
            a = im(16)
            b = a.astype(">u2")
            try:
                mrcal.save_image(p, b)
            except Exception:
                return
            same("a big-endian array that was saved", mrcal.load_image(p), a)
            return
        if w[0] in ("8", "16", "24"):
            a, p = im(int(w[0])), d + "/f." + w[1]
        elif k == "bmp":
            p = d + "/f.bmp"
        elif k == "noext":
            p = d + "/fpng"
        elif k == "short":
            p = "/x"
        elif k == "dir":
            p = d + "/nothere/f.png"
        elif w[0] == "full":
            # nothing can be written: the disk is full
            a = im(24 if w[1] == "ppm" else 8)
            p = d + "/full." + w[1]
            if not os.path.lexists(p):
                os.symlink("/dev/full", p)
        elif k == "4 channels":
            a = np.dstack((im(24), im(8)))
        elif k == "2 channels":
            a = np.ascontiguousarray(im(24)[..., :2])
        elif k in ("float", "int16", "bool"):
            a = im(8).astype(k)
        elif k == "1d":
            a = im(8).ravel()
        elif k == "4d":
            a = im(24)[None]
        elif k == "empty":
            a = im(8)[:0]
        elif k == "empty2":
            a = im(24)[:, :0]
        elif k == "not dense":
            a = np.repeat(im(8), 2, -1)
            a = np.concatenate((a, a), 1)[:, ::2]
        elif k == "not dense3":
            a = np.concatenate((im(24), im(24)), 1)[..., ::-1]
        elif k == "list":
            a = im(8).tolist()
        elif k == "bgr16":
            a = im(24).astype(np.uint16)
        f = lambda: mrcal.save_image(p, a)
    try:
        f()
    except Exception:
        return
    raise Violation("%s: no error" % k)


# ----------------------------------------------------------------------------------------------- color maps
R = math.radians
FUNC = [lambda x: 0, lambda x: .5, lambda x: 1, lambda x: x, lambda x: x**2, lambda x: x**3, lambda x: x**4, lambda x: x**.5, lambda x: x**.25,
        lambda x: math.sin(R(90 * x)), lambda x: math.cos(R(90 * x)), lambda x: abs(x - .5), lambda x: (2 * x - 1)**2, lambda x: math.sin(R(180 * x)), lambda x: abs(math.cos(R(180 * x))),
        lambda x: math.sin(R(360 * x)), lambda x: math.cos(R(360 * x)), lambda x: abs(math.sin(R(360 * x))), lambda x: abs(math.cos(R(360 * x))),
        lambda x: abs(math.sin(R(720 * x))), lambda x: abs(math.cos(R(720 * x))), lambda x: 3 * x, lambda x: 3 * x - 1, lambda x: 3 * x - 2, lambda x: abs(3 * x - 1), lambda x: abs(3 * x - 2),
        lambda x: (3 * x - 1) / 2, lambda x: (3 * x - 2) / 2, lambda x: abs((3 * x - 1) / 2), lambda x: abs((3 * x - 2) / 2), lambda x: x / .32 - .78125, lambda x: 2 * x - .84,
        lambda x: 4 * x if x < .42 else -2 * x + 1.84 if x < .92 else x / .08 - 11.5, lambda x: abs(2 * x - .5), lambda x: 2 * x, lambda x: 2 * x - .5, lambda x: 2 * x - 1]


def color(f, x):
    if f < 0:
        x, f = 1 - x, -f
    return 255 * min(max(FUNC[f](x), 0), 1)


DT = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64"]


@st.composite
def arrays(draw):
    dt = draw(st.sampled_from(DT))
    shape = draw(st.one_of(st.lists(st.integers(1, 12), min_size=2, max_size=2), st.lists(st.integers(1, 4), min_size=0, max_size=4)))
    return dict(dt=dt, shape=shape, seed=draw(gens.seeds), content=draw(st.sampled_from(["full", "mid", "narrow", "negative", "positive", "constant"])), e=draw(fl(-3, 8)),
                lim=draw(st.sampled_from(["", "", "min", "max", "both", "both"])), limpos=[draw(fl(-1.5, 1.5)), draw(fl(-1.5, 1.5))],
                f=draw(st.one_of(st.none(), st.lists(st.integers(-36, 36), min_size=3, max_size=3))), layout=draw(st.sampled_from(["dense", "padded", "flip", "out", "outflip"])))


def values(c):
    dt = np.dtype(c["dt"])
    r = np.random.default_rng(c["seed"])
    n = int(np.prod(c["shape"]))
    k = c["content"]
    if dt.kind == "f":
        s = 10**c["e"]
        a = dict(full=lambda: r.uniform(-s, s, n), mid=lambda: r.normal(size=n) * s + 3 * s, narrow=lambda: s + s * r.uniform(0, 1e-2, n), negative=lambda: -r.uniform(.01, 1, n) * s,
                 positive=lambda: r.uniform(.01, 1, n) * s, constant=lambda: np.full(n, s * r.choice((-1, 0, 1))))[k]()
        return a.astype(dt).reshape(c["shape"])
    i = np.iinfo(dt)
    lo, hi = int(i.min), int(i.max)
    if k == "mid":
        lo, hi = lo // 2, hi // 2
    elif k == "narrow":
        lo = int(r.integers(0, hi // 2)); hi = lo + 10
    elif k == "negative" and lo < 0:
        hi = -1
    elif k == "positive":
        lo = hi // 4
    elif k == "constant":
        lo = hi = int(r.integers(lo // 2, hi // 2 + 1))
    a = [lo + int(Fraction(float(u)) * (hi - lo)) for u in r.uniform(size=n)]
    if n > 1 and r.integers(2):
        a[int(r.integers(n))] = lo
        a[int(r.integers(n))] = hi
    return np.array(a, dtype=dt).reshape(c["shape"])


@C.facet("colormap", arrays(), quick=6000, thorough=100000, shards=4)
def colormap(c):
    a = values(c)
    label(c["dt"]); label(c["content"]); label("%dD" % a.ndim)
    if a.size == 1 or a.min() == a.max():
        trivial()
    kw = {}
    F = c["f"] if c["f"] is not None else [7, 5, 15]
    if c["f"] is not None:
        kw = dict(function_red=F[0], function_green=F[1], function_blue=F[2])
    lo, hi = a.min(), a.max()
    # limits: at the quantiles of the data, or outside it
    flo, fhi = float(lo), float(hi)
    span = fhi - flo or 1.
    ilim = None if a.dtype.kind == "f" else np.iinfo(a.dtype)
    L = [None, None]
    for i, n in enumerate(("min", "max")):
        if c["lim"] in (n, "both"):
            v = (flo + fhi) / 2 + c["limpos"][i] * span
            if ilim is not None:
                v = float(round(min(max(v, float(ilim.min)), float(ilim.max))))
                if v >= 2.**63 - 1e3:
                    v = 2.**62
            elif a.dtype == np.float32:
                v = float(np.float32(v))
            L[i] = v
    if L[0] is not None and L[1] is not None and L[0] > L[1]:
        L = L[::-1]
    for i, n in enumerate(("a_min", "a_max")):
        if L[i] is not None:
            kw[n] = L[i]
            label(n)
    src = a
    if a.ndim >= 2 and c["layout"] == "padded":
        b = np.empty(a.shape[:-1] + (a.shape[-1] + 1 + c["seed"] % 3,), dtype=a.dtype)
        src = b[..., :a.shape[-1]]
        src[...] = a
        label("padded")
    elif a.ndim >= 2 and c["layout"] == "flip":
        src = np.ascontiguousarray(a[..., ::-1, :])[..., ::-1, :]
        label("flipped")
    elif a.ndim == 2 and c["layout"] in ("out", "outflip"):
        h, w = a.shape
        b = np.full((h, 3 * w + c["seed"] % 5), 7, dtype=np.uint8)[::-1 if c["layout"] == "outflip" else 1]
        kw["out"] = np.lib.stride_tricks.as_strided(b, shape=(h, w, 3), strides=(b.strides[0], 3, 1))
        label(c["layout"])
    got = mrcal.apply_color_map(src, **kw)
    if "out" in kw:
        got = kw["out"]
        if (b[:, 3 * w:] != 7).any():
            raise Violation("apply_color_map(out=) wrote between the rows")
    if got.dtype != np.uint8:
        raise Violation("apply_color_map() returns %s" % got.dtype)
    if got.shape != a.shape + (3,):
        if a.ndim < 2 and got.shape == (1,) * (2 - a.ndim) + a.shape + (3,):
            pbt_known_shape(got, a)
            got = got.reshape(a.shape + (3,))
        else:
            raise Violation("apply_color_map() of shape %s returns %s" % (a.shape, got.shape))

    def expected(a):
        mn = Fraction(L[0]) if L[0] is not None else min(frac(v) for v in a.flat)
        mx = Fraction(L[1]) if L[1] is not None else max(frac(v) for v in a.flat)
        o = np.zeros(a.shape + (3,))
        for i in np.ndindex(*a.shape):
            v = frac(a[i])
            x = 0. if v <= mn else 1. if v >= mx else float((v - mn) / (mx - mn))
            o[i] = [color(f, x) for f in (F[2], F[1], F[0])]
        return o

    def wrong(e):
        d = np.abs(got - e)
        # a small error in x is magnified by steep functions: sqrt(sqrt(x)) only at 0, where it's relative
        return d > .5 + .02
    e = expected(a)
    w = wrong(e)
    if w.any():
        if a.ndim > 2 and (L[0] is None or L[1] is None):
            s = a.reshape((-1,) + a.shape[-2:])
            if not wrong(np.stack([expected(k) for k in s]).reshape(e.shape)).any():
                known_slices()
                return
        i = tuple(np.argwhere(w)[0])
        raise Violation("apply_color_map(%s array of %s...%s, a_min=%s, a_max=%s, functions %s)[%s] = %d instead of %.2f, for the value %r" % (
            a.dtype, lo, hi, L[0], L[1], F, i, got[i], e[i], a[i[:-1]]))


def frac(v):
    return Fraction(int(v)) if v.dtype.kind != "f" else Fraction(float(v))


def pbt_known_shape(got, a):
    msg = "apply_color_map() of an array of shape %s returns the shape %s" % (a.shape, got.shape)
    if not soft("colormap-shape", msg):
        raise Violation(msg)


def known_slices():
    msg = "apply_color_map() of an array with more than 2 dimensions uses the limits of each 2-dimensional slice instead of array.min(), array.max()"
    if not soft("colormap-slices", msg):
        raise Violation(msg)


def soft(key, msg):
    """like pbt.known(), but the case goes on"""
    w = pbt._cur
    if w is not None and key in w.known:
        w.known_hit.setdefault(key, msg)
        return True
    return False


@C.facet("colormap-invalid", st.tuples(arrays(), st.sampled_from(["function", "notdense", "complex", "bool", "out shape", "out dtype"]), st.integers(37, 1000), st.booleans()), quick=200, thorough=3000)
def colormap_invalid(case):
    c, k, n, neg = case
    label(k)
    c = dict(c, shape=[4, 5])
    a = values(c)
    kw = {}
    if k == "function":
        kw = {"function_" + "red green blue".split()[n % 3]: -n if neg else n}
    elif k == "notdense":
        a = np.concatenate((a, a), 1)[:, ::2]
    elif k in ("complex", "bool"):
        a = a.astype(k)
    elif k == "out shape":
        kw = dict(out=np.zeros((4, 5, 4), dtype=np.uint8))
    else:
        kw = dict(out=np.zeros((4, 5, 3), dtype=np.uint16))
    try:
        g = mrcal.apply_color_map(a, **kw)
    except Exception:
        return
    raise Violation("apply_color_map() with %s: no error" % k)


if __name__ == "__main__":
    C.main()
