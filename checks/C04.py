#!/usr/bin/python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Violation, label, trivial, reject, note
pbt.build_and_import()
import ctypes, re
import numpy as np
from hypothesis import strategies as st
import mrcal
import ref, gens, capi
from gens import fl, vec

C = pbt.Check("C04", "lens model names, configurations, metadata",
              "Cases: lens model names from a grammar of valid names, damaged by edits (characters inserted, removed or changed; fields dropped, repeated, "
              "reordered; numbers out of range, signed, with spaces), and unrelated strings; output buffer sizes. Oracle: a strict regular expression, and "
              "formulas for the parameter counts and the knots. Non-trivial: distinct names.",
              assumptions=["hexadecimal numbers (0x1p3) and exponents with no digits (1e: glibc scanf reads them) in the CAHVORE linearity are not judged"])
PLAIN = ["LENSMODEL_PINHOLE", "LENSMODEL_STEREOGRAPHIC", "LENSMODEL_LONLAT", "LENSMODEL_LATLON", "LENSMODEL_CAHVOR",
         "LENSMODEL_OPENCV4", "LENSMODEL_OPENCV5", "LENSMODEL_OPENCV8", "LENSMODEL_OPENCV12"]
SPL, CAV = "LENSMODEL_SPLINED_STEREOGRAPHIC", "LENSMODEL_CAHVORE"
MISSINGCONFIG, INVALID, BADCONFIG, BADTYPE = -3, -2, -1, -4      # mrcal_lensmodel_type_t


def classify(name):
    """-> (kind, config). kind: ok, missing, badconfig, badtype, unknown"""
    if name in PLAIN:
        return "ok", None
    for base in (SPL, CAV):
        if name == base:
            return "missing", None
        if name.startswith(base + "_"):
            c = name[len(base):]
            if base == CAV:
                m = re.fullmatch(r"_linearity=([+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?)", c, re.ASCII)
                if m:
                    x = float(m.group(1))
                    return ("ok", x) if np.isfinite(x) else ("badconfig", None)
                if re.fullmatch(r"_linearity=([+-]?0[xX].*|.*[eE][+-]?)", c):
                    return "unknown", None
                return "badconfig", None
            m = re.fullmatch(r"_order=([23])_Nx=(\d+)_Ny=(\d+)_fov_x_deg=(\d+)", c, re.ASCII)
            if not m:
                return "badconfig", None
            o, nx, ny, f = [int(x) for x in m.groups()]
            if any(len(x) > 1 and x[0] == "0" for x in m.groups()) and max(nx, ny, f) < 65536:
                return "unknown", None     # leading zeros: either way is fine
            if o + 1 <= nx < 65536 and o + 1 <= ny < 65536 and 0 < f < 360:
                return "ok", (o, nx, ny, f)
            return "badconfig", None
    return "badtype", None


num = st.one_of(st.integers(0, 40), st.sampled_from([0, 1, 2, 3, 4, 5, 30, 359, 360, 361, 65535, 65536, 65540, 70000, 2**31, 2**32 + 7, 2**64 + 5, 10**30]))
fnum = st.one_of(fl(-2, 2).map(lambda x: "%.2f" % x), fl(-1e3, 1e3).map(repr), st.sampled_from(
    ["0", "1", "-1", "+.5", ".5", "1.", "1e-3", "1E5", "1e400", "nan", "inf", "-inf", "-nan", "", "0x10", "1,5", "1e", "--1", "1-", "infinity", "NAN(1)", "-", "+", "."]))


@st.composite
def names(draw):
    k = draw(st.integers(0, 9))
    if k == 0:
        s = draw(st.sampled_from(PLAIN))
    elif k <= 3:
        s = CAV + "_linearity=" + draw(fnum)
    elif k <= 7:
        small = draw(st.booleans())
        n = st.integers(4, 40) if small else num
        f = [["order", str(draw(st.sampled_from([2, 3])) if draw(st.integers(0, 3)) else draw(num))], ["Nx", str(draw(n))], ["Ny", str(draw(n))], ["fov_x_deg", str(draw(n))]]
        e = draw(st.integers(0, 7))
        if e == 0:
            f = draw(st.permutations(f))
        elif e == 1:
            f = f[:draw(st.integers(0, 3))]
        elif e == 2:
            f = f + [draw(st.sampled_from(f))]
        elif e == 3:
            j = draw(st.integers(0, 3))
            f[j][1] = draw(st.sampled_from([" ", "+", "-", "", "0", "\t", "0x", "-0", " -", "\n"])) + f[j][1] + draw(st.sampled_from(["", "", "", " ", ".", ".0", "_", "e0"]))
        s = SPL + "".join("_%s=%s" % tuple(x) for x in f)
    elif k == 8:
        s = draw(st.sampled_from([SPL, CAV, "LENSMODEL_OPENCV", "LENSMODEL_OPENCV6", "LENSMODEL_", "", "LENSMODEL_CAHV", "CAHVOR", "LENSMODEL_CAHVORE_", SPL + "_",
                                  "LENSMODEL_PINHOLE_", "LENSMODEL_CAHVORE_linearity", "LENSMODEL_CAHVORE_linearity=0.3_order=3", "LENSMODEL_USER", "LENSMODEL_CAHVORElinearity=1"]))
    else:
        s = draw(st.text(st.characters(min_codepoint=32, max_codepoint=126), max_size=30))
        if draw(st.booleans()):
            s = "LENSMODEL_" + s
    for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2]))):
        e, i = draw(st.integers(0, 3)), draw(st.integers(0, len(s)))
        c = draw(st.sampled_from(list("_=0123459 .-+xaNEL")))
        if e == 0:
            s = s[:i] + c + s[i:]
        elif e == 1:
            s = s[:i] + s[i + 1:]
        elif e == 2:
            s = s[:i] + c + s[i + 1:]
        else:
            s = s[:i]
    return s


class Lensmodel(ctypes.Structure):
    class U(ctypes.Union):
        _fields_ = [("linearity", ctypes.c_double), ("splined", ctypes.c_uint16 * 4)]
    _fields_ = [("type", ctypes.c_int), ("u", U)]


def config_of(lm, name):
    if name.startswith(SPL):
        return tuple(lm.u.splined)
    if name.startswith(CAV):
        return lm.u.linearity
    return None


def from_name(name):
    f = capi.lib().mrcal_lensmodel_from_name
    f.restype = ctypes.c_bool
    lm = Lensmodel()
    ctypes.memset(ctypes.byref(lm), 0x5a, ctypes.sizeof(lm))
    ok = f(ctypes.byref(lm), name.encode())
    return ok, lm


@C.facet("parse", st.fixed_dictionaries(dict(name=names(), size=st.integers(0, 120))), quick=8000, thorough=400000)
def parse(case):
    name = case["name"]
    if "\0" in name:
        reject()
    kind, cfg = classify(name)
    label(kind)
    ok, lm = from_name(name)
    if kind == "unknown":
        reject()
    if ok != (kind == "ok"):
        raise Violation("mrcal_lensmodel_from_name(%r) %s" % (name, "accepted a malformed name, as %s" % (config_of(lm, name),) if ok else "rejected a valid name"))
    t = capi.lib().mrcal_lensmodel_type_from_name(name.encode())
    base = [b for b in (SPL, CAV) if name == b or name.startswith(b + "_")]
    istype = name in PLAIN or base
    if (t >= 0) != bool(istype):
        raise Violation("mrcal_lensmodel_type_from_name(%r) is %d" % (name, t))
    # the Python side
    for fn in (mrcal.lensmodel_num_params, mrcal.lensmodel_metadata_and_config):
        try:
            fn(name)
            pyok = True
        except Exception:
            pyok = False
        if pyok != ok:
            raise Violation("%s(%r) %s, but the C parser %s" % (fn.__name__, name, "works" if pyok else "raises", "accepts it" if ok else "rejects it"))
    if not ok:
        want = dict(missing=MISSINGCONFIG, badconfig=BADCONFIG)
        if kind in want and lm.type != want[kind] or kind == "badtype" and lm.type not in (BADTYPE, INVALID, -4):
            raise Violation("mrcal_lensmodel_from_name(%r) reports error %d: the name is %s" % (name, lm.type, kind))
        if lm.type >= 0:
            raise Violation("mrcal_lensmodel_from_name(%r) failed, with the valid type %d" % (name, lm.type))
        return
    if lm.type != t:
        raise Violation("%r: mrcal_lensmodel_from_name() gives type %d, mrcal_lensmodel_type_from_name() gives %d" % (name, lm.type, t))
    if config_of(lm, name) != cfg:
        raise Violation("%r parses to the configuration %s" % (name, config_of(lm, name)))
    # back to a name, in a buffer of every size
    f = capi.lib().mrcal_lensmodel_name
    f.restype = ctypes.c_bool
    buf = ctypes.create_string_buffer(b"\x7e" * 399, 400)
    if not f(buf, ctypes.c_int(300), ctypes.byref(lm)):
        raise Violation("mrcal_lensmodel_name() failed for %r" % name)
    s = buf.value.decode()
    if buf.raw[300:399] != b"\x7e" * 99:
        raise Violation("mrcal_lensmodel_name() wrote past the end")
    if name.startswith(CAV):
        ok2, lm2 = from_name(s)
        if not ok2 or abs(lm2.u.linearity - cfg) > 1e-8 * abs(cfg):
            raise Violation("%r is written as %r" % (name, s))
    elif s != name:
        raise Violation("%r is written as %r" % (name, s))
    n = case["size"]
    buf = ctypes.create_string_buffer(b"\x7e" * 399, 400)
    r = f(buf, ctypes.c_int(n), ctypes.byref(lm))
    if r != (n > len(s)):
        raise Violation("mrcal_lensmodel_name(%r) in a buffer of %d bytes returned %s" % (s, n, r))
    if r and buf.value.decode() != s or buf.raw[n:399] != b"\x7e" * (399 - n):
        raise Violation("mrcal_lensmodel_name(%r) in a buffer of %d bytes wrote %r" % (s, n, buf.raw[:n + 20]))
    g = capi.lib().mrcal_lensmodel_name_unconfigured
    g.restype = ctypes.c_char_p
    u = g(ctypes.byref(lm)).decode()
    # configured models: a template
    if not (u == name if name in PLAIN else u.startswith(base[0] + "_")):
        raise Violation("mrcal_lensmodel_name_unconfigured() of %r is %r" % (name, u))


@C.facet("metadata", st.one_of(st.sampled_from(PLAIN), fl(-2, 2).map(lambda x: CAV + "_linearity=%.3f" % x), gens.splined_name(maxn=40, fov=(1, 359))).map(lambda m: dict(m=m)), quick=600, thorough=20000)
def metadata(case):
    m = case["m"]
    kind, cfg = classify(m)
    label(m.split("_")[1])
    n = mrcal.lensmodel_num_params(m)
    if n != ref.num_params(m):
        raise Violation("lensmodel_num_params(%s) is %d" % (m, n))
    d = mrcal.lensmodel_metadata_and_config(m)
    want = dict(has_core=1, has_gradients=1, noncentral=int(m.startswith(CAV)),
                can_project_behind_camera=int(m.startswith(SPL) or m in ("LENSMODEL_STEREOGRAPHIC", "LENSMODEL_LONLAT", "LENSMODEL_LATLON")))
    if m.startswith(SPL):
        want.update(zip(("order", "Nx", "Ny", "fov_x_deg"), cfg))
    if m.startswith(CAV):
        want["linearity"] = cfg
    if d != want:
        raise Violation("lensmodel_metadata_and_config(%s) is %s, and not %s" % (m, d, want))
    i = np.array([1000., 1000, 500, 400] + [0.] * (n - 4))
    if m.startswith("LENSMODEL_CAHVOR"):
        i[4:] = 0
    q = mrcal.project(np.array((.1, .1, 1.)), m, i)
    if q.shape != (2,) or not np.isfinite(q).all():
        raise Violation("project(%s) with %d parameters gives %s" % (m, n, q))
    if m.startswith(SPL) or m.startswith(CAV):
        pass
    for bad in (i[:-1], np.append(i, 0.), i[:3]):
        for f in (lambda: mrcal.project(np.array((.1, .1, 1.)), m, bad), lambda: mrcal.unproject(np.array((500., 400.)), m, bad),
                  lambda: mrcal.cameramodel(intrinsics=(m, bad), imagersize=(1000, 800))):
            try:
                f()
            except Exception:
                continue
            raise Violation("%s needs %d parameters, but %d were accepted" % (m, n, len(bad)))
    mm = mrcal.cameramodel(intrinsics=(m, i), imagersize=(1000, 800))
    if mm.intrinsics()[0] != m or (mm.intrinsics()[1] != i).any():
        raise Violation("cameramodel.intrinsics() differs")
    if not m.startswith(SPL):
        try:
            mrcal.knots_for_splined_models(m)
        except Exception:
            return
        raise Violation("knots_for_splined_models(%s) did not raise" % m)
    ux, uy = mrcal.knots_for_splined_models(m)
    o, nx, ny, fov = cfg
    s = ref.splined_segments_per_u(m)
    for u, N in ((ux, nx), (uy, ny)):
        w = (np.arange(N) - (N - 1) / 2.) / s
        if u.shape != (N,) or not np.allclose(u, w, rtol=1e-11, atol=1e-13 / s):
            raise Violation("knots_for_splined_models(%s): %s, and not %s" % (m, u, w))
    # the requested field of view is covered, exactly: the projection is defined by the knots up to the edge, in x
    edge = 2 * np.tan(np.radians(fov) / 4)
    lo = ux[1 if o == 3 else 0] + (0 if o == 3 else .5 / s)
    if abs(lo + edge) > 1e-9 * edge:
        raise Violation("knots_for_splined_models(%s): the surface begins at u=%g. The edge of the field of view is %g" % (m, lo, -edge))


@C.facet("supported", cases=[dict(n=k) for k in range(20)])
def supported(case):
    names = mrcal.supported_lensmodels()
    if case["n"] == 19:
        base = sorted(n.split("_order=")[0].split("_linearity=")[0] for n in names)
        if base != sorted(PLAIN + [SPL, CAV]):
            raise Violation("supported_lensmodels() is %s" % (names,))
    if case["n"] >= len(names):
        trivial()
        return
    n = names[case["n"]]
    vals = dict(order="3", Nx="8", Ny="7", fov_x_deg="100", linearity="0.5")
    full = re.sub(r"_(order|Nx|Ny|fov_x_deg|linearity)=\.\.\.", lambda m: "_%s=%s" % (m.group(1), vals[m.group(1)]), n)
    if classify(full)[0] != "ok" or mrcal.lensmodel_num_params(full) != ref.num_params(full):
        raise Violation("supported_lensmodels() lists %s" % n)


if __name__ == "__main__":
    C.main()
