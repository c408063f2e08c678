#!/usr/bin/python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Violation, label, trivial, reject, note
BDIR = pbt.build_and_import()
import numpy as np
import io, re, struct, subprocess, tempfile, warnings
from hypothesis import strategies as st
import mrcal, mvbuild
import ref, gens, problem
from gens import fl

warnings.simplefilter("ignore")
C = pbt.Check("C17", "camera models survive being written and read",
              "Cases: models of every lens family with values over many decades, regions, notes; histories of setters, getters, copies, write/read "
              "cycles and tampering with arrays, against a model of the state; model files with benign syntactic variations (both readers must agree), "
              "definite errors (both must reject) and byte-level mutations (the C reader runs under AddressSanitizer, in all 6 entry points). Non-trivial: all but empty histories.",
              assumptions=["finite parameters only: nan and inf are not representable in the format",
                           "the strings of unknown keys contain no quotes or backslashes: the C reader documents no escapes"])


def harness():
    if not hasattr(harness, "p"):
        harness.p = mvbuild.build_program(
            BDIR, "readmodel", [os.path.join(pbt.VERIF, "harness/readmodel.c")],
            [x for x in ("cameramodel-parser_GENERATED.c",) if os.path.exists(os.path.join(BDIR, x))],
            flags=("-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-O1"),
            libs=("-L" + BDIR, "-lmrcal", "-Wl,-rpath," + BDIR, "-Wl,--unresolved-symbols=ignore-all", "-Wl,-z,lazy"))
    return harness.p


harness()


def cread(reqs):
    """reqs: [(mode, bytes)] -> list of None | (name, imagersize, rt, intrinsics); the written file for mode 6"""
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "x.cameramodel")
        data = b"".join(struct.pack("II", m, len(b)) + b for m, b in reqs)
        r = subprocess.run([harness(), path], input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120,
                           env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:exitcode=86", UBSAN_OPTIONS="exitcode=86"))
        lines = r.stdout.decode(errors="replace").splitlines()
        if r.returncode != 0 or len(lines) != len(reqs):
            i = len(lines)
            err = r.stderr.decode(errors="replace")
            k = max(err.find("ERROR: AddressSanitizer"), err.find("runtime error"))
            bad = reqs[i] if i < len(reqs) else None
            if r.returncode == 3:
                raise pbt.HarnessError("harness could not do its i/o")
            raise Violation("the C reader crashed (exit %d) on mode %s input %r\n%s"
                            % (r.returncode, bad and bad[0], bad and bad[1][:3000], err[max(k, 0):][:1500]))
        written = open(path, "rb").read() if reqs and reqs[-1][0] == 6 and lines[-1].startswith("OK") else None
    out = []
    for l in lines:
        f = l.split()
        if f[0] == "FAIL":
            if len(f) > 1 and f[1] != "huge":
                raise Violation("C reader: %s" % l)
            out.append(None)
        elif f[0] == "OK" and len(f) >= 10:
            x = [float.fromhex(v) for v in f[4:]]
            out.append((f[1], (int(f[2]), int(f[3])), np.array(x[:6]), np.array(x[6:])))
        else:
            raise Violation("C reader: %s" % l)
    return (out, written) if reqs and reqs[-1][0] == 6 else out


def pyread(text):
    try:
        m = mrcal.cameramodel(io.StringIO(text))
    except Exception:
        return None
    return (m.intrinsics()[0], tuple(int(x) for x in m.imagersize()), m.rt_cam_ref(), m.intrinsics()[1])


def samelens(a, b):
    if a == b:
        return True
    try:
        return mrcal.lensmodel_metadata_and_config(a) == mrcal.lensmodel_metadata_and_config(b) and a.split("=")[0] == b.split("=")[0]
    except Exception:
        return False


def same(a, b):
    """exact: both readers parse the same decimal numbers"""
    return samelens(a[0], b[0]) and a[1] == b[1] and np.array_equal(a[2], b[2]) and np.array_equal(a[3], b[3])


def close10(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 5.001e-10 * np.abs(a)))


# ---------------------------------------------------------------- models
LENS = st.sampled_from(("LENSMODEL_PINHOLE", "LENSMODEL_STEREOGRAPHIC", "LENSMODEL_LONLAT", "LENSMODEL_LATLON", "LENSMODEL_OPENCV4",
                        "LENSMODEL_OPENCV5", "LENSMODEL_OPENCV8", "LENSMODEL_OPENCV12", "LENSMODEL_CAHVOR", "CAHVORE", "SPLINED"))
MODEL = st.fixed_dictionaries(dict(
    lens=LENS, seed=st.integers(0, 2**32 - 1), lin=fl(0, 1), nx=st.integers(4, 30), ny=st.integers(4, 20), fov=st.integers(10, 300),
    order=st.sampled_from((2, 3)), decades=st.sampled_from((0, 0, 3, 12, 200)), W=st.sampled_from((1, 640, 1280, 6016, 65536, 2**31 - 1)),
    H=st.sampled_from((1, 480, 960, 4000)), region=st.sampled_from(("none", "none", "empty", "open", "closed", "almost", "int")),
    nreg=st.integers(3, 12), special=st.sampled_from(("", "", "zeros", "ints", "exact"))))


def lensname(c):
    if c["lens"] == "CAHVORE":
        return "LENSMODEL_CAHVORE_linearity=%.3g" % c["lin"]
    if c["lens"] == "SPLINED":
        return "LENSMODEL_SPLINED_STEREOGRAPHIC_order=%d_Nx=%d_Ny=%d_fov_x_deg=%d" % (c["order"], c["nx"], c["ny"], c["fov"])
    return c["lens"]


def values(g, n, c):
    x = g.normal(size=n) * 10.**(c["decades"] * g.uniform(-1, 1, n))
    if c["special"] == "zeros":
        x[g.random(n) < .5] = 0
        x[g.random(n) < .2] *= -1
    elif c["special"] == "ints":
        x = np.round(x * 100)
    elif c["special"] == "exact":
        x = np.array([float("%.9e" % v) for v in x])
    return x


def mkregion(kind, n, seed):
    g = np.random.default_rng(seed)
    if kind == "none":
        return None
    if kind == "empty":
        return np.zeros((0, 2))
    r = g.uniform(-100, 6000, (n, 2))
    if kind == "int":
        r = np.round(r).astype(int)
    if kind == "closed" or kind == "int":
        r = np.concatenate((r, r[:1]))
    if kind == "almost":
        r = np.round(r)
        r = np.concatenate((r, r[:1] + 1e-8))
    return r


def mkmodel(c):
    g = np.random.default_rng(c["seed"])
    name = lensname(c)
    i = values(g, mrcal.lensmodel_num_params(name), c)
    rt = np.concatenate((gens_r(g), values(g, 3, c)))
    reg = mkregion(c["region"], c["nreg"], c["seed"] + 1)
    return name, i, rt, (c["W"], c["H"]), reg


def gens_r(g):
    r = g.normal(size=3)
    return r / ref.mag(r) * g.choice((0, 1e-9, .1, 1., 2.9))


def text0(x):
    return re.sub(r"(?<![\d.eE])-0(?=[,\s])", "0", str(x))       # -0 is read as the integer 0


def region_expected(reg):
    if reg is None:
        return None
    if reg.size == 0:
        return np.zeros((0, 2))
    reg = np.asarray(reg, float)
    return reg if ref.mag(reg[0] - reg[-1]) < 1e-6 else np.concatenate((reg, reg[:1]))


def region_same(a, b, exact):
    if a is None or b is None:
        return a is b
    return a.shape == b.shape and (np.array_equal(a, b) if exact else close10(a, b))


NOTE = st.one_of(st.none(), st.text(st.characters(blacklist_categories=("Cs",), blacklist_characters="\0"), max_size=60),
                 st.sampled_from(("one line", "two\nlines", "crlf\r\nline", "'quotes\" } ] {", "# hash\n\n\nmore", "\u2028sep\x0bv\x0cf\x1c", "'lensmodel': 'LENSMODEL_PINHOLE',")))


def write(m, how, note, d):
    path = os.path.join(d, "m.cameramodel")
    if how == "path":
        m.write(path, **({} if note is None else dict(note=note)))
    elif how == "file":
        with open(path, "w") as f:
            m.write(f, note=note)
    elif how == "StringIO":
        s = io.StringIO()
        m.write(s, note=note)
        with open(path, "w", newline="") as f:
            f.write(s.getvalue())
    else:
        with open(path, "w", newline="") as f:
            f.write(str(m))
    return path


def read(path, how):
    if how == "path":
        return mrcal.cameramodel(path)
    if how == "file":
        with open(path) as f:
            return mrcal.cameramodel(f)
    return mrcal.cameramodel(io.StringIO(open(path, newline="").read()))


@C.facet("roundtrip", st.fixed_dictionaries(dict(m=MODEL, note=NOTE, how=st.sampled_from(("path", "file", "StringIO", "str")),
                                                 rd=st.sampled_from(("path", "file", "StringIO")))), quick=900, thorough=40000)
def _(c):
    name, i, rt, size, reg = mkmodel(c["m"])
    m = mrcal.cameramodel(intrinsics=(name, i), imagersize=size, rt_cam_ref=rt, **({} if reg is None else dict(valid_intrinsics_region=reg)))
    if m.intrinsics()[0] != name or not np.array_equal(m.intrinsics()[1], i) or not np.array_equal(m.rt_cam_ref(), rt) or \
       tuple(m.imagersize()) != size or not region_same(m.valid_intrinsics_region(), region_expected(reg), True):
        raise Violation("a new model does not report what it was made with: %s\nfrom\n%s" % (m, (name, i, rt, size, reg)))
    with tempfile.TemporaryDirectory() as d:
        p = write(m, c["how"], c["note"], d)
        text = open(p, newline="").read()
        m2 = read(p, c["rd"])
        if c["note"] and c["how"] != "str":
            lines = [l for l in text.split("\n")]
            head = [l for l in lines[:lines.index("{")]]
            if not all(l.startswith("#") or l == "" for l in head):
                raise Violation("the note is not commented out: %r" % text[:200])
            for l in c["note"].splitlines():
                if "# " + l not in text.replace("\r", "").split("\n") and l.isprintable():
                    raise Violation("the note line %r is missing: %r" % (l, text[:200]))
        what = "%s written by %s, read by %s" % (name, c["how"], c["rd"])
        if m2.intrinsics()[0] != name:
            raise Violation("%s: lens model %s" % (what, m2.intrinsics()[0]))
        for k, a, b in (("intrinsics", i, m2.intrinsics()[1]), ("rt_cam_ref", rt, m2.rt_cam_ref())):
            if not close10(a, b):
                raise Violation("%s: %s changed:\n%s\n%s" % (what, k, a.tolist(), b.tolist()))
        if tuple(m2.imagersize()) != size:
            raise Violation("%s: imagersize %s" % (what, m2.imagersize()))
        if not region_same(region_expected(reg), m2.valid_intrinsics_region(), False):
            raise Violation("%s: valid-intrinsics region changed:\n%s\n%s" % (what, reg, m2.valid_intrinsics_region()))
        if m2.optimization_inputs() is not None or m2.icam_intrinsics() is not None:
            raise Violation("%s: optimization_inputs appeared" % what)
        if text0(m2) != text0(m):
            raise Violation("%s: writing again is not stable:\n%s\n%s" % (what, m, m2))
        # the C reader, on the same file, in every entry point
        b = text.encode()
        out = cread([(k, b) for k in range(6)])
        py = (name, size, m2.rt_cam_ref(), m2.intrinsics()[1])
        for k, x in enumerate(out):
            if x is None:
                raise Violation("%s: rejected by the C reader (entry point %d):\n%s" % (what, k, text[:3000]))
            if not same(x, py):
                raise Violation("%s: the C reader (entry point %d) sees another model:\n%s\n%s" % (what, k, x, py))
        # the C writer
        (_, ), w = cread([(6, b)])
        wt = w.decode()
        x = pyread(wt)
        y, = cread([(0, w)])
        if x is None or y is None:
            raise Violation("%s: mrcal_write_cameramodel_file() output is rejected by the %s reader:\n%s" % (what, "python" if x is None else "C", wt[:3000]))
        if not same(x, y):
            raise Violation("%s: readers disagree about mrcal_write_cameramodel_file() output:\n%s\n%s\n%s" % (what, x, y, wt[:3000]))
        if not same(x, py):    # values with 10 digits are written with 10 digits
            raise Violation("%s: changed by mrcal_write_cameramodel_file():\n%s\n%s\n%s" % (what, x, py, wt[:3000]))
    label(c["m"]["lens"])
    label("region " + c["m"]["region"])


# ---------------------------------------------------------------- histories
RT = st.fixed_dictionaries(dict(seed=st.integers(0, 2**32 - 1), scale=st.sampled_from((0., 1e-3, 1., 1e4))))
ACC = ("rt_cam_ref", "rt_ref_cam", "Rt_cam_ref", "Rt_ref_cam", "extrinsics_rt_fromref", "extrinsics_rt_toref", "extrinsics_Rt_fromref", "extrinsics_Rt_toref")
OP = st.one_of(
    st.fixed_dictionaries(dict(op=st.just("rt"), acc=st.sampled_from(ACC), rt=RT, kind=st.sampled_from(("array", "int", "view")))),
    st.fixed_dictionaries(dict(op=st.just("intrinsics"), m=MODEL, size=st.booleans())),
    st.fixed_dictionaries(dict(op=st.just("oi"), p=problem.problem_spec(), icam=st.integers(0, 5), infer=st.booleans(), new=st.booleans())),
    st.fixed_dictionaries(dict(op=st.just("oi"), p=problem.problem_spec(), icam=st.integers(0, 5), infer=st.booleans(), new=st.booleans())),
    st.fixed_dictionaries(dict(op=st.just("region"), kind=st.sampled_from(("empty", "open", "closed", "almost", "int", "bad", "bad shape")), n=st.integers(3, 9),
                               seed=st.integers(0, 2**32 - 1))),
    st.fixed_dictionaries(dict(op=st.sampled_from(("region_reset", "oi_reset", "tamper", "copy", "copy")))),
    st.fixed_dictionaries(dict(op=st.just("io"), how=st.sampled_from(("path", "file", "StringIO", "str")), rd=st.sampled_from(("path", "file", "StringIO")))),
    st.fixed_dictionaries(dict(op=st.just("io"), how=st.sampled_from(("path", "file", "StringIO", "str")), rd=st.sampled_from(("path", "file", "StringIO")))),
)


def oi_same(a, b):
    """a: as given; b: as returned"""
    for k in a:
        v = a[k]
        if k == "verbose":
            continue
        if v is None or (isinstance(v, np.ndarray) and v.size == 0) or (isinstance(v, bool) and not v):
            w = b.get(k)
            if isinstance(w, np.ndarray):
                if w.size:
                    return k
            elif w:
                return k
            continue
        w = b.get(k)
        if isinstance(v, np.ndarray):
            if not (isinstance(w, np.ndarray) and v.shape == w.shape and v.dtype == w.dtype and np.array_equal(v, w)):
                return k
        elif isinstance(v, (tuple, list)):
            if not np.array_equal(np.array(v), np.array(w)):
                return k
        elif type(w) not in (type(v), int, float, bool, str) or w != v:
            return k
    for k in b:
        if k not in a and not (b[k] is None or b[k] is False or (isinstance(b[k], np.ndarray) and b[k].size == 0) or
                               (isinstance(b[k], str) and b[k].startswith("ERROR"))):
            return k
    return None


def verify(m, s, when):
    name, i = m.intrinsics()
    if name != s["name"] or not np.array_equal(i, s["i"]):
        raise Violation("%s: intrinsics() is %s %s; should be %s %s" % (when, name, i, s["name"], s["i"]))
    if tuple(m.imagersize()) != s["size"]:
        raise Violation("%s: imagersize() is %s; should be %s" % (when, m.imagersize(), s["size"]))
    if not region_same(m.valid_intrinsics_region(), s["region"], True):
        raise Violation("%s: valid_intrinsics_region() is %s; should be %s" % (when, m.valid_intrinsics_region(), s["region"]))
    Rt = s["Rt"]
    Rti = ref.invert_Rt(Rt)
    tol = 2e-13 * (1 + np.abs(Rt[3]).max())
    got = {}
    for a in ACC:
        x = getattr(m, a)()
        want = Rt if ("cam_ref" in a or "fromref" in a) else Rti
        if "rt_" in a:
            if x.shape != (6,):
                raise Violation("%s: %s() has shape %s" % (when, a, x.shape))
            x = ref.Rt_from_rt(x)
        if x.shape != (4, 3) or np.abs(x - want).max() > tol * 20:
            raise Violation("%s: %s() is\n%s\nshould be\n%s\nerror %g" % (when, a, x, want, np.abs(x - want).max()))
        note("pose accessor error", np.abs(x - want).max() / (tol / 2e-13))
    if s["oi"] is None:
        if m.optimization_inputs() is not None or m.icam_intrinsics() is not None or m.icam_extrinsics() is not None:
            raise Violation("%s: optimization_inputs exist: icam_intrinsics %s, icam_extrinsics %s" % (when, m.icam_intrinsics(), m.icam_extrinsics()))
    else:
        o = m.optimization_inputs()
        if o is None or m.icam_intrinsics() != s["icam"] or m.icam_extrinsics() != s["icamext"]:
            raise Violation("%s: optimization_inputs %s, icam_intrinsics %s, icam_extrinsics %s; should be %s %s"
                            % (when, "missing" if o is None else "exist", m.icam_intrinsics(), m.icam_extrinsics(), s["icam"], s["icamext"]))
        k = oi_same(s["oi"], o)
        if k:
            raise Violation("%s: optimization_inputs()[%s] is %s; should be %s" % (when, k, o.get(k), s["oi"].get(k)))


HIST = st.fixed_dictionaries(dict(m=MODEL, ops=st.lists(OP, min_size=1, max_size=9)))


@C.facet("history", HIST, quick=500, thorough=25000)
def _(c):
    cm = {**c["m"], "decades": min(c["m"]["decades"], 12)}
    name, i, _, size, reg = mkmodel(cm)
    m = mrcal.cameramodel(intrinsics=(name, i), imagersize=size, **({} if reg is None else dict(valid_intrinsics_region=reg)))
    s = dict(name=name, i=i.copy(), size=size, region=region_expected(reg), Rt=ref.Rt_from_rt(np.zeros(6)), oi=None, icam=None, icamext=None)
    passed = [i]
    others = []      # independent models, with their states
    verify(m, s, "new model")
    for n, o in enumerate(c["ops"]):
        when = "after %d: %s" % (n, {k: v for k, v in o.items() if k not in ("m", "p")})
        k = o["op"]
        label(k)
        if k == "rt":
            g = np.random.default_rng(o["rt"]["seed"])
            rt = np.concatenate((gens_r(g), g.normal(size=3) * o["rt"]["scale"]))
            if o["kind"] == "int":
                rt = np.array((0, 0, 1, 2, -3, 4)) if "rt_" in o["acc"] else rt
            Rt = ref.Rt_from_rt(np.array(rt, float))
            a = o["acc"]
            arg = rt if "rt_" in a else Rt
            if o["kind"] == "int" and "rt_" not in a:
                arg = np.array(((0, -1, 0), (1, 0, 0), (0, 0, 1), (3, 4, -5)))
                Rt = np.array(arg, float)
            if o["kind"] == "view":
                b = np.zeros(tuple(2 * x for x in arg.shape))
                b[tuple(slice(None, None, 2) for _ in arg.shape)] = arg
                arg = b[tuple(slice(None, None, 2) for _ in arg.shape)]
            arg, Rt = arg.copy() if o["kind"] != "view" else arg, Rt.copy()
            passed.append(arg)
            getattr(m, a)(arg)
            s["Rt"] = Rt if ("cam_ref" in a or "fromref" in a) else ref.invert_Rt(Rt)
        elif k == "intrinsics":
            name, i, _, size, _ = mkmodel({**o["m"], "decades": min(o["m"]["decades"], 12)})
            if o["size"]:
                m.intrinsics((name, i), imagersize=size)
                s["size"] = size
            else:
                m.intrinsics((name, i))
            passed.append(i)
            s.update(name=name, i=i.copy(), region=None, oi=None, icam=None, icamext=None)
        elif k == "oi":
            oi = problem.make(o["p"])
            ic = o["icam"] % len(oi["intrinsics"])
            stationary = {}
            for key in ("indices_frame_camintrinsics_camextrinsics", "indices_point_camintrinsics_camextrinsics"):
                if oi.get(key) is not None:
                    for row in np.array(oi[key])[:, -2:]:
                        stationary.setdefault(int(row[0]), set()).add(int(row[1]))
            ext = {}
            for a, b in stationary.items():
                for e in b:
                    ext.setdefault(e, set()).add(a)
            ok = all(len(x) == 1 for x in stationary.values()) and all(len(x) == 1 for x in ext.values()) and ic in stationary
            kw = dict(optimization_inputs=oi, icam_intrinsics=ic)
            e = min(stationary[ic]) if ic in stationary else -1
            infer = o["infer"] and ok and len(stationary) == len(oi["intrinsics"]) and \
                len(set(ext) - {-1}) == len(oi.get("rt_cam_ref", ())) and "indices_point_triangulated_camintrinsics_camextrinsics" not in oi
            if not infer:
                kw["icam_extrinsics"] = e
            else:
                label("inferred icam_extrinsics")
            orig = problem.copy(oi)
            if o["new"]:
                m = mrcal.cameramodel(**kw)
                rt = np.zeros(6) if e < 0 else orig["rt_cam_ref"][e]
                s["Rt"] = ref.Rt_from_rt(rt)
            else:
                m.intrinsics((oi["lensmodel"], oi["intrinsics"][ic]), imagersize=oi["imagersizes"][ic], **kw)
            s.update(name=orig["lensmodel"], i=np.array(orig["intrinsics"][ic]), size=tuple(int(x) for x in orig["imagersizes"][ic]),
                     region=None, oi=orig, icam=ic, icamext=e)
            bad = oi_same(orig, oi)
            if bad:
                raise Violation("%s: the given optimization_inputs[%s] changed" % (when, bad))
            passed += [v for v in oi.values() if isinstance(v, np.ndarray)]
        elif k == "region":
            if o["kind"].startswith("bad"):
                r = np.arange(4.).reshape(2, 2) if o["kind"] == "bad" else np.arange(12.).reshape(4, 3)
                try:
                    m.valid_intrinsics_region(r)
                except Exception:
                    pass
                else:
                    raise Violation("%s: an invalid region is accepted" % when)
            else:
                r = mkregion(o["kind"], o["n"], o["seed"])
                m.valid_intrinsics_region(r)
                passed.append(r)
                s["region"] = region_expected(np.array(r))
        elif k == "region_reset":
            m.valid_intrinsics_region_reset()
            s["region"] = None
        elif k == "oi_reset":
            m.optimization_inputs_reset()
            s.update(oi=None, icam=None, icamext=None)
        elif k == "tamper":
            # arrays given and returned are not shared
            for a in passed:
                if a.flags.writeable:
                    a[...] = 77
            for a in ACC:
                getattr(m, a)()[...] = 55
            m.intrinsics()[1][...] = 44
            m.imagersize()[...] = 33
            r = m.valid_intrinsics_region()
            if r is not None:
                r[...] = 22
            oi = m.optimization_inputs()
            if oi is not None:
                for v in oi.values():
                    if isinstance(v, np.ndarray):
                        v[...] = 1
        elif k == "copy":
            new = mrcal.cameramodel(m)
            verify(new, s, when + " (the copy)")
            others.append((m, {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in s.items()}))
            m = new
        elif k == "io":
            with tempfile.TemporaryDirectory() as d:
                p = write(m, o["how"], None, d)
                text = open(p).read()
                m2 = read(p, o["rd"])
            if text0(m2) != text0(m) or str(m) != text:
                raise Violation("%s: writing again is not stable\n%s\n%s" % (when, text, m2))
            x, = cread([(2, text.encode())])
            if x is None or not same(x, (m2.intrinsics()[0], tuple(m2.imagersize()), m2.rt_cam_ref(), m2.intrinsics()[1])):
                raise Violation("%s: the C reader sees another model: %s\n%s" % (when, x, text[:2000]))
            if not close10(m.intrinsics()[1], m2.intrinsics()[1]) or not close10(m.rt_cam_ref(), m2.rt_cam_ref()) or \
               not region_same(s["region"], m2.valid_intrinsics_region(), False):
                raise Violation("%s: the model changed" % when)
            m = m2
            s.update(i=m2.intrinsics()[1], region=m2.valid_intrinsics_region(), Rt=ref.Rt_from_rt(m2.rt_cam_ref()))
        verify(m, s, when)
    for mm, ss in others:
        verify(mm, ss, "original of a copy, at the end")
    if s["oi"] is not None:
        f = mrcal.optimizer_callback
        try:
            a = f(**s["oi"], no_jacobian=True, no_factorization=True)[1]
        except RuntimeError:    # a problem without variables
            label("optimization_inputs that can't be used")
            return
        b = f(**m.optimization_inputs(), no_jacobian=True, no_factorization=True)[1]
        if not np.array_equal(a, b):
            raise Violation("optimizer_callback(**model.optimization_inputs()) differs from the original")
        label("ends with optimization_inputs")


# ---------------------------------------------------------------- files
def num(g, v):
    """some way of writing the number that both readers document"""
    k = g.integers(5)
    if k == 0:
        return repr(float(v))
    if k == 1:
        return "%.10g" % v
    if k == 2:
        return "%.12e" % v
    if k == 3:
        return ("%.3f" % v) if abs(v) < 1e9 else "%.5E" % v
    return str(int(v)) if abs(v) < 1e9 else "%g" % v


def ws(g):
    return "".join(g.choice((" ", "", "", "\n", "\t", "  ", "# comment: '[{ 1,\n", "#\n", "\r\n")) for _ in range(g.integers(0, 3)))


def lst(g, toks, opn=None):
    o, c = [("[", "]"), ("(", ")")][g.integers(2)] if opn is None else opn
    s = o + ws(g)
    for n, t in enumerate(toks):
        s += t + ws(g) + ("," + ws(g) if n < len(toks) - 1 or g.random() < .3 or len(toks) == 1 else "")
    return s + c


def q(g, s, bytes_=False):
    x = g.choice(("'", '"'))
    return x + s + x


def unknown(g):
    k = g.integers(6)
    if k == 0:
        return num(g, g.normal() * 100)
    if k == 1:
        return q(g, "some string, with stuff: [1,2] {} # no comment")
    if k == 2:
        return "b" + q(g, "abc!@#$%^&*()_+{}|<>?;=~`-")
    if k == 3:
        return "[" + ws(g) + ", ".join(lst(g, [num(g, x) for x in g.normal(size=2)]) for _ in range(g.integers(1, 4))) + ws(g) + ("," if g.random() < .5 else "") + "]"
    if k == 4:
        return lst(g, [num(g, x) for x in g.normal(size=g.integers(1, 5))])
    return "[" + ws(g) + "]"


def entries(g, c):
    name, i, rt, size, reg = mkmodel({**c, "decades": min(c["decades"], 12)})
    if len(i) > 80:
        name, i = "LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=4_Ny=4_fov_x_deg=%d" % c["fov"], i[:36]
    e = [["lensmodel", q(g, name)], ["intrinsics", lst(g, [num(g, x) for x in i])],
         [("rt_cam_ref", "extrinsics")[g.integers(2)], lst(g, [num(g, x) for x in rt])], ["imagersize", lst(g, [str(x) for x in size])]]
    if g.random() < .3:
        e.append([("rt_cam_ref", "extrinsics")[e[2][0] == "rt_cam_ref"], e[2][1]])
    for _ in range(g.integers(0, 4)):
        e.append(["k%d" % g.integers(10**6), unknown(g)])
    order = g.permutation(len(e))
    a, b = np.nonzero(order == 0)[0][0], np.nonzero(order == 1)[0][0]
    if a > b:
        order[[a, b]] = order[[b, a]]      # documented: lensmodel comes before intrinsics
    return [e[k] for k in order]


def assemble(g, e, plain=False):
    w = (lambda g: "") if plain else ws
    # the python parser does not want indentation outside of the braces
    out = lambda: "" if plain else "".join(g.choice(("", "\n", "# comment: '[{ 1,\n", "#\n", "\r\n")) for _ in range(g.integers(0, 3)))
    s = out() + "{" + w(g)
    for n, (k, v) in enumerate(e):
        s += q(g, k) + w(g) + ":" + w(g) + v + w(g)
        if n < len(e) - 1 or g.random() < .5:
            s += "," + w(g)
    return s + "}" + ("\n" if g.random() < .8 else "") + out()


FILE = st.fixed_dictionaries(dict(m=MODEL, seed=st.integers(0, 2**32 - 1), n=st.integers(1, 8)))


@C.facet("syntax", FILE, quick=700, thorough=40000)
def _(c):
    g = np.random.default_rng(c["seed"])
    T = []
    for _ in range(c["n"]):
        t = assemble(g, entries(g, c["m"]))
        if g.random() < .3:   # exact multiple of the page size
            t += "\n" * (-len(t) % 4096)
        T.append(t)
    reqs = [(int(g.integers(6)), t.encode()) for t in T]
    for t, (k, b), x in zip(T, reqs, cread(reqs)):
        p = pyread(t)
        if p is None:
            raise Violation("the python reader rejects\n%s" % t)
        if x is None:
            raise Violation("the C reader (entry point %d) rejects\n%s" % (k, t))
        if not same(x, p):
            raise Violation("the readers disagree (entry point %d):\nC: %s\npython: %s\n%s" % (k, x, p, t))


BADNUM = ("", "abc", "--1", "1..2", "1e", "e5", ".", "-", "1 2", "1;2", "0x", "'x'", "[1]", "None", "1,,", ",,")


def broken(g, e):
    """a definite error -> (what, text)"""
    e = [list(x) for x in e]
    idx = {k: n for n, (k, v) in enumerate(e)}
    req = ["lensmodel", "intrinsics", "imagersize"]
    ext = [k for k in ("rt_cam_ref", "extrinsics") if k in idx]
    k = g.integers(12)
    key = (req + ext[:1])[g.integers(4)]
    listkey = ("intrinsics", "imagersize", ext[0])[g.integers(3)]
    if len(ext) == 2 and (key in ext or listkey in ext):
        e = [x for x in e if x[0] != ext[1]]
        idx = {k: n for n, (k, v) in enumerate(e)}

    def toks(key):
        v = re.sub("#[^\n]*\n", " ", e[idx[key]][1])
        return [x.strip() for x in v[1:-1].split(",") if x.strip()]
    if k == 0:
        del e[idx[key]]
        return "missing " + key, assemble(g, e)
    if k == 1:
        t = toks(listkey)
        t.pop(g.integers(len(t)))
        e[idx[listkey]][1] = lst(g, t) if t else "[]"
        return "too few in " + listkey, assemble(g, e)
    if k == 2:
        t = toks(listkey)
        t.insert(g.integers(len(t) + 1), num(g, 1.))
        e[idx[listkey]][1] = lst(g, t)
        return "too many in " + listkey, assemble(g, e)
    if k == 3:
        t = toks(listkey)
        b = BADNUM[g.integers(len(BADNUM))]
        t[g.integers(len(t))] = b
        e[idx[listkey]][1] = "[" + ", ".join(t) + ("," if b == "" else "") + "]"
        return "bad number %r in %s" % (b, listkey), assemble(g, e)
    if k == 4:
        s = assemble(g, e, plain=True).rstrip()
        n = int(g.integers(0, len(s)))
        return "truncated", s[:n]
    if k == 5:
        n = e[idx["lensmodel"]][1][1:-1]
        b = (n + "x", n[1:], n.lower(), "", "LENSMODEL_NOPE", "LENSMODEL_OPENCV", n.split("=")[0] + "=" if "=" in n else n + "_a=1")[g.integers(7)]
        e[idx["lensmodel"]][1] = "'" + b + "'"
        return "bad lensmodel %r" % b, assemble(g, e)
    if k == 6:
        v = ("0", "-5", "1.5", "4294967297", "4294967936", "3000000000", "99999999999999999999", "2147483648")[g.integers(8)]
        t = toks("imagersize")
        t[g.integers(2)] = v
        e[idx["imagersize"]][1] = lst(g, t)
        return "imagersize %s" % v, assemble(g, e)
    if k == 7:
        s = assemble(g, e).rstrip()
        if "#" in s.split("}")[-1]:
            s = assemble(g, e, plain=True).rstrip()
        return "garbage at the end", s + ("{", "}", "x", "'a':1", ",")[g.integers(5)]
    if k == 8:
        s = assemble(g, e, plain=True)
        return "no leading {", s[s.index("{") + 1:]
    if k == 9:
        e2 = [list(x) for x in e if x[0] not in ext]
        t = toks(ext[0])
        a = "[" + ", ".join(t) + "]"
        t[g.integers(6)] = "%.17g" % (float(t[0]) + 12345.5)
        b = "[" + ", ".join(t) + "]"
        if a == b:
            reject()
        e2 += [["extrinsics", a], ["rt_cam_ref", b]]
        return "conflicting extrinsics", assemble(g, e2)
    if k == 10:
        e[idx[listkey]][1] = ("1.0", "'abc'", "[" + e[idx[listkey]][1] + "]", "{}", "None", "")[g.integers(6)]
        return "%s is not a list of numbers" % listkey, assemble(g, e)
    n = g.integers(len(e) - 1)
    s = "{" + ", ".join("'%s': %s" % tuple(x) for x in e[:n + 1]) + " " + ", ".join("'%s': %s" % tuple(x) for x in e[n + 1:]) + "}"
    return "missing comma", s


@C.facet("errors", FILE, quick=700, thorough=40000)
def _(c):
    g = np.random.default_rng(c["seed"])
    R = [broken(g, entries(g, c["m"])) for _ in range(c["n"])]
    reqs = [(int(g.integers(6)), t.encode()) for _, t in R]
    for (w, t), (k, _), x in zip(R, reqs, cread(reqs)):
        label(" ".join(w.split()[:2]))
        if x is not None:
            raise Violation("%s: accepted by the C reader (entry point %d) as %s\n%s" % (w, k, x, t))
        p = pyread(t)
        if p is not None:
            raise Violation("%s: accepted by the python reader as %s\n%s" % (w, p, t))


FRAG = (b"{", b"}", b"[", b"]", b"(", b")", b"'", b'"', b",", b":", b"#", b"\n", b"\0", b"b'", b"-", b"e", b".", b"1e400", b"-1e-400", b"1e308", b"nan", b"inf",
        b"'lensmodel':", b"'intrinsics':", b"'extrinsics':", b"'rt_cam_ref':", b"'imagersize':", b"'LENSMODEL_PINHOLE'",
        b"'LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=65535_Ny=65535_fov_x_deg=10'", b"'LENSMODEL_SPLINED_STEREOGRAPHIC_order=3_Nx=16384_Ny=65535_fov_x_deg=10'",
        b"'LENSMODEL_SPLINED_STEREOGRAPHIC_order=2_Nx=0_Ny=0_fov_x_deg=10'", b"'LENSMODEL_CAHVORE_linearity=1e999'", b"[" * 50, b"]" * 50, b"1," * 60, b"\xff\xfe", b"\x80",
        b"9" * 400, b"0." + b"0" * 3000, b"'" + b"A" * 5000 + b"'", b"# ", b"\r\n", b"=", b"_")


@C.facet("mutations", FILE, quick=700, thorough=60000)
def _(c):
    g = np.random.default_rng(c["seed"])
    reqs = []
    for _ in range(c["n"]):
        e = entries(g, c["m"])
        s = bytearray((assemble(g, e) if g.random() < .7 else broken(g, e)[1]).encode())
        for _ in range(int(g.choice((1, 1, 2, 3, 8)))):
            k = g.integers(7)
            p = int(g.integers(0, len(s) + 1))
            p2 = min(len(s), p + int(g.choice((1, 2, 5, 30))))
            if k == 0 and len(s):
                s[p % len(s)] = int(g.integers(256))
            elif k == 1 and len(s):
                s[p % len(s)] ^= 1 << int(g.integers(8))
            elif k == 2:
                del s[p:p2]
            elif k == 3:
                s[p:p] = s[p:p2]
            elif k == 4:
                s[p:p] = FRAG[g.integers(len(FRAG))]
            elif k == 5:
                s[p:p2] = FRAG[g.integers(len(FRAG))]
            elif k == 6 and g.random() < .3:
                del s[p:]
        if g.random() < .2:
            s += b" " * (-len(s) % 4096)
        reqs.append((int(g.integers(6)), bytes(s)))
    agree = 0
    for (k, b), x in zip(reqs, cread(reqs)):
        if x is None:
            continue
        if k not in (0, 3) and b"\0" in b:
            b = b[:b.index(b"\0")]      # this is the end of the input there
        try:
            p = pyread(b.decode())
        except UnicodeDecodeError:
            continue
        if p is None or p[0] != x[0] and not samelens(p[0], x[0]):
            if p is not None:
                raise Violation("the readers disagree about the lens model: C: %s python: %s\n%r" % (x[0], p[0], b))
            continue
        if b"extrinsics" in b and b"rt_cam_ref" in b and np.abs(x[2] - p[2]).max() < 1.0001e-9:
            p = p[:2] + (x[2],) + p[3:]       # given twice: they are allowed to differ this much
        if not same(x, p):
            raise Violation("the readers disagree (entry point %d):\nC: %s\npython: %s\n%r" % (k, x, p, b))
        agree += 1
    if agree:
        label("accepted after mutation")


@C.facet("full disk", st.tuples(MODEL, st.sampled_from(("python", "C"))), quick=40, thorough=1000)
def full_disk(case):
    """nothing can be written: both writers must say so"""
    mm, how = case
    label(how)
    name, i, rt, size, reg = mkmodel(mm)
    m = mrcal.cameramodel(intrinsics=(name, i), imagersize=size, rt_cam_ref=rt)
    with tempfile.TemporaryDirectory() as d:
        p = d + "/x.cameramodel"
        os.symlink("/dev/full", p)
        if how == "python":
            try:
                m.write(p)
            except Exception:
                return
            raise Violation("cameramodel.write() to a full disk: no error")
        b = str(m).encode()
        r = subprocess.run([harness(), p], input=struct.pack("II", 6, len(b)) + b, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120,
                           env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=86"))
        if r.stdout.strip() != b"FAIL write":
            raise Violation("mrcal_write_cameramodel_file() to a full disk: %r" % r.stdout[:200])


if __name__ == "__main__":
    C.main()
