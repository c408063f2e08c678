"""ctypes access to the C library of the build"""
import ctypes
import os
import numpy as np
import pbt

_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.path.join(pbt.build_and_import(), "libmrcal.so"))
    return _lib


def dp(a):
    return None if a is None else a.ctypes.data_as(ctypes.c_void_p)


def lensmodel(name):
    """-> a buffer with mrcal_lensmodel_t, or None"""
    buf = ctypes.create_string_buffer(256)
    f = lib().mrcal_lensmodel_from_name
    f.restype = ctypes.c_bool
    if not f(buf, name if isinstance(name, bytes) else name.encode()):
        return None
    return buf


def lensmodel_name(buf, n=1024):
    out = ctypes.create_string_buffer(n)
    f = lib().mrcal_lensmodel_name
    f.restype = ctypes.c_bool
    if not f(out, ctypes.c_int(n), buf):
        return None
    return out.value.decode()


def project(m, i, p, want_dp=False, want_di=False):
    lm = lensmodel(m)
    p = np.ascontiguousarray(p, dtype=float)
    i = np.ascontiguousarray(i, dtype=float)
    N = len(p)
    q = np.full((N, 2), np.nan)
    a = np.full((N, 2, 3), np.nan) if want_dp else None
    b = np.full((N, 2, len(i)), np.nan) if want_di else None
    f = lib().mrcal_project
    f.restype = ctypes.c_bool
    ok = f(dp(q), dp(a), dp(b), dp(p), ctypes.c_int(N), lm, dp(i))
    return ok, q, a, b


def unproject(m, i, q):
    lm = lensmodel(m)
    q = np.ascontiguousarray(q, dtype=float)
    i = np.ascontiguousarray(i, dtype=float)
    v = np.full((len(q), 3), np.nan)
    f = lib().mrcal_unproject
    f.restype = ctypes.c_bool
    ok = f(dp(v), dp(q), ctypes.c_int(len(q)), lm, dp(i))
    return ok, v
