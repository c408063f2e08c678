"""Independent reference implementations (numpy, written from the documentation)"""
import numpy as np
import re


def mag(x):
    return np.sqrt((x * x).sum(-1))


# ------------------------------------------------------------------ rotations
def skew(r):
    r = np.asarray(r, float)
    z = np.zeros(r.shape[:-1])
    return np.stack([np.stack([z, -r[..., 2], r[..., 1]], -1),
                     np.stack([r[..., 2], z, -r[..., 0]], -1),
                     np.stack([-r[..., 1], r[..., 0], z], -1)], -2)


def R_from_r(r):
    r = np.asarray(r, float)
    th2 = (r * r).sum(-1)[..., None, None]
    th = np.sqrt(th2)
    small = th < 1e-3
    ths = np.where(small, 1., th)
    A = np.where(small, 1 - th2 / 6 + th2 * th2 / 120, np.sin(ths) / ths)
    B = np.where(small, .5 - th2 / 24 + th2 * th2 / 720, 2 * np.sin(ths / 2)**2 / ths**2)
    K = skew(r)
    return np.eye(3) + A * K + B * (K @ K)


def transform_rt(rt, p):
    rt = np.asarray(rt, float)
    p = np.asarray(p, float)
    return (R_from_r(rt[..., :3]) @ p[..., None])[..., 0] + rt[..., 3:]


def rotate_r(r, p):
    return (R_from_r(r) @ np.asarray(p, float)[..., None])[..., 0]


def Rt_from_rt(rt):
    rt = np.asarray(rt, float)
    return np.concatenate([R_from_r(rt[..., :3]), rt[..., None, 3:]], -2)


def transform_Rt(Rt, p):
    return (Rt[..., :3, :] @ p[..., None])[..., 0] + Rt[..., 3, :]


def invert_Rt(Rt):
    R = np.swapaxes(Rt[..., :3, :], -1, -2)
    return np.concatenate([R, -(R @ Rt[..., 3, :, None])[..., 0][..., None, :]], -2)


def compose_Rt(*Rts):
    out = Rts[0]
    for b in Rts[1:]:
        R = out[..., :3, :] @ b[..., :3, :]
        t = (out[..., :3, :] @ b[..., 3, :, None])[..., 0] + out[..., 3, :]
        out = np.concatenate([R, t[..., None, :]], -2)
    return out


def r_from_R(R):
    """via quaternion, accurate everywhere"""
    from scipy.spatial.transform import Rotation
    return Rotation.from_matrix(R).as_rotvec()


def rt_from_Rt(Rt):
    return np.concatenate([r_from_R(Rt[:3]), Rt[3]])


def angle_between_R(Ra, Rb):
    D = Ra - Rb
    return np.sqrt((D * D).sum((-1, -2)) / 2.)


# ------------------------------------------------------------------ lens models
def parse_splined(m):
    x = re.match(r"LENSMODEL_SPLINED_STEREOGRAPHIC_order=(\d+)_Nx=(\d+)_Ny=(\d+)_fov_x_deg=(\d+)$", m)
    return [int(v) for v in x.groups()] if x else None


def num_params(m):
    c = parse_splined(m)
    if c:
        return 4 + 2 * c[1] * c[2]
    if m in ("LENSMODEL_PINHOLE", "LENSMODEL_STEREOGRAPHIC", "LENSMODEL_LONLAT", "LENSMODEL_LATLON"):
        return 4
    if m.startswith("LENSMODEL_OPENCV"):
        return 4 + int(m[16:])
    if m == "LENSMODEL_CAHVOR":
        return 9
    if m.startswith("LENSMODEL_CAHVORE_"):
        return 12
    raise ValueError(m)


def splined_segments_per_u(m):
    order, Nx, Ny, fov = parse_splined(m)
    margin = {2: 1, 3: 2}[order]
    uw = 2 * 2 * np.tan(np.radians(fov) / 4.)
    return (Nx - 1 - margin) / uw


def bspline(order, t):
    """order 3: t in [0,1], 4 weights. order 2: t in [-1/2,1/2], 3 weights"""
    if order == 3:
        return np.stack([(1 - t)**3 / 6, (3 * t**3 - 6 * t**2 + 4) / 6, (-3 * t**3 + 3 * t**2 + 3 * t + 1) / 6, t**3 / 6], -1)
    return np.stack([(2 * t - 1)**2 / 8, (3 - 4 * t * t) / 4, (2 * t + 1)**2 / 8], -1)


def spline_cell(m, u):
    order, Nx, Ny, fov = parse_splined(m)
    s = splined_segments_per_u(m)
    ix = u[..., 0] * s + (Nx - 1) / 2.
    iy = u[..., 1] * s + (Ny - 1) / 2.
    return ix, iy


def spline_in_bounds(m, u):
    order, Nx, Ny, fov = parse_splined(m)
    ix, iy = spline_cell(m, u)
    lo = 1 if order == 3 else .5
    return (ix >= lo) & (ix <= Nx - 1 - lo) & (iy >= lo) & (iy <= Ny - 1 - lo)


def stereographic(p):
    return p[..., :2] * (2. / (mag(p) + p[..., 2]))[..., None]


def project(m, i, p):
    """p: (...,3). i: (Nintrinsics,)"""
    p = np.asarray(p, float)
    i = np.asarray(i, float)
    f, c, k = i[:2], i[2:4], i[4:]
    if m == "LENSMODEL_PINHOLE":
        return p[..., :2] / p[..., 2:] * f + c
    if m == "LENSMODEL_STEREOGRAPHIC":
        return stereographic(p) * f + c
    if m == "LENSMODEL_LONLAT":
        lon = np.arctan2(p[..., 0], p[..., 2])
        lat = np.arctan2(p[..., 1], np.hypot(p[..., 0], p[..., 2]))
        return np.stack([lon, lat], -1) * f + c
    if m == "LENSMODEL_LATLON":
        lon = np.arctan2(p[..., 1], p[..., 2])
        lat = np.arctan2(p[..., 0], np.hypot(p[..., 1], p[..., 2]))
        return np.stack([lat, lon], -1) * f + c
    if m.startswith("LENSMODEL_OPENCV"):
        kk = np.zeros(12)
        kk[:len(k)] = k
        P = p[..., :2] / p[..., 2:]
        x, y = P[..., 0], P[..., 1]
        r2 = x * x + y * y
        r4, r6 = r2 * r2, r2 * r2 * r2
        g = (1 + kk[0] * r2 + kk[1] * r4 + kk[4] * r6) / (1 + kk[5] * r2 + kk[6] * r4 + kk[7] * r6)
        X = g * x + 2 * kk[2] * x * y + kk[3] * (r2 + 2 * x * x) + kk[8] * r2 + kk[9] * r4
        Y = g * y + 2 * kk[3] * x * y + kk[2] * (r2 + 2 * y * y) + kk[10] * r2 + kk[11] * r4
        return np.stack([X, Y], -1) * f + c
    if m == "LENSMODEL_CAHVOR":
        a, b, r0, r1, r2 = k
        o = np.array([np.sin(a) * np.cos(b), np.sin(b), np.cos(a) * np.cos(b)])
        w = p @ o
        lam = p - w[..., None] * o
        tau = (lam * lam).sum(-1) / (w * w)
        mu = r0 + r1 * tau + r2 * tau * tau
        pd = p + mu[..., None] * lam
        return pd[..., :2] / pd[..., 2:] * f + c
    if m.startswith("LENSMODEL_CAHVORE_"):
        pd, th = cahvore_distort(m, k, p)
        return pd[..., :2] / pd[..., 2:] * f + c
    if parse_splined(m):
        u = stereographic(p)
        return (u + spline_eval(m, i, u)) * f + c
    raise ValueError(m)


def cahvore_linearity(m):
    return float(m.split("linearity=")[1])


def cahvore_distort(m, k, p):
    lin = cahvore_linearity(m)
    a, b, r0, r1, r2, e0, e1, e2 = k
    p = np.asarray(p, float)
    o = np.array([np.sin(a) * np.cos(b), np.sin(b), np.cos(a) * np.cos(b)])
    zeta = p @ o
    ll = p - zeta[..., None] * o
    l = mag(ll)
    th0 = np.arctan2(l, zeta)

    def F(th):
        return zeta * np.sin(th) - l * np.cos(th) - (th - np.sin(th)) * (e0 + e1 * th**2 + e2 * th**4)

    def dF(th):
        return zeta * np.cos(th) + l * np.sin(th) - (1 - np.cos(th)) * (e0 + e1 * th**2 + e2 * th**4) \
            - (th - np.sin(th)) * (2 * e1 * th + 4 * e2 * th**3)
    th = th0.copy() if isinstance(th0, np.ndarray) else np.float64(th0)
    for _ in range(60):
        th = th - F(th) / dF(th)
    if lin < 0:
        chi = np.sin(lin * th) / lin
    elif lin > 0:
        chi = np.tan(lin * th) / lin
    else:
        chi = th
    mu = r0 + r1 * chi**2 + r2 * chi**4
    with np.errstate(all="ignore"):
        pd = o * (l / chi)[..., None] + ll * (1 + mu)[..., None]
    pd = np.where((l < 1e-9 * np.abs(zeta))[..., None], p, pd)
    return pd, th


def spline_eval(m, i, u):
    order, Nx, Ny, fov = parse_splined(m)
    ix, iy = spline_cell(m, u)
    cp = np.asarray(i, float)[4:].reshape(Ny, Nx, 2)
    if order == 3:
        ix0 = np.clip(np.floor(ix).astype(int), 1, Nx - 3)
        iy0 = np.clip(np.floor(iy).astype(int), 1, Ny - 3)
    else:
        ix0 = np.clip(np.floor(ix + .5).astype(int), 1, Nx - 2)
        iy0 = np.clip(np.floor(iy + .5).astype(int), 1, Ny - 2)
    wx = bspline(order, ix - ix0)
    wy = bspline(order, iy - iy0)
    out = np.zeros(u.shape)
    for a in range(order + 1):
        for b in range(order + 1):
            out += (wx[..., a] * wy[..., b])[..., None] * cp[iy0 - 1 + b, ix0 - 1 + a]
    return out


# ------------------------------------------------------------------ numerical derivatives
def numdiff(f, x, h):
    """6th-order central differences: df/dx shape f.shape + x.shape. h: scalar or an array like x"""
    x = np.asarray(x, float)
    h = np.broadcast_to(np.asarray(h, float), x.shape)
    cols = []
    for j in np.ndindex(*x.shape):
        d = np.zeros(x.shape)
        d[j] = h[j]
        D = (45 * (f(x + d) - f(x - d)) - 9 * (f(x + 2 * d) - f(x - 2 * d)) + (f(x + 3 * d) - f(x - 3 * d))) / (60 * h[j])
        cols.append(D)
    out = np.stack(cols, -1)
    return out.reshape(out.shape[:-1] + x.shape)


def deriv(f, x, h):
    """-> df/dx, and an estimate of its error. f.shape + x.shape"""
    x = np.asarray(x, float)
    f0 = np.asarray(f(x))
    a = numdiff(f, x, h)
    b = numdiff(f, x, np.asarray(h) / 2.)
    hh = np.broadcast_to(np.asarray(h, float), x.shape)
    err = np.abs(a - b) + 20 * 2.3e-16 * (np.abs(f0).max() if f0.size else 0) / hh
    return b, err
