#!/usr/bin/python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Violation, label, trivial, reject, note
pbt.build_and_import()
import ctypes
import numpy as np
from hypothesis import strategies as st
import mrcal
import gens, capi

C = pbt.Check("C23", "sensor links, camera correspondence",
              "Cases: symmetric connectivity matrices (random graphs of every density, trees, chains, grids, ties, full-range 16-bit weights, disconnected parts) of 0...4000 sensors; "
              "histories of priority-queue operations; index tables of stationary and moving setups. Oracles: Bellman-Ford over (links, -shared observations) in exact integers; a sorted "
              "list; a dictionary of the (intrinsics, extrinsics) pairs in the table. Non-trivial: at least one link; at least 2 pops; at least one observation.")


@st.composite
def graphs(draw):
    kind = draw(st.sampled_from(["random", "random", "random", "chain", "grid", "tree", "layers", "full"]))
    return dict(n=draw(st.one_of(st.integers(1, 12), st.integers(1, 40))), kind=kind, p=draw(st.integers(1, 95)), seed=draw(gens.seeds), order=draw(st.sampled_from(["as is", "shuffled"])),
                w=draw(st.sampled_from(["few", "small", "big", "any", "extreme", "same"])), layout=draw(st.sampled_from(["dense", "F", "strided"])))


def matrix(c):
    r = np.random.default_rng(c["seed"])
    n = c["n"]
    E = np.zeros((n, n), dtype=bool)
    i, j = np.triu_indices(n, 1)
    k = c["kind"]
    if k == "random":
        E[i, j] = r.integers(0, 100, len(i)) < c["p"]
    elif k == "chain":
        E[np.arange(n - 1), np.arange(1, n)] = True
    elif k == "grid":
        w = max(int(n**.5), 1)
        E[i, j] = (j - i == w) | ((j - i == 1) & (j % w != 0))
    elif k == "tree":
        for a in range(1, n):
            E[r.integers(a), a] = True
    elif k == "layers":
        L = np.arange(n) * 4 // n
        E[i, j] = (np.abs(L[i] - L[j]) <= 1) & (r.integers(0, 100, len(i)) < c["p"])
    else:
        E[i, j] = True
    v = dict(few=lambda: r.integers(1, 3, (n, n)), small=lambda: r.integers(1, 50, (n, n)), big=lambda: r.integers(30000, 65536, (n, n)), any=lambda: r.integers(1, 65536, (n, n)),
             extreme=lambda: r.choice((1, 2, 32767, 32768, 65534, 65535), (n, n)), same=lambda: np.full((n, n), r.integers(1, 65536)))[c["w"]]()
    M = np.where(E, v, 0)
    M = np.maximum(M, M.T)
    if c["order"] == "shuffled":
        p = np.concatenate(((0,), 1 + r.permutation(n - 1)))
        M = M[p][:, p]
    M = M.astype(np.uint16)
    if c["layout"] == "F":
        return np.asfortranarray(M)
    if c["layout"] == "strided":
        b = np.full((2 * n, 3 * n), 77, dtype=np.uint16)
        b[::2, ::3] = M
        return b[::2, ::3]
    return M


def best(M):
    """the cost (links, -shared) of the best path from 0 to each sensor, by value iteration"""
    n = len(M)
    cost = {0: (0, 0)}
    front = [0]
    # breadth first: the links are minimized first, so each layer only looks at the previous one
    while front:
        new = {}
        for a in front:
            for b in np.flatnonzero(M[a]):
                b = int(b)
                if b in cost:
                    continue
                c = (cost[a][0] + 1, cost[a][1] - int(M[a, b]))
                if b not in new or c < new[b]:
                    new[b] = c
        cost.update(new)
        front = list(new)
    return cost


def run(M, cb):
    return mrcal.traverse_sensor_links(connectivity_matrix=M, callback_sensor_link=cb)


def judge(M, links):
    cost = best(M)
    have = {0: (0, 0)}
    last = (0, 0)
    for to, frm in links:
        if type(to) is not int or type(frm) is not int:
            raise Violation("the callback gets %r" % ((to, frm),))
        if frm not in have:
            raise Violation("link %d-%d starts at a sensor that wasn't reached yet: %s" % (frm, to, links))
        if to in have:
            raise Violation("sensor %d is reached twice: %s" % (to, links))
        if M[frm, to] == 0:
            raise Violation("the link %d-%d does not exist: %s" % (frm, to, links))
        have[to] = (have[frm][0] + 1, have[frm][1] - int(M[frm, to]))
        if to not in cost or have[to] != cost[to]:
            raise Violation("sensor %d is reached by a path of %d links with %d shared observations in all; the best path has %d and %d. %s\n%s" % (
                to, have[to][0], -have[to][1], cost[to][0], -cost[to][1], links, M.tolist() if len(M) < 12 else ""))
        if have[to] < last:
            raise Violation("the links are not reported from the best-connected sensor to the worst-connected: %s" % links)
        last = have[to]
    if set(have) != set(cost):
        raise Violation("the sensors %s are connected, but were not visited" % sorted(set(cost) - set(have))[:20])


@C.facet("links", graphs(), quick=3000, thorough=200000, shards=4)
def links(c):
    M = matrix(c)
    label(c["kind"]); label(c["w"]); label(c["layout"])
    M0 = M.copy()
    l = []
    res = run(M, lambda to, frm: l.append((to, frm)))
    if not res:
        raise Violation("traverse_sensor_links() returns %r; a true value is documented" % (res,))
    if (M != M0).any():
        raise Violation("the matrix was changed")
    if not l:
        trivial()
    judge(M, l)


@C.facet("many", cases=[dict(n=n, kind=k, p=1, seed=s, order="shuffled", w=w, layout="dense") for n in (300, 1500, 3500) for k, w in (("chain", "any"), ("tree", "big"), ("random", "extreme")) for s in (1,)])
def many(c):
    """many sensors"""
    c = dict(c)
    M = matrix(c)
    l = []
    run(M, lambda to, frm: l.append((to, frm)))
    judge(M, l)


@C.facet("callback", st.tuples(graphs(), st.integers(0, 5), st.sampled_from(["raise", "false", "none", "true", "zero", "str"])), quick=300, thorough=5000)
def callback(case):
    c, at, how = case
    M = matrix(c)
    full = []
    run(M, lambda to, frm: full.append((to, frm)))
    if len(full) <= at:
        trivial()
    label(how)
    l = []

    class Err(Exception):
        pass

    def cb(to, frm):
        l.append((to, frm))
        if len(l) == at + 1:
            if how == "raise":
                raise Err()
            return dict(false=False, none=None, true=True, zero=0., str="x")[how]
        return True
    try:
        run(M, cb)
        e = None
    except Exception as x:
        e = x
    if how in ("none", "true", "str", "zero"):
        if e or l != full:
            raise Violation("the callback returned something other than False, and the traversal ended with %r after %s of %s" % (e, l, full))
        return
    want = full[:at + 1]
    if l != want:
        raise Violation("the callback failed (%s) at link %d, but the traversal went through %s" % (how, at, l))
    if (e is not None) != (len(full) > at) or (how == "raise" and e is not None and not isinstance(e, Err)):
        raise Violation("the callback failed (%s), and traverse_sensor_links() ended with %r" % (how, e))


@C.facet("invalid-links", st.tuples(graphs(), st.sampled_from(["none", "one", "dtype", "float", "1d", "3d", "rect", "callable", "noargs", "positional"])), quick=100, thorough=1000)
def invalid_links(case):
    c, k = case
    label(k)
    M = matrix(c)
    l = []
    cb = lambda to, frm: l.append((to, frm))
    if k in ("none", "one"):
        run(np.zeros((int(k == "one"),) * 2, dtype=np.uint16), cb)
        if l:
            raise Violation("links between fewer than 2 sensors")
        return
    f = dict(dtype=lambda: run(M.astype(np.int32), cb), float=lambda: run(M.astype(float), cb))
    f["1d"] = lambda: run(M.ravel(), cb)
    f["3d"] = lambda: run(M[None], cb)
    f["rect"] = lambda: run(np.concatenate((M, M), 1), cb)
    f["callable"] = lambda: run(M, 5)
    f["noargs"] = lambda: mrcal.traverse_sensor_links()
    f["positional"] = lambda: mrcal.traverse_sensor_links(M, cb)
    try:
        f[k]()
    except Exception:
        return
    raise Violation("traverse_sensor_links() accepts %s" % k)


# ----------------------------------------------------------------------------------------------- heap
class Heap(ctypes.Structure):
    _fields_ = [("buffer", ctypes.c_void_p), ("size", ctypes.c_int)]


OPS = st.lists(st.one_of(st.tuples(st.just("push"), st.integers(0, 2**47 - 1)), st.tuples(st.just("push"), st.integers(0, 10)), st.tuples(st.just("pop")),
                         st.tuples(st.just("cost"), st.integers(0, 99), st.integers(0, 2**47 - 1)), st.tuples(st.just("cost"), st.integers(0, 99), st.integers(0, 10))), max_size=60)


@C.facet("heap", OPS, quick=1500, thorough=100000, shards=2)
def heap(ops):
    """model-based: a dictionary of the contents"""
    L = capi.lib()
    L.mrcal_heap_empty.restype = ctypes.c_bool
    L.mrcal_heap_pop.restype = ctypes.c_uint16
    nodes = np.zeros(70, dtype=np.uint64)
    buf = np.full(70, 0xffff, dtype=np.uint16)
    h = Heap(buf.ctypes.data, 0)
    have = {}
    n = npop = 0
    A = (ctypes.byref(h), capi.dp(nodes))

    def setcost(i, c):
        nodes[i] = np.uint64((c << 17) | 0x1234)

    def pop():
        i = L.mrcal_heap_pop(*A)
        if i not in have:
            raise Violation("pop() returns %d, which isn't in the heap %s. %s" % (i, have, ops))
        if have[i] != min(have.values()):
            raise Violation("pop() returns a node of cost %d with one of cost %d in the heap. %s" % (have[i], min(have.values()), ops))
        del have[i]
    for o in ops:
        if L.mrcal_heap_empty(*A) != (not have):
            raise Violation("empty() is wrong with %d nodes" % len(have))
        if o[0] == "push" and n < 70:
            setcost(n, o[1])
            have[n] = o[1]
            L.mrcal_heap_push(*A, ctypes.c_uint16(n))
            n += 1
        elif o[0] == "pop" and have:
            pop()
            npop += 1
        elif o[0] == "cost" and have:
            i = list(have)[o[1] % len(have)]
            have[i] = o[2]
            setcost(i, o[2])
            L.mrcal_heap_resort(*A)
    while have:
        pop()
        npop += 1
    if h.size != 0 or not L.mrcal_heap_empty(*A):
        raise Violation("the heap isn't empty after popping everything")
    if ((nodes[:n] & np.uint64(0x1ffff)) != 0x1234).any():
        raise Violation("the nodes were changed")
    if npop < 2:
        trivial()


# ----------------------------------------------------------------------------------------------- icam
@st.composite
def tables(draw):
    kind = draw(st.sampled_from(["ref0", "reference elsewhere", "no reference", "moving", "swap", "two intrinsics", "mixed", "unseen", "random"]))
    return dict(kind=kind, nci=draw(st.integers(1, 6)), nb=draw(st.integers(0, 15)), np=draw(st.integers(0, 15)), seed=draw(gens.seeds), how=draw(st.sampled_from(["sizes", "arrays"])))


def table(c):
    r = np.random.default_rng(c["seed"])
    n = c["nci"]
    k = c["kind"]
    if k == "ref0":
        e, nce = list(range(-1, n - 1)), n - 1
    elif k == "reference elsewhere":
        e, nce = list(r.permutation(np.arange(-1, n - 1))), n - 1
    elif k == "no reference":
        e, nce = list(r.permutation(n)), n
    else:
        e, nce = list(r.permutation(np.arange(-1, n - 1))), n - 1 + int(r.integers(2))
    N = c["nb"] + c["np"]
    ci = r.integers(0, n, N)
    if k == "unseen" and n > 1:
        ci = r.integers(0, n - 1, N)
    ce = np.array(e, dtype=int)[ci] if N else np.zeros(0, dtype=int)
    if k == "moving":
        nce = n + int(r.integers(0, 4))
        if nce and N:
            m = r.integers(0, 2, N) == 0
            ce = np.where(m, r.integers(-1, nce, N), ce)
    elif k == "swap" and N:
        i = int(r.integers(N))
        ce[i] = r.integers(-1, max(nce, 1)) if nce else -1
    elif k == "two intrinsics" and N:
        i = int(r.integers(N))
        ci[i] = r.integers(n)
    elif k == "random" and N:
        ce = r.integers(-1, nce, N) if nce else np.full(N, -1)
    t = np.stack((np.zeros(N, dtype=int), ci, ce), -1).astype(np.int32)
    return n, nce, t[:c["nb"]], t[c["nb"]:]


@C.facet("icam", tables(), quick=3000, thorough=100000, shards=2)
def icam(c):
    n, nce, tb, tp = table(c)
    label(c["kind"])
    if c["how"] == "sizes":
        kw = dict(Ncameras_intrinsics=n, Ncameras_extrinsics=nce, Nobservations_board=len(tb), Nobservations_point=len(tp))
        if len(tb):
            kw.update(indices_frame_camintrinsics_camextrinsics=tb)
        if len(tp):
            kw.update(indices_point_camintrinsics_camextrinsics=tp, observations_point=np.zeros((len(tp), 3)))
    else:
        kw = dict(intrinsics=np.ones((n, 4)), lensmodel="LENSMODEL_PINHOLE", imagersizes=np.ones((n, 2), dtype=np.int32), rt_cam_ref=np.zeros((nce, 6)))
        if len(tb):
            kw.update(indices_frame_camintrinsics_camextrinsics=tb, rt_ref_frame=np.zeros((1, 6)), observations_board=np.zeros((len(tb), 2, 2, 3)))
        if len(tp):
            kw.update(indices_point_camintrinsics_camextrinsics=tp, points=np.zeros((1, 3)), observations_point=np.zeros((len(tp), 3)))
        label("from the inputs")
    if not len(tb) + len(tp):
        trivial()
    pairs = {(int(a), int(b)) for _, a, b in np.concatenate((tb, tp))}
    vanilla = n in (nce, nce + 1) and len({a for a, b in pairs}) == len(pairs) and len({b for a, b in pairs}) == len(pairs)
    d = dict(pairs)
    label("vanilla" if vanilla else "not vanilla")
    for i in range(n):
        try:
            got = mrcal.corresponding_icam_extrinsics(i, **kw)
        except Exception as e:
            got = None
        want = d.get(i) if vanilla else None
        if got != want:
            raise Violation("corresponding_icam_extrinsics(%d) is %s, not %s: Ncameras_intrinsics=%d, Ncameras_extrinsics=%d, (icam_intrinsics,icam_extrinsics)=%s" % (
                i, got if got is not None else "an error", want if want is not None else "an error", n, nce, sorted(pairs)))
    for i in (-1, n, n + 100, -2**31, 2**31 - 1):
        try:
            got = mrcal.corresponding_icam_extrinsics(i, **kw)
        except Exception:
            continue
        raise Violation("corresponding_icam_extrinsics(%d) of %d cameras is %s" % (i, n, got))


if __name__ == "__main__":
    C.main()
