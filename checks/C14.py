#!/usr/bin/python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pbt
from pbt import Violation, label, trivial, reject, note
pbt.build_and_import()
import numpy as np
from scipy.sparse import csr_matrix, csc_matrix, coo_matrix
from hypothesis import strategies as st
import mrcal
import gens, problem
from gens import fl

C = pbt.Check("C14", "sparse factorization",
              "Cases: random sparse J (1..30 columns, any sparsity, block structure, unsorted or repeated indices, explicit zeros, badly scaled columns) and Jacobians of random "
              "calibration problems; right-hand sides of any leading shape; sequences of operations on one object; malformed and singular J. Oracle: dense algebra, "
              "judged by backward error. Non-trivial: at least 2 columns.",
              assumptions=["an exactly singular JtJ whose pivots are nonzero because of roundoff may be accepted, if rcond() reports it (<1e-9)"])
SYS = ["A", "LDLt", "LD", "DLt", "L", "Lt", "D", "P", "Pt"]


def quiet_stderr():
    os.dup2(os.open("/dev/null", os.O_WRONLY), 2)


def matrix(r, w, h, dens, scale, kind):
    A = r.normal(0, 1, (h, w)) * (r.random((h, w)) < dens)
    if kind == "block":
        for j in range(w):
            A[:, j] *= (np.arange(h) // 3) % max(1, w // 3) == j % max(1, w // 3)
    # full column rank
    p = r.permutation(h)[:w]
    A[p, np.arange(w)] += 3 * r.choice([-1, 1], w)
    if kind == "arrow":
        A[0] = r.normal(0, 1, w)
    return A * 10**r.uniform(-scale, scale, w)


def sparse(r, A, form):
    """csr with the given peculiarity"""
    if form == "plain":
        return csr_matrix(A)
    h, w = A.shape
    ptr, idx, dat = [0], [], []
    for row in A:
        j = np.nonzero(row)[0]
        v = row[j]
        if form == "zeros":
            z = np.nonzero(row == 0)[0]
            z = z[r.random(len(z)) < .3]
            j, v = np.concatenate((j, z)), np.concatenate((v, np.zeros(len(z))))
        o = r.permutation(len(j)) if form == "unsorted" else np.argsort(j)
        idx += list(j[o])
        dat += list(v[o])
        ptr.append(len(idx))
    M = csr_matrix((np.array(dat, dtype=float), np.array(idx, dtype=np.int32), np.array(ptr, dtype=np.int32)), shape=A.shape)
    return M


def backward(A, x, b):
    """componentwise-scaled residual of x A = b (A symmetric)"""
    d = np.sqrt(np.diag(A))
    As, xs, bs = A / d / d[:, None], x * d, b / d
    return np.abs(xs @ As - bs).max() / (np.abs(xs).max() * np.abs(As).sum(0).max() + np.abs(bs).max() + 1e-300)


mats = st.fixed_dictionaries(dict(w=st.one_of(st.integers(1, 8), st.integers(1, 30)), extra=st.integers(0, 40), dens=st.sampled_from([.05, .2, .5, 1.]),
                                  scale=st.sampled_from([0, 0, 2, 4]), kind=st.sampled_from(["any", "any", "block", "arrow"]),
                                  form=st.sampled_from(["plain", "plain", "zeros", "unsorted"]), seed=gens.seeds,
                                  shape=st.lists(st.integers(1, 3), max_size=3)))


def check_F(F, JtJ, r, shape, cond=1.):
    w = len(JtJ)
    b = r.normal(0, 1, tuple(shape) + (w,)) * np.sqrt(np.diag(JtJ))
    b0 = b.copy()
    x = F.solve_xt_JtJ_bt(b)
    if x.shape != b.shape:
        raise Violation("the solution has shape %r; the input has %r" % (x.shape, b.shape))
    if not np.array_equal(b, b0):
        raise Violation("solve_xt_JtJ_bt() modifies its input")
    e = backward(JtJ, x.reshape(-1, w), b.reshape(-1, w))
    note("backward error", e)
    if not e < 1e-12:
        raise Violation("solve_xt_JtJ_bt(): backward error %g" % e)
    # partial operations
    f = lambda s, v: F.solve_xt_JtJ_bt(np.ascontiguousarray(v), sys=s)
    d = np.sqrt(np.abs(np.diag(JtJ)))

    def same(a, c, what, tol=max(1e-8, 1e-14 * cond**2)):
        if not np.all(np.abs(a - c) * d <= tol * (np.abs(a) * d).max()):
            raise Violation(what)
    same(f("CHOLMOD_A", b), x, "sys=CHOLMOD_A is different", 0)
    pb = f("P", b)
    if not np.array_equal(f("Pt", pb), b) or not np.array_equal(np.sort(pb, -1), np.sort(b, -1)):
        raise Violation("sys=P isn't a permutation that Pt undoes")
    same(f("Pt", f("LDLt", pb)), x, "P, LDLt, Pt isn't the complete solve")
    same(f("Pt", f("Lt", f("D", f("L", pb)))), x, "P, L, D, Lt, Pt isn't the complete solve")
    same(f("Pt", f("Lt", f("LD", pb))), x, "P, LD, Lt, Pt isn't the complete solve")
    same(f("Pt", f("DLt", f("L", pb))), x, "P, L, DLt, Pt isn't the complete solve")
    # the factors themselves
    I = np.eye(w)
    P = f("P", I)          # row i: P e_i
    if not (np.all((P == 0) | (P == 1)) and np.all(P.sum(0) == 1) and np.all(P.sum(1) == 1)):
        raise Violation("sys=P isn't a permutation")
    Li, Lti, Di = f("L", I).T, f("Lt", I).T, f("D", I).T
    if np.any(np.triu(Li, 1) != 0) or not np.allclose(Li.T, Lti, rtol=max(1e-8, 1e-14 * cond**2), atol=1e-10 * np.abs(Li).max()) or np.any(Di - np.diag(np.diag(Di)) != 0):
        raise Violation("sys=L isn't triangular, Lt isn't its transpose, or D isn't diagonal")
    # rcond
    rc = F.rcond()
    dd = 1. / np.diag(Di)
    want = dd.min() / dd.max() if not np.all(dd == 1) else None
    if not (np.isfinite(rc) and 0 < rc <= 1) or want is not None and abs(rc - want) > 1e-8 * want:
        raise Violation("rcond() = %r; the pivots say %r" % (rc, want))
    if F.rcond() != rc or not np.array_equal(F.solve_xt_JtJ_bt(b), x) or F.rcond() != rc:
        raise Violation("repeated use gives other results")
    if ("N=%d" % w) not in str(F):
        raise Violation("str(F) = " + str(F))


@C.facet("solve", mats, quick=3000, thorough=150000)
def solve(c):
    quiet_stderr()
    r = np.random.default_rng(c["seed"])
    w, h = c["w"], c["w"] + c["extra"]
    A = matrix(r, w, h, c["dens"], c["scale"], c["kind"])
    d = np.sqrt((A * A).sum(0))
    if np.linalg.cond(A / d) > 1e4:
        reject()
    J = sparse(r, A, c["form"])
    keep = J.copy()
    F = mrcal.CHOLMOD_factorization(J)
    if (J != keep).nnz or not np.array_equal(J.indices, keep.indices):
        raise Violation("the input was modified")
    del J
    check_F(F, A.T @ A, r, c["shape"])
    label(c["form"])
    if w < 2:
        trivial()


@C.facet("problems", st.tuples(problem.problem_spec(flags=True), gens.seeds), quick=500, thorough=20000)
def problems(c):
    """The factorization of optimizer_callback()"""
    s, seed = c
    quiet_stderr()
    s.update(W=5, H=4, nframes=2 + seed % 3, reg=True)
    oi = problem.make(s)
    if not problem.layout(oi):
        reject()
    b, x, J, F = mrcal.optimizer_callback(**oi)
    Jd = J.toarray()
    JtJ = Jd.T @ Jd
    d = np.sqrt(np.diag(JtJ))
    if len(x) == 0 or np.any(d == 0):
        if F is not None:
            raise Violation("a structurally singular problem has a factorization")
        label("structurally singular")
        reject()
    cond = np.linalg.cond(Jd / d)
    if F is None:
        if cond < 1e5 and Jd.shape[0] >= Jd.shape[1]:
            raise Violation("no factorization; cond(J) = %g" % cond)
        label("singular")
        reject()
    if cond > 3e5 or Jd.shape[0] < Jd.shape[1]:
        label("badly conditioned")
        reject()
    r = np.random.default_rng(seed)
    check_F(F, JtJ, r, (2,), cond)
    F2 = mrcal.CHOLMOD_factorization(J)
    bb = r.normal(0, 1, len(b)) * d
    x1, x2 = F.solve_xt_JtJ_bt(bb), F2.solve_xt_JtJ_bt(bb)
    if np.abs((x1 - x2) * d).max() > max(1e-6, 1e-14 * cond**2) * np.abs(x1 * d).max():
        raise Violation("the factorization differs from CHOLMOD_factorization(J)")


BAD = ["None", "dense", "csc", "coo", "float32", "int", "int64", "notarray", "zerocol", "wide", "empty_row_only", "list"]


@C.facet("malformed", st.tuples(mats, st.sampled_from(BAD)), quick=1500, thorough=50000)
def malformed(c):
    c, bad = c
    quiet_stderr()
    r = np.random.default_rng(c["seed"])
    w, h = c["w"], c["w"] + c["extra"]
    A = matrix(r, w, h, c["dens"], 0, c["kind"])
    J = csr_matrix(A)
    may = False
    if bad == "None":
        J = None
    elif bad == "dense":
        J = A
    elif bad == "csc":
        J = csc_matrix(A)
    elif bad == "coo":
        J = coo_matrix(A)
    elif bad == "float32":
        J = J.astype(np.float32)
    elif bad == "int":
        J = csr_matrix(np.round(A).astype(int))
    elif bad == "int64":
        J.indices, J.indptr = J.indices.astype(np.int64), J.indptr.astype(np.int64)
    elif bad == "notarray":
        J.data = list(J.data)
    elif bad == "zerocol":
        A[:, r.integers(w)] = 0
        J = csr_matrix(A)
    elif bad == "wide":
        w = h + 1 + c["extra"] % 3
        A = np.concatenate((A, r.normal(0, 1, (h, w - A.shape[1]))), -1)
        J = csr_matrix(A)
        may = True
    elif bad == "empty_row_only":
        J = csr_matrix((h, w))
    elif bad == "list":
        J = A.tolist()
    label(bad)
    try:
        F = mrcal.CHOLMOD_factorization(J)
    except Exception:
        return
    if may:
        if F.rcond() < 1e-9:
            return
        raise Violation("rank-deficient J (%s) is accepted, with rcond() = %g" % (bad, F.rcond()))
    raise Violation("bad J (%s) is accepted" % bad)


@C.facet("malformed_rhs", st.tuples(mats, st.sampled_from(["short", "long", "0d", "empty_last", "empty_lead", "float32", "int", "strided", "T", "list", "None", "sys", "noinit"])),
         quick=1500, thorough=50000)
def malformed_rhs(c):
    c, bad = c
    quiet_stderr()
    r = np.random.default_rng(c["seed"])
    w, h = c["w"], c["w"] + c["extra"]
    A = matrix(r, w, h, c["dens"], 0, c["kind"])
    F = mrcal.CHOLMOD_factorization(csr_matrix(A))
    b = r.normal(0, 1, (3, w))
    kw = {}
    ok = False
    if bad == "short":
        b = np.ascontiguousarray(b[:, :-1])
    elif bad == "long":
        b = np.zeros((3, w + 1))
    elif bad == "0d":
        b = np.array(3.)
    elif bad == "empty_last":
        b = np.zeros((3, 0))
    elif bad == "empty_lead":
        b = np.zeros((2, 0, w))
        ok = True
    elif bad == "float32":
        b = b.astype(np.float32)
    elif bad == "int":
        b = np.ones((3, w), dtype=int)
    elif bad == "strided":
        b = np.zeros((3, 2 * w))[:, ::2]
        b[...] = r.normal(0, 1, b.shape)
    elif bad == "T":
        b = np.array(b.T, order="C").T
    elif bad == "list":
        b = b.tolist()
    elif bad == "None":
        b = None
    elif bad == "sys":
        kw["sys"] = ["", "a", "LL", "CHOLMOD_", "CHOLMOD_A ", "Ltt"][r.integers(6)]
    elif bad == "noinit":
        F = mrcal.CHOLMOD_factorization()
        try:
            rc = F.rcond()
        except Exception:
            pass
        else:
            raise Violation("an empty factorization has rcond() = %r" % rc)
    label(bad)
    try:
        x = F.solve_xt_JtJ_bt(b, **kw)
    except Exception:
        if ok:
            raise Violation("a right-hand side of shape %r is refused" % (b.shape,))
        return
    if ok:
        if x.shape != b.shape:
            raise Violation("shape %r" % (x.shape,))
        return
    if bad in ("strided", "T", "float32", "int", "list") and backward(A.T @ A, np.asarray(x, float), np.asarray(b, float)) < 1e-6:
        return      # accepted, and right
    raise Violation("bad right-hand side (%s) is accepted" % bad)


@st.composite
def history(draw):
    ops = draw(st.lists(st.tuples(st.sampled_from(["init", "init", "solve", "solve", "solve", "rcond", "str", "badinit", "badsolve", "noinit", "new"]), st.integers(0, 3)), min_size=3, max_size=20))
    return dict(seed=draw(gens.seeds), w=[draw(st.integers(1, 12)) for _ in range(4)], ops=ops)


@C.facet("history", history(), quick=800, thorough=40000)
def hist(c):
    """One object, reused"""
    quiet_stderr()
    r = np.random.default_rng(c["seed"])
    As = [matrix(r, w, w + 3, .4, 0, "any") for w in c["w"]]
    F = mrcal.CHOLMOD_factorization()
    cur = None
    n = 0
    for op, k in c["ops"]:
        A = As[k]
        if op in ("init", "new"):
            J = csr_matrix(A)
            if op == "init":
                F.__init__(J)
            else:
                F = mrcal.CHOLMOD_factorization(J)
            J.data[:] = 7.     # it has no hold on the input
            del J
            cur = A
        elif op == "noinit":
            F.__init__()
            cur = None
        elif op == "badinit":
            Z = A.copy()
            Z[:, 0] = 0
            try:
                F.__init__(csr_matrix(Z))
            except Exception:
                cur = None
            else:
                raise Violation("a singular matrix is accepted")
        elif op == "badsolve":
            try:
                F.solve_xt_JtJ_bt(np.zeros(50))
            except Exception:
                pass
            else:
                raise Violation("a bad right-hand side is accepted")
        elif op == "solve":
            b = r.normal(0, 1, (k + 1, A.shape[1] if cur is None else cur.shape[1]))
            try:
                x = F.solve_xt_JtJ_bt(b)
            except Exception:
                if cur is not None:
                    raise
            else:
                if cur is None:
                    raise Violation("solving without a factorization gives %r" % x)
                n += 1
                if np.linalg.cond(cur) < 1e4 and backward(cur.T @ cur, x, b) > 1e-12:
                    raise Violation("the solution is wrong after %r" % (c["ops"],))
        elif op == "rcond" and cur is not None:
            if not 0 < F.rcond() <= 1:
                raise Violation("rcond %r" % F.rcond())
        else:
            str(F)
    if n < 2:
        trivial()


C.main()
