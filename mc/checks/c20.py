"""C20: the multigrid hierarchy is structurally sound and its sparse kernels are exact."""
import itertools
import numpy as np
import scipy.sparse as sp
import torch
from .. import amgfam as af
from solver import classical_amg as ca, pressure_amg as pa
from solver.classical_amg import ClassicalAMG
from .c18 import ACCS

BOUND = dict(quick="kernels: every pair of sparsity patterns of 2x2*2x2, 3x2*2x2, 2x3*3x2, 1x3*3x3, 2x2*2x3, 3x1*1x3 and 2x1*1x4 products, every pattern of 3x3, 2x4 and 4x2 matrices for products with a vector, transposes, diagonals and conversions, every symmetric 3x3 pattern with every 3x2 prolongation, every sign pattern of 3x3 off-diagonals for strong connections, row counts around the block size; hierarchies: all two-valued face patterns of the small grids and 10 patterns of 5 larger grids x diagonals x strength threshold x coarsest size, after building and after updating",
             thorough="3x3*3x3 products (all 2^18 pattern pairs), 4x4 vectors, more hierarchies")
RULE = "exact equality with dense integer arithmetic; partition, interpolation rows, Galerkin product, symmetry, convergent smoother"
ASSUMPTIONS = ["symmetric M-matrices for the hierarchy part"]
PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61]


def pat_matrix(shape, mask, off=0):
    m = np.zeros(shape)
    fl = m.reshape(-1)
    for i in range(fl.size):
        if mask >> i & 1:
            fl[i] = PRIMES[(i + off) % len(PRIMES)] * (-1 if (i + off) % 3 == 1 else 1)
    return m


def csr(m, dtype=torch.float64):
    s = sp.csr_matrix(m)
    return torch.sparse_csr_tensor(torch.tensor(s.indptr, dtype=torch.int64), torch.tensor(s.indices, dtype=torch.int64),
                                   torch.tensor(s.data, dtype=dtype), size=m.shape)


def valid_csr(t):
    cr, co = t.crow_indices(), t.col_indices()
    if cr.numel() != t.size(0) + 1 or cr[0] != 0 or cr[-1] != co.numel() or (cr[1:] < cr[:-1]).any() or t.values().numel() != co.numel():
        return False
    if co.numel() and (co.min() < 0 or co.max() >= t.size(1)):
        return False
    for i in range(t.size(0)):
        row = co[cr[i]:cr[i + 1]]
        if row.numel() > 1 and (row[1:] <= row[:-1]).any():
            return False
    return True


def cases(tier):
    th = tier == "thorough"
    shapes = [(2, 2, 2), (3, 2, 2), (2, 3, 2), (1, 3, 3), (2, 2, 3), (3, 1, 3), (2, 1, 4)]
    for m, k, n in shapes:
        for chunk in range(4):
            yield dict(kind="mm", shape=(m, k, n), chunk=chunk, of=4)
    if th:
        for chunk in range(64):
            yield dict(kind="mm", shape=(3, 3, 3), chunk=chunk, of=64)
    for shape in [(3, 3), (2, 4), (4, 2), (1, 5)] + ([(4, 4)] if th else []):
        n = 16 if shape == (4, 4) else 2
        for chunk in range(n):
            yield dict(kind="mv", shape=shape, chunk=chunk, of=n)
    for chunk in range(8):
        yield dict(kind="rap", chunk=chunk, of=8)
    for chunk in range(8):
        yield dict(kind="strong", chunk=chunk, of=8)
    yield dict(kind="blocks")
    for n in (5, 10, 17, 33, 65, 100, 130, 300) + ((600,) if th else ()):
        for shape in ("band", "arrow", "dense", "modular", "holes"):
            if shape != "dense" or n <= 130:
                yield dict(kind="big", n=n, shape=shape)
    yield dict(kind="onepoint")
    for dims in af.SMALL:
        nf = len(af.faces(dims))
        if nf <= 7:
            for lo in (1e-4, 0.0, 0.3):
                pats = list(itertools.product((1.0, lo), repeat=nf))
                for i in range(0, len(pats), 32):
                    yield dict(kind="hier", dims=dims, pats=pats[i:i + 32], th=th)
        else:
            yield dict(kind="hier", dims=dims, pats=af.PATS, th=th)
    for dims in ((70, 1, 1), (12, 12, 1), (5, 5, 5), (1, 1, 130)):
        for pat in af.PATS[(dims[0] % 2)::2]:
            yield dict(kind="hier", dims=dims, pats=[pat], th=False)
    for dims in ((20, 1, 1), (5, 5, 1), (3, 3, 3), (7, 2, 2), (9, 6, 1)) + (((6, 6, 6), (100, 1, 1), (14, 14, 1)) if th else ()):
        for pat in af.PATS:
            yield dict(kind="hier", dims=dims, pats=[pat], th=th, more=True)


def fn(name, r):
    f = getattr(ca, name, None)
    if f is None:
        r.count("absent kernel " + name)
    return f


def close(a, b, rel=1e-11):
    return a.shape == b.shape and np.abs(a - b).max(initial=0) <= rel * max(np.abs(b).max(initial=0), 1e-300)


def galerkin(C, P, A):
    """C = P^T A P up to the rounding of its terms (which cancel for a singular matrix)."""
    return C.shape == (P.shape[1],) * 2 and (np.abs(C - P.T @ A @ P) <= 1e-12 * (np.abs(P.T) @ np.abs(A) @ np.abs(P)) + 1e-300).all()


def run_case(c, r):
    k = c["kind"]
    if k == "mm":
        f = fn("_csr_spmm", r)
        if f is None:
            return
        m, kk, n = c["shape"]
        tot = 2 ** (kk * n)
        R = [pat_matrix((kk, n), b, 5) for b in range(tot)]
        Rt = [csr(x) for x in R]
        for a in range(c["chunk"], 2 ** (m * kk), c["of"]):
            L = pat_matrix((m, kk), a)
            Lt = csr(L)
            for b in range(tot):
                for br in ((1, 2, 64) if kk * n <= 6 and m < 3 else (2,) if m == 3 and (a + b) % 2 else (64,)):
                    C = f(Lt, Rt[b], br) if br != 64 else f(Lt, Rt[b])
                    r.transitions += 1
                    if not np.array_equal(C.to_dense().numpy(), L @ R[b]) or not valid_csr(C):
                        r.bad(f"sparse product differs: L={L.tolist()} R={R[b].tolist()} block={br} got {C.to_dense().tolist()}")
                        return
                r.traces += 1
            r.state("mm", c["shape"], a)
    elif k == "mv":
        m, n = c["shape"]
        h = ClassicalAMG(af.to_torch(af.matrix((2, 1, 1))))
        for a in range(c["chunk"], 2 ** (m * n), c["of"]):
            M = pat_matrix((m, n), a)
            t = csr(M)
            x = np.array([1.0, -2, 4, -8, 16])
            r.transitions += 4
            r.traces += 1
            r.state("mv", c["shape"], a)
            if hasattr(h, "_spmv_csr"):
                y = h._spmv_csr(t, torch.tensor(x[:n]))
                z = h._spmv_csr(t, torch.tensor(x[:m]), transpose=True)
                if not np.array_equal(y.numpy(), M @ x[:n]) or not np.array_equal(z.numpy(), M.T @ x[:m]):
                    r.bad(f"sparse matrix-vector product differs: {M.tolist()}")
                    return
            if hasattr(ca, "_torch_csr_to_scipy"):
                s = ca._torch_csr_to_scipy(t)
                u = ca._scipy_csr_to_torch(sp.csr_matrix(M), torch.device("cpu"))
                if not np.array_equal(s.toarray(), M) or s.shape != M.shape or not np.array_equal(u.to_dense().numpy(), M):
                    r.bad(f"conversion differs: {M.tolist()}")
                    return
            if hasattr(h, "_row_abs_sum") and not np.array_equal(h._row_abs_sum(t).numpy(), abs(M).sum(1)):
                r.bad(f"row sums differ: {M.tolist()}")
                return
            if hasattr(pa, "_to_csr_double"):
                forms = [t, csr(M, torch.float32), torch.tensor(M), torch.tensor(M, dtype=torch.float32).to_sparse()]
                B = sp.coo_matrix(M)
                if B.nnz:
                    forms.append(torch.sparse_coo_tensor(np.vstack([np.r_[B.row[::-1], B.row], np.r_[B.col[::-1], B.col]]), torch.tensor(np.r_[B.data[::-1] / 4, B.data * 0.75]), M.shape))
                for T in forms:
                    D = pa._to_csr_double(T, torch.device("cpu"))
                    if D.dtype != torch.float64 or D.layout != torch.sparse_csr or not np.array_equal(D.to_dense().numpy(), M):
                        r.bad(f"conversion to double precision rows differs: {M.tolist()} from {T.layout}")
                        return
            if m == n:
                if hasattr(h, "_extract_diag") and not np.array_equal(h._extract_diag(t).numpy(), M.diagonal()):
                    r.bad(f"diagonal differs: {M.tolist()}")
                    return
                if hasattr(ca, "_apply_reference_fix"):
                    for i in range(n):
                        W = M.copy()
                        W[i, :] = 0
                        W[:, i] = 0
                        W[i, i] = 1
                        if not np.array_equal(ca._apply_reference_fix(t, i).to_dense().numpy(), W):
                            r.bad(f"fixing unknown {i} differs: {M.tolist()}")
                            return
    elif k == "rap":
        f = fn("rap_torch", r)
        if f is None:
            return
        up = [(i, j) for i in range(3) for j in range(i, 3)]
        for a in range(c["chunk"], 64, c["of"]):
            A = np.zeros((3, 3))
            for q, (i, j) in enumerate(up):
                if a >> q & 1:
                    A[i, j] = A[j, i] = PRIMES[q]
            for b in range(64):
                P = pat_matrix((3, 2), b, 3)
                C = f(csr(A), csr(P), torch.device("cpu"))
                r.transitions += 1
                r.traces += 1
                if not np.array_equal(C.to_dense().numpy(), P.T @ A @ P) or not valid_csr(C):
                    r.bad(f"triple product differs: A={A.tolist()} P={P.tolist()}")
                    return
            r.state("rap", a)
    elif k == "strong":
        f = fn("find_strong_connections", r)
        if f is None:
            return
        vals = (-2.0, -1.0, 0.0, 1.5)
        for i, off in enumerate(itertools.product(vals, repeat=6)):
            if i % c["of"] != c["chunk"]:
                continue
            A = np.diag([4.0, 2.0, 5.0])
            it = iter(off)
            for x in range(3):
                for y in range(3):
                    if x != y:
                        A[x, y] = next(it)
            t = csr(A)
            s = sp.csr_matrix(A)
            for theta in (0.25, 0.5, 0.75, 1.0):
                got = np.zeros((3, 3), bool)
                mask = f(t, theta).numpy()
                rows = np.repeat(np.arange(3), np.diff(s.indptr))
                got[rows[mask], s.indices[mask]] = True
                want = np.zeros((3, 3), bool)
                for x in range(3):
                    mx = max([-A[x, y] for y in range(3) if y != x and A[x, y] < 0], default=0)
                    for y in range(3):
                        if y != x and A[x, y] < 0 and -A[x, y] / A[x, x] >= theta * (mx / A[x, x]):
                            want[x, y] = True
                r.transitions += 1
                r.traces += 1
                if not np.array_equal(got, want):
                    r.bad(f"strong connections differ: theta={theta} A={A.tolist()} got {got.tolist()}")
                    return
            r.state("strong", i)
    elif k == "blocks":
        f = fn("_csr_spmm", r)
        if f is None:
            return
        for m in (1, 2, 63, 64, 65, 127, 128, 129, 200, 1100, 2200):
            for hole in range(0, 6):
                L = np.zeros((m, 7))
                for i in range(m):
                    if hole == 0 or (i // (1, 1, 16, 32, 64, 65)[hole]) % 2 == hole % 2:
                        L[i, i % 7] = i + 1
                        L[i, (i * 3 + 1) % 7] += 2
                R = np.arange(1.0, 36.0).reshape(7, 5) * (np.add.outer(np.arange(7), np.arange(5)) % (hole + 1) == 0)
                for br in (1, 3, 64, 100, 1000):
                    C = f(csr(L), csr(R), br)
                    r.transitions += 1
                    r.traces += 1
                    r.count("blocks")
                    if not np.array_equal(C.to_dense().numpy(), L @ R) or not valid_csr(C):
                        r.bad(f"sparse product differs for {m} rows in blocks of {br}, pattern {hole}")
                        return
                r.state("blocks", m, hole)
    elif k == "big":
        big(c, r)
    elif k == "onepoint":
        f = fn("rap_onepoint_gpu", r)
        if f is None:
            return
        for n in (1, 2, 3, 4):
            for parents in itertools.product(range(min(n, 3)), repeat=n):
                nc = max(parents) + 1
                for pat in (2 ** (n * n) - 1, 0b1011010110101101 & (2 ** (n * n) - 1), sum(1 << (i * n + i) for i in range(n))):
                    A = pat_matrix((n, n), pat)
                    for w in (None, [2.0, -1.0, 3.0, 0.5][:n]):
                        for give in (None, nc, nc + 1):
                            P = np.zeros((n, give or nc))
                            for i, p in enumerate(parents):
                                P[i, p] = 1.0 if w is None else w[i]
                            C = f(csr(A), torch.tensor(parents), weights=None if w is None else torch.tensor(w), n_coarse=give)
                            r.transitions += 1
                            r.traces += 1
                            if not close(C.to_dense().numpy(), P.T @ A @ P):
                                r.bad(f"one-point triple product differs: A={A.tolist()} parents={parents} weights={w}")
                                return
                r.state("onepoint", parents)
    else:
        hier(c, r)


def big(c, r):
    """Every kernel on large matrices with long rows (integers: exact)."""
    n = c["n"]
    i, j = np.indices((n, n))
    keep = dict(band=abs(i - j) <= 7, arrow=(i == 0) | (j == 0) | (i == n - 1) | (i == j), dense=i >= 0, modular=(i * j + i + j) % 5 == 0, holes=((i // 3 + j // 4) % 3 == 0) & (i % 7 != 2))[c["shape"]]
    sign = np.where((i * 3 + j * 5) % 7 == 3, 1.0, -1.0)
    A = np.where(keep, sign * (1 + (i + j) * abs(i - j) % 11 + (i * j) % 3), 0.0)      # symmetric values where the sign is
    np.fill_diagonal(A, 40.0 + np.arange(n) % 9)
    S = np.where(keep & keep.T, -(1.0 + (i + j) % 11), 0.0)
    np.fill_diagonal(S, 12.0 * n)
    t, s = csr(A), sp.csr_matrix(A)
    x = ((np.arange(n) * 7) % 13 - 6).astype(float)
    what = f"{c['shape']} matrix of {n} rows"
    h = ClassicalAMG(af.to_torch(af.matrix((2, 1, 1))))
    r.transitions += 1
    r.traces += 1
    r.count("big kernels")
    r.state("big", n, c["shape"])
    if hasattr(h, "_spmv_csr"):
        if not np.array_equal(h._spmv_csr(t, torch.tensor(x)).numpy(), A @ x) or not np.array_equal(h._spmv_csr(t, torch.tensor(x), transpose=True).numpy(), A.T @ x):
            r.bad(f"sparse matrix-vector product differs: {what}")
    if hasattr(ca, "_torch_csr_to_scipy"):
        if not np.array_equal(ca._torch_csr_to_scipy(t).toarray(), A) or not np.array_equal(ca._scipy_csr_to_torch(s, torch.device("cpu")).to_dense().numpy(), A):
            r.bad(f"conversion differs: {what}")
    if hasattr(h, "_row_abs_sum") and not np.array_equal(h._row_abs_sum(t).numpy(), abs(A).sum(1)):
        r.bad(f"row sums differ: {what}")
    if hasattr(h, "_extract_diag") and not np.array_equal(h._extract_diag(t).numpy(), A.diagonal()):
        r.bad(f"diagonal differs: {what}")
    if hasattr(ca, "_apply_reference_fix"):
        for q in (0, n // 2, n - 1):
            W = A.copy()
            W[q, :] = 0
            W[:, q] = 0
            W[q, q] = 1
            if not np.array_equal(ca._apply_reference_fix(t, q).to_dense().numpy(), W):
                r.bad(f"fixing unknown {q} differs: {what}")
    if hasattr(pa, "_to_csr_double"):
        for T in (t, csr(A, torch.float32), torch.tensor(A).to_sparse(), torch.tensor(A, dtype=torch.float32)):
            if not np.array_equal(pa._to_csr_double(T, torch.device("cpu")).to_dense().numpy(), A):
                r.bad(f"conversion to double precision rows differs: {what} from {T.layout}")
    nc = max(n // 3, 1)
    P = np.zeros((n, nc))
    P[np.arange(n), np.arange(n) * nc // n] = 1
    P[np.arange(0, n, 2), (np.arange(0, n, 2) * 5 + 1) % nc] += 2
    P[np.arange(0, n, 3), (np.arange(0, n, 3) * 11 + 2) % nc] += 4
    if hasattr(ca, "_csr_spmm"):
        for L, R in ((A, A), (A, P), (P.T.copy(), A)):
            C = ca._csr_spmm(csr(L), csr(R))
            if not np.array_equal(C.to_dense().numpy(), L @ R) or not valid_csr(C):
                r.bad(f"sparse product differs: {L.shape} times {R.shape} for a {what}")
    if hasattr(ca, "rap_torch"):
        C = ca.rap_torch(csr(S), csr(P), torch.device("cpu"))
        if not np.array_equal(C.to_dense().numpy(), P.T @ S @ P) or not valid_csr(C):
            r.bad(f"triple product differs: {what}")
    if hasattr(ca, "find_strong_connections"):
        off = np.where(np.eye(n, dtype=bool), 0.0, np.minimum(A, 0.0))
        mx = -off.min(1, initial=0.0)
        rows = np.repeat(np.arange(n), np.diff(s.indptr))
        for theta in (0.25, 0.5, 0.75, 1.0):
            got = np.zeros((n, n), bool)
            m = ca.find_strong_connections(t, theta).numpy()
            got[rows[m], s.indices[m]] = True
            d = A.diagonal()[:, None]
            if not np.array_equal(got, (off < 0) & (-off / d >= theta * (mx[:, None] / d))):
                r.bad(f"strong connections differ: theta={theta}, {what}")


def check_hierarchy(h, r, what, cs, ml, A_top):
    L = h.levels
    prev = None
    for q, lv in enumerate(L):
        A = lv["A"].to_dense().numpy()
        n = A.shape[0]
        r.count("levels")
        if lv["n"] != n or A.shape[1] != n:
            r.bad(f"level {q} size is inconsistent: {what}")
            return
        if not np.isfinite(A).all() or np.abs(A - A.T).max() > 1e-9 * np.abs(A).max() + 1e-13 * np.abs(L[0]["A"].values()).max().item():
            r.bad(f"level {q} matrix is not finite and symmetric: {what}")
            return
        if prev is not None:
            P, Af = prev
            if not galerkin(A, P, Af):
                r.bad(f"level {q} matrix is not the Galerkin product of the level above: {what}")
                return
            if n > P.shape[0]:
                r.bad(f"level {q} is larger than the level above: {what}")
        elif A_top is not None:
            ratio = A[A_top != 0] / A_top[A_top != 0]
            if not close(A, A_top * (ratio.mean() if ratio.size else 1.0), 1e-9):
                r.bad(f"finest level is not the given matrix: {what}")
                return
        ev = np.linalg.eigvalsh((A + A.T) / 2) if n <= 60 else None
        if q == 0:
            top = np.abs(A).max()
        if ev is not None and ev[0] < -1e-9 * max(ev[-1], 0) - 1e-13 * top:
            r.bad(f"level {q} matrix is indefinite ({ev[0]:.3e}): {what}")
        if lv["is_coarsest"] != (q == len(L) - 1):
            r.bad(f"coarsest level mark is wrong at level {q}: {what}")
        if lv["is_coarsest"]:
            if q == 0 and n <= cs:
                r.count("single")
            continue
        if n <= cs:
            r.bad(f"level {q} with {n} <= {cs} unknowns was coarsened: {what}")
        P = lv["P"].to_dense().numpy()
        C = lv["coarse_nodes"].numpy().tolist()
        F = lv["F_nodes"].numpy().tolist()
        f2c = lv["fine2coarse"].numpy().tolist()
        if sorted(C + F) != list(range(n)):
            r.bad(f"coarse and fine points do not partition level {q}: {what}")
            return
        if P.shape != (n, len(C)) or not np.isfinite(P).all():
            r.bad(f"interpolation of level {q} has shape {P.shape} for {len(C)} coarse points or is not finite: {what}")
            return
        for i, p in enumerate(C):
            e = np.zeros(len(C))
            e[i] = 1
            if f2c[p] != i or not np.array_equal(P[p], e):
                r.bad(f"coarse point {p} of level {q} is not interpolated by itself: {what}")
                return
        d = A.diagonal()
        rs = A.sum(1)
        # connected unknowns within two links
        N1 = (np.abs(A) > 0) | np.eye(n, dtype=bool)
        N2 = (N1.astype(int) @ N1.astype(int)) > 0
        for p in F:
            r.count("frows")
            row = P[p]
            if f2c[p] != -1:
                r.bad(f"fine point {p} of level {q} has a coarse number: {what}")
                return
            if (A[p][np.arange(n) != p] < -1e-12 * abs(d[p])).any() and not (row > 0).any():
                r.bad(f"fine point {p} of level {q} is not interpolated: {what}")
                return
            s = row.sum()
            if abs(rs[p]) <= 1e-12 * d[p] and abs(s - 1) > 1e-9 + 4e-12:
                r.bad(f"interpolation row {p} of level {q} sums to {s!r}, not one: {what}")
                return
            if abs(rs[p]) <= 1e-12 * d[p]:
                r.count("zero-sum rows")
            if s > 1 + 1e-9 or (row < -1e-12).any():
                r.bad(f"interpolation row {p} of level {q} has weights {row.tolist()} outside [0,1]: {what}")
                return
            for i in np.nonzero(row)[0]:
                if not N2[p, C[i]]:
                    r.bad(f"fine point {p} of level {q} is interpolated from an unconnected point {C[i]}: {what}")
                    return
        # the smoother contracts in the energy norm
        if ev is not None and ev[0] > 1e-12 * max(ev[-1], top) and hasattr(h, "_smooth"):
            S = np.column_stack([h._smooth(q, torch.tensor(e), torch.zeros(n, dtype=torch.float64), 1).numpy() for e in np.eye(n)])
            rho = max(abs(np.linalg.eigvals(S)))
            r.count("smoother")
            if rho >= 1.0 - 1e-14:
                r.bad(f"smoother of level {q} does not contract ({rho}): {what}")
        prev = (P, A)
    if len(L) > ml + 1:
        r.bad(f"{len(L)} levels for max_levels={ml}: {what}")


def hier(c, r):
    dims = tuple(c["dims"])
    accs = ("none",) + ACCS
    for pat in c["pats"]:
        for acc in accs:
            A = af.matrix(dims, pat, acc)
            for theta in (0.25, 0.6) + ((0.1, 0.9) if c["th"] or c.get("more") and acc == "var" else ()):
                for cs, ml, nd in ((1, 10, 3), (2, 2, 0)) if c.get("more") or c["th"] else ((1, 10, 3),):
                    what = f"dims={dims} pattern={pat} diag={acc} theta={theta} coarsest={cs} max_levels={ml} modes={nd}"
                    h = ClassicalAMG(af.to_torch(A), theta=theta, coarsest_size=cs, max_levels=ml, nullspace_dim=nd)
                    r.transitions += 1
                    r.traces += 1
                    r.state(*[lv["A"].to_dense().numpy() for lv in h.levels])
                    r.count("hierarchies")
                    check_hierarchy(h, r, what, cs, ml, A.toarray())
                    if r.viol:
                        return
                    # after an update with other coefficients on the same connections
                    if theta == 0.25 and cs == 1:
                        B = A.copy()
                        B.data = B.data * 1.0
                        B = (sp.diags(np.full(A.shape[0], 0.7)) @ B + sp.diags(np.full(A.shape[0], 0.2))).tocsr()
                        for scale in (1.0, 1e-12):
                            h.update_matrix(af.to_torch(B * scale))
                            prev = None
                            for q, lv in enumerate(h.levels):
                                M = lv["A"].to_dense().numpy()
                                if prev is not None and not galerkin(M, prev[1], prev[0]):
                                    r.bad(f"level {q} is not the Galerkin product after an update: {what}")
                                if lv.get("P") is not None:
                                    prev = (M, lv["P"].to_dense().numpy())
                            T0 = h.levels[0]["A"].to_dense().numpy()
                            W = B.toarray()
                            if not close(T0 / T0[0, 0] * W[0, 0], W, 1e-9):
                                r.bad(f"finest level is not the updated matrix: {what}")
                            r.count("updated")
                        if r.viol:
                            return


def finish(tier, counters, cases):
    need = dict(levels=3000, frows=5000, hierarchies=1500, updated=1000, smoother=1000)
    need["zero-sum rows"] = 1000
    low = {k: counters.get(k, 0) for k, v in need.items() if counters.get(k, 0) < v}
    if low:
        yield f"vacuous: {low}"
