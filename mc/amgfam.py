"""Enumerated pressure-type matrices for the multigrid checks (C18-C20)."""
import itertools
import numpy as np
import scipy.sparse as sp
import torch


def faces(dims):
    nx, ny, nz = dims
    idx = lambda i, j, k: (i * ny + j) * nz + k
    out = []
    for i in range(nx):
        for j in range(ny):
            for k in range(nz):
                if i + 1 < nx:
                    out.append((idx(i, j, k), idx(i + 1, j, k), 0, (i, j, k)))
                if j + 1 < ny:
                    out.append((idx(i, j, k), idx(i, j + 1, k), 1, (i, j, k)))
                if k + 1 < nz:
                    out.append((idx(i, j, k), idx(i, j, k + 1), 2, (i, j, k)))
    return out


def lcg(n, seed=1):
    x, out = seed, []
    for _ in range(n):
        x = (x * 1103515245 + 12345) % 2 ** 31
        out.append(x / 2 ** 31)
    return np.array(out)


def harm(a, b):
    return 2 * a * b / (a + b) if a + b > 0 else 0.0


def trans(dims, pat):
    """Transmissibility of every face for coefficient pattern pat."""
    F = faces(dims)
    if isinstance(pat, (tuple, list)):          # one explicit value per face
        return [float(x) for x in pat]
    n = int(np.prod(dims))
    if pat == "iso":
        return [1.0] * len(F)
    if pat.startswith("aniso"):                 # anisoX:1e3
        ax, v = pat[5:].split(":")
        return [float(v) if d == "xyz".index(ax) else 1.0 for _, _, d, _ in F]
    kind, v = pat.split(":")
    v = float(v)
    k = np.ones(n)
    ii = np.array(list(np.ndindex(*dims)))
    if kind == "layer":
        k[ii[:, int(np.argmax(dims))] % 3 == 1] = v
    elif kind == "check":
        k[ii.sum(1) % 2 == 1] = v
    elif kind == "chan":
        k[:] = 1 / v
        k[(ii[:, 0] % 4 == 1) | (ii[:, 1] % 5 == 2)] = 1.0
    elif kind == "rand":
        k = v ** (lcg(n, 7) - 0.5)
    elif kind == "block":
        k[ii[:, 0] >= dims[0] // 2] = v
    return [harm(k[a], k[b]) for a, b, _, _ in F]


def accum(dims, acc):
    n = int(np.prod(dims))
    if acc == "dir":                            # bottom-hole-pressure well in the first cell only
        d = np.zeros(n)
        d[0] = 1.0
    elif acc == "dirm":                         # two wells
        d = np.zeros(n)
        d[n // 2] = 5.0
        d[n - 1] = 0.3
    elif acc == "none":
        d = np.zeros(n)
    elif acc == "var":
        d = 1e-3 * (1 + 99 * lcg(n, 3))
    else:
        d = np.full(n, float(acc))
    return d


def perm(n, order):
    if order == "nat":
        return np.arange(n)
    if order == "rev":
        return np.arange(n)[::-1].copy()
    if order == "eo":
        return np.concatenate([np.arange(0, n, 2), np.arange(1, n, 2)])
    if order == "lcg":
        return np.argsort(lcg(n, 11), kind="stable")
    raise ValueError(order)


def matrix(dims, pat="iso", acc="1e-3", scale=1.0, order="nat"):
    n = int(np.prod(dims))
    T = trans(dims, pat)
    r, c, v = [], [], []
    d = accum(dims, acc)
    for (a, b, _, _), t in zip(faces(dims), T):
        if t == 0.0:
            continue
        r += [a, b]
        c += [b, a]
        v += [-t, -t]
        d[a] += t
        d[b] += t
    d = np.where(d == 0.0, 1.0, d)              # a cut-off cell without accumulation gets a unit row
    r += range(n)
    c += range(n)
    v += list(d)
    A = sp.csr_matrix((v, (r, c)), shape=(n, n))
    p = perm(n, order)
    A = A[p][:, p].tocsr()
    A.sort_indices()
    return A * float(scale)


def to_torch(A, layout="csr", dtype=torch.float64):
    A = A.tocsr()
    if layout == "dense":
        return torch.tensor(A.toarray(), dtype=dtype)
    if layout == "coo":
        B = A.tocoo()
        return torch.sparse_coo_tensor(np.vstack([B.row, B.col]), torch.tensor(B.data, dtype=dtype), A.shape)
    if layout == "coodup":                      # every entry split into two summands, unsorted
        B = A.tocoo()
        i = np.concatenate([B.row, B.row[::-1]])
        j = np.concatenate([B.col, B.col[::-1]])
        x = np.concatenate([B.data * 0.25, (B.data * 0.75)[::-1]])
        return torch.sparse_coo_tensor(np.vstack([i, j]), torch.tensor(x, dtype=dtype), A.shape)
    return torch.sparse_csr_tensor(torch.tensor(A.indptr, dtype=torch.int64), torch.tensor(A.indices, dtype=torch.int64),
                                   torch.tensor(A.data, dtype=dtype), size=A.shape)


def rhs(n, kinds=("e0", "ones", "alt", "lin", "elast")):
    for k in kinds:
        b = np.zeros(n)
        if k == "e0":
            b[0] = 1.0
        elif k == "elast":
            b[n - 1] = -3.0
        elif k == "emid":
            b[n // 2] = 2.0
        elif k == "ones":
            b[:] = 1.0
        elif k == "alt":
            b[:] = np.where(np.arange(n) % 2 == 0, 1.0, -1.0)
        elif k == "lin":
            b[:] = np.linspace(-1, 2, n)
        elif k == "lcg":
            b[:] = lcg(n, 5) - 0.5
        elif k == "big":
            b[:] = 2e7 * (1 + 0.01 * lcg(n, 5))
        yield k, b


SMALL = [(n, 1, 1) for n in range(1, 8)] + [(1, 4, 1), (1, 1, 5), (2, 2, 1), (2, 1, 2), (3, 2, 1), (2, 2, 2), (1, 3, 2), (4, 2, 1)]
LARGE = [(64, 1, 1), (12, 12, 1), (6, 6, 6), (1, 100, 1), (7, 5, 3), (20, 1, 10)]
PATS = ["iso", "anisox:1e3", "anisoz:1e-4", "anisoy:50", "layer:1e-3", "layer:1e4", "check:1e4", "chan:1e3", "rand:1e4", "block:1e6"]
