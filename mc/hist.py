"""Histories of queries on one object: whatever was asked before, an answer equals the answer of a fresh object.

Exhaustive: every ordered pair of (query, argument) and every triple that returns to its first element, over an alphabet of
arguments built to look alike (same values in another order, same sum, same extremes, one cell apart, one ulp apart,
the same tensor object changed in place).
"""
import itertools
import numpy as np
import torch


def alike(base, dims, lo, hi):
    """Arguments around `base` (flat list), all within [lo, hi]; returns list of float32 arrays."""
    b = np.asarray(base, dtype=np.float32).reshape(dims)
    f = b.ravel()
    d = np.float32((hi - lo) * 2e-2)
    out = [b, f[::-1].reshape(dims).copy(), np.roll(f, 1).reshape(dims)]
    t = f.copy(); t[0], t[-1] = t[-1], t[0]; out.append(t.reshape(dims))
    t = f.copy(); t[0] += d; t[-1] -= d; out.append(t.reshape(dims))                    # same sum
    t = f.copy(); t[1] += d; t[2] -= d; out.append(t.reshape(dims))                     # same sum, first and last cell
    order = np.argsort(f)
    t = f.copy(); t[order[1]] += d; out.append(t.reshape(dims))                         # same extremes
    t = f.copy(); t[-1] += d; out.append(t.reshape(dims))                               # last cell only
    t = f.copy(); t[0] -= d; out.append(t.reshape(dims))                                # first cell only
    t = f.copy(); t[len(t) // 2] = np.nextafter(t[len(t) // 2], np.float32(hi)); out.append(t.reshape(dims))
    out.append(np.full(dims, f.mean(), dtype=np.float32))
    out.append((f + d).reshape(dims))
    out.append(np.full(dims, lo, dtype=np.float32))
    out.append(np.full(dims, hi, dtype=np.float32))
    return [np.clip(x, np.float32(lo), np.float32(hi)).astype(np.float32) for x in out]


def flat(res):
    """Any answer as a list of arrays."""
    if isinstance(res, dict):
        return [a for k in sorted(res) for a in flat(res[k])]
    if isinstance(res, (tuple, list)):
        return [a for x in res for a in flat(x)]
    return [np.asarray(res.detach().cpu().numpy() if isinstance(res, torch.Tensor) else res)]


def same(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and x.dtype == y.dtype and np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b))


def run(make, ops, args, wrap, r, what, inplace=True):
    """make() -> object; ops: {name: fn(obj, arg)}; args: list of arrays; wrap(array) -> argument handed to the code."""
    fresh = {}
    for n, op in ops.items():
        for i, a in enumerate(args):
            fresh[n, i] = [x.copy() for x in flat(op(make(), wrap(a.copy())))]
    keys = list(fresh)
    bad = False

    def ask(obj, key, seq, arg=None):
        nonlocal bad
        n, i = key
        got = flat(ops[n](obj, wrap(args[i].copy()) if arg is None else arg))
        r.traces += 1
        if not bad and not same(got, fresh[key]):
            bad = True
            j = next((k for k, (x, y) in enumerate(zip(got, fresh[key])) if not np.array_equal(x, y)), 0)
            r.bad(f"{what}: {n} after the history {seq} gives {np.ravel(got[j])[:4]}, a fresh object {np.ravel(fresh[key][j])[:4]}")

    for a in keys:
        for b in keys:
            obj = make()
            ask(obj, a, "()")
            ask(obj, b, (a,))
            ask(obj, a, (a, b))
            r.transitions += 3
    # one object through all of them, there and back
    obj = make()
    for k in keys + keys[::-1]:
        ask(obj, k, "(all before it)")
        r.transitions += 1
    # the same tensor changed in place between the questions
    if inplace:
        for n in ops:
            for i, j in itertools.permutations(range(len(args)), 2):
                if args[i].shape != args[j].shape:
                    continue
                obj = make()
                t = wrap(args[i].copy())
                ask(obj, (n, i), "()", t)
                if isinstance(t, torch.Tensor):
                    t.copy_(wrap(args[j].copy()))
                else:
                    t[...] = args[j]
                ask(obj, (n, j), f"({n}, {i}), then the same array changed in place", t)
                r.transitions += 2
    r.count("histories", len(keys) ** 2)
    r.state(what, np.stack([a.ravel()[:1] for a in args]))
