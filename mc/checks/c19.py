"""C19: a multigrid solve does not depend on what was solved before."""
import itertools
import numpy as np
import torch
from .. import amgfam as af
from solver import pressure_amg as pa
from solver.classical_amg import ClassicalAMG
from .c18 import judge, attain

BOUND = dict(quick="all sequences of 3 solves over an alphabet of 10 systems (12 in the thorough tier: three connection patterns and eight coefficient fields of equal size, two scalings that switch equilibration, another size, starved and poisoned solves) and of 2 solves with every pair of option sets; all update histories of length 3 of one hierarchy and interleaved updates of two",
             thorough="sequences of 4 solves; all option pairs with sequences of 3; update histories of length 4")
RULE = "every solve of a sequence meets the residual tolerance of its own system and agrees with the dense solution of that system"
ASSUMPTIONS = ["non-singular symmetric M-matrices; solves inside the sequence that are starved of cycles or given non-finite data are only required to leave later solves alone"]
CYC = 60

SYS = [dict(dims=(4, 3, 1), pat="iso", acc="1e-3"), dict(dims=(4, 3, 1), pat="rand:1e4", acc="dir"), dict(dims=(12, 1, 1), pat="layer:1e-3", acc="dirm"),
       dict(dims=(2, 3, 2), pat="anisoz:1e-4", acc="var"), dict(dims=(2, 3, 2), pat="anisox:1e3", acc="1e-3", order="lcg"),
       dict(dims=(4, 3, 1), pat="chan:1e3", acc="1e-3", scale=1e-11), dict(dims=(12, 1, 1), pat="iso", acc="dir", scale=1e7, order="eo"),
       dict(dims=(4, 3, 1), pat="check:1e4", acc="var", scale=3e-9), dict(dims=(1, 12, 1), pat="block:1e6", acc="1e-3", scale=1e-10),
       dict(dims=(5, 2, 1), pat="check:1e4", acc="var")]
STARVED, POISON = 10, 11
OPTS = [dict(coarsest_size=2), dict(coarsest_size=2, theta=0.6), dict(coarsest_size=4), dict(coarsest_size=2, max_levels=2), dict(coarsest_size=200), dict(coarsest_size=1, theta=0.1)]


def system(s):
    A = af.matrix(**{**dict(scale=1.0, order="nat"), **SYS[s]})
    n = A.shape[0]
    b = (af.lcg(n, 17 + s) - 0.4) * SYS[s].get("scale", 1.0)
    return A, b


_SYS = {}


def cases(tier):
    th = tier == "thorough"
    alpha = [s for s in range(len(SYS) + 2) if th or s not in (4, 9)]
    for first in alpha:
        for second in alpha:
            yield dict(kind="seq", head=(first, second), alpha=alpha, depth=3)
            if th and not {first, second} & {4, 9}:
                yield dict(kind="seq", head=(first, second), alpha=[s for s in alpha if s not in (4, 9)], depth=4)
    for o1 in range(len(OPTS)):
        for o2 in range(len(OPTS)):
            yield dict(kind="opts", o=(o1, o2), depth=3 if th else 2)
    for first in range(len(SYS)):
        yield dict(kind="update", first=first, depth=4 if th else 3)
    for first in range(len(SYS)):
        yield dict(kind="two", first=first)
        yield dict(kind="rescale", first=first)
    for dims in ((4, 3, 1), (20, 1, 1), (3, 3, 3)):
        for drift in (1.3, 4.0, 0.4):
            yield dict(kind="drift", dims=dims, drift=drift, th=th)
    yield dict(kind="sizes")


def get(s):
    if s not in _SYS:
        A, b = system(s)
        _SYS[s] = (A, b, np.linalg.solve(A.toarray(), b))
    return _SYS[s]


def check_x(r, s, x, conv, what, tol):
    A, b, xs = get(s)
    judge(r, A, b, x, conv, what, tol=tol, cyc=CYC)
    # error bound from the residual: |e| <= |A^-1| |r|
    inv = np.linalg.norm(np.linalg.inv(A.toarray()), 2)
    lim = inv * (tol + 32 * attain(A, xs, b)) * np.linalg.norm(b) * 1.05
    if np.linalg.norm(x - xs) > lim:
        r.bad(f"solution differs from that of its own system by {np.linalg.norm(x - xs):.3e} > {lim:.3e}: {what}")


def one(r, s, what, tol=1e-9, **kw):
    layout = ("csr", "coo", "coodup")[s % 3]
    if s == STARVED:
        A, b, _ = get(1)
        x, c = pa.amg_solve(af.to_torch(A), torch.tensor(b), tol=1e-14, max_cycles=1, return_converged=True, device="cpu", **kw)
        r.transitions += 1
        return
    if s == POISON:
        A, b, _ = get(0)
        b = b.copy()
        b[3] = float("nan")
        x, c = pa.amg_solve(af.to_torch(A), torch.tensor(b), tol=1e-8, max_cycles=2, return_converged=True, device="cpu", **kw)
        r.transitions += 1
        if c:
            r.bad(f"convergence reported for a non-finite right-hand side: {what}")
        return
    A, b, xs = get(s)
    x, c = pa.amg_solve(af.to_torch(A, layout), torch.tensor(b), tol=tol, max_cycles=CYC, return_converged=True, device="cpu", **kw)
    r.state(x.numpy(), s)
    check_x(r, s, x.numpy(), c, what, tol)


def clear():
    getattr(pa, "_AMG_CACHE", {}).clear()


def run_case(c, r):
    if c["kind"] == "seq":
        tols = (1e-9, 1e-6, 1e-10, 1e-9)
        for rest in itertools.product(c["alpha"], repeat=c["depth"] - 2):
            clear()
            seq = tuple(c["head"]) + rest
            for i, s in enumerate(seq):
                one(r, s, f"solve {i} of the sequence {seq}", tol=tols[i], coarsest_size=2)
                if r.viol:
                    return
            r.count("sequences")
    elif c["kind"] == "opts":
        o1, o2 = (OPTS[i] for i in c["o"])
        for seq in itertools.product((0, 1, 3, 5, 6), repeat=c["depth"]):
            clear()
            for i, s in enumerate(seq):
                one(r, s, f"solve {i} of {seq} with options {(o1, o2)[i % 2]} after {o1}", **(o1, o2)[i % 2])
                if r.viol:
                    return
            r.count("sequences")
    elif c["kind"] == "update":
        size = get(c["first"])[0].shape[0]
        same = [s for s in range(len(SYS)) if get(s)[0].shape[0] == size]
        for seq in itertools.product(same, repeat=c["depth"] - 1):
            h = ClassicalAMG(af.to_torch(get(c["first"])[0]), coarsest_size=2)
            hist = (c["first"],) + seq
            for s in seq:
                A, b, xs = get(s)
                h.update_matrix(A if s % 3 == 0 else af.to_torch(A, ("csr", "coo")[s % 2]))
                r.transitions += 1
            b_t = torch.tensor(b)
            x = h.solve(b_t, tol=1e-6, max_iter=12)
            rel = np.linalg.norm(A @ x.numpy() - b) / np.linalg.norm(b)
            r.state(x.numpy(), hist)
            r.traces += 1
            r.count("updates")
            att = attain(A, xs, b)
            conv = getattr(h, "converged", rel < 1e-6)
            if conv and rel > 1e-6 + 16 * att:
                r.bad(f"updated hierarchy reports convergence with residual {rel:.3e}: updates {hist}")
            if rel < 0.5e-6 and not conv:
                r.bad(f"updated hierarchy does not report convergence with residual {rel:.3e}: updates {hist}")
            # the history before the last matrix does not matter: same hierarchy updated to it directly
            if len(seq) > 1:
                h2 = ClassicalAMG(af.to_torch(get(c["first"])[0]), coarsest_size=2)
                h2.update_matrix(af.to_torch(A))
                y = h2.solve(b_t, tol=1e-6, max_iter=12)
                if not np.allclose(x.numpy(), y.numpy(), rtol=1e-6, atol=1e-9 * np.abs(y.numpy()).max()):
                    r.bad(f"update history changes the answer by {np.abs(x.numpy() - y.numpy()).max():.3e}: updates {hist}")
            # same coefficients again: exactly as good as a hierarchy built for them
            if s == c["first"] and rel > 1e-6 + 16 * att:
                h3 = ClassicalAMG(af.to_torch(A), coarsest_size=2)
                z = h3.solve(b_t, tol=1e-6, max_iter=12)
                rz = np.linalg.norm(A @ z.numpy() - b) / np.linalg.norm(b)
                if rz < 1e-6:
                    r.bad(f"returning to the first matrix converges worse ({rel:.2e} against {rz:.2e}): updates {hist}")
            if r.viol:
                return
    elif c["kind"] == "rescale":
        # the same coefficients in other units, before and after an excursion to other coefficients
        A0, b0, _ = get(c["first"])
        others = [None] + [s for s in range(len(SYS)) if s != c["first"] and get(s)[0].shape == A0.shape]
        for f, g in itertools.product((1e-12, 3e-9, 0.37, 2.5, 1e5), (1e-11, 1.0, 1e-3)):
            for mid in others:
                h = ClassicalAMG(af.to_torch(A0 * g), coarsest_size=2)
                if mid is not None:
                    h.update_matrix(af.to_torch(get(mid)[0]))
                A = A0 * (f * g)
                b = b0 * (f * g)
                h.update_matrix(af.to_torch(A))
                x = h.solve(torch.tensor(b), tol=1e-8, max_iter=25)
                y = ClassicalAMG(af.to_torch(A), coarsest_size=2).solve(torch.tensor(b), tol=1e-8, max_iter=25)
                r.transitions += 2
                r.traces += 1
                r.state(x.numpy(), c["first"], f, g, mid)
                rel, ref = (np.linalg.norm(A @ z.numpy() - b) / np.linalg.norm(b) for z in (x, y))
                r.count("rescaled")
                if not rel <= max(1e-8 + 32 * attain(A, y.numpy(), b), 10 * ref):
                    r.bad(f"after an update the solve is worse than with a new hierarchy: residual {rel:.2e} against {ref:.2e}: system {c['first']} built times {g}, then {mid}, then times {f * g}")
                    return
    elif c["kind"] == "two":
        # two hierarchies updated and used alternately
        f = c["first"]
        for g in range(len(SYS)):
            ha = ClassicalAMG(af.to_torch(get(f)[0]), coarsest_size=2)
            ref = {}
            hb = ClassicalAMG(af.to_torch(get(g)[0]), coarsest_size=2, theta=0.5)
            for h, s in ((ha, f), (hb, g), (ha, f), (hb, g)):
                A, b, xs = get(s)
                x = h.solve(torch.tensor(b), tol=1e-9, max_iter=CYC).numpy()
                check_x(r, s, x, True, f"two hierarchies for {f} and {g}, solving {s}", 1e-9)
                key = id(h)
                if key in ref and not np.array_equal(ref[key], x):
                    r.bad(f"repeating a solve after another hierarchy was used changes the answer: {f}, {g}")
                ref[key] = x
                r.count("two")
            # two right-hand sides in turn, start vectors and argument tensors untouched
            A, b, xs = get(f)
            b2 = np.roll(b, 1)
            t1, t2, x0 = torch.tensor(b), torch.tensor(b2), torch.tensor(xs * 0.5)
            keep = [t.clone() for t in (t1, t2, x0)]
            p = ha.solve(t1, x0=x0, tol=1e-9, max_iter=CYC)
            q = ha.solve(t2, tol=1e-9, max_iter=CYC)
            p2 = ha.solve(t1, x0=x0, tol=1e-9, max_iter=CYC)
            if not all(torch.equal(u, v) for u, v in zip((t1, t2, x0), keep)):
                r.bad(f"solve changes its arguments: system {f}")
            if not torch.equal(p, p2):
                r.bad(f"a solve changes the answer of the next: system {f}")
            if r.viol:
                return
    elif c["kind"] == "drift":
        # long life: slowly drifting coefficients, as in a simulation
        dims, drift = tuple(c["dims"]), c["drift"]
        clear()
        n = int(np.prod(dims))
        nf = len(af.faces(dims))
        for step in range(40 if c["th"] else 16):
            pat = tuple(1.0 + (drift ** min(step, 16) - 1.0) * (1 if (f * 7 + step // 5) % 3 == 0 else 0) for f in range(nf))
            A = af.matrix(dims, pat, "1e-3")
            b = af.lcg(n, step + 1) - 0.3
            x, cv = pa.amg_solve(af.to_torch(A), torch.tensor(b), tol=1e-8, max_cycles=CYC, coarsest_size=2, return_converged=True, device="cpu")
            judge(r, A, b, x.numpy(), cv, f"step {step} of a drifting system dims={dims} drift={drift}", tol=1e-8, cyc=CYC)
            r.count("drift")
            if r.viol:
                return
    else:                                               # growing and shrinking system
        clear()
        for n in list(range(1, 40)) + list(range(40, 0, -1)) + [5, 30, 5, 30]:
            A = af.matrix((n, 1, 1), "rand:1e4", "1e-3")
            b = af.lcg(n, 3) + 1
            x, cv = pa.amg_solve(af.to_torch(A), torch.tensor(b), tol=1e-8, max_cycles=CYC, coarsest_size=3, return_converged=True, device="cpu")
            judge(r, A, b, x.numpy(), cv, f"size {n} in a sequence of growing and shrinking systems", tol=1e-8, cyc=CYC)
            r.count("sizes")


def finish(tier, counters, cases):
    need = dict(sequences=1200, updates=500, two=100, rescaled=500, drift=100, sizes=50, solved=4000)
    low = {k: counters.get(k, 0) for k, v in need.items() if counters.get(k, 0) < v}
    if low:
        yield f"vacuous: {low}"
