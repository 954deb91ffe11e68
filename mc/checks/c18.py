"""C18: the multigrid pressure solver solves the system it is given."""
import itertools
import numpy as np
import torch
from .. import amgfam as af, models as mm, family
from ..build import build, state
from solver import pressure_amg as pa
from solver.classical_amg import ClassicalAMG

BOUND = dict(quick="all two-valued face patterns (contrast 1e4) of the grids with at most 7 faces, 10 coefficient patterns (anisotropy and contrast up to 1e6) of larger grids up to 216 cells, x diagonal terms {one well, two wells, uniform, variable} x coarsest size {1, 2, n-1, n, n+1, 200} x levels {1,2,3,10} x strength threshold x numbering x scaling 1e-12..1e8 x storage layout x right-hand sides; 5 grids of 180 to 900 cells x 10 patterns x diagonals x coarsest size up to 500; simulations with both solvers; systems of 1300 unknowns",
             thorough="face patterns with three values, two contrasts, all option combinations on every grid, more simulations")
RULE = "recomputed residual meets the tolerance (or the accuracy attainable in double precision); converged flag truthful; simulations agree with conjugate gradients"
ASSUMPTIONS = ["non-singular symmetric M-matrices; coarsest level of at most 500 unknowns (the limit of the direct coarse solve)"]
TOL, CYC = 1e-8, 400
ACCS = ("dir", "dirm", "1e-3", "var")
EPS = 2.3e-16


def cases(tier):
    th = tier == "thorough"
    for dims in af.SMALL:
        nf = len(af.faces(dims))
        if nf <= 7:
            for lo in ((1e-4, 1e-2) if th else (1e-4,)):
                vals = (1.0, lo) if not th or nf > 6 else (1.0, lo, 30.0)
                pats = list(itertools.product(vals, repeat=nf))
                for i in range(0, len(pats), 8):
                    yield dict(kind="small", dims=dims, pats=pats[i:i + 8], th=th)
            if nf <= (7 if th else 4):             # closed faces: disconnected regions
                pats = list(itertools.product((1.0, 0.0, 1e-3) if th and nf < 7 else (1.0, 0.0), repeat=nf))
                for i in range(0, len(pats), 8):
                    yield dict(kind="small", dims=dims, pats=pats[i:i + 8], accs=("1e-3", "var"), th=th)
        else:
            yield dict(kind="small", dims=dims, pats=af.PATS, th=th)
    for dims in af.LARGE:
        for pat in af.PATS:
            yield dict(kind="large", dims=dims, pat=pat, th=th)
    for dims in [(180, 1, 1), (20, 24, 1), (1, 1, 500), (30, 30, 1), (10, 9, 9)] + ([(40, 40, 1), (11, 12, 13)] if th else []):
        for pat in af.PATS:
            yield dict(kind="wide", dims=dims, pat=pat, th=th)
    for dims in [(1300, 1, 1), (36, 36, 1), (11, 11, 11)] + ([(1, 2100, 1), (50, 50, 1)] if th else []):
        for pat in ("iso", "anisoy:50", "rand:1e4"):
            yield dict(kind="huge", dims=dims, pat=pat)
    for dims in [(3, 2, 1), (9, 1, 1), (4, 3, 2)] + ([(10, 10, 1), (5, 5, 5), (40, 1, 1)] if th else []):
        for pat in af.PATS if th else ("chan:1e3", "anisoz:1e-4", "rand:1e4"):
            yield dict(kind="opts", dims=dims, pat=pat, th=th)
    for i in range(10):
        yield dict(kind="sim", i=i, steps=6 if th else 3)


def attain(A, x, b):
    """Relative residual that rounding alone leaves."""
    nb = np.linalg.norm(b)
    if nb == 0:
        return 0.0
    return EPS * abs(A).sum(1).max() * np.linalg.norm(x) / nb


def judge(r, A, b, x, conv, what, tol=TOL, slack=1.0, cyc=CYC):
    """Compare one answer with the system."""
    r.transitions += 1
    r.traces += 1
    nb = np.linalg.norm(b)
    if x.shape != b.shape or not np.isfinite(x).all():
        r.bad(f"solution is not a finite vector of the right size: {what}")
        return
    res = np.linalg.norm(A @ x - b)
    rel = res / nb if nb > 0 else res
    xe = np.linalg.norm(x)
    att = max(attain(A, x, b), 0) * slack
    if rel > tol + 16 * att:
        if conv:
            r.bad(f"reported convergence but the residual is {rel:.3e} > {tol:g}: {what}")
        else:
            r.bad(f"not converged in {cyc} cycles, residual {rel:.3e} > {tol:g}: {what}")
    elif not conv and att * 16 < tol / 4:
        r.bad(f"convergence not reported although the residual is {rel:.3e}: {what}")
    r.count("solved")


def solve(r, A, b, what, layout="csr", tol=TOL, cyc=CYC, dtype=torch.float64, fresh=True, **kw):
    if fresh:
        getattr(pa, "_AMG_CACHE", {}).clear()
    At = af.to_torch(A, layout)
    bt = torch.tensor(b, dtype=dtype)
    a0, b0 = At.to_dense().clone(), bt.clone()
    x, c = pa.amg_solve(At, bt, tol=tol, max_cycles=cyc, return_converged=True, device="cpu", **kw)
    if x.dtype != dtype or x.device != bt.device:
        r.bad(f"solution dtype or device differs from the right-hand side: {what}")
    if not torch.equal(At.to_dense(), a0) or not torch.equal(bt, b0):
        r.bad(f"the solver changed its arguments: {what}")
    slack = 1.0 if dtype == torch.float64 else 6e-8 / EPS
    judge(r, A, bt.double().numpy(), x.double().numpy(), c, what, tol, slack, cyc)
    r.state(x.numpy())
    return x, c


def run_case(c, r):
    dims = tuple(c.get("dims", ()))
    n = int(np.prod(dims)) if dims else 0
    if c["kind"] == "small":
        for pat in c["pats"]:
            for a, acc in enumerate(c.get("accs", ACCS)):
                A = af.matrix(dims, pat, acc)
                for cs in sorted({1, 2, max(n - 1, 1)} if c["th"] else {1, 2}):
                    for j, (k, b) in enumerate(af.rhs(n, ("lin", "e0"))):
                        solve(r, A, b, f"dims={dims} pattern={pat} diag={acc} coarsest={cs} rhs={k}", fresh=j == 0, coarsest_size=cs)
                if r.viol:
                    return
    elif c["kind"] == "large":
        for q, acc in enumerate(ACCS + (("1e-6",) if c["th"] else ())):
            A = af.matrix(dims, c["pat"], acc)
            for cs in (1, 2, 20, n - 1) if c["th"] else ((2, 20)[q % 2],):
                for j, (k, b) in enumerate(af.rhs(n, ("lin", "alt", "e0", "big") if c["th"] else ("lin", "emid"))):
                    solve(r, A, b, f"dims={dims} pattern={c['pat']} diag={acc} coarsest={cs} rhs={k}", fresh=j == 0, coarsest_size=cs)
            if r.viol:
                return
    elif c["kind"] == "huge":
        A = af.matrix(dims, c["pat"], "var")
        for k, b in af.rhs(n, ("lin",)):
            solve(r, A, b, f"dims={dims} pattern={c['pat']} rhs={k}", fresh=True)
            r.count("wide")
    elif c["kind"] == "wide":               # coarsest levels up to the limit of the direct solve, systems beyond it
        for q, acc in enumerate(ACCS + (("1e-6",) if c["th"] else ())):
            A = af.matrix(dims, c["pat"], acc)
            sizes = {min(n, 500), 200} | ({n - 1, n // 2} if n <= 500 else {350})
            for cs in sorted(sizes) if c["th"] else [sorted(sizes)[(q + i) % len(sizes)] for i in range(2)]:
                for j, (k, b) in enumerate(af.rhs(n, ("lin", "e0", "alt") if c["th"] else ("lin",))):
                    solve(r, A, b, f"dims={dims} pattern={c['pat']} diag={acc} coarsest={cs} rhs={k}", fresh=j == 0, coarsest_size=cs)
                    r.count("wide")
            if r.viol:
                return
    elif c["kind"] == "opts":
        opts = dict(scale=(1.0, 1e-12, 3e-7, 1e8), order=("nat", "rev", "eo", "lcg"), cs=(1, 2, n - 1, n, n + 1, 200), ml=(1, 2, 3, 10),
                    theta=(0.1, 0.25, 0.5, 0.9), layout=("csr", "coo", "coodup", "dense"), acc=ACCS, tol=(1e-8, 1e-3, 1e-11))
        base = dict(scale=1.0, order="nat", cs=2, ml=10, theta=0.25, layout="csr", acc="dir", tol=1e-8)
        names = list(opts)
        seen = set()
        # all pairs of options away from the base, every combination of two values
        for x, y in itertools.combinations(names, 2):
            for vx in opts[x]:
                for vy in opts[y]:
                    o = dict(base, **{x: vx, y: vy})
                    key = tuple(o.values())
                    if key in seen:
                        continue
                    seen.add(key)
                    A = af.matrix(dims, c["pat"], o["acc"], o["scale"], o["order"])
                    b = dict(af.rhs(n, ("lcg",)))["lcg"] * o["scale"]
                    solve(r, A, b, f"dims={dims} pattern={c['pat']} {o}", layout=o["layout"], tol=o["tol"], coarsest_size=o["cs"], max_levels=o["ml"], theta=o["theta"])
                    if r.viol:
                        return
        # other entry points and arguments
        for acc in ACCS:
            A = af.matrix(dims, c["pat"], acc)
            for scale in (1.0, 1e-12):
                h = ClassicalAMG(af.to_torch(A * scale), coarsest_size=2)
                h2 = ClassicalAMG(A * scale, coarsest_size=2, nullspace_dim=0)      # scipy input, plain interpolation
                for k, b in af.rhs(n, ("lin", "ones", "elast")):
                    b = b * scale
                    xs = np.linalg.solve((A * scale).toarray(), b)
                    for name, x0 in (("zero", None), ("exact", xs), ("far", np.full(n, 7.0)), ("half", xs / 2)):
                        for hn, hh in (("hierarchy", h), ("plain", h2)):
                            x = hh.solve(torch.tensor(b), x0=None if x0 is None else torch.tensor(x0), tol=1e-6, max_iter=CYC)
                            # compared with the exact solution through the residual, far start vectors included
                            judge(r, A * scale, b, x.numpy(), True, f"{hn} solve from {name} start dims={dims} {c['pat']} {acc} scale={scale} {k}", tol=1e-6)
                            r.count("x0")
                    z = h.apply(torch.tensor(b), cycles=CYC)
                    if not np.isfinite(z.numpy()).all():
                        r.bad(f"apply is not finite: dims={dims} {c['pat']} {acc} {k}")
                        return
                    rel = np.linalg.norm(A * scale @ z.numpy() - b) / np.linalg.norm(b)
                    if rel > 0.051:
                        r.bad(f"apply leaves residual {rel:.3e} > 0.05: dims={dims} {c['pat']} {acc} {k} scale={scale}")
                    r.count("apply")
                try:
                    M = pa.amg_preconditioner(af.to_torch(A * scale), coarsest_size=2, device="cpu")
                except RuntimeError as e:
                    if "quality" not in str(e):
                        raise
                    r.count("refused")
                    continue
                for k, b in af.rhs(n, ("lin", "alt")):
                    z = M["apply"](torch.tensor(b, dtype=torch.float32))
                    r.count("precond")
                    if z.dtype != torch.float32 or z.shape != (n,):
                        r.bad(f"preconditioner changes type or shape: {z.dtype} {tuple(z.shape)}")
            # zero right-hand side and float32
            x, cv = solve(r, A, np.zeros(n), f"zero right-hand side dims={dims} {c['pat']} {acc}", coarsest_size=2)
            if x.abs().max() != 0 or not cv:
                r.bad(f"zero right-hand side gives a non-zero solution: dims={dims} {c['pat']} {acc}")
            for k, b in af.rhs(n, ("big", "e0")):
                solve(r, A, b, f"float32 dims={dims} {c['pat']} {acc} {k}", dtype=torch.float32, tol=1e-6, coarsest_size=2)
            # tolerance that cannot be met in the given number of cycles must not be reported as met
            for cyc in (0, 1, 2):
                for k, b in af.rhs(n, ("lin", "lcg")):
                    getattr(pa, "_AMG_CACHE", {}).clear()
                    x, cv = pa.amg_solve(af.to_torch(A), torch.tensor(b), tol=1e-12, max_cycles=cyc, coarsest_size=1, return_converged=True, device="cpu")
                    rel = np.linalg.norm(A @ x.numpy() - b) / np.linalg.norm(b)
                    r.count("starved")
                    if cv and rel > 1e-12 + 16 * attain(A, x.numpy(), b):
                        r.bad(f"convergence reported with residual {rel:.3e} after {cyc} cycles: dims={dims} {c['pat']} {acc}")
    else:
        sims(c, r)


def sims(c, r):
    W = mm.well
    i = c["i"]
    dims = [(4, 3, 1), (3, 3, 2), (9, 1, 1), (2, 2, 3), (6, 2, 1)][i % 5]
    last = tuple(x - 1 for x in dims)
    wells = [[W("I", "injector", (0, 0, 0), "rate", 2.0), W("P", "producer", last, "bhp", 18.0)],
             [W("G", "injector", last, "bhp", 21.5, injected_phase="gas"), W("P", "producer", (0, 0, 0), "rate", 2.0)]][i // 5]
    base = dict(cg_tolerance=1e-10)
    kw = dict(pvt=mm.PVT_RV) if i % 3 == 0 else {}
    for k in ((1.0, 300.0), (1e-3, 1000.0)):
        for cs in (1, 3, 200):
            sims_ = []
            for s in (dict(base), dict(base, pressure_solver="amg", amg=dict(coarsest_size=cs, tol=1e-10, max_cycles=100))):
                sim = build(mm.model(dims, wells=wells, k=k, fld="h2", sim=s, **kw))
                for dt in (0.2, 1.0, 0.5)[: c["steps"]] + (2.0,) * max(0, c["steps"] - 3):
                    ok = sim.run_step(dt * 86400)
                    r.transitions += 1
                    if not ok:
                        r.bad(f"step failed with {s.get('pressure_solver', 'cg')}: {c} k={k} coarsest={cs}")
                        return
                sims_.append(state(sim))
                r.state(*state(sim))
            r.traces += 1
            r.count("sims")
            a, b = sims_
            dp = np.abs(a[0] - b[0]).max()
            ds = max(np.abs(x - y).max() for x, y in zip(a[1:3], b[1:3]))
            if dp > 40.0 or ds > 1e-4:
                r.bad(f"AMG and CG simulations differ by {dp:.3g} Pa and {ds:.3g} in saturation: {c} k={k} coarsest={cs}")
                return
        # too few cycles: whatever the simulation does about it, a step it accepts is still the step CG would have made
        for cyc in (0, 1, 2, 4):
            for ml in (10, 1):
                s = dict(base, pressure_solver="amg", amg=dict(coarsest_size=1, tol=1e-10, max_cycles=cyc, max_levels=ml))
                sim = build(mm.model(dims, wells=wells, k=k, fld="h2", sim=s, **kw))
                for dt in (0.2, 1.0, 0.5)[: c["steps"]] + (2.0,) * max(0, c["steps"] - 3):
                    ok = sim.run_step(dt * 86400)
                    r.transitions += 1
                    if not ok:
                        break
                if ok:
                    b = state(sim)
                    r.traces += 1
                    r.count("few cycles")
                    dp = np.abs(a[0] - b[0]).max()
                    ds = max(np.abs(x - y).max() for x, y in zip(a[1:3], b[1:3]))
                    if not (dp <= 40.0 and ds <= 1e-4):
                        r.bad(f"AMG simulation with {cyc} cycles and CG differ by {dp:.3g} Pa and {ds:.3g} in saturation: {c} k={k} levels={ml}")
                        return


def finish(tier, counters, cases):
    need = dict(solved=10000, wide=200, **{"few cycles": 20}, x0=500, apply=150, precond=100, starved=200, sims=50)
    low = {k: counters.get(k, 0) for k, v in need.items() if counters.get(k, 0) < v}
    if low:
        yield f"vacuous: {low}"
