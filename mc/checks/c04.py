"""C04: the new pressure satisfies the discrete flow balance in every cell."""
import itertools
import numpy as np
from .. import models as mm, family
from ..walk import explore

BOUND = dict(quick="grids <= 2x2x2/3x2x1, 12 well sets, relperm x PVT x capillary x solver {CG f64, CG f32, AMG}, permeability decades 0.01 mD - 10 D, step sequences depth 2 over {0.05, 3} days, all pressure orderings on <=3 cells; thin layers, 14-step histories, lines of 9 and larger blocks, variants and shipped configurations as in C02, cells shared by a well that switches to its minimum pressure and wells held at a pressure",
             thorough="adds grids up to 4x5x2, depth 3, 3 cell shapes, more field patterns")
RULE = "residual of the model's linear system (dense float64, built from configuration and observed pre-state) at the observed new pressure, per row; plus total storage = net well rate for rate wells"
SOLVERS = dict(cg64=dict(pressure_float64=True, cg_tolerance=1e-7), cg32=dict(pressure_float64=False),
               amg=dict(pressure_solver="amg", amg=dict(tol=1e-11, max_cycles=80, coarsest_size=4)))


def cases(tier):
    th = tier == "thorough"
    grids = mm.GRIDS1 + mm.GRIDS2 + mm.GRIDS3 + [(2, 2, 1), (2, 1, 2), (1, 2, 2), (3, 2, 1), (2, 2, 2)]
    if th:
        grids = grids + mm.GRIDS_M[4:] + mm.GRIDS_L
    for dims in grids:
        for ws in family.wellsets(dims):
            for rp in mm.RPS:
                for pvt in ("none", "rv"):
                    for cap in (0, 2, 3) if th else (0, 3):
                        for solver in SOLVERS:
                            if not th and solver != "cg64" and (rp == "corey" or (cap == 3 and solver == "cg32")):
                                continue
                            for cell in ((0, 1, 2) if th and solver == "cg64" else (1,)):
                                yield dict(dims=dims, ws=ws, rp=rp, pvt=pvt, cap=cap, cell=cell, solver=solver, days=[0.05, 3.0], depth=2)
    # thin layers
    for dims in [(1, 1, 2), (1, 1, 3), (2, 1, 2)] + ([(2, 2, 2), (1, 2, 3)] if th else []):
        for ws in family.wellsets(dims):
            for rp in ("corey3", "stone"):
                for pvt in ("none", "rv"):
                    for cap in (0, 3):
                        for solver in ("cg64", "amg"):
                            yield dict(dims=dims, ws=ws, rp=rp, pvt=pvt, cap=cap, solver=solver, cell=3, days=[0.0004, 0.004], depth=2)
    # permeability decades and uniform permeability (both isotropic and with contrast between neighbours)
    for dims in mm.GRIDS2 + [(3, 1, 1), (2, 2, 2)]:
        for md in (1e-2, 1e-1, 1.0, 1e1, 1e3, 1e4):
            for contrast in (1.0, 1e-3):
                for ws in ("none", "wip", "bhpi", "mix"):
                    for solver in SOLVERS:
                        yield dict(dims=dims, ws=ws, rp="corey3", pvt="none", cap=0, solver=solver, days=[0.5], depth=1, md=md, contrast=contrast)
    # starved linear solver: whenever a step is accepted the documented tolerance (ten times, on the retry) holds
    for dims in [(12, 1, 1), (1, 1, 12), (1, 24, 1), (3, 2, 2), (40, 1, 1)]:
        for mi in (0, 1, 2, 3, 5, 8, 12, 20, 40):
            for f64 in (False, True):
                for tl in (1e-4, 1e-7):
                    for ws in ("wip", "mix"):
                        yield dict(dims=dims, ws=ws, rp="corey3", pvt="none", cap=0, q=5.0, solver="cg64" if f64 else "cg32", days=[1.0, 20.0], depth=1, md=50.0, contrast=0.02,
                                   starve=dict(pressure_float64=f64, cg_max_iter=mi, cg_tolerance=tl, max_time_step_attempts=1))
    # all pressure orderings x saturation levels
    for dims in mm.GRIDS2 + mm.GRIDS3 + ([(2, 2, 1), (1, 2, 2), (2, 1, 2)] if th else []):
        n = mm.ncell(dims)
        for perm in itertools.permutations(range(n)):
            for pat in itertools.product(range(3), repeat=n):
                if n == 4 and sum(pat) % 3:
                    continue
                yield dict(dims=dims, ws="wip" if sum(pat) % 2 else "none", rp="corey", pvt="none", cap=2, solver="cg64", days=[0.5], depth=1,
                           over=dict(sw=[0.25 + 0.15 * p for p in pat], sg=[0.05 + 0.05 * ((p + i) % 2) for i, p in enumerate(pat)],
                                     P=[20e6 + 3e5 * q for q in perm]))

    # long histories, and grids long, wide or deep enough for a rule that depends on the position of a cell
    for dims in [(2, 1, 1), (1, 1, 3), (2, 2, 1)]:
        for ws in family.wellsets(dims):
            for pvt in ("none", "rv"):
                yield dict(dims=dims, ws=ws, rp="corey3", pvt=pvt, cap=3, cell=1, solver="cg64", days=[0.05], depth=40 if th else 14)
    for dims in [(9, 1, 1), (1, 9, 1), (1, 1, 9), (6, 5, 1), (5, 1, 6), (1, 6, 5), (5, 4, 4)] + ([(24, 1, 1), (1, 24, 1), (1, 1, 24), (8, 7, 6)] if th else []):
        for ws in family.wellsets(dims):
            for pvt in ("none", "rv"):
                yield dict(dims=dims, ws=ws, rp="corey3" if pvt == "none" else "stone", pvt=pvt, cap=3, cell=1, solver="cg64", days=[0.05], depth=2)

    for v in family.variants(th=th):               # one departure from the base model at a time
        yield dict(v, solver="cg64" if v["pvt"] == "rv" else "amg", days=family.days(v, 0.05, 3.0), depth=2)
    # the example configurations of the repository
    for name, S in family.SHIPPED.items():
        for het in (False, True):
            for solver in SOLVERS:
                if solver == "cg32" and mm.ncell(S["dims"]) > 400:      # rounding of a long float32 iteration is not modelled
                    continue
                yield dict(shipped=name, dims=S["dims"], het=het, solver=solver, days=[S["dt"] / 4, S["dt"]], depth=3 if th else 2)


def run_case(c, r):
    c = dict(c, sim=c.get("starve") or dict(dict(pressure_solver="cg"), **SOLVERS[c["solver"]]))
    if "md" in c:
        n = mm.ncell(c["dims"])
        k = [c["md"] * (c["contrast"] if i % 2 else 1.0) for i in range(n)]
        c["over"] = dict(kx=k, ky=k, kz=k)
    M = family.model(c)
    f32 = c["solver"] == "cg32"

    def check(st, r):
        if not st.ok:
            r.count("failed_steps")
            return
        sp = st.spec
        tol = c["sim"].get("cg_tolerance", 1e-6)
        if "starve" in c:
            r.count("starved_ok")
        res, allow, amb, S = sp.pressure_residual(st.P, st.P1, st.sw, st.sg, st.dt, tol * 10, f32)
        if c["solver"] == "amg":
            allow = allow + 1e-10 * np.linalg.norm(S["b"])
        bad = (np.abs(res) > allow) & ~amb
        r.count("rows", int((~amb).sum()))
        r.skipped += int(amb.sum())
        if bad.any():
            w = int(np.argmax(np.where(bad, np.abs(res) / allow, 0)))
            r.bad(f"balance of cell {tuple(int(x) for x in np.unravel_index(w, sp.dims))}: residual {res[w]:.4g} m3/s, allowance {allow[w]:.2g}, path={st.path}")
        # global balance with rate wells only: storage equals net rate
        if not amb.any() and all(m == "rate" for w, m in zip(sp.wells, S["modes"]) if w.inside):
            stor = float((S["acc"] * (st.P1 - st.P).ravel()).sum())
            net = sum((1 if w.type == "injector" else -1) * w.value * sp.rate_scale / 86400 for w in sp.wells if w.inside)
            if abs(stor - net) > allow.sum():
                r.bad(f"global storage {stor:.6g} m3/s, wells {net:.6g} (allowance {allow.sum():.2g}), path={st.path}")
            r.count("global")

    explore(M, [d * 86400.0 for d in c["days"]], c["depth"], check, r)


def finish(tier, counters, cases):
    if counters.get("rows", 0) < 10000 or counters.get("global", 0) < 1000:
        yield f"vacuous: {counters}"
