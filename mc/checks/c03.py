"""C03: per-cell transport by upstream face flows and wells."""
import itertools
import numpy as np
from .. import models as mm, family
from ..walk import explore

BOUND = dict(quick="as C02 (depth 2) plus all assignments of {low, mid, high} water x {low, high} gas to the cells of 2- and 3-cell grids and all pressure orderings of up to 3 cells; thin layers, 14-step histories, lines of 9 and larger blocks, variants and shipped configurations as in C02",
             thorough="adds larger grids, all assignments on 4-cell grids, 3 cell shapes")
RULE = "every cell whose unlimited target lies inside the saturation window must change by exactly dt/PV*(wells - divergence) of the model; cut cells must end at a limit"

TIGHT = dict(pressure_solver="cg", pressure_float64=True, cg_tolerance=1e-7, cg_max_iter=3000)


def cases(tier):
    th = tier == "thorough"
    grids = mm.GRIDS2 + mm.GRIDS3 + [(2, 2, 1), (2, 1, 2), (1, 2, 2), (2, 2, 2), (3, 2, 1)]
    if th:
        grids = grids + mm.GRIDS_M[4:] + mm.GRIDS_L
    for dims in grids:
        for ws in family.wellsets(dims):
            for rp in mm.RPS:
                for pvt in ("none", "rv"):
                    for cap in (0, 1, 3):
                        for fld in (("h", "h2", "h3") if th else ("h", "h3")):
                            if not th and fld == "h3" and cap == 3:
                                continue
                            for cell in ((0, 1, 2) if th else (1,)):
                                yield dict(dims=dims, ws=ws, rp=rp, pvt=pvt, cap=cap, fld=fld, cell=cell, days=[0.05, 0.5], depth=2)
    # thin layers
    for dims in [(1, 1, 2), (1, 1, 3), (2, 1, 2)] + ([(2, 2, 2), (1, 2, 3)] if th else []):
        for ws in family.wellsets(dims):
            for rp in ("corey3", "stone"):
                for pvt in ("none", "rv"):
                    for cap in (0, 3):
                        yield dict(dims=dims, ws=ws, rp=rp, pvt=pvt, cap=cap, fld="h", cell=3, days=[0.0004, 0.004], depth=2)
    # options of the sub-stepping: they decide how a change is applied, not how large it is
    for dims in [(2, 1, 1), (1, 1, 3), (2, 2, 1)] + ([(2, 2, 2), (3, 2, 1)] if th else []):
        for ws in family.wellsets(dims):
            for pvt in ("none", "rv"):
                for opt in (dict(max_saturation_change=1e-3), dict(max_substeps=1), dict(max_saturation_change=2e-3, max_substeps=3), dict(max_saturation_change=1e-3, max_substeps=200), dict(max_saturation_change=0.5)):
                    yield dict(dims=dims, ws=ws, rp="corey", pvt=pvt, cap=1, fld="h", cell=1, days=[0.2, 1.0], depth=2, sim=opt)
    # all assignments of saturation levels x pressure orderings
    lv = [(0.2, 0.0), (0.2, 0.1), (0.45, 0.0), (0.4, 0.2), (0.7, 0.1), (0.2, 0.6)]
    for dims in mm.GRIDS2 + mm.GRIDS3 + ([(2, 2, 1), (1, 2, 2), (2, 1, 2)] if th else []):
        n = mm.ncell(dims)
        L = lv if n < 4 else lv[:4]
        for pat in itertools.product(range(len(L)), repeat=n):
            for perm in itertools.permutations(range(n)):
                if n == 4 and perm[0] != sum(pat) % 4:
                    continue
                yield dict(dims=dims, ws="none", rp="corey", pvt="none", cap=0 if sum(pat) % 2 else 1, fld="h", days=[0.02, 0.5], depth=1,
                           over=dict(sw=[L[p][0] for p in pat], sg=[L[p][1] for p in pat],
                                     P=[20e6 + 4e5 * q for q in perm]))

    # long histories, and grids long, wide or deep enough for a rule that depends on the position of a cell
    for dims in [(2, 1, 1), (1, 1, 3), (2, 2, 1)]:
        for ws in family.wellsets(dims):
            for pvt in ("none", "rv"):
                yield dict(dims=dims, ws=ws, rp="corey3", pvt=pvt, cap=1, fld="h", cell=1, days=[0.05], depth=40 if th else 14)
    for dims in [(9, 1, 1), (1, 9, 1), (1, 1, 9), (6, 5, 1), (5, 1, 6), (1, 6, 5), (5, 4, 4)] + ([(24, 1, 1), (1, 24, 1), (1, 1, 24), (8, 7, 6)] if th else []):
        for ws in family.wellsets(dims):
            for pvt in ("none", "rv"):
                yield dict(dims=dims, ws=ws, rp="corey3" if pvt == "none" else "stone", pvt=pvt, cap=3, fld="h", cell=1, days=[0.05], depth=2)

    for v in family.variants(th=th):               # one departure from the base model at a time
        yield dict(v, days=family.days(v, 0.02, 0.3), depth=2)
    # the example configurations of the repository
    for name, S in family.SHIPPED.items():
        for het in (False, True):
            for solver in ({}, TIGHT) if th else (TIGHT,):
                yield dict(shipped=name, dims=S["dims"], het=het, opt=solver, days=[S["dt"] / 4, S["dt"]], depth=3 if th else 2)


def run_case(c, r):
    M = family.model(dict(c, sim=c["opt"]) if "shipped" in c else c)

    def check(st, r):
        if not st.ok:
            r.count("failed_steps")
            return
        sp = st.spec
        fl = st.flows()
        t = sp.transport(st.sw, st.sg, st.P1, fl, st.dt)
        free = sp.free(st.sw, st.sg, t) & ~t["amb"]
        r.count("cells_exact", int(free.sum()))
        r.count("cells_cut", int((~free).sum()))
        for ph, a, b in (("w", st.sw, st.sw1), ("g", st.sg, st.sg1)):
            d = np.abs((b - a) - t["dS" + ph])
            e = t["e" + ph] + (6e-8 * c["sim"].get("max_substeps", 20) if "sim" in c else 0.0)   # one rounding per sub-step
            bad = free & (d > e)
            if bad.any():
                w = np.unravel_index(np.argmax(np.where(bad, d / e, 0)), d.shape)
                r.bad(f"{ph} saturation of cell {tuple(int(x) for x in w)}: changed by {float((b - a)[w]):.6g}, "
                      f"face flows and wells account for {float(t['dS' + ph][w]):.6g} (allowance {float(e[w]):.2g}), path={st.path}")
            # a phase immobile in a cell (kr = 0) must not leave it: its saturation cannot fall
            m, me = sp.mob(st.P1, st.sw, st.sg)
            still = (m[ph] == 0)
            if ph == "w" and (still & (b < a - 2e-6) & ~t["amb"] & (st.sg1 <= st.sg + 1e-7)).any():
                r.bad(f"{ph} left a cell where it is immobile, path={st.path}")
            if ph == "g" and (still & (b < a - 2e-6) & ~t["amb"] & (st.sw1 <= st.sw + 1e-7)).any():
                r.bad(f"{ph} left a cell where it is immobile, path={st.path}")

    explore(M, [d * 86400.0 for d in c["days"]], c["depth"], check, r)


def finish(tier, counters, cases):
    if counters.get("cells_exact", 0) < 20000:
        yield f"vacuous: {counters}"
