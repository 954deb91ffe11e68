"""C02: phase volumes change only by what the wells inject or produce."""
import numpy as np
from .. import models as mm, family
from ..walk import explore
from ..build import build, raw_state
from ..spec import Spec


BOUND = dict(quick="grids <= 2x2x2 and chains of 3, 12 well sets, 3 relperm models, 3 PVT, 4 capillary options, 2 field patterns; step sequences to depth 3 over {0.02, 0.2, 1} days; thin layers, laboratory and field magnitudes, 15-step histories, lines of 9 and blocks to 6x5x1/5x4x4, 26 one-departure variants of the base model, shipped example configurations",
             thorough="adds grids up to 4x5x2, 3 field patterns, 3 cell shapes, depth 4")
RULE = "per phase: sum(PV*dS) over the grid equals dt * sum of well flows of the phase (zero without wells), for steps in which no cell is cut; cumulatively along every path"

TIGHT = dict(pressure_solver="cg", pressure_float64=True, cg_tolerance=1e-7, cg_max_iter=3000)


def cases(tier):
    th = tier == "thorough"
    grids = mm.GRIDS1 + mm.GRIDS2 + mm.GRIDS3 + [(2, 2, 1), (2, 1, 2), (1, 2, 2), (2, 2, 2)]
    if th:
        grids = grids + mm.GRIDS_M[3:] + mm.GRIDS_L
    for dims in grids:
        for ws in family.wellsets(dims):
            for rp in mm.RPS:
                for pvt in ("none", "plain", "rv"):
                    for cap in (0, 1, 2, 3):
                        if cap in (2,) and not th and pvt == "plain":
                            continue
                        for fld in (("h", "h2", "h3") if th else ("h", "h2")):
                            if not th and fld == "h2" and (pvt == "plain" or cap == 2):
                                continue
                            for cell in ((0, 1, 2) if th else (1,)):
                                yield dict(dims=dims, ws=ws, rp=rp, pvt=pvt, cap=cap, fld=fld, cell=cell,
                                           days=[0.02, 0.2, 1.0], depth=(3 if th else 2))
    # thin layers
    for dims in [(1, 1, 2), (1, 1, 3), (2, 1, 2)] + ([(2, 2, 2), (1, 2, 3)] if th else []):
        for ws in family.wellsets(dims):
            for rp in ("corey3", "stone"):
                for pvt in ("none", "rv"):
                    for cap in (0, 3):
                        yield dict(dims=dims, ws=ws, rp=rp, pvt=pvt, cap=cap, fld="h", cell=3, days=[0.0004, 0.004], depth=2)
    # options of the sub-stepping: they decide how a change is applied, not how large it is
    for dims in [(2, 1, 1), (1, 1, 3), (2, 2, 1)] + ([(2, 2, 2), (3, 2, 1)] if th else []):
        for ws in family.wellsets(dims):
            for pvt in ("none", "rv"):
                for opt in (dict(max_saturation_change=1e-3), dict(max_substeps=1), dict(max_saturation_change=2e-3, max_substeps=3), dict(max_saturation_change=1e-3, max_substeps=200), dict(max_saturation_change=0.5)):
                    yield dict(dims=dims, ws=ws, rp="corey", pvt=pvt, cap=1, fld="h", cell=1, days=[0.2, 1.0], depth=2, sim=opt)

    # long histories
    for dims in [(2, 1, 1), (1, 1, 3), (2, 2, 1)]:
        for ws in family.wellsets(dims):
            for pvt in ("none", "rv"):
                yield dict(dims=dims, ws=ws, rp="corey3", pvt=pvt, cap=1, fld="h", cell=1, days=[0.05], depth=40 if th else 14)
    for dims in [(9, 1, 1), (1, 9, 1), (1, 1, 9), (6, 5, 1), (5, 4, 4)]:
        for ws in family.wellsets(dims):
            for pvt in ("none", "rv"):
                yield dict(dims=dims, ws=ws, rp="corey3" if pvt == "none" else "stone", pvt=pvt, cap=3, fld="h", cell=1, days=[0.02, 0.2], depth=2)
    # slow wells and many short steps: what a step moves is close to, but above, the resolution of the saturations
    for dims in [(1, 1, 1), (2, 1, 1), (1, 1, 2)]:
        for pvt in ("none", "rv"):
            for ph in ("water", "gas", "prod"):
                for ds in (1e-7, 2e-7, 5e-7, 2e-6):
                    yield dict(creep=ph, dims=dims, pvt=pvt, ds=ds, n=100 if th else 60)
    for v in family.variants(th=th):               # one departure from the base model at a time
        yield dict(v, days=family.days(v, 0.02, 0.3), depth=2)
    # the example configurations of the repository
    for name, S in family.SHIPPED.items():
        for het in (False, True):
            for solver in ({}, TIGHT) if th else (TIGHT,):
                yield dict(shipped=name, dims=S["dims"], het=het, opt=solver, days=[S["dt"] / 4, S["dt"]], depth=3 if th else 2)


def creep(c, r):
    """A single slow well; the sum of many small changes is what it injected or produced."""
    rate = 0.5
    w = mm.well("W", "producer" if c["creep"] == "prod" else "injector", (0, 0, 0), "rate", rate)
    if c["creep"] != "prod":
        w["injected_phase"] = c["creep"]
    M = mm.model(c["dims"], wells=[w], fld="u", pvt=dict(none=None, plain=mm.PVT_PLAIN, rv=mm.PVT_RV)[c["pvt"]], fkw=dict(sw=(0.35, 0.35), sg=(0.15, 0.15)), sim=TIGHT, rp="corey3")
    s = build(M)
    sp = Spec(M)
    dt = c["ds"] * float(sp.PV[0, 0, 0]) / (rate / 86400.0)
    want = [0.0, 0.0]
    a = raw_state(s)
    for k in range(c["n"]):
        P, sw, sg, so = (x.astype(np.float64) for x in raw_state(s))
        if not s.run_step(dt):
            r.count("failed_steps")
            return
        r.transitions += 1
        for d in sp.well_flows(P, sw, sg, raw_state(s)[0].astype(np.float64), dt):
            want[0] += dt * d["w"]
            want[1] += dt * d["g"]
    b = raw_state(s)
    r.traces += 1
    r.state(*b)
    r.count("creep")
    for i, ph in ((1, "water"), (2, "gas")):
        got = float(((b[i].astype(np.float64) - a[i].astype(np.float64)) * sp.PV).sum())
        # half a unit in the last place of a saturation below one half per cell and step
        tol = c["n"] * 1.6e-8 * float(sp.PV.sum()) + 1e-4 * abs(want[i - 1])
        if abs(got - want[i - 1]) > tol:
            r.bad(f"{ph} volume after {c['n']} short steps changed by {got:.4g} m3, the well accounts for {want[i - 1]:.4g} (allowance {tol:.2g}): {c}")


def run_case(c, r):
    if "creep" in c:
        return creep(c, r)
    M = family.model(dict(c, sim=c["opt"]) if "shipped" in c else c)
    n = mm.ncell(c["dims"])
    start = {}

    def check(st, r):
        if not st.ok:
            r.count("failed_steps")
            return
        sp = st.spec
        fl = st.flows()
        t = sp.transport(st.sw, st.sg, st.P1, fl, st.dt)
        if not sp.free(st.sw, st.sg, t).all() or any(d["amb"] for d in fl if d["inside"]):
            r.skipped += 1
            return
        r.count("compared")
        err = sum(d["e"] for d in fl)
        for ph, a, b in (("water", st.sw, st.sw1), ("gas", st.sg, st.sg1), ("oil", st.so, st.so1)):
            got = float(((b - a) * sp.PV).sum())
            if ph == "oil":
                want = -st.dt * sum(d["w"] + d["g"] for d in fl)
            else:
                want = st.dt * sum(d[ph[0]] for d in fl)
            tol = float(sp.PV.sum()) * (3e-6 if ph == "oil" else 1.2e-6) + st.dt * 2 * err
            # rounding of the face flows: each is added to one cell and taken from the neighbour after
            # multiplication by dt/PV of either cell
            tol += st.dt * 4e-7 * sum(float(np.abs(v).sum()) for v in t["face"].values())
            tol += float(sp.PV.sum()) * (6e-8 * c["sim"].get("max_substeps", 20) if "sim" in c else 0.0)   # one rounding per sub-step
            if abs(got - want) > tol:
                r.bad(f"{ph} volume: changed by {got:.6g} m3, wells account for {want:.6g} (allowance {tol:.2g}), path={st.path}")
        # in any case oil, water and gas changes cancel
        if not fl:
            r.count("closed")

    explore(M, [d * 86400.0 for d in c["days"]], c["depth"], check, r)


def finish(tier, counters, cases):
    if counters.get("compared", 0) < 5000 or counters.get("closed", 0) < 500:
        yield f"vacuous: {counters}"
