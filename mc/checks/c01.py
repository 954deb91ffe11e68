"""C01: physical saturations and pressures after every accepted IMPES step."""
import itertools
import numpy as np
from .. import models as mm, family
from ..walk import explore

BOUND = dict(quick="grids <= 2x2x2, corner/mid/boundary saturation patterns on 1-3 cells exhaustively, step sequences to depth 3 over {0.2, 5, 120} days; lines to 24 and blocks to 60 cells; histories of 14 steps",
             thorough="grids <= 3x3x2, all admissible patterns on up to 4 cells, step sequences to depth 4 over {0.05, 1, 10, 200} days")
RULE = "product of grids x relperm x PVT x capillary x wells, plus all assignments of admissible saturation points to cells; DFS over step lengths"
TOL = 2e-6


def points(rp):
    """Admissible saturation points (sw, sg): interior and every corner/edge of the window."""
    a, o, g = rp["sw_cr"], rp["so_r"], rp["sg_cr"]
    top = 1 - a - o
    return [(a, g), (1 - o - g, g), (a, top), (a + 0.4 * (top - g), g + 0.3 * (top - g)),
            (a + 0.5 * (top - g), g + 0.5 * (top - g))]


def wellsets(dims):
    c0, c1 = mm.corners(dims)
    W = mm.well
    yield "none", []
    yield "wi+p", [W("I", "injector", c0, "rate", 60.), W("P", "producer", c1, "rate", 60.)]
    yield "gi+bhp", [W("I", "injector", c0, "rate", 80., injected_phase="gas"), W("P", "producer", c1, "bhp", 15.)]
    yield "bhpi+bhpg", [W("I", "injector", c0, "bhp", 30.), W("G", "injector", c1, "bhp", 28., injected_phase="gas")]
    yield "both", [W("I", "injector", c0, "rate", 90.), W("G", "injector", c0, "rate", 90., injected_phase="gas"), W("P", "producer", c1, "bhp", 12.)]
    yield "prod", [W("P", "producer", c0, "rate", 150.)]


def cases(tier):
    th = tier == "thorough"
    days = [0.05, 1.0, 10.0, 200.0] if th else [0.2, 5.0, 120.0]
    depth = 4 if th else 3
    grids = mm.GRIDS1 + mm.GRIDS2 + mm.GRIDS3 + mm.GRIDS_M + (mm.GRIDS_L if th else [])
    if not th:
        grids = mm.GRIDS1 + mm.GRIDS2 + [(3, 1, 1), (1, 1, 3), (2, 2, 1), (2, 1, 2), (2, 2, 2)]
    for dims in grids:
        for rp in mm.RPS:
            for pvt in ("none", "rv"):
                for cap in (0, 1):
                    for wname, wells in wellsets(dims):
                        yield dict(kind="prod", dims=dims, rp=rp, pvt=pvt, cap=cap, wells=wells, days=days, depth=depth, wname=wname)
    # long histories
    for dims in [(2, 1, 1), (1, 1, 3), (2, 2, 1)]:
        for wname, wells in wellsets(dims):
            for pvt in ("none", "rv"):
                for d in (0.2, 30.0):
                    yield dict(kind="prod", dims=dims, rp="corey3", pvt=pvt, cap=0, wells=wells, days=[d], depth=60 if th else 15, wname=wname)
    # exhaustive saturation patterns
    for dims in (mm.GRIDS2 + mm.GRIDS3 + ([(2, 2, 1), (1, 2, 2)] if th else [])):
        n = mm.ncell(dims)
        for rp in mm.RPS:
            for pat in itertools.product(range(5), repeat=n):
                wname = ("gi+bhp", "both", "wi+p")[sum(pat) % 3]
                wells = dict(wellsets(dims))[wname]
                yield dict(kind="pat", dims=dims, rp=rp, pvt="none" if sum(pat) % 2 else "rv", cap=0, wells=wells, wname=wname,
                           pat=pat, days=[1.0, 50.0], depth=2)
    # tuning options of the sub-stepping
    for sub, dmax in itertools.product((1, 2, 20, 1000), (0.005, 0.05, 0.5)):
        for dims in [(2, 1, 1), (1, 1, 3)]:
            for wname, wells in wellsets(dims):
                yield dict(kind="prod", dims=dims, rp="corey3", pvt="none", cap=0, wells=wells, wname=wname, days=days, depth=2,
                           sim=dict(max_substeps=sub, max_saturation_change=dmax))
    # the example configurations of the repository, as they are and with every solver
    for name, S in family.SHIPPED.items():
        for het in (False, True):
            for opt in ({}, dict(pressure_solver="amg", amg={}), dict(pressure_solver="cg", pressure_float64=True)):
                yield dict(kind="shipped", shipped=name, het=het, sim=opt, days=[S["dt"], 10 * S["dt"], 100 * S["dt"]], depth=3 if th else 2)
    # solver settings that cannot be met: every step that still reports success must leave finite fields
    for dims in [(1, 1, 1), (2, 1, 1), (1, 1, 2), (3, 1, 1), (2, 2, 1), (2, 2, 2)]:
        for wname, wells in wellsets(dims):
            for pvt in ("none", "rv"):
                for sim in (dict(cg_tolerance=0.0, cg_max_iter=60), dict(cg_tolerance=0.0, cg_max_iter=60, pressure_float64=False), dict(cg_max_iter=1),
                            dict(cg_max_iter=2, pressure_float64=False), dict(cg_tolerance=1e-30, cg_max_iter=200), dict(cg_max_iter=0),
                            dict(pressure_solver="amg", cg_max_iter=60, amg=dict(max_cycles=0)), dict(pressure_solver="amg", cg_max_iter=60, cg_tolerance=0.0, amg=dict(tol=0.0, max_cycles=40, coarsest_size=2))):
                    yield dict(kind="prod", dims=dims, rp="corey3", pvt=pvt, cap=0, wells=wells, wname=wname, days=[0.2, 5.0], depth=2,
                               sim=dict(sim, max_time_step_attempts=2))


def make(c):
    if c["kind"] == "shipped":
        return family.shipped(c)
    dims = tuple(c["dims"])
    extra = dict(capillary_pressure=dict(pc_scale=3e4), capillary_pressure_og=dict(pc_scale=5e4)) if c["cap"] else {}
    M = mm.model(dims, rp=c["rp"], pvt=mm.PVT_RV if c["pvt"] == "rv" else None, wells=c["wells"], sim=c.get("sim"), **extra)
    if c["kind"] == "pat":
        pts = points(mm.RPS[c["rp"]])
        M["fields"]["sw"] = [pts[p][0] for p in c["pat"]]
        M["fields"]["sg"] = [pts[p][1] for p in c["pat"]]
    return M


def check(st, r):
    if not st.ok:
        r.count("failed_steps")
        return
    r.count("ok_steps")
    sp = st.spec
    tag = f"path={st.path}"
    for n, a in (("P", st.P1), ("sw", st.sw1), ("sg", st.sg1), ("so", st.so1)):
        if not np.all(np.isfinite(a)):
            r.bad(f"non-finite {n}: after {tag}")
            return
    e = np.abs(st.sw1 + st.sg1 + st.so1 - 1).max()
    if e > TOL:
        r.bad(f"closure: saturations sum to 1{e:+.2e}, {tag}")
    for n, a, lo in (("water", st.sw1, sp.sw_cr), ("gas", st.sg1, sp.sg_cr), ("oil", st.so1, sp.so_r)):
        if a.min() < lo - TOL:
            r.bad(f"{n} below limit: {a.min():.7f} < {lo}, {tag}")
        if a.max() > 1 + TOL:
            r.bad(f"{n} above one: {a.max()}, {tag}")
    # was the step limited (an unlimited update would have left the window)?
    fl = st.flows()
    t = sp.transport(st.sw, st.sg, st.P1, fl, st.dt)
    if not sp.free(st.sw, st.sg, t).all():
        r.count("limited_steps")


def run_case(c, r):
    explore(make(c), [d * 86400.0 for d in c["days"]], c["depth"], check, r)


def finish(tier, counters, cases):
    if counters.get("ok_steps", 0) < 1000 or counters.get("limited_steps", 0) < 100:
        yield f"vacuous: only {counters} steps succeeded or were limited"
