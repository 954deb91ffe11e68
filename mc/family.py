"""Model families used by the transport / pressure checks (C02, C03, C04, C12)."""
import copy, itertools, json, os
from . import env, models as mm

CAPS = {0: {}, 1: dict(capillary_pressure_og=dict(pc_scale=4e4, pc_exponent=1.2)), 2: dict(capillary_pressure=dict(pc_scale=3e4)),
        3: dict(capillary_pressure=dict(pc_scale=2e4), capillary_pressure_og=dict(pc_scale=3e4))}
PVTS = dict(none=None, plain=mm.PVT_PLAIN, rv=mm.PVT_RV)


def wellsets(dims, small=1.0):
    """Well sets placed at corners and in the middle; rates in m3/day scaled to the grid."""
    W = mm.well
    cs = mm.cells(dims)
    c0, c1, cm = cs[0], cs[-1], cs[len(cs) // 2]
    q = 2.0 * small
    return dict(
        none=[],
        wi=[W("I", "injector", c0, "rate", q)],
        gi=[W("G", "injector", cm, "rate", q, injected_phase="gas")],
        pr=[W("P", "producer", c1, "rate", q)],
        wip=[W("I", "injector", c0, "rate", q), W("P", "producer", c1, "rate", 1.5 * q)],
        bhp=[W("P", "producer", c1, "bhp", 18.5)],
        bhpi=[W("I", "injector", c0, "bhp", 21.5), W("P", "producer", cm, "bhp", 18.0)],
        bhpg=[W("G", "injector", cm, "bhp", 21.8, injected_phase="gas")],
        mix=[W("P", "producer", c0, "bhp", 18.5), W("I", "injector", cm, "rate", q), W("G", "injector", c1, "rate", q / 2, injected_phase="gas")],
        bmin=[W("P", "producer", c1, "rate", q, bhp_min=19.0), W("I", "injector", c0, "rate", q)],
        # a producer that asks for more than its minimum pressure allows, sharing its cell with pressure-controlled wells listed before and after it
        shared=[W("D", "producer", c1, "bhp", 18.9), W("P", "producer", c1, "rate", 500.0 * small, bhp_min=19.0), W("F", "injector", c1, "bhp", 21.2, injected_phase="gas")],
        shared2=[W("P", "producer", c0, "rate", 500.0 * small, bhp_min=18.5), W("Q", "producer", c0, "rate", 400.0 * small, bhp_min=19.2), W("I", "injector", c0, "bhp", 21.0), W("R", "producer", c1, "rate", q)],
    )


def model(c):
    """c: dict(dims, rp, pvt, cap, ws, cell, fld, sim)"""
    if "shipped" in c:
        return shipped(c)
    if "var" in c:
        return variant(c)
    dims = tuple(c["dims"])
    M = mm.model(dims, cell=mm.CELLS[c.get("cell", 1)], rp=c["rp"], pvt=PVTS[c["pvt"]], fld=c.get("fld", "h"),
                 wells=wellsets(dims, c.get("q", 1.0))[c["ws"]], sim=c.get("sim"), **CAPS[c["cap"]])
    if "over" in c:
        M["fields"].update(c["over"])
    return M


with open(os.path.join(os.path.dirname(__file__), "shipped.json")) as _f:
    SHIPPED = json.load(_f)                 # the example configurations of the repository (the largest ones with fewer cells)


def _rp(**k):
    return dict(mm.RP_COREY, **k)


def _barrier(M):
    n = mm.ncell(M["dims"])
    for key, m in (("kx", 1), ("ky", 2), ("kz", 1)):
        M["fields"][key] = [0.0 if (i + m) % 3 == 1 else v for i, v in enumerate(M["fields"][key])]


def _many(M):
    """Nine wells of every kind over the grid, several per cell."""
    W = mm.well
    cs = mm.cells(tuple(M["dims"]))
    M["wells"] = [W("A", "producer", cs[0], "rate", 0.4), W("B", "injector", cs[-1], "rate", 0.5), W("C", "injector", cs[len(cs) // 2], "rate", 0.3, injected_phase="gas"),
                  W("D", "producer", cs[-1], "bhp", 18.9), W("E", "injector", cs[0], "bhp", 21.3), W("F", "injector", cs[-1], "bhp", 21.1, injected_phase="gas"),
                  W("G", "producer", cs[len(cs) // 2], "rate", 0.2), W("H", "injector", cs[0], "rate", 0.0), W("J", "producer", cs[-1], "rate", 0.1)]


# one departure at a time from the base model: (arguments of mm.model, final edit)
VARS = dict(
    plow=(dict(fkw=dict(P0=1.5e6)), None), phigh=(dict(fkw=dict(P0=52e6)), None), pspread=(dict(fkw=dict(P0=30e6, dP=20e6)), None),
    barrier=({}, _barrier), many=({}, _many), kvert=(dict(k=(5.0, 9.0)), lambda M: M["fields"].update(kz=[v * 40 for v in M["fields"]["kz"]])),
    poro=({}, lambda M: M["fields"].update(poro=mm.spread(tuple(M["dims"]), 0.02, 0.9, 8, 2))),
    debug=(dict(sim=dict(debug_component_balance=True, debug_log_path=os.path.join(env.SCRATCH, "debug", "component.log"))), None),
    nogas=(dict(fkw=dict(sg=(0.0, 0.0))), None), connate=(dict(fkw=dict(sw=(0.2, 0.2))), None), noresid=(dict(rp=_rp(sw_cr=0.0, so_r=0.0), fkw=dict(sw=(0.0, 0.8), sg=(0.0, 0.2))), None),
    gassy=(dict(fkw=dict(sw=(0.21, 0.3), sg=(0.3, 0.5))), None), viscous=(dict(mu_oil=300.0, mu_water=0.3, mu_gas=0.01), None), thinoil=(dict(mu_oil=0.2, mu_water=3.0, mu_gas=1.0), None),
    lightw=(dict(rho_water=650.0, rho_oil=950.0, rho_gas=1.2), None), heavyg=(dict(rho_gas=1500.0), None), linear=(dict(rp=_rp(nw=1, no=1, ng=1)), None), steep=(dict(rp=_rp(nw=4.5, no=1.3, ng=3)), None),
    scale03=(dict(sim=dict(global_rate_scale=0.3)), None), scale25=(dict(sim=dict(global_rate_scale=2.5)), None), stiff=(dict(c_oil=0.0, c_water=0.0, c_gas=0.0, c_rock=3e-4), None),
    soft=(dict(c_rock=0.05), None), gascomp=(dict(c_gas=0.08, c_oil=0.0), None), pcsteep=(dict(capillary_pressure=dict(pc_scale=1e4, pc_exponent=3.0), capillary_pressure_og=dict(pc_scale=8e3, pc_exponent=0.4)), None),
)


# a laboratory plug and a field-scale block: the base cell times m, with rates and times that give the same relative changes
MAGS = dict(lab=4e-3, core=0.05, field=12.0)


def magnitude(M, m):
    M["cell"] = [x * m for x in M["cell"]]
    for w in M["wells"]:
        w["radius"] *= m
        if w["control_type"] == "rate":
            w["control_value"] *= m


def days(v, *d):
    """Step lengths of a case: diffusion times go with the square of the length."""
    return [x * MAGS.get(v["var"], 1.0) ** 2 for x in d]


def variant(c):
    """c: dict(var, dims, ws, pvt, fld, sim)"""
    kw, edit = VARS.get(c["var"]) or ({}, None)
    dims = tuple(c["dims"])
    kw = dict(kw)
    sim = dict(kw.pop("sim", {}), **(c.get("sim") or {}))
    M = mm.model(dims, fld=c.get("fld", "h"), pvt=PVTS[c["pvt"]], wells=wellsets(dims, 0.5)[c["ws"]], sim=sim, **dict(dict(rp="corey"), **kw))
    if edit:
        edit(M)
    if c["var"] in MAGS:
        magnitude(M, MAGS[c["var"]])
    return M


def variants(ws=None, th=False):
    for var in [*VARS, *MAGS]:
        for dims in [(2, 1, 1), (1, 1, 2), (1, 1, 3), (2, 2, 1), (2, 1, 2)] + ([(1, 2, 3), (3, 2, 2)] if th else []):
            for w in ("none",) if var == "many" else ws or wellsets(dims):
                for pvt in ("none", "rv"):
                    yield dict(var=var, dims=dims, ws=w, pvt=pvt, fld="h")


def shipped(c):
    """c: dict(shipped=name, sim=overrides, het=bool)"""
    M = copy.deepcopy(SHIPPED[c["shipped"]])
    M["sim"] = dict(M["sim"], **(c.get("sim") or {}), solver_type="impes")
    if c.get("het"):
        dims = tuple(M["dims"])
        f = M["fluid"]
        rp = f.get("relative_permeability", {})
        lo, hi = rp.get("sw_cr", 0.2) + 0.02, 1 - rp.get("so_r", 0.2) - 0.12
        M["fields"] = mm.fields(dims, "h", P0=f["pressure"] * 1e6, dP=5e5, sw=(lo, hi), sg=(0.02, 0.08), k=(M["perm"] * 0.3, M["perm"] * 2), poro=True)
    return M
