"""C13: configurations mean what they say: units, defaults, formats, rejection."""
import copy, itertools
import numpy as np
import torch
from .. import models as mm
from ..build import build, raw_state, state, CPU, MD, pvt_file
from ..spec import Spec
from ..walk import do_step
from simulator.reservoir import Reservoir
from simulator.fluid import Fluid
from simulator.well import WellManager
from simulator.simulation import Simulator

BOUND = dict(quick="every configuration key at 3-4 values; every subset of omitted reservoir keys (64) and every set of <= 2 omitted / present fluid, relative-permeability, well and solver keys; all format combinations x wells x options; every way to give or omit the two capillary curves; all malformed variants; executions of 2 steps",
             thorough="sets of <= 3 omitted keys, more values")
RULE = "SI quantities against the conversion table; omitted key == documented default (attributes and bit-identical execution); alternative formats bit-identical; malformed configurations raise; flow and storage of an execution agree with the model built from the configuration alone"

RES = dict(dimensions=([10, 10, 1], [[2, 1, 1], [1, 2, 3], [3, 2, 2]]), grid_size=([10.0, 10.0, 10.0], [[12.0, 20.0, 5.0], [1, 2, 3], [100.0, 50.0, 0.5]]),
           porosity=(0.2, [0.05, 0.3, 0.21]), permeability=(100.0, [0.5, 33.0, 2000]), k_vertical_fraction=(0.1, [1.0, 0.02, 0.5, 0.0, 1e-5]), c_rock=(1e-5, [4e-5, 1e-3, 0.0]))
FL = dict(pressure=(20.0, [5.0, 35.5, 1]), s_w=(0.2, [0.0, 0.35, 0.8]), s_g=(0.0, [0.1, 0.2]), mu_oil=(1.0, [5.0, 0.3]), mu_water=(0.5, [1.0, 0.31]),
          mu_gas=(0.02, [0.05, 1]), rho_oil=(850.0, [700, 910.5]), rho_water=(1000.0, [1100.0]), rho_gas=(1.0, [150.0, 0.7]),
          c_oil=(1e-5, [1e-3, 4e-5, 0.0]), c_water=(1e-5, [4e-4, 0.0]), c_gas=(1e-3, [1e-2, 0.0]), c_rock=(1e-5, [5e-4, 0.0]))
RP = dict(nw=(2, [1, 3.5]), no=(2, [1, 3.5]), ng=(2, [1, 2.5]), sw_cr=(0.2, [0.0, 0.1]), so_r=(0.2, [0.0, 0.3]), sg_cr=(0.0, [0.05]), krw_end=(1.0, [0.3]), krg_end=(1.0, [0.6]), model=("corey", ["stone2"]))
STONE = dict(ko_end_w=(1.0, [0.7]), ko_end_g=(1.0, [0.6]), now=(None, [1.5]), nog=(None, [3]))
ATTR = dict(mu_oil=("mu_oil", 1e-3), mu_water=("mu_water", 1e-3), mu_gas=("mu_gas", 1e-3), rho_oil=("rho_oil_ref", 1), rho_water=("rho_water_ref", 1), rho_gas=("rho_gas_ref", 1),
            c_oil=("oil_compressibility", 1e-6), c_water=("water_compressibility", 1e-6), c_gas=("gas_compressibility", 1e-6))
RPATTR = dict(nw="nw", no="no", ng="ng", sw_cr="sw_cr", so_r="so_r", sg_cr="sg_cr", krw_end="krw_end", krg_end="krg_end", model="relperm_model")
SIMD = dict(solver_type="impes", max_saturation_change=0.05, max_substeps=20, global_rate_scale=1.0, pressure_solver="cg", pressure_float64=False, max_time_step_attempts=5, dt_reduction_factor=2.0, cg_tolerance=1e-6, cg_max_iter=500)
WELLD = dict(injected_phase="water", rate_type="reservoir", limits=None, bhp_min=None, surface_phase=None)


def cases(tier):
    th = tier == "thorough"
    k = 3 if th else 2
    for n in range(len(RES) + 1):
        for om in itertools.combinations(RES, n):
            for v in range(5):
                yield dict(kind="res", omit=om, v=v)
    for n in range(k + 1):
        for om in itertools.combinations(FL, n):
            for v in range(3):
                for inv in (False, True):
                    yield dict(kind="fluid", omit=om, v=v, inv=inv)
        for om in itertools.combinations(RP, n):
            for inv in (False, True):
                yield dict(kind="rp", omit=om, inv=inv)
    for n in range(len(STONE) + 1):
        for om in itertools.combinations(STONE, n):
            for v in (0, 1):
                yield dict(kind="stone", omit=om, v=v)
    yield dict(kind="wattr")
    yield dict(kind="cap")
    for key in list(RES) + list(FL) + list(RP):
        for rp in ("corey", "stone"):
            for vert in (False, True):
                yield dict(kind="exec", key=key, rp=rp, vert=vert)
    groups = dict(sim=SIMD, well=WELLD)
    for g, d in groups.items():
        for n in range(k + 1):
            for om in itertools.combinations(d, n):
                yield dict(kind="omit", group=g, omit=om)
    for g, d in dict(fluid=FL, rp=RP, res=RES).items():
        for n in range(1, k + 1):
            for om in itertools.combinations(d, n):
                yield dict(kind="omit", group=g, omit=om)
    for ctypes in itertools.product(("rate", "bhp"), repeat=2):
        for types in itertools.product(("producer", "injector"), repeat=2):
            for cap in (None, (3e4, 1.5), (2e4, 1.2), (3e4, None), (0.0, 1.5)):
                for og in (None, (3e4, 1.3)):
                    for pvt in (False, True):
                        yield dict(kind="format", ctypes=ctypes, types=types, cap=cap, og=og, pvt=pvt)
    yield dict(kind="reject")
    for sw in (0.0, 0.3, 0.5, 0.999, 1.0, 1.001, 1.2):
        for sg in (0.0, 0.001, 0.3, 0.5, 0.7, 1.0, 1.5):
            yield dict(kind="sum", sw=sw, sg=sg)


def near(a, b, rel=2e-7):
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    return a.shape == b.shape and np.all(np.abs(a - b) <= rel * np.abs(b) + 1e-300)


def pick(table, key, v):
    d, vals = table[key]
    return vals[v % len(vals)] if v >= 0 else d


def np64(t):
    return t.detach().numpy().astype(np.float64)


def res_expect(r, cfg, what):
    g = lambda k: cfg.get(k, RES[k][0])
    dims = g("dimensions")
    res = Reservoir(copy.deepcopy(cfg), CPU)
    r.transitions += 1
    r.traces += 1
    r.state("res", repr(sorted(cfg.items())))
    k = g("permeability") * 9.869233e-16
    kx, ky, kz = res.permeability_tensors
    dx, dy, dz = g("grid_size")
    exp = dict(kx=(np64(kx), np.full(dims, k)), ky=(np64(ky), np.full(dims, k)), kz=(np64(kz), np.full(dims, k * g("k_vertical_fraction"))),
               pv=(np64(res.porous_volume), np.full(dims, dx * dy * dz * g("porosity"))), poro=(np64(res.porosity), np.full(dims, g("porosity"))),
               cell=(np64(res.grid_size), np.array([dx, dy, dz], float)), vol=(np64(res.cell_volume), np.array(dx * dy * dz, float)),
               cr=(res.rock_compressibility, g("c_rock") * 1e-6))
    if list(res.dimensions) != list(dims) or (res.nx, res.ny, res.nz) != tuple(dims):
        r.bad(f"grid dimensions {res.dimensions}, configured {dims}: {what}")
    for n, (a, b) in exp.items():
        if not near(a, b):
            r.bad(f"reservoir {n} {np.ravel(a)[:2]} expected {np.ravel(b)[:2]}: {what}")
    return res


def fluid_expect(r, cfg, res, what):
    g = lambda k: cfg.get(k, FL[k][0])
    dims = list(res.dimensions)
    f = Fluid(copy.deepcopy(cfg), res, CPU)
    r.transitions += 1
    r.traces += 1
    r.state("fluid", repr(sorted(cfg.items(), key=str)))
    exp = dict(pressure=(np64(f.pressure), np.full(dims, g("pressure") * 1e6)), s_w=(np64(f.s_w), np.full(dims, g("s_w"))), s_g=(np64(f.s_g), np.full(dims, g("s_g"))))
    for n, (a, b) in exp.items():
        if not near(a, b):
            r.bad(f"initial {n} {np.ravel(a)[:2]} expected {np.ravel(b)[:2]}: {what}")
    so = 1 - g("s_w") - g("s_g")
    if not np.allclose(np64(f.s_o), so, atol=2e-7) or f.s_o.shape != f.s_w.shape:
        r.bad(f"initial oil saturation {np.ravel(np64(f.s_o))[:2]} expected {so}: {what}")
    for key, (attr, fac) in ATTR.items():
        if not near(getattr(f, attr), g(key) * fac):
            r.bad(f"fluid {key} became {getattr(f, attr)} expected {g(key) * fac}: {what}")
    ct = (g("c_oil") + g("c_water") + g("c_gas") + g("c_rock")) * 1e-6 / 3
    if not near(np64(f.calc_total_compressibility(f.pressure, f.s_w, f.s_g)), np.full(dims, ct), 1e-6):
        r.bad(f"total compressibility differs from {ct}: {what}")
    # densities from the configured compressibilities
    P = g("pressure") * 1e6
    for ph, fn in (("water", f.calc_water_density), ("oil", f.calc_oil_density), ("gas", f.calc_gas_density)):
        want = g("rho_" + ph) * (1 + g("c_" + ph) * 1e-6 * (P - 1e5))
        if not near(np64(fn(f.pressure)), np.full(dims, want), 1e-6):
            r.bad(f"{ph} density {np64(fn(f.pressure)).ravel()[0]} expected {want}: {what}")
    rp = cfg.get("relative_permeability", {})
    for key, attr in RPATTR.items():
        want = rp.get(key, RP[key][0])
        have = getattr(f, attr)
        if (have != want) if isinstance(want, str) else not near(have, want):
            r.bad(f"relative permeability {key} became {have} expected {want}: {what}")
    return f


def full_config(v=0):
    C = dict(reservoir={k: pick(RES, k, v) for k in RES}, fluid={k: pick(FL, k, v) for k in FL})
    C["reservoir"]["dimensions"] = [2, 2, 1]
    C["fluid"].update(s_w=0.4, s_g=0.1, pressure=20.0)
    C["fluid"]["relative_permeability"] = dict(nw=2, no=2, ng=2, sw_cr=0.2, so_r=0.2, sg_cr=0.0, krw_end=0.6, krg_end=0.8, model="corey")
    C["wells"] = [dict(name="P", type="producer", i=1, j=1, k=0, radius=0.1, control_type="rate", control_value=1.0),
                  dict(name="I", type="injector", i=0, j=0, k=0, radius=0.1, control_type="rate", control_value=0.8)]
    C["simulation"] = dict(SIMD, cg_tolerance=1e-6, cg_max_iter=500)
    return C


def run(C, steps=(0.2, 0.4)):
    C = copy.deepcopy(C)
    res = Reservoir(C["reservoir"], CPU)
    fl = Fluid(C["fluid"], res, CPU)
    wm = WellManager(C["wells"], res)
    sim = Simulator(res, fl, wm, C["simulation"], device=CPU)
    out = [raw_state(sim)]
    for d in steps:
        ok = sim.run_step(d * 86400)
        out.append(raw_state(sim) + (np.array(bool(ok)),))
    return out, sim


def equal(a, b):
    return len(a) == len(b) and all(len(x) == len(y) and all(np.array_equal(p, q, equal_nan=True) for p, q in zip(x, y)) for x, y in zip(a, b))


def run_case(c, r):
    k = c["kind"]
    if k == "res":
        cfg = {key: pick(RES, key, c["v"]) for key in RES if key not in c["omit"]}
        res_expect(r, cfg, f"{cfg}")
        r.count("attributes")
    elif k in ("fluid", "rp"):
        res = Reservoir(dict(dimensions=[2, 1, 2]), CPU)
        if k == "fluid":
            keys = [x for x in FL if (x in c["omit"]) == c["inv"]]
            cfg = {x: pick(FL, x, c["v"]) for x in keys}
            if cfg.get("s_w", 0) + cfg.get("s_g", 0) > 1:
                cfg["s_g"] = 0.1
        else:
            keys = [x for x in RP if (x in c["omit"]) == c["inv"]]
            cfg = dict(relative_permeability={x: pick(RP, x, 0) for x in keys})
        fluid_expect(r, cfg, res, f"{cfg}")
        r.count("attributes")
    elif k == "stone":
        res = Reservoir(dict(dimensions=[2, 1, 2]), CPU)
        rp = {x: STONE[x][1][0] for x in STONE if x not in c["omit"]}
        rp.update(dict(no=3, ng=1.5) if c["v"] else {}, model="stone2")
        f = Fluid(dict(relative_permeability=rp), res, CPU)
        r.transitions += 1
        r.traces += 1
        r.state("stone", repr(sorted(rp.items(), key=str)))
        r.count("attributes")
        want = dict(ko_end_w=rp.get("ko_end_w", 1.0), ko_end_g=rp.get("ko_end_g", 1.0), now=rp.get("now", rp.get("no", 2)), nog=rp.get("nog", rp.get("ng", 2)))
        for key, v in want.items():
            if not near(getattr(f, key), v):
                r.bad(f"relative permeability {key} became {getattr(f, key)} expected {v}: {rp}")
    elif k == "cap":                        # every way to give or omit the two capillary curves
        res = Reservoir(dict(dimensions=[1, 1, 1]), CPU)
        one = [None] + [{n: v for n, v in (("pc_scale", a), ("pc_exponent", e)) if v is not None} for a in (None, 0.0, 2e4, 7) for e in (None, 1, 2.5)]
        flat = (None, dict(pc_scale=3e4), dict(pc_exponent=1.2), dict(pc_scale=3e4, pc_exponent=1.2))
        for ow, og, fl in itertools.product(one, one, flat):
            cfg = dict(s_w=0.3, s_g=0.1, relative_permeability=dict(sw_cr=0.2, so_r=0.2))
            cfg.update(copy.deepcopy({n: v for n, v in (("capillary_pressure", ow), ("capillary_pressure_og", og)) if v is not None}), **(fl or {}))
            f = Fluid(copy.deepcopy(cfg), res, CPU)
            r.transitions += 1
            r.traces += 1
            r.state("cap", repr(sorted(cfg.items(), key=str)))
            src = ow if ow is not None else (fl or {})
            for name, fn, d, x, y in (("oil-water", f.get_capillary_pressure, src, 0.5, 0.5), ("gas-oil", f.get_capillary_pressure_og, og or {}, 0.3, 0.5)):
                want = d.get("pc_scale", 0.0) * (1 - y + 1e-6) ** -d.get("pc_exponent", 1.5)
                have = float(fn(torch.tensor([x], dtype=torch.float64))[0])
                r.count("capillary")
                if abs(have - want) > 1e-4 * want:
                    r.bad(f"{name} capillary pressure {have} expected {want}: {cfg}")
    elif k == "wattr":
        res = Reservoir(dict(dimensions=[4, 3, 2]), CPU)
        for typ, ct, val, fmt in itertools.product(("producer", "injector"), ("rate", "bhp"), (0, 0.0, 1e-6, 12, 33.5, 1e5), (0, 1)):
            for opt in ({}, dict(injected_phase="gas"), dict(rate_type="surface", surface_phase="oil"), dict(bhp_min=0.0), dict(bhp_min=7), dict(limits=dict(wopr=0.0)), dict(limits=dict(wlpr=2, liqr=9.5)), dict(well_index=0.0), dict(well_index=3e-12), dict(radius=0.25)):
                for pos in ((0, 0, 0), (3, 2, 1), (2, 0, 1)):
                    w = dict(name="wé 1", type=typ, radius=0.1, **{} if fmt else dict(i=pos[0], j=pos[1], k=pos[2], control_type=ct, control_value=val))
                    if fmt:
                        w.update(coordinates=list(pos), control=dict(type=ct, value=val))
                    w.update(copy.deepcopy(opt))
                    W = WellManager([dict(name="first", type="producer", radius=0.1, i=1, j=1, k=0, control_type="bhp", control_value=1.0), copy.deepcopy(w)], res).wells[1]
                    r.transitions += 1
                    r.state("well", repr(w))
                    r.count("wells")
                    want = dict(name=w["name"], type=typ, i=pos[0], j=pos[1], k=pos[2], control_type=ct, control_value=val, injected_phase=w.get("injected_phase", "water"),
                                rate_type=w.get("rate_type", "reservoir"), bhp_min=w.get("bhp_min"), limits=w.get("limits") or {}, radius=w["radius"])
                    for key, v in want.items():
                        have = getattr(W, key)
                        if key == "limits":
                            have = have or {}
                        if have != v:
                            r.bad(f"well {key} became {have!r} expected {v!r}: {w}")
    elif k == "exec":
        key = c["key"]
        table = RES if key in RES and not (key == "c_rock") else FL if key in FL else RP
        for v in range(len(table[key][1])):
            val = table[key][1][v]
            dims = (1, 1, 3) if c["vert"] else (3, 1, 1)
            M = dict(dims=dims, cell=[12.0, 20.0, 5.0], poro=0.2, perm=40.0, kvf=0.1, fluid=mm.fluid(c["rp"], c_oil=2e-3, c_gas=1e-2, c_rock=5e-3),
                     wells=[mm.well("P", "producer", (0, 0, 0), "bhp", 18.0), mm.well("I", "injector", tuple(x - 1 for x in dims), "rate", 1.0)],
                     sim=dict(mm.SIM, cg_tolerance=1e-8))
            if key == "dimensions":
                M["dims"] = tuple(val)
                M["wells"][1].update({"i": val[0] - 1, "j": val[1] - 1, "k": val[2] - 1})
            elif key == "grid_size":
                M["cell"] = list(val)
                M["wells"][0]["radius"] = M["wells"][1]["radius"] = 0.02
            elif key == "porosity":
                M["poro"] = val
            elif key == "permeability":
                M["perm"] = val
            elif key == "k_vertical_fraction":
                M["kvf"] = val
            elif key in FL:
                M["fluid"][key] = val
                if M["fluid"]["s_w"] + M["fluid"]["s_g"] > 1:
                    M["fluid"]["s_w"] = 0.4
                M["wells"][0]["control_value"] = M["fluid"]["pressure"] * 0.9
            else:
                M["fluid"]["relative_permeability"][key] = val
                M["fluid"]["s_g"] = 0.12
            if not (M["fluid"]["s_w"] >= M["fluid"]["relative_permeability"]["sw_cr"]):
                M["fluid"]["s_w"] = 0.45
            sim = build(M)
            sp = Spec(M)
            for days in (0.05, 0.3):
                st = do_step(sim, sp, M, days * 86400)
                r.transitions += 1
                r.traces += 1
                r.state(*raw_state(sim))
                if not st.ok:
                    r.bad(f"step failed with {key}={val}, {c}")
                    break
                res, allow, amb, S = sp.pressure_residual(st.P, st.P1, st.sw, st.sg, st.dt, 1e-7, False)
                if ((np.abs(res) > allow) & ~amb).any():
                    i = int(np.argmax(np.abs(res) / allow))
                    r.bad(f"flow and storage disagree with the configuration {key}={val}: residual {res[i]:.4g} m3/s in cell {i} (allowance {allow[i]:.2g}) {c}")
                fl = st.flows()
                t = sp.transport(st.sw, st.sg, st.P1, fl, st.dt)
                if sp.free(st.sw, st.sg, t).all() and not t["amb"].any():
                    r.count("exec")
                    for ph, d, e, a, b in (("water", t["dSw"], t["ew"], st.sw, st.sw1), ("gas", t["dSg"], t["eg"], st.sg, st.sg1)):
                        if (np.abs((b - a) - d) > e).any():
                            i = int(np.argmax(np.abs((b - a) - d) / e))
                            r.bad(f"{ph} movement disagrees with the configuration {key}={val}: cell {i} {float((b - a).ravel()[i]):.6g} expected {float(d.ravel()[i]):.6g} {c}")
    elif k == "omit":
        for v in (0, 1):
            C = full_config(v)
            D = copy.deepcopy(C)
            E = copy.deepcopy(C)
            for key in c["omit"]:
                if c["group"] == "sim":
                    D["simulation"].pop(key)
                elif c["group"] == "well":
                    for W in (D["wells"], E["wells"]):
                        pass
                    for w in E["wells"]:
                        w[key] = WELLD[key]
                elif c["group"] == "fluid":
                    D["fluid"].pop(key)
                    E["fluid"][key] = FL[key][0]
                elif c["group"] == "rp":
                    D["fluid"]["relative_permeability"].pop(key)
                    E["fluid"]["relative_permeability"][key] = RP[key][0]
                else:
                    if key == "dimensions":
                        for w in D["wells"] + E["wells"]:
                            pass
                    D["reservoir"].pop(key)
                    E["reservoir"][key] = RES[key][0]
            if v == 1:
                for X in (D, E):
                    X["wells"][0].update(control_type="bhp", control_value=17.0)
                    X["wells"][1]["control_value"] = 0.5
            a, _ = run(D)
            b, _ = run(E)
            r.transitions += 4
            r.traces += 2
            r.state(*a[-1])
            r.count("omitted")
            if not equal(a, b):
                r.bad(f"omitting {c['omit']} differs from giving the default explicitly: group {c['group']}")
    elif k == "format":
        outs = []
        C = full_config(0)
        C["reservoir"].update(permeability=50.0, grid_size=[12.0, 20.0, 5.0])
        for variant in itertools.product((0, 1), repeat=4):
            D = copy.deepcopy(C)
            D["wells"] = []
            pos = [(0, 1, 0), (1, 0, 0)]
            for n in (0, 1):
                w = dict(name=f"W{n}", type=c["types"][n], radius=0.1)
                p = pos[n]
                if variant[0] ^ (n == 1 and variant[3]):
                    w["coordinates"] = list(p)
                else:
                    w.update(i=p[0], j=p[1], k=p[2])
                val = dict(rate=0.7, bhp=18.5 if c["types"][n] == "producer" else 22.0)[c["ctypes"][n]]
                if variant[1]:
                    w["control"] = dict(type=c["ctypes"][n], value=val)
                else:
                    w.update(control_type=c["ctypes"][n], control_value=val)
                D["wells"].append(w)
            if c["cap"]:
                d = {}
                d["pc_scale"] = c["cap"][0]
                if c["cap"][1] is not None:
                    d["pc_exponent"] = c["cap"][1]
                if variant[2]:
                    D["fluid"]["capillary_pressure"] = d
                else:
                    D["fluid"].update(d)
            if c["og"]:
                D["fluid"]["capillary_pressure_og"] = dict(pc_scale=c["og"][0], pc_exponent=c["og"][1])
            if c["pvt"]:
                p = pvt_file(mm.PVT_RV)
                if variant[3]:
                    D["fluid"]["pvt_path"] = p
                else:
                    D["fluid"]["pvt"] = dict(path=p)
            out, sim = run(D)
            r.transitions += 2
            r.traces += 1
            r.state(*out[-1])
            if outs and not equal(outs[0], out):
                r.bad(f"format variant {variant} (coordinates, control, capillary, mixed/pvt) differs: {c}")
            outs.append(out)
            r.count("formats")
            if len(out) > 1 and np.array_equal(out[0][0], out[-1][0]):
                r.count("static")
    elif k == "reject":
        res = Reservoir(dict(dimensions=[3, 3, 3]), CPU)
        def tries(w):
            try:
                WellManager([w], res)
                return True
            except Exception:
                return False
        for co in itertools.product((0, 1), repeat=4):          # coordinates, i, j, k present
            for ct in itertools.product((0, 1), repeat=3):      # control, control_type, control_value present
                w = dict(name="W", type="producer", radius=0.1)
                if co[0]:
                    w["coordinates"] = [0, 1, 2]
                for n, key in enumerate("ijk"):
                    if co[n + 1]:
                        w[key] = n
                if ct[0]:
                    w["control"] = dict(type="bhp", value=10.0)
                if ct[1]:
                    w["control_type"] = "bhp"
                if ct[2]:
                    w["control_value"] = 10.0
                want = (co[0] or all(co[1:])) and (ct[0] or all(ct[1:]))
                got = tries(w)
                r.transitions += 1
                r.state("rej", co, ct)
                r.count("rejections" if not want else "accepted")
                if bool(got) != bool(want):
                    r.bad(f"well configuration {w} was {'accepted' if got else 'rejected'}")
        # several wells: a malformed one anywhere is rejected
        good = dict(name="G", type="producer", radius=0.1, i=0, j=0, k=0, control_type="bhp", control_value=10.0)
        for n in range(3):
            for miss in ("i", "j", "k", "control_type", "control_value"):
                ws = [dict(good, name=f"G{m}") for m in range(3)]
                ws[n].pop(miss)
                r.transitions += 1
                try:
                    WellManager(ws, res)
                    r.bad(f"well {n} of 3 without {miss} was accepted")
                except Exception:
                    r.count("rejections")
        for st in ("impes2", "", "IMPES ", None):
            C = full_config(0)
            C["simulation"]["solver_type"] = st
            try:
                run(C, (0.1,))
                r.bad(f"unknown solver type {st!r} was accepted")
            except Exception:
                r.count("rejections")
    elif k == "sum":
        res = Reservoir(dict(dimensions=[2, 1, 1]), CPU)
        want = np.float32(c["sw"]) + np.float32(c["sg"]) <= 1.0
        if abs(c["sw"] + c["sg"] - 1.0) < 1e-6:
            want = None
        try:
            Fluid(dict(s_w=c["sw"], s_g=c["sg"]), res, CPU)
            got = True
        except Exception:
            got = False
        r.transitions += 1
        r.traces += 1
        r.state("sum", c["sw"], c["sg"])
        r.count("sums")
        if want is not None and got != want:
            r.bad(f"initial saturations s_w={c['sw']} s_g={c['sg']} were {'accepted' if got else 'rejected'}")


def finish(tier, counters, cases):
    need = dict(attributes=500, exec=100, omitted=200, formats=1000, rejections=60, accepted=10, sums=40, wells=1000, capillary=1000)
    low = {k: counters.get(k, 0) for k, v in need.items() if counters.get(k, 0) < v}
    if low:
        yield f"vacuous: {low}"
