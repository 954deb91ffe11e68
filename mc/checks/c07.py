"""C07: rate-controlled wells deliver exactly the requested volume and phase."""
import itertools
import numpy as np
from .. import models as mm, family
from ..walk import explore

BOUND = dict(quick="every cell of grids 1x1x1, 2x2x1, 1x2x3 x {injector water/gas, producer} x {reservoir, surface with every surface phase} x PVT {none, plain, Rv} x rate multipliers {1, 0.5, 2} x saturation points x 3 pressures, step sequences depth 2; two and three wells sharing a cell; magnitudes x1000 and /1000, 11 wells at once, every cell of lines of 8 and of 5x4, any spelling of the phase, 15-step histories",
             thorough="adds grids 3x2x2, 2x3x1, PVT with strong Rv, multiplier 0, more saturations, depth 3")
RULE = "phase volumes, per-well reported rates and surface volumes against the request; the pressure equation against the same reservoir volume"
PVTS = dict(family.PVTS, rvbig=mm.PVT_RVBIG)
SATS = [(0.4, 0.1), (0.3, 0.0), (0.55, 0.2), (0.2, 0.3)]


def specs(pvt):
    for ph in ("water", "gas"):
        yield dict(type="injector", injected_phase=ph)
        if pvt != "none":
            yield dict(type="injector", injected_phase=ph, rate_type="surface")
    yield dict(type="injector")                       # default phase
    yield dict(type="producer")
    if pvt != "none":
        for sp in ("oil", "water", "gas", "liquid", None):
            yield dict(type="producer", rate_type="surface", surface_phase=sp)
    else:
        yield dict(type="producer", rate_type="surface", surface_phase="oil")   # no tables: taken as reservoir rate


def cases(tier):
    th = tier == "thorough"
    grids = [(1, 1, 1), (2, 2, 1), (1, 2, 3)] + ([(3, 2, 2), (2, 3, 1), (2, 1, 2)] if th else [])
    for dims in grids:
        spots = mm.cells(dims)
        if len(dims) and dims != (1, 1, 1):
            spots = spots + [(dims[0], 0, 0), (0, dims[1] + 1, 0), (0, 0, dims[2])]      # outside: no effect
        for c in spots:
            for pvt in ("none", "plain", "rv") + (("rvbig",) if th else ()):
                for s in specs(pvt):
                    for scale in (1.0, 0.5, 2.0) + ((0.0,) if th else ()):
                        if not th and scale == 0.5 and dims != (1, 1, 1):
                            continue
                        for sat in (range(4) if dims == (1, 1, 1) or th else (0, 2)):
                            for P in (20e6, 12e6, 41e6) if (dims == (1, 1, 1) or th) else (20e6,):
                                yield dict(dims=dims, cell=c, pvt=pvt, s=[s], scale=scale, sat=sat, P=P, rp="corey" if sat % 2 else "corey3",
                                           days=[0.3, 1.0], depth=3 if th else 2)
    # field and laboratory magnitudes: everything times a thousand, everything over a thousand
    for mag in (10.0, 0.1):
        for dims in [(1, 1, 1), (2, 2, 1)]:
            for pvt in ("none", "plain", "rv"):
                for s in specs(pvt):
                    for scale in (1.0, 2.0):
                        for sat in (0, 2):
                            yield dict(dims=dims, cell=(0, 0, 0), pvt=pvt, s=[s], scale=scale, sat=sat, P=20e6, rp="corey3", days=[0.3, 1.0], depth=2, mag=mag)
    # several wells, same or different cells
    for dims in [(1, 1, 1), (2, 2, 1)]:
        for pvt in ("none", "rv"):
            sp = list(specs(pvt))
            for combo in itertools.combinations(range(len(sp)), 2):
                for same in (True, False):
                    if not same and dims == (1, 1, 1):
                        continue
                    yield dict(dims=dims, cell=(0, 0, 0), pvt=pvt, s=[sp[i] for i in combo], scale=1.0, sat=0, P=20e6, rp="stone", days=[0.3], depth=2, same=same)
    # the phase of a surface rate in any spelling
    for dims in [(1, 1, 1), (2, 2, 1)]:
        for pvt in ("plain", "rv"):
            for sp in ("OIL", "Water", "GAS", "Liquid", "oIL", "gaS"):
                for sat in (0, 2):
                    yield dict(dims=dims, cell=(0, 0, 0), pvt=pvt, s=[dict(type="producer", rate_type="surface", surface_phase=sp)], scale=1.0, sat=sat, P=20e6, rp="corey3", days=[0.3, 1.0], depth=2)
    # a well in any cell of long, wide and deep grids; many wells at once; many steps
    for dims in [(8, 1, 1), (1, 8, 1), (1, 1, 8), (5, 4, 1)]:
        for n, cell in enumerate(mm.cells(dims)):
            for pvt in ("none", "rv"):
                sp = list(specs(pvt))
                yield dict(dims=dims, cell=cell, pvt=pvt, s=[sp[n % len(sp)]], scale=1.0, sat=0, P=20e6, rp="corey3", days=[0.3], depth=2)
    for dims in [(3, 2, 2), (4, 3, 1)]:
        for pvt in ("none", "plain", "rv"):
            sp = list(specs(pvt))
            for s in range(len(sp)):
                yield dict(dims=dims, cell=(0, 0, 0), pvt=pvt, s=[sp[(s + i) % len(sp)] for i in range(11)], scale=1.0, sat=0, P=20e6, rp="corey3", days=[0.1], depth=2, spread=True)
    for pvt in ("none", "rv"):
        for s in specs(pvt):
            yield dict(dims=(2, 2, 1), cell=(0, 0, 0), pvt=pvt, s=[s], scale=1.0, sat=0, P=20e6, rp="corey3", days=[0.05], depth=15)


def run_case(c, r):
    dims = tuple(c["dims"])
    sat = SATS[c["sat"]]
    rp = mm.RPS[c["rp"]]
    sg = max(sat[1], rp["sg_cr"])
    het = dims != (1, 1, 1)
    wells = []
    mag = c.get("mag", 1.0)
    for n, s in enumerate(c["s"]):
        cell = mm.cells(dims)[n] if c.get("spread") else tuple(c["cell"]) if (n == 0 or c.get("same", True)) else tuple(d - 1 for d in dims)
        q = 3.0
        if s.get("rate_type") == "surface":
            if str(s.get("surface_phase")).lower() == "gas" or s.get("injected_phase") == "gas":
                q = 60.0
        if str(s.get("surface_phase")).lower() == "water":
            q = 1.0
        kw = {k: v for k, v in s.items() if k != "type" and v is not None}
        q *= mag ** 3
        wells.append(mm.well(f"W{n}", s["type"], cell, "rate", q, **kw))
    F = dict(P0=c["P"], dP=3e5, sw=(sat[0], sat[0] + (0.05 if het else 0)), sg=(sg, sg + (0.03 if het else 0)))
    M = mm.model(dims, cell=[x * mag for x in mm.CELLS[1]], rp=c["rp"], fld="h" if het else "u", pvt=PVTS[c["pvt"]], wells=wells, k=(5., 50.) if het else None, poro=het,
                 sim=dict(global_rate_scale=c["scale"]) if c["scale"] != 1.0 else {}, fkw=F,
                 c_oil=1e-3, c_water=1e-3, c_rock=0.1)

    def check(st, r):
        if not st.ok:
            r.bad(f"step failed with rate wells, path={st.path}")
            return
        sp = st.spec
        fl = st.flows()
        t = sp.transport(st.sw, st.sg, st.P1, fl, st.dt)
        if any(d["amb"] or d.get("near_choke") for d in fl):
            r.skipped += 1
            return
        free = sp.free(st.sw, st.sg, t).all()
        face_e = st.dt * 4e-7 * sum(float(np.abs(v).sum()) for v in t["face"].values())
        if free:
            r.count("volumes")
            for ph, a, b in (("water", st.sw, st.sw1), ("gas", st.sg, st.sg1)):
                got = float(((b - a) * sp.PV).sum())
                want = st.dt * sum(d[ph[0]] for d in fl)
                tol = 1.5e-6 * float(sp.PV.sum()) + face_e + st.dt * 2 * sum(d["e"] for d in fl)
                if abs(got - want) > tol:
                    r.bad(f"{ph}: reservoir gained {got:.6g} m3, request amounts to {want:.6g} (allowance {tol:.2g}), path={st.path}")
                # straight from the configuration, independent of the well model
                inj = [w for w in sp.wells if w.inside and w.type == "injector"]
                if inj and not any(w.type == "producer" for w in sp.wells if w.inside) and not any(d["choked"] for d in fl):
                    vol = 0.0
                    for w in inj:
                        if (w.phase == "gas") != (ph == "gas"):
                            continue
                        v = w.value * c["scale"] * st.dt / 86400
                        if w.rate_type == "surface" and M["pvt"]:
                            v *= float(np.interp(st.P1[w.cell] / 1e6, M["pvt"]["pressure_MPa"], M["pvt"]["Bg" if ph == "gas" else "Bw"]))
                        vol += v
                    if abs(got - vol) > tol + 1e-5 * vol:
                        r.bad(f"{ph}: injected {got:.6g} m3, configured {vol:.6g}, path={st.path}")
        # reported rates of producers under PVT
        for d, w in zip(fl, st.sim.well_manager.get_wells()):
            x = d["well"]
            if not d["inside"] or x.type != "producer" or M["pvt"] is None:
                continue
            r.count("reports")
            if d["choked"]:
                r.count("choked")
            te = 2e-5 * abs(d["q"]) + 4 * d["e"]
            if abs(w.last_q_total - d["q"]) > te + 1e-12:
                r.bad(f"last_q_total {w.last_q_total:.6g} of {w.name}, applied {d['q']:.6g}, path={st.path}")
            ref = max(abs(v) for v in d["surf"].values()) + 1e-12
            for k in ("oil", "water", "gas", "liquid"):
                if abs(w.last_surface_rates[k] - d["surf"][k]) > (1e-4 + te / (abs(d["q"]) + 1e-30)) * max(d["surf"][k], 1e-6 * ref) + 1e-9:
                    r.bad(f"last_surface_rates[{k}] {w.last_surface_rates[k]:.6g}, applied {d['surf'][k]:.6g}, path={st.path}")
            if not d["choked"] and x.rate_type == "surface":
                want = x.value * c["scale"]
                have = w.last_surface_rates[x.surface_phase]
                # phases that hardly flow in the cell cannot be produced on request
                if d["fr"][dict(oil="o", water="w", gas="g", liquid="o")[x.surface_phase]] > 1e-6 and abs(have - want) > 1e-4 * want + te:
                    r.bad(f"surface {x.surface_phase} rate {have:.6g}, requested {want:.6g}, path={st.path}")
                r.count("surface")
        # pressure equation: same reservoir volume as the saturations
        actual = [d["q"] if (d["inside"] and d["mode"] == "rate") else None for d in fl]
        res, allow, amb, S = sp.pressure_residual(st.P, st.P1, st.sw, st.sg, st.dt, 1e-5, False, sources=actual)
        allow = allow + 2 * sum(d["e"] for d in fl)
        r.count("pressure")
        if ((np.abs(res) > allow) & ~amb).any():
            res2, allow2, amb2, S2 = sp.pressure_residual(st.P, st.P1, st.sw, st.sg, st.dt, 1e-5, False)
            differ = any(d["inside"] and d["mode"] == "rate" and abs(abs(d["q"]) - d["well"].value * c["scale"] / 86400) > 1e-9 * mag ** 3 for d in fl)
            if differ and not ((np.abs(res2) > allow2) & ~amb2).any():
                why = "surface" if all((not d["inside"]) or d["well"].rate_type == "surface" or not d["choked"] for d in fl) else "throttled"
                r.known.append(("pressure-uses-nominal-rate", f"case {c}"))
                r.count("nominal_" + why)
            else:
                w = int(np.argmax(np.abs(res) / allow))
                r.bad(f"pressure equation: residual {res[w]:.5g} m3/s in cell {w} with the applied well volumes (allowance {allow[w]:.2g}), path={st.path}")

    explore(M, [d * 86400. for d in c["days"]], c["depth"], check, r)


def finish(tier, counters, cases):
    if counters.get("volumes", 0) < 2000 or counters.get("surface", 0) < 200 or counters.get("reports", 0) < 1000:
        yield f"vacuous: {counters}"
