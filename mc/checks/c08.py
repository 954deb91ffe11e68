"""C08: pressure-controlled wells flow in proportion to drawdown, on both equations."""
import itertools, math
import numpy as np
from .. import models as mm, family
from ..build import build
from ..spec import MD
from ..walk import explore

BOUND = dict(quick="well-index lattice (6 cell shapes x 5 permeabilities x 4 radii x both formats); every cell of 1x1x1, 2x2x1, 1x2x3 x {producer, water injector, gas injector} x bottom-hole pressures {below, equal, above, far} x saturations x PVT, depth 2; pairs of wells in a cell; laboratory and field magnitudes; every cell of long grids, long histories",
             thorough="larger lattices and grids, depth 3")
RULE = "well index against the Peaceman formula; phase volumes and pressure balance against WI*mobility*drawdown"
SATS = [(0.4, 0.1), (0.3, 0.0), (0.55, 0.2), (0.2, 0.0), (0.8, 0.0)]


def cases(tier):
    th = tier == "thorough"
    shapes = [(10., 10., 10.), (12., 20., 5.), (30., 15., 4.), (100., 100., 20.), (5., 60., 1.), (50., 50., 0.5)]
    perms = [0.1, 1.0, 10.0, 100.0, 2000.0] + ([0.01, 33.0, 500.0] if th else [])
    radii = [0.05, 0.1, 0.15, 0.3] + ([0.08, 0.2, 0.5] if th else [])
    for sh in shapes:
        for k in perms:
            for kr in (1.0, 0.25, 4.0):
                yield dict(kind="wi", cell=sh, k=k, kratio=kr, radii=radii)
    for dims in [(1, 1, 1), (2, 2, 1), (1, 2, 3)] + ([(3, 2, 2), (2, 1, 2)] if th else []):
        for c in mm.cells(dims) + [(dims[0], 0, 0), (0, dims[1], 0), (0, 0, dims[2] + 1)]:
            for kind in ("p", "iw", "ig"):
                for bhp in (1.0, 15.0, 19.5, 20.0, 20.5, 26.0, 60.0):
                    for pvt in ("none", "rv"):
                        for sat in range(5):
                            if bhp in (1.0, 60.0) and (dims != (1, 1, 1) or sat in (1, 4)):
                                continue
                            if not th and dims != (1, 1, 1) and (sat in (1, 4) or (pvt == "rv" and sat == 3)):
                                continue
                            for cell in (0, 1, 2) if (th or dims == (1, 1, 1)) else (1,):
                                yield dict(kind="flow", dims=dims, c=c, w=[(kind, bhp)], pvt=pvt, sat=sat, cell=cell, rp="corey" if sat in (3, 4) else "corey3",
                                           days=[0.05, 0.6], depth=3 if th else 2)
    for dims in [(1, 1, 1), (2, 1, 1)]:
        for a, b in itertools.product(itertools.product(("p", "iw", "ig"), (16.0, 24.0)), repeat=2):
            for pvt in ("none", "rv"):
                yield dict(kind="flow", dims=dims, c=(0, 0, 0), w=[a, b], pvt=pvt, sat=0, cell=1, rp="stone", days=[0.05, 0.6], depth=2)
    # laboratory plugs and field-scale blocks
    for m in family.MAGS:
        for dims in [(1, 1, 1), (2, 2, 1), (1, 1, 3)]:
            for kind in ("p", "iw", "ig"):
                for bhp in (15.0, 19.5, 20.5, 26.0):
                    for pvt in ("none", "rv"):
                        yield dict(kind="flow", dims=dims, c=(0, 0, 0), w=[(kind, bhp)], pvt=pvt, sat=0, cell=1, rp="corey3", days=[0.05, 0.6], depth=2, mag=m)
    # a well in any cell of long, wide and deep grids; many wells at once; many steps
    for dims in [(8, 1, 1), (1, 8, 1), (1, 1, 8), (5, 4, 1)]:
        for n, c in enumerate(mm.cells(dims)):
            for pvt in ("none", "rv"):
                for kind in ("p", "iw", "ig"):
                    yield dict(kind="flow", dims=dims, c=c, w=[(kind, (15.0, 26.0)[kind != "p"])], pvt=pvt, sat=0, cell=1, rp="corey3", days=[0.05, 0.3], depth=2)
    for dims in [(3, 2, 2), (4, 3, 1)]:
        for pvt in ("none", "rv"):
            for s in range(6):
                yield dict(kind="flow", dims=dims, c=(0, 0, 0), w=[(("p", "iw", "ig")[(n + s) % 3], (16.0, 24.0, 18.5, 22.0)[(n + s // 3) % 4]) for n in range(11)], pvt=pvt, sat=0, cell=1, rp="corey3",
                           days=[0.05, 0.3], depth=2, spread=True)
    for pvt in ("none", "rv"):
        for kind in ("p", "iw", "ig"):
            for bhp in (15.0, 26.0):
                yield dict(kind="flow", dims=(2, 2, 1), c=(0, 0, 0), w=[(kind, bhp)], pvt=pvt, sat=0, cell=1, rp="corey3", days=[0.05], depth=15)


def run_case(c, r):
    if c["kind"] == "wi":
        dx, dy, dz = c["cell"]
        kx, ky = c["k"], c["k"] * c["kratio"]
        vals = {}
        for rad in c["radii"]:
            for fmt in (0, 1):
                dims = (2, 2, 2)
                n = 8
                w = dict(name="W", type="producer", radius=rad)
                pos = (1, 0, 1)
                w.update(dict(coordinates=list(pos), control=dict(type="bhp", value=10.0)) if fmt == 0 else
                         dict(i=1, j=0, k=1, control_type="bhp", control_value=10.0))
                idx = (1 * 2 + 0) * 2 + 1
                kxs, kys = [kx * 3.0] * n, [ky * 5.0] * n
                kxs[idx], kys[idx] = kx, ky
                M = dict(dims=dims, cell=c["cell"], fluid={}, wells=[w], sim=dict(solver_type="impes"),
                         fields=dict(kx=kxs, ky=kys))
                got = float(build(M).well_manager.get_wells()[0].well_index)
                ro = 0.28 * math.sqrt(dx * dx + dy * dy) / 2
                want = 2 * math.pi * math.sqrt(kx * ky) * MD * dz / math.log(ro / rad)
                r.transitions += 1
                r.traces += 1
                r.count("wi")
                r.state("wi", round(got * 1e18), rad)
                if ro > rad and not (got > 0):
                    r.bad(f"well index {got} is not positive for {c}, radius {rad}")
                if abs(got - want) > 1e-5 * abs(want):
                    r.bad(f"well index {got:.6g}, Peaceman {want:.6g} m3 (radius {rad})")
                vals[(rad, fmt)] = got
        return
    dims = tuple(c["dims"])
    het = dims != (1, 1, 1)
    sat = SATS[c["sat"]]
    rp = mm.RPS[c["rp"]]
    sg = max(sat[1], rp["sg_cr"])
    wells = []
    for n, (kd, bhp) in enumerate(c["w"]):
        wells.append(mm.well(f"W{n}", "producer" if kd == "p" else "injector", mm.cells(dims)[n] if c.get("spread") else tuple(c["c"]), "bhp", bhp,
                             **(dict(injected_phase="gas") if kd == "ig" else {})))
    M = mm.model(dims, cell=mm.CELLS[c["cell"]], rp=c["rp"], fld="h" if het else "u", pvt=family.PVTS[c["pvt"]], wells=wells, k=(1., 8.) if het else (2., 2.), poro=het,
                 sim=dict(cg_tolerance=1e-8),
                 fkw=dict(P0=20e6, dP=2e5, sw=(sat[0], sat[0] + (0.05 if het and sat[0] < 0.7 else 0)), sg=(sg, sg + (0.03 if het and sat[0] < 0.7 else 0))),
                 c_oil=2e-2, c_water=2e-2, c_gas=5e-2, c_rock=2e-2)

    scale = 1.0
    if "mag" in c:
        family.magnitude(M, family.MAGS[c["mag"]])
        scale = family.MAGS[c["mag"]] ** 2

    def check(st, r):
        if not st.ok:
            r.bad(f"step failed with pressure-controlled wells, path={st.path}")
            return
        sp = st.spec
        fl = st.flows()
        t = sp.transport(st.sw, st.sg, st.P1, fl, st.dt)
        face_e = st.dt * 4e-7 * sum(float(np.abs(v).sum()) for v in t["face"].values())
        # direction of flow, from the configuration alone
        if sp.free(st.sw, st.sg, t).all():
            r.count("volumes")
            for ph, a, b in (("water", st.sw, st.sw1), ("gas", st.sg, st.sg1)):
                got = float(((b - a) * sp.PV).sum())
                want = st.dt * sum(d[ph[0]] for d in fl)
                tol = 1.5e-6 * float(sp.PV.sum()) + face_e + st.dt * 2 * sum(d["e"] for d in fl)
                if abs(got - want) > tol:
                    r.bad(f"{ph}: reservoir gained {got:.6g} m3, index x mobility x drawdown gives {want:.6g} (allowance {tol:.2g}), path={st.path}")
                if abs(want) > 20 * tol:
                    r.count("discriminating")
        ins = [d for d in fl if d["inside"]]
        if len(ins) == 1:
            w, q = ins[0]["well"], ins[0]["q"]
            dp = st.P1[w.cell] - w.value * 1e6
            stor = float(((sp.PV * sp.ct(st.P, st.sw, st.sg)) * (st.P1 - st.P)).sum())
            if dims == (1, 1, 1):
                # an isolated cell moves towards the bottom-hole pressure and never past it
                P0, P1, pb = float(st.P.ravel()[0]), float(st.P1.ravel()[0]), w.value * 1e6
                if not (min(P0, pb) - 100 <= P1 <= max(P0, pb) + 100):
                    r.bad(f"cell pressure {P0:.8g} -> {P1:.8g} does not approach the bottom-hole pressure {pb:.8g}, path={st.path}")
                if abs(P0 - pb) > 1e5 and sp.mob(st.P, st.sw, st.sg)[0]["t"][w.cell] > 1 and abs(P1 - P0) < 1:
                    r.bad(f"well has no effect on the pressure of its cell, path={st.path}")
            # volume on both equations (without tables the mobility is the same in both)
            if M["pvt"] is None and not np.any(np.diff(st.P) == 0):
                tolv = (abs(stor) + abs(q * st.dt)) * 1e-3 + st.dt * ins[0]["e"] * 2 + float((sp.PV * sp.ct(st.P, st.sw, st.sg)).sum()) * 60
                gsum = 0.0
                if abs(stor - q * st.dt) > tolv:
                    r.bad(f"pressure equation saw {stor:.6g} m3, saturations {q * st.dt:.6g} (allowance {tolv:.2g}), path={st.path}")
                r.count("both")
        res, allow, amb, S = sp.pressure_residual(st.P, st.P1, st.sw, st.sg, st.dt, 1e-7, False)
        if ((np.abs(res) > allow) & ~amb).any():
            w = int(np.argmax(np.abs(res) / allow))
            r.bad(f"pressure equation: residual {res[w]:.5g} m3/s in cell {w} (allowance {allow[w]:.2g}), path={st.path}")

    explore(M, [d * 86400. * scale for d in c["days"]], c["depth"], check, r)


def finish(tier, counters, cases):
    if counters.get("volumes", 0) < 1500 or counters.get("discriminating", 0) < 500 or counters.get("both", 0) < 400:
        yield f"vacuous: {counters}"
