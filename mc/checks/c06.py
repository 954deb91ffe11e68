"""C06: equilibrium is preserved; gravity separates fluids the right way."""
import itertools
import numpy as np
from .. import models as mm, family
from ..walk import explore

BOUND = dict(quick="quiescent models: single-layer grids <= 3x2 and up to 4x3, all saturation points x relperm x PVT x capillary x solver, step sequences depth 3 over {0.1, 3, 30} days; hydrostatic columns nz <= 4; two/three-cell columns with all saturation pairs",
             thorough="depth 4, larger grids, denser saturation lattices")
RULE = "fixed point for equilibrium starts; direction of phase transfer in closed columns; maximum principle for closed single layers"

SATS = [(0.2, 0.0), (0.4, 0.0), (0.4, 0.1), (0.7, 0.05), (0.8, 0.0), (0.2, 0.6)]
SOLV = dict(cg=dict(), cg32=dict(pressure_float64=False), amg=dict(pressure_solver="amg", amg=dict(tol=1e-12, max_cycles=60, coarsest_size=3)))


def cases(tier):
    th = tier == "thorough"
    flat = [(1, 1, 1), (2, 1, 1), (1, 2, 1), (2, 2, 1), (3, 2, 1), (1, 3, 1)] + ([(4, 3, 1), (5, 5, 1), (6, 1, 1)] if th else [])
    for dims in flat:
        for s in SATS:
            for rp in ("corey", "stone"):
                for pvt in ("none", "rv"):
                    for cap in (0, 3):
                        for solver in SOLV:
                            for het in (0, 1):
                                for P in (20e6, 5e6):
                                    if solver == "amg" and dims == (1, 1, 1):
                                        continue
                                    if cap and s in ((0.8, 0.0), (0.2, 0.6)):
                                        continue          # capillary curves are singular there
                                    if not th and P == 5e6 and (solver == "cg32" or cap):
                                        continue
                                    yield dict(kind="uniform", dims=dims, s=s, rp=rp, pvt=pvt, cap=cap, solver=solver, het=het, P=P,
                                               days=[0.1, 3.0, 30.0], depth=3 if th else 2)
    for dims in [(1, 1, 2), (1, 1, 3), (1, 1, 4), (2, 1, 2), (2, 2, 2), (1, 2, 3)]:
        for phase in ("w", "o"):
            for rho in (700.0, 1000.0, 1200.0):
                for cell in (0, 1, 2, 3):
                    for rp in ("corey", "corey3", "stone"):
                        for solver in SOLV:
                            yield dict(kind="hydro", dims=dims, phase=phase, rho=rho, cell=cell, rp=rp, solver=solver, days=[0.1, 10.0, 300.0] if cell < 3 else [0.01, 0.3, 3.0], depth=3 if th else 2)
    # compressible columns: pressure follows the density of the deeper of two layers, as the pressure equation has it
    for dims in [(1, 1, 3), (1, 1, 6), (1, 1, 12), (2, 1, 9)]:
        for phase in ("w", "o"):
            for comp in (1e-4, 1e-3, 5e-3):
                for cell in (0, 1):
                    for rp in ("corey", "stone"):
                        yield dict(kind="hydro", dims=dims, phase=phase, rho=1000.0, cell=cell, rp=rp, solver="cg", comp=comp, days=[0.1, 10.0], depth=2)
    # deep columns, long and wide layers
    for dims in [(1, 1, 8), (1, 1, 12), (2, 1, 9)]:
        for phase in ("w", "o"):
            for cell in (0, 1, 3):
                for rp in ("corey", "stone"):
                    for solver in SOLV:
                        yield dict(kind="hydro", dims=dims, phase=phase, rho=1000.0, cell=cell, rp=rp, solver=solver, days=[0.1, 10.0] if cell < 3 else [0.01, 0.3], depth=2)
    for dims in [(9, 1, 1), (1, 10, 1), (8, 7, 1)]:
        for s in SATS:
            for pvt in ("none", "rv"):
                for solver in SOLV:
                    for het in (0, 1):
                        yield dict(kind="uniform", dims=dims, s=s, rp="corey", pvt=pvt, cap=0, solver=solver, het=het, P=20e6, days=[0.1, 3.0], depth=2)
    for n in (6, 9):
        for sws in ([0.2 + 0.55 * i / (n - 1) for i in range(n)], [0.75 - 0.55 * i / (n - 1) for i in range(n)], [0.3 + 0.4 * (i % 2) for i in range(n)], [0.3 + 0.4 * (i // (n // 3) % 2) for i in range(n)]):
            for start in ("o", "uniform_w", "mid"):
                for rhos in ((850.0, 1000.0), (1000.0, 850.0)):
                    yield dict(kind="sep", dims=(1, 1, n), sws=sws, start=start, rhos=rhos, gas=False, days=[0.5, 50.0], depth=2)
        for sgs in ([0.3 * i / (n - 1) for i in range(n)], [0.3 - 0.3 * i / (n - 1) for i in range(n)], [0.3 * (i % 2) for i in range(n)]):
            for start in ("o", "mid"):
                yield dict(kind="sep", dims=(1, 1, n), sws=[0.3] * n, sgs=sgs, start=start, rhos=(850.0, 1000.0), gas=True, days=[0.5, 50.0], depth=2)
    lat = [0.2, 0.3, 0.45, 0.6, 0.75] + ([0.25, 0.5, 0.7] if th else [])
    for dims in [(1, 1, 2), (1, 1, 3)]:
        n = dims[2]
        for sws in itertools.product(lat, repeat=n):
            for start in ("o", "uniform_w", "mid"):
                for rhos in ((850.0, 1000.0), (700.0, 1100.0), (1000.0, 850.0)):
                    if not th and n == 3 and start == "mid":
                        continue
                    yield dict(kind="sep", dims=dims, sws=sws, start=start, rhos=rhos, gas=False, days=[0.5, 50.0], depth=2)
        for sgs in itertools.product((0.0, 0.1, 0.3), repeat=n):
            for sw in (0.2, 0.4):
                for start in ("o", "mid"):
                    yield dict(kind="sep", dims=dims, sws=[sw] * n, sgs=sgs, start=start, rhos=(850.0, 1000.0), gas=True, days=[0.5, 50.0], depth=2)
    # maximum principle in closed single layers
    for dims in [(2, 1, 1), (3, 1, 1), (1, 3, 1), (2, 2, 1), (3, 2, 1)] + ([(4, 4, 1)] if th else []):
        n = mm.ncell(dims)
        perms = list(itertools.permutations(range(n))) if n <= 3 else [tuple((i * 3 + s) % n for i in range(n)) if n % 3 else tuple((i * 5 + s) % n for i in range(n)) for s in range(n)]
        for perm in perms:
            for rp in mm.RPS:
                for pvt in ("none", "rv"):
                    for cap in (0, 1):
                        yield dict(kind="maxp", dims=dims, perm=perm, rp=rp, pvt=pvt, cap=cap, days=[0.05, 2.0, 100.0], depth=2)


def run_case(c, r):
    dims = tuple(c["dims"])
    n = mm.ncell(dims)
    kind = c["kind"]
    if kind == "uniform":
        sw, sg = c["s"]
        rp = mm.RPS[c["rp"]]
        sg = max(sg, rp.get("sg_cr", 0.0))
        sw = min(sw, 1 - rp["so_r"] - sg)
        M = mm.model(dims, rp=c["rp"], fld="u", pvt=family.PVTS[c["pvt"]], sim=SOLV[c["solver"]], poro=bool(c["het"]),
                     k=(0.5, 5.) if c["het"] else (3., 3.), fkw=dict(P0=c["P"], sw=(sw, sw), sg=(sg, sg)), **family.CAPS[c["cap"]])

        def check(st, r):
            if not st.ok:
                r.bad(f"uniform closed reservoir: step failed, path={st.path}")
                return
            d = st.spec
            # the solver stops at 1e-6 in the energy-like norm: error in pressure at most tol/sqrt(min acc)
            acc = d.PV * d.ct(st.P, st.sw, st.sg) / st.dt
            tolP = 3e-7 * c["P"] + 5e-6 / np.sqrt(acc.min())
            if c["solver"] == "cg32":
                # float32 matrix: the diagonal is a rounded sum of conductances
                m, _ = d.mob(st.P, st.sw, st.sg)
                Tm = max([float((T * m["t"].max()).max()) for T in d.T if T.size] + [0.0])
                tolP = tolP + 1e-6 * c["P"] * Tm / acc.min() * 4
            else:
                m, _ = d.mob(st.P, st.sw, st.sg)
                Tm = max([float((T * m["t"].max()).max()) for T in d.T if T.size] + [0.0])
                tolP = tolP + 5e-7 * c["P"] * Tm / acc.min() * 2
            e = np.abs(st.P1 - st.P).max()
            r.count("uniform")
            if e > tolP:
                r.bad(f"uniform pressure drifts by {e:.4g} Pa (allowance {tolP:.3g}), path={st.path}")
            # differences between neighbours stay at rounding level, so nothing moves
            for nme, a, b in (("sw", st.sw, st.sw1), ("sg", st.sg, st.sg1), ("so", st.so, st.so1)):
                # solver/rounding differences of neighbouring pressures move a little fluid
                k = 3 * st.dt / d.PV.min() * 6 * Tm * (8 + 4e-7 * c["P"] + 4 * 5e-6 / np.sqrt(max(Tm, acc.min())))
                if np.abs(b - a).max() > 2e-6 + k:
                    r.bad(f"uniform {nme} changes by {np.abs(b - a).max():.3g}, allowance {2e-6 + k:.2g}, path={st.path}")
        explore(M, [d * 86400. for d in c["days"]], c["depth"], check, r)
    elif kind == "hydro":
        rp = dict(mm.RPS[c["rp"]], sg_cr=0.0)
        sw = 1 - rp["so_r"] if c["phase"] == "w" else rp["sw_cr"]
        dz = mm.CELLS[c["cell"]][2]
        kw = dict(rho_water=c["rho"], rho_oil=c["rho"]) if False else {("rho_water" if c["phase"] == "w" else "rho_oil"): c["rho"]}
        M = mm.model(dims, cell=mm.CELLS[c["cell"]], rp=rp, fld="u", sim=SOLV[c["solver"]], k=None, poro=False,
                     fkw=dict(P0=20e6, sw=(sw, sw), sg=(0.0, 0.0)), c_oil=0.0, c_water=0.0, c_gas=0.0, c_rock=3e-3, **kw)
        P = np.empty(dims)
        for k in range(dims[2]):
            P[:, :, k] = 20e6 + c["rho"] * 9.81 * dz * k
        comp = c.get("comp", 0.0)
        if comp:
            M["fluid"]["c_water" if c["phase"] == "w" else "c_oil"] = comp
            den = lambda p: c["rho"] * (1 + comp * 1e-6 * (p - 1e5))
            for k in range(1, dims[2]):
                p = P[0, 0, k - 1] + c["rho"] * 9.81 * dz
                for _ in range(30):
                    p = P[0, 0, k - 1] + den(p) * 9.81 * dz
                P[:, :, k] = p
        M["fields"]["P"] = P.ravel().tolist()

        def check(st, r):
            if not st.ok:
                r.bad(f"hydrostatic column: step failed, path={st.path}")
                return
            r.count("hydro")
            d = st.spec
            acc = d.PV * d.ct(st.P, st.sw, st.sg) / st.dt
            m, _ = d.mob(st.P, st.sw, st.sg)
            Tm = max(float((T * m["t"].max()).max()) for T in d.T if T.size)
            f = 1.0
            tolP = 3e-7 * 2e7 + 5e-6 / np.sqrt(acc.min()) + (1e-6 if c["solver"] == "cg32" else 5e-7) * 2e7 * Tm / acc.min() * 4
            # the hydrostatic difference is what matters (the level may drift by rounding of the float32 matrix)
            rho = c["rho"] * (1 + comp * 1e-6 * (st.P[:, :, 1:] - 1e5))
            g = np.diff(st.P1, axis=2) - rho * 9.81 * dz
            tolg = 30.0 + 2e-3 * c["rho"] * 9.81 * dz * 0 + 1e-5 / np.sqrt(Tm) + 2e-6 * 2e7
            if np.abs(g).max() > tolg:
                r.bad(f"hydrostatic gradient: off by {np.abs(g).max():.4g} Pa of {c['rho'] * 9.81 * dz:.4g} (allowance {tolg:.3g}), path={st.path}")
            if np.abs(st.P1 - st.P).max() > tolP:
                r.bad(f"hydrostatic pressure drifts by {np.abs(st.P1 - st.P).max():.4g} Pa (allowance {tolP:.3g}), path={st.path}")
            # the explicit part weighs the density of the layers equally: half a layer's difference of weight
            k = 2e-6 + st.dt / d.PV.min() * 4 * Tm * (tolg if not comp else 25.0 + 1e-5 / np.sqrt(Tm)) + st.dt / d.PV.min() * Tm * 9.81 * dz * comp * 1e-6 * c["rho"] * np.diff(st.P, axis=2).max()
            for nme, a, b in (("sw", st.sw, st.sw1), ("sg", st.sg, st.sg1)):
                if np.abs(b - a).max() > k:
                    r.bad(f"hydrostatic {nme} changes by {np.abs(b - a).max():.3g} (allowance {k:.2g}), path={st.path}")
        explore(M, [d * 86400. for d in c["days"]], c["depth"], check, r)
    elif kind == "sep":
        ro, rw = c["rhos"]
        dz = mm.CELLS[1][2]
        # incompressible fluids, gas light; gas only present in the gas variant
        M = mm.model(dims, rp="corey", fld="u", k=None, poro=False, fkw=dict(sw=(0.3, 0.3), sg=(0.0, 0.0)), sim=dict(cg_tolerance=1e-8),
                     rho_oil=ro, rho_water=rw, rho_gas=100.0, c_oil=0.0, c_water=0.0, c_gas=0.0, c_rock=3e-3)
        n = dims[2]
        M["fields"]["sw"] = list(c["sws"])
        M["fields"]["sg"] = list(c.get("sgs", [0.0] * n))
        grad = dict(o=ro, uniform_w=rw, mid=0.5 * (ro + rw))[c["start"]]
        M["fields"]["P"] = [20e6 + grad * 9.81 * dz * k for k in range(n)]
        kz = np.arange(n)

        def check(st, r):
            if not st.ok:
                r.count("failed_steps")
                return
            sp = st.spec
            dp = np.diff(st.P1, axis=2) / (9.81 * dz)
            hi, lo = max(ro, rw), min(ro, rw, 100.0 if c["gas"] else 1e9)
            slack = 3.0 if n == 2 else 3.0 + 0.05 * (hi - lo)      # storage transients in longer columns
            if dp.max() > hi + slack or dp.min() < lo - slack:
                r.bad(f"column gradient: {dp.min():.4g}..{dp.max():.4g} kg/m3 outside the densities {lo}..{hi}, path={st.path}")
            r.count("columns")
            t = 3e-6 * n * n
            zw0, zw1 = (st.sw.ravel() * kz).sum(), (st.sw1.ravel() * kz).sum()
            zg0, zg1 = (st.sg.ravel() * kz).sum(), (st.sg1.ravel() * kz).sum()
            if abs(zw1 - zw0) > 1e-4 or abs(zg1 - zg0) > 1e-4:
                r.count("moved")
            if not c["gas"]:
                if rw > ro and zw1 < zw0 - t:
                    r.bad(f"heavier water rose: centroid {zw0:.6g} -> {zw1:.6g}, path={st.path}")
                if rw < ro and zw1 > zw0 + t:
                    r.bad(f"lighter water sank: centroid {zw0:.6g} -> {zw1:.6g}, path={st.path}")
            else:
                if zg1 > zg0 + t:
                    r.bad(f"gas sank: centroid {zg0:.6g} -> {zg1:.6g}, path={st.path}")
                if zw1 < zw0 - t and st.sg1.max() == 0:
                    r.bad(f"heavier water rose: centroid {zw0:.6g} -> {zw1:.6g}, path={st.path}")
        explore(M, [d * 86400. for d in c["days"]], c["depth"], check, r)
    else:
        M = mm.model(dims, rp=c["rp"], fld="h", pvt=family.PVTS[c["pvt"]], k=(5., 50.), **family.CAPS[c["cap"]])
        M["fields"]["P"] = [18e6 + 4e6 * p / n for p in c["perm"]]
        first = {}

        def check(st, r):
            if not st.ok:
                r.count("failed_steps")
                return
            r.count("maxp")
            tol = 60.0 + 2e-6 * float(np.max(st.P))
            # float32 diagonal against accumulation
            d = st.spec
            acc = d.PV * d.ct(st.P, st.sw, st.sg) / st.dt
            m, _ = d.mob(st.P, st.sw, st.sg)
            Tm = max([float((T * m["t"].max()).max()) for T in d.T if T.size] + [0.0])
            tol += 5e-7 * 2e7 * Tm / acc.min() * 4
            if st.P1.max() > st.P.max() + tol or st.P1.min() < st.P.min() - tol:
                r.bad(f"closed layer: pressures {st.P1.min():.8g}..{st.P1.max():.8g} leave the previous range {st.P.min():.8g}..{st.P.max():.8g} (allowance {tol:.3g}), path={st.path}")
        explore(M, [d * 86400. for d in c["days"]], c["depth"], check, r)


def finish(tier, counters, cases):
    if counters.get("uniform", 0) < 2000 or counters.get("hydro", 0) < 1000 or counters.get("moved", 0) < 300 or counters.get("maxp", 0) < 300:
        yield f"vacuous: {counters}"
