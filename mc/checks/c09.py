"""C09: rate limits, availability and minimum bottom-hole pressure are respected."""
import itertools
import numpy as np
from .. import models as mm, family
from ..walk import explore
from ..build import build, raw_state

BOUND = dict(quick="one cell and a pair of cells, producer of every rate kind with every combination of four surface limits at {absent, 0.4, 0.9, 3} of the unlimited rate (one pair: other wells too); saturations at and between every end point; step lengths up to far beyond availability; minimum bottom-hole pressures around the required one, with limits and without tables; injectors of both phases up to overfilling; depth 2",
             thorough="more saturations, all rate kinds with all limit combinations, three cells, depth 3")
RULE = "surface volumes leaving the cell against every limit (upper bound) and the tightest of limit/request/availability (lower bound); rate or drawdown flow by the required bottom-hole pressure; saturation window"
KEYS = ("wopr", "wlpr", "wgpr", "liqr")
SURF = dict(wopr="oil", wlpr="water", wgpr="gas", liqr="liquid")
SATS = dict(corey=[(0.45, 0.12), (0.2, 0.0), (0.2, 0.25), (0.6, 0.0), (0.8, 0.0), (0.3, 0.5), (0.55, 0.2)],
            corey3=[(0.45, 0.12), (0.15, 0.03), (0.15, 0.4), (0.6, 0.03), (0.87, 0.03), (0.3, 0.6), (0.55, 0.2)])


def cases(tier):
    th = tier == "thorough"
    kinds = [None, "oil", "liquid"] + (["water", "gas"] if th else [])
    for rp in ("corey", "corey3"):
        for sat in ((0, 1, 2, 3, 4, 5, 6) if th else (0, 2, 3, 6)):
            for lv in itertools.product((None, 0.4, 0.9, 3.0), repeat=4):
                for kind in kinds if (th or sum(v is not None for v in lv) <= 2) else (None,):
                    if not th and rp == "corey3" and sat != 0:
                        continue
                    yield dict(kind="limits", dims=(1, 1, 1), rp=rp, sat=sat, lv=lv, rk=kind, pvt="rv", days=[0.2, 1.0], depth=2)
    if not th:
        for rk in ("water", "gas"):
            for sat in (0, 6):
                for lv in itertools.product((None, 0.4, 0.9, 3.0), repeat=4):
                    if sum(v is not None for v in lv) <= 2:
                        yield dict(kind="limits", dims=(1, 1, 1), rp="corey", sat=sat, lv=lv, rk=rk, pvt="rv", days=[0.2, 1.0], depth=2)
    for rk in ("oil", "water", "gas", "liquid"):             # three and four limits at once on surface rates
        for lv in itertools.product((None, 0.4, 0.9, 3.0), repeat=4):
            if sum(v is not None for v in lv) > 2 and (th or 0.9 not in lv or 3.0 not in lv):
                yield dict(kind="limits", dims=(1, 1, 1), rp="corey", sat=0, lv=lv, rk=rk, pvt="rv", days=[0.2], depth=2)
    for lv in itertools.product((None, 0.4, 0.9), repeat=4):
        for ws in ("none", "wi", "gi"):
            for dims in [(2, 1, 1)] + ([(1, 1, 2), (3, 1, 1)] if th else []):
                yield dict(kind="limits", dims=dims, rp="corey", sat=0, lv=lv, rk=None, pvt="rv", ws=ws, days=[0.2], depth=3 if th else 2)
    # availability
    for rp in ("corey", "corey3"):
        for sat in range(7):
            for w in ("p", "iw", "ig"):
                for pvt in ("none", "plain", "rv"):
                    for q in (3.0, 60.0):
                        for scale in (1.0, 2.0):
                            for dims in [(1, 1, 1), (1, 2, 1)] + ([(1, 1, 2)] if th else []):
                                for rk in (None, "surface") if pvt != "none" else (None,):
                                    yield dict(kind="avail", dims=dims, rp=rp, sat=sat, w=w, pvt=pvt, q=q, scale=scale, rk=rk, days=[0.1, 2.0, 40.0], depth=2)
    # minimum bottom-hole pressure
    for rp in ("corey", "corey3"):
        for sat in ((0, 1, 2, 3, 6)):
            for pvt in ("none", "rv"):
                for q in (0.5, 3.0, 15.0):
                    for bm in (10.0, 17.0, 19.0, 19.9, 20.0, 20.1, 22.0):
                        for scale in (1.0, 0.3, 2.0):
                            for lim in ((None, "wopr", "liqr") if pvt == "rv" else (None,)):
                                for dims in [(1, 1, 1), (2, 1, 1)] if (th or scale == 1.0) else [(1, 1, 1)]:
                                    yield dict(kind="bmin", dims=dims, rp=rp, sat=sat, pvt=pvt, q=q, bm=bm, scale=scale, lim=lim, days=[0.05, 0.6], depth=3 if th else 2)


def run_case(c, r):
    dims = tuple(c["dims"])
    sat = SATS[c["rp"]][c["sat"]]
    het = dims != (1, 1, 1)
    pvt = family.PVTS[c["pvt"]]
    sim = dict(cg_tolerance=1e-8)
    if c.get("scale", 1.0) != 1.0:
        sim["global_rate_scale"] = c["scale"]
    room = sat[0] < 0.7 and sat[0] + sat[1] < 0.7
    fk = dict(P0=20e6, dP=2e5, sw=(sat[0], sat[0] + (0.04 if het and room else 0)), sg=(sat[1], sat[1] + (0.03 if het and room else 0)))
    k = (10.0, 60.0) if c["kind"] != "bmin" else (2.0, 20.0)
    comp = dict(c_oil=2e-2, c_water=2e-2, c_gas=5e-2, c_rock=5e-2)

    def mk(wells):
        return mm.model(dims, rp=c["rp"], fld="h" if het else "u", pvt=pvt, wells=wells, k=k, poro=het, sim=sim, fkw=fk, **comp)

    at = (0, 0, 0)
    if c["kind"] == "limits":
        q = 4.0
        kw = {}
        if c["rk"]:
            kw = dict(rate_type="surface", surface_phase=c["rk"])
            q = {"gas": 250.0, "water": 1.0}.get(c["rk"], 3.0)
        # unlimited surface rates at the initial state calibrate the limits, so that they bind or not as intended
        from ..spec import Spec
        M0 = mk([mm.well("P", "producer", at, "rate", q, **kw)])
        sp0 = Spec(M0)
        F = M0["fields"]
        arr = lambda key: np.asarray(F[key]).reshape(dims)
        d0 = sp0.well_flows(arr("P"), arr("sw"), arr("sg"), arr("P"), 1.0)[0]
        lim = {}
        for key, lv in zip(KEYS, c["lv"]):
            if lv is not None:
                lim[key] = lv * d0["surf"][SURF[key]] if d0["surf"][SURF[key]] > 0 else 0.1
        wells = [mm.well("P", "producer", at, "rate", q, limits=lim, **kw)]
        if c.get("ws") == "wi":
            wells.append(mm.well("I", "injector", tuple(d - 1 for d in dims), "rate", 2.0))
        elif c.get("ws") == "gi":
            wells.insert(0, mm.well("G", "injector", tuple(d - 1 for d in dims), "rate", 1.0, injected_phase="gas"))
    elif c["kind"] == "avail":
        kw = dict(rate_type="surface") if c["rk"] else {}
        if c["w"] == "ig":
            kw["injected_phase"] = "gas"
        q = c["q"] * (100.0 if (c["w"] == "ig" and c["rk"]) else 1.0)
        wells = [mm.well("W", "producer" if c["w"] == "p" else "injector", at, "rate", q, **kw)]
    else:
        lim = {}
        if c["lim"]:
            lim = {c["lim"]: 0.6}
        wells = [mm.well("P", "producer", at, "rate", c["q"], bhp_min=c["bm"], **(dict(limits=lim) if lim else {}))]
    M = mk(wells)

    def check(st, r):
        if not st.ok:
            r.count("failed_steps")
            if c["kind"] != "avail":
                r.bad(f"step failed, path={st.path}")
            return
        sp = st.spec
        # well flow alone never takes a cell beyond its saturation limits
        lo = 2e-6
        if (st.sw1 < sp.sw_cr - lo).any() or (st.sg1 < sp.sg_cr - lo).any() or (st.so1 < sp.so_r - lo).any():
            r.bad(f"saturation window left: sw {st.sw1.min():.7f} sg {st.sg1.min():.7f} so {st.so1.min():.7f}, path={st.path}")
        fl = st.flows()
        if any(d["amb"] for d in fl):
            r.skipped += 1
            return
        t = sp.transport(st.sw, st.sg, st.P1, fl, st.dt)
        solo = dims == (1, 1, 1) and len(fl) == 1 and (pvt is not None or wells[0]["type"] == "injector")
        rate = all(d["mode"] == "rate" for d in fl if d["inside"])
        free = sp.free(st.sw, st.sg, t).all()
        if not (free or (solo and rate)):
            r.count("cut")
            return
        r.count("compared")
        face_e = st.dt * 4e-7 * sum(float(np.abs(v).sum()) for v in t["face"].values())
        got = {}
        tolv = {}
        for ph, a, b in (("w", st.sw, st.sw1), ("g", st.sg, st.sg1)):
            got[ph] = float(((b - a) * sp.PV).sum())
            want = st.dt * sum(d[ph] for d in fl)
            tolv[ph] = 2e-6 * float(sp.PV.sum()) + face_e + st.dt * 2 * sum(d["e"] for d in fl)
            if abs(got[ph] - want) > tolv[ph]:
                ds = [dict(q=d["q"], choked=d["choked"], limited=d["limited"], mode=d["mode"]) for d in fl]
                r.bad(f"{dict(w='water', g='gas')[ph]}: reservoir gained {got[ph]:.6g} m3, limits and availability give {want:.6g} (allowance {tolv[ph]:.2g}) {ds}, path={st.path}")
        d = next(x for x in fl if x["well"].name in ("P", "W"))
        w = d["well"]
        r.count("choked" if d["choked"] else "limited" if d["limited"] else d["mode"])
        if w.type == "injector":
            return
        obj = next(x for x in st.sim.well_manager.get_wells() if x.name == w.name)
        if pvt is not None and w.ctype == "rate":
            # reported rates are the applied ones; limits hold for them
            for key, lim in w.limits.items():
                have = obj.last_surface_rates[SURF[key]]
                r.count("limit_checks")
                if have > lim * (1 + 1e-4) + 1e-9:
                    r.bad(f"limit {key}={lim:.6g} exceeded: {have:.6g} sm3/day, path={st.path}")
            if d["limited"]:
                # some limit binds exactly
                if not any(abs(obj.last_surface_rates[SURF[key]] - lim) <= 2e-3 * lim + 1e-6 for key, lim in w.limits.items()):
                    r.bad(f"throttled below every limit {w.limits}: {obj.last_surface_rates}, path={st.path}")
            te = 2e-5 * abs(d["q"]) + 4 * d["e"]
            if abs(obj.last_q_total - d["q"]) > te + 1e-12:
                r.bad(f"last_q_total {obj.last_q_total:.6g}, applied {d['q']:.6g}, path={st.path}")
        # limits and surface volumes from the saturation change alone, one cell
        if solo and pvt is not None and w.limits:
            B = sp.cell_pvt(st.P1, (0, 0, 0))
            vw, vg = -got["w"], -got["g"]
            up = dict(water=vw / B["Bw"])
            days = st.dt / 86400
            if "wlpr" in w.limits and up["water"] / days > w.limits["wlpr"] * 1.001 + tolv["w"] / days / B["Bw"]:
                r.bad(f"water: {up['water'] / days:.6g} sm3/day left the cell, limit {w.limits['wlpr']:.6g}, path={st.path}")
            fr = d["fr"]
            if fr["g"] > 1e-3:
                qo = vg / fr["g"] * fr["o"]
                gas = vg / B["Bg"] + qo * B["Rs"] / B["Bo"]
                slack = tolv["g"] / fr["g"] * (1 / B["Bg"] + B["Rs"] / B["Bo"]) / days
                if "wgpr" in w.limits and gas / days > w.limits["wgpr"] * 1.001 + slack:
                    r.bad(f"gas: {gas / days:.6g} sm3/day left the cell, limit {w.limits['wgpr']:.6g}, path={st.path}")
                oil = qo / B["Bo"] + vg * B["Rv"] / B["Bg"]
                slack = tolv["g"] / fr["g"] * (1 / B["Bo"] + B["Rv"] / B["Bg"]) / days
                if "wopr" in w.limits and oil / days > w.limits["wopr"] * 1.001 + slack:
                    r.bad(f"oil: {oil / days:.6g} sm3/day left the cell, limit {w.limits['wopr']:.6g}, path={st.path}")
        # availability: absence of one phase does not shut in the others
        if c["kind"] == "avail" and w.type == "producer":
            for ph, o in (("w", "g"), ("g", "w")):
                s = {"w": float(st.sw[w.cell]) - sp.sw_cr, "g": float(st.sg[w.cell]) - sp.sg_cr}
                if s[ph] <= 1e-7 and s[o] > 0.05 and d["fr"][o] > 1e-3:
                    r.count("absent")
                    want = min(abs(d["asked"]) * d["fr"][o] * st.dt, s[o] * sp.PV[w.cell])
                    if solo and -got[o] < want * 0.999 - tolv[o]:
                        r.bad(f"absence of {ph} cut production of {o}: {-got[o]:.6g} of {want:.6g} m3, path={st.path}")
        # pressure side of the bottom-hole switch
        if c["kind"] == "bmin":
            if d["mode"] == "bhp" or not (d["choked"] or d["limited"]):
                if not d["limited"]:
                    res, allow, amb, S = sp.pressure_residual(st.P, st.P1, st.sw, st.sg, st.dt, 1e-7, False)
                    r.count("pressure")
                    if ((np.abs(res) > allow) & ~amb).any():
                        i = int(np.argmax(np.abs(res) / allow))
                        r.bad(f"pressure equation: residual {res[i]:.5g} m3/s in cell {i} (allowance {allow[i]:.2g}), mode {d['mode']}, path={st.path}")

    explore(M, [d * 86400. for d in c["days"]], c["depth"], check, r)


def finish(tier, counters, cases):
    need = dict(compared=5000, choked=500, limited=1000, rate=500, bhp=300, limit_checks=2000, absent=50, pressure=300)
    low = {k: counters.get(k, 0) for k, v in need.items() if counters.get(k, 0) < v}
    if low:
        yield f"vacuous: {low}"
