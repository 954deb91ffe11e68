"""C12: balance trackers report what really happened."""
import itertools
import numpy as np
from .. import models as mm, family
from ..walk import explore
from ..build import build

BOUND = dict(quick="grids <= 2x2x2, 12 well sets plus surface-rate/limit/bhp_min/backflow/shared-cell sets, 3 PVT, 2 relperm models, step sequences to depth 2 over {0.02, 0.3, 20} days; 14-step histories, variants (also with the debug log on) and shipped configurations",
             thorough="all grids <= 12 cells, all capillary options, 3 relperm models, depth 3")
RULE = "mass in - out per phase equals the change of PV*S*rho (current densities) recomputed from the fields; component in/out equal the surface volumes of the applied well flows; accumulation = in - out; never decreasing"


def more_wellsets(dims):
    W = mm.well
    cs = mm.cells(dims)
    a, b = cs[0], cs[-1]
    return dict(
        surf=[W("P", "producer", b, "rate", 1.5, rate_type="surface", surface_phase="oil"), W("G", "injector", a, "rate", 60.0, rate_type="surface", injected_phase="gas")],
        surf2=[W("P", "producer", b, "rate", 60.0, rate_type="surface", surface_phase="gas"), W("I", "injector", a, "rate", 1.0, rate_type="surface")],
        lim=[W("P", "producer", b, "rate", 3.0, limits=dict(wopr=0.8, wgpr=80.0)), W("P2", "producer", a, "rate", 2.0, limits=dict(liqr=0.5))],
        share=[W("P", "producer", b, "rate", 1.0), W("P2", "producer", b, "bhp", 19.0), W("G", "injector", b, "rate", 0.5, injected_phase="gas"), W("G2", "injector", b, "bhp", 21.0, injected_phase="gas")],
        back=[W("P", "producer", b, "bhp", 22.0), W("G", "injector", a, "bhp", 18.0, injected_phase="gas")],
        bmin2=[W("P", "producer", b, "rate", 8.0, bhp_min=19.5, limits=dict(wopr=5.0)), W("P2", "producer", a, "rate", 1.0, bhp_min=25.0)],
        out=[W("P", "producer", tuple(dims), "rate", 3.0), W("P2", "producer", a, "rate", 1.0)],
        cuts=[W("P", "producer", b, "rate", 40.0), W("G", "injector", a, "rate", 30.0, injected_phase="gas")],
    )


def sets(dims):
    return dict(family.wellsets(dims), **more_wellsets(dims))


def cases(tier):
    th = tier == "thorough"
    grids = mm.GRIDS1 + mm.GRIDS2 + [(3, 1, 1), (2, 2, 1)] + ([(2, 2, 2), (1, 2, 2), (3, 2, 2), (1, 1, 3), (2, 3, 1)] if th else [])
    for dims in grids:
        for ws in sets(dims):
            for rp in (("corey", "corey3", "stone") if th else ("corey", "corey3")):
                for pvt in ("none", "plain", "rv"):
                    for cap in ((0, 1, 2, 3) if th else (0, 3)):
                        if not th and cap == 3 and (pvt == "plain" or rp == "corey3"):
                            continue
                        for scale in (1.0, 0.5) if pvt == "rv" else (1.0,):
                            yield dict(dims=dims, ws=ws, rp=rp, pvt=pvt, cap=cap, scale=scale, days=[0.02, 0.3, 20.0], depth=3 if th else 2)

    # long histories: everything is counted once, also in later steps
    for dims in [(2, 1, 1), (2, 2, 1), (1, 1, 3)]:
        for ws in sets(dims):
            for pvt in ("none", "plain", "rv"):
                yield dict(dims=dims, ws=ws, rp="corey", pvt=pvt, cap=0, scale=1.0, days=[0.05], depth=40 if th else 14)
    for v in family.variants(("wip", "mix", "bhpi"), th):
        yield dict(v, days=family.days(v, 0.02, 0.3), depth=2)
    for name, S in family.SHIPPED.items():                         # the example configurations of the repository
        for het in (False, True):
            for pvt in ("none", "rv"):
                yield dict(shipped=name, dims=S["dims"], het=het, pvt=pvt, days=[S["dt"] / 4, S["dt"]], depth=3 if th else 2)


def run_case(c, r):
    dims = tuple(c["dims"])
    base = dict(c)
    if "shipped" in c:
        M = family.shipped(c)
        M["pvt"] = family.PVTS[c["pvt"]]
    elif "var" in c:
        M = family.variant(c)
    else:
        M = mm.model(dims, rp=c["rp"], pvt=family.PVTS[c["pvt"]], fld="h" if mm.ncell(dims) > 1 else "u", wells=sets(dims)[c["ws"]],
                     sim=dict(global_rate_scale=c["scale"]) if c["scale"] != 1 else {}, c_rock=0.01, **family.CAPS[c["cap"]])

    def check(st, r):
        sp = st.spec
        if not st.ok:
            r.count("failed")
            if st.mb0 != st.mb1 or st.cb0 != st.cb1:
                r.bad(f"failed step changed the trackers, path={st.path}")
            return
        r.count("steps")
        rho = sp.rho(st.P1)
        for ph, a, b, x in (("water", st.sw, st.sw1, "w"), ("oil", st.so, st.so1, "o"), ("gas", st.sg, st.sg1, "g")):
            din, dout = st.mb1[ph]["in"] - st.mb0[ph]["in"], st.mb1[ph]["out"] - st.mb0[ph]["out"]
            if din < 0 or dout < 0:
                r.bad(f"{ph} mass tracker decreased: in {din:.6g} out {dout:.6g}, path={st.path}")
            m = (b - a) * sp.PV * rho[x]
            # float32 density: rounding acts on both of its terms
            big_rho = sp.rho_sc[x] * (1 + sp.comp[x] * np.abs(st.P1)) if sp.pvt is None else np.abs(rho[x])
            scale = float((sp.PV * big_rho).sum())
            tol = 4e-7 * scale + 2e-6 * float(np.abs((b - a) * sp.PV * big_rho).sum()) + 1e-9 * (st.mb1[ph]["in"] + st.mb1[ph]["out"])
            if abs((din - dout) - float(m.sum())) > tol:
                r.bad(f"{ph} mass in-out {din - dout:.8g} kg, content changed by {float(m.sum()):.8g} kg (allowance {tol:.2g}), path={st.path}")
            pos, neg = float(m[m > 0].sum()), -float(m[m < 0].sum())
            if abs(float(m.sum())) > 20 * tol:
                r.count("mass_discriminating")
            # never more than the gains and losses of the cells together account for
            if din > pos + tol or dout > neg + tol:
                r.bad(f"{ph} mass in {din:.8g} out {dout:.8g} kg exceed the gains {pos:.8g} / losses {neg:.8g} of the cells, path={st.path}")
        want = dict(oil=[0.0, 0.0], gas=[0.0, 0.0])
        fl = st.flows()
        amb = any(d["amb"] or d.get("near_choke") for d in fl)
        tolc = dict(oil=0.0, gas=0.0)
        for d in fl:
            if not d["inside"]:
                continue
            for ph in ("oil", "gas"):
                want[ph][0] += d["comp"][f"{ph}_in"]
                want[ph][1] += d["comp"][f"{ph}_out"]
            if d["q"]:
                rel = d["e"] / abs(d["q"]) * 4 + 1e-4
                for ph in ("oil", "gas"):
                    tolc[ph] += rel * (d["comp"][f"{ph}_in"] + d["comp"][f"{ph}_out"])
            if sp.pvt is not None:
                B = sp.cell_pvt(st.P1, d["well"].cell)
                tolc["oil"] += st.dt * 2 * d["e"] * (1 / B["Bo"] + B["Rv"] / B["Bg"])
                tolc["gas"] += st.dt * 2 * d["e"] * (1 / B["Bg"] + B["Rs"] / B["Bo"])
        for ph in ("oil", "gas"):
            d = {k: st.cb1[ph][k] - st.cb0[ph][k] for k in ("in", "out", "accum")}
            big = 1e-9 * (abs(st.cb1[ph]["in"]) + abs(st.cb1[ph]["out"]))
            if abs(st.cb1[ph]["accum"] - (st.cb1[ph]["in"] - st.cb1[ph]["out"])) > big + 1e-9:
                r.bad(f"{ph} accumulation {st.cb1[ph]['accum']:.8g} is not in-out {st.cb1[ph]['in'] - st.cb1[ph]['out']:.8g}, path={st.path}")
            if d["in"] < -big or d["out"] < -big:
                r.bad(f"{ph} component tracker decreased {d}, path={st.path}")
            if sp.pvt is None:
                if any(abs(v) > 0 for v in d.values()):
                    r.bad(f"{ph} component tracker moved without tables {d}, path={st.path}")
                continue
            if amb:
                r.skipped += 1
                continue
            for n, k in enumerate(("in", "out")):
                r.count("components")
                if want[ph][n] > 0:
                    r.count("nonzero_" + k)
                if abs(d[k] - want[ph][n]) > tolc[ph] + big + 1e-9:
                    r.bad(f"{ph} component {k} grew by {d[k]:.8g} sm3, wells carried {want[ph][n]:.8g} (allowance {tolc[ph]:.2g}), path={st.path}")

    explore(M, [d * 86400. for d in c["days"]], c["depth"], check, r)


def finish(tier, counters, cases):
    need = dict(steps=5000, components=8000, nonzero_in=500, nonzero_out=2000, mass_discriminating=2000)
    low = {k: counters.get(k, 0) for k, v in need.items() if counters.get(k, 0) < v}
    if low:
        yield f"vacuous: {low}"
