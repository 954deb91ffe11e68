"""C14: relative permeabilities are bounded, monotone and have the right endpoints."""
import itertools
import numpy as np
import torch
from .. import hist, models as mm
from ..build import CPU
from simulator.reservoir import Reservoir
from simulator.fluid import Fluid

BOUND = dict(quick="saturation lattice of 1/40 plus end points and their float neighbours (water x gas, all admissible and inadmissible pairs), parameter lattice: exponents {1,1.5,2,4}, residuals {0,0.1,0.25}, end points {1,0.6,0.3}, both models; tensor shapes 1-D and 3-D; every entry point; all ordered pairs of questions to one object over look-alike saturation fields",
             thorough="lattice of 1/100, exponents {1,1.2,1.5,2,2.5,3,4,6}, residuals {0,0.05,0.1,0.2,0.25,0.35}")
RULE = "independent float64 curves at every lattice point; bounds, monotonicity along adjacent lattice points in both directions, residual and end values, Stone II reduction, derivative = slope of the curve"
ASSUMPTIONS = ["admissible: residual saturations sum below 0.95, exponents >= 1, gas reduction of Stone II only for ko_end_g <= ko_end_w"]


def cases(tier):
    th = tier == "thorough"
    yield from histories()
    ex = [1, 1.2, 1.5, 2, 2.5, 3, 4, 6, 9] if th else [1, 1.5, 2, 4, 8]
    rs = [0.0, 0.05, 0.1, 0.2, 0.25, 0.35] if th else [0.0, 0.1, 0.25]
    for swc, sor, sgc in itertools.product(rs, rs, (0.0, 0.05, 0.15)):
        if swc + sor + sgc > 0.9:
            continue
        for nw, no in itertools.product(ex, ex):
            for e in (1.0, 0.6, 0.3):
                yield dict(kind="corey", swc=swc, sor=sor, sgc=sgc, nw=nw, no=no, ng=ex[(ex.index(nw) + ex.index(no)) % len(ex)], krw=e, krg=dict([(1.0, 0.8), (0.6, 1.0), (0.3, 0.5)])[e], th=th)
    for swc, sor, sgc in itertools.product(rs, rs, (0.0, 0.05, 0.15)):
        for now, nog in itertools.product(ex[:4] + ex[-1:], ex[:4] + ex[-1:]):
            for kow, kog in ((1.0, 1.0), (0.8, 0.8), (0.9, 0.5), (0.5, 0.9), (1.0, 0.7)):
                yield dict(kind="stone", swc=swc, sor=sor, sgc=sgc, nw=2, no=2, ng=2, now=now, nog=nog, kow=kow, kog=kog, krw=0.7, krg=0.9, th=th)


def histories():
    for kind in ("corey", "stone"):
        for dims in [(4, 1, 1), (2, 2, 2)]:
            yield dict(kind=kind, hist=True, dims=dims)


def run_history(c, r):
    dims = tuple(c["dims"])
    rp = dict(nw=2, no=3, ng=1.5, sw_cr=0.2, so_r=0.15, sg_cr=0.05, krw_end=0.7, krg_end=0.9)
    if c["kind"] == "stone":
        rp.update(model="stone2", now=2, nog=3, ko_end_w=0.9, ko_end_g=0.8)
    res = Reservoir(dict(dimensions=list(dims)), CPU)
    mk = lambda: Fluid(dict(relative_permeability=rp, s_w=0.3), res, CPU)
    sg = torch.tensor(np.asarray(mm.spread(dims, 0.02, 0.2)).reshape(dims), dtype=torch.float32)
    sw = torch.tensor(np.asarray(mm.spread(dims, 0.25, 0.5)).reshape(dims), dtype=torch.float32)

    def stored(o, a):
        o.s_g = a * 0.3
        return o.get_rel_perms(sw)
    ops = {"water": lambda o, a: o.calc_water_kr(a), "gas": lambda o, a: o.calc_gas_kr(a), "oil": lambda o, a: o.calc_oil_kr(a, sg), "oil (gas varies)": lambda o, a: o.calc_oil_kr(sw, a),
           "all": lambda o, a: o.get_rel_perms(a, sg), "all (gas varies)": lambda o, a: o.get_rel_perms(sw, a), "all (stored gas)": stored,
           "slopes": lambda o, a: [o.calc_dkrw_dsw(a), o.calc_dkrg_dsg(a)]}
    if c["kind"] == "corey":
        ops["slopes (joint)"] = lambda o, a: [o.calc_dkro_dsw(a), o.get_rel_perms_derivatives(a)]
    hist.run(mk, ops, hist.alike(mm.spread(dims, 0.22, 0.8), dims, 0.1, 0.9), torch.tensor, r, f"{c}")


def axis(lo, hi, n, extra):
    v = list(np.linspace(0, 1, n + 1)) + [x for x in extra]
    v = sorted(set(np.float32(x) for x in v if -0.001 <= x <= 1.001))
    out = []
    for x in v:
        out += [x]
    return np.array(out, dtype=np.float32)


def run_case(c, r):
    if "hist" in c:
        return run_history(c, r)
    rp = dict(nw=c["nw"], no=c["no"], ng=c["ng"], sw_cr=c["swc"], so_r=c["sor"], sg_cr=c["sgc"], krw_end=c["krw"], krg_end=c["krg"])
    if c["kind"] == "stone":
        rp.update(model="stone2", now=c["now"], nog=c["nog"], ko_end_w=c["kow"], ko_end_g=c["kog"])
    n = 100 if c["th"] else 40
    swc, sor, sgc = c["swc"], c["sor"], c["sgc"]
    nf = np.nextafter
    ends = []
    for e in (swc, 1 - sor, sgc, 1 - swc - sor, sgc + (1 - swc - sor - sgc)):
        f = np.float32(e)
        ends += [f, nf(f, np.float32(2)), nf(f, np.float32(-1)), f + np.float32(1e-3), f - np.float32(1e-3)]
    sw = axis(0, 1, n, ends)
    sg = axis(0, 1, n if c["kind"] == "stone" else n, ends)
    res = Reservoir(dict(dimensions=[len(sw), 1, 1]), CPU)
    fl = Fluid(dict(relative_permeability=rp, s_w=0.3), res, CPU)
    W, Gs = torch.tensor(sw), torch.tensor(sg)
    sw6, sg6 = sw.astype(np.float64), sg.astype(np.float64)
    rng = 1 - swc - sor
    npy = lambda t: t.detach().numpy().astype(np.float64)
    r.transitions += 4
    r.traces += len(sw) + len(sg)
    r.count("points", len(sw) + len(sg))
    r.state(repr(sorted(rp.items())))
    tol = 3e-6
    # ---- water -------------------------------------------------------------------------------
    krw = npy(fl.calc_water_kr(W))
    want = c["krw"] * np.clip((sw6 - swc) / rng, 0, 1) ** c["nw"]
    e = tol + 4e-7 * c["nw"] / rng
    if (np.abs(krw - want) > e).any():
        i = int(np.argmax(np.abs(krw - want)))
        r.bad(f"water curve: kr({sw[i]})={krw[i]} expected {want[i]}: {rp}")
    if (krw < 0).any() or (krw > c["krw"] * (1 + 1e-6)).any() or not np.isfinite(krw).all():
        r.bad(f"water out of bounds: {krw.min()}..{krw.max()}: {rp}")
    if (np.diff(krw) < -1e-7).any():
        r.bad(f"water not monotone: {rp}")
    if (krw[sw6 <= swc] > 1e-12).any():
        r.bad(f"water mobile at its residual value: {rp}")
    if abs(npy(fl.calc_water_kr(torch.tensor([1 - sor], dtype=torch.float32)))[0] - c["krw"]) > 1e-5 * c["nw"] / rng:
        r.bad(f"water endpoint not reached: {rp}")
    # ---- gas ---------------------------------------------------------------------------------
    krg = npy(fl.calc_gas_kr(Gs))
    want = c["krg"] * np.clip((sg6 - sgc) / (rng - sgc), 0, 1) ** c["ng"]
    e = tol + 4e-7 * c["ng"] / (rng - sgc)
    if (np.abs(krg - want) > e).any():
        i = int(np.argmax(np.abs(krg - want)))
        r.bad(f"gas curve: kr({sg[i]})={krg[i]} expected {want[i]}: {rp}")
    if (krg < 0).any() or (krg > c["krg"] * (1 + 1e-6)).any() or not np.isfinite(krg).all():
        r.bad(f"gas out of bounds: {krg.min()}..{krg.max()}: {rp}")
    if (np.diff(krg) < -1e-7).any():
        r.bad(f"gas not monotone: {rp}")
    if (krg[sg.astype(np.float32) <= np.float32(sgc)] > 1e-12).any():
        r.bad(f"gas mobile at its critical value: {rp}")
    if abs(npy(fl.calc_gas_kr(torch.tensor([rng], dtype=torch.float32)))[0] - c["krg"]) > 1e-5 * c["ng"] / (rng - sgc):
        r.bad(f"gas endpoint not reached: {rp}")
    # ---- oil ---------------------------------------------------------------------------------
    SW, SG = np.meshgrid(sw, sg, indexing="ij")
    kro = npy(fl.calc_oil_kr(torch.tensor(SW), torch.tensor(SG)))
    SW6, SG6 = SW.astype(np.float64), SG.astype(np.float64)
    r.traces += SW.size
    r.count("oil_points", SW.size)
    swn = np.clip((SW6 - swc) / rng, 0, 1)
    if c["kind"] == "corey":
        want = (1 - swn) ** c["no"]
        end = 1.0
    else:
        sgn = np.clip((SG6 - sgc) / (1 - sgc - sor), 0, 1)
        kow, kog = c["kow"] * (1 - swn) ** c["now"], c["kog"] * (1 - sgn) ** c["nog"]
        want = np.maximum(kow + kog - min(c["kow"], c["kog"]), 0)
        end = max(c["kow"], c["kog"])
    mx = max(c["no"], c.get("now", 1), c.get("nog", 1))
    e = tol + 4e-7 * mx / rng
    if (np.abs(kro - want) > e).any():
        i = np.unravel_index(int(np.argmax(np.abs(kro - want))), kro.shape)
        r.bad(f"oil curve: kr({SW[i]}, {SG[i]})={kro[i]} expected {want[i]}: {rp}")
    if (kro < 0).any() or (kro > end * (1 + 1e-6)).any() or not np.isfinite(kro).all():
        r.bad(f"oil out of bounds: {kro.min()}..{kro.max()}: {rp}")
    if (np.diff(kro, axis=0) > 2e-6).any():
        r.bad(f"oil increases with water saturation: {rp}")
    if (np.diff(kro, axis=1) > 2e-6).any():
        r.bad(f"oil increases with gas saturation: {rp}")
    full = kro[sw6 >= np.float32(1 - sor) + 1e-6]
    lim = 1e-6 if c["kind"] == "corey" else max(0.0, c["kog"] - min(c["kow"], c["kog"])) + 1e-6
    if full.size and (full > lim + 4e-6 * mx / rng).any():
        r.bad(f"oil mobile at its residual value: {full.max()}: {rp}")
    first = kro[sw6 <= swc][:, 0] if (sw6 <= swc).any() else np.array([])
    top = 1.0 if c["kind"] == "corey" else c["kow"] + c["kog"] - min(c["kow"], c["kog"])
    if first.size and (np.abs(first - top) > 2e-6).any():
        r.bad(f"oil endpoint not reached: {first} expected {top}: {rp}")
    if c["kind"] == "stone" and c["kog"] <= c["kow"]:
        z = npy(fl.calc_oil_kr(W, torch.zeros_like(W)))
        ow = c["kow"] * (1 - np.clip((sw6 - swc) / rng, 0, 1)) ** c["now"]
        r.count("reduction")
        if (np.abs(z - ow) > e).any():
            r.bad(f"Stone II without gas is not the oil-water curve: {rp}")
    # ---- combined entry point, stored gas saturation, shapes ---------------------------------------
    k = min(len(sw), len(sg))
    a, b = W[:k], Gs[:k].flip(0)
    o1, w1, g1 = fl.get_rel_perms(a, b)
    if not (torch.equal(o1, fl.calc_oil_kr(a, b)) and torch.equal(w1, fl.calc_water_kr(a)) and torch.equal(g1, fl.calc_gas_kr(b))):
        r.bad(f"get_rel_perms disagrees with the single curves: {rp}")
    W3 = W.reshape(-1, 1, 1)
    fl.s_g = torch.tensor(np.resize(sg, len(sw))).reshape(-1, 1, 1)
    o2, w2, g2 = fl.get_rel_perms(W3)
    if not (torch.allclose(o2, fl.calc_oil_kr(W3, fl.s_g)) and torch.equal(w2.reshape(-1), fl.calc_water_kr(W)) and torch.equal(g2, fl.calc_gas_kr(fl.s_g))):
        r.bad(f"get_rel_perms without gas argument does not use the current gas saturation: {rp}")
    # ---- derivatives -----------------------------------------------------------------------------
    inside = (sw6 > swc + 2e-3) & (sw6 < 1 - sor - 2e-3)
    gin = (sg6 > sgc + 2e-3) & (sg6 < sgc + (rng - sgc) - 2e-3)
    h = 1e-4
    def slope(f, x):
        return (f(x + h) - f(x - h)) / (2 * h)
    fw = lambda x: c["krw"] * np.clip((x - swc) / rng, 0, 1) ** c["nw"]
    fo = lambda x: (1 - np.clip((x - swc) / rng, 0, 1)) ** c["no"]
    fg = lambda x: c["krg"] * np.clip((x - sgc) / (rng - sgc), 0, 1) ** c["ng"]
    dw, dg = npy(fl.calc_dkrw_dsw(W)), npy(fl.calc_dkrg_dsg(Gs))
    both = [("water", dw, fw, sw6, inside), ("gas", dg, fg, sg6, gin)]
    if c["kind"] == "corey":
        do = npy(fl.calc_dkro_dsw(W))
        d2o, d2w = (npy(x) for x in fl.get_rel_perms_derivatives(W))
        both += [("oil", do, fo, sw6, inside), ("oil (joint)", d2o, fo, sw6, inside), ("water (joint)", d2w, fw, sw6, inside)]
    for name, got, f, x, m in both:
        s = slope(f, x)
        t = 1e-3 * np.abs(s) + 3e-4 + 3e-4 / min(rng, rng - sgc)
        r.count("slopes", int(m.sum()))
        if not np.isfinite(got).all():
            r.bad(f"{name} derivative not finite: {rp}")
        if (np.abs(got - s)[m] > t[m]).any():
            i = int(np.argmax(np.where(m, np.abs(got - s) - t, -1)))
            r.bad(f"{name} derivative at {x[i]} is {got[i]}, slope {s[i]}: {rp}")
        # flat parts have zero slope
        lo, hi = (swc, 1 - sor) if "gas" not in name else (sgc, rng)
        flat = (x < lo - 1e-4) | (x > hi + 1e-4)
        if "joint" not in name and (np.abs(got[flat]) > 1e-6).any():
            r.bad(f"{name} derivative not zero on the flat part: {rp}")


def finish(tier, counters, cases):
    if counters.get("slopes", 0) < 50000 or counters.get("oil_points", 0) < 500000 or counters.get("reduction", 0) < 100 or counters.get("histories", 0) < 10000:
        yield f"vacuous: {counters}"
