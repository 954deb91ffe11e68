"""C15: capillary pressures match their derivatives and switch off cleanly."""
import copy, itertools
import numpy as np
import torch
from .. import hist, models as mm, family
from ..build import CPU, build, raw_state
from ..walk import explore
from simulator.reservoir import Reservoir
from simulator.fluid import Fluid

BOUND = dict(quick="saturation lattice of 1/60 plus end points and float neighbours x scale {0, 1, 3e4, 1e6} x exponent {0.5, 1, 1.5, 2, 3} x residuals {0, 0.1, 0.25}^2 x critical gas {0, 0.1}, both curves; executions of zero-scale models against models without the option on 5 grids x wells x PVT, depth 2, both solvers of saturation; all ordered pairs of questions to one object over look-alike saturation fields; power-law effect in executions is decided by C02-C04",
             thorough="lattice of 1/200, more exponents and residuals, depth 3")
RULE = "independent float64 power law; finite, non-negative, monotone, entry scale at the immobile end; derivative = slope of the curve inside the mobile range; zero scale = exact zero and bit-identical execution"


def cases(tier):
    th = tier == "thorough"
    for dims in [(4, 1, 1), (2, 3, 1), (2, 2, 2)]:
        yield dict(kind="hist", dims=dims)
    ex = [0.3, 0.5, 0.75, 1, 1.2, 1.5, 2, 2.5, 3, 4] if th else [0.5, 1, 1.5, 2, 3]
    rs = [0.0, 0.05, 0.1, 0.2, 0.25, 0.35] if th else [0.0, 0.1, 0.25]
    for swc, sor, sgc in itertools.product(rs, rs, (0.0, 0.1)):
        for sc in (0.0, 1.0, 3e4, 1e6):
            for e in ex:
                for fmt in (0, 1):
                    yield dict(kind="curve", swc=swc, sor=sor, sgc=sgc, scale=sc, exp=e, fmt=fmt, n=200 if th else 60)
    for dims in [(2, 1, 1), (1, 1, 3), (2, 2, 1), (2, 2, 2), (3, 1, 1)]:
        for ws in ("none", "wip", "mix"):
            for pvt in ("none", "rv"):
                for rp in ("corey", "stone"):
                    for which in ("ow", "og", "both", "flat", "owon", "ogon"):
                        yield dict(kind="off", dims=dims, ws=ws, pvt=pvt, rp=rp, which=which, depth=3 if th else 2)


def run_case(c, r):
    if c["kind"] == "hist":
        dims = tuple(c["dims"])
        cfg = dict(relative_permeability=dict(sw_cr=0.2, so_r=0.15, sg_cr=0.05), s_w=0.3, s_g=0.0, capillary_pressure=dict(pc_scale=3e4, pc_exponent=1.5), capillary_pressure_og=dict(pc_scale=2e4, pc_exponent=0.7))
        res = Reservoir(dict(dimensions=list(dims)), CPU)
        ops = {"pcow": lambda o, a: o.get_capillary_pressure(a), "pcog": lambda o, a: o.get_capillary_pressure_og(a), "dpcow": lambda o, a: o.get_capillary_pressure_derivative(a),
               "dpcog": lambda o, a: o.get_capillary_pressure_og_derivative(a), "alias": lambda o, a: [o.calc_capillary_pressure(a), o.calc_dpc_dsw(a)]}
        hist.run(lambda: Fluid(cfg, res, CPU), ops, hist.alike(mm.spread(dims, 0.22, 0.8), dims, 0.1, 0.9), torch.tensor, r, f"{c}")
        return
    if c["kind"] == "off":
        dims = tuple(c["dims"])
        kw = {}
        base = {}
        z = dict(pc_scale=0.0, pc_exponent=1.7)
        if c["which"] in ("ow", "both"):
            kw["capillary_pressure"] = z
        if c["which"] in ("og", "both"):
            kw["capillary_pressure_og"] = z
        if c["which"] == "flat":
            kw.update(z)
        if c["which"] == "owon":         # one on, the other off
            base["capillary_pressure"] = kw["capillary_pressure"] = dict(pc_scale=3e4)
            kw["capillary_pressure_og"] = z
        if c["which"] == "ogon":
            base["capillary_pressure_og"] = kw["capillary_pressure_og"] = dict(pc_scale=3e4)
            kw["capillary_pressure"] = z
        mk = lambda k: mm.model(dims, rp=c["rp"], pvt=family.PVTS[c["pvt"]], wells=family.wellsets(dims)[c["ws"]], **k)
        A, B = build(mk(kw)), build(mk(base))
        for days in (0.05, 0.5, 0.05)[:c["depth"]]:
            a, b = A.run_step(days * 86400), B.run_step(days * 86400)
            r.transitions += 2
            r.traces += 1
            r.state(*raw_state(A))
            r.count("off")
            if a != b or not all(np.array_equal(x, y) for x, y in zip(raw_state(A), raw_state(B))):
                r.bad(f"zero capillary scale differs from no capillary option: {c}")
                return
        return
    swc, sor = c["swc"], c["sor"]
    rng = 1 - swc - sor
    rp = dict(sw_cr=swc, so_r=sor, sg_cr=c["sgc"])
    par = dict(pc_scale=c["scale"], pc_exponent=c["exp"])
    cfg = dict(relative_permeability=rp, s_w=0.3, s_g=0.0)
    if c["fmt"]:
        cfg["capillary_pressure"] = par
    else:
        cfg.update(par)
    cfg["capillary_pressure_og"] = par
    fl = Fluid(cfg, Reservoir(dict(dimensions=[2, 1, 1]), CPU), CPU)
    nf = np.nextafter
    r.state(repr(sorted(par.items())), swc, sor, c["sgc"])
    for name, f, d, lo, hi in (("oil-water", fl.get_capillary_pressure, fl.get_capillary_pressure_derivative, swc, 1 - sor),
                               ("gas-oil", fl.get_capillary_pressure_og, fl.get_capillary_pressure_og_derivative, 0.0, rng)):
        pts = list(np.linspace(0, 1, c["n"] + 1))
        for e in (lo, hi):
            q = np.float32(e)
            pts += [q, nf(q, np.float32(2)), nf(q, np.float32(-1)), e + 1e-3, e - 1e-3, e + 1e-5, e - 1e-5]
        s = np.array(sorted(set(np.float32(x) for x in pts if -1e-3 <= x <= 1 + 1e-3)), dtype=np.float32)
        x = s.astype(np.float64)
        pc = f(torch.tensor(s)).numpy().astype(np.float64)
        dp = d(torch.tensor(s)).numpy().astype(np.float64)
        r.transitions += 2
        r.traces += len(s)
        r.count("points", len(s))
        what = f"{name} {cfg}"
        if c["scale"] == 0:
            r.count("zero")
            if (pc != 0).any() or (dp != 0).any() or pc.shape != x.shape:
                r.bad(f"zero scale gives a pressure or derivative: {what}")
            continue
        sn = np.clip((x - lo) / (hi - lo), 0, 1)
        base = 1 - sn + 1e-6
        want = c["scale"] * base ** (-c["exp"])
        rel = 1e-6 + c["exp"] * 5e-7 / (hi - lo) / base
        if not (np.isfinite(pc).all() and np.isfinite(dp).all()):
            r.bad(f"not finite: {what}")
            continue
        if (pc < 0).any():
            r.bad(f"negative capillary pressure: {what}")
        if (np.diff(pc) < -1e-6 * np.abs(pc[1:])).any():
            r.bad(f"not monotone: {what}")
        ok = rel < 0.3
        if (np.abs(pc - want)[ok] > (rel * want * 1.5)[ok]).any():
            i = int(np.argmax(np.where(ok, np.abs(pc - want) / (rel * want), 0)))
            r.bad(f"power law: pc({s[i]})={pc[i]} expected {want[i]}: {what}")
        ent = pc[x <= lo]
        if ent.size and (np.abs(ent - c["scale"]) > 1e-5 * c["scale"]).any():
            r.bad(f"entry pressure {ent} is not the configured scale {c['scale']}: {what}")
        # derivative
        inside = (x > lo + 1e-6) & (x < hi - 5e-3)
        h = 1e-5
        g = lambda y: c["scale"] * (1 - np.clip((y - lo) / (hi - lo), 0, 1) + 1e-6) ** (-c["exp"])
        inside &= (x - h > lo)
        sl = (g(x + h) - g(x - h)) / (2 * h)
        r.count("slopes", int(inside.sum()))
        relm = (5e-3 + rel * 4) * np.abs(sl)
        if (np.abs(dp - sl)[inside] > relm[inside]).any():
            i = int(np.argmax(np.where(inside, np.abs(dp - sl) - relm, -1)))
            r.bad(f"derivative at {s[i]} is {dp[i]}, slope {sl[i]}: {what}")
        # and against the slope of the implementation itself across lattice points
        mid = [(i, i + 1) for i in range(len(x) - 1) if x[i] > lo and x[i + 1] < lo + 0.8 * (hi - lo) and x[i + 1] - x[i] > 4e-3]
        for i, j in mid:
            sec = (pc[j] - pc[i]) / (x[j] - x[i])
            lo_d, hi_d = min(dp[i], dp[j]), max(dp[i], dp[j])
            if not (lo_d * (1 - 2e-3) <= sec <= hi_d * (1 + 2e-3)):
                r.bad(f"slope between {s[i]} and {s[j]} is {sec}, derivatives {dp[i]}, {dp[j]}: {what}")
                break
        if (dp < 0).any():
            r.bad(f"negative derivative: {what}")
        # aliases used by the simulator
    if not torch.equal(fl.calc_capillary_pressure(torch.tensor([0.3, 0.5])), fl.get_capillary_pressure(torch.tensor([0.3, 0.5]))):
        r.bad(f"alias disagrees: {cfg}")
    if not torch.equal(fl.calc_dpc_dsw(torch.tensor([0.3, 0.5])), fl.get_capillary_pressure_derivative(torch.tensor([0.3, 0.5]))):
        r.bad(f"alias disagrees: {cfg}")


def finish(tier, counters, cases):
    if counters.get("slopes", 0) < 10000 or counters.get("off", 0) < 300 or counters.get("zero", 0) < 50 or counters.get("histories", 0) < 1000:
        yield f"vacuous: {counters}"
