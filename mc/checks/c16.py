"""C16: PVT look-ups and the properties derived from them are consistent everywhere."""
import copy, itertools, json, os
import numpy as np
import torch
from .. import env, hist, models as mm, family
from ..build import CPU, pvt_file, build, state, set_state
from simulator.reservoir import Reservoir
from simulator.fluid import Fluid
from simulator.pvt import PVTTable

BOUND = dict(quick="tables with 1..6 nodes (3 spacings x 4 column shapes, with/without vaporised oil, zero and large) x pressures at, just beside, between and beyond every node x array shapes 0..3-D; fluid properties on 3 grids at every pair of pressures; all malformed variants of every column; all ordered pairs of look-ups on one object over an alphabet of look-alike arrays, and the same array changed in place",
             thorough="tables to 9 nodes, more fractions and grids")
RULE = "look-up = tabulated value / linear interpolation / constant extrapolation computed independently; densities, viscosities, compressibility = black-oil formulas of those values; both density routes agree; malformed tables raise"
ASSUMPTIONS = ["total compressibility is compared with the central difference of half-width 0.1 MPa that the scheme documents, on tables whose oil formation factor falls with pressure or not alike"]
COLS = ("Bo", "Bw", "Bg", "mu_o_cP", "mu_w_cP", "mu_g_cP", "Rs_m3m3")
KEY = dict(Bo="Bo", Bw="Bw", Bg="Bg", mu_o="mu_o_cP", mu_w="mu_w_cP", mu_g="mu_g_cP", Rs="Rs_m3m3", Rv="Rv_m3m3")


def table(n, spacing, shape, rv):
    P = dict(even=[3.0 + 6.0 * i for i in range(n)], tight=[10.0 + 0.15 * i for i in range(n)], wide=[0.1 + 4.0 * i * i for i in range(n)])[spacing]
    f = [i / max(n - 1, 1) for i in range(n)]
    hump = dict(mono=lambda x: x, hump=lambda x: 4 * x * (1 - x), flat=lambda x: 0.0, zig=lambda x: (round(x * 7) % 2) * 0.9 + x * 0.1)[shape]
    t = dict(pressure_MPa=P, Bo=[1.25 - 0.15 * hump(x) for x in f], Bw=[1.04 - 0.03 * hump(x) for x in f], Bg=[0.09 / (1 + 20 * x) for x in f],
             mu_o_cP=[2.5 - 1.2 * hump(x) for x in f], mu_w_cP=[0.5 + 0.1 * hump(x) for x in f], mu_g_cP=[0.012 + 0.015 * x for x in f], Rs_m3m3=[5 + 100 * hump(x) for x in f])
    if rv == "small":
        t["Rv_m3m3"] = [1e-4 * x for x in f]
    elif rv == "big":
        t["Rv_m3m3"] = [0.001 + 0.01 * hump(x) for x in f]
    return t


def lookup(P, V, p):
    if p <= P[0]:
        return V[0]
    if p >= P[-1]:
        return V[-1]
    for i in range(len(P) - 1):
        if P[i] <= p <= P[i + 1]:
            return V[i] + (V[i + 1] - V[i]) * (p - P[i]) / (P[i + 1] - P[i])


def probes(P, th):
    out = [0.0, P[0] - 1.0, P[0] - 1e-9, P[-1] + 1e-9, P[-1] + 1.0, P[-1] * 10 + 5, -3.0]
    for i, p in enumerate(P):
        out += [p, p * (1 + 1e-12), p * (1 - 1e-12), p + 0.05, p - 0.05]
        if i + 1 < len(P):
            d = P[i + 1] - p
            out += [p + d * x for x in ((0.1, 0.25, 1 / 3, 0.5, 0.75, 0.9) if th else (0.25, 0.5, 0.9))]
    return out


def cases(tier):
    th = tier == "thorough"
    for n in range(1, 10 if th else 7):
        for sp in ("even", "tight", "wide"):
            for sh in ("mono", "hump", "flat", "zig"):
                for rv in (None, "small", "big"):
                    yield dict(kind="table", n=n, spacing=sp, shape=sh, rv=rv, th=th)
                    for dims in [(2, 1, 1), (2, 3, 1), (2, 3, 2)] + ([(1, 1, 4), (3, 2, 4)] if th else []):
                        yield dict(kind="fluid", n=n, spacing=sp, shape=sh, rv=rv, dims=dims, th=th)
    # long tables
    for n in (12, 25, 64) + ((200,) if th else ()):
        for sp in ("even", "tight", "wide"):
            for sh in ("mono", "hump"):
                yield dict(kind="table", n=n, spacing=sp, shape=sh, rv="big", th=th)
        for sp in ("even", "tight"):
            yield dict(kind="fluid", n=n, spacing=sp, shape="mono", rv="big", dims=(2, 3, 1), th=th)
    # histories of look-ups on one object
    for n in (2, 4, 6):
        for rv in (None, "big"):
            for dims in [(4, 1, 1), (2, 3, 1), (2, 2, 2)]:
                yield dict(kind="hist", n=n, spacing="even", shape="mono" if n == 2 else "hump", rv=rv, dims=dims)
    for dims in [(2, 1, 1), (2, 3, 2)]:
        for v in range(4):
            yield dict(kind="notable", dims=dims, v=v)
    yield dict(kind="bad")


def close(a, b, rel=1e-6, ab=0.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= rel * np.abs(b) + ab))


def load(t, name="x"):
    return PVTTable(pvt_file(t))


def run_case(c, r):
    if c["kind"] == "bad":
        good = table(4, "even", "mono", "small")
        def attempt(t, what, want=False):
            r.transitions += 1
            r.state(json.dumps(t, sort_keys=True))
            try:
                load(t)
                ok = True
            except Exception:
                ok = False
            r.count("good" if want else "bad")
            if ok != want:
                r.bad(f"table with {what} was {'accepted' if ok else 'rejected'}")
        attempt(good, "nothing wrong", True)
        for col in COLS + ("Rv_m3m3", "pressure_MPa"):
            for d in (-1, 1, -4, 3):
                t = copy.deepcopy(good)
                t[col] = t[col][:d] if d < 0 and d > -4 else [] if d == -4 else t[col] + [t[col][-1] + 7.0] * d
                attempt(t, f"{col} of length {len(t[col])} instead of 4")
            t = copy.deepcopy(good)
            t.pop(col)
            attempt(t, f"no {col}", col == "Rv_m3m3")
        for perm in itertools.permutations(range(4)):
            t = copy.deepcopy(good)
            for col in t:
                t[col] = [t[col][i] for i in perm]
            attempt(t, f"pressure order {perm}", perm == (0, 1, 2, 3))
        for i in range(3):
            t = copy.deepcopy(good)
            t["pressure_MPa"][i + 1] = t["pressure_MPa"][i]
            attempt(t, f"repeated pressure node {i}")
        for bad in ({}, dict(pressure_MPa=[]), [1, 2]):
            attempt(bad, f"content {bad}")
        t = {k: [] for k in COLS + ("pressure_MPa",)}
        attempt(t, "no nodes")
        return
    if c["kind"] == "hist":
        t = table(c["n"], c["spacing"], c["shape"], c["rv"])
        dims = tuple(c["dims"])
        hi = t["pressure_MPa"][-1]
        args = hist.alike(mm.spread(dims, 3.4, hi * 0.97), dims, 3.01, hi * 1.2)
        args.append(args[0].reshape(-1).copy())
        hist.run(lambda: load(t), {"eval": lambda o, a: o.eval(a)}, args, lambda a: a, r, f"look-up {c}")
        hist.run(lambda: load(t), {"eval": lambda o, a: o.eval(a)}, args, lambda a: a.astype(np.float64), r, f"look-up {c}")
        args = [a * np.float32(1e6) for a in args[:-1]]
        res = Reservoir(dict(dimensions=list(dims)), CPU)
        cfg = dict(pvt_path=pvt_file(t), rho_gas=150.0, rho_oil=820.0, rho_water=1050.0, c_rock=2e-4, s_w=0.3, s_g=0.1)

        def current(o, a):
            o.pressure = a
            return [o.rho_w, o.rho_o, o.rho_g, o.mu_w, o.mu_o, o.mu_g]
        W = torch.full(dims, 0.3)
        ops = {"densities": lambda o, a: [o.calc_water_density(a), o.calc_oil_density(a), o.calc_gas_density(a)], "current properties": current,
               "Bo": lambda o, a: o._eval_pvt(a, "Bo") if hasattr(o, "_eval_pvt") else [], "Bg": lambda o, a: o._eval_pvt(a, "Bg") if hasattr(o, "_eval_pvt") else [],
               "compressibility": lambda o, a: o.calc_total_compressibility(a, W, W / 3)}
        hist.run(lambda: Fluid(cfg, res, CPU), ops, args[:9], torch.tensor, r, f"fluid {c}")
        return
    if c["kind"] == "notable":
        cfg = [dict(), dict(c_oil=1e-3, c_water=4e-4, c_gas=1e-2), dict(rho_oil=700., rho_gas=150.0, rho_water=1100.0), dict(mu_oil=3.0, mu_gas=0.1, c_gas=0.05, c_rock=1e-3)][c["v"]]
        res = Reservoir(dict(dimensions=list(c["dims"])), CPU)
        f = Fluid(cfg, res, CPU)
        g = lambda k, d: cfg.get(k, d)
        for P0 in (0.1e6, 5e6, 20e6, 60e6):
            P = torch.tensor(np.asarray(mm.spread(tuple(c["dims"]), P0 * 0.9, P0 * 1.1)).reshape(c["dims"]), dtype=torch.float32)
            f.pressure = P
            p = P.numpy().astype(float)
            r.transitions += 1
            r.traces += 1
            r.state("nt", c["v"], P0, str(c["dims"]))
            for name, fn, prop, rho, cc in (("water", f.calc_water_density, "rho_w", g("rho_water", 1000.), g("c_water", 1e-5)), ("oil", f.calc_oil_density, "rho_o", g("rho_oil", 850.), g("c_oil", 1e-5)),
                                            ("gas", f.calc_gas_density, "rho_g", g("rho_gas", 1.0), g("c_gas", 1e-3))):
                want = rho * (1 + cc * 1e-6 * (p - 1e5))
                if not close(fn(P).numpy(), want) or not close(getattr(f, prop).numpy(), want):
                    r.bad(f"{name} density without tables: {cfg} at {P0}")
            for name, v in (("mu_w", g("mu_water", 0.5)), ("mu_o", g("mu_oil", 1.0)), ("mu_g", g("mu_gas", 0.02))):
                if not close(np.asarray(getattr(f, name)), v * 1e-3):
                    r.bad(f"viscosity {name} without tables: {cfg}")
        r.count("notable")
        return
    t = table(c["n"], c["spacing"], c["shape"], c["rv"])
    P = t["pressure_MPa"]
    T = load(t)
    val = lambda k, p: lookup(P, t.get(KEY[k], [0.0] * len(P)), p)
    if c["kind"] == "table":
        pr = probes(P, c["th"])
        r.state(json.dumps(t, sort_keys=True))
        want = {k: np.array([val(k, p) for p in pr]) for k in KEY}
        n = len(pr)
        def shapes():
            a = np.array(pr)
            yield a, want
            yield a.reshape(n, 1, 1), {k: v.reshape(n, 1, 1) for k, v in want.items()}
            yield a[::-1].reshape(1, n), {k: v[::-1].reshape(1, n) for k, v in want.items()}
            for i in range(0, n, 5):
                yield np.array(pr[i]), {k: v[i].reshape(()) for k, v in want.items()}
            yield a.astype(np.float32), None
            m = n // 2
            yield np.array(pr[:2 * m]).reshape(2, m), {k: v[:2 * m].reshape(2, m) for k, v in want.items()}
        for a, w in shapes():
            got = T.eval(a)
            r.transitions += 1
            if w is None:
                a64 = a.astype(np.float64)
                w = {k: np.array([val(k, float(p)) for p in a64]) for k in KEY}
            for k in KEY:
                r.traces += a.size
                r.count("lookups", a.size)
                if k not in got or not close(got[k], w[k], 1e-9, 1e-14):
                    i = int(np.argmax(np.abs(np.ravel(got[k]) - np.ravel(w[k])))) if k in got else 0
                    r.bad(f"{k} at {np.ravel(a)[i]} MPa is {np.ravel(got[k])[i] if k in got else None}, table gives {np.ravel(w[k])[i]}: {c}")
                    break
        return
    # ---- fluid properties --------------------------------------------------------------------
    dims = tuple(c["dims"])
    res = Reservoir(dict(dimensions=list(dims)), CPU)
    for rg in (1.0, 150.0):
        cfg = dict(pvt_path=pvt_file(t), rho_gas=rg, rho_oil=820.0, rho_water=1050.0, c_rock=2e-4, s_w=0.3, s_g=0.1)
        f = Fluid(cfg, res, CPU)
        if f.pvt is None:
            r.bad(f"table was not taken: {c}")
            return
        n = mm.ncell(dims)
        pr = [p for p in probes(P, False) if p > 0]
        for start in range(0, len(pr), max(1, n // 2)):
            sel = [pr[(start + i * (1 + start % 3)) % len(pr)] for i in range(n)]
            Pt = torch.tensor(np.array(sel).reshape(dims) * 1e6, dtype=torch.float32)
            other = torch.tensor(np.array(sel[::-1]).reshape(dims) * 1e6 * 0.97, dtype=torch.float32)
            f.pressure = Pt
            r.transitions += 1
            r.state(Pt.numpy(), json.dumps(t))
            for arg, same in ((Pt, True), (other, False)):
                p = arg.numpy().astype(np.float64) / 1e6
                V = {k: np.vectorize(lambda q: val(k, q))(p) for k in KEY}
                slopes = {k: max([abs((t.get(KEY[k], [0.0] * len(P))[i + 1] - t.get(KEY[k], [0.0] * len(P))[i]) / (P[i + 1] - P[i])) for i in range(len(P) - 1)] + [0.0]) for k in KEY}
                e = {k: 3e-7 * np.abs(V[k]) + slopes[k] * p * 2e-7 for k in KEY}
                rho = dict(w=1050.0 / V["Bw"], o=(820.0 + V["Rs"] * rg) / V["Bo"], g=(rg + V["Rv"] * 820.0) / V["Bg"])
                er = dict(w=rho["w"] * (1e-6 + e["Bw"] / V["Bw"]), o=rho["o"] * (1e-6 + e["Bo"] / V["Bo"]) + e["Rs"] * rg / V["Bo"], g=rho["g"] * (1e-6 + e["Bg"] / V["Bg"]) + e["Rv"] * 820 / V["Bg"])
                for x, fn, prop in (("w", f.calc_water_density, "rho_w"), ("o", f.calc_oil_density, "rho_o"), ("g", f.calc_gas_density, "rho_g")):
                    got = fn(arg).numpy().astype(np.float64)
                    r.traces += n
                    r.count("densities", n)
                    if got.shape != dims or (np.abs(got - rho[x]) > er[x]).any():
                        r.bad(f"density {x} {got.ravel()[:3]} expected {rho[x].ravel()[:3]} at {p.ravel()[:3]} MPa: {c} rho_gas={rg}")
                    if same and not np.array_equal(getattr(f, prop).numpy().astype(np.float64), got):
                        d = np.abs(getattr(f, prop).numpy() - got).max()
                        if d > 1e-6 * np.abs(got).max():
                            r.bad(f"density {x}: the two ways of asking differ by {d}: {c} rho_gas={rg}")
                if same:
                    for k in ("mu_w", "mu_o", "mu_g"):
                        got = getattr(f, k).numpy().astype(np.float64)
                        if got.shape != dims or (np.abs(got - V[k] * 1e-3) > e[k] * 1e-3 + 1e-12).any():
                            r.bad(f"viscosity {k} {got.ravel()[:3]} expected {V[k].ravel()[:3] * 1e-3}: {c}")
                # compressibility
                for sw, sg in ((0.3, 0.1), (0.6, 0.0), (0.2, 0.5)):
                    W, Gm = torch.full(dims, sw), torch.full(dims, sg)
                    got = f.calc_total_compressibility(arg, W, Gm).numpy().astype(np.float64)
                    want, ew = np.full(dims, 2e-10), np.full(dims, 1e-16)
                    for B, s in (("Bw", sw), ("Bo", 1 - sw - sg), ("Bg", sg)):
                        up, dn = (np.vectorize(lambda q: val(B, q))(p + s2 * 0.1) for s2 in (1, -1))
                        want = want + s * -(up - dn) / 0.2e6 / V[B]
                        ew = ew + 2 * (2e-7 * V[B] + slopes[B] * p * 2e-7) / 0.2e6 / V[B] + 1e-6 * np.abs(up - dn) / 0.2e6 / V[B]
                    r.count("compressibility", n)
                    if got.shape != dims or (np.abs(got - want) > ew).any():
                        i = int(np.argmax(np.abs(got - want) / ew))
                        r.bad(f"total compressibility {got.ravel()[i]} expected {want.ravel()[i]} at {p.ravel()[i]} MPa sw={sw} sg={sg} (allowance {ew.ravel()[i]}): {c}")


def finish(tier, counters, cases):
    need = dict(lookups=50000, densities=20000, compressibility=20000, bad=50, notable=8, histories=1000)
    low = {k: counters.get(k, 0) for k, v in need.items() if counters.get(k, 0) < v}
    if low:
        yield f"vacuous: {low}"
