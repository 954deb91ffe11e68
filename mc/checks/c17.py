"""C17: generated PVT tables are physical and usable."""
import contextlib, io, itertools, json, os, sys, tempfile
import numpy as np
import torch
from .. import env, models as mm
from ..build import CPU, build, state
from simulator.reservoir import Reservoir
from simulator.fluid import Fluid
from simulator.pvt import PVTTable
from simulator import pvt_generator as gen

BOUND = dict(quick="pressure ranges x number of nodes {2,3,7,50,201} x bubble points below, at, inside (on and off nodes) and above the range x API {10,30,35,60,140} x gas gravity {0.55,0.7,1.2,3}; save/load through a file and through the command line with every option given or defaulted; one simulation step per table family member",
             thorough="more ranges, nodes, bubble points")
RULE = "ranges, ordering, signs, monotonicity below/above the bubble point, continuity at the bubble point, exact round trip, positive compressibility and a successful step"
ASSUMPTIONS = ["admissible: 0 < p_min < p_max, at least two nodes, positive bubble point"]
RANGES = [(5.0, 60.0), (0.1, 40.0), (1.0, 3.0), (10.0, 150.0), (20.0, 21.0)]


def bubbles(a, b, th):
    m = [a * 0.5, a, (a + b) / 2, a + (b - a) * 0.37, b, b * 1.5]
    if th:
        m += [a + (b - a) * x for x in (0.01, 0.1, 0.25, 0.75, 0.9, 0.99)] + [a * 0.01, b * 10]
    return m


def cases(tier):
    th = tier == "thorough"
    for a, b in RANGES + ([(0.5, 5.0), (2.0, 100.0), (0.01, 500.0), (99.0, 101.0)] if th else []):
        for n in (2, 3, 7, 50, 201) + ((4, 5, 10, 25, 100) if th else ()):
            for pb in bubbles(a, b, th):
                yield dict(kind="gen", a=a, b=b, n=n, pb=pb)
    opts = ("p-min", "p-max", "n", "temp", "api", "gas-sg", "salinity", "pb")
    for k in range(len(opts) + 1):
        for om in itertools.combinations(opts, k):
            yield dict(kind="cli", give=om)


APIS, SGS = (10.0, 30.0, 35.0, 60.0, 140.0), (0.55, 0.7, 1.2, 3.0)


def check_table(t, a, b, n, pb, r, what):
    P = t["pressure_MPa"]
    if len(P) != n or abs(P[0] - a) > 1e-9 * b or abs(P[-1] - b) > 1e-9 * b:
        r.bad(f"range {P[0]}..{P[-1]} with {len(P)} nodes: {what}")
    if any(y <= x for x, y in zip(P, P[1:])):
        r.bad(f"pressures not increasing: {what}")
    for k in ("Bo", "Bw", "Bg", "mu_o_cP", "mu_w_cP", "mu_g_cP", "Rs_m3m3", "Rv_m3m3"):
        if len(t[k]) != len(P) or not all(np.isfinite(t[k])):
            r.bad(f"{k} has {len(t[k])} values or is not finite: {what}")
            return
        if k.startswith(("B", "mu")) and min(t[k]) <= 0:
            r.bad(f"{k} not positive: {what}")
        if k.startswith("R") and min(t[k]) < 0:
            r.bad(f"{k} negative: {what}")
    for i, q in enumerate(P):
        # gas is compressed and far thinner than the liquids, whose factors stay near one
        if q >= 1.0 and not (t["Bg"][i] < 0.5 * min(t["Bo"][i], t["Bw"][i])):
            r.bad(f"gas formation factor {t['Bg'][i]} at {q} MPa: {what}")
        if not (t["mu_g_cP"][i] < 0.5 * min(t["mu_o_cP"][i], t["mu_w_cP"][i])):
            r.bad(f"gas as viscous as a liquid at {q} MPa: {what}")
    e = 1e-12
    for i in range(len(P) - 1):
        p, q = P[i], P[i + 1]
        d = lambda k: t[k][i + 1] - t[k][i]
        if d("Bg") > e or (2.0 <= p and q <= 100.0 and d("Bg") >= 0):
            r.bad(f"gas formation factor does not fall from {p} to {q}: {what}")
        if d("Bw") > e:
            r.bad(f"water formation factor rises from {p} to {q}: {what}")
        if d("mu_g_cP") < -e:
            r.bad(f"gas viscosity falls from {p} to {q}: {what}")
        if q <= pb:
            r.count("below")
            if d("Rs_m3m3") <= 0:
                r.bad(f"dissolved gas does not rise below the bubble point, {p} to {q}: {what}")
            if d("mu_o_cP") > e or (q - p > 1e-6 * pb and d("mu_o_cP") >= 0):
                r.bad(f"oil viscosity does not fall below the bubble point, {p} to {q}: {what}")
        elif p >= pb:
            r.count("above")
            if abs(d("Rs_m3m3")) > 1e-9:
                r.bad(f"dissolved gas changes above the bubble point, {p} to {q}: {what}")
            if d("mu_o_cP") < -e:
                r.bad(f"oil viscosity falls above the bubble point, {p} to {q}: {what}")
            if d("Bo") > e or (q - p > 1e-6 and d("Bo") >= 0):
                r.bad(f"oil formation factor does not fall above the bubble point, {p} to {q}: {what}")
        else:
            r.count("across")
            if d("Rs_m3m3") < -e:
                r.bad(f"dissolved gas falls across the bubble point, {p} to {q}: {what}")


def params(a, b, n, pb, api, sg):
    return gen.PVTParams(p_min_mpa=a, p_max_mpa=b, n_points=n, bubble_point_mpa=pb, oil_api=api, gas_sg=sg)


def run_case(c, r):
    if c["kind"] == "gen":
        a, b, n, pb = c["a"], c["b"], c["n"], c["pb"]
        d = tempfile.mkdtemp(dir=env.SCRATCH)
        for api in APIS:
            for sg in SGS:
                t = gen.generate_black_oil_pvt(params(a, b, n, pb, api, sg))
                what = f"{c} api={api} gas_sg={sg}"
                r.transitions += 1
                r.traces += 1
                r.state(json.dumps(t["pressure_MPa"]), json.dumps(t["Rs_m3m3"]), pb)
                check_table(t, a, b, n, pb, r, what)
                if json.dumps(gen.generate_black_oil_pvt(params(a, b, n, pb, api, sg))) != json.dumps(t):
                    r.bad(f"not reproducible: {what}")
                if r.viol:
                    return
            # round trip
            p = os.path.join(d, "t.json")
            with open(p, "w") as f:
                json.dump(t, f, indent=2)
            T = PVTTable(p)
            r.count("roundtrip")
            ev = T.eval(np.array(t["pressure_MPa"]))
            for k, col in dict(Bo="Bo", Bw="Bw", Bg="Bg", mu_o="mu_o_cP", mu_w="mu_w_cP", mu_g="mu_g_cP", Rs="Rs_m3m3", Rv="Rv_m3m3").items():
                if not np.array_equal(ev[k], np.array(t[col])):
                    r.bad(f"{k} changed by saving and loading: {c} api={api}")
        # continuity at the bubble point: tables that straddle it ever more closely
        if a < pb < b:
            h = 1e-6 * pb
            t = gen.generate_black_oil_pvt(params(pb - h, pb + h, 3, pb, 35.0, 0.7))
            r.count("continuity")
            for k in ("Bo", "mu_o_cP", "Rs_m3m3", "Bg", "Bw", "mu_g_cP", "Rv_m3m3"):
                v = t[k]
                if max(v) - min(v) > 1e-4 * max(abs(max(v)), 1e-12):
                    r.bad(f"{k} jumps at the bubble point: {v}: {c}")
            # and in the requested range itself, with nodes so close that a jump stands out from the neighbouring increments
            n = 20001
            t = gen.generate_black_oil_pvt(params(a, b, n, pb, 35.0, 0.7))
            i = max(j for j, x in enumerate(t["pressure_MPa"]) if x <= pb)
            if 2 <= i < n - 3:
                r.count("fine")
                for k in ("Bo", "mu_o_cP", "Rs_m3m3", "Bg", "Bw", "mu_g_cP", "mu_w_cP", "Rv_m3m3"):
                    v = np.diff(t[k])
                    if abs(v[i]) > 4 * max(abs(v[i - 1]), abs(v[i + 1]), abs(v[i - 2])) + 1e-9 * abs(t[k][i]):
                        r.bad(f"{k} jumps at the bubble point: {t[k][i - 1:i + 3]}: {c}")
        # usable
        res = Reservoir(dict(dimensions=[2, 1, 1]), CPU)
        f = Fluid(dict(pvt_path=p), res, CPU)
        if f.pvt is None:
            r.bad(f"table cannot be used by a fluid: {c}")
            return
        t0 = T.P.tolist()
        mid = [(x + y) / 2 for x, y in zip(t0, t0[1:])]
        for q in [x for x in (mid + t0) if x > 0][:80]:
            for sw, sgas in ((0.3, 0.1), (0.2, 0.0), (0.7, 0.05)):
                pt = torch.full((2, 1, 1), q * 1e6)
                ct = f.calc_total_compressibility(pt, torch.full((2, 1, 1), sw), torch.full((2, 1, 1), sgas))
                r.count("compressibility")
                if not (ct > -2e-12).all():
                    r.bad(f"negative total compressibility {ct.flatten().tolist()} at {q} MPa: {c}")
                    return
        P0 = (a + b) / 2
        M = mm.model((2, 1, 1), rp="corey", fld="h", wells=[mm.well("P", "producer", (1, 0, 0), "bhp", P0 * 0.95), mm.well("G", "injector", (0, 0, 0), "rate", 0.5, injected_phase="gas")],
                     fkw=dict(P0=P0 * 1e6, dP=P0 * 1e4), c_rock=1e-3)
        M["fluid"]["pvt_path"] = p
        sim = build(M)
        ok = sim.run_step(0.1 * 86400)
        r.transitions += 1
        r.count("steps")
        if not ok or not all(np.isfinite(x).all() for x in state(sim)):
            r.bad(f"a simulation step with the table failed: {c}")
        return
    vals = {"p-min": 2.0, "p-max": 45.0, "n": 9, "temp": 60.0, "api": 22.0, "gas-sg": 1.1, "salinity": 5.0, "pb": 15.0}
    attr = {"p-min": "p_min_mpa", "p-max": "p_max_mpa", "n": "n_points", "temp": "temperature_c", "api": "oil_api", "gas-sg": "gas_sg", "salinity": "salinity_gpl", "pb": "bubble_point_mpa"}
    d = tempfile.mkdtemp(dir=env.SCRATCH)
    cwd = os.getcwd()
    for n, out in enumerate((os.path.join(d, "a.json"), os.path.join(d, "x", "y", "b.json"), "rel.json")):
        os.chdir(d)
        argv = ["pvt_generator", "--out", out]
        for k in c["give"]:
            argv += ["--" + k, str(vals[k])]
        old = sys.argv
        sys.argv = argv
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                gen.main()
        finally:
            sys.argv = old
        want = gen.generate_black_oil_pvt(gen.PVTParams(**{attr[k]: vals[k] for k in c["give"]}))
        got = json.load(open(out))
        T = PVTTable(out)
        os.chdir(cwd)
        r.transitions += 1
        r.traces += 1
        r.state(repr(c["give"]), n)
        r.count("cli")
        if got != json.loads(json.dumps(want)):
            r.bad(f"command line table differs from the generated one: options {c['give']}")
        if not np.array_equal(T.P, np.array(want["pressure_MPa"])) or not np.array_equal(T.Rs, np.array(want["Rs_m3m3"])):
            r.bad(f"loaded table differs from the generated one: options {c['give']}")


def finish(tier, counters, cases):
    need = dict(below=1000, above=1000, across=50, roundtrip=200, cli=500, continuity=20, steps=100)
    low = {k: counters.get(k, 0) for k, v in need.items() if counters.get(k, 0) < v}
    if low:
        yield f"vacuous: {low}"
