"""C10: a time step is all or nothing, and success means the whole step was simulated."""
import copy, itertools
import numpy as np
from .. import models as mm, family
from ..build import build, raw_state
from ..spec import Spec

BOUND = dict(quick="fault injector: every pattern of 7 pressure-solver outcomes (fail/succeed per attempted solve) x attempt budgets {1,2,3,5} x cut factors {2,3,1.5} x 6 models (CG float32/float64, AMG with CG fallback, PVT), three consecutive steps; natural failures: iteration limits 0..6 x tolerances x step lengths x budgets on chains of 4..9 cells; runs of failures up to the budget, failures late in a 26-step history",
             thorough="patterns of 9 outcomes, budgets {1,2,3,4,5,7}, more models")
RULE = "failed step: fields and trackers bit-identical to before and the next step equals that of a simulator that never failed; successful step: injected volume equals rate times the full step"
ASSUMPTIONS = ["the fault injector makes the configured iteration limit read as 0 for the scheduled solves; schedules that the code cannot see (limit read elsewhere) degenerate to natural runs"]


class Params(dict):
    """Solver parameters whose iteration limit drops to zero for scheduled reads."""
    def __init__(self, d, schedule=()):
        super().__init__(d)
        self.schedule = list(schedule)
        self.used = 0
        self.faults = 0

    def _limit(self, v):
        self.used += 1
        if self.schedule and self.schedule.pop(0):
            self.faults += 1
            return 0
        return v

    def get(self, k, default=None):
        v = super().get(k, default)
        return self._limit(v) if k == "cg_max_iter" else v

    def __getitem__(self, k):
        v = super().__getitem__(k)
        return self._limit(v) if k == "cg_max_iter" else v

    def __deepcopy__(self, memo):
        return Params(copy.deepcopy(dict(self)), list(self.schedule))


def base_models():
    W = mm.well
    out = {}
    gi = lambda c, **k: W("G", "injector", c, "rate", 0.7, injected_phase="gas", **k)
    wi = lambda c, **k: W("I", "injector", c, "rate", 1.3, **k)
    pr = lambda c, **k: W("P", "producer", c, "rate", 1.1, **k)
    out["one"] = dict(dims=(1, 1, 1), wells=[wi((0, 0, 0)), gi((0, 0, 0))], pvt=None, sim={})
    out["pair32"] = dict(dims=(2, 1, 1), wells=[wi((0, 0, 0)), gi((1, 0, 0))], pvt="rv", sim=dict(pressure_float64=False))
    out["box"] = dict(dims=(2, 3, 1), wells=[wi((0, 0, 0)), gi((1, 2, 0))], pvt="plain", sim={})
    out["prod"] = dict(dims=(3, 1, 1), wells=[wi((0, 0, 0)), pr((2, 0, 0))], pvt="rv", sim={})
    out["amg"] = dict(dims=(3, 2, 1), wells=[wi((0, 0, 0)), gi((2, 1, 0))], pvt="rv", sim=dict(pressure_solver="amg", amg=dict(max_cycles=1, tol=1e-30)))
    out["bhp"] = dict(dims=(2, 2, 1), wells=[W("P", "producer", (1, 1, 0), "bhp", 18.0), gi((0, 0, 0))], pvt="rv", sim={})
    return out


def cases(tier):
    th = tier == "thorough"
    L = 9 if th else 7
    for m in base_models():
        for budget in ((1, 2, 3, 4, 5, 7) if th else (1, 2, 3, 5)):
            for fac in (2.0, 3.0, 1.5) if th or budget in (2, 5) else (2.0,):
                for head in range(0, 1 << (L - 4)):
                    yield dict(kind="fault", m=m, budget=budget, fac=fac, L=L, head=head)
    # long runs of failures, then one more failure anywhere among the shorter steps
    for m in base_models():
        for budget in (8, 12) if th else (8,):
            for fac in (2.0, 1.5):
                for k in range(budget):
                    yield dict(kind="deep", m=m, budget=budget, fac=fac, k=k, pos=range(0, 40, 1 if th else 3) if fac == 2.0 else (0, 5, 17))
        # a failing step late in a long history
        for late in range(0, 24, 1 if th else 3):
            yield dict(kind="late", m=m, late=late, n=26)
    for n in ((4, 6, 8, 9, 12) if th else (4, 6, 9)):
        for it in range(7):
            for f64 in (True, False):
                for tol in (1e-4, 1e-6, 1e-8):
                    for budget in (1, 2, 4, 6):
                        yield dict(kind="natural", n=n, it=it, f64=f64, tol=tol, budget=budget)


def snap(sim):
    return raw_state(sim), copy.deepcopy(sim.mass_balance), copy.deepcopy(sim.component_balance)


def same(a, b):
    return all(np.array_equal(x, y) for x, y in zip(a[0], b[0])) and a[1] == b[1] and a[2] == b[2]


def step_check(sim, M, spec, dt, r, tag):
    """One step under faults, judged; returns its outcome."""
    before = snap(sim)
    twin = copy.deepcopy(sim)
    twin.sim_params = Params(dict(M["sim_ok"]))
    ok = sim.run_step(dt)
    after = snap(sim)
    r.transitions += 1
    r.traces += 1
    r.state(*after[0], str(after[1]), bool(ok))
    if ok is not True and ok is not False:
        r.bad(f"outcome {ok!r} is neither True nor False, {tag}")
    if not ok:
        r.count("failed")
        if not same(before, after):
            what = [n for n, x, y in zip(("pressure", "s_w", "s_g", "s_o"), before[0], after[0]) if not np.array_equal(x, y)]
            if before[1] != after[1]:
                what.append("mass_balance")
            if before[2] != after[2]:
                what.append("component_balance")
            r.bad(f"failed step changed {what}: {tag}")
        # later step as if the failure had not happened
        probe = copy.deepcopy(sim)
        probe.sim_params = Params(dict(M["sim_ok"]))
        a, b = probe.run_step(dt), twin.run_step(dt)
        r.transitions += 2
        if a != b or not same(snap(probe), snap(twin)):
            r.bad(f"step after a failure differs from the step without it: {tag}")
        return ok
    r.count("succeeded")
    P0, sw0, sg0, so0 = (x.astype(np.float64) for x in before[0])
    P1, sw1, sg1, so1 = (x.astype(np.float64) for x in after[0])
    if not all(np.isfinite(x).all() for x in (P1, sw1, sg1, so1)):
        r.bad(f"not finite after a successful step: {tag}")
        return ok
    prod = any(w.type == "producer" for w in spec.wells)
    for ph, a, b in (("water", sw0, sw1), ("gas", sg0, sg1)):
        if prod and not any(w.type == "injector" and w.phase == ph for w in spec.wells):
            continue
        want = sum(w.value for w in spec.wells if w.type == "injector" and w.phase == ph) / 86400 * dt
        lo = hi = want
        if prod:
            # a producer takes at most its whole rate of this phase
            for w in spec.wells:
                if w.type == "producer" and w.ctype == "rate":
                    lo -= w.value / 86400 * dt
                elif w.type == "producer":
                    lo = -np.inf
        got = float(((b - a) * spec.PV).sum())
        n = 32
        tol = 2e-6 * float(spec.PV.sum()) * n ** 0.5 + 1e-5 * abs(want)
        if not prod:
            # internal face flows leave rounding only
            tol += 4e-7 * float((spec.PV * np.abs(b - a)).sum()) * n
        if lo == -np.inf:
            continue
        r.count("volumes")
        if not (lo - tol <= got <= hi + tol):
            r.bad(f"{ph}: successful step of {dt:.0f} s added {got:.6g} m3, wells deliver between {lo:.6g} and {hi:.6g}: {tag}")
    if sum(after[1][p]["in"] - before[1][p]["in"] + after[1][p]["out"] - before[1][p]["out"] for p in after[1]) <= 0 and spec.wells:
        r.bad(f"successful step recorded nothing in the balances: {tag}")
    return ok


def run_case(c, r):
    if c["kind"] in ("fault", "deep", "late"):
        b = base_models()[c["m"]]
        sim = dict(cg_max_iter=2000, cg_tolerance=1e-6, max_time_step_attempts=c.get("budget", 3), dt_reduction_factor=c.get("fac", 2.0))
        sim.update(b["sim"])
        dims = b["dims"]
        M = mm.model(dims, fld="h" if mm.ncell(dims) > 1 else "u", wells=b["wells"], pvt=family.PVTS[b["pvt"] or "none"], k=(20., 200.), sim=sim,
                     c_oil=1e-3, c_gas=1e-2, c_rock=0.05)
        M["sim_ok"] = dict(M["sim"])
        spec = Spec(M)
        base = build(M)
        if c["kind"] == "deep":
            for pos in [None] + list(c["pos"]):
                s = copy.deepcopy(base)
                p = Params(dict(M["sim"]), [1] * c["k"] + ([] if pos is None else [0] * pos + [1]))
                s.sim_params = p
                for n, days in enumerate((0.4, 0.1)):
                    step_check(s, M, spec, days * 86400, r, f"{c['k']} failures, one more after {pos} solves, step {n} of {days} days, {dict(c, pos=0)}")
                r.count("deep")
                if r.viol:
                    return
            return
        if c["kind"] == "late":
            for fails in ([1], [1, 1], [0, 1], [1, 0, 1], [1, 1, 1], [1, 0, 1, 1]):
                s = copy.deepcopy(base)
                for n in range(c["n"]):
                    s.sim_params = Params(dict(M["sim"]), fails if n == c["late"] else ())
                    step_check(s, M, spec, 0.01 * 86400, r, f"outcomes {fails} in step {c['late']}, at step {n}, {c}")
                r.count("late")
                if r.viol:
                    return
            return
        for low in range(16):
            bits = [(c["head"] >> i) & 1 for i in range(c["L"] - 4)] + [(low >> i) & 1 for i in range(4)]
            s = copy.deepcopy(base)
            p = Params(dict(M["sim"]), bits)
            s.sim_params = p
            for n, days in enumerate((0.4, 0.1, 0.4)):
                ok = step_check(s, M, spec, days * 86400, r, f"outcomes {bits} ({p.used} solves so far), step {n} of {days} days, {c}")
            r.count("faults", p.faults)
            if p.faults and ok:
                r.count("recovered")
            if len(r.viol) >= 3:
                return
        return
    n = c["n"]
    dims = (n, 1, 1)
    for k in ((20., 200.), (0.5, 900.)):
        wells = [mm.well("I", "injector", (0, 0, 0), "rate", 1.3), mm.well("G", "injector", (n - 1, 0, 0), "rate", 0.7, injected_phase="gas")]
        sim = dict(cg_max_iter=c["it"], cg_tolerance=c["tol"], max_time_step_attempts=c["budget"], dt_reduction_factor=2.0, pressure_float64=c["f64"])
        M = mm.model(dims, fld="h", wells=wells, k=k, sim=sim, c_oil=1e-3, c_gas=1e-2, c_rock=0.05)
        M["sim_ok"] = dict(M["sim"], cg_max_iter=3000)
        spec = Spec(M)
        for days in ((0.001, 0.02), (0.02, 0.2), (0.5, 0.001, 0.5), (0.3,)):
            s = build(M)
            for d in days:
                ok = step_check(s, M, spec, d * 86400, r, f"natural {c} k={k} days={days}")
                r.count("nat_ok" if ok else "nat_fail")
            if len(r.viol) >= 3:
                return


def finish(tier, counters, cases):
    if counters.get("nat_ok", 0) < 500 or counters.get("nat_fail", 0) < 500 or counters.get("volumes", 0) < 1000 or counters.get("deep", 0) < 100 or counters.get("late", 0) < 100:
        yield f"vacuous: {counters}"
