"""C24: a fully implicit step reports convergence truthfully and fails cleanly."""
import itertools
import numpy as np
import torch
from .. import models as mm, family
from ..build import build, raw_state

BOUND = dict(quick="fault injector at the linear solve: every pattern of {solved, singular, not-a-number} over the first 3 solves x attempt budgets {1,2,3,5} x cut factors {2,3,1.5} x 5 models x two consecutive steps, and every pattern of 4 poor solves (none, short, reversed, enormous update) and what follows them; iterations stuck at 12 residuals from 0.003 to 5 on 6 grids; failures of the sparse solver on a 506-cell grid; and every pattern of 8 attempt outcomes (fail/succeed, fields disturbed either way) x the same budgets and factors; real steps: 6 grids x wells {none, injector, producer, bhp pair} x relperm/gas/capillary variants x uniform/heterogeneous start x dt {0.01, 0.3, 1, 10, 100 d} x histories of up to 3 steps; long scripted runs of failures",
             thorough="solve patterns of length 5, attempt patterns of length 12, all pairs of step lengths as histories, 9 grids")
RULE = "False: pressure and saturations bit-identical to before the call; True: last Newton residual within the acceptance bound and the whole step length advanced; always: s_w+s_o+s_g=1, connate/residual limits, 0<P finite; uniform quiescent: True, unchanged"
ASSUMPTIONS = ["the Newton residual is observed as the right-hand side handed to torch.linalg.solve (or SciPy spsolve on large grids)",
               "attempt outcomes are scripted by replacing the Newton step of one simulator object; if the code no longer has a method of that name those schedules are left out and only the solve seam is explored"]
TOL = 20e-3


POOR = {3: 0.0, 4: 0.3, 5: -1.0, 6: 1e12}     # solves that return, but a useless, short, reversed or enormous update


class Seam:
    """torch.linalg.solve under a schedule: 0 solve, 1 raise (singular), 2 not-a-number, 3.. a poor solution."""
    def __init__(self, schedule=(), rest=0):
        self.schedule, self.rest, self.norms, self.calls, self.faults = list(schedule), rest, [], 0, 0

    def __enter__(self):
        self.real = torch.linalg.solve
        torch.linalg.solve = self
        return self

    def __exit__(self, *a):
        torch.linalg.solve = self.real

    def __call__(self, A, B, **k):
        self.calls += 1
        self.norms.append(float(torch.linalg.vector_norm(B.double())))
        what = self.schedule.pop(0) if self.schedule else self.rest
        if what == 1:
            self.faults += 1
            raise torch._C._LinAlgError("torch.linalg.solve: The solver failed because the input matrix is singular.")
        if what == 2:
            self.faults += 1
            return torch.full_like(B, float("nan"))
        x = self.real(A, B, **k)
        if what in POOR:
            self.faults += 1
            x = x * POOR[what]
        return x


class Sci(Seam):
    """The SciPy path of large systems: 0 solve, 1 raise (the code's iterative solver takes over), 2 not-a-number, 7 raise and
    the iterative solver does not converge either."""
    def __enter__(self):
        import scipy.sparse.linalg as L
        import simulator.simulation as sm
        self.iter = 0
        self.keep = [(m, n, getattr(m, n)) for m in (L, sm) for n in ("spsolve", "bicgstab") if hasattr(m, n)]
        direct, iterative = L.spsolve, L.bicgstab

        def spsolve(A, b, *a, **k):
            self.calls += 1
            self.norms.append(float(np.linalg.norm(np.asarray(b, dtype=np.float64))))
            what = self.schedule.pop(0) if self.schedule else self.rest
            self.iter = what
            if what:
                self.faults += 1
            if what in (1, 7):
                raise RuntimeError("Factor is exactly singular")
            if what == 2:
                return np.full_like(b, np.nan)
            return direct(A, b, *a, **k)

        def bicgstab(*a, **k):
            x, info = iterative(*a, **k)
            return (x * 0.1, 1000) if self.iter == 7 else (x, info)
        for m, n, _ in self.keep:
            setattr(m, n, spsolve if n == "spsolve" else bicgstab)
        return self

    def __exit__(self, *a):
        for m, n, f in self.keep:
            setattr(m, n, f)


class Creep(Seam):
    """A linear solve that always answers with the update that leaves a residual near target, improving by ratio at every call."""
    def __init__(self, sim, target, ratio):
        super().__init__()
        f = sim.fluid
        self.target, self.ratio, self.d = target, ratio, (f.prev_sw - f.s_w).reshape(-1).clone()

    def __call__(self, A, B, **k):
        self.calls += 1
        self.norms.append(float(torch.linalg.vector_norm(B.double())))
        x = torch.zeros_like(B)
        eps = min(self.target * self.ratio ** self.calls / max(self.norms[0], 1e-30), 1.0)
        x.view(-1)[self.d.numel():] = self.d.to(B) * (1.0 - eps) / 0.7
        return x


def fim(dims, wells=(), fld="h", sim=None, rp="corey", gas=False, pc=0.0, quiet=False, **kw):
    s = dict(solver_type="fully_implicit", max_time_step_attempts=3, dt_reduction_factor=2.0)
    s.update(sim or {})
    M = mm.model(dims, fld=fld, wells=wells, k=(20., 200.), rp=rp, sim=s, **kw)
    n = int(np.prod(dims))
    rng = np.arange(n)
    F = M["fields"]
    fl = M["fluid"]
    swc, sor = fl.get("relative_permeability", {}).get("sw_cr", fl.get("sw_cr", 0.2)), 0.2
    if quiet:
        F["P"] = [2.0e7] * n
        F["sw"] = [0.35] * n
    else:
        F["P"] = list(2.0e7 + 1e5 * ((rng * 7) % 5))
        F["sw"] = list(0.25 + 0.05 * ((rng * 3) % 4))
    F["sg"] = [0.1 if gas else 0.0] * n
    if pc:
        fl["capillary_pressure"] = dict(pc_scale=pc, pc_exponent=1.5)
        fl["pc_scale"] = pc
    return M


def wells(kind, dims):
    W = mm.well
    far = tuple(d - 1 for d in dims)
    if kind == "none":
        return []
    if kind == "inj":
        return [W("I", "injector", (0, 0, 0), "rate", 0.5)]
    if isinstance(kind, float):
        return [W("I", "injector", (0, 0, 0), "rate", kind)]
    if kind == "prod":
        return [W("P", "producer", far, "rate", 0.5)]
    return [W("I", "injector", (0, 0, 0), "bhp", 24.0), W("P", "producer", far, "bhp", 16.0)]


GRIDS = [(1, 1, 1), (2, 1, 1), (1, 3, 1), (1, 1, 2), (2, 2, 1), (2, 2, 2)]
MORE = [(3, 3, 1), (4, 1, 1), (3, 1, 2)]
SMALL = dict(cell=(1.0, 1.0, 1.0))
FAULT = [((1, 1, 1), "none", {}), ((1, 1, 1), 1000.0, SMALL), ((2, 1, 1), "bhp", dict(gas=True)), ((1, 1, 2), "inj", dict(pc=1e4))]
# one-cell reservoirs of one cubic metre, in which the Newton iteration does move the fields and is accepted on all three criteria
ONE = [("i", q) for q in (50.0, 90.0, 100.0, 200.0, 400.0, 1000.0, 1500.0, 3000.0, 1e4)] + [("p", q) for q in (100.0, 1000.0, 2000.0)] + [("b", b) for b in (15.0, 20.5, 25.0, 30.0, 40.0)]
DTS = (0.01, 0.3, 1.0, 10.0, 100.0)


def cases(tier):
    th = tier == "thorough"
    for budget in (1, 2, 3, 5):
        for fac in (2.0, 3.0, 1.5):
            for b in range(len(FAULT)):
                if th or fac == 2.0 or (budget == 3 and b < 2):
                    yield dict(kind="solve", b=b, budget=budget, fac=fac, L=5 if th else 3)
            yield dict(kind="script", budget=budget, fac=fac, L=12 if th else 8)
    for g in ((23, 22, 1),) + (((8, 8, 8), (1, 501, 1)) if th else ()):
        for off in (0.0, 0.002) if th else (0.0,):
            for budget in (1, 2):
                for pat in itertools.product((0, 1, 2, 7), repeat=2 if th else 1):
                    for rest in (0, 1, 7) if th else (0,):
                        yield dict(kind="large", g=g, off=off, budget=budget, pat=pat, rest=rest)
    for g in ((1, 1, 1), (2, 1, 1), (3, 3, 1), (1, 1, 4), (4, 3, 1), (4, 4, 2)):
        for off in (0.05, -0.03, 0.002):
            yield dict(kind="creep", g=g, off=off, th=th)
    for b in range(len(FAULT)):
        for budget in (1, 3):
            for first in (0, 3, 4, 5, 6):
                yield dict(kind="poor", b=b, budget=budget, first=first, L=4 if th or b < 2 else 2)
    for budget in (6, 9) + ((12,) if th else ()):
        for fac in (2.0, 1.5):
            yield dict(kind="script", budget=budget, fac=fac, L=0)
    for g in GRIDS + (MORE if th else []):
        for w in ("none", "inj", "prod", "bhp"):
            for var in ("plain", "gas", "pc", "stone"):
                for quiet in (False, True):
                    if not th and w == "bhp" and (g == (2, 2, 2) and var != "plain" or quiet):
                        continue
                    yield dict(kind="real", g=g, w=w, var=var, quiet=quiet, hist=2 if th else 1)
    for i in range(len(ONE)):
        for var in ("plain", "gas", "pc", "stone"):
            for sw in (0.2, 0.35, 0.6, 0.8):
                yield dict(kind="one", i=i, var=var, sw=sw)
    for g in GRIDS + (MORE if th else []):
        yield dict(kind="quiescent", g=g)


def limits(sim, M):
    f = sim.fluid
    return float(f.sw_cr), float(f.so_r)


def judge(sim, before, ok, r, tag, lim):
    after = raw_state(sim)
    names = ("pressure", "s_w", "s_g", "s_o")
    r.state(*after, bool(ok))
    r.transitions += 1
    if ok is not True and ok is not False:
        r.bad(f"outcome {ok!r} is neither True nor False, {tag}")
    if not ok:
        r.count("failed")
        diff = [n for n, x, y in zip(names, before, after) if not np.array_equal(x, y)]
        if diff:
            r.bad(f"failed fully implicit step changed {diff}: {tag}")
    else:
        r.count("succeeded")
        if not np.array_equal(before[0], after[0]) or not np.array_equal(before[1], after[1]):
            r.count("moved")
    P, sw, sg, so = (x.astype(np.float64) for x in after)
    if not all(np.isfinite(x).all() for x in (P, sw, sg, so)) or P.min() <= 0:
        r.bad(f"pressure or saturations not finite and positive: {tag}")
        return
    if np.abs(sw + sg + so - 1).max() > 1e-5:
        r.bad(f"saturations sum to {float((sw + sg + so).max()):.6f}..{float((sw + sg + so).min()):.6f}: {tag}")
    e = 2e-6
    swc, sor = lim
    if sw.min() < swc - e or (sw + sg).max() > 1 - sor + e or sg.min() < -e or so.min() < -e:
        r.bad(f"saturation outside its limits: sw {sw.min():.5f}..{sw.max():.5f}, so min {so.min():.5f}, sg min {sg.min():.5f}: {tag}")
    if not np.array_equal(before[2], after[2]):
        r.bad(f"gas saturation moved although the scheme has no gas equation: {tag}")


def step(sim, dt, r, tag, M, schedule=(), rest=0, seam=Seam):
    before = raw_state(sim)
    with seam(schedule, rest) as s:
        ok = sim.run_step(dt)
    judge(sim, before, ok, r, tag, limits(sim, M))
    if ok:
        r.traces += 1
        if not s.norms:
            r.count("no-solve-seen")
        elif not (s.norms[-1] < TOL * (1 + 1e-6)):
            r.bad(f"success reported with a Newton residual of {s.norms[-1]:.3g} (acceptance bound {TOL}): {tag}")
    return ok, s


def run_case(c, r):
    if c["kind"] == "solve":
        dims, w, kw = FAULT[c["b"]]
        M = fim(dims, wells=wells(w, dims), sim=dict(max_time_step_attempts=c["budget"], dt_reduction_factor=c["fac"]), **kw)
        for L in range(c["L"] + 1):
            for pat in itertools.product((0, 1, 2), repeat=L) if L == c["L"] else [(1,) * L, (2,) * L]:
                sim = build(M)
                ok, s = step(sim, 86400.0, r, f"solve outcomes {pat} {c}", M, pat)
                r.count("faults", s.faults)
                # the step after it, undisturbed, and as if the failed one had not happened
                if not ok:
                    twin = build(M)
                    a, _ = step(sim, 8640.0, r, f"step after a failure, outcomes {pat} {c}", M)
                    b, _ = step(twin, 8640.0, r, f"step alone {c}", M)
                    # (the code's stagnation counter may outlive a failed step: compared only when no attempt ran into it)
                    if set(pat) <= {1} and len(pat) >= c["budget"]:
                        if a != b or not all(np.array_equal(x, y) for x, y in zip(raw_state(sim), raw_state(twin))):
                            r.bad(f"step after a failed one differs from the step alone: {pat} {c}")
        for rest in (1, 2):
            sim = build(M)
            ok, s = step(sim, 86400.0, r, f"every solve fails ({rest}) {c}", M, (), rest)
            if ok:
                # converged before any solve was needed: a residual below tolerance at once
                if s.norms[-1] >= TOL:
                    r.bad(f"success although every linear solve failed: {c}")
            elif rest == 1 and s.calls != c["budget"]:
                r.bad(f"{s.calls} attempts made with a budget of {c['budget']}: {c}")
        return
    if c["kind"] == "large":
        # more than a thousand unknowns: the sparse direct solver, its iterative replacement and their failures
        g = tuple(c["g"])
        M = fim(g, quiet=True, fld="u", sim=dict(max_time_step_attempts=c["budget"]), **SMALL)
        sim = build(M)
        if c["off"]:
            sim.fluid.prev_sw = sim.fluid.s_w + c["off"]
        b = raw_state(sim)
        for i in range(2):
            ok, s = step(sim, 8640.0, r, f"large system step {i} {c}", M, c["pat"] if i == 0 else (), c["rest"] if i == 0 else 0, seam=Sci)
            r.count("large", len(s.norms))
            r.count("faults", s.faults)
            if not c["off"] and not any(c["pat"]) and not c["rest"] and (not ok or not all(np.array_equal(x, y) for x, y in zip(b, raw_state(sim)))):
                r.bad(f"uniform reservoir without wells did not stay put: {c}")
        return
    if c["kind"] == "creep":
        # the previous fields differ from the current ones (a state handed in), and the solver gets stuck at a chosen residual
        g = tuple(c["g"])
        small = c["th"] or np.prod(g) <= 4
        for T in (0.003, 0.0105, 0.0215, 0.025, 0.03, 0.045, 0.07, 0.11, 0.2, 0.5, 1.5, 5.0) if small else (0.0105, 0.025, 0.045, 0.09, 0.5):
            for ratio in (1.0, 0.99, 0.9, 0.6) if small else (0.99,):
                for budget in (1, 2) if small else (1,):
                    M = fim(g, quiet=True, fld="u", sim=dict(max_time_step_attempts=budget), **SMALL)
                    sim = build(M)
                    sim.fluid.prev_sw = sim.fluid.s_w + c["off"]
                    before = raw_state(sim)
                    with Creep(sim, T, ratio) as s:
                        ok = sim.run_step(8640.0)
                    tag = f"solves that leave a residual of {T} (improving by {ratio}), budget {budget} {c}"
                    judge(sim, before, ok, r, tag, limits(sim, M))
                    r.traces += 1
                    if min(s.norms) < 0.5 * s.norms[0]:
                        r.count("crept")
                    if ok and not s.norms[-1] < TOL * (1 + 1e-6):
                        r.bad(f"success reported with a Newton residual of {s.norms[-1]:.3g} (acceptance bound {TOL}): {tag}")
        return
    if c["kind"] == "poor":
        # inaccurate solves: the iteration creeps, stalls or is thrown off, and acceptance has to tell
        dims, w, kw = FAULT[c["b"]]
        M = fim(dims, wells=wells(w, dims), sim=dict(max_time_step_attempts=c["budget"]), **kw)
        for pat in itertools.product((0, 3, 4, 5, 6), repeat=c["L"] - 1):
            for rest in (0, 3, 4) if c["budget"] == 1 else (0, 3):
                sim = build(M)
                for i, dt in enumerate((86400.0, 864.0)):
                    ok, s = step(sim, dt, r, f"poor solves {(c['first'],) + pat} then {rest} step {i} {c}", M, (c["first"],) + pat if i == 0 else (), rest if i == 0 else 0)
                    r.count("faults", s.faults)
        return
    if c["kind"] == "script":
        M = fim((2, 1, 1), sim=dict(max_time_step_attempts=c["budget"], dt_reduction_factor=c["fac"]))
        probe = build(M)
        if not callable(getattr(probe, "_fully_implicit_newton_step", None)):
            r.count("no-newton-seam")
            return
        pats = itertools.product((True, False), repeat=c["L"])
        if c["L"] == 0:              # long runs of failures, then one more failure anywhere among the shorter steps
            pats = [(False,) * k + (True,) * p + (False,) for k in range(c["budget"]) for p in range(0, 40, 3)]
        for pat in pats:
            for dt in (86400.0, 1000.0):
                sim = build(M)
                before = raw_state(sim)
                todo, log = list(pat), []

                def scripted(d, *a, **k):
                    good = todo.pop(0) if todo else True
                    f = sim.fluid
                    f.pressure = f.pressure + 1e6 * d / dt
                    f.s_w = f.s_w + 0.01 * d / dt
                    f.s_o = 1.0 - f.s_w - f.s_g
                    log.append((d, good))
                    return good, 1
                sim._fully_implicit_newton_step = scripted
                ok = sim.run_step(dt)
                tag = f"attempt outcomes {pat[:len(log)]} dt {dt} {c}"
                judge(sim, before, ok, r, tag, limits(sim, M))
                r.traces += 1
                done = sum(d for d, g in log if g)
                fails = sum(1 for _, g in log if not g)
                if any(d <= 0 for d, _ in log):
                    r.bad(f"attempt with a step of {min(d for d, _ in log)} s: {tag}")
                for (d0, g0), (d1, g1) in zip(log, log[1:]):
                    if not g0 and not (d1 < d0):
                        r.bad(f"attempt after a failure is not shorter ({d0} then {d1} s): {tag}")
                after = raw_state(sim)
                if ok:
                    if abs(done - dt) > 1e-6 * dt:
                        r.bad(f"success after {done} of {dt} s: {tag}")
                    adv = (after[0].astype(np.float64) - before[0]) / 1e6
                    if np.abs(adv - 1).max() > 1e-4:
                        r.bad(f"fields advanced {adv.max():.5f} of the step: {tag}")
                    pp = sim.fluid.prev_pressure.numpy()
                    if not np.array_equal(pp, after[0]) or not np.array_equal(sim.fluid.prev_sw.numpy(), after[1]):
                        r.bad(f"previous-step fields are not those of the accepted step: {tag}")
                else:
                    if fails < c["budget"]:
                        r.bad(f"gave up after {fails} failed attempts of {c['budget']}: {tag}")
                    if not np.array_equal(sim.fluid.prev_pressure.numpy(), before[0]) or not np.array_equal(sim.fluid.prev_sw.numpy(), before[1]):
                        r.bad(f"previous-step fields changed by a failed step: {tag}")
                if fails > c["budget"]:
                    r.bad(f"{fails} failed attempts with a budget of {c['budget']}: {tag}")
        return
    if c["kind"] == "quiescent":
        # flat grids only: gravity has no part
        for gas in (False, True):
            for dt in DTS:
                g = c["g"] if c["g"][2] == 1 else (c["g"][0], c["g"][1], 1)
                M = fim(g, quiet=True, fld="u", gas=gas)
                sim = build(M)
                b = raw_state(sim)
                for k in range(3):
                    ok, _ = step(sim, dt * 86400, r, f"uniform reservoir dt {dt} step {k} {c}", M)
                    if gas:
                        continue   # (the two-phase scheme has no claim on a three-phase cell beyond closure)
                    if not ok or not all(np.array_equal(x, y) for x, y in zip(b, raw_state(sim))):
                        r.bad(f"uniform reservoir without wells did not stay put: dt {dt} step {k} ok {ok} {c}")
        return
    kw = {}
    one = c["kind"] == "one"
    if c["var"] == "gas":
        kw["gas"] = True
    if c["var"] == "pc":
        kw["pc"] = 1e4
    if c["var"] == "stone":
        kw["rp"] = "stone"
    if one:
        t, v = ONE[c["i"]]
        w = mm.well("W", "injector" if t == "i" else "producer", (0, 0, 0), "bhp" if t == "b" else "rate", v)
        M = fim((1, 1, 1), wells=[w], **SMALL, **kw)
        M["fields"]["sw"] = [min(c["sw"], 0.7) if c["var"] == "gas" else c["sw"]]
        sim = build(M)
        for i, d in enumerate((1.0, 1.0, 0.1, 30.0)):
            step(sim, d * 86400, r, f"step {i} {c}", M)
        return
    if c["w"] == "bhp":
        kw["sim"] = dict(max_time_step_attempts=2)
    M = fim(tuple(c["g"]), wells=wells(c["w"], c["g"]), quiet=c["quiet"], fld="u" if c["quiet"] else "h", **kw)
    seqs = [(d, d) for d in (DTS if c["w"] != "bhp" else (0.01, 10.0))] if c["hist"] == 1 else list(itertools.product(DTS, repeat=2))
    for seq in seqs:
        sim = build(M)
        for i, d in enumerate(seq + (0.01,)):
            step(sim, d * 86400, r, f"steps {seq} at {i} {c}", M)


def finish(tier, counters, cases):
    if counters.get("moved", 0) < 10:
        yield "fewer than ten successful steps that moved the fields"
    if counters.get("large", 0) < 10:
        yield "the sparse solver of large systems was not seen"
    if not counters.get("crept", 0):
        yield "no stalled iteration came near its target"
    if counters.get("failed", 0) < 10:
        yield "fewer than ten failed steps"
