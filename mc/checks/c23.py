"""C23: the reinforcement-learning environment follows its episode contract."""
import copy, itertools, json, os, tempfile
import numpy as np
import torch
from .. import env as E_, models as mm
from ..build import pvt_file
from rl_env import ReservoirEnv
from simulator.reservoir import Reservoir
from simulator.fluid import Fluid
from simulator.well import WellManager
from simulator.simulation import Simulator

BOUND = dict(quick="12 configurations (steps from 0.003 to 30 days; rate, bottom-hole pressure, mixed, one, three and no wells; injectors; shut wells; tables; limits): all histories up to 4 events over an alphabet of 4 actions (corner, zero, mixed, float64), reset and a failing step; step budgets 1..4; all interleavings of two environments (3 events each); long episodes; steady actions with rates a thousand times larger and smaller and bottom-hole pressures up to 66 MPa",
             thorough="histories up to 5 events, alphabet of 6 actions, longer episodes, triples of environments")
RULE = "observation equals that of a simulation stepped by hand with the specified controls; reward, flags, info, shapes and types; replay after reset bit-identical"
ASSUMPTIONS = ["actions inside the action space; the environment is reset before it is used again after termination, except that flags are also checked beyond"]
CPU = torch.device("cpu")


def configs():
    W = mm.well
    def cfg(dims, wells, dt=0.5, fluid=None, sim=None, **k):
        c = dict(reservoir=dict(dimensions=list(dims), grid_size=[10.0, 12.0, 4.0], porosity=0.2, permeability=200.0, k_vertical_fraction=0.3),
                 fluid=dict(dict(pressure=20.0, s_w=0.3, s_g=0.0), **(fluid or {})), wells=wells, simulation=dict(sim or {}))
        if dt is not None:
            c["simulation"]["time_step_days"] = dt
        return c
    inj = W("I", "injector", (0, 0, 0), "rate", 2.0)
    return [cfg((3, 2, 1), [inj, W("P", "producer", (2, 1, 0), "bhp", 17.0)]),
            cfg((4, 1, 1), [W("P", "producer", (3, 0, 0), "rate", 1.5), inj]),
            cfg((2, 2, 2), [W("P", "producer", (1, 1, 1), "bhp", 15.0)], dt=None, fluid=dict(s_w=0.25)),
            cfg((3, 1, 2), [W("A", "producer", (2, 0, 0), "bhp", 16.0), W("B", "injector", (0, 0, 1), "bhp", 22.0, injected_phase="gas"), W("C", "producer", (2, 0, 1), "rate", 0.7, limits=dict(wopr=0.4))], fluid=dict(s_g=0.05)),
            cfg((2, 2, 1), [], dt=0.25),
            cfg((3, 2, 1), [W("P", "producer", (2, 0, 0), "rate", 1.0)], dt=0.2, fluid=dict(pvt_path=pvt_file(mm.PVT_PLAIN))),
            cfg((1, 1, 3), [W("P", "producer", (0, 0, 2), "rate", 0.5), W("Q", "producer", (0, 0, 0), "bhp", 19.0)], dt=0.3, fluid=dict(s_w=0.45)),
            cfg((2, 1, 2), [W("S", "injector", (0, 0, 0), "rate", 0.0), W("P", "producer", (1, 0, 1), "bhp", 18.0), W("T", "producer", (0, 0, 1), "rate", 0)], dt=0.3, fluid=dict(s_w=0.4)),
            cfg((4, 2, 1), [W(f"W{i}", "producer" if i % 3 else "injector", (i % 4, i // 4, 0), "bhp" if i % 2 else "rate", (17.0 + (i % 3 == 0) * 5) if i % 2 else 0.3 + 0.1 * i) for i in range(7)], dt=0.2),
            cfg((3, 1, 1), [inj, W("P", "producer", (2, 0, 0), "bhp", 18.0)], dt=0.003),
            cfg((3, 3, 1), [W("I", "injector", (0, 0, 0), "rate", 0.02), W("P", "producer", (2, 2, 0), "rate", 0.03)], dt=30.0),
            cfg((2, 2, 1), [inj, W("P", "producer", (1, 1, 0), "bhp", 18.0)], dt=2)]


def actions(n, th):
    f = np.float32
    a = [np.ones(n, f), np.zeros(n, f), np.array([(-1.0) ** i for i in range(n)], f) * -1, np.array([0.3 - 0.55 * i for i in range(n)])]
    if th:
        a += [-np.ones(n, f), np.full(n, 0.77, f)]
    return a


def cases(tier):
    th = tier == "thorough"
    na = 6 if th else 4
    alpha = list(range(na)) + ["reset", "fail"]
    for m in range(len(configs())):
        for first in alpha:
            for second in alpha:
                yield dict(kind="hist", m=m, head=(first, second), depth=5 if th and m in (0, 3, 5) else 4 if m < 8 else 3, th=th, budget=(1, 2, 3, 4)[(m + len(str(first))) % 4] if second != 1 else 50)
    for a, b in itertools.combinations_with_replacement(range(8), 2):
        yield dict(kind="two", ms=(a, b), th=th)
    for m in range(len(configs())):
        yield dict(kind="long", m=m, n=60 if th else 25)
        if m in (0, 1, 2, 8):
            yield dict(kind="long", m=m, n=400)
        yield dict(kind="api", m=m)
        for mag in (1e3, 1e-3):
            yield dict(kind="mag", m=m, mag=mag, n=8 if th else 6)


class Ref:
    """A simulation driven by hand."""
    def __init__(self, cfg):
        self.cfg = cfg
        self.reset()

    def reset(self):
        c = copy.deepcopy(self.cfg)
        self.res = Reservoir(c["reservoir"], CPU)
        self.wm = WellManager(c["wells"], self.res)
        self.fl = Fluid(c["fluid"], self.res, CPU)
        self.sim = Simulator(self.res, self.fl, self.wm, c.get("simulation", {}), CPU)
        self.controls = [float(w["control_value"]) for w in c["wells"]]
        self.count = 0
        self.mass = self.oil()

    def oil(self):
        phi = np.broadcast_to(np.asarray(self.res.porosity, dtype=np.float64), self.fl.s_o.shape)
        rho = np.asarray(torch.as_tensor(self.fl.rho_o), dtype=np.float64)
        return float((phi * self.fl.s_o.numpy().astype(np.float64) * rho).sum() * float(self.res.cell_volume))

    def act(self, a):
        for i, w in enumerate(self.cfg["wells"]):
            if w["control_type"] == "rate":
                self.controls[i] *= 1 + 0.2 * float(a[i])
            else:
                self.controls[i] += 5.0 * float(a[i])

    def obs(self):
        return np.concatenate([self.fl.pressure.numpy().reshape(-1).astype(np.float64) / 1e7, self.fl.s_w.numpy().reshape(-1).astype(np.float64)])


def path_for(m, mag=None):
    cfg = configs()[m]
    if mag is not None:         # another order of magnitude of the rates (and of the reservoir), or of the well pressures
        cfg["reservoir"]["grid_size"] = [g * mag ** (1 / 3) for g in cfg["reservoir"]["grid_size"]]
        for w in cfg["wells"]:
            w["control_value"] *= mag if w["control_type"] == "rate" else 3.0 if mag > 1 else 0.05
            for k in w.get("limits") or {}:
                w["limits"][k] *= mag
    d = tempfile.mkdtemp(dir=E_.SCRATCH)
    p = os.path.join(d, "c.json")
    with open(p, "w") as f:
        json.dump(cfg, f)
    return p, cfg


class Pair:
    """Environment and reference side by side."""
    def __init__(self, m, budget, r, mag=None):
        self.path, self.cfg = path_for(m, mag)
        self.text = open(self.path).read()
        self.m, self.budget, self.r = m, budget, r
        self.env = ReservoirEnv(self.path, max_steps=budget, device=CPU)
        self.ref = Ref(self.cfg)
        self.hist = []
        self.rewards = 0.0
        self.log = []
        n = len(self.cfg["wells"])
        cells = int(np.prod(self.cfg["reservoir"]["dimensions"]))
        sp = self.env.action_space
        if sp.shape != (n,) or sp.dtype != np.float32 or (n and (sp.low.min() != -1 or sp.high.max() != 1 or sp.low.max() != -1 or sp.high.min() != 1)):
            r.bad(f"action space {sp} for {n} wells")
        if self.env.observation_space.shape != (2 * cells,) or self.env.observation_space.dtype != np.float32:
            r.bad(f"observation space {self.env.observation_space} for {cells} cells")

    def what(self):
        return f"configuration {self.m}, budget {self.budget}, events {self.hist}"

    def check_obs(self, o):
        sp = self.env.observation_space
        if not isinstance(o, np.ndarray) or o.shape != sp.shape or o.dtype != sp.dtype or not sp.contains(o):
            self.r.bad(f"observation is outside its declared space: {self.what()}")
            return
        w = self.ref.obs()
        if np.abs(o - w).max() > 2e-7 * np.abs(w).max():
            self.r.bad(f"observation differs by {np.abs(o - w).max():.3e} from a simulation stepped by hand: {self.what()}")

    def reset(self, first=False, **kw):
        if not first:
            self.hist.append("reset")
        out = self.env.reset(**kw)
        self.ref.reset()
        self.rewards = 0.0
        if not (isinstance(out, tuple) and len(out) == 2 and isinstance(out[1], dict)):
            self.r.bad(f"reset returns {type(out)}: {self.what()}")
            return None
        self.check_obs(out[0])
        self.check_controls()
        self.r.transitions += 1
        return out[0]

    def check_controls(self):
        ws = self.env.well_manager.wells
        for w, v in zip(ws, self.ref.controls):
            if abs(w.control_value - v) > 2e-6 * max(abs(v), 1.0):
                self.r.bad(f"control of well {w.name} is {w.control_value} instead of {v}: {self.what()}")
                return
        if len(ws) != len(self.ref.controls):
            self.r.bad(f"{len(ws)} wells instead of {len(self.ref.controls)}: {self.what()}")

    def step(self, k, a, fail=False):
        r = self.r
        self.hist.append(f"fail{k}" if fail else k)
        a0 = a.copy()
        if fail:
            sim = self.env.simulator
            sim.run_step = lambda *x, **y: False
        try:
            out = self.env.step(a)
        finally:
            if fail:
                self.env.simulator.__dict__.pop("run_step", None)
        r.transitions += 1
        r.traces += 1
        if not (isinstance(out, tuple) and len(out) == 5):
            r.bad(f"step returns {out!r}: {self.what()}")
            return None
        obs, rew, term, trunc, info = out
        if not isinstance(rew, (float, np.floating)) or type(term) is not bool or type(trunc) is not bool or not isinstance(info, dict):
            r.bad(f"step returns types {type(rew)}, {type(term)}, {type(trunc)}, {type(info)}: {self.what()}")
        if not np.array_equal(a, a0):
            r.bad(f"step changes the action array: {self.what()}")
        self.ref.act(a)
        self.check_controls()
        if r.viol:
            return None
        # identical controls, so that rounding of the controls does not blur the comparison
        for w, v in zip(self.ref.wm.wells, self.env.well_manager.wells):
            w.control_value = v.control_value
        ok = not fail and self.ref.sim.run_step(self.cfg["simulation"].get("time_step_days", 1.0) * 86400)
        self.check_obs(obs)
        if not ok:
            r.count("failures")
            if rew != -1e3 or term is not True or trunc is not False or info.get("converged") is not False:
                r.bad(f"failed step returns reward {rew}, flags {term}, {trunc}, info {info}: {self.what()}")
            return out
        self.ref.count += 1
        m = self.ref.oil()
        want = (self.ref.mass - m) / 1e6
        tol = 1e-6 * m / 1e6 + 1e-6 * abs(want)
        self.ref.mass = m
        self.rewards += rew
        if abs(rew - want) > tol:
            r.bad(f"reward {rew} instead of the drop of oil in place {want}: {self.what()}")
        if abs(want) > 20 * tol:
            r.count("real rewards")
        if term != (self.ref.count >= self.budget) or trunc is not False or info.get("converged") is not True:
            r.bad(f"flags {term}, {trunc}, info {info} after {self.ref.count} steps: {self.what()}")
        if term:
            r.count("terminations")
        r.state(obs, self.m, self.ref.count)
        return out

    def close(self):
        if open(self.path).read() != self.text:
            self.r.bad(f"the configuration file was changed: {self.what()}")
        if len(os.listdir(os.path.dirname(self.path))) != 1:
            self.r.bad(f"files were written beside the configuration: {self.what()}")


def run_case(c, r):
    if c["kind"] == "hist":
        cfg = configs()[c["m"]]
        acts = actions(len(cfg["wells"]), c["th"])
        alpha = list(range(len(acts))) + ["reset", "fail"]
        seen = {}
        for rest in itertools.product(alpha, repeat=c["depth"] - 2):
            p = Pair(c["m"], c["budget"], r)
            keep = []
            o = p.reset(first=True)
            trail = ()
            for e in tuple(c["head"]) + rest:
                if e == "reset":
                    o = p.reset()
                    trail = ()
                elif e == "fail":
                    out = p.step(2, acts[2], fail=True)
                    o = None if out is None else out[0]
                    trail += ("fail",)
                else:
                    out = p.step(e, acts[e])
                    o = None if out is None else out[0]
                    trail += (e,)
                    if out is not None:
                        # replaying the same events from a reset gives bit-identical answers
                        key = trail
                        val = (out[0].tobytes(), out[1], out[2])
                        if seen.setdefault(key, val) != val:
                            r.bad(f"replaying {trail} after a reset gives another answer: {p.what()}")
                        r.count("replays")
                if r.viol:
                    return
                keep.append((o, o.copy()))
            if any(not np.array_equal(x, y) for x, y in keep):
                r.bad(f"an observation handed out earlier was changed: {p.what()}")
            p.close()
            r.count("histories")
            if r.viol:
                return
    elif c["kind"] == "two":
        # all interleavings of two environments
        L = 4 if c["th"] else 3
        solo = []
        for m in c["ms"]:
            p = Pair(m, 50, r)
            p.reset(first=True)
            acts = actions(len(p.cfg["wells"]), False)
            solo.append([p.step(k % 4, acts[k % 4]) for k in range(L)])
            if r.viol:
                return
        for order in itertools.combinations(range(2 * L), L):
            ps = [Pair(m, 50, r) for m in c["ms"]]
            for p in ps:
                p.reset(first=True)
            pos = [0, 0]
            for t in range(2 * L):
                w = 0 if t in order else 1
                p = ps[w]
                k = pos[w]
                acts = actions(len(p.cfg["wells"]), False)
                out = p.step(k % 4, acts[k % 4])
                if r.viol:
                    return
                if out[0].tobytes() != solo[w][k][0].tobytes() or out[1] != solo[w][k][1]:
                    r.bad(f"another environment changes the answer: configurations {c['ms']} order {order} step {t}")
                    return
                pos[w] += 1
            r.count("interleavings")
    elif c["kind"] == "mag":
        # steady actions at other magnitudes
        n = len(configs()[c["m"]]["wells"])
        for a in (1.0, -1.0, 0.01):
            p = Pair(c["m"], c["n"], r, c["mag"])
            p.reset(first=True)
            for k in range(c["n"]):
                out = p.step(a, np.full(n, a, np.float32))
                if r.viol:
                    return
                if out[4].get("converged") is False:
                    break
                r.count("steady steps")
            p.close()
    elif c["kind"] == "long":
        p = Pair(c["m"], c["n"], r)
        p.reset(first=True, seed=5)
        n = len(p.cfg["wells"])
        start = p.ref.mass
        term = False
        for k in range(c["n"]):
            a = np.array([0.3 * np.cos(k * (i + 1)) for i in range(n)], np.float32)
            out = p.step(f"cos{k}", a)
            if r.viol:
                return
            if out[4].get("converged") is False:
                break
            term = out[2]
        else:
            if not term:
                r.bad(f"episode of {c['n']} steps not terminated: configuration {c['m']}")
            total = (start - p.ref.mass) / 1e6
            if abs(p.rewards - total) > 3e-6 * start / 1e6:
                r.bad(f"rewards add up to {p.rewards}, oil in place dropped by {total}: configuration {c['m']}")
            r.count("episodes")
            mb = p.env.simulator.mass_balance["oil"]
            prod = mb["out"] - mb["in"]
            if "pvt_path" not in p.cfg["fluid"] and abs(p.rewards * 1e6 - prod) > 0.03 * abs(prod) + 1e-4 * start:
                r.bad(f"rewards add up to {p.rewards * 1e6} kg, produced {prod} kg: configuration {c['m']}")
        p.close()
    else:
        p = Pair(c["m"], 3, r)
        n = len(p.cfg["wells"])
        a = np.zeros(n, np.float32)
        # rendering does not change anything
        for _ in range(2):
            o = p.reset(first=True, seed=3, options={})
            p.env.render()
            out = p.step(1, a)
            p.env.render()
            out2 = p.step(1, a)
            if r.viol:
                return
            try:
                p.env.render("rgb_array")
                r.bad(f"an undeclared render mode is accepted: configuration {c['m']}")
            except NotImplementedError:
                pass
        # beyond the budget the episode stays terminated, reset starts a new one
        for k in range(4):
            p.step(1, a)
        p.reset()
        p.step(1, a)
        p.env.close()
        # budgets
        for b in (1, 2, 5):
            q = Pair(c["m"], b, r)
            q.reset(first=True)
            for k in range(b):
                out = q.step(1, a)
                if r.viol:
                    return
                if out[2] != (k == b - 1):
                    r.bad(f"budget {b} terminated after {k + 1} steps: configuration {c['m']}")
        # stepping without an explicit reset starts from the configured state too
        q = Pair(c["m"], 9, r)
        q.step(1, a)
        r.count("api")


def finish(tier, counters, cases):
    need = dict(histories=5000, interleavings=400, episodes=5, api=5, failures=1000, terminations=1000, replays=5000)
    need["real rewards"] = 5000
    need["steady steps"] = 200
    low = {k: counters.get(k, 0) for k, v in need.items() if counters.get(k, 0) < v}
    if low:
        yield f"vacuous: {low}"
