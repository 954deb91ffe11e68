"""Depth-first exploration of all operation sequences of a simulation, by snapshotting the real objects."""
from .build import build, state, raw_state
from .spec import Spec
import copy


class Step:
    """One executed transition: observed pre-state, post-state and what was asked."""
    __slots__ = ("sim", "spec", "M", "dt", "ok", "P", "sw", "sg", "so", "P1", "sw1", "sg1", "so1", "mb0", "mb1", "cb0", "cb1", "path")

    def flows(self):
        return self.spec.well_flows(self.P, self.sw, self.sg, self.P1, self.dt)


def do_step(sim, spec, M, dt, path=()):
    s = Step()
    s.sim, s.spec, s.M, s.dt, s.path = sim, spec, M, dt, tuple(path) + (dt,)
    s.P, s.sw, s.sg, s.so = state(sim)
    s.mb0, s.cb0 = copy.deepcopy(sim.mass_balance), copy.deepcopy(sim.component_balance)
    s.ok = sim.run_step(dt)
    s.P1, s.sw1, s.sg1, s.so1 = state(sim)
    s.mb1, s.cb1 = copy.deepcopy(sim.mass_balance), copy.deepcopy(sim.component_balance)
    return s


def explore(M, dts, depth, on_step, r, sim=None):
    """All sequences over dts up to depth; a state reached again is not expanded again."""
    sim = sim or build(M)
    spec = Spec(M)
    seen = set()
    r.state(*raw_state(sim))

    def rec(sim, d, path):
        if d == 0 or len(r.viol) >= 3:
            return
        for n, dt in enumerate(dts):
            s2 = copy.deepcopy(sim) if n < len(dts) - 1 else sim
            st = do_step(s2, spec, M, dt, path)
            r.transitions += 1
            r.traces += 1
            on_step(st, r)
            raw = raw_state(s2)
            r.state(*raw)
            key = (d, tuple(x.tobytes() for x in raw))
            if st.ok and key not in seen:
                seen.add(key)
                rec(s2, d - 1, st.path)
    rec(sim, depth, ())
