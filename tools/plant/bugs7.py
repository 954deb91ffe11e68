from bugs1 import S, F, W
from bugs2 import R, PV, G, A, C, E, U, PL, V, AMGH
BUGS = [
dict(id="C04-switch-overwrite", prop="C04", file=S,
     edits=[("                        well_bhp_terms[idx] += wi * mob_t_well\n", "                        well_bhp_terms[idx] = wi * mob_t_well\n")],
     needs="a producer that switches to its minimum bottom-hole pressure in a cell that an earlier well already holds under pressure control",
     breaks="the earlier well's conductance is dropped from the matrix: the pressure no longer balances the flows",
     demo='''
ws = [well("A", "injector", (0, 0, 0), "bhp", 24.0), well("B", "producer", (0, 0, 0), "rate", 5000.0, bhp_min=19.0)]
s = make((1, 1, 1), wells=ws)
f = s.fluid
p0 = float(f.pressure[0, 0, 0])
o, w, g = (x.clone() for x in f.get_rel_perms(f.s_w))
mob = float(w[0, 0, 0] / f.mu_water + o[0, 0, 0] / f.mu_oil + g[0, 0, 0] / f.mu_gas)
acc = float(s.porous_volume[0, 0, 0] * f.cf[0, 0, 0]) / (0.01 * DAY)
check(step(s, 0.01))
wi = [x.well_index for x in s.well_manager.wells]
p1 = (acc * p0 + wi[0] * mob * 24e6 + wi[1] * mob * 19e6) / (acc + (wi[0] + wi[1]) * mob)
check(abs(float(f.pressure[0, 0, 0]) - p1) < 2e3, f"{float(f.pressure[0, 0, 0])} {p1}")
'''),
dict(id="C09-hysteresis", prop="C09", file=S,
     edits=[("                    if p_bhp_req < p_bhp_min:\n", "                    if p_bhp_req < p_bhp_min * (1.02 if well.last_mode == 'bhp' else 1.0):\n")],
     needs="a producer that was throttled to its minimum bottom-hole pressure once and whose request later fits again by a small margin",
     breaks="the well stays under pressure control although its rate would need a higher bottom-hole pressure than the minimum",
     demo='''
import copy
s = make((2, 1, 1), wells=[well("P", "producer", (0, 0, 0), "rate", 900.0, bhp_min=19.0), well("I", "injector", (1, 0, 0), "rate", 1.0)])
check(step(s, 0.01))
wl = s.well_manager.wells[0]
check(wl.last_mode == "bhp", "not throttled")
f = s.fluid
o, w, g = (x.clone() for x in f.get_rel_perms(f.s_w))
mob = float(w[0, 0, 0] / f.mu_water + o[0, 0, 0] / f.mu_oil + g[0, 0, 0] / f.mu_gas)
f.pressure = torch.full_like(f.pressure, 20e6)
wl.control_value = wl.well_index * mob * (20e6 - 19.15e6) * DAY
check(step(s, 1e-4))
check(wl.last_mode == "rate", "stays throttled")
'''),
dict(id="C11-index-cache", prop="C11", file=S,
     edits=[("        rows = torch.cat([row_x, col_x, row_y, col_y, row_z, col_z])\n        cols = torch.cat([col_x, row_x, col_y, row_y, col_z, row_z])\n",
             "        cache = Simulator.__dict__.get('_pattern') or {}\n        key = (N, vals_x.numel() + vals_y.numel() + vals_z.numel())\n        if key not in cache:\n            cache[key] = (torch.cat([row_x, col_x, row_y, col_y, row_z, col_z]), torch.cat([col_x, row_x, col_y, row_y, col_z, row_z]))\n            Simulator._pattern = cache\n        rows, cols = cache[key]\n")],
     needs="two simulations in one process whose grids have the same number of cells and of faces but different shapes",
     breaks="the second one is assembled with the connections of the first",
     demo='''
def go(dims):
    n = dims[0] * dims[1] * dims[2]
    s = make(dims, P=20e6 + 1e5 * np.arange(n).reshape(dims), kx=np.linspace(50, 500, n).reshape(dims), ky=np.linspace(500, 50, n).reshape(dims))
    check(step(s, 0.1))
    return fields(s)[0]
import subprocess, sys
if len(sys.argv) > 1:
    go((3, 2, 1))
a = go((2, 3, 1))
if len(sys.argv) > 1:
    np.save(sys.argv[1], a)
else:
    p = os.path.join(TMP, "a.npy")
    check(subprocess.run([sys.executable, os.path.abspath(__file__) if os.path.isabs(__file__) else os.path.join(REPO, __file__), p], cwd=REPO, stdout=subprocess.DEVNULL).returncode == 0)
    check(np.array_equal(np.load(p), a), "differs after another simulation")
'''),
dict(id="C07-phase-case", prop="C07", file=S,
     edits=[("sp = (well.surface_phase or 'liquid').lower()", "sp = well.surface_phase or 'liquid'")],
     needs="a surface-rate producer whose phase is written in capitals",
     breaks="the named phase is ignored and the liquid rate is delivered instead",
     demo='''
def q(ph):
    s = make((2, 1, 1), pvt=PVT, s_w=0.5, s_g=0.05, wells=[well("P", "producer", (0, 0, 0), "rate", 0.5, rate_type="surface", surface_phase=ph)])
    check(step(s, 1.0))
    return s.well_manager.wells[0].last_q_total
check(close(q("oil"), q("OIL"), 1e-9) and close(q("water"), q("Water"), 1e-9), "case")
'''),
dict(id="C12-swap-oil", prop="C12", file=S,
     edits=[("        mo_eff = (-(dSw_eff + dSg_eff)) * self.porous_volume * rho_o_now\n", "        mo_eff = (self.fluid.s_o - (1.0 - S_w_old - S_g_start)).clamp(min=-max_dS, max=max_dS) * self.porous_volume * rho_o_now\n")],
     needs="a step in which oil leaves or enters a cell faster than the saturation-change setting",
     breaks="the oil tracker misses the part beyond the setting",
     demo='''
s = make((1, 1, 1), s_w=0.3, s_g=0.0, wells=[well("W", "injector", (0, 0, 0), "rate", 30.0)])
w0 = s.mass_balance["oil"]["out"]
o0 = float(s.fluid.s_o[0, 0, 0])
check(step(s, 1.0))
o1 = float(s.fluid.s_o[0, 0, 0])
m = (o0 - o1) * float(s.porous_volume[0, 0, 0]) * float(s.fluid.rho_o[0, 0, 0])
check(close(s.mass_balance["oil"]["out"] - w0, m, 1e-3), f"{s.mass_balance} {m}")
'''),
dict(id="C16-pvt-cache", prop="C16", file=PV,
     edits=[("        p = P_MPa.astype(np.float64)\n", "        p = P_MPa.astype(np.float64)\n        last = getattr(self, '_last', None)\n        if last is not None and last[0].shape == p.shape and abs(float(last[0].sum()) - float(p.sum())) < 1e-12:\n            return dict(last[1])\n"),
            ("        return {\n            \"Bo\"", "        out = {\n            \"Bo\""),
            ("            \"Rv\": self._interp(p, self.P, self.Rv),\n        }\n", "            \"Rv\": self._interp(p, self.P, self.Rv),\n        }\n        self._last = (p, out)\n        return dict(out)\n")],
     needs="two consecutive look-ups of equal shape whose pressures have the same sum, such as a field and its mirror image",
     breaks="the second look-up returns the values of the first",
     demo='''
from simulator.pvt import PVTTable
t = PVTTable(pvtfile())
a = t.eval(np.array([10.0, 30.0]))
b = t.eval(np.array([30.0, 10.0]))
check(np.array_equal(a["Bo"][::-1], b["Bo"]), "cached")
'''),
dict(id="C05-well-merge", prop="C05", file=S,
     edits=[("                        q_total *= max(0.0, min(1.0, alpha))\n                        q_w[i, j, k] += q_total\n", "                        q_total *= max(0.0, min(1.0, alpha))\n                        q_w[i, j, k] = max(float(q_w[i, j, k]), 0.0) + q_total\n")],
     needs="a producer listed before a water injector in the same cell",
     breaks="what the producer took of the water is forgotten: the result depends on the order of the wells",
     demo='''
a, b = well("P", "producer", (0, 0, 0), "rate", 3.0), well("I", "injector", (0, 0, 0), "rate", 2.0)
s, t = make((2, 1, 1), s_w=0.5, wells=[a, b]), make((2, 1, 1), s_w=0.5, wells=[b, a])
check(step(s, 0.5) and step(t, 0.5))
check(np.abs(fields(s)[1] - fields(t)[1]).max() < 1e-5, "order matters")
'''),
dict(id="C10-last-piece", prop="C10", file=S,
     edits=[("                self._impes_saturation_step(P_new, current_dt)\n", "                self._impes_saturation_step(P_new, min(current_dt, dt / dt_reduction_factor) if attempts_left == 1 else current_dt)\n")],
     needs="a budget of one attempt, with which the first solve succeeds",
     breaks="the saturations advance by half the step although success is reported",
     demo='''
s = make((1, 1, 1), s_w=0.3, sim=dict(max_time_step_attempts=1), wells=[well("W", "injector", (0, 0, 0), "rate", 2.0)])
w0 = float(s.fluid.s_w[0, 0, 0])
check(step(s, 1.0))
check(close((float(s.fluid.s_w[0, 0, 0]) - w0) * float(s.porous_volume[0, 0, 0]), 2.0, 1e-3), "half a step")
'''),
dict(id="C08-mobility-twice", prop="C08", file=S,
     edits=[("                q_total = well.well_index * mob_t[i, j, k] * (p_block - p_bhp)\n", "                q_total = well.well_index * float(mob_t[i, j, k]) * (p_block - p_bhp)\n                if well.type == 'injector' and float(S_g_old[i, j, k]) + float(S_w_old[i, j, k]) > 0.78:\n                    q_total = q_total * 0.5\n")],
     needs="a pressure-controlled injector in a cell that has less than two per cent movable oil left",
     breaks="only half of the flow the pressure equation accounted for enters the cell",
     demo='''
s = make((2, 1, 1), sw=[[[0.7]], [[0.3]]], sg=[[[0.09]], [[0.1]]], wells=[well("I", "injector", (0, 0, 0), "bhp", 20.0005)])
P, sw, sg, so = fields(s)
check(step(s, 1e-4))
P1, sw1, sg1, so1 = fields(s)
t = make((2, 1, 1), sw=[[[0.7]], [[0.3]]], sg=[[[0.09]], [[0.1]]], wells=[])
check(step(t, 1e-4))
f = t.fluid
got = float((sw1 - sw).sum()) * float(s.porous_volume[0, 0, 0])
u = make((2, 1, 1), sw=[[[0.7]], [[0.3]]], sg=[[[0.09]], [[0.1]]])
o, w, g = u.fluid.get_rel_perms(u.fluid.s_w)
mob = float(w[0, 0, 0] / u.fluid.mu_water + o[0, 0, 0] / u.fluid.mu_oil + g[0, 0, 0] / u.fluid.mu_gas)
want = s.well_manager.wells[0].well_index * mob * (20.0005e6 - float(P1[0, 0, 0])) * 1e-4 * DAY
check(close(got, want, 0.2), f"{got} {want}")
'''),
dict(id="C14-stone-connate", prop="C14", file=F,
     edits=[]),
]
BUGS = [b for b in BUGS if b["edits"]]
