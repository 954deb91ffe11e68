from bugs1 import S, F, W
from bugs2 import R, PV, G, A, C, E, U, PL, V, AMGH
BUGS = [
dict(id="C01-joint-rise", prop="C01", file=S,
     edits=[("            S_w_cur = torch.clamp(S_w_cur, min=sw_min_t, max=sw_max_t)\n", "            S_w_cur = torch.clamp(S_w_cur, min=sw_min_t, max=sw_max_t) if N > 1 else S_w_cur\n"),
            ("            S_g_cur = torch.clamp(S_g_cur, min=sg_min_t, max=sg_max_t)\n", "            S_g_cur = torch.clamp(S_g_cur, min=sg_min_t, max=sg_max_t) if N > 1 else S_g_cur\n")],
     needs="water and gas that both enter a cell in one small step, each fitting on its own but not together",
     breaks="oil falls below its residual saturation",
     demo='''
s = make((1, 1, 1), s_w=0.4, s_g=0.39, wells=[well("W", "injector", (0, 0, 0), "rate", 1.6), well("G", "injector", (0, 0, 0), "rate", 1.6, injected_phase="gas")])
check(step(s, 1.0))
P, sw, sg, so = fields(s)
check(so.min() >= 0.2 - 1e-5, str(so))
'''),
dict(id="C07-low-watercut", prop="C07", file=S,
     edits=[("                            q_total = - q_w_res / max(fw_, 1e-8)\n", "                            q_total = - q_w_res / max(fw_, 1e-2)\n")],
     needs="a producer with a surface water target in a cell with less than one per cent water cut",
     breaks="too little water is produced",
     demo='''
s = make((2, 1, 1), pvt=PVT, s_w=0.22, s_g=0.0, wells=[well("P", "producer", (0, 0, 0), "rate", 1e-4, rate_type="surface", surface_phase="water")])
v0 = vols(s)[0]
check(step(s, 1.0))
w = s.well_manager.wells[0]
check(close(w.last_surface_rates["water"], 1e-4, 1e-3), str(w.last_surface_rates))
'''),
dict(id="C09-limit-scaled", prop="C09", file=S,
     edits=[("candidates.append((lim['liqr'] / 86400.0) / denom_l)", "candidates.append((lim['liqr'] * rate_scale / 86400.0) / denom_l)", 1)],
     needs="a reservoir-rate producer with a liquid limit under a global rate multiplier other than one",
     breaks="the limit is multiplied too",
     demo='''
s = make((2, 1, 1), pvt=PVT, s_w=0.4, s_g=0.0, sim=dict(global_rate_scale=3.0), wells=[well("P", "producer", (0, 0, 0), "rate", 4.0, limits=dict(liqr=2.0))])
check(step(s, 0.5))
q = s.well_manager.wells[0].last_surface_rates["liquid"]
check(q <= 2.0 * 1.001, str(q))
'''),
dict(id="C12-gas-backflow", prop="C12", file=S,
     edits=[("                            qg_surf = max(-q_total, 0.0) / max(Bg_cell, 1e-12) * 86400.0\n", "                            qg_surf = abs(float(q_total)) / max(Bg_cell, 1e-12) * 86400.0\n")],
     needs="a gas injector under pressure control in a cell above its bottom-hole pressure",
     breaks="gas that flows out of the reservoir is booked as injected",
     demo='''
s = make((2, 1, 1), pvt=PVT, s_w=0.3, s_g=0.2, wells=[well("I", "injector", (0, 0, 0), "bhp", 15.0, injected_phase="gas")])
check(step(s, 0.01))
check(s.component_balance["gas"]["in"] <= 1e-9, str(s.component_balance))
'''),
dict(id="C16-negative-compressibility", prop="C16", file=F,
     edits=[("        c_o = - (dBo_dP_mpa / (Bo + 1e-12)) / 1e6\n", "        c_o = - (torch.clamp(dBo_dP_mpa, max=0.0) / (Bo + 1e-12)) / 1e6\n")],
     needs="a table in which the oil formation factor rises with pressure, as below the bubble point",
     breaks="the total compressibility ignores the swelling of oil",
     demo='''
t = dict(PVT, Bo=[1.05, 1.10, 1.15, 1.20, 1.18])
s = make((1, 1, 1), pvt=t, s_w=0.3, s_g=0.0, P=18e6)
f = s.fluid
ct = float(f.calc_total_compressibility(f.pressure, f.s_w, f.s_g)[0, 0, 0])
bo = 1.15 + 0.05 * 3 / 7
bw = 1.02 - 0.005 * 3 / 7
want = float(f.rock_compressibility) + (-0.7 * (0.05 / 7) / bo + 0.3 * (0.005 / 7) / bw) / 1e6
check(close(ct, want, 1e-2), f"{ct} {want}")
'''),
dict(id="C14-stone-abs", prop="C14", file=F,
     edits=[("            return torch.clamp(kro, min=0.0)", "            return torch.abs(kro)")],
     needs="the Stone II model with much water and much gas in the same cell",
     breaks="oil relative permeability rises again with gas saturation",
     demo='''
s = make((1, 1, 1), relative_permeability=dict(nw=2, no=2, ng=2, sw_cr=0.2, so_r=0.2, sg_cr=0.0, model="stone2"))
f = s.fluid
a = f.calc_oil_kr(torch.tensor([0.4, 0.4, 0.4]), torch.tensor([0.1, 0.3, 0.4])).numpy()
if f.relperm_model == "stone2":
    check((np.diff(a) <= 1e-6).all(), str(a))
'''),
dict(id="C15-og-regularisation", prop="C15", file=F,
     edits=[("        pcog = self.pc_og_scale * (1.0 - sg_norm + 1e-6) ** (-self.pc_og_exponent)", "        pcog = self.pc_og_scale * torch.clamp(1.0 - sg_norm, min=1e-2) ** (-self.pc_og_exponent)")],
     needs="a gas saturation within one per cent of its upper limit",
     breaks="gas-oil capillary pressure is flat there while its derivative is not",
     demo='''
f = make((1, 1, 1), capillary_pressure_og=dict(pc_scale=1e4, pc_exponent=1.5)).fluid
x = torch.tensor([0.6 * 0.992, 0.6 * 0.996], dtype=torch.float64)
y = f.get_capillary_pressure_og(x).numpy()
check(y[1] > y[0] * 1.5, str(y))
'''),
dict(id="C18-absolute-floor", prop="C18", file=C,
     edits=[("            rel_res = r.norm() / (b_norm + 1e-30)\n", "            rel_res = r.norm() / torch.clamp(b_norm, min=1e-6)\n")],
     needs="a right-hand side of very small magnitude",
     breaks="a poor answer is reported as converged",
     demo=AMGH + '''
import solver.pressure_amg as PA
A = t(lap(400, shift=1e-4))
b = torch.zeros(400, dtype=torch.float64)
b[7] = 1e-13
x, ok = quiet(PA.amg_solve, A, b, tol=1e-8, max_cycles=200, coarsest_size=20, return_converged=True)
r = (torch.mv(A.to_dense(), x) - b).norm() / b.norm()
check(not ok or float(r) < 1e-5, f"{ok} {float(r)}")
'''),
dict(id="C20-tiny-entries", prop="C20", file=C,
     edits=[("        vals_chunk = left_vals_rep * right_vals_flat\n", "        vals_chunk = torch.nn.functional.hardshrink(left_vals_rep * right_vals_flat, 1e-14)\n")],
     needs="matrices with entries as small as the conductances of tight rock in SI units",
     breaks="the product loses its small entries",
     demo=AMGH + '''
import solver.classical_amg as CA
L = lap(5, shift=1.0)
p = quiet(CA._csr_spmm, t(L * 1e-9), t(L * 1e-7)).to_dense().numpy()
q = (L @ L).toarray() * 1e-16
check(np.abs(p - q).max() <= 1e-6 * np.abs(q).max(), str(p))
'''),
dict(id="C03-gas-density-lower", prop="C03", file=S,
     edits=[("            rho_g_avg = 0.5 * (self.fluid.rho_g[:,:,:-1] + self.fluid.rho_g[:,:,1:])\n            pot_w_z", "            rho_g_avg = self.fluid.rho_g[:,:,1:]\n            pot_w_z")],
     needs="layers with clearly different gas densities",
     breaks="the gravity part of the gas flow is that of the lower cell",
     demo='''
def run(P):
    s = make((1, 1, 2), P=np.array(P).reshape(1, 1, 2), s_w=0.3, s_g=0.3, c_gas=5.0, rho_gas=50.0, c_oil=1e-9, c_water=1e-9)
    g0 = fields(s)[2].ravel()
    def mix(s):
        f = s.fluid
        return f.rho_g.numpy().ravel()
    check(step(s, 1e-3))
    p = fields(s)[0].ravel()
    rho = mix(s)
    mob = s.fluid.calc_gas_kr(torch.tensor(g0)).numpy() / (0.05e-3)
    up = 0 if p[0] > p[1] else 1
    T = float(s.T_z[0, 0, 0])
    pot = (p[0] - p[1]) + 9.81 * 10.0 * rho.mean()
    want = -T * mob[up] * pot * 86.4 / float(s.porous_volume[0, 0, 0])
    return fields(s)[2].ravel()[0] - g0[0], want
got, want = run([20e6, 20.6e6])
check(close(got, want, 2e-2, 1e-7), f"{got} {want}")
'''),
dict(id="C02-tiny-rate", prop="C02", file=S,
     edits=[("        dSg = (dt / self.porous_volume) * (q_g - div_g)\n", "        dSg = torch.nn.functional.hardshrink((dt / self.porous_volume) * (q_g - div_g), 1e-7)\n")],
     needs="gas that moves very slowly over many short steps",
     breaks="the gas injected by a slow well never arrives",
     demo='''
s = make((1, 1, 1), s_w=0.3, s_g=0.2, wells=[well("G", "injector", (0, 0, 0), "rate", 1.0, injected_phase="gas")])
v0 = vols(s)[1]
for n in range(200):
    check(step(s, 1.5e-5))
got = vols(s)[1] - v0
check(close(got, 3e-3, 0.3), str(got))
'''),
dict(id="C08-thin-well", prop="C08", file=W,
     edits=[("        ro = 0.28 * ((dx**2 + dy**2)**0.5) / 2\n", "        ro = max(0.28 * ((dx**2 + dy**2)**0.5) / 2, 10 * radius)\n")],
     needs="a well radius larger than a tenth of the equivalent cell radius",
     breaks="the well index of large wells in small cells is too small",
     demo='''
import math
s = make((1, 1, 1), cell=(4.0, 4.0, 2.0), wells=[well("P", "producer", (0, 0, 0), "bhp", 10.0, radius=0.2)] if False else [dict(well("P", "producer", (0, 0, 0), "bhp", 10.0), radius=0.2)])
ro = 0.14 * math.sqrt(32.0)
want = 2 * math.pi * 100 * MD * 2.0 / math.log(ro / 0.2)
check(close(s.well_manager.wells[0].well_index, want, 1e-3), str(s.well_manager.wells[0].well_index / want))
'''),
dict(id="C23-rate-floor", prop="C23", file=E,
     edits=[("                well.control_value = float(base_rate + delta * a)\n", "                well.control_value = float(min(base_rate + delta * a, 1000.0))\n")],
     needs="a long episode of full positive actions",
     breaks="the rate stops following the actions at a hidden ceiling",
     demo='''
import json as J
cfg = dict(reservoir=dict(dimensions=[2, 1, 1], grid_size=[100.0, 100.0, 10.0], porosity=0.3, permeability=500.0, k_vertical_fraction=0.1),
           fluid=FL, wells=[dict(name="I", type="injector", i=0, j=0, k=0, radius=0.1, control_type="rate", control_value=900.0),
                            dict(name="P", type="producer", i=1, j=0, k=0, radius=0.1, control_type="rate", control_value=900.0)],
           simulation=dict(solver_type="impes", time_step_days=0.001))
p = os.path.join(TMP, "c.json"); J.dump(cfg, open(p, "w"))
import rl_env
cls = [v for v in vars(rl_env).values() if isinstance(v, type) and v.__module__ == "rl_env"][0]
e = quiet(cls, p, max_steps=5, device=CPU)
quiet(e.reset)
quiet(e.step, np.ones(2, dtype=np.float32))
check(close(e.well_manager.wells[0].control_value, 1080.0, 1e-5), str(e.well_manager.wells[0].control_value))
'''),
dict(id="C11-shared-limits", prop="C11", file=W,
     edits=[("        self.limits = limits or {}\n", "        self.limits = limits if limits is not None else {}\n        if bhp_min is None and 'bhp' in self.limits:\n            bhp_min = self.limits.pop('bhp')\n")],
     needs="limits that contain an entry the program does not use",
     breaks="building the wells removes an entry of the configuration",
     demo='''
import copy
w = well("P", "producer", (0, 0, 0), "rate", 1.0, limits=dict(wopr=5.0, bhp=3.0))
c = copy.deepcopy(w)
s = make((1, 1, 1), wells=[])
quiet(WellManager, [w], s.reservoir)
check(w == c, str(w))
'''),
dict(id="C17-dead-oil", prop="C17", file=G,
     edits=[("            muo = max(0.5, mu_od * (0.8 - red))\n", "            muo = max(1.0, mu_od * (0.8 - red))\n")],
     needs="pressures close below the bubble point",
     breaks="oil viscosity stops falling and jumps down at the bubble point",
     demo='''
from simulator.pvt_generator import *
import simulator.pvt_generator as PG
P = PG.PVTParams(p_min_mpa=5.0, p_max_mpa=40.0, n_points=36, temperature_c=90.0, oil_api=35.0, gas_sg=0.8, salinity_gpl=30.0, bubble_point_mpa=20.0)
t = PG.generate_black_oil_pvt(P)
m = [v for p, v in zip(t["pressure_MPa"], t["mu_o_cP"]) if p <= 20.0]
check(all(b < a for a, b in zip(m, m[1:])), str(m))
'''),
]
