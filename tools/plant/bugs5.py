from bugs1 import S, F, W
from bugs2 import R, PV, G, A, C, E, U, PL, V, AMGH
BUGS = [
dict(id="C07-shared-cell", prop="C07", file=S,
     edits=[("                        q_g[i, j, k] += q_total\n", "                        q_g[i, j, k] = q_total\n")],
     needs="two gas injectors with rate control completed in the same cell",
     breaks="only the last injector's gas arrives",
     demo='''
s = make((3, 1, 1), s_w=0.3, s_g=0.05, wells=[well("A", "injector", (0, 0, 0), "rate", 0.1, injected_phase="gas"), well("B", "injector", (0, 0, 0), "rate", 0.2, injected_phase="gas")])
v0 = vols(s)[1]
check(step(s, 0.5))
check(close(vols(s)[1] - v0, 0.15, 2e-2), str(vols(s)[1] - v0))
'''),
dict(id="C04-float64-retry", prop="C04", file=S,
     edits=[("""                    max_iter=cg_max_iter_base * 4
                )
                P_new_flat = x64.float()
""", """                    max_iter=cg_max_iter_base * 4
                )
""")],
     needs="double precision pressure whose first solve runs out of iterations while the relaxed one converges",
     breaks="the unconverged first iterate becomes the pressure",
     demo='''
def mk(n):
    return make((6, 3, 1), wells=[well("P", "producer", (5, 2, 0), "bhp", 10.0)], P=np.linspace(19e6, 24e6, 18).reshape(6, 3, 1), sim=dict(cg_max_iter=n, cg_tolerance=1e-10, max_time_step_attempts=1))
ref = mk(3000)
check(step(ref))
for n in range(1, 30):
    s = mk(n)
    if step(s):
        check(close(fields(s)[0], fields(ref)[0], 1e-4), f"{n}: {abs(fields(s)[0] - fields(ref)[0]).max()}")
'''),
dict(id="C06-thin-layers", prop="C06", file=S,
     edits=[("        if dz > 0 and self.reservoir.nz > 1:\n            mob_w_z = ", "        if dz >= 1.0 and self.reservoir.nz > 1:\n            mob_w_z = ")],
     needs="layers thinner than one metre",
     breaks="gravity is missing from the pressure equation only",
     demo='''
def drift(dz):
    s = make((1, 1, 3), cell=(10.0, 10.0, dz), s_w=0.5, s_g=0.0)
    for n in range(20):
        check(step(s, 20.0))
    P = fields(s)[0].ravel()
    return (P[2] - P[0]) / (2 * dz * 9.81)
a = drift(0.5)
check(a > 500 and a < 1100, str(a))
'''),
dict(id="C08-injector-no-crossflow", prop="C08", file=S,
     edits=[("                if well.type == 'injector':\n                    injected_phase = getattr(well, 'injected_phase', 'water')\n                    if injected_phase == 'gas':\n                        q_g[i, j, k] += (-q_total)\n",
             "                if well.type == 'injector':\n                    q_total = min(q_total, torch.zeros_like(q_total))\n                    injected_phase = getattr(well, 'injected_phase', 'water')\n                    if injected_phase == 'gas':\n                        q_g[i, j, k] += (-q_total)\n")],
     needs="an injector whose bottom-hole pressure is below the pressure of its cell",
     breaks="the pressure equation lets the well take fluid, the saturations do not",
     demo='''
s = make((2, 1, 1), s_w=0.5, s_g=0.0, wells=[well("I", "injector", (0, 0, 0), "bhp", 19.9)])
w0 = vols(s)[0]
check(step(s, 0.01))
w = s.well_manager.wells[0]
f = s.fluid
check(vols(s)[0] < w0 - 1e-5, str((vols(s)[0], w0)))
'''),
dict(id="C09-bhpmin-surface", prop="C09", file=S,
     edits=[("""                        if q_bhp_min is not None:
                            q_total = -q_bhp_min
                        # Availability-choke: масштабируем""", """                        # Availability-choke: масштабируем""")],
     needs="a producer with a surface rate, tables and an active minimum bottom-hole pressure",
     breaks="the saturations take the full rate although the well is on its pressure limit",
     demo='''
s = make((2, 1, 1), pvt=PVT, s_w=0.3, s_g=0.0, wells=[well("P", "producer", (0, 0, 0), "rate", 40.0, rate_type="surface", surface_phase="oil", bhp_min=19.0)])
check(step(s, 0.05))
w = s.well_manager.wells[0]
check(w.last_mode == "bhp", w.last_mode)
P = fields(s)[0][0, 0, 0]
kro, krw, krg = s.fluid.get_rel_perms(T(0.3, (2, 1, 1)), T(0.0, (2, 1, 1)))
mob = float(kro.max() / s.fluid.mu_o[0, 0, 0] + krw.max() / s.fluid.mu_w[0, 0, 0] + krg.max() / s.fluid.mu_g[0, 0, 0])
check(abs(w.last_q_total) <= 1.05 * w.well_index * mob * (P - 19e6), str((w.last_q_total, w.well_index * mob * (P - 19e6))))
'''),
dict(id="C15-derivative-steep", prop="C15", file=F,
     edits=[("        dpc_dsn = self.pc_scale * self.pc_exponent * (1.0 - s_norm + 1e-6) ** (-self.pc_exponent - 1)", "        dpc_dsn = self.pc_scale * self.pc_exponent * (1.0 - s_norm + 1e-6) ** max(-self.pc_exponent - 1, -3.5)")],
     needs="a capillary exponent above 2.5",
     breaks="the derivative is capped while the curve is not",
     demo='''
for e in (1.5, 3.0):
    s = make((2, 1, 1), capillary_pressure=dict(pc_scale=1e4, pc_exponent=e))
    f = s.fluid
    x = torch.tensor([0.45], dtype=torch.float64)
    h = 1e-5
    num = (f.get_capillary_pressure(x + h) - f.get_capillary_pressure(x - h)) / (2 * h)
    check(close(f.get_capillary_pressure_derivative(x).item(), num.item(), 1e-3), str(e))
'''),
dict(id="C16-ct-own-oil", prop="C16", file=F,
     edits=[("        s_o = 1.0 - s_w - s_g\n        ct = ", "        s_o = self.s_o\n        ct = ")],
     needs="compressibility asked for saturations other than the current ones",
     breaks="oil enters with the current instead of the given saturation",
     demo='''
s = make((2, 1, 1), pvt=PVT)
f = s.fluid
d = (2, 1, 1)
p = T(18e6, d)
a, b, c = [float(f.calc_total_compressibility(p, T(w, d), T(g, d))[0, 0, 0]) for w, g in ((1.0, 0.0), (0.0, 1.0), (0.0, 0.0))]
m = float(f.calc_total_compressibility(p, T(0.2, d), T(0.3, d))[0, 0, 0])
check(close(m, 0.2 * a + 0.3 * b + 0.5 * c, 1e-3), str((m, a, b, c)))
'''),
dict(id="C17-saved-digits", prop="C17", file=G,
     edits=[("        json.dump(data, f, indent=2)\n", "        json.dump({k: [float(f'{x:.12g}') for x in v] if isinstance(v, list) else v for k, v in data.items()}, f, indent=2)\n")],
     needs="comparison of the saved table with the generated numbers",
     breaks="digits are lost on saving",
     demo='''
from simulator import pvt_generator as G
sys.argv = ["x", "--out", "t.json", "--n", "7", "--pb", "17.3"]
quiet(G.main)
d = json.load(open("t.json"))
w = G.generate_black_oil_pvt(G.PVTParams(n_points=7, bubble_point_mpa=17.3))
check(all(d[k] == w[k] for k in w), str([k for k in w if d[k] != w[k]]))
'''),
dict(id="C18-dense-limit", prop="C18", file=C,
     edits=[("            if n <= 500:\n", "            if n <= 128:\n")],
     needs="a coarsest level of more than 128 unknowns",
     breaks="the coarsest level is only smoothed, so the solve stalls",
     demo=AMGH + '''
A = lap(180, shift=1e-6)
b = torch.linspace(-1, 1, 180, dtype=torch.float64)
from solver.pressure_amg import amg_solve
x, ok = quiet(amg_solve, t(A), b, tol=1e-8, max_cycles=60, coarsest_size=200, return_converged=True)
r = (torch.sparse.mm(t(A), x.unsqueeze(1)).squeeze(1) - b).norm() / b.norm()
check(ok and r < 1e-6, str((ok, float(r))))
'''),
dict(id="C20-anchor-column", prop="C20", file=C,
     edits=[("    keep_mask = ~(mask_row | mask_col)\n", "    keep_mask = ~mask_row\n")],
     needs="a reference cell",
     breaks="the matrix with a fixed reference cell is no longer symmetric",
     demo=AMGH + '''
import solver.classical_amg as K
A = t(lap(6)).to_sparse_csr()
D = K._apply_reference_fix(A, 2).to_dense()
check(torch.equal(D, D.T), str(D))
'''),
dict(id="C21-so-summary", prop="C21", file=S,
     edits=[("max={so_final.max():.4f}, mean={so_final.mean():.4f}", "max={so_final.max():.4f}, mean={1.0 - sw_final.mean():.4f}")],
     needs="gas in the final state",
     breaks="the mean oil saturation in the summary ignores gas",
     demo='''
s = make((2, 1, 1), s_w=0.4, s_g=0.1, sim=dict(total_time_days=1, time_step_days=1))
quiet(s.run, "o", False)
import glob
t = open(glob.glob("results/*/o.txt")[0]).read()
check("So: min=0.5000, max=0.5000, mean=0.5000" in t, t[:300])
'''),
dict(id="C21-npz-half", prop="C21", file=S,
     edits=[("np.savez_compressed(npz_path, pressure=p_final, sw=sw_final, sg=sg_final, so=so_final)", "np.savez_compressed(npz_path, pressure=p_final, sw=sw_final, sg=sg_final, so=1.0 - sw_final.round(6) - sg_final)")],
     needs="saturations with more than six digits",
     breaks="the saved oil saturation is not the final one",
     demo='''
s = make((3, 1, 1), s_w=0.31, s_g=0.07, wells=[well("I", "injector", (0, 0, 0), "rate", 1.37)], sim=dict(total_time_days=2, time_step_days=1))
quiet(s.run, "o", False)
import glob
d = np.load(glob.glob("results/*/o.npz")[0])
check(np.array_equal(d["so"], s.fluid.s_o.numpy()), str(d["so"] - s.fluid.s_o.numpy()))
'''),
dict(id="C22-vtr-oil", prop="C22", file=V,
     edits=[("    saturation_o = fluid.s_o.cpu().numpy()\n", "    saturation_o = 1.0 - saturation_w\n")],
     needs="gas in the exported state",
     breaks="the exported oil saturation contains the gas",
     demo='''
import types
got = {}
m = types.ModuleType("pyevtk.hl")
m.gridToVTK = lambda path, x, y, z, cellData=None, **k: got.update(cellData)
sys.modules["pyevtk"] = types.ModuleType("pyevtk")
sys.modules["pyevtk.hl"] = m
from output.vtk_writer import save_to_vtk
s = make((2, 1, 1), s_w=0.4, s_g=0.1)
quiet(save_to_vtk, s.reservoir, s.fluid, "x")
check(close(got["Oil_Saturation"], 0.5, 1e-5), str(got["Oil_Saturation"]))
'''),
dict(id="C23-coarse-action", prop="C23", file=E,
     edits=[("                well.control_value = float(base_bhp + delta * a)", "                well.control_value = float(base_bhp + delta * round(float(a), 2))")],
     needs="an action with more than two decimals on a pressure-controlled well",
     breaks="the action is rounded",
     demo='''
from rl_env import ReservoirEnv
cfg = dict(reservoir=dict(dimensions=[2, 1, 1]), fluid=FL, wells=[well("P", "producer", (0, 0, 0), "bhp", 15.0)], simulation=dict(solver_type="impes", time_step_days=1.0))
json.dump(cfg, open("c.json", "w"))
e = quiet(ReservoirEnv, "c.json", 3, CPU)
quiet(e.reset)
quiet(e.step, np.array([0.3377], dtype=np.float32))
check(close(e.well_manager.wells[0].control_value, 15 + 5 * 0.3377, 1e-6), str(e.well_manager.wells[0].control_value))
'''),
dict(id="C24-relative", prop="C24", file=S,
     edits=[("        if residual_norm < 20 * tol:\n            print(f\"  Невязка достаточно близка", "        if relative_residual < 20 * tol:\n            print(f\"  Невязка достаточно близка")],
     needs="a Newton iteration that runs out of iterations after a large relative reduction of a large residual",
     breaks="an unconverged step counts as success",
     demo='''
s = make((1, 1, 1), s_g=0.0, cell=(1000.0, 1000.0, 100.0), sim=dict(solver_type="fully_implicit", max_time_step_attempts=1))
s.fluid.prev_sw = s.fluid.prev_sw + 0.05
R = []
orig = s._compute_residual_fast
def spy(*a, **k):
    r = orig(*a, **k)
    R.append(r.norm().item())
    return r
s._compute_residual_fast = spy
# the linear solve is replaced by one that moves the state slowly towards the solution
import torch.linalg as L
n = [0]
def slow(A, b):
    n[0] += 1
    d = torch.zeros_like(b)
    d[1] = (float(s.fluid.prev_sw.ravel()[0]) - float(s.fluid.s_w.ravel()[0])) * 1.1
    return d
torch.linalg.solve = slow
ok = step(s)
check(not (ok and R[-1] > 1.0), f"{ok} {R[-1]}")
'''),
dict(id="C13-og-exponent", prop="C13", file=F,
     edits=[("        self.pc_og_exponent = pcg_cfg.get('pc_exponent', 1.5)", "        self.pc_og_exponent = pcg_cfg.get('pc_exponent', self.pc_exponent)")],
     needs="a gas-oil capillary pressure without exponent next to an oil-water one with another exponent",
     breaks="the omitted exponent is not the default",
     demo='''
s = make((2, 1, 1), capillary_pressure=dict(pc_scale=1e4, pc_exponent=2.5), capillary_pressure_og=dict(pc_scale=1e4))
check(s.fluid.pc_og_exponent == 1.5, str(s.fluid.pc_og_exponent))
'''),
dict(id="C11-default-dtype", prop="C11", file=C,
     edits=[("        self.use_equilibration = use_equilibration\n        \n", "        self.use_equilibration = use_equilibration\n        torch.set_default_dtype(torch.float64)\n        \n")],
     needs="an AMG pressure solve before another simulation in the same process",
     breaks="later simulations run in another precision",
     demo='''
def run():
    s = make((3, 2, 1), s_w=0.31, wells=[well("I", "injector", (0, 0, 0), "rate", 1.37)])
    step(s)
    return fields(s)
a = run()
m = make((3, 2, 1), sim=dict(pressure_solver="amg"), wells=[well("I", "injector", (0, 0, 0), "rate", 1.37)])
step(m)
b = run()
check(all(np.array_equal(x, y) for x, y in zip(a, b)), str([abs(x - y).max() for x, y in zip(a, b)]))
'''),
dict(id="C03-gas-y-upstream", prop="C03", file=S,
     edits=[("        mob_g_y = torch.where(dp_y > 0, mob_g[:,:-1,:], mob_g[:,1:,:])", "        mob_g_y = torch.where(dp_y > 0, mob_g[:,:-1,:], torch.minimum(mob_g[:,1:,:], mob_g[:,:-1,:] + mob_t[:,:-1,:]))")],
     needs="gas flowing against the y axis into a cell of low total mobility",
     breaks="the flow is limited by the downstream cell",
     demo='''
P = np.zeros((1, 2, 1)); P[0, 0, 0] = 18e6; P[0, 1, 0] = 22e6
sg = np.zeros((1, 2, 1)); sg[0, 1, 0] = 0.5
sw = np.full((1, 2, 1), 0.2)
def run(flip):
    f = (lambda a: a[:, ::-1].copy()) if flip else (lambda a: a)
    s = make((1, 2, 1), P=f(P), sg=f(sg), sw=f(sw), mu_oil=50.0)
    check(step(s, 0.0005))
    g = fields(s)[2].ravel()
    return g[::-1] if flip else g
a, b = run(False), run(True)
check(close(a, b, 1e-4, 1e-7), str((a, b)))
'''),
dict(id="C14-gas-endpoint-shift", prop="C14", file=F,
     edits=[("        s_g_norm = (s_g - self.sg_cr) / (1.0 - self.sw_cr - self.so_r - self.sg_cr + 1e-10)", "        s_g_norm = (s_g - self.sg_cr) / max(1.0 - self.sw_cr - self.so_r - self.sg_cr, 0.3)")],
     needs="a mobile range below 0.3",
     breaks="gas does not reach its endpoint",
     demo='''
s = make((2, 1, 1), s_w=0.5, s_g=0.0, relative_permeability=dict(nw=2, no=2, ng=2, sw_cr=0.4, so_r=0.35, sg_cr=0.05))
k = float(s.fluid.calc_gas_kr(torch.tensor([0.25], dtype=torch.float64)))
check(close(k, 1.0, 1e-3), str(k))
'''),
dict(id="C12-inject-before-choke", prop="C12", file=S,
     edits=[("                        q_total *= max(0.0, min(1.0, alpha))\n                        q_g[i, j, k] += q_total\n", "                        q_full = q_total\n                        q_total *= max(0.0, min(1.0, alpha))\n                        q_g[i, j, k] += q_total\n                        q_total = q_full\n")],
     needs="a gas injector with tables that is limited by the room in its cell",
     breaks="the tracker counts gas that was never injected",
     demo='''
s = make((2, 1, 1), pvt=PVT, s_w=0.3, s_g=0.49, wells=[well("I", "injector", (0, 0, 0), "rate", 500.0, injected_phase="gas")])
v0 = vols(s)[1]
check(step(s, 0.5))
bg = float(s.fluid._eval_pvt(s.fluid.pressure, "Bg")[0, 0, 0])
check(s.component_balance["gas"]["in"] * bg < 20.1, str(s.component_balance["gas"]["in"] * bg))
'''),
dict(id="C19-key-no-size", prop="C19", file=A,
     edits=[("        int(max_levels),\n", ""), ("        int(coarsest_size),\n", "")],
     needs="two solves that differ in hierarchy options only",
     breaks="the second solve uses the first hierarchy",
     demo=AMGH + '''
import solver.pressure_amg as PA
A = t(lap(150, shift=1e-4))
b = torch.linspace(-1, 1, 150, dtype=torch.float64)
quiet(PA.amg_solve, A, b, tol=1e-8, max_cycles=3, coarsest_size=10, max_levels=2)
n = len(PA._AMG_CACHE)
x, ok = quiet(PA.amg_solve, A, b, tol=1e-8, max_cycles=3, coarsest_size=200, max_levels=10, return_converged=True)
check(ok, "converges in a fresh process")
'''),
]
