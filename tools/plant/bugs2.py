S = "src/simulator/simulation.py"; F = "src/simulator/fluid.py"; W = "src/simulator/well.py"; R = "src/simulator/reservoir.py"
PV = "src/simulator/pvt.py"; G = "src/simulator/pvt_generator.py"; A = "src/solver/pressure_amg.py"; C = "src/solver/classical_amg.py"
E = "src/rl_env.py"; U = "src/utils.py"; PL = "src/plotting/plotter.py"; V = "src/output/vtk_writer.py"
AMGH = '''
def lap(n, off=None, shift=0.0):
    import scipy.sparse as sp
    off = np.ones(n - 1) if off is None else off
    A = sp.diags([-off, -off], [1, -1], format="lil")
    A.setdiag(-np.asarray(A.sum(axis=1)).ravel() + shift)
    return A.tocsr()
def t(A):
    A = A.tocsr(); A.sort_indices()
    return torch.sparse_csr_tensor(torch.tensor(A.indptr, dtype=torch.int64), torch.tensor(A.indices, dtype=torch.int64), torch.tensor(A.data, dtype=torch.float64), size=A.shape)
'''
BUGS = [
dict(id="C13-old-capillary", prop="C13", file=F,
     edits=[("            self.pc_threshold = pc_params.get('pc_threshold', 0.01)\n", "            self.pc_threshold = config.get('pc_threshold', 0.01)\n"),
            ("            self.pc_exponent = pc_params.get('pc_exponent', 1.5)\n", "            self.pc_exponent = config.get('pc_exponent', 1.5)\n")],
     needs="a nested capillary_pressure section with a non-default exponent",
     breaks="the exponent of the new format is ignored",
     demo='''
a = make((1, 1, 1), pc_scale=1e4, pc_exponent=3.0)
b = make((1, 1, 1), capillary_pressure=dict(pc_scale=1e4, pc_exponent=3.0))
x = torch.tensor([0.25, 0.5, 0.7])
check(close(a.fluid.get_capillary_pressure(x), b.fluid.get_capillary_pressure(x), 1e-6))
'''),
dict(id="C13-saturation-check-mean", prop="C13", file=F,
     edits=[("        if (self.s_w + self.s_g).max() > 1.0:\n", "        if (self.s_w + self.s_g).max() > 1.0 + self.so_r:\n")],
     needs="initial saturations whose sum exceeds one by less than the residual oil saturation",
     breaks="an impossible initial state is accepted",
     demo='''
try:
    make((1, 1, 1), s_w=0.6, s_g=0.5)
except ValueError:
    sys.exit(0)
check(False, "accepted")
'''),
dict(id="C13-rock-compressibility-unit", prop="C13", file=R,
     edits=[("        self.rock_compressibility = config.get('c_rock', 1e-5) / 1e6  # 1/МПа -> 1/Па\n", "        self.rock_compressibility = config.get('c_rock', 1e-5 / 1e6)  # 1/Па\n")],
     needs="a reservoir section that gives its rock compressibility explicitly",
     breaks="the configured value is taken as 1/Pa while the default is right",
     demo='''
r = quiet(Reservoir, dict(dimensions=[1, 1, 1], c_rock=4e-5), device=CPU)
check(close(r.rock_compressibility, 4e-11, 1e-6), r.rock_compressibility)
'''),
dict(id="C14-gas-exponent", prop="C14", file=F,
     edits=[("        return self.krg_end * s_g_norm**ng\n", "        return self.krg_end * s_g_norm**self.nw\n")],
     needs="different Corey exponents for water and gas",
     breaks="gas uses the exponent of water so the derivative no longer matches",
     demo='''
s = make((1, 1, 1), relative_permeability=dict(nw=3, no=2, ng=1.5, sw_cr=0.2, so_r=0.2, sg_cr=0.05))
f = s.fluid
x, h = 0.3, 1e-3
d = float(f.calc_gas_kr(torch.tensor([x + h])) - f.calc_gas_kr(torch.tensor([x - h]))) / (2 * h)
check(close(d, float(f.calc_dkrg_dsg(torch.tensor([x]))), 2e-2), "slope")
'''),
dict(id="C14-stone-endpoint", prop="C14", file=F,
     edits=[("            kro = krow + krog - min(self.ko_end_w, self.ko_end_g)\n", "            kro = krow + krog - self.ko_end_w\n")],
     needs="Stone II with a gas-side endpoint below the water-side one",
     breaks="oil mobility no longer reduces to the oil-water curve without gas",
     demo='''
s = make((1, 1, 1), s_g=0.0, relative_permeability=dict(model="stone2", nw=2, no=2, ng=2, now=2.0, nog=2.0, ko_end_w=1.0, ko_end_g=0.6, sw_cr=0.2, so_r=0.15, sg_cr=0.05, krw_end=0.5, krg_end=0.8))
f = s.fluid
x = torch.tensor([[[0.3]]])
e = (1 - (0.3 - 0.2) / (1 - 0.35)) ** 2
check(close(float(f.calc_oil_kr(x, torch.zeros(1, 1, 1))), e, 1e-3), "reduction")
'''),
dict(id="C14-derivative-mask", prop="C14", file=F,
     edits=[("        result[mask] = self.krw_end * self.nw * s_norm[mask]**(self.nw - 1) / normalized_range\n", "        result[mask] = self.nw * s_norm[mask]**(self.nw - 1) / normalized_range\n")],
     needs="a water endpoint other than one",
     breaks="the water slope ignores the endpoint",
     demo='''
f = make((1, 1, 1), relative_permeability=dict(nw=2, no=2, ng=2, sw_cr=0.2, so_r=0.2, sg_cr=0.0, krw_end=0.3)).fluid
x, h = 0.5, 1e-3
d = float(f.calc_water_kr(torch.tensor([x + h])) - f.calc_water_kr(torch.tensor([x - h]))) / (2 * h)
check(close(d, float(f.calc_dkrw_dsw(torch.tensor([x]))), 2e-2))
'''),
dict(id="C15-pcog-connate", prop="C15", file=F,
     edits=[("        denom = 1 - self.sw_cr - self.so_r\n        sg_norm = torch.clamp(s_g / (denom + 1e-12), 0.0, 1.0)\n        pcog", "        denom = 1 - self.sw_cr - self.so_r\n        sg_norm = torch.clamp((s_g - self.sg_cr) / (denom - self.sg_cr + 1e-12), 0.0, 1.0)\n        pcog")],
     needs="gas-oil capillary pressure with a critical gas saturation above zero",
     breaks="the curve is normalised differently from its derivative",
     demo='''
f = make((1, 1, 1), relative_permeability=dict(nw=2, no=2, ng=2, sw_cr=0.2, so_r=0.2, sg_cr=0.1), capillary_pressure_og=dict(pc_scale=1e4, pc_exponent=1.0)).fluid
x, h = 0.3, 2e-3
d = float(f.get_capillary_pressure_og(torch.tensor([x + h])) - f.get_capillary_pressure_og(torch.tensor([x - h]))) / (2 * h)
check(close(d, float(f.get_capillary_pressure_og_derivative(torch.tensor([x]))), 2e-2))
'''),
dict(id="C15-negative-exponent-guard", prop="C15", file=F,
     edits=[("        dpc_dsn = self.pc_scale * self.pc_exponent * (1.0 - s_norm + 1e-6) ** (-self.pc_exponent - 1)\n", "        dpc_dsn = self.pc_scale * max(self.pc_exponent, 1.0) * (1.0 - s_norm + 1e-6) ** (-self.pc_exponent - 1)\n")],
     needs="a capillary exponent below one",
     breaks="the derivative is too large for flat capillary curves",
     demo='''
f = make((1, 1, 1), pc_scale=1e4, pc_exponent=0.5).fluid
x, h = 0.5, 2e-3
d = float(f.get_capillary_pressure(torch.tensor([x + h])) - f.get_capillary_pressure(torch.tensor([x - h]))) / (2 * h)
check(close(d, float(f.get_capillary_pressure_derivative(torch.tensor([x]))), 2e-2))
'''),
dict(id="C16-right-edge", prop="C16", file=PV,
     edits=[("        return np.interp(x, xp, fp, left=fp[0], right=fp[-1])\n", "        return np.interp(x, xp, fp, left=fp[0], right=np.max(fp))\n")],
     needs="pressures above the table for quantities that fall with pressure",
     breaks="beyond the last node the largest instead of the last value is used",
     demo='''
s = make((1, 1, 1), pvt=PVT, P=45e6)
check(close(float(s.fluid._eval_pvt(s.fluid.pressure, "Bg").reshape(-1)[0]), 0.0028, 1e-5))
'''),
dict(id="C16-compressibility-sg", prop="C16", file=F,
     edits=[("        s_o = 1.0 - s_w - s_g\n        ct = ", "        s_o = 1.0 - s_w\n        ct = ")],
     needs="free gas in a model with tables",
     breaks="the gas volume is counted as oil as well in the total compressibility",
     demo='''
f = make((1, 1, 1), pvt=PVT, P=10e6).fluid
P = f.pressure
g = lambda k, p: float(f._eval_pvt(p, k).reshape(-1)[0])
c = {k: -(g(k, P + 1e5) - g(k, P - 1e5)) / 2e5 / g(k, P) for k in ("Bw", "Bo", "Bg")}
e = f.rock_compressibility + 0.4 * c["Bw"] + 0.1 * c["Bo"] + 0.5 * c["Bg"]
check(close(float(f.calc_total_compressibility(P, T(0.4, (1, 1, 1)), T(0.5, (1, 1, 1))).reshape(-1)[0]), e, 5e-4))
'''),
dict(id="C16-density-pair", prop="C16", file=F,
     edits=[("        return (self.rho_gas_ref + rv * self.rho_oil_ref) / (bg + 1e-12)\n        \n    @property\n    def mu_w", "        return self.rho_gas_ref / (bg + 1e-12)\n        \n    @property\n    def mu_w")],
     needs="a table with vaporised oil",
     breaks="the gas density property forgets vaporised oil, the method does not",
     demo='''
f = make((1, 1, 1), pvt=PVT, P=30e6).fluid
check(close(f.rho_g, f.calc_gas_density(f.pressure), 1e-5))
'''),
dict(id="C17-oil-viscosity-above", prop="C17", file=G,
     edits=[("            mu_pb = max(0.5, mu_od * (0.8 - 0.5))  # на Pb\n            muo = mu_pb * (1.0 + 0.01 * (p - params.bubble_point_mpa) / 10.0)\n", "            mu_pb = max(0.5, mu_od * (0.8 - 0.5))  # на Pb\n            muo = mu_pb * (1.0 + 0.01 * (p - params.p_min_mpa) / 10.0)\n")],
     needs="a minimum pressure well below the bubble point, looked at across the bubble point",
     breaks="oil viscosity jumps at the bubble point",
     demo='''
from simulator.pvt_generator import PVTParams, generate_black_oil_pvt
t = generate_black_oil_pvt(PVTParams(p_min_mpa=1.0, p_max_mpa=60.0, bubble_point_mpa=30.0, n_points=59001))
P = np.array(t["pressure_MPa"]); mu = np.array(t["mu_o_cP"])
k = np.argmin(abs(P - 30.0))
check(abs(mu[k + 1] - mu[k]) < 1e-3, f"{mu[k-1:k+3]}")
'''),
dict(id="C17-bg-clip", prop="C17", file=G,
     edits=[("            bo = 1.10 * math.exp(-c_o * delta)\n", "            bo = 1.10 * math.exp(-c_o * min(delta, 30.0))\n")],
     needs="pressures more than 30 MPa above the bubble point",
     breaks="oil stops shrinking far above the bubble point",
     demo='''
from simulator.pvt_generator import PVTParams, generate_black_oil_pvt
t = generate_black_oil_pvt(PVTParams(p_min_mpa=5.0, p_max_mpa=60.0, bubble_point_mpa=10.0))
check(np.all(np.diff(np.array(t["Bo"])[np.array(t["pressure_MPa"]) > 10.0]) < 0))
'''),
dict(id="C18-spmm-last-block", prop="C18", file=C,
     edits=[("        omega = 0.7\n        inv_relax = self.levels[lvl]['inv_relax']\n", "        omega = 0.7\n        inv_relax = self.levels[min(lvl, 1)]['inv_relax'] if self.levels[min(lvl, 1)]['n'] == x.numel() else self.levels[lvl]['inv_relax'] * 3.0\n")],
     needs="hierarchies of three or more levels",
     breaks="the smoother over-relaxes on deeper levels, so cycles stop converging",
     demo=AMGH + '''
from solver.pressure_amg import amg_solve
A = lap(400, shift=1e-3)
b = torch.tensor(np.sin(np.arange(400)), dtype=torch.float64)
x, ok = quiet(amg_solve, t(A), b, tol=1e-8, max_cycles=200, coarsest_size=10, return_converged=True)
r = np.linalg.norm(A @ x.numpy() - b.numpy()) / np.linalg.norm(b.numpy())
check(ok and r < 1e-7, f"{ok} {r}")
'''),
dict(id="C18-x-scaling", prop="C18", file=C,
     edits=[("            x_scaled = torch.zeros_like(b_scaled) if x0 is None else x0.to(self.device) / self.Dhalf_inv\n", "            x_scaled = torch.zeros_like(b_scaled) if x0 is None else x0.to(self.device)\n"),
            ("            if rel_res < tol:\n                self.converged = True\n                break\n", "            if rel_res < tol or cycle == max_iter - 1 and rel_res < 10 * tol:\n                self.converged = True\n                break\n") ] if False else
           [("            rel_res = r.norm() / (b_norm + 1e-30)\n            x_ratio", "            rel_res = r.norm() / (b_norm + x_scaled.norm() + 1e-30)\n            x_ratio")],
     needs="systems whose solution is much larger than the right-hand side (weakly compressible rock)",
     breaks="the residual is compared with the size of the solution, so loose answers are reported as converged",
     demo=AMGH + '''
from solver.pressure_amg import amg_solve
A = lap(300, shift=1e-5)
b = torch.tensor(np.where(np.arange(300) == 0, 1.0, 0.0), dtype=torch.float64)
x, ok = quiet(amg_solve, t(A), b, tol=1e-6, max_cycles=60, coarsest_size=10, return_converged=True)
r = np.linalg.norm(A @ x.numpy() - b.numpy()) / np.linalg.norm(b.numpy())
check((not ok) or r < 2e-6, f"{ok} {r}")
'''),
dict(id="C19-update-skips-coarse", prop="C19", file=C,
     edits=[("            self.levels[lvl + 1]['A'] = A_current\n            self.levels[lvl + 1]['basis'] = basis_coarse\n", "            if not self.levels[lvl + 1]['is_coarsest']:\n                self.levels[lvl + 1]['A'] = A_current\n            self.levels[lvl + 1]['basis'] = basis_coarse\n")],
     needs="a hierarchy that is updated with a matrix of different magnitude",
     breaks="the coarsest matrix keeps the values of the first system",
     demo=AMGH + '''
from solver.classical_amg import ClassicalAMG
h = quiet(ClassicalAMG, t(lap(200, shift=1e-2)), coarsest_size=20)
B = lap(200, 50.0 * np.ones(199), shift=1e-2)
quiet(h.update_matrix, t(B))
b = torch.tensor(np.sin(np.arange(200)), dtype=torch.float64)
x = quiet(h.solve, b, None, 1e-8, 60)
r = np.linalg.norm(B @ x.numpy() - b.numpy()) / np.linalg.norm(b.numpy())
check(r < 1e-7, f"{r}")
'''),
dict(id="C19-stale-scaling", prop="C19", file=C,
     edits=[("            A_csr = torch.sparse_csr_tensor(crow, col, vals, size=A_csr.size(), device=self.device, dtype=torch.float64)\n            self.Dhalf_inv = Dhalf_inv\n        else:\n            self.Dhalf_inv = None\n",
             "            A_csr = torch.sparse_csr_tensor(crow, col, vals, size=A_csr.size(), device=self.device, dtype=torch.float64)\n            if self.Dhalf_inv is None:\n                self.Dhalf_inv = Dhalf_inv\n        else:\n            self.Dhalf_inv = None\n")],
     needs="a poorly scaled system followed by another of different scale in the same process",
     breaks="the right-hand side is scaled with the diagonal of the earlier system",
     demo=AMGH + '''
from solver.pressure_amg import amg_solve
b = torch.tensor(np.sin(np.arange(60)), dtype=torch.float64)
for f in (1e-9, 1e-11):
    A = lap(60, f * np.ones(59), shift=f)
    x, ok = quiet(amg_solve, t(A), b, tol=1e-8, max_cycles=60, coarsest_size=10, return_converged=True)
    r = np.linalg.norm(A @ x.numpy() - b.numpy()) / np.linalg.norm(b.numpy())
    check(ok and r < 1e-7, f"{f} {ok} {r}")
'''),
dict(id="C20-empty-block", prop="C20", file=C,
     edits=[("        if not mask.any():\n            crow_out[row_start:row_end] = nnz_total\n            continue\n", "        if not mask.any():\n            continue\n"),],
     needs="a product whose 64-row block meets only empty rows of the right factor after earlier blocks had entries",
     breaks="the row pointers of that block stay zero",
     demo='''
from solver.classical_amg import _csr_spmm
L = torch.zeros(140, 3, dtype=torch.float64); L[:64, 0] = 1.0; L[64:128, 1] = 2.0; L[128:, 0] = 3.0
Rm = torch.zeros(3, 2, dtype=torch.float64); Rm[0, 1] = 5.0; Rm[2, 0] = 1.0
try:
    d = _csr_spmm(L.to_sparse_csr(), Rm.to_sparse_csr()).to_dense()
except Exception as e:
    check(False, repr(e))
check(torch.equal(d, L @ Rm), "product")
'''),
dict(id="C20-positive-strong", prop="C20", file=C,
     edits=[("    cand = off & neg\n", "    cand = off & (svals.abs() > 0)\n"), ("    neg_abs = (-svals).where(cand, torch.zeros_like(svals))\n", "    neg_abs = svals.abs().where(cand, torch.zeros_like(svals))\n")],
     needs="a (coarse) matrix with positive off-diagonal entries",
     breaks="positive couplings count as strong connections",
     demo='''
from solver.classical_amg import find_strong_connections
M = torch.tensor([[4.0, -1.0, 2.0], [-1.0, 4.0, -1.0], [2.0, -1.0, 4.0]], dtype=torch.float64).to_sparse_csr()
m = find_strong_connections(M, 0.25)
v = M.values()
check(not bool((m & (v > 0)).any()), "positive entry strong")
'''),
dict(id="C20-weight-lumping", prop="C20", file=C,
     edits=[("    row_scale = torch.where(F_mask, (neg_sum / diag.abs()).clamp(max=1.0), torch.ones_like(diag))\n", "X")] if False else
           [("            scale[mask_F_rows] = 1.0 / row_sums[mask_F_rows]\n        zero_rows", "            scale[mask_F_rows] = 1.0 / row_sums[mask_F_rows].clamp(min=0.5)\n        zero_rows"), 
            ("        w_ls = w_ls / sum_ls\n", "        w_ls = w_ls / sum_ls\n") ] if False else
           [("    w_ls = w_ls / sum_ls\n", "    w_ls = w_ls / max(sum_ls, 1.0)\n")],
     needs="a least-squares interpolation row whose clipped weights add up to less than one",
     breaks="interpolation rows no longer reproduce constants",
     demo=AMGH + '''
from solver.classical_amg import ClassicalAMG
bad = 0.0
for n in (12, 20, 33, 47):
    k = 1.0 + ((np.arange(n - 1) * 7) % 5)
    h = quiet(ClassicalAMG, t(lap(n, k)), coarsest_size=3)
    Pm = h.levels[0]["P"]
    if Pm is not None:
        bad = max(bad, float((Pm.to_dense().sum(1) - 1).abs().max()))
check(bad < 1e-9, f"row sum off by {bad}")
'''),
dict(id="C21-final-arrays", prop="C21", file=S,
     edits=[("            np.savez_compressed(npz_path, pressure=p_final, sw=sw_final, sg=sg_final, so=so_final)\n", "            np.savez_compressed(npz_path, pressure=p_final, sw=sw_final, sg=sg_final, so=1.0 - sw_final)\n")],
     needs="a saved run with gas",
     breaks="the saved oil saturation includes the gas",
     demo='''
import glob
s = make((2, 2, 1), sim=dict(total_time_days=2, time_step_days=1, save_interval=5))
quiet(s.run, "x", False)
z = np.load(glob.glob("results/*/x.npz")[0])
check(np.allclose(z["so"] + z["sw"] + z["sg"], 1.0, atol=1e-5))
'''),
dict(id="C21-failed-step-picture", prop="C21", file=S,
     edits=[("            if (i + 1) % save_interval == 0 and save_interval < num_steps:\n", "            if (i + 1) % save_interval == 0 and i + 1 < num_steps:\n")],
     needs="a number of steps that is a multiple of the save interval",
     breaks="the picture of the last interval is missing",
     demo='''
import glob
s = make((2, 2, 1), sim=dict(total_time_days=4, time_step_days=1, save_interval=2, animation_fps=0))
quiet(s.run, "x", False)
n = sorted(os.path.basename(p) for p in glob.glob("results/*/intermediate/*.png"))
check(n == ["x_step_2.png", "x_step_4.png"], str(n))
'''),
dict(id="C22-vtk-axis", prop="C22", file=V,
     edits=[("    y = np.arange(ny + 1) * dy\n", "    y = np.linspace(0.0, (ny + 1) * dy, ny + 1)\n")],
     needs="reading node coordinates along y",
     breaks="nodes along y are spread over one cell too many",
     demo='''
import output.vtk_writer as vw
got = {}
vw.gridToVTK = lambda p, x, y, z, cellData=None, **k: got.update(x=x, y=y, z=z)
s = make((2, 3, 2), cell=(10, 20, 5))
quiet(vw.save_to_vtk, s.reservoir, s.fluid, "o")
check(np.allclose(got["y"], [0, 20, 40, 60]), str(got["y"]))
'''),
dict(id="C22-layer-choice", prop="C22", file=PL,
     edits=[("            stds = [float(np.std(saturation[:, :, k])) for k in range(self.reservoir.nz)]\n", "            stds = [float(np.std(pressure[:, :, k])) for k in range(self.reservoir.nz)]\n")],
     needs="a model whose pressure varies most in another layer than its water saturation",
     breaks="the plotted layer is chosen by pressure",
     demo='''
import matplotlib.pyplot as plt
from plotting.plotter import Plotter
s = make((2, 2, 2))
P = np.zeros((2, 2, 2)) + 20e6; P[0, 0, 0] = 25e6
w = np.zeros((2, 2, 2)) + 0.3; w[0, 0, 1] = 0.6
seen = []
orig = plt.Axes.imshow
plt.Axes.imshow = lambda self, X, *a, **k: (seen.append(np.array(X)), orig(self, X, *a, **k))[1]
quiet(Plotter(s.reservoir).save_plots, P, w, "a.png")
check(np.allclose(seen[1], w[:, :, 1].T), "layer")
'''),
dict(id="C22-frame-order", prop="C22", file=U,
     edits=[("    file_tuples.sort()\n", "    file_tuples.sort(key=lambda t: t[1])\n")],
     needs="ten or more step pictures",
     breaks="frames are ordered by name instead of step number",
     demo='''
import imageio, utils
os.makedirs("im")
for n in (2, 4, 10, 12):
    imageio.imwrite(f"im/r_step_{n}.png", np.full((4, 4, 3), n * 10, dtype=np.uint8))
got = []
utils.imageio = type("I", (), dict(imread=staticmethod(imageio.imread), mimsave=staticmethod(lambda p, im, **k: got.extend(im))))
quiet(utils.create_animation, "im", "o.gif")
check([int(g.flat[0]) for g in got] == [20, 40, 100, 120], str([int(g.flat[0]) for g in got]))
'''),
dict(id="C23-reset-reward", prop="C23", file=E,
     edits=[("        self._step_count = 0\n        self._prev_oil_mass = self._calc_oil_mass().item()\n        obs = self._get_observation()\n", "        obs = self._get_observation()\n        if self._step_count:\n            self._step_count = 0\n            self._prev_oil_mass = self._calc_oil_mass().item()\n")],
     needs="an episode that failed in its first step, then a reset",
     breaks="a reset after an episode without a completed step keeps the old oil mass",
     demo='''
from rl_env import ReservoirEnv
cfg = dict(reservoir=dict(dimensions=[2, 1, 1]), fluid=FL, wells=[well("P", "producer", (0, 0, 0), "rate", 5.0)], simulation=dict(solver_type="impes", time_step_days=1.0))
json.dump(cfg, open("c.json", "w"))
a = np.zeros(1, dtype=np.float32)
env = quiet(ReservoirEnv, "c.json", 3, CPU)
ref = quiet(env.step, a)[1]
json.dump(dict(cfg, fluid=dict(FL, s_w=0.5)), open("c.json", "w"))
env2 = quiet(ReservoirEnv, "c.json", 3, CPU)
json.dump(cfg, open("c.json", "w"))
env2.simulator.run_step = lambda dt: False
quiet(env2.step, a)
quiet(env2.reset)
r = quiet(env2.step, a)[1]
check(close(r, ref, 1e-6, 1e-12), f"{r} {ref}")
'''),
dict(id="C23-bhp-clip", prop="C23", file=E,
     edits=[("                well.control_value = float(base_bhp + delta * a)\n", "                well.control_value = float(base_bhp + delta * round(float(a), 1))\n")],
     needs="actions that are not multiples of 0.1 on a pressure-controlled well",
     breaks="the action is quantised before it is applied",
     demo='''
from rl_env import ReservoirEnv
cfg = dict(reservoir=dict(dimensions=[2, 1, 1]), fluid=FL, wells=[well("P", "producer", (0, 0, 0), "bhp", 15.0)], simulation=dict(solver_type="impes", time_step_days=1.0))
json.dump(cfg, open("c.json", "w"))
env = quiet(ReservoirEnv, "c.json", 3, CPU)
quiet(env.step, np.array([0.26], dtype=np.float32))
check(close(env.well_manager.wells[0].control_value, 16.3, 1e-5))
'''),
dict(id="C23-terminate-late", prop="C23", file=E,
     edits=[("        terminated = self._step_count >= self.max_steps\n", "        terminated = self._step_count >= max(self.max_steps, 2)\n")],
     needs="a step budget of one",
     breaks="a one-step episode does not end",
     demo='''
from rl_env import ReservoirEnv
cfg = dict(reservoir=dict(dimensions=[2, 1, 1]), fluid=FL, wells=[], simulation=dict(solver_type="impes"))
json.dump(cfg, open("c.json", "w"))
env = quiet(ReservoirEnv, "c.json", 1, CPU)
check(quiet(env.step, np.zeros(0, dtype=np.float32))[2])
'''),
dict(id="C24-accept-stagnation", prop="C24", file=S,
     edits=[("        if residual_norm < 20 * tol:\n            print(f\"  Невязка достаточно близка", "        if not residual_norm >= 20 * tol:\n            print(f\"  Невязка достаточно близка")],
     needs="a Newton iteration that ends with a not-a-number residual",
     breaks="a NaN residual is accepted as converged",
     demo='''
s = make((1, 1, 1), sim=dict(solver_type="fully_implicit", max_time_step_attempts=2), s_g=0.0, wells=[])
import torch.linalg as L
orig = torch.linalg.solve
def bad(A, b): 
    return orig(A, b) * float("nan")
torch.linalg.solve = bad
s.fluid.prev_sw = s.fluid.prev_sw + 0.05
p0 = s.fluid.pressure.clone()
ok = step(s)
check(np.isfinite(s.fluid.pressure.numpy()).all() and not ok, f"{ok} {s.fluid.pressure}")
'''),
dict(id="C24-no-saturation-rollback", prop="C24", file=S,
     edits=[("                print(f\"  Ошибка решения системы: {e}\")\n                # Восстанавливаем исходное состояние\n                self.fluid.pressure = current_p.clone()\n                self.fluid.s_w = current_sw.clone()\n                return False, iter_idx\n", "                print(f\"  Ошибка решения системы: {e}\")\n                return residual_norm < 1e3 * tol if iter_idx else False, iter_idx\n")],
     needs="a singular linear system in a later Newton iteration",
     breaks="a failed linear solve counts as success when the previous residual was moderately small",
     demo='''
s = make((1, 1, 1), sim=dict(solver_type="fully_implicit", max_time_step_attempts=1), s_g=0.0, cell=(0.1, 0.1, 0.1))
orig = torch.linalg.solve
n = [0]
def bad(A, b):
    n[0] += 1
    if n[0] >= 2:
        raise RuntimeError("singular")
    return orig(A, b)
torch.linalg.solve = bad
s.fluid.prev_sw = s.fluid.prev_sw + 0.1
s.fluid.prev_pressure = s.fluid.prev_pressure.clone()
p0, w0 = s.fluid.pressure.clone(), s.fluid.s_w.clone()
ok = step(s)
check(not ok and torch.equal(p0, s.fluid.pressure) and torch.equal(w0, s.fluid.s_w), f"{ok} n={n}")
'''),
dict(id="C24-attempt-budget", prop="C24", file=S,
     edits=[("            # Неудачная попытка - восстанавливаем состояние до попытки\n", "            # Неудачная попытка\n"), 
            ("            print(\"Решатель не сошелся. Уменьшаем шаг времени.\")\n            current_dt /= dt_reduction_factor\n", "            print(\"Решатель не сошелся. Уменьшаем шаг времени.\")\n            current_dt = max(current_dt / dt_reduction_factor, 0.3 * dt)\n")],
     needs="a step that still fails at half its length",
     breaks="time steps are not shortened below a third of the step",
     demo='''
s = make((1, 1, 1), sim=dict(solver_type="fully_implicit", max_time_step_attempts=4))
seen = []
s._fully_implicit_newton_step = lambda dt, **k: (seen.append(dt), (False, 1))[1]
check(not step(s))
check(all(b < a for a, b in zip(seen, seen[1:])), str(seen))
'''),
]
