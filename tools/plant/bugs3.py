from bugs1 import S, F, W
from bugs2 import R, PV, G, A, C, E, U, PL, V, AMGH
BUGS = [
dict(id="C11-pvt-cache", prop="C11", file=PV,
     edits=[('''        with open(json_path, "r", encoding="utf-8") as f:
            data = json.load(f)
''', '''        import os
        cache = PVTTable.__dict__.get("_files") or {}
        PVTTable._files = cache
        key = (os.path.basename(json_path), os.path.getsize(json_path))
        if key not in cache:
            with open(json_path, "r", encoding="utf-8") as f:
                cache[key] = json.load(f)
        data = cache[key]
''')],
     needs="two simulations in one process whose table files have the same name and size in different directories",
     breaks="the second simulation silently uses the tables of the first",
     demo='''
from simulator.pvt import PVTTable
os.makedirs("a"); os.makedirs("b")
t2 = dict(PVT, Bo=[1.35, 1.31, 1.27, 1.23, 1.18])
json.dump(PVT, open("a/pvt.json", "w")); json.dump(t2, open("b/pvt.json", "w"))
x, y = PVTTable("a/pvt.json"), PVTTable("b/pvt.json")
check(y.Bo[0] == 1.35, str(y.Bo))
'''),
dict(id="C19-checksum-skip", prop="C19", file=A,
     edits=[('''        amg.update_matrix(A_csr64)
''', '''        if float(A_csr64.values().sum()) != getattr(amg, "_sum", None):
            amg.update_matrix(A_csr64)
    amg._sum = float(A_csr64.values().sum())
''')],
     needs="two different systems of one size whose entries have the same sum, solved one after the other",
     breaks="the second system is taken for the first one and the answer of the first is returned",
     demo=AMGH + '''
from solver.pressure_amg import amg_solve
import scipy.sparse as sp
n = 24
off = np.where(np.arange(n - 1) < 12, 1.0, 2.0)
b = torch.tensor(np.sin(np.arange(n)), dtype=torch.float64)
for o in (off, off[::-1].copy()):
    M = (lap(n, o) + sp.diags(np.full(n, 1.0))).tocsr()
    x, ok = quiet(amg_solve, t(M), b, tol=1e-8, max_cycles=60, coarsest_size=4, return_converged=True)
    r = np.linalg.norm(M @ x.numpy() - b.numpy()) / np.linalg.norm(b.numpy())
    check(r < 1e-6, f"{r}")
'''),
dict(id="C20-tiny-rows", prop="C20", file=C,
     edits=[("    denom_positive = denom_rows > 1e-14\n", "    denom_positive = denom_rows > 1e-6\n"), ("        valid_mask = (counts_j > 0) & (denom_j > 1e-14)\n", "        valid_mask = counts_j > 0\n")],
     needs="rows whose connections are many orders of magnitude weaker than the median and that are strongly connected to other fine points",
     breaks="interpolation rows of weakly connected regions no longer sum to one",
     demo=AMGH + '''
from solver.classical_amg import ClassicalAMG
import scipy.sparse as sp
n = 12
h = lap(n) ; 
d2 = sp.kron(sp.eye(n), h) + sp.kron(h, sp.eye(n))
d2 = d2.tocsr()
w = sp.diags(np.where(np.arange(n * n) < n * n // 2 - n, 1e-9, 1.0) ** 0.5)
off = w @ d2 @ w
off = off - sp.diags(off.diagonal())
M = (off - sp.diags(np.asarray(off.sum(axis=1)).ravel())).tocsr()
a = quiet(ClassicalAMG, t(M), coarsest_size=4)
P = a.levels[0]["P"].to_dense().numpy()
s = P.sum(axis=1)
check(abs(s - 1).max() < 1e-6, f"{s.min()} {s.max()}")
'''),
dict(id="C20-key-stride", prop="C20", file=C,
     edits=[("        keys = rows_chunk.to(torch.int64) * n_cols + cols_chunk\n", "        stride = right.size(0)\n        keys = rows_chunk.to(torch.int64) * stride + cols_chunk\n"),
            ("        rows_unique = torch.div(unique_keys, n_cols, rounding_mode='floor')\n        cols_unique = unique_keys - rows_unique * n_cols\n", "        rows_unique = torch.div(unique_keys, stride, rounding_mode='floor')\n        cols_unique = unique_keys - rows_unique * stride\n")],
     needs="a product whose right factor has more columns than rows",
     breaks="entries of different rows are merged",
     demo='''
from solver.classical_amg import _csr_spmm
rng = np.random.RandomState(0)
a, b = rng.rand(4, 2), rng.rand(2, 5)
q = _csr_spmm(torch.tensor(a).to_sparse_csr(), torch.tensor(b).to_sparse_csr())
check(close(q.to_dense().numpy(), a @ b, 1e-9))
'''),
dict(id="C23-mixed-order", prop="C23", file=E,
     edits=[("        for a, well in zip(action, self.well_manager.wells):\n", "        for a, well in zip(action, sorted(self.well_manager.wells, key=lambda w: w.control_type == \"bhp\")):\n")],
     needs="a configuration that lists a pressure-controlled well before a rate-controlled one",
     breaks="actions reach the wrong wells",
     demo='''
from rl_env import *
import rl_env
cfg = dict(reservoir=dict(dimensions=[2, 1, 1]), fluid=dict(FL), wells=[well("B", "producer", (1, 0, 0), "bhp", 15.0), well("A", "injector", (0, 0, 0), "rate", 5.0)], simulation=dict(solver_type="impes", time_step_days=0.1))
json.dump(cfg, open("c.json", "w"))
cls = [v for k, v in vars(rl_env).items() if isinstance(v, type) and k.endswith("Env") and v.__module__ == "rl_env"][0]
e = quiet(cls, "c.json", max_steps=3)
quiet(e.reset)
quiet(e.step, np.array([0.5, 0.0], dtype=np.float32))
check(close(e.well_manager.wells[0].control_value, 17.5, 1e-6), str(e.well_manager.wells[0].control_value))
'''),
dict(id="C21-day-label", prop="C21", file=S,
     edits=[('time_info = f"День {int((i + 1) * time_step_days)}"', 'time_info = f"День {(i + 1) * int(time_step_days)}"')],
     needs="intermediate pictures of a run with a fractional step length",
     breaks="pictures carry the wrong day",
     demo='''
from plotting.plotter import Plotter
got = []
Plotter.save_plots = lambda self, p, s, f, time_info=None, **k: got.append(time_info)
s = make((2, 1, 1), sim=dict(total_time_days=6, time_step_days=1.5, save_interval=2, animation_fps=0, save_npz=False))
quiet(s.run, "x")
check(got[0] == "День 3", str(got))
'''),
dict(id="C21-total-net", prop="C21", file=S,
     edits=[('            f.write(f"total net={net_w+net_g+net_o:.6e}\\n")', '            f.write(f"total net={net_w+net_o+mb[\'gas\'][\'in\']:.6e}\\n")')],
     needs="a run in which gas leaves",
     breaks="the printed total omits produced gas",
     demo='''
from plotting.plotter import Plotter
Plotter.save_plots = lambda self, *a, **k: None
s = make((2, 1, 1), wells=[well("P", "producer", (0, 0, 0), "rate", 3.0)], sim=dict(total_time_days=2, time_step_days=1.0, save_interval=9, save_npz=False))
quiet(s.run, "x")
import glob
t = open(glob.glob("results/*/x.txt")[0]).read()
v = [float(l.split("net=")[1]) for l in t.splitlines() if "net=" in l]
check(abs(sum(v[:3]) - v[3]) <= 1e-3 * max(map(abs, v)), str(v))
'''),
dict(id="C06-capillary-gas-vertical", prop="C06", file=S,
     edits=[("            flow_g_z = self.T_z * mob_g_z * (pot_g_z - dpcg_z)\n", "            flow_g_z = self.T_z * mob_g_z * (pot_g_z - dpcg_z.abs())\n")],
     needs="a closed column in which gas saturation decreases with the layer index, and gas capillary pressure",
     breaks="gas climbs its own capillary gradient, so a closed column moves away from rest",
     demo='''
dims = (1, 1, 2)
kw = dict(cell=(10, 10, 10), rho_oil=0.0, rho_water=0.0, rho_gas=0.0, pcog_scale=0, capillary_pressure_og=dict(pc_scale=3e4, pc_exponent=1.0))
kw.pop("pcog_scale")
def run(sg):
    s = make(dims, sg=np.array(sg).reshape(dims), sw=0.3, kvf=1.0, P=20e6, **kw)
    check(step(s, 1.0))
    return fields(s)[2].ravel()
a, b = run([0.1, 0.3]), run([0.3, 0.1])
check(close(a, b[::-1], 1e-5), f"{a} {b}")
'''),
dict(id="C12-retry-accum", prop="C12", file=S,
     edits=[("        rho_w_now = self.fluid.rho_w\n", "        rho_w_now = self.fluid.calc_water_density(self.fluid.prev_pressure)\n")],
     needs="a step that changes the pressure noticeably",
     breaks="water mass is booked with the density of the previous pressure",
     demo='''
s = make((1, 1, 1), wells=[well("W", "injector", (0, 0, 0), "rate", 4.0)], c_water=5e-2, c_oil=1e-2, sw=0.4, sg=0.1)
w0 = fields(s)[1]
check(step(s, 1.0))
d = (s.porous_volume.numpy() * (fields(s)[1] - w0) * s.fluid.rho_w.numpy()).sum()
check(abs(s.mass_balance["water"]["in"] - d) < 1e-3 * d, f"{s.mass_balance['water']} {d}")
'''),
dict(id="C08-neighbour-permeability", prop="C08", file=W,
     edits=[("        ro = 0.28 * ((dx**2 + dy**2)**0.5) / 2\n", "        ro = 0.14 * (dx**2 + dy**2)**0.5 if dx >= dy else 0.14 * (2 * dx**2)**0.5\n")],
     needs="cells longer in y than in x",
     breaks="the equivalent radius forgets the longer side",
     demo='''
import math
s = make((2, 2, 1), cell=(10, 40, 5), wells=[well("P", "producer", (0, 0, 0), "bhp", 15.0)])
wi = s.well_manager.wells[0].well_index
ro = 0.14 * math.hypot(10, 40)
e = 2 * math.pi * 100 * MD * 5 / math.log(ro / 0.1)
check(abs(wi - e) < 1e-3 * e, f"{wi} {e}")
'''),
dict(id="C10-halving-from-start", prop="C10", file=S,
     edits=[("            current_dt /= dt_reduction_factor\n", "            current_dt = dt / dt_reduction_factor\n", 1)],
     needs="a step whose pressure solve fails more than once",
     breaks="the step is never reduced below the first reduction, so the remaining attempts repeat the same failure",
     demo='''
s = make((2, 1, 1), wells=[well("W", "injector", (0, 0, 0), "rate", 1.0)])
seen = []
o = s._impes_pressure_step
def f(dt):
    seen.append(dt)
    return (s.fluid.pressure, False) if len(seen) < 3 else o(dt)
s._impes_pressure_step = f
ok = step(s, 8.0)
check(ok and close(seen[2], 2 * DAY, 1e-9), str(seen))
'''),
dict(id="C16-rs-flat", prop="C16", file=PV,
     edits=[("        p = P_MPa.astype(np.float64)\n", "        p = np.round(P_MPa.astype(np.float64), 3)\n")],
     needs="pressures that differ by less than a kilopascal, or lie between two thousandths of a megapascal",
     breaks="table values jump instead of being interpolated",
     demo='''
from simulator.pvt import PVTTable
T_ = PVTTable(pvtfile())
x = T_.eval(np.array([9.00042]))["Bg"][0]
e = np.interp(9.00042, PVT["pressure_MPa"], PVT["Bg"])
check(abs(x - e) < 1e-8 * e, f"{x} {e}")
'''),
dict(id="C13-default-radius", prop="C13", file=S,
     edits=[("            amg_coarsest = int(amg_cfg.get(\"coarsest_size\", 200))\n", "            amg_coarsest = int(amg_cfg.get(\"coarsest_size\", amg_max_levels))\n")],
     needs="x", breaks="x", demo='''
check(True)
'''),
]
BUGS = [b for b in BUGS if b["id"] != "C13-default-radius"]
