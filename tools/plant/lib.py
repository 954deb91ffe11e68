import atexit, contextlib, io, json, os, shutil, sys, tempfile
REPO = os.getcwd()
os.environ.update(MPLBACKEND="Agg", CUDA_VISIBLE_DEVICES="", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="2")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(REPO, "src"))
TMP = tempfile.mkdtemp(prefix="demo-")
atexit.register(shutil.rmtree, TMP, True)
os.environ["MPLCONFIGDIR"] = TMP
os.chdir(TMP)
import numpy as np, torch
from simulator.reservoir import Reservoir
from simulator.fluid import Fluid
from simulator.well import WellManager
from simulator.simulation import Simulator
CPU = torch.device("cpu")
DAY = 86400.0
MD = 9.869233e-16
PVT = dict(pressure_MPa=[1.0, 8.0, 15.0, 22.0, 40.0], Bo=[1.25, 1.21, 1.17, 1.13, 1.08],
           Bw=[1.03, 1.025, 1.02, 1.015, 1.0], Bg=[0.09, 0.0125, 0.0065, 0.0045, 0.0028],
           mu_o_cP=[2.4, 1.9, 1.5, 1.2, 1.35], mu_w_cP=[0.5, 0.502, 0.505, 0.51, 0.52],
           mu_g_cP=[0.012, 0.014, 0.017, 0.02, 0.027], Rs_m3m3=[5.0, 35.0, 70.0, 110.0, 110.0],
           Rv_m3m3=[0.001, 0.002, 0.004, 0.008, 0.012])
FL = dict(pressure=20.0, s_w=0.4, s_g=0.1, mu_oil=2.0, mu_water=0.5, mu_gas=0.05, rho_oil=850.0,
          rho_water=1000.0, rho_gas=150.0, c_oil=1e-4, c_water=5e-5, c_gas=5e-3, c_rock=5e-5,
          relative_permeability=dict(nw=2, no=2, ng=2, sw_cr=0.2, so_r=0.2, sg_cr=0.0))


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return f(*a, **k)


def pvtfile(t=PVT, name="pvt.json"):
    p = os.path.join(TMP, name)
    with open(p, "w") as f:
        json.dump(t, f)
    return p


def T(a, dims):
    return torch.tensor(np.broadcast_to(np.asarray(a, dtype=np.float64), dims).copy(), dtype=torch.float32)


def make(dims, cell=(10.0, 10.0, 10.0), wells=(), pvt=None, P=None, sw=None, sg=None, kx=None, ky=None, kz=None,
         poro=None, sim=None, perm=100.0, kvf=0.1, **fl):
    """Simulator of a small model; fields are given as arrays (broadcast to dims)."""
    def b():
        res = Reservoir(dict(dimensions=list(dims), grid_size=list(cell), porosity=0.2, permeability=perm,
                             k_vertical_fraction=kvf), device=CPU)
        for v, n in ((kx, "permeability_x"), (ky, "permeability_y"), (kz, "permeability_z")):
            if v is not None:
                setattr(res, n, T(np.asarray(v) * MD, dims))
        if poro is not None:
            res.porosity = T(poro, dims)
            res.porous_volume = res.cell_volume * res.porosity
        cfg = dict(FL, **fl)
        if pvt is not None:
            cfg["pvt_path"] = pvtfile(pvt)
        f = Fluid(cfg, res, device=CPU)
        if P is not None:
            f.pressure = T(P, dims)
        if sw is not None:
            f.s_w = T(sw, dims)
        if sg is not None:
            f.s_g = T(sg, dims)
        f.s_o = 1.0 - f.s_w - f.s_g
        f.prev_pressure, f.prev_sw, f.prev_sg = f.pressure.clone(), f.s_w.clone(), f.s_g.clone()
        wm = WellManager([dict(w) for w in wells], res)
        return Simulator(res, f, wm, dict(dict(solver_type="impes", pressure_float64=True, cg_max_iter=3000), **(sim or {})), device=CPU)
    return quiet(b)


def step(s, days=1.0):
    return quiet(s.run_step, days * DAY)


def well(name, typ, cell, ctype, value, **kw):
    return dict(dict(name=name, type=typ, i=cell[0], j=cell[1], k=cell[2], radius=0.1, control_type=ctype, control_value=value), **kw)


def fields(s):
    f = s.fluid
    return [x.numpy().astype(np.float64).copy() for x in (f.pressure, f.s_w, f.s_g, f.s_o)]


def vols(s):
    pv = s.porous_volume.numpy().astype(np.float64)
    return [float((pv * x).sum()) for x in fields(s)[1:]]


def close(a, b, rel=1e-4, ab=0.0):
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    return bool(np.all(np.isfinite(a)) and np.all(np.abs(a - b) <= ab + rel * np.maximum(np.abs(a), np.abs(b))))


def check(ok, msg=""):
    if not ok:
        print("FAILED:", msg)
        sys.exit(1)
