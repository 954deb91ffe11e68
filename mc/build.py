"""Builds real simulator objects from a JSON model description.

Model description M:
  dims, cell (dx,dy,dz), poro, perm (mD), kvf, fluid {config}, wells [config], sim {params},
  fields (optional) {kx,ky,kz: mD lists; poro: list; P: Pa list; sw: list; sg: list}, C-order flattened
  pvt (optional) table dict
"""
from . import env
import copy, hashlib, json, os
import numpy as np
import torch
from simulator.reservoir import Reservoir
from simulator.fluid import Fluid
from simulator.well import WellManager
from simulator.simulation import Simulator

CPU = torch.device("cpu")
MD = 9.869233e-16


def pvt_file(table):
    txt = json.dumps(table)
    p = os.path.join(env.SCRATCH, "pvt-" + hashlib.md5(txt.encode()).hexdigest() + ".json")
    if not os.path.exists(p):
        tmp = p + f".{os.getpid()}"
        with open(tmp, "w") as f:
            f.write(txt)
        os.replace(tmp, p)
    return p


def t32(a, dims):
    return torch.tensor(np.asarray(a, dtype=np.float64).reshape(dims), dtype=torch.float32)


def reservoir_config(M):
    return dict(dimensions=list(M["dims"]), grid_size=list(M["cell"]), porosity=M.get("poro", 0.2),
                permeability=M.get("perm", 100.0), k_vertical_fraction=M.get("kvf", 0.1),
                c_rock=M.get("res_c_rock", 1e-5))


def fluid_config(M):
    f = copy.deepcopy(M.get("fluid", {}))
    if M.get("pvt") is not None:
        f["pvt_path"] = pvt_file(M["pvt"])
    return f


def build(M):
    dims = tuple(M["dims"])
    res = Reservoir(reservoir_config(M), device=CPU)
    F = M.get("fields") or {}
    for key, attr in (("kx", "permeability_x"), ("ky", "permeability_y"), ("kz", "permeability_z")):
        if key in F:
            setattr(res, attr, t32(np.asarray(F[key], dtype=np.float64) * MD, dims))
    if "poro" in F:
        res.porosity = t32(F["poro"], dims)
        res.porous_volume = res.cell_volume * res.porosity
    fl = Fluid(fluid_config(M), res, device=CPU)
    if "P" in F:
        fl.pressure = t32(F["P"], dims)
    if "sw" in F:
        fl.s_w = t32(F["sw"], dims)
    if "sg" in F:
        fl.s_g = t32(F["sg"], dims)
    if "sw" in F or "sg" in F:
        fl.s_o = 1.0 - fl.s_w - fl.s_g
    if F:
        fl.prev_pressure = fl.pressure.clone()
        fl.prev_sw = fl.s_w.clone()
        fl.prev_sg = fl.s_g.clone()
    wm = WellManager(copy.deepcopy(M.get("wells", [])), res)
    sim = Simulator(res, fl, wm, copy.deepcopy(M.get("sim", {})), device=CPU)
    return sim


def state(sim):
    """Observed state as float64 copies."""
    f = sim.fluid
    return (f.pressure.detach().cpu().numpy().astype(np.float64), f.s_w.detach().cpu().numpy().astype(np.float64),
            f.s_g.detach().cpu().numpy().astype(np.float64), f.s_o.detach().cpu().numpy().astype(np.float64))


def raw_state(sim):
    f = sim.fluid
    return tuple(x.detach().cpu().numpy().copy() for x in (f.pressure, f.s_w, f.s_g, f.s_o))


def set_state(sim, P, sw, sg):
    dims = tuple(sim.reservoir.dimensions)
    f = sim.fluid
    f.pressure = t32(P, dims)
    f.s_w = t32(sw, dims)
    f.s_g = t32(sg, dims)
    f.s_o = 1.0 - f.s_w - f.s_g
    f.prev_pressure = f.pressure.clone()
    f.prev_sw = f.s_w.clone()
    f.prev_sg = f.s_g.clone()
