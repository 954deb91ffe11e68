"""Alphabets shared by the checks."""
import itertools, copy
import numpy as np

PVT_PLAIN = dict(pressure_MPa=[1.0, 8.0, 15.0, 22.0, 40.0],
                 Bo=[1.25, 1.21, 1.17, 1.13, 1.08], Bw=[1.03, 1.025, 1.02, 1.015, 1.0],
                 Bg=[0.09, 0.0125, 0.0065, 0.0045, 0.0028],
                 mu_o_cP=[2.4, 1.9, 1.5, 1.2, 1.35], mu_w_cP=[0.5, 0.502, 0.505, 0.51, 0.52],
                 mu_g_cP=[0.012, 0.014, 0.017, 0.02, 0.027], Rs_m3m3=[5.0, 35.0, 70.0, 110.0, 110.0])
PVT_RV = dict(PVT_PLAIN, Rv_m3m3=[0.0, 0.00002, 0.00008, 0.0002, 0.0004])
PVT_RVBIG = dict(PVT_PLAIN, Rv_m3m3=[0.001, 0.002, 0.004, 0.008, 0.012])

GRIDS1 = [(1, 1, 1)]
GRIDS2 = [(2, 1, 1), (1, 2, 1), (1, 1, 2)]
GRIDS3 = [(3, 1, 1), (1, 3, 1), (1, 1, 3)]
GRIDS_M = [(2, 2, 1), (2, 1, 2), (1, 2, 2), (3, 2, 1), (2, 3, 1), (2, 2, 2), (3, 2, 2), (2, 3, 2), (2, 2, 3)]
GRIDS_L = [(3, 3, 2), (4, 3, 2), (3, 4, 3), (5, 4, 1), (4, 5, 2)]

CELLS = [(10.0, 10.0, 10.0), (12.0, 20.0, 5.0), (30.0, 15.0, 4.0), (8.0, 6.0, 0.4)]


def ncell(d):
    return d[0] * d[1] * d[2]


def spread(dims, lo, hi, mult=7, add=3):
    """Deterministic, tie-free heterogeneous field: a permutation-like pattern over the cells."""
    n = ncell(dims)
    p = n
    # next prime >= n+1 gives distinct residues
    def prime(q):
        return q > 1 and all(q % d for d in range(2, int(q ** 0.5) + 1))
    p = n + 1
    while not prime(p):
        p += 1
    mult = mult % p or 1
    v = [((i + 1) * mult + add) % p for i in range(n)]
    mn, mx = 0, p - 1
    return [lo + (hi - lo) * (x - mn) / (mx - mn) for x in v]


def fields(dims, kind, P0=20e6, dP=1e6, sw=(0.3, 0.6), sg=(0.06, 0.16), k=None, poro=False):
    """kinds: 'u' uniform; 'h' heterogeneous saturations and pressure; """
    n = ncell(dims)
    F = {}
    if kind == "u":
        F["P"] = [P0] * n
        F["sw"] = [sw[0]] * n
        F["sg"] = [sg[0]] * n
    else:
        m = dict(h=(7, 3), h2=(5, 1), h3=(11, 4))[kind]
        F["P"] = spread(dims, P0 - dP, P0 + dP, *m)
        F["sw"] = spread(dims, sw[0], sw[1], m[0] + 4, m[1] + 1)
        F["sg"] = spread(dims, sg[0], sg[1], m[0] + 6, m[1] + 2)
    if k is not None:
        F["kx"] = spread(dims, k[0], k[1], 9, 2)
        F["ky"] = spread(dims, k[0], k[1], 13, 5)
        F["kz"] = spread(dims, k[0] * .3, k[1] * .3, 3, 1)
    if poro:
        F["poro"] = spread(dims, 0.1, 0.3, 8, 2)
    return F


FLUID = dict(pressure=20.0, s_w=0.4, s_g=0.1, mu_oil=2.0, mu_water=0.5, mu_gas=0.05,
             rho_oil=850.0, rho_water=1000.0, rho_gas=150.0,
             c_oil=1e-4, c_water=5e-5, c_gas=5e-3, c_rock=5e-5)
RP_COREY = dict(nw=2, no=2, ng=2, sw_cr=0.2, so_r=0.2, sg_cr=0.0)
RP_COREY3 = dict(nw=3, no=2.5, ng=1.5, sw_cr=0.15, so_r=0.1, sg_cr=0.03, krw_end=0.4, krg_end=0.7)
RP_STONE = dict(model="stone2", nw=2, no=2, ng=2, now=2.0, nog=2.0, ko_end_w=1.0, ko_end_g=1.0,
                sw_cr=0.2, so_r=0.15, sg_cr=0.05, krw_end=0.5, krg_end=0.8)
RPS = dict(corey=RP_COREY, corey3=RP_COREY3, stone=RP_STONE)
SIM = dict(solver_type="impes", pressure_float64=True, cg_max_iter=3000)


def fluid(rp="corey", **kw):
    f = dict(copy.deepcopy(FLUID), **kw)
    f["relative_permeability"] = copy.deepcopy(RPS[rp] if isinstance(rp, str) else rp)
    return f


def model(dims, cell=CELLS[1], rp="corey", fld="h", wells=(), pvt=None, sim=None, k=(20.0, 200.0), poro=True, fkw=None, **fluid_kw):
    return dict(dims=list(dims), cell=list(cell), poro=0.2, perm=100.0, kvf=0.1, fluid=fluid(rp, **fluid_kw),
                wells=list(wells), sim=dict(SIM, **(sim or {})), pvt=pvt,
                fields=fields(dims, fld, k=k, poro=poro, **(fkw or {})))


def well(name, typ, cell, ctype, value, **kw):
    return dict(name=name, type=typ, i=cell[0], j=cell[1], k=cell[2], radius=kw.pop("radius", 0.1),
                control_type=ctype, control_value=value, **kw)


def cells(dims):
    return list(itertools.product(*(range(d) for d in dims)))


def corners(dims):
    a, b, c = (d - 1 for d in dims)
    return [(0, 0, 0), (a, b, c)]
