S = "src/simulator/simulation.py"
F = "src/simulator/fluid.py"
W = "src/simulator/well.py"
BUGS = [
dict(id="C01-gas-window-old-water", prop="C01", file=S,
     edits=[("sg_max_t = (1.0 - so_r - S_w_cur)", "sg_max_t = (1.0 - so_r - S_w_start)")],
     needs="water and gas both entering one nearly full cell within one step",
     breaks="the gas window is taken from the water saturation before the step, so residual oil is displaced",
     demo='''
s = make((1, 1, 1), wells=[well("W", "injector", (0, 0, 0), "rate", 60.0), well("G", "injector", (0, 0, 0), "rate", 60.0, injected_phase="gas")], sw=0.5, sg=0.2)
check(step(s, 2.0))
P, w, g, o = fields(s)
check(o.min() >= 0.2 - 1e-5, f"oil {o.min()} below residual")
check(abs((w + g + o - 1)).max() < 1e-5)
'''),
dict(id="C01-nan-accepted", prop="C01", file=S,
     edits=[("            if torch.sqrt(rs_new) < tol:\n", "            if not torch.sqrt(rs_new) >= tol:\n")],
     needs="a linear solver breakdown (0/0 after an exact solution under an unattainable tolerance)",
     breaks="a not-a-number residual counts as convergence and the step succeeds with NaN pressure",
     demo='''
for n in (1, 2, 3):
    s = make((n, 1, 1), P=20e6 + 1e5 * np.arange(n).reshape(n, 1, 1), sim=dict(cg_tolerance=0.0, cg_max_iter=60))
    ok = step(s)
    P = fields(s)[0]
    check(np.isfinite(P).all(), f"n={n} ok={ok} {P.ravel()}")
'''),
dict(id="C02-substep-cap", prop="C02", file=S,
     edits=[("        # Ограничение на число подшагов для стабильного времени расчёта\n", ""),
            ("        max_substeps = int(self.sim_params.get(\"max_substeps\", 20))\n        if N > max_substeps:\n            N = max_substeps\n\n        dSw_sub = dSw / N\n        dSg_sub = dSg / N\n",
             "        dSw_sub = dSw / N\n        dSg_sub = dSg / N\n        # Ограничение на число подшагов для стабильного времени расчёта\n        N = min(N, int(self.sim_params.get(\"max_substeps\", 20)))\n")],
     needs="a step that needs more sub-steps than the configured maximum",
     breaks="the increments are divided by the uncapped sub-step count, so part of the volume is lost",
     demo='''
s = make((2, 1, 1), wells=[well("W", "injector", (0, 0, 0), "rate", 10.0)], sw=0.4, sg=0.1, sim=dict(max_saturation_change=0.001, max_substeps=10))
v0 = vols(s)
check(step(s, 1.0))
v1 = vols(s)
check(abs(v1[0] - v0[0] - 10.0) < 1e-2, f"water gained {v1[0] - v0[0]}")
'''),
dict(id="C02-deadband", prop="C02", file=S,
     edits=[("        max_dS = self.sim_params.get(\"max_saturation_change\", 0.05)\n",
             "        # численный шум не переносим\n        dSw = torch.where(dSw.abs() < 2e-5, torch.zeros_like(dSw), dSw)\n        dSg = torch.where(dSg.abs() < 2e-5, torch.zeros_like(dSg), dSg)\n        max_dS = self.sim_params.get(\"max_saturation_change\", 0.05)\n"),
            ("        dSw_sub = dSw / N\n", "        dSw_sub = dSw * (1.0 / N)\n")],
     needs="many short steps or cells whose change per step is tiny",
     breaks="small saturation increments are dropped on one side of a face, so volume is not conserved over a history",
     demo='''
s = make((2, 1, 1), cell=(100.0, 100.0, 10.0), wells=[well("W", "injector", (0, 0, 0), "rate", 10.0)], sw=0.4, sg=0.1)
v0 = vols(s)
n = 200
for _ in range(n):
    check(step(s, 0.01))
v1 = vols(s)
check(abs(v1[0] - v0[0] - 10.0 * n * 0.01) < 0.4, f"water gained {v1[0] - v0[0]} of {10.0 * n * 0.01}")
'''),
dict(id="C03-pcog-vertical", prop="C03", file=S,
     edits=[("flow_g_z = self.T_z * mob_g_z * (pot_g_z - dpcg_z)", "flow_g_z = self.T_z * mob_g_z * (pot_g_z + dpcg_z)")],
     needs="gas-oil capillary pressure with a vertical gas saturation contrast",
     breaks="the capillary term of the vertical gas flow has the wrong sign",
     demo='''
def moved(dims):
    sg = np.array([0.1, 0.3]).reshape(dims)
    s = make(dims, cell=(10, 10, 10), sg=sg, rho_gas=0.0, rho_oil=0.0, rho_water=0.0, kvf=1.0, P=20e6,
             capillary_pressure_og=dict(pc_scale=2e4, pc_exponent=1.0), c_gas=1e-5)
    check(step(s, 0.2))
    return (fields(s)[2] - sg).ravel()
a, b = moved((2, 1, 1)), moved((1, 1, 2))
check(abs(a).max() > 1e-5)
check(close(a, b, 1e-2, 1e-6), f"{a} {b}")
'''),
dict(id="C03-gas-upstream-potential", prop="C03", file=S,
     edits=[("        mob_g_y = torch.where(dp_y > 0, mob_g[:,:-1,:], mob_g[:,1:,:])\n", "        mob_g_y = torch.where(dp_y > 0, mob_g[:,:-1,:], torch.maximum(mob_g[:,:-1,:], mob_g[:,1:,:]))\n")],
     needs="gas entering from the high-index side of a y face out of a cell without mobile gas",
     breaks="gas mobility is taken from the downstream cell, so immobile gas flows",
     demo='''
rp = dict(nw=2, no=2, ng=2, sw_cr=0.2, so_r=0.2, sg_cr=0.1)
s = make((1, 2, 1), P=np.array([19e6, 21e6]).reshape(1, 2, 1), sg=np.array([0.3, 0.1]).reshape(1, 2, 1), relative_permeability=rp)
g0 = fields(s)[2]
check(step(s, 0.2))
g1 = fields(s)[2]
check(abs(g1 - g0).max() < 1e-6, f"{g0.ravel()} {g1.ravel()}")
'''),
dict(id="C04-harmonic-eps", prop="C04", file=S,
     edits=[("(k_z[:, :, k] + k_z[:, :, k+1] + 1e-30)", "(k_z[:, :, k] + k_z[:, :, k+1] + 1e-17)")],
     needs="vertical permeability in the sub-millidarcy range",
     breaks="the guard in the harmonic mean dominates tight rock, so vertical conductance is too small",
     demo='''
def rate(ax):
    dims = [1, 1, 1]; dims[ax] = 2
    P = np.array([20e6, 21e6]).reshape(dims)
    s = make(dims, P=P, kx=0.01, ky=0.01, kz=0.01, rho_gas=0.0, rho_oil=0.0, rho_water=0.0)
    check(step(s, 50.0))
    p = fields(s)[0].ravel()
    return p[1] - p[0]
a, b = rate(0), rate(2)
check(close(a, b, 2e-3), f"{a} {b}")
'''),
dict(id="C04-capillary-z-sign", prop="C04", file=S,
     edits=[("            Q_pc[:,:,1:]   += pc_flow_z\n            Q_pc[:,:,:-1]  -= pc_flow_z\n", "            Q_pc[:,:,:-1]  += pc_flow_z\n            Q_pc[:,:,1:]   -= pc_flow_z\n")],
     needs="oil-water capillary pressure and a vertical water saturation contrast",
     breaks="the vertical capillary source of the pressure equation has the wrong sign",
     demo='''
def dp(ax):
    dims = [1, 1, 1]; dims[ax] = 2
    s = make(dims, sw=np.array([0.3, 0.6]).reshape(dims), rho_gas=0.0, rho_oil=0.0, rho_water=0.0, kvf=1.0, capillary_pressure=dict(pc_scale=5e4, pc_exponent=1.0))
    check(step(s, 1.0))
    p = fields(s)[0].ravel()
    return p[1] - p[0]
a, b = dp(0), dp(2)
check(abs(a) > 100 and close(a, b, 1e-2, 10.0), f"{a} {b}")
'''),
dict(id="C04-two-rate-wells", prop="C04", file=S,
     edits=[("                q_wells[idx] += rate_si\n", "                q_wells[idx] = rate_si\n")],
     needs="two rate wells completed in the same cell",
     breaks="only the last well of a cell enters the pressure equation",
     demo='''
def p(rates):
    s = make((3, 1, 1), wells=[well(f"W{n}", "injector", (0, 0, 0), "rate", r) for n, r in enumerate(rates)])
    check(step(s, 1.0))
    return fields(s)[0]
a, b = p([9.0]), p([4.0, 5.0])
check(close(a, b, 1e-5), f"{a.ravel()} {b.ravel()}")
'''),
dict(id="C04-loose-retry", prop="C04", file=S,
     edits=[("                    tol=cg_tol_base * 10.0,\n                    max_iter=cg_max_iter_base * 4\n", "                    tol=cg_tol_base * 1e9,\n                    max_iter=cg_max_iter_base * 4\n", 1)],
     needs="a first linear solve that runs out of iterations in single precision",
     breaks="the retry accepts almost any residual and the step succeeds with an unsolved pressure system",
     demo='''
n = 40
k = 1.0 + 200.0 * ((np.arange(n) * 7) % 11) / 10
s = make((n, 1, 1), kx=k.reshape(n, 1, 1), ky=100.0, kz=10.0, P=20e6, wells=[well("W", "injector", (0, 0, 0), "rate", 20.0), well("P", "producer", (n - 1, 0, 0), "rate", 20.0)],
         sim=dict(pressure_float64=False, cg_max_iter=12, cg_tolerance=1e-7, max_time_step_attempts=1))
r = make((n, 1, 1), kx=k.reshape(n, 1, 1), ky=100.0, kz=10.0, P=20e6, wells=[well("W", "injector", (0, 0, 0), "rate", 20.0), well("P", "producer", (n - 1, 0, 0), "rate", 20.0)], sim=dict(cg_tolerance=1e-12))
check(step(r, 5.0))
if step(s, 5.0):
    a, b = fields(s)[0].ravel(), fields(r)[0].ravel()
    check(abs(a - b).max() < 0.02 * abs(b - 20e6).max(), f"{abs(a-b).max()} {abs(b-20e6).max()}")
'''),
dict(id="C05-injector-order", prop="C05", file=S,
     edits=[("                        dSw_well = (dt / max(PV_cell, 1e-12)) * q_total\n", "                        sw_up = max(0.0, sw_up - (dt / max(PV_cell, 1e-12)) * float(q_w[i, j, k]))\n                        dSw_well = (dt / max(PV_cell, 1e-12)) * q_total\n")],
     needs="a producer and an injector in one nearly water-filled cell, listed in either order",
     breaks="what the injector may inject depends on the wells listed before it",
     demo='''
def run(order):
    ws = [well("W", "injector", (0, 0, 0), "rate", 40.0), well("P", "producer", (0, 0, 0), "rate", 30.0)]
    s = make((2, 1, 1), wells=[ws[i] for i in order], sw=0.65, sg=0.1)
    check(step(s, 1.0))
    return fields(s)[1]
a, b = run([0, 1]), run([1, 0])
check(close(a, b, 1e-5), f"{a.ravel()} {b.ravel()}")
'''),
dict(id="C05-ty-geometry", prop="C05", file=S,
     edits=[("self.T_y[:, j, :] = k_harmonic * dx * dz / dy", "self.T_y[:, j, :] = k_harmonic * dy * dz / dx")],
     needs="cells that are not square and pressure differences along y",
     breaks="the y conductance uses the x geometry",
     demo='''
def run(sw):
    d, c = ((3, 2, 1), (10.0, 20.0, 5.0)) if not sw else ((2, 3, 1), (20.0, 10.0, 5.0))
    P = (20e6 + 1e5 * np.arange(6)).reshape(3, 2, 1)
    s = make(d, cell=c, P=P if not sw else P.transpose(1, 0, 2))
    check(step(s, 1.0))
    p = fields(s)[0]
    return p if not sw else p.transpose(1, 0, 2)
a, b = run(0), run(1)
check(close(a, b, 1e-5), "axis swap")
'''),
dict(id="C06-two-layer-gravity", prop="C06", file=S,
     edits=[("        if dz > 0 and self.reservoir.nz > 1:\n            rho_w_avg", "        if dz > 0 and self.reservoir.nz > 2:\n            rho_w_avg")],
     needs="a model with exactly two layers",
     breaks="phases in two-layer models do not segregate although the pressure equation knows gravity",
     demo='''
s = make((1, 1, 2), cell=(10, 10, 20), sw=0.5, sg=0.1, kvf=1.0, P=np.array([20e6, 20e6 + 9.81 * 900 * 20]).reshape(1, 1, 2))
for _ in range(5):
    check(step(s, 2.0))
w = fields(s)[1].ravel()
check(w[1] > w[0] + 1e-4, f"{w}")
'''),
dict(id="C07-liquid-no-rv", prop="C07", file=S,
     edits=[("                            denom = (fo_ / max(Bo_cell, 1e-12) + fg_ * Rv_cell / max(Bg_cell, 1e-12) + fw_ / max(Bw_cell, 1e-12))\n",
             "                            denom = (fo_ / max(Bo_cell, 1e-12) + fw_ / max(Bw_cell, 1e-12))\n")],
     needs="a surface liquid rate with vaporised oil in mobile gas",
     breaks="condensate is left out of the liquid rate conversion",
     demo='''
s = make((1, 1, 1), cell=(100, 100, 20), pvt=PVT, wells=[well("P", "producer", (0, 0, 0), "rate", 20.0, rate_type="surface", surface_phase="liquid")], sw=0.4, sg=0.3)
check(step(s, 1.0))
r = s.well_manager.wells[0].last_surface_rates
check(close(r["oil"] + r["water"], 20.0, 1e-3), str(r))
'''),
dict(id="C07-rate-scale-pressure", prop="C07", file=S,
     edits=[("                rate_si = (well.control_value * rate_scale) / 86400.0 * (1 if well.type == 'injector' else -1)\n",
             "                rate_si = well.control_value * (rate_scale if well.type == 'injector' else -1) / 86400.0\n")],
     needs="a global rate multiplier other than one and a producer",
     breaks="the pressure equation removes the unscaled producer rate while the saturations use the scaled one",
     demo='''
s = make((1, 1, 1), cell=(50, 50, 20), wells=[well("P", "producer", (0, 0, 0), "rate", 20.0)], sim=dict(global_rate_scale=2.0))
r = make((1, 1, 1), cell=(50, 50, 20), wells=[well("P", "producer", (0, 0, 0), "rate", 40.0)])
check(step(s) and step(r))
check(close(fields(s)[0], fields(r)[0], 1e-6), f"{fields(s)[0]} {fields(r)[0]}")
'''),
dict(id="C08-two-bhp-wells", prop="C08", file=S,
     edits=[("                well_bhp_terms[idx] += well_index_val * mob_t_well\n", "                well_bhp_terms[idx] = well_index_val * mob_t_well\n")],
     needs="two pressure-controlled wells in one cell",
     breaks="the matrix holds only one of the two well conductances while the right-hand side holds both",
     demo='''
s = make((2, 1, 1), wells=[well("A", "producer", (0, 0, 0), "bhp", 19.0), well("B", "producer", (0, 0, 0), "bhp", 19.0)])
for _ in range(60):
    check(step(s, 5.0))
P = fields(s)[0]
check(abs(P - 19e6).max() < 2e5, f"{P.ravel()}")
'''),
dict(id="C08-old-drawdown", prop="C08", file=S,
     edits=[("                p_block = P_new[i, j, k]\n                q_total = well.well_index", "                p_block = self.fluid.prev_pressure[i, j, k]\n                q_total = well.well_index")],
     needs="a pressure-controlled well while the block pressure is changing",
     breaks="the saturation update uses the drawdown of the previous step",
     demo='''
s = make((1, 1, 1), cell=(50, 50, 10), wells=[well("I", "injector", (0, 0, 0), "bhp", 25.0)])
wi = s.well_manager.wells[0].well_index
kro, krw, krg = s.fluid.get_rel_perms(s.fluid.s_w)
mt = float(krw / s.fluid.mu_water + kro / s.fluid.mu_oil + krg / s.fluid.mu_gas)
v0 = vols(s)
check(step(s, 1.0))
q = wi * mt * (25e6 - float(s.fluid.pressure)) * DAY
check(close(vols(s)[0] - v0[0], q, 1e-2, 1e-2), f"{vols(s)[0] - v0[0]} {q}")
'''),
dict(id="C08-peaceman-square", prop="C08", file=W,
     edits=[("ro = 0.28 * ((dx**2 + dy**2)**0.5) / 2", "ro = 0.28 * (2 * dx * dy)**0.5 / 2")],
     needs="cells that are not square",
     breaks="the equivalent radius uses the geometric instead of the Peaceman mean of the cell sides",
     demo='''
import math
s = make((2, 1, 1), cell=(60.0, 10.0, 5.0), wells=[well("I", "injector", (0, 0, 0), "bhp", 25.0)])
ro = 0.28 * math.hypot(60.0, 10.0) / 2
wi = 2 * math.pi * 100.0 * MD * 5.0 / math.log(ro / 0.1)
check(close(s.well_manager.wells[0].well_index, wi, 1e-4))
'''),
dict(id="C09-last-limit", prop="C09", file=S,
     edits=[("max_abs_q = min(candidates)", "max_abs_q = candidates[0]", 1)],
     needs="a reservoir-rate producer with two limits where the later one is tighter",
     breaks="only the first listed limit throttles the well",
     demo='''
s = make((1, 1, 1), cell=(100, 100, 20), pvt=PVT, wells=[well("P", "producer", (0, 0, 0), "rate", 200.0, limits=dict(wopr=50.0, wgpr=100.0))], sw=0.4, sg=0.3)
check(step(s, 1.0))
r = s.well_manager.wells[0].last_surface_rates
check(r["gas"] <= 100.0 * 1.001 and r["oil"] <= 50.0 * 1.001, str(r))
'''),
dict(id="C09-gas-limit-free-only", prop="C09", file=S,
     edits=[("                                denom_g = fg_ / max(Bg_cell, 1e-12) + fo_ * Rs_cell / max(Bo_cell, 1e-12)\n", "                                denom_g = fg_ / max(Bg_cell, 1e-12)\n")],
     needs="a reservoir-rate producer with a gas limit while oil with dissolved gas flows",
     breaks="the gas limit counts free gas only",
     demo='''
s = make((1, 1, 1), cell=(100, 100, 20), pvt=PVT, wells=[well("P", "producer", (0, 0, 0), "rate", 200.0, limits=dict(wgpr=500.0))], sw=0.3, sg=0.05)
check(step(s, 1.0))
r = s.well_manager.wells[0].last_surface_rates
check(r["gas"] <= 500.0 * 1.001, str(r))
'''),
dict(id="C09-bhpmin-unscaled", prop="C09", file=S,
     edits=[("                    p_bhp_req = p_block + rate_si / denom\n", "                    p_bhp_req = p_block - well.control_value / 86400.0 / denom\n")],
     needs="a minimum bottom-hole pressure together with a global rate multiplier",
     breaks="the switch to pressure control is decided with the unscaled rate",
     demo='''
def run(rate, scale):
    s = make((1, 1, 1), cell=(50, 50, 10), wells=[well("P", "producer", (0, 0, 0), "rate", rate, bhp_min=15.0)], sim=dict(global_rate_scale=scale))
    check(step(s, 0.5))
    return s.well_manager.wells[0].last_mode, fields(s)[0]
for rate in (5.0, 20.0, 50.0, 90.0, 150.0, 300.0):
    (m, p), (n, q) = run(rate, 2.0), run(2 * rate, 1.0)
    check(m == n and close(p, q, 1e-5), f"{rate} {m} {n}")
'''),
dict(id="C10-early-pressure", prop="C10", file=S,
     edits=[("            if converged:\n                # Обновляем давление и выполняем шаг насыщенности\n                self.fluid.pressure = P_new\n", "            # Обновляем давление и выполняем шаг насыщенности\n            self.fluid.pressure = P_new\n            if converged:\n")],
     needs="a linear solve that fails once and succeeds with the smaller time step",
     breaks="the retry starts from the pressure of the failed attempt",
     demo='''
def mk(sim):
    return make((6, 1, 1), P=(20e6 + 1e5 * np.arange(6)).reshape(6, 1, 1), wells=[well("W", "injector", (0, 0, 0), "rate", 20.0)], sim=sim)
s, r = mk({}), mk({})
orig = s._solve_pressure_cg_pytorch
n = [0]
def fake(A, b, **k):
    n[0] += 1
    x, ok = orig(A, b, **k)
    return (x * 1.3, False) if n[0] <= 2 else (x, ok)
s._solve_pressure_cg_pytorch = fake
check(step(s, 2.0) and step(r, 1.0) and step(r, 1.0))
check(close(fields(s)[0], fields(r)[0], 1e-5) and close(fields(s)[1], fields(r)[1], 1e-4), "retry differs from two half steps")
'''),
dict(id="C11-config-defaults", prop="C11", file=S,
     edits=[('            amg_cfg = self.sim_params.get("amg", {}) or {}\n            amg_tol = float(amg_cfg.get("tol", self.sim_params.get("cg_tolerance", 1e-6)))\n',
             '            amg_cfg = self.sim_params.setdefault("amg", {})\n            amg_tol = float(amg_cfg.setdefault("tol", self.sim_params.get("cg_tolerance", 1e-6)))\n')],
     needs="a simulation with the multigrid solver whose configuration is reused afterwards",
     breaks="running writes defaults into the configuration dictionary",
     demo='''
cfg = dict(solver_type="impes", pressure_solver="amg")
s = make((3, 3, 1))
s.sim_params = cfg
check(step(s, 1.0))
check(cfg == dict(solver_type="impes", pressure_solver="amg"), str(cfg))
'''),
dict(id="C11-limits-inplace", prop="C11", file=W,
     edits=[("        self.limits = limits or {}\n", "        self.limits = limits or {}\n        for key in list(self.limits):\n            self.limits[key.lower()] = float(self.limits.pop(key))\n"),
            ("        self.bhp_min = bhp_min  # МПа, если задано\n", "        self.bhp_min = bhp_min if bhp_min is None else float(bhp_min)  # МПа\n")],
     needs="limit keys in another case (or integer values) in a configuration that is compared or reused",
     breaks="building the wells rewrites the limits dictionary of the configuration",
     demo='''
res = quiet(Reservoir, dict(dimensions=[1, 1, 1]), device=CPU)
cfg = [well("P", "producer", (0, 0, 0), "rate", 10.0, limits={"WOPR": 5})]
quiet(WellManager, cfg, res)
check(cfg[0]["limits"] == {"WOPR": 5}, str(cfg))
'''),
dict(id="C12-bhp-dissolved-gas", prop="C12", file=S,
     edits=[("                        gas_delta = scale_t * (qg_res / max(Bg_cell, 1e-12) + Rs_cell * qo_res / max(Bo_cell, 1e-12))\n", "                        gas_delta = scale_t * (qg_res / max(Bg_cell, 1e-12) + Rs_cell * qg_res / max(Bo_cell, 1e-12))\n")],
     needs="a pressure-controlled producer with tables and dissolved gas",
     breaks="dissolved gas is counted with the gas instead of the oil rate",
     demo='''
s = make((1, 1, 1), cell=(100, 100, 20), pvt=PVT, wells=[well("P", "producer", (0, 0, 0), "bhp", 18.0)], sw=0.3, sg=0.0)
v0 = vols(s)
check(step(s, 0.2))
v1 = vols(s)
f = s.fluid
e = {k: float(f._eval_pvt(f.pressure, k).reshape(-1)[0]) for k in ("Bo", "Rs")}
oil = (v0[2] - v1[2])
ow = s.component_balance["gas"]["out"]
ck = s.component_balance["oil"]["out"]
check(ck > 0 and close(ow, ck * e["Rs"], 1e-3), f"{ow} {ck * e['Rs']}")
'''),
dict(id="C12-planned-mass", prop="C12", file=S,
     edits=[("        mw_eff = dSw_eff * self.porous_volume * rho_w_now\n", "        mw_eff = dSw * self.porous_volume * rho_w_now\n")],
     needs="a step whose water increment is cut at a saturation limit",
     breaks="the water tracker books the planned instead of the applied change",
     demo='''
s = make((2, 1, 1), P=np.array([30e6, 10e6]).reshape(2, 1, 1), sw=np.array([0.6, 0.6]).reshape(2, 1, 1), sg=0.1)
m0 = vols(s)[0]
w0 = fields(s)[1]
check(step(s, 50.0))
d = (s.porous_volume.numpy() * (fields(s)[1] - w0) * s.fluid.rho_w.numpy()).sum()
mb = s.mass_balance["water"]
check(close(mb["in"] - mb["out"], d, 1e-3, 5.0), f"{mb} {d}")
'''),
]
