from bugs1 import S, F, W
BUGS = [
dict(id="C02-gas-window-old-water", prop="C02", file=S,
     edits=[("sg_max_t = (1.0 - so_r - S_w_cur)", "sg_max_t = (1.0 - so_r - S_w_start)")],
     needs="gas replacing water within one step in a cell close to residual oil",
     breaks="the gas window is taken from the water saturation before the step, so gas volume is cut although no limit is reached",
     demo='''
s = make((1, 1, 1), wells=[well("G", "injector", (0, 0, 0), "rate", 1.9, injected_phase="gas"), well("H", "injector", (0, 0, 0), "rate", 1.9, injected_phase="gas"), well("P", "producer", (0, 0, 0), "rate", 18.0)], sw=0.6, sg=0.19,
         relative_permeability=dict(nw=1, no=2, ng=6, sw_cr=0.2, so_r=0.2, sg_cr=0.15))
v0 = vols(s)
check(step(s, 1.0)); v1 = vols(s)
check(v1[0] < v0[0] - 5 and v1[1] - v0[1] > 3.5, f"{v0} {v1}")
'''),
dict(id="C04-gas-density-downstream", prop="C04", file=S,
     edits=[("rho_g_z = torch.where(dp_z_prev > 0, self.fluid.rho_g[:,:,:-1], self.fluid.rho_g[:,:,1:])", "rho_g_z = torch.where(dp_z_prev > 0, self.fluid.rho_w[:,:,:-1], self.fluid.rho_g[:,:,1:])")],
     needs="mobile gas driven downwards (pressure above the layer exceeds the pressure below)",
     breaks="the gravity source of gas uses the water density when flow goes down",
     demo='''
dims = (1, 1, 2)
kw = dict(cell=(10, 10, 20), P=np.array([21e6, 20e6]).reshape(dims), sw=0.2, sg=0.3, kvf=1.0, rho_gas=100.0, rho_oil=0.0)
def dp(rw):
    s = make(dims, rho_water=rw, **kw)
    check(step(s, 30.0))
    p = fields(s)[0].ravel()
    return p[1] - p[0]
a, b = dp(500.0), dp(1500.0)   # water is immobile: its density must not matter
check(abs(a - b) < 50.0, f"{a} {b}")
'''),
dict(id="C05-injector-order", prop="C05", file=S,
     edits=[("                        sw_up = max(0.0, (1.0 - so_r - sg) - sw)\n                        dSw_well = (dt / max(PV_cell, 1e-12)) * q_total\n",
             "                        sw += (dt / max(PV_cell, 1e-12)) * float(q_w[i, j, k])\n                        sw_up = max(0.0, 1.0 - so_r - sg - sw)\n                        dSw_well = (dt / max(PV_cell, 1e-12)) * q_total\n")],
     needs="a producer and an injector in one nearly water-filled cell, listed in either order",
     breaks="what the injector may inject depends on the wells listed before it",
     demo='''
def run(order):
    ws = [well("W", "injector", (0, 0, 0), "rate", 40.0), well("P", "producer", (0, 0, 0), "rate", 30.0)]
    s = make((2, 1, 1), wells=[ws[i] for i in order], sw=0.65, sg=0.1)
    check(step(s, 1.0))
    return fields(s)[1]
a, b = run([0, 1]), run([1, 0])
check(close(a, b, 1e-5), f"{a.ravel()} {b.ravel()}")
'''),
dict(id="C09-bhpmin-mean-pressure", prop="C09", file=S,
     edits=[("                    p_block = P_prev.view(-1)[idx]\n", "                    p_block = P_prev.mean()\n", 0)],
     needs="a producer with a minimum bottom-hole pressure in a cell whose pressure differs from the field average",
     breaks="the switch to pressure control is decided with the average reservoir pressure",
     demo='''
s = make((2, 1, 1), cell=(50, 50, 10), P=np.array([12e6, 28e6]).reshape(2, 1, 1), wells=[well("P", "producer", (0, 0, 0), "rate", 5.0, bhp_min=14.0)])
check(step(s, 0.01))
check(s.well_manager.wells[0].last_mode == "bhp", s.well_manager.wells[0].last_mode)
'''),
dict(id="C12-planned-mass", prop="C12", file=S,
     edits=[("        mw_eff = dSw_eff * self.porous_volume * rho_w_now\n", "        mw_eff = dSw * self.porous_volume * rho_w_now\n")],
     needs="a step whose water increment is cut at a saturation limit",
     breaks="the water tracker books the planned instead of the applied change",
     demo='''
s = make((2, 1, 1), wells=[well("A", "injector", (0, 0, 0), "rate", 80.0), well("B", "injector", (0, 0, 0), "rate", 80.0)], sw=0.6, sg=0.1)
w0 = fields(s)[1]
check(step(s, 1.0))
d = (s.porous_volume.numpy() * (fields(s)[1] - w0) * s.fluid.rho_w.numpy()).sum()
mb = s.mass_balance["water"]
check(close(mb["in"] - mb["out"], d, 1e-3, 5.0), f"{mb} {d}")
'''),
]
