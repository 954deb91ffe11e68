from bugs1 import S, F, W
from bugs2 import R, PV, G, A, C, E, U, PL, V, AMGH
BUGS = [
dict(id="C22-gas-own-layer", prop="C22", file=PL,
     edits=[('''            sg_slice = gas_saturation[:, :, z_slice_idx]
''', '''            gas_idx = int(np.argmax(gas_saturation.std(axis=(0, 1))))
            sg_slice = gas_saturation[:, :, gas_idx]
''')],
     needs="several layers whose gas varies most in another layer than water",
     breaks="the gas panel shows another layer than the title says",
     demo='''
import matplotlib.figure
from plotting.plotter import Plotter
got = []
matplotlib.figure.Figure.savefig = lambda self, *a, **k: got.extend(np.array(ax.images[0].get_array()) for ax in self.axes if ax.images)
class Rs: nz = 2; nx = 2; ny = 1; dimensions = (2, 1, 2)
sw = np.zeros((2, 1, 2)); sw[1, 0, 1] = 0.5
sg = np.zeros((2, 1, 2)); sg[1, 0, 0] = 0.3; sg[:, :, 1] = 0.1
quiet(Plotter(Rs()).save_plots, np.full((2, 1, 2), 2e7), sw, "x.png", gas_saturation=sg)
check(any(g.shape == (1, 2) and abs(g - 0.1).max() < 1e-6 for g in got), str(got))
'''),
dict(id="C22-first-number", prop="C22", file=S,
     edits=[("regex = re.compile(r'_step_(\\d+)\\.png$')", "regex = re.compile(r'_step_(\\d+)')")],
     needs="an output name that itself contains _step_ and a number",
     breaks="all frames get the same number, so their order is that of the directory",
     demo='''
import imageio.v2 as imageio, glob
os.makedirs("r/intermediate")
for k in (2, 10, 9, 100, 1):
    imageio.imwrite(f"r/intermediate/a_step_7_step_{k}.png", np.full((4, 4, 3), k * 2, dtype=np.uint8))
s = make((2, 1, 1))
import imageio as iio
got = []
class Wr:
    def __enter__(self): return self
    def __exit__(self, *a): pass
    def append_data(self, f): got.append(int(np.asarray(f)[0, 0, 0]) // 2)
iio.get_writer = lambda *a, **k: Wr()
quiet(s._create_animation, "r/intermediate", "r/o.gif", fps=5)
check(got == [1, 2, 9, 10, 100], str(got))
'''),
dict(id="C23-obs-clip", prop="C23", file=E,
     edits=[('''        obs = np.concatenate([p, sw]).astype(np.float32)
''', '''        obs = np.concatenate([np.clip(p, 0.0, 6.0), sw]).astype(np.float32)
''')],
     needs="pressures above 60 MPa",
     breaks="the observation does not show the pressure of the reservoir",
     demo='''
from rl_env import ReservoirEnv
cfg = dict(reservoir=dict(dimensions=[2, 1, 1]), fluid=dict(FL, pressure=75.0), wells=[well("P", "producer", (0, 0, 0), "rate", 5.0)], simulation=dict(solver_type="impes", time_step_days=1.0))
json.dump(cfg, open("c.json", "w"))
o, _ = quiet(quiet(ReservoirEnv, "c.json", 3, CPU).reset)
check(close(o[0], 7.5, 1e-5), str(o))
'''),
dict(id="C23-zero-rate", prop="C23", file=E,
     edits=[('''                base_rate = well.control_value  # м3/сут
''', '''                base_rate = well.control_value or 1.0  # м3/сут
''')],
     needs="a well that starts shut (rate zero)",
     breaks="an action opens a shut well",
     demo='''
from rl_env import ReservoirEnv
cfg = dict(reservoir=dict(dimensions=[2, 1, 1]), fluid=FL, wells=[well("P", "producer", (0, 0, 0), "rate", 0.0)], simulation=dict(solver_type="impes", time_step_days=1.0))
json.dump(cfg, open("c.json", "w"))
e = quiet(ReservoirEnv, "c.json", 3, CPU)
quiet(e.reset)
r = quiet(e.step, np.ones(1, dtype=np.float32))[1]
check(e.well_manager.wells[0].control_value == 0 and abs(r) < 1e-6, str((e.well_manager.wells[0].control_value, r)))
'''),
dict(id="C13-zero-rock", prop="C13", file=R,
     edits=[("self.rock_compressibility = config.get('c_rock', 1e-5) / 1e6", "self.rock_compressibility = (config.get('c_rock') or 1e-5) / 1e6")],
     needs="a rock compressibility of exactly zero",
     breaks="zero is replaced by the default",
     demo='''
r = quiet(Reservoir, dict(dimensions=[2, 1, 1], c_rock=0.0), CPU)
check(r.rock_compressibility == 0, str(r.rock_compressibility))
'''),
dict(id="C13-zero-vertical", prop="C13", file=R,
     edits=[("        k_v_fraction = config.get('k_vertical_fraction', 0.1)", "        k_v_fraction = max(config.get('k_vertical_fraction', 0.1), 1e-3)")],
     needs="a vertical fraction below one thousandth (sealing layers)",
     breaks="layers communicate although they should not",
     demo='''
r = quiet(Reservoir, dict(dimensions=[1, 1, 2], k_vertical_fraction=0.0), CPU)
check(float(r.permeability_z.max()) == 0, str(r.permeability_z))
'''),
dict(id="C10-amg-cached-fail", prop="C10", file=S,
     edits=[('''            if converged:
                # Обновляем давление и выполняем шаг насыщенности
''', '''            self.fluid.prev_pressure = P_new
            if converged:
                # Обновляем давление и выполняем шаг насыщенности
''')],
     needs="a failed attempt, then a later step that uses the previous pressure",
     breaks="the previous pressure is that of the failed attempt",
     demo='''
s = make((3, 1, 1))
p0 = s.fluid.prev_pressure.clone()
s.sim_params.update(cg_max_iter=0, max_time_step_attempts=1)
ok = quiet(s.run_step, DAY)
check(not ok and torch.equal(s.fluid.prev_pressure, p0), str(ok))
'''),
dict(id="C24-quick-accept", prop="C24", file=S,
     edits=[('''            current_dt /= dt_reduction_factor
            attempts_left -= 1
            
        print("Решатель не сошелся даже''' if False else '''                remaining -= current_dt
                if remaining <= 1e-9 * dt:
                    return True
                current_dt = min(current_dt, remaining)
                continue

            # Неудачная попытка''', '''                remaining -= current_dt
                if remaining <= 1e-9 * dt or attempts_left == 1:
                    return True
                current_dt = min(current_dt, remaining)
                continue

            # Неудачная попытка''')],
     needs="success on the last permitted attempt after cuts",
     breaks="a partly simulated step is reported as complete",
     demo='''
s = make((2, 1, 1), sim=dict(solver_type="fully_implicit", max_time_step_attempts=2))
seen = []
def newton(dt, *a, **k):
    seen.append(dt)
    return (len(seen) > 1, 1)
s._fully_implicit_newton_step = newton
ok = quiet(s.run_step, 8.0)
check(ok and seen == [8.0, 4.0, 4.0], str(seen))
'''),
]
