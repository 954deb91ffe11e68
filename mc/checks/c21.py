"""C21: a run performs the configured steps and saves the final state."""
import contextlib, io, itertools, json, os, re, shutil, sys, tempfile
from fractions import Fraction
import numpy as np
import torch
from .. import env, models as mm
from ..build import build, state, reservoir_config, fluid_config

BOUND = dict(quick="run loop with a recorded stand-in for the single step and the plot: all combinations of 15 total times x 9 step lengths (decimal fractions that do not divide exactly in binary included), save intervals around the number of steps, frame rates, output switches and the failing step; two runs of one name in one second; 12 full runs (through the run function and the command line entry point) compared with stepping by hand",
             thorough="more totals and lengths, every failing step, more full runs")
RULE = "number, length and order of steps; exact set of files; picture, array, summary and animation contents equal the fields at that step / at the end"
ASSUMPTIONS = ["positive step length, save interval of at least one, output name without path separators"]

TOTALS = ("0", "0.05", "0.1", "0.3", "0.5", "0.7", "0.9", "1", "1.1", "2", "2.4", "3", "7.5", "10", "25.5")
STEPS = ("0.1", "0.15", "0.25", "0.3", "0.5", "0.7", "1", "2", "30")


def cases(tier):
    th = tier == "thorough"
    tt = TOTALS + (("0.6", "1.2", "1.9", "4.4", "6.3", "0.29", "57", "99.9") if th else ())
    ss = STEPS + (("0.01", "0.07", "0.6", "1.1", "0.001") if th else ())
    for t in tt:
        for s in ss:
            if Fraction(t) / Fraction(s) <= (1000 if th else 110):
                yield dict(kind="loop", total=t, step=s, th=th)
    for n in (150, 365, 1000) + ((3650,) if th else ()):
        yield dict(kind="far", n=n)
    for opts in itertools.product((0, 5), (None, True, False), (None, True, False), (False, True)):
        yield dict(kind="files", o=opts)
    for dims in ((34, 31, 1), (5, 8, 30), (1, 1, 1200), (72, 71, 1)) + (((3, 1, 4000), (120, 100, 1)) if th else ()):
        yield dict(kind="wide", dims=dims)
    yield dict(kind="twice")
    for same in (True, False):
        for interval in (1, 2, 5):
            yield dict(kind="again", same=same, interval=interval)
    yield dict(kind="defaults")
    for i in range(4 if not th else 10):
        for way in ("run", "main", "plots"):
            yield dict(kind="real", i=i, way=way)


def colour(k):
    """A distinct colour per step number."""
    return ((37 * k + 11) % 256, (101 * k + 60) % 256, (k * 7 + 128) % 256)


def png(path, rgb, size=(8, 6)):
    import imageio
    a = np.zeros(size + (4,), np.uint8)
    a[..., :3] = rgb
    a[..., 3] = 255
    a[: 1, :1, :3] = 0
    imageio.imwrite(path, a)


class Plots:
    """Stand-in for the picture writer."""
    def __init__(self):
        self.calls = []

    def __enter__(self):
        from plotting.plotter import Plotter
        self.cls, self.old = Plotter, Plotter.save_plots
        me = self

        def save(self_, pressure, saturation, filename, time_info=None, gas_saturation=None):
            me.calls.append((filename, np.array(pressure, copy=True), np.array(saturation, copy=True), None if gas_saturation is None else np.array(gas_saturation, copy=True), time_info))
            m = re.search(r"_step_(\d+)\.png$", filename)
            png(filename, colour(int(m.group(1)) if m else 999))
        Plotter.save_plots = save
        return self

    def __exit__(self, *a):
        self.cls.save_plots = self.old


def model(params, dims=(2, 2, 1)):
    M = mm.model(dims, wells=[], sim=dict(params))
    for k in ("total_time_days", "time_step_days", "save_interval"):
        if k not in params:
            M["sim"].pop(k, None)
    return M


def fake_steps(sim, log, fail):
    """Replace the single time step by one that changes the fields recognisably."""
    def step(dt=None, *a, **k):
        n = len(log) + 1
        ok = n != fail
        log.append((dt, ok))
        if ok:
            sim.fluid.pressure = sim.fluid.pressure + 1e4 * n
            sim.fluid.s_w = sim.fluid.s_w + 1e-3
            sim.fluid.s_o = sim.fluid.s_o - 2e-3
            sim.fluid.s_g = sim.fluid.s_g + 1e-3
            mb = sim.mass_balance
            for q, (ph, io_) in enumerate(itertools.product(("water", "oil", "gas"), ("in", "out"))):
                mb[ph][io_] += 1.25 * (q + 1) * n
        return ok
    sim.run_step = step


def tree(d):
    out = {}
    for base, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(base, f)
            out[os.path.relpath(p, d)] = os.path.getsize(p)
    return out


@contextlib.contextmanager
def workdir():
    d = tempfile.mkdtemp(dir=env.SCRATCH)
    old = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def gif_frames(path):
    import imageio
    return [np.asarray(f)[..., :3].astype(int) for f in imageio.mimread(path, memtest=False)]


def nearest_colour(frame, names):
    px = frame[frame.shape[0] // 2, frame.shape[1] // 2]
    return min(names, key=lambda k: np.abs(np.array(colour(k)) - px).sum())


def gif_ok(rd, name, pics):
    fr = [nearest_colour(f, pics + [999]) for f in gif_frames(os.path.join(rd, name + ".gif"))]
    return None if fr == pics + [999] else fr


def summary(txt):
    num = r"([-+0-9.e]+)"
    out = {}
    for lab in ("Pressure MPa", "Sw", "Sg", "So"):
        m = re.search(rf"^{lab}: min={num}, max={num}, mean={num}$", txt, re.M)
        out[lab] = tuple(map(float, m.groups())) if m else None
    for lab in ("water", "gas", "oil"):
        m = re.search(rf"^{lab}:\s+in={num}, out={num}, net={num}$", txt, re.M)
        out[lab] = tuple(map(float, m.groups())) if m else None
    m = re.search(rf"^total net={num}$", txt, re.M)
    out["total"] = float(m.group(1)) if m else None
    return out


def check_final(r, sim, d, name, what, npz=True, full=False):
    P, sw, sg, so = (x.cpu().numpy() for x in (sim.fluid.pressure, sim.fluid.s_w, sim.fluid.s_g, sim.fluid.s_o))
    p = os.path.join(d, name + ".npz")
    if os.path.exists(p) != npz:
        r.bad(f"array file {'missing' if npz else 'written although switched off'}: {what}")
        return
    if npz:
        z = np.load(p)
        if sorted(z.files) != ["pressure", "sg", "so", "sw"]:
            r.bad(f"array file contains {z.files}: {what}")
            return
        for k, v in dict(pressure=P, sw=sw, sg=sg, so=so).items():
            if z[k].shape != v.shape or not np.array_equal(z[k], v):
                r.bad(f"saved {k} is not the final field: {what}")
                return
    txt = open(os.path.join(d, name + ".txt")).read()
    s = summary(txt)
    mb = sim.mass_balance
    for lab, f, tol in (("Pressure MPa", P / 1e6, 0.0051), ("Sw", sw, 5.1e-5), ("Sg", sg, 5.1e-5), ("So", so, 5.1e-5)):
        want = (f.min(), f.max(), f.astype(np.float64).mean())
        if s[lab] is None or any(abs(a - b) > tol + 2e-6 * abs(b) for a, b in zip(s[lab], want)):
            r.bad(f"summary line {lab} is {s[lab]}, fields have {want}: {what}")
            return
    net = {}
    for lab in ("water", "gas", "oil"):
        net[lab] = mb[lab]["in"] - mb[lab]["out"]
        want = (mb[lab]["in"], mb[lab]["out"], net[lab])
        if s[lab] is None or any(abs(a - b) > 1e-6 * abs(b) + 1e-300 for a, b in zip(s[lab], want)):
            r.bad(f"balance line {lab} is {s[lab]}, the model has {want}: {what}")
            return
    tot = sum(net.values())
    if s["total"] is None or abs(s["total"] - tot) > 1e-6 * abs(tot) + 1e-9 * max(abs(x) for x in net.values()) + 1e-300:
        r.bad(f"total of the balance is {s['total']}, the model has {tot}: {what}")
    blocks = re.findall(r"Final ([A-Za-z ()]+):\n(.*?)(?=\n\nFinal|\Z)", txt, re.S)
    if bool(blocks) != full:
        r.bad(f"full arrays {'missing from' if full else 'in'} the text file: {what}")
    for lab, body in blocks:
        f = P / 1e6 if "Pressure" in lab else sw if "Water" in lab else sg if "Gas" in lab else so
        v = np.array([float(x) for x in re.findall(r"-?\d+\.\d+", body)])
        if v.size != f.size or np.abs(v - f.reshape(-1)).max() > (0.0051 if "Pressure" in lab else 5.1e-5):
            r.bad(f"text array {lab} differs from the field: {what}")
    if full and len(blocks) != 4:
        r.bad(f"{len(blocks)} text arrays instead of 4: {what}")


def expected(n, fail, interval):
    done = n if not fail or fail > n else fail - 1
    pics = [k for k in range(1, done + 1) if k % interval == 0] if interval < n else []
    return done, pics


def one_run(r, params, n, fail, what, name="out", save_vtk=False, dims=(2, 2, 1)):
    """Run with stand-ins in a fresh directory and compare everything observable."""
    interval, fps = params.get("save_interval", 10), params.get("animation_fps", 5)
    with workdir() as d:
        with open("bystander.txt", "w") as f:
            f.write("x")
        sim = build(model(params, dims))
        log = []
        fake_steps(sim, log, fail)
        history = [(np.array(sim.fluid.pressure), np.array(sim.fluid.s_w), np.array(sim.fluid.s_g))]
        inner = sim.run_step

        def step(dt=None, *a, **k):
            ok = inner(dt, *a, **k)
            history.append((np.array(sim.fluid.pressure), np.array(sim.fluid.s_w), np.array(sim.fluid.s_g)))
            return ok
        sim.run_step = step
        with Plots() as plots:
            sim.run(name, save_vtk)
        r.transitions += len(log) + 1
        r.traces += 1
        r.count("runs")
        r.state(tuple(log), *history[-1])
        done, pics = expected(n, fail, interval)
        calls = done + (1 if fail and fail <= n else 0)
        if len(log) != calls:
            r.bad(f"{len(log)} steps attempted instead of {calls}: {what}")
            return
        dt = params.get("time_step_days", 1.0) * 86400
        if any(abs(x - dt) > 1e-9 * dt for x, _ in log):
            r.bad(f"steps of {log[0][0]} s instead of {dt} s: {what}")
        dirs = os.listdir("results")
        if len(dirs) != 1 or not dirs[0].startswith(name + "_"):
            r.bad(f"results directories {dirs}: {what}")
            return
        rd = os.path.join("results", dirs[0])
        npz, full = params.get("save_npz", True), params.get("write_full_arrays_txt", False)
        want = {name + ".txt", name + "_final.png"} | ({name + ".npz"} if npz else set())
        want |= {os.path.join("intermediate", f"{name}_step_{k}.png") for k in pics}
        if interval < n and fps > 0:
            want.add(name + ".gif")
        got = set(tree(rd))
        if got != want:
            r.bad(f"files missing {sorted(want - got)} / unexpected {sorted(got - want)}: {what}")
            return
        allf = {k for k in tree(".") if not k.startswith(rd + os.sep)}
        if allf != {"bystander.txt"} or open("bystander.txt").read() != "x":
            r.bad(f"files written outside the results directory: {sorted(allf)}: {what}")
        seen = {}
        for fn, p, sw, sg, ti in plots.calls:
            m = re.search(r"_step_(\d+)\.png$", fn)
            seen[int(m.group(1)) if m else "final"] = (p, sw, sg)
            day = re.search(r"\d+(\.\d+)?", str(ti))
            if m and day and abs(float(day.group()) - int(m.group(1)) * dt / 86400) > 1 + 1e-6:
                r.bad(f"picture of day {int(m.group(1)) * dt / 86400} is labelled {ti!r}: {what}")
                return
        for k, v in seen.items():
            h = history[done] if k == "final" else history[k]
            if not np.array_equal(v[0], h[0]) or not np.array_equal(v[1], h[1]) or v[2] is None or not np.array_equal(v[2], h[2]):
                r.bad(f"picture {k} does not show the fields of its step: {what}")
                return
        if len(plots.calls) != len(seen) or set(seen) != set(pics) | {"final"}:
            r.bad(f"pictures {sorted(map(str, seen))} instead of {pics} and final: {what}")
        check_final(r, sim, rd, name, what, npz, full)
        if name + ".gif" in want:
            fr = [nearest_colour(f, pics + [999]) for f in gif_frames(os.path.join(rd, name + ".gif"))]
            r.count("gifs")
            from PIL import Image
            dur = Image.open(os.path.join(rd, name + ".gif")).info.get("duration")
            if len(fr) > 1 and (dur is None or abs(dur - 1000 / fps) > 10):
                r.bad(f"animation shows a frame for {dur} ms, configured {fps} frames per second: {what}")
                return
            if fr != pics + [999]:
                r.bad(f"animation frames {fr} instead of {pics} and the final picture: {what}")


def run_case(c, r):
    if c["kind"] == "loop":
        t, s = c["total"], c["step"]
        n = int(Fraction(t) / Fraction(s))                  # exact
        ints = sorted({1, 2, 3, 10, max(n - 1, 1), max(n, 1), n + 1, max(n // 2, 1)})
        if len(ints) > 5 and not c["th"]:
            ints = [i for i in ints if i not in (3,)]
        for i in ints:
            if n // i > 60 and not c["th"]:
                continue
            fails = [None] + ([1, max(n // 2, 1), n] if n else [])
            if c["th"] and n <= 12:
                fails = [None] + list(range(1, n + 1))
            for fail in dict.fromkeys(fails):
                if fail and i not in (1, 2, n - 1, n):
                    continue
                p = dict(total_time_days=float(t), time_step_days=float(s), save_interval=i, animation_fps=(5, 2, 10)[i % 3] if i > 1 and n < 20 else 0)
                one_run(r, p, n, fail, f"total={t} step={s} interval={i} failing step={fail}")
                if r.viol:
                    return
    elif c["kind"] == "far":
        n = c["n"]
        for step in (1.0, 0.5):
            for i, fps in ((1, 0), (max(6, n // 100 * 2), 5), (30, 10), (100, 4), (n // 2, 5), (n - 1, 0), (n, 5), (n + 1, 5)):      # (even intervals: distinct colours)
                if n // i > 1000:
                    continue
                for fail in (None, 11, 101, 128, n):
                    if fail is None or i in (30, n):
                        p = dict(total_time_days=n * step, time_step_days=step, save_interval=i, animation_fps=fps)
                        one_run(r, p, n, fail, f"{n} steps of {step} interval={i} fps={fps} failing step={fail}")
                        if r.viol:
                            return
    elif c["kind"] == "files":
        fps, npz, full, vtk = c["o"]
        p = dict(total_time_days=4.0, time_step_days=1.0, save_interval=2, animation_fps=fps)
        if npz is not None:
            p["save_npz"] = npz
        if full is not None:
            p["write_full_arrays_txt"] = full
        for name in ("out", "my run", "a.b", "пласт", "x_step_9", "a[1]", "intermediate"):
            for interval in (1, 2, 3, 4, 9):
                for fail in (None, 1, 3):
                    one_run(r, dict(p, save_interval=interval), 4, fail, f"options {c['o']} name={name!r} interval={interval} failing step={fail}", name=name, save_vtk=vtk)
                if r.viol:
                    return
    elif c["kind"] == "wide":       # more cells than any printing limit
        for full in (True, False):
            p = dict(total_time_days=3.0, time_step_days=1.0, save_interval=2, animation_fps=0, write_full_arrays_txt=full)
            one_run(r, p, 3, None, f"{c['dims']} cells, full arrays {full}", dims=tuple(c["dims"]))
    elif c["kind"] == "twice":
        for rep in range(10):
            with workdir():
                finals = []
                for k in range(4):
                    sim = build(model(dict(total_time_days=1.0 + k, time_step_days=1.0, save_interval=100)))
                    fake_steps(sim, [], None)
                    with Plots():
                        sim.run("same")
                    finals.append(np.array(sim.fluid.pressure))
                    r.transitions += 1
                dirs = os.listdir("results")
                r.traces += 1
                r.count("same second")
                if len(dirs) != 4:
                    r.bad(f"four runs of one name wrote into {len(dirs)} directories")
                    return
                saved = [np.load(os.path.join("results", x, "same.npz"))["pressure"] for x in dirs]
                for f in finals:
                    if sum(np.array_equal(f, s) for s in saved) != 1:
                        r.bad("results of runs of one name in one second were mixed up")
                        return
                r.state(rep)
    elif c["kind"] == "again":      # one simulator run again and again, with a failing step in any of the runs
        for fail in (None, 2, 4, 6, 9):
            with workdir():
                p = dict(total_time_days=4.0, time_step_days=1.0, save_interval=c["interval"], animation_fps=5)
                sim = build(model(p))
                log, seen = [], set()
                fake_steps(sim, log, fail)
                for k in range(3):
                    name = "r" if c["same"] else f"r{k}"
                    before = len(log)
                    with Plots() as plots:
                        sim.run(name)
                    made = log[before:]
                    what = f"run {k + 1} of one simulator, {c}, failing step {fail}"
                    r.transitions += 1
                    r.traces += 1
                    r.count("again")
                    lf = fail - before if fail and before < fail <= before + 4 else None
                    done, pics = expected(4, lf, c["interval"])
                    if len(made) != (lf or 4):
                        r.bad(f"{len(made)} steps attempted instead of {lf or 4}: {what}")
                        return
                    new = set(os.listdir("results")) - seen
                    seen |= new
                    if len(new) != 1:
                        r.bad(f"new results directories {sorted(new)}: {what}")
                        return
                    rd = os.path.join("results", new.pop())
                    want = {name + ".txt", name + "_final.png", name + ".npz"} | {os.path.join("intermediate", f"{name}_step_{q}.png") for q in pics}
                    if c["interval"] < 4:
                        want.add(name + ".gif")
                    if set(tree(rd)) != want:
                        r.bad(f"files {sorted(tree(rd))} instead of {sorted(want)}: {what}")
                        return
                    check_final(r, sim, rd, name, what)
                    if name + ".gif" in want and gif_ok(rd, name, pics) is not None:
                        r.bad(f"animation frames {gif_ok(rd, name, pics)} instead of {pics} and the final picture: {what}")
    elif c["kind"] == "defaults":
        one_run(r, dict(animation_fps=0), 100, None, "default total, step and interval")
        one_run(r, dict(total_time_days=25), 25, None, "default step and interval")
        one_run(r, dict(time_step_days=7.0, animation_fps=0), 14, None, "default total and interval")
        one_run(r, dict(time_step_days=20, save_interval=2), 5, None, "default total, whole-number step")
    else:
        real(c, r)


def real(c, r):
    i = c["i"]
    W = mm.well
    dims = [(3, 2, 1), (2, 2, 2), (4, 1, 2), (3, 3, 1)][i % 4]
    last = [x - 1 for x in dims]
    wells = [W("I", "injector", (0, 0, 0), "rate", 2.0 + i, injected_phase="gas" if i % 2 else "water"), W("P", "producer", tuple(last), "bhp", 18.0)]
    n, iv = 5, 2
    simp = dict(total_time_days=n * 0.3, time_step_days=0.3, save_interval=iv, animation_fps=2)
    cfg = dict(description="t", reservoir=dict(dimensions=list(dims), grid_size=[20.0, 30.0, 5.0], porosity=0.2 + 0.01 * i, permeability=100.0, k_vertical_fraction=0.2),
               fluid=dict(pressure=20.0, s_w=0.3, s_g=0.0 if i % 2 else 0.05, pvt_path=None), wells=wells, simulation=simp, output_filename="real")
    cfg["fluid"].pop("pvt_path")
    from simulator.reservoir import Reservoir
    from simulator.fluid import Fluid
    from simulator.well import WellManager
    from simulator.simulation import Simulator
    import copy

    def make():
        k = copy.deepcopy(cfg)
        dev = torch.device("cpu")
        res = Reservoir(k["reservoir"], dev)
        wm = WellManager(k["wells"], res)
        return Simulator(res, Fluid(k["fluid"], res, dev), wm, k["simulation"], dev)
    ref = make()
    for _ in range(n):
        if not ref.run_step(0.3 * 86400):
            r.bad(f"reference step failed: {c}")
            return
    with workdir():
        before = json.dumps(cfg)
        if c["way"] == "main":
            import main
            with open("c.json", "w") as f:
                json.dump(cfg, f)
            old = sys.argv
            sys.argv = ["main", "--config", "c.json"]
            try:
                with Plots() as pl:
                    main.main()
            finally:
                sys.argv = old
            if open("c.json").read() != before:
                r.bad(f"the configuration file was changed: {c}")
        elif c["way"] == "run":
            sim = make()
            with Plots() as pl:
                sim.run("real")
        else:
            sim = make()
            sim.run("real")
        r.transitions += n
        r.traces += 1
        r.count("real " + c["way"])
        dirs = os.listdir("results")
        rd = os.path.join("results", dirs[0])
        want = {"real.txt", "real.npz", "real.gif", "real_final.png"} | {os.path.join("intermediate", f"real_step_{k}.png") for k in (2, 4)}
        if set(tree(rd)) != want or len(dirs) != 1:
            r.bad(f"files {sorted(tree(rd))}: {c}")
            return
        check_final(r, ref, rd, "real", str(c))
        r.state(*state(ref))
        if c["way"] == "plots":
            import imageio
            fr = gif_frames(os.path.join(rd, "real.gif"))
            pics = [np.asarray(imageio.imread(os.path.join(rd, "intermediate", f"real_step_{k}.png")))[..., :3].astype(int) for k in (2, 4)]
            pics.append(np.asarray(imageio.imread(os.path.join(rd, "real_final.png")))[..., :3].astype(int))
            if len(fr) != len(pics):
                r.bad(f"animation has {len(fr)} frames for {len(pics)} pictures: {c}")
                return
            for q, (a, b) in enumerate(zip(fr, pics)):
                h, w = b.shape[:2]
                if a.shape[0] < h or a.shape[1] < w or np.abs(a[:h, :w] - b).mean() > 6:
                    r.bad(f"animation frame {q} does not show its picture: {c}")


def finish(tier, counters, cases):
    need = dict(runs=1500, gifs=400)
    need["real run"] = need["real main"] = need["real plots"] = 3
    need["same second"] = 5
    low = {k: counters.get(k, 0) for k, v in need.items() if counters.get(k, 0) < v}
    if low:
        yield f"vacuous: {low}"
