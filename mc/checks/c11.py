"""C11: simulations are reproducible and isolated from each other."""
import copy, hashlib, itertools, json, os, pickle, random, shutil, tempfile
import numpy as np
import torch
from .. import env, models as mm, family
from ..build import build, raw_state, reservoir_config, fluid_config, CPU, t32, MD
from ..spec import Spec
from simulator.reservoir import Reservoir
from simulator.fluid import Fluid
from simulator.well import WellManager
from simulator.simulation import Simulator

FRESH = True        # every case runs in a process forked from one that has run no simulation
BOUND = dict(quick="15 models (CG float32/float64, AMG with colliding hierarchy sizes, PVT, Stone, capillary, limits, fully implicit): solo in fresh processes under 4 random-generator states; all interleavings of create/step of every pair (create + 3 steps each: 70) and of create/step of selected triples (90), shared configuration objects; table files of equal name and size in different directories, and one table file rewritten between creations",
             thorough="all pairs, triples with 2 steps each (1680 interleavings each)")
RULE = "fields and trackers after every step are bit-identical to the solo run (AMG: to solver tolerance); configuration objects deep-equal before and after"


def catalogue():
    W = mm.well
    c = {}
    wip = lambda d: [W("I", "injector", (0, 0, 0), "rate", 2.0), W("P", "producer", tuple(x - 1 for x in d), "rate", 3.0, limits=dict(wopr=1.0))]
    bhp = lambda d: [W("P", "producer", (0, 0, 0), "bhp", 18.0), W("G", "injector", tuple(x - 1 for x in d), "bhp", 21.5, injected_phase="gas")]
    amg = dict(pressure_solver="amg", amg=dict(coarsest_size=2, tol=1e-9, max_cycles=60))
    c["cg"] = mm.model((3, 2, 1), wells=wip((3, 2, 1)))
    c["cg2"] = mm.model((3, 2, 1), wells=bhp((3, 2, 1)), k=(1., 500.), fld="h2")
    c["cg32"] = mm.model((3, 2, 1), wells=wip((3, 2, 1)), sim=dict(pressure_float64=False))
    c["pvt"] = mm.model((2, 2, 2), wells=wip((2, 2, 2)), pvt=mm.PVT_RV, rp="stone", **family.CAPS[3])
    c["pvt2"] = mm.model((2, 2, 2), wells=bhp((2, 2, 2)), pvt=mm.PVT_PLAIN, rp="corey3")
    c["amg"] = mm.model((3, 2, 2), wells=wip((3, 2, 2)), sim=amg)
    c["amg2"] = mm.model((3, 2, 2), wells=bhp((3, 2, 2)), k=(1., 900.), fld="h2", sim=amg)
    c["amg3"] = mm.model((2, 3, 2), wells=wip((2, 3, 2)), pvt=mm.PVT_RV, sim=amg)
    c["amg4"] = mm.model((12, 1, 1), wells=wip((12, 1, 1)), sim=amg)
    c["amgdef"] = mm.model((3, 2, 1), wells=wip((3, 2, 1)), sim=dict(pressure_solver="amg"))
    c["amgnone"] = mm.model((2, 2, 1), wells=bhp((2, 2, 1)), sim=dict(pressure_solver="AMG", amg=None))
    c["ints"] = mm.model((2, 2, 1), pvt=mm.PVT_RV, wells=[W("P", "producer", (0, 0, 0), "rate", 5, limits={"WOPR": 1, "wlpr": 2}, bhp_min=10), W("i", "injector", (1, 1, 0), "RATE", 2, rate_type="SURFACE", surface_phase="water"),
                                                             W("G", "injector", (1, 0, 0), "bhp", 22, injected_phase="GAS", limits={}), W("Q", "producer", (0, 1, 0), "rate", 3, limits=None, rate_type="surface", surface_phase="Oil")])
    c["col"] = mm.model((1, 1, 3), wells=[], rp="corey3")
    c["fim"] = mm.model((2, 1, 1), wells=[], fld="u", sim=dict(solver_type="fully_implicit"), poro=False, k=None)
    c["fim2"] = mm.model((2, 2, 1), wells=[], fld="u", sim=dict(solver_type="fully_implicit", max_time_step_attempts=2), poro=False, k=None, fkw=dict(sg=(0.0, 0.0)))
    return c


DT = (0.2, 0.7, 0.1)


def cases(tier):
    th = tier == "thorough"
    names = list(catalogue())
    for n in names:
        yield dict(kind="solo", m=n)
    pairs = [p for p in itertools.combinations_with_replacement(names, 2)]
    for p in pairs:
        if not th and (set(p) & {"amgdef", "amgnone", "ints"}) and p[0] != p[1]:
            continue
        if not th and not (("amg" in p[0]) == ("amg" in p[1]) or p[0] == "cg" or "pvt" in p[0]):
            continue
        yield dict(kind="inter", ms=p, steps=3 if not any("fim" in x for x in p) else 2)
    for p in (("pvt", "pvt2"), ("pvt2", "amg3"), ("amg3", "pvt")):
        yield dict(kind="inter", ms=p, steps=2, rewrite=True)
    for t in (("cg", "pvt", "cg2"), ("amg", "amg2", "amg3"), ("amg", "cg", "amg2"), ("pvt", "pvt2", "col")):
        if th:
            for first in range(3):
                for second in range(3):
                    yield dict(kind="inter", ms=t, steps=2, head=(first, second))
        else:
            yield dict(kind="inter", ms=t, steps=1)


def sim_from(C, M):
    """Simulation straight from the (shared, uncopied) configuration objects."""
    res = Reservoir(C["reservoir"], CPU)
    F = M["fields"]
    for key, attr in (("kx", "permeability_x"), ("ky", "permeability_y"), ("kz", "permeability_z")):
        if key in F:
            setattr(res, attr, t32(np.asarray(F[key]) * MD, M["dims"]))
    if "poro" in F:
        res.porosity = t32(F["poro"], M["dims"])
        res.porous_volume = res.cell_volume * res.porosity
    fl = Fluid(C["fluid"], res, CPU)
    fl.pressure, fl.s_w, fl.s_g = (t32(F[k], M["dims"]) for k in ("P", "sw", "sg"))
    fl.s_o = 1.0 - fl.s_w - fl.s_g
    fl.prev_pressure, fl.prev_sw, fl.prev_sg = fl.pressure.clone(), fl.s_w.clone(), fl.s_g.clone()
    return Simulator(res, fl, WellManager(C["wells"], res), C["simulation"], device=CPU)


def config(M, shared=None):
    """Configuration of the model.  Table files of all models have the same name and size (in different directories)
    or, with shared, even the same path: then the file is rewritten when the simulation is created."""
    C = dict(reservoir=reservoir_config(M), fluid=fluid_config(M), wells=copy.deepcopy(M["wells"]), simulation=copy.deepcopy(M["sim"]))
    if M.get("pvt") is not None:
        txt = json.dumps(M["pvt"])
        txt += " " * (4096 - len(txt))
        d = os.path.join(env.SCRATCH, "c11-" + hashlib.md5(txt.encode()).hexdigest())
        if shared is not None:
            d, txt = shared[0], txt + " " * shared[1]
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "pvt.json")
        if shared is not None or not os.path.exists(path):
            with open(f"{path}.{os.getpid()}", "w") as f:
                f.write(txt)
            os.replace(f"{path}.{os.getpid()}", path)
            t = 1.6e9 + (1000 * shared[1] if shared else 0)
            os.utime(path, (t, t))
        C["fluid"]["pvt_path"] = path
    return C


def obs(sim, ok):
    return raw_state(sim), copy.deepcopy(sim.mass_balance), copy.deepcopy(sim.component_balance), bool(ok), \
        [(w.control_value, w.last_q_total, dict(w.last_surface_rates)) for w in sim.well_manager.get_wells()]


def isolated(fn):
    """Result of fn() in a forked child."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rd)
            data = pickle.dumps(fn())
            with os.fdopen(wr, "wb") as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(rd, "rb") as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if st != 0:
        raise RuntimeError("child failed")
    return pickle.loads(data)


def rng(n):
    random.seed(n)
    np.random.seed(n)
    torch.manual_seed(n)
    for _ in range(n % 5):
        random.random(); np.random.rand(); torch.rand(1)


def solo(M, steps, seed):
    def fn():
        rng(seed)
        s = sim_from(config(M), M)
        out = [obs(s, True)]
        for i in range(steps):
            out.append(obs(s, s.run_step(DT[i] * 86400)))
        return out
    return isolated(fn)


def bits(a, b):
    return all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a[0], b[0])) and repr(a[1:]) == repr(b[1:])


def close(a, b, M, spec, k):
    P, sw, sg, so = (x.astype(np.float64) for x in a[0])
    tolP = 4e-6 * np.abs(P).max() * (1 + k) + spec.drift(P, sw, sg, 0.7 * 86400)
    return a[3] == b[3] and np.abs(P - b[0][0]).max() <= tolP and all(np.abs(a[0][i] - b[0][i].astype(np.float64)).max() <= 2e-4 for i in (1, 2, 3))


def run_case(c, r):
    cat = catalogue()
    if c["kind"] == "solo":
        M = cat[c["m"]]
        ref = solo(M, 3, 0)
        for seed in (1, 2, 3, 11):
            o = solo(M, 3, seed)
            for k, (a, b) in enumerate(zip(ref, o)):
                r.transitions += 1
                r.traces += 1
                r.state(*b[0])
                if not bits(a, b):
                    r.bad(f"run differs with another state of the random generators: model {c['m']}, step {k}, max dP={np.abs(a[0][0] - b[0][0]).max()}")
                    return
        r.count("solo")
        # the same configuration objects used twice, and left as they were
        def fn():
            C = config(M)
            # entries the program does not know are the user's and stay too
            for part in [C["reservoir"], C["fluid"], C["simulation"]] + C["wells"] + [w["limits"] for w in C["wells"] if w.get("limits")]:
                part.update({"comment": "x", "bhp": 7.0, "unused": None, "note": [1, {"a": 2}]})
            keep = copy.deepcopy(C)
            out = []
            for _ in range(2):
                s = sim_from(C, M)
                out.append([obs(s, True)] + [obs(s, s.run_step(DT[i] * 86400)) for i in range(3)])
            return repr(C) == repr(keep) and C == keep, out, C, keep
        same, outs, C, keep = isolated(fn)
        if not same:
            r.bad(f"configuration was modified by the run: model {c['m']}: {[k for k in C if C[k] != keep[k]]}")
        amg = "amg" in c["m"]
        for n, out in enumerate(outs):
            for k, (a, b) in enumerate(zip(ref, out)):
                r.transitions += 1
                if not (close(a, b, M, Spec(M), k) if amg and n else bits(a, b)):
                    r.bad(f"second use of the same configuration objects differs: model {c['m']}, simulation {n}, step {k}")
                    return
        return
    ms = c["ms"]
    Ms = [cat[m] for m in ms]
    refs = [solo(M, c["steps"], 0) for M in Ms]
    specs = [Spec(M) for M in Ms]
    amg = ["amg" in m for m in ms]
    n = len(ms)
    words = c["steps"] + 1
    shared = {}

    def inter(seq):
        def fn():
            rng(5)
            Cs = {}
            tmp = tempfile.mkdtemp(dir=env.SCRATCH) if c.get("rewrite") else None
            if not tmp:
                for m, M in zip(ms, Ms):
                    Cs.setdefault(m, config(M))
            sims = [None] * n
            cnt = [0] * n
            out = [[] for _ in range(n)]
            for i in seq:
                if sims[i] is None:
                    if tmp:
                        Cs[ms[i]] = config(Ms[i], (tmp, i))
                    sims[i] = sim_from(Cs[ms[i]], Ms[i])
                    out[i].append(obs(sims[i], True))
                else:
                    out[i].append(obs(sims[i], sims[i].run_step(DT[cnt[i]] * 86400)))
                    cnt[i] += 1
            # nobody touched a simulation after its own last operation
            final = [raw_state(s) for s in sims]
            if tmp:
                shutil.rmtree(tmp)
            return out, final
        return isolated(fn)

    seqs = sorted(set(itertools.permutations([i for i in range(n) for _ in range(words)]))) if n * words <= 8 else None
    if seqs is None:
        def gen(left, pre):
            if not any(left):
                yield tuple(pre)
                return
            for i in range(n):
                if left[i]:
                    left[i] -= 1
                    yield from gen(left, pre + [i])
                    left[i] += 1
        seqs = gen([words] * n, [])
    for seq in seqs:
        if c.get("head") is not None and tuple(seq[:2]) != tuple(c["head"]):
            continue
        out, final = inter(seq)
        r.count("interleavings")
        r.state(repr(seq) + repr(ms))
        for i in range(n):
            for k, (a, b) in enumerate(zip(refs[i], out[i])):
                r.transitions += 1
                r.traces += 1
                if not (close(a, b, Ms[i], specs[i], k) if amg[i] else bits(a, b)):
                    r.bad(f"interleaving changes a simulation: order {seq} of {ms}, simulation {i} ({ms[i]}), step {k}: max dP={np.abs(a[0][0].astype(float) - b[0][0]).max():.6g} dSw={np.abs(a[0][1].astype(float) - b[0][1]).max():.3g}")
                    return
            if not all(np.array_equal(x, y, equal_nan=True) for x, y in zip(final[i], out[i][-1][0])):
                r.bad(f"fields of simulation {i} ({ms[i]}) changed by another simulation: order {seq} of {ms}")
                return


def finish(tier, counters, cases):
    if counters.get("interleavings", 0) < 1500 or counters.get("solo", 0) < 10:
        yield f"vacuous: {counters}"
