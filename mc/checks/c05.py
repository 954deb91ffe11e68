"""C05: results do not depend on labelling (axis swap, mirrors, well order, well splitting)."""
import copy, itertools
import numpy as np
from .. import models as mm, family
from ..build import build, state, raw_state

BOUND = dict(quick="grids <= 3x2x2, 8 well layouts, 3 relperm, PVT on/off, capillary on/off; transformations {swap xy, mirror x, mirror y, mirror z without gravity, all well permutations, well splits}; all step sequences depth 2 over {0.1, 4} days; larger grids, many wells and long histories",
             thorough="adds larger grids, layouts and depth 3")
RULE = "two executions (model and transformed model) compared cell by cell after every step"


def A3(v, dims):
    return np.asarray(v, dtype=np.float64).reshape(dims)


def transform_array(a, t):
    if t == "swap":
        return np.swapaxes(a, 0, 1)
    if t in ("mx", "my", "mz"):
        return np.flip(a, axis="mx my mz".split().index(t))
    return a


def transform_model(M, t, arg=None):
    M2 = copy.deepcopy(M)
    dims = tuple(M["dims"])
    if t in ("swap", "mx", "my", "mz"):
        for k, v in M["fields"].items():
            M2["fields"][k] = np.ascontiguousarray(transform_array(A3(v, dims), t)).ravel().tolist()
        if t == "swap":
            M2["dims"] = [dims[1], dims[0], dims[2]]
            M2["cell"] = [M["cell"][1], M["cell"][0], M["cell"][2]]
            M2["fields"]["kx"], M2["fields"]["ky"] = M2["fields"]["ky"], M2["fields"]["kx"]
        for w in M2["wells"]:
            if t == "swap":
                w["i"], w["j"] = w["j"], w["i"]
            else:
                ax = "mx my mz".split().index(t)
                key = "ijk"[ax]
                w[key] = dims[ax] - 1 - w[key]
    elif t == "perm":
        M2["wells"] = [M2["wells"][i] for i in arg]
    elif t == "split":
        out = []
        for w in M2["wells"]:
            if w["control_type"] == "rate" and w.get("bhp_min") is None:
                for n, fr in enumerate(arg):
                    out.append(dict(w, name=f"{w['name']}{n}", control_value=w["control_value"] * fr))
            else:
                out.append(w)
        M2["wells"] = out
    return M2


def layouts(dims, pvt):
    W = mm.well
    cs = mm.cells(dims)
    c0, c1, cm, cx = cs[0], cs[-1], cs[len(cs) // 2], cs[(len(cs) - 1) // 3]
    yield "none", []
    yield "rate", [W("I", "injector", c0, "rate", 2.), W("G", "injector", cx, "rate", 1., injected_phase="gas"), W("P", "producer", c1, "rate", 3.)]
    yield "bhp", [W("P", "producer", c1, "bhp", 18.), W("I", "injector", cx, "bhp", 22.), W("Q", "producer", cm, "rate", 1.)]
    yield "same", [W("P", "producer", cx, "bhp", 18.), W("I", "injector", cx, "rate", 2.), W("G", "injector", cx, "rate", 1.5, injected_phase="gas")]
    yield "two", [W("P", "producer", cx, "bhp", 18.5), W("Q", "producer", cx, "bhp", 18.), W("R", "producer", c1, "bhp", 17.5)]
    if pvt:
        yield "surf", [W("P", "producer", c1, "rate", 2., rate_type="surface", surface_phase="oil"), W("Q", "producer", cx, "rate", 1., rate_type="surface"),
                       W("I", "injector", c0, "rate", 1., rate_type="surface")]
        yield "lim", [W("P", "producer", c1, "rate", 4., limits=dict(wopr=1.0, wlpr=0.5)), W("Q", "producer", cm, "rate", 4., limits=dict(wgpr=30.)),
                      W("I", "injector", c0, "rate", 2.)]
    yield "bmin", [W("P", "producer", c1, "rate", 2., bhp_min=19.0), W("Q", "producer", c0, "rate", 2., bhp_min=12.0), W("I", "injector", cm, "rate", 2.)]
    # co-located wells in a cell with hardly any room left (layout names starting with "full" set the saturations)
    yield "fullw", [W("I", "injector", cx, "rate", 30.), W("P", "producer", cx, "rate", 25.)]
    yield "fullg", [W("G", "injector", cx, "rate", 30., injected_phase="gas"), W("P", "producer", cx, "bhp", 15.)]
    yield "fullwg", [W("I", "injector", cx, "rate", 20.), W("G", "injector", cx, "rate", 15., injected_phase="gas"), W("P", "producer", cx, "rate", 30.)]
    yield "empty", [W("P", "producer", cx, "rate", 30.), W("Q", "producer", cx, "bhp", 15.), W("I", "injector", cx, "rate", 25.)]


ROOM = dict(fullw=(0.74, 0.02), fullg=(0.02, 0.70), fullwg=(0.30, 0.44), empty=(0.02, 0.02))    # above the limits


def cases(tier):
    th = tier == "thorough"
    grids = [(2, 1, 1), (1, 2, 1), (1, 1, 2), (3, 1, 1), (1, 3, 1), (2, 2, 1), (3, 2, 1), (2, 3, 1), (2, 1, 2), (1, 3, 2), (2, 2, 2), (3, 2, 2)]
    if th:
        grids += [(1, 1, 3), (2, 3, 2), (4, 3, 1), (3, 4, 2), (2, 2, 3), (5, 4, 1)]
    for dims in grids:
        for pvt in ("none", "rv"):
            for lname, wells in layouts(dims, pvt != "none"):
                for rp in (mm.RPS if th else ("corey3", "stone")):
                    for cap in (0, 3):
                        for fld in ("h", "h3") if th else ("h",):
                            ts = ["swap"] + [m for m, d in zip(("mx", "my", "mz"), dims) if d > 1]
                            for t in ts if lname not in ROOM else ():
                                yield dict(dims=dims, pvt=pvt, lname=lname, rp=rp, cap=cap, fld=fld, t=t, days=[0.05, 0.5, 4.0] if th else [0.1, 4.0], depth=3 if th else 2)
                            if len(wells) > 1 and cap == 0 and (th or rp == "corey3"):
                                for perm in itertools.permutations(range(len(wells))):
                                    if list(perm) != sorted(perm):
                                        yield dict(dims=dims, pvt=pvt, lname=lname, rp=rp, cap=cap, fld=fld, t="perm", arg=perm, days=[0.05, 1.0], depth=2)
                            if lname == "rate" and cap == 0:
                                for arg in ([0.5, 0.5], [0.25, 0.75], [0.2, 0.3, 0.5], [1.5, -0.5]):
                                    if arg[-1] < 0 :
                                        continue
                                    yield dict(dims=dims, pvt=pvt, lname=lname, rp=rp, cap=cap, fld=fld, t="split", arg=arg, days=[0.05, 0.5], depth=2)
    # long, wide and deep grids
    for dims in [(9, 1, 1), (1, 10, 1), (1, 1, 9), (8, 6, 1), (4, 3, 5)] + ([(12, 9, 1), (6, 7, 4)] if th else []):
        for pvt in ("none", "rv"):
            for lname, wells in layouts(dims, pvt != "none"):
                if lname not in ROOM:
                    for t in ["swap"] + [m for m, d in zip(("mx", "my", "mz"), dims) if d > 1]:
                        yield dict(dims=dims, pvt=pvt, lname=lname, rp="corey3", cap=3, fld="h", t=t, days=[0.1, 1.0], depth=2)
    # more wells than cells' corners: every order of listing is too many, so all rotations and the reversal
    for dims in [(4, 3, 1), (2, 2, 3)]:
        for pvt in ("none", "rv"):
            for arg in [tuple((i + s) % 12 for i in range(12)) for s in range(1, 12)] + [tuple(range(11, -1, -1))]:
                yield dict(dims=dims, pvt=pvt, lname="dozen", rp="corey3", cap=0, fld="h", t="perm", arg=arg, days=[0.05, 1.0], depth=2)


def dozen(dims):
    """Twelve wells of all kinds, some sharing a cell."""
    cs = mm.cells(dims)
    out = []
    for n in range(12):
        cell = cs[(n * 5) % (len(cs) - 2)]
        kind = n % 4
        out.append(mm.well(f"W{n}", "injector" if kind in (0, 1) else "producer", cell, "bhp" if n % 3 == 0 else "rate",
                           (22.0 if kind in (0, 1) else 18.0) if n % 3 == 0 else 0.3 + 0.1 * n, **(dict(injected_phase="gas") if kind == 1 else {})))
    return out


def make(c):
    M = make0(c)
    if c["lname"] in ROOM:
        a, g = ROOM[c["lname"]]
        rp = M["fluid"]["relative_permeability"]
        room = 1 - rp["sw_cr"] - rp["so_r"] - rp["sg_cr"]
        F = M["fields"]
        F["sw"] = [rp["sw_cr"] + room * (a + 0.002 * i) for i in range(len(F["sw"]))]
        F["sg"] = [rp["sg_cr"] + room * (g + 0.003 * ((3 * i) % 5)) for i in range(len(F["sg"]))]
    return M


def make0(c):
    dims = tuple(c["dims"])
    extra = dict(family.CAPS[c["cap"]])
    if c["t"] == "mz":
        extra.update(rho_oil=0.0, rho_water=0.0, rho_gas=0.0)     # no gravity
    return mm.model(dims, rp=c["rp"], fld=c["fld"], pvt=family.PVTS[c["pvt"]], wells=dozen(dims) if c["lname"] == "dozen" else dict(layouts(dims, c["pvt"] != "none"))[c["lname"]],
                    k=(2.0, 20.0), sim=dict(cg_tolerance=1e-8), c_oil=1e-3, c_water=1e-3, c_rock=1e-3, **extra)


def run_case(c, r):
    M = make(c)
    t, arg = c["t"], c.get("arg")
    M2 = transform_model(M, t, arg)
    from ..spec import Spec
    sp = Spec(M)

    def rec(a, b, depth, path, before=0.0):
        if depth == 0 or len(r.viol) > 2:
            return
        for d in c["days"]:
            x, y = copy.deepcopy(a), copy.deepcopy(b)
            st0 = state(x)
            ok1, ok2 = x.run_step(d * 86400.0), y.run_step(d * 86400.0)
            r.transitions += 2
            r.traces += 1
            r.state(*raw_state(x))
            pa = path + (d,)
            if ok1 != ok2:
                r.bad(f"outcome: {t} changes success {ok1} -> {ok2}, path={pa}")
                continue
            if not ok1:
                r.count("failed")
                continue
            s1, s2 = state(x), state(y)
            # upwind decisions that hang on rounding: stop following this branch
            P0, P1 = st0[0], s1[0]
            near = False
            for ax in range(3):
                for P in (P0, P1):
                    dp = np.abs(np.diff(P, axis=ax))
                    if dp.size and (dp < 300.0).any():
                        near = True
            # the split of a throttled well is legitimately different
            fl = sp.well_flows(st0[0], st0[1], st0[2], P1, d * 86400.0)
            if any(f["amb"] for f in fl) or (t == "split" and any(f["choked"] or f["limited"] for f in fl)):
                r.skipped += 1
                continue
            if near:
                r.skipped += 1
                continue
            tr = sp.transport(st0[1], st0[2], P1, fl, d * 86400.0)
            # saturation moved so far along the path: later steps act on states that already differ by rounding
            moved = before + float(np.maximum(np.abs(tr["dSw"]), np.abs(tr["dSg"])).max())
            scale = [max(float(np.ptp(P1)), float(np.abs(P1 - P0).max()), 1e5)] + [1.0] * 3
            # S allowance: flows rounded twice (both runs) plus pressure difference acting through conductances
            for n, u, v, sc in zip(("P", "sw", "sg", "so"), s1, s2, scale):
                w = transform_array(u, t)
                diff = np.abs(w - v)
                if n == "P":
                    # formation-factor differences in float32 make compressibility noisy by ~1e-3 with PVT tables
                    tol = np.full(w.shape, 5e-5 * sc + 30.0 + sp.drift(P0, st0[1], st0[2], d * 86400.0) + (2e-3 * float(np.abs(P1 - P0).max()) if c["pvt"] != "none" else 0.0))
                else:
                    tol = np.full(w.shape, 2e-5 + 8e-4 * min(moved, 1.5))
                if (diff > tol).any():
                    q = np.unravel_index(np.argmax(diff / tol), diff.shape)
                    r.bad(f"{n} under {t}{arg or ''}: cell {tuple(int(z) for z in q)} {float(w[q]):.8g} vs {float(v[q]):.8g} (allowance {float(tol[q]):.2g}), path={pa}")
                    break
            r.count("compared")
            rec(x, y, depth - 1, pa, moved)
    rec(build(M), build(M2), c["depth"], ())


def finish(tier, counters, cases):
    if counters.get("compared", 0) < 3000:
        yield f"vacuous: {counters}"
