"""C22: exports show the right data in the right place."""
import contextlib, io, itertools, os, re, shutil, struct, sys, tempfile, types
import numpy as np
import torch
from .. import env
from .c21 import colour, png, gif_frames, nearest_colour, workdir, tree
from simulator.reservoir import Reservoir
from simulator.fluid import Fluid
from simulator.simulation import Simulator
from simulator.well import WellManager
from plotting.plotter import Plotter
from output.vtk_writer import save_to_vtk
import utils

CPU = torch.device("cpu")
BOUND = dict(quick="VTK (both writers): all 27 grid shapes up to 3x3x3 and 4 larger ones x 3 cell sizes x fields with a different value in every cell and memory layouts; animations: all sets of step numbers over {1,2,9,10,11,100} x distractor files x name prefixes x frame rates; plots: all layers of all shapes up to 3x3x3 as most variable layer, ties, with and without gas, uniform fields; axes of 33 cells, 128 frames, step numbers to 1234567",
             thorough="shapes up to 4x4x4, step numbers over 8 values, plot layers up to 5")
RULE = "parsed VTK nodes, cell values and ranges; decoded GIF frames; values read back from the figure at every cell coordinate on the labelled axes"
ASSUMPTIONS = ["the vtk package is absent: the in-run VTK export is driven with a recording stand-in for it"]


def cases(tier):
    th = tier == "thorough"
    m = 4 if th else 3
    shapes = list(itertools.product(range(1, m + 1), repeat=3)) + [(5, 2, 3), (1, 7, 2), (10, 1, 1), (2, 3, 6), (33, 1, 1), (1, 33, 1), (1, 1, 33), (12, 11, 13)]
    for s in shapes:
        yield dict(kind="vtr", dims=s)
        yield dict(kind="vts", dims=s)
        yield dict(kind="plot", dims=s)
    nums = (1, 2, 9, 10, 11, 100) + ((20, 1000) if th else ())
    for s in (range(1, 13), range(3, 46), range(100, 228), range(5, 1000, 50), (99998, 99999, 100000, 1234567)):
        yield dict(kind="anim", sets=[tuple(s)])
        yield dict(kind="runanim", sets=[tuple(s)])
    sets = [s for k in range(len(nums) + 1) for s in itertools.combinations(nums, k)]
    for i in range(0, len(sets), 8):
        yield dict(kind="anim", sets=sets[i:i + 8])
        yield dict(kind="runanim", sets=sets[i:i + 8])


def numbered(dims, base, step, layout=0):
    n = int(np.prod(dims))
    a = (base + step * np.arange(n)).reshape(dims)
    t = torch.tensor(a, dtype=torch.float32)
    if layout == 1:                           # transposed memory
        t = t.permute(2, 1, 0).contiguous().permute(2, 1, 0)
    elif layout == 2:                         # part of a larger array
        big = torch.full([2 * d for d in dims], -77.0)
        big[::2, ::2, ::2] = t
        t = big[::2, ::2, ::2]
    return t


def make(dims, cell, layout):
    res = Reservoir(dict(dimensions=list(dims), grid_size=list(cell), porosity=0.2, permeability=100.0, k_vertical_fraction=0.1), CPU)
    f = Fluid({}, res, CPU)
    f.pressure = numbered(dims, 1e7, 12345.0, layout)
    f.s_w = numbered(dims, 0.2, 0.003, layout)
    f.s_g = numbered(dims, 0.1, 0.001, layout)
    f.s_o = 1 - f.s_w - f.s_g
    res.permeability_x = numbered(dims, 1e-14, 1e-16, layout)
    res.permeability_z = numbered(dims, 3e-15, 2e-17, layout)
    return res, f


TYPES = dict(Float64="f8", Float32="f4", Int64="i8", Int32="i4", UInt64="u8", UInt8="u1")


def read_vtr(path):
    raw = open(path, "rb").read()
    i = raw.find(b"<AppendedData")
    head = (raw if i < 0 else raw[:i]).decode()
    data0 = raw.find(b"_", raw.find(b">", i)) + 1 if i >= 0 else None
    end = "<" if 'byte_order="LittleEndian"' in head else ">"
    hsize = 8 if 'header_type="UInt64"' in head else 4
    out = {}
    ext = re.search(r'<Piece[^>]*Extent="([^"]*)"', head).group(1)
    out["extent"] = tuple(int(x) for x in ext.split())
    for sec in ("Coordinates", "CellData", "PointData"):
        m = re.search(rf"<{sec}[^>]*>(.*?)</{sec}>", head, re.S)
        out[sec] = {}
        if not m:
            continue
        for tag in re.findall(r"<DataArray[^>]*>(?:[^<]*)", m.group(1)):
            at = dict(re.findall(r'(\w+)\s*=\s*"([^"]*)"', tag))
            dt = end + TYPES[at["type"]]
            if at.get("format") == "ascii":
                v = np.array(tag.split(">", 1)[1].split(), dtype=float)
            else:
                o = data0 + int(at["offset"])
                n = struct.unpack(end + ("Q" if hsize == 8 else "I"), raw[o:o + hsize])[0]
                v = np.frombuffer(raw[o + hsize:o + hsize + n], dtype=dt)
            out[sec][at["Name"]] = v
    return out


def vtr(c, r):
    dims = tuple(c["dims"])
    for cell in ((10.0, 20.0, 5.0), (1.5, 1.5, 1.5), (100.0, 0.25, 33.3)):
        for layout in (0, 1):
            res, f = make(dims, cell, layout)
            what = f"dims={dims} cell={cell} layout={layout}"
            keep = [x.clone() for x in (f.pressure, f.s_w, f.s_o, res.permeability_x, res.permeability_z)]
            with workdir():
                name = ("a", "out.v1", "имя")[layout]
                save_to_vtk(res, f, name)
                files = list(tree("."))
                if files != [os.path.join("results", name + ".vtr")]:
                    r.bad(f"VTK export wrote {files}: {what}")
                    return
                v = read_vtr(files[0])
            r.transitions += 1
            r.traces += 1
            r.state(dims, cell, layout)
            r.count("vtr")
            if v["extent"] != (0, dims[0], 0, dims[1], 0, dims[2]):
                r.bad(f"VTK extent {v['extent']}: {what}")
                return
            for ax, (co, n, d) in enumerate(zip(v["Coordinates"].values(), dims, cell)):
                want = np.arange(n + 1) * float(np.float32(d))
                if co.shape != want.shape or np.abs(co - want).max() > 1e-6 * want.max():
                    r.bad(f"VTK node coordinates of axis {ax} are {co.tolist()[:5]}: {what}")
                    return
            want = dict(Pressure_MPa=f.pressure / 1e6, Water_Saturation=f.s_w, Oil_Saturation=f.s_o, Permeability_H=res.permeability_x, Permeability_V=res.permeability_z)
            if set(v["CellData"]) != set(want) or v["PointData"]:
                r.bad(f"VTK arrays {sorted(v['CellData'])}: {what}")
                return
            for k, t in want.items():
                w = t.numpy()
                got = v["CellData"][k].astype(np.float64)
                if got.size != w.size:
                    r.bad(f"VTK array {k} has {got.size} values: {what}")
                    return
                got = got.reshape(dims[::-1]).transpose(2, 1, 0)          # x varies fastest in the file
                if np.abs(got - w).max() > 1e-6 * np.abs(w).max():
                    r.bad(f"VTK array {k} has wrong values in place: {what}")
                    return
            if not all(torch.equal(x, y) for x, y in zip(keep, (f.pressure, f.s_w, f.s_o, res.permeability_x, res.permeability_z))):
                r.bad(f"VTK export changed the fields: {what}")


# ---- recording stand-in for the vtk package
class Any_:
    def __init__(self, *a, **k):
        self._rec = {}

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)

        def f(*a):
            self._rec.setdefault(n, []).append(a)
            return None
        return f


class Points(Any_):
    def __init__(self, *a):
        super().__init__()
        self.pts = {}

    def SetNumberOfPoints(self, n):
        pass

    def InsertNextPoint(self, *p):
        self.pts[len(self.pts)] = tuple(p[0]) if len(p) == 1 else tuple(p)
        return len(self.pts) - 1

    def SetPoint(self, i, *p):
        self.pts[i] = tuple(p[0]) if len(p) == 1 else tuple(p)
    InsertPoint = SetPoint

    def SetData(self, arr):
        self.pts = {i: tuple(x) for i, x in enumerate(np.asarray(arr.data).reshape(-1, 3))}


class Data(Any_):
    def __init__(self):
        super().__init__()
        self.arrays = []

    def AddArray(self, a):
        self.arrays.append(a)
        return len(self.arrays) - 1
    SetScalars = AddArray


class Grid(Any_):
    def __init__(self):
        super().__init__()
        self.pd, self.cd, self.dims, self.points = Data(), Data(), None, None

    def SetDimensions(self, *d):
        self.dims = tuple(d[0]) if len(d) == 1 else tuple(d)

    def SetPoints(self, p):
        self.points = p

    def GetPointData(self):
        return self.pd

    def GetCellData(self):
        return self.cd


class Arr(Any_):
    def __init__(self, data):
        super().__init__()
        self.data, self.name = np.array(data, copy=True), None
        self.contig = data.ndim == 1

    def SetName(self, n):
        self.name = n


class Writer(Any_):
    out = []

    def __init__(self):
        super().__init__()
        self.fn = self.grid = None

    def SetFileName(self, f):
        self.fn = f

    def SetInputData(self, g):
        self.grid = g

    def Write(self):
        Writer.out.append((os.path.abspath(self.fn), self.grid))
        return 1


@contextlib.contextmanager
def fake_vtk():
    vtk = types.ModuleType("vtk")
    vtk.vtkStructuredGrid, vtk.vtkPoints, vtk.vtkXMLStructuredGridWriter = Grid, Points, Writer
    mods = types.ModuleType("vtkmodules")
    util = types.ModuleType("vtkmodules.util")
    ns = types.ModuleType("vtkmodules.util.numpy_support")
    ns.numpy_to_vtk = lambda a, *x, **k: Arr(np.asarray(a))
    util.numpy_support, mods.util = ns, util
    names = {"vtk": vtk, "vtkmodules": mods, "vtkmodules.util": util, "vtkmodules.util.numpy_support": ns}
    old = {k: sys.modules.get(k) for k in names}
    sys.modules.update(names)
    Writer.out = []
    try:
        yield Writer
    finally:
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


def vts(c, r):
    dims = tuple(c["dims"])
    for layout in (0, 1, 2):
        res, f = make(dims, (10.0, 20.0, 5.0), layout)
        sim = Simulator(res, f, WellManager([], res), {}, CPU)
        what = f"dims={dims} layout={layout}"
        with workdir() as d, fake_vtk() as w:
            os.makedirs("results/x")
            sim._save_to_vtk("name", "results/x")
            out = list(w.out)
            base = os.path.abspath("results/x")
        r.transitions += 1
        r.traces += 1
        r.count("vts")
        r.state("vts", dims, layout)
        if len(out) != 1 or os.path.dirname(out[0][0]) != base:
            r.bad(f"VTK export of a run wrote {[o[0] for o in out]}: {what}")
            return
        g = out[0][1]
        pts = g.points.pts
        if tuple(g.dims) != dims or len(pts) != int(np.prod(dims)):
            r.bad(f"VTK grid of a run has dimensions {g.dims} and {len(pts)} points: {what}")
            return
        names = {a.name: a for a in g.pd.arrays}
        if not {"Pressure", "Water_Saturation"} <= set(names):
            r.bad(f"VTK arrays of a run {sorted(map(str, names))}: {what}")
            return
        # structured grid: point number i + nx*(j + ny*k) has grid index (i,j,k)
        for p, (x, y, z) in pts.items():
            i, j, k = p % dims[0], p // dims[0] % dims[1], p // (dims[0] * dims[1])
            if not all(isinstance(q, (int, float, np.number)) for q in (x, y, z)):
                r.bad(f"VTK point {p} at {(x, y, z)}: {what}")
                return
            if (round(float(x)), round(float(y)), round(float(z))) != (i, j, k):
                r.bad(f"VTK point {p} at {(x, y, z)} instead of {(i, j, k)}: {what}")
                return
        for nm, t in (("Pressure", f.pressure), ("Water_Saturation", f.s_w)):
            a = names[nm].data.reshape(-1)
            if a.size != t.numel():
                r.bad(f"VTK array {nm} of a run has {a.size} values: {what}")
                return
            for p in pts:
                i, j, k = p % dims[0], p // dims[0] % dims[1], p // (dims[0] * dims[1])
                if abs(a[p] - t[i, j, k].item()) > 1e-6 * abs(t[i, j, k].item()):
                    r.bad(f"VTK array {nm} of a run is wrong at cell {(i, j, k)}: {what}")
                    return


# ---- animations
DISTRACT = (None, ["other.png"], ["final.png", "a_final.png", "a_step_.png", "a_step_x.png"], ["a_step_5.png.bak", "a_step_7.txt", "a_step_3.jpg"], ["step_4.png", "a_step-6.png", "a_step_8_x.png"])


def fill(folder, s, prefix, extra, order, pad=False):
    os.makedirs(folder, exist_ok=True)
    seq = list(s) if order == 0 else list(s)[::-1]
    for k in seq:
        png(os.path.join(folder, f"{prefix}_step_{k:03d}.png" if pad else f"{prefix}_step_{k}.png"), colour(k))
    for e in extra or ():
        p = os.path.join(folder, e)
        if e.endswith(".png"):
            png(p, (255, 255, 255))
        else:
            open(p, "w").write("no picture")


def frames_of(path, s, final):
    fr = gif_frames(path)
    names = list(s) + ([999] if final else [])
    out = []
    for f in fr:
        px = f[f.shape[0] // 2, f.shape[1] // 2]
        if np.abs(px - 255).max() < 8:
            out.append("foreign")
        else:
            out.append(nearest_colour(f, names))
    return out


def anim(c, r):
    from PIL import Image
    for s in c["sets"]:
        s = tuple(s)
        for x, extra in enumerate(DISTRACT):
            for prefix, order, pad in (("a", 0, False), ("b_step_3", 1, False), ("x", 0, True)):
                fps = (1, 2, 5, 10)[(x + len(s)) % 4]
                what = f"steps={s} other files={extra} prefix={prefix} fps={fps} padded={pad}"
                with workdir():
                    fill("im", s, prefix, extra, order, pad)
                    before = tree("im")
                    utils.create_animation("im", "o.gif", fps)
                    r.transitions += 1
                    r.traces += 1
                    r.state("anim", s, x, prefix)
                    if tree("im") != before:
                        r.bad(f"animation changed the picture folder: {what}")
                    if not s:
                        if os.path.exists("o.gif"):
                            r.bad(f"animation written without pictures: {what}")
                        continue
                    if not os.path.exists("o.gif"):
                        r.bad(f"no animation written: {what}")
                        return
                    fr = frames_of("o.gif", s, False)
                    r.count("anim")
                    if fr != sorted(s):
                        r.bad(f"animation frames {fr} instead of {sorted(s)}: {what}")
                        return
                    if len(s) > 1:
                        dur = Image.open("o.gif").info.get("duration")
                        if dur is None or abs(dur - 1000 / fps) > 10:
                            r.bad(f"animation shows a frame for {dur} ms: {what}")
        # pictures of different width
        if len(s) > 1:
            with workdir():
                os.makedirs("im")
                for q, k in enumerate(s):
                    png(os.path.join("im", f"a_step_{k}.png"), colour(k), (8, 6 if q < len(s) - 1 else 12))
                utils.create_animation("im", "o.gif", 5)
                fr = gif_frames("o.gif")
                r.count("mixed")
                if len(fr) != len(s) or fr[-1].shape[1] < 12 or np.abs(fr[-1][:, :12][4, 9] - np.array(colour(s[-1]))).max() > 40:
                    r.bad(f"animation crops or loses a wider picture: steps={s}")


def runanim(c, r):
    res = Reservoir(dict(dimensions=[2, 1, 1]), CPU)
    sim = Simulator(res, Fluid({}, res, CPU), WellManager([], res), {}, CPU)
    for s in c["sets"]:
        s = tuple(s)
        for x, extra in enumerate((None, ["notes.txt", "a_step_x.png", "cover.png"])):
            for final in (False, True):
                for prefix in ("a", "b_step_3"):
                    what = f"in a run: steps={s} other files={extra} final={final} prefix={prefix}"
                    if not s and not final:
                        continue
                    with workdir():
                        fill("r/intermediate", s, prefix, extra, x)
                        if final:
                            png(f"r/{prefix}_final.png", colour(999))
                        fps = (5, 1, 10, 2)[(x + len(s) + final) % 4]
                        sim._create_animation("r/intermediate", "r/o.gif", fps=fps)
                        fr = frames_of("r/o.gif", s, final)
                        r.transitions += 1
                        r.traces += 1
                        r.count("runanim")
                        r.state("runanim", s, x, final, prefix)
                        want = sorted(s) + ([999] if final else [])
                        if fr != want:
                            r.bad(f"animation frames {fr} instead of {want}: {what}")
                            return
                        if len(want) > 1:
                            from PIL import Image
                            dur = Image.open("r/o.gif").info.get("duration")
                            if dur is None or abs(dur - 1000 / fps) > 10:
                                r.bad(f"animation shows a frame for {dur} ms at {fps} frames per second: {what}")
                                return
        if len(s) > 1:
            with workdir():
                os.makedirs("r/intermediate")
                for q, k in enumerate(s):
                    png(f"r/intermediate/a_step_{k}.png", colour(k), (8, 6 if q < len(s) - 1 else 12))
                sim._create_animation("r/intermediate", "r/o.gif", fps=5)
                fr = gif_frames("r/o.gif")
                if len(fr) != len(s) or fr[-1].shape[1] < 12 or np.abs(fr[-1][4, 9] - np.array(colour(s[-1]))).max() > 40:
                    r.bad(f"animation of a run crops or loses a wider picture: steps={s}")


# ---- plots
class FakePlots:
    """Collects the figures that are saved."""
    def __enter__(self):
        import matplotlib
        matplotlib.use("Agg")
        from matplotlib.figure import Figure
        self.cls, self.old, self.figs = Figure, Figure.savefig, []
        me = self

        def savefig(fig, fname, *a, **k):
            me.figs.append((str(fname), snapshot(fig)))
        Figure.savefig = savefig
        return self

    def __exit__(self, *a):
        self.cls.savefig = self.old


def snapshot(fig):
    """Panels with title, axis labels and a map from axis coordinates to the shown value."""
    fig.canvas.draw() if False else None
    out = []
    for ax in fig.axes:
        if not ax.images:
            continue
        im = ax.images[0]
        a = np.ma.filled(np.ma.array(im.get_array(), dtype=float), np.nan)
        x0, x1, y0, y1 = im.get_extent()
        vals = {}
        for row in range(a.shape[0]):
            for col in range(a.shape[1]):
                x = x0 + (col + 0.5) * (x1 - x0) / a.shape[1]
                # the first row is drawn at y1 for origin 'upper', whose extent is given bottom first
                y = (y0 + (row + 0.5) * (y1 - y0) / a.shape[0]) if im.origin == "lower" else (y1 + (row + 0.5) * (y0 - y1) / a.shape[0])
                vals[(round(x, 6), round(y, 6))] = a[row, col]
        out.append(dict(title=ax.get_title(), xl=ax.get_xlabel(), yl=ax.get_ylabel(), vals=vals, lim=im.get_clim(), xinv=ax.get_xlim()[0] > ax.get_xlim()[1], yinv=ax.get_ylim()[0] > ax.get_ylim()[1], bar=im.colorbar is not None))
    return out


def panel(p, field, what, r, label):
    """Value shown at the coordinates of cell (i,j) is the field value there."""
    nx, ny = field.shape
    xy = "X" in p["xl"].upper() and "Y" in p["yl"].upper()
    yx = "Y" in p["xl"].upper() and "X" in p["yl"].upper()
    if not (xy or yx):
        r.bad(f"plot axes are labelled {p['xl']!r}, {p['yl']!r}: {what}")
        return
    if len(p["vals"]) != nx * ny:
        r.bad(f"plot of {label} shows {len(p['vals'])} cells of {nx * ny}: {what}")
        return
    for i in range(nx):
        for j in range(ny):
            at = (float(i), float(j)) if xy else (float(j), float(i))
            v = p["vals"].get(at)
            if v is None or abs(v - field[i, j]) > 1e-6 * abs(field[i, j]) + 1e-12:
                r.bad(f"plot of {label} shows {v} instead of {field[i, j]} at cell {(i, j)}: {what}")
                return
    lo, hi = p["lim"]
    if lo is None or lo > field.min() + 1e-6 * abs(field.min()) or hi < field.max() - 1e-6 * abs(field.max()):
        r.bad(f"colour range {p['lim']} of {label} clips values {field.min()}..{field.max()}: {what}")


def plot(c, r):
    dims = tuple(c["dims"])
    res = Reservoir(dict(dimensions=list(dims)), CPU)
    pl = Plotter(res)
    n = int(np.prod(dims))
    base = np.arange(n, dtype=np.float32).reshape(dims)
    for target in range(dims[2]):
        for gas in (None, "zero", "tiny", "one", "all"):
            for uni in (False, True):
                if gas in ("tiny", "all") and uni:
                    continue
                P = (2e7 + 1234.0 * base).astype(np.float32)
                S = np.full(dims, 0.4, np.float32)
                if not uni:
                    amp = np.full(dims[2], 0.05)
                    amp[target] = 0.2
                    w = np.linspace(-1, 1, dims[0] * dims[1]).reshape(dims[0], dims[1]) if dims[0] * dims[1] > 1 else np.zeros((1, 1))
                    for k in range(dims[2]):
                        S[:, :, k] = 0.4 + amp[k] * w + 0.01 * k
                G = None
                if gas is not None:
                    G = np.zeros(dims, np.float32)
                    if gas == "tiny":
                        G[:] = 5e-7
                    elif gas == "one":
                        G[-1, -1, -1] = 0.2           # possibly in another layer than the one shown
                    elif gas == "all":
                        G = (0.1 + 0.001 * base).astype(np.float32)
                what = f"dims={dims} most variable layer={target} gas={gas} uniform={uni}"
                keep = [P.copy(), S.copy()]
                with FakePlots() as fp:
                    pl.save_plots(P, S, "f.png", time_info="День 7" if target % 2 else None, gas_saturation=G)
                import matplotlib.pyplot as plt
                open_figs = len(plt.get_fignums())
                plt.close("all")
                r.transitions += 1
                r.traces += 1
                r.count("plots")
                r.state("plot", dims, target, str(gas), uni)
                if open_figs:
                    r.bad(f"figure left open: {what}")
                if len(fp.figs) != 1 or fp.figs[0][0] != "f.png":
                    r.bad(f"figures saved {[f[0] for f in fp.figs]}: {what}")
                    return
                panels = fp.figs[0][1]
                std = [float(np.std(S[:, :, k])) for k in range(dims[2])]
                k = int(np.argmax(std))
                has_gas = G is not None and bool((G > 1e-6).any())
                want = [("давление", P[:, :, k] / np.float32(1e6)), ("вод", S[:, :, k])] + ([("газ", G[:, :, k])] if has_gas else [])
                if len(panels) != len(want):
                    r.bad(f"{len(panels)} panels instead of {len(want)}: {what}")
                    return
                for p, (lab, f) in zip(panels, want):
                    if lab not in p["title"].lower() or f"Z={k}" not in p["title"] or (target % 2 and "День 7" not in p["title"]):
                        r.bad(f"panel title {p['title']!r} for layer {k}: {what}")
                        return
                    if p["xinv"] or p["yinv"]:
                        r.bad(f"plot axis runs backwards: {what}")
                    panel(p, f, what, r, lab)
                    if r.viol:
                        return
                if not np.array_equal(keep[0], P) or not np.array_equal(keep[1], S):
                    r.bad(f"plotting changed the fields: {what}")


def run_case(c, r):
    globals()[c["kind"]](c, r)


def finish(tier, counters, cases):
    need = dict(vtr=180, vts=80, anim=800, runanim=400, plots=500, mixed=40)
    low = {k: counters.get(k, 0) for k, v in need.items() if counters.get(k, 0) < v}
    if low:
        yield f"vacuous: {low}"
