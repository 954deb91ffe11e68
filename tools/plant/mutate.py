"""mutate.py --n N [--seed s] [--files a,b] [--workers w]: random small edits of /repo/src, screened with every 9th case of the
checks that execute the edited line; survivors that pass the tests go through the full quick checks. Log: /tmp/mut/log.jsonl"""
import ast, collections, json, os, random, shutil, subprocess, sys, argparse, time
from concurrent.futures import ThreadPoolExecutor
PY = "/opt/venv/bin/python"
ap = argparse.ArgumentParser()
ap.add_argument("--n", type=int, default=50)
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--files", default="")
ap.add_argument("--funcs", default="")
ap.add_argument("--workers", type=int, default=2)
ap.add_argument("--jobs", type=int, default=4)
ap.add_argument("--stride", type=int, default=9)
ap.add_argument("--top", type=int, default=9)        # screening checks per mutant
ap.add_argument("--full", type=int, default=4)       # full checks per survivor of the screening
a = ap.parse_args()
SKIPF = {"_fully_implicit_newton_step", "_compute_residual_fast", "_add_wells_to_residual_fast", "_assemble_residual_and_jacobian_batch", "_add_wells_to_system",
         "rap_onepoint_gpu", "solve_energy_weights", "orthonormalize_columns", "generate_nullspace", "_generate_nullspace", "_orthonormalize_columns",
         "_analyze_prolongation", "_dbg", "_move_data_to_device", "__str__", "render", "_smooth_vector", "_solve_least_squares", "initialize_device", "_assess_quality"}
cov = collections.defaultdict(set)
for l in open("/tmp/mut/cov.jsonl"):
    p, new = json.loads(l)
    for f, n in new:
        cov[f, n].add(p)
EXTRA = {"src/plotting/plotter.py": ["C22", "C21"], "src/main.py": ["C21", "C13"], "src/output/vtk_writer.py": ["C22"], "src/utils.py": ["C22", "C21"], "src/rl_env.py": ["C23"]}
ORDER = {"simulation.py": "C02 C04 C03 C12 C09 C08 C07 C01 C10 C06 C05 C13 C11 C21 C22 C24 C23 C18 C19 C16 C15 C14 C17 C20".split(),
         "fluid.py": "C14 C15 C16 C13 C17 C02 C03 C04 C12 C10 C11 C24 C23".split(), "well.py": "C08 C13 C09 C07 C02 C04 C11 C23".split(),
         "classical_amg.py": "C20 C18 C19 C04 C11 C10".split(), "pressure_amg.py": "C18 C19 C04 C11 C10".split(), "reservoir.py": "C13 C02 C04 C16".split(),
         "pvt.py": "C16 C17 C13 C02".split(), "pvt_generator.py": ["C17"], "rl_env.py": ["C23"], "plotter.py": ["C22", "C21"], "main.py": ["C21"], "vtk_writer.py": ["C22"], "utils.py": ["C22", "C21"]}
files = [f for f in subprocess.check_output(["git", "-C", "/repo", "ls-files", "src"], text=True).split() if f.endswith(".py") and f.split("/")[-1] in ORDER]
if a.files:
    files = [f for f in files if any(x in f for x in a.files.split(","))]
base = {f: set(subprocess.run(["git", "-C", "/repo", "show", "c4d65e2:" + f], capture_output=True, text=True).stdout.split("\n")) for f in files}


def suff_swap(name):
    for s in ("w_", "o_", "g_"):
        pass
    parts = name.split("_")
    for grp in (["w", "o", "g"], ["x", "y", "z"], ["sw", "sg", "so"], ["old", "new"], ["prev", "new"], ["dx", "dy", "dz"], ["nx", "ny", "nz"], ["left", "right"], ["min", "max"], ["up", "dn"]):
        for i, p in enumerate(parts):
            if p in grp:
                for q in grp:
                    if q != p:
                        yield "_".join(parts[:i] + [q] + parts[i + 1:])
    if len(name) >= 2 and name[-1] in "wog" and name[:-1] in ("kr", "mu", "rho", "B", "mob", "lambda", "f", "c"):
        for q in "wog":
            if q != name[-1]:
                yield name[:-1] + q


def mutants(f):
    src = open("/repo/" + f).read()
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    bl = [l.encode() for l in lines]
    for l in bl:
        off.append(off[-1] + len(l) + 1)
    raw = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    out = []

    def walk(node, fn, names, infn):
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, ast.FunctionDef):
                if ch.name in SKIPF or (a.funcs and ch.name not in a.funcs.split(",")):
                    continue
                walk(ch, ch.name, {x.id for x in ast.walk(ch) if isinstance(x, ast.Name)}, True)
                continue
            if isinstance(ch, (ast.JoinedStr,)):
                continue
            if isinstance(ch, ast.Expr) and (isinstance(ch.value, ast.Constant) or (isinstance(ch.value, ast.Call) and getattr(ch.value.func, "id", getattr(ch.value.func, "attr", "")) in ("print", "_dbg"))):
                continue
            if isinstance(ch, (ast.Raise, ast.Import, ast.ImportFrom, ast.Assert)):
                continue
            if infn:
                gen(ch, fn, names)
            walk(ch, fn, names, infn)

    def add(s, e, txt, what, fn, line):
        out.append((f, fn, line, s, e, txt, what))

    def gen(n, fn, names):
        seg = lambda x: raw[slice(*pos(x))].decode()
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            m = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}.get(type(n.ops[0]), [])
            for o in m:
                s, e = pos(n)
                add(s, e, f"{seg(n.left)} {o} {seg(n.comparators[0])}", f"cmp {o}", fn, n.lineno)
        elif isinstance(n, ast.BinOp):
            m = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.FloorDiv: "%", ast.Mod: "//"}.get(type(n.op))
            if m and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                s, e = pos(n)
                l, r = seg(n.left), seg(n.right)
                lp = "(" + l + ")" if raw[s:s + 1] == b"(" or isinstance(n.left, ast.BinOp) else l
                rp = "(" + r + ")" if isinstance(n.right, ast.BinOp) else r
                add(s, e, f"({lp} {m} {rp})", f"op {m}", fn, n.lineno)
                if isinstance(n.op, (ast.Add, ast.Sub)):
                    add(s, e, f"({lp})", "drop right", fn, n.lineno)
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            v = n.value
            if isinstance(v, float) and 0 < abs(v) < 1e-7:
                return
            s, e = pos(n)
            c = [v + 1] if isinstance(v, int) else [v * 1.5 if v else 0.5]
            if isinstance(v, int) and v > 0:
                c.append(v - 1)
            for x in c:
                add(s, e, repr(x), f"const {v}->{x}", fn, n.lineno)
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(*pos(n), repr(not n.value), "bool", fn, n.lineno)
        elif isinstance(n, ast.BoolOp):
            s, e = pos(n)
            o = " or " if isinstance(n.op, ast.And) else " and "
            add(s, e, "(" + o.join("(" + seg(v) + ")" for v in n.values) + ")", "boolop", fn, n.lineno)
            add(s, e, "(" + seg(n.values[0]) + ")", "bool first", fn, n.lineno)
            add(s, e, "(" + seg(n.values[-1]) + ")", "bool last", fn, n.lineno)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
            add(*pos(n), "(" + seg(n.operand) + ")", "drop unary", fn, n.lineno)
        elif isinstance(n, ast.Call):
            fnm = getattr(n.func, "id", getattr(n.func, "attr", ""))
            sw = dict(min="max", max="min", minimum="maximum", maximum="minimum", zeros="ones", ones="zeros", zeros_like="ones_like", ones_like="zeros_like", floor="ceil", any="all", all="any", tril="triu").get(fnm)
            if sw:
                s, e = pos(n.func)
                add(s, e, seg(n.func)[: -len(fnm)] + sw, f"call {sw}", fn, n.lineno)
            if fnm in ("abs", "clone", "float", "clamp", "copy", "deepcopy", "coalesce", "sqrt", "contiguous", "lower"):
                if isinstance(n.func, ast.Attribute) and not (isinstance(n.func.value, ast.Name) and n.func.value.id in ("torch", "np", "math", "copy")):
                    add(*pos(n), seg(n.func.value), f"drop .{fnm}", fn, n.lineno)
                elif n.args:
                    add(*pos(n), "(" + seg(n.args[0]) + ")", f"drop {fnm}()", fn, n.lineno)
        elif isinstance(n, ast.If):
            add(*pos(n.test), "False", "if False", fn, n.lineno)
            if not n.orelse:
                add(*pos(n.test), "True", "if True", fn, n.lineno)
        elif isinstance(n, ast.IfExp):
            add(*pos(n), "(" + seg(n.body) + ")", "ifexp body", fn, n.lineno)
            add(*pos(n), "(" + seg(n.orelse) + ")", "ifexp else", fn, n.lineno)
        elif isinstance(n, (ast.AugAssign,)) or (isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript))) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)) or isinstance(n, (ast.Break, ast.Continue)):
            add(*pos(n), "pass", "drop stmt", fn, n.lineno)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            for q in suff_swap(n.id):
                if q in names:
                    add(*pos(n), q, f"name {n.id}->{q}", fn, n.lineno)
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            for q in suff_swap(n.attr):
                if ("." + q) in src:
                    add(*pos(n), seg(n.value) + "." + q, f"attr {n.attr}->{q}", fn, n.lineno)
    walk(tree, "", set(), False)
    return [m for m in out if raw[m[3]:m[4]].decode() != m[5]]


allm = [m for f in files for m in mutants(f)]
print(len(allm), "mutants", collections.Counter(m[0] for m in allm), flush=True)
done = set()
if os.path.exists("/tmp/mut/log.jsonl"):
    for l in open("/tmp/mut/log.jsonl"):
        d = json.loads(l)
        done.add((d["file"], d["line"], d["old"], d["new"], d["pos"]))
rnd = random.Random(a.seed)
rnd.shuffle(allm)
# spread over functions: at most a share per function
per = collections.Counter()
pick = []
for m in allm:
    k = (m[0], m[1])
    if per[k] >= max(6, a.n // 6):
        continue
    raw = open("/repo/" + m[0], "rb").read()
    if (m[0], m[2], raw[m[3]:m[4]].decode(), m[5], m[3]) in done:
        continue
    per[k] += 1
    pick.append(m)
    if len(pick) >= a.n:
        break
import queue
slots = queue.Queue()
for w in range(a.workers):
    slots.put(w)


def check(V, R, p, extra):
    r = subprocess.run(["timeout", "600", "bash", V + "/check.sh", p, "quick", "--jobs", str(a.jobs), *extra], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=R, VERIF_SEED="1", VERIF_TIER="quick"))
    if r.returncode == 0:
        return None
    return [l for l in (r.stdout + r.stderr).splitlines() if "violated" in l or "Error" in l][:1] or [f"rc={r.returncode}"]


def one(m):
    w = slots.get()
    t0 = time.time()
    try:
        f, fn, line, s, e, txt, what = m
        W = f"/tmp/mut/w{os.getpid()}-{w}"
        R, V = W + "/repo", W + "/verif"
        shutil.rmtree(W, ignore_errors=True)
        os.makedirs(V)
        subprocess.run(f"mkdir -p {R} && cp -a /repo/src /repo/tests /repo/configs /repo/pyproject.toml {R}/ 2>/dev/null; cp -a /verif/mc /verif/check.sh /verif/MANIFEST.json /verif/known-findings.txt /verif/properties.jsonl {V}/", shell=True)
        raw = open(R + "/" + f, "rb").read()
        old = raw[s:e].decode()
        open(R + "/" + f, "wb").write(raw[:s] + txt.encode() + raw[e:])
        rec = dict(file=f, func=fn, line=line, old=old, new=txt, what=what, pos=s, src=open("/repo/" + f).read().split("\n")[line - 1].strip())
        rec["original"] = open("/repo/" + f).read().split("\n")[line - 1] in base[f]
        props = sorted({p for n in range(line, line + old.count("\n") + 1) for p in cov.get((f, n), ())} | set(EXTRA.get(f, [])))
        order = ORDER[f.split("/")[-1]]
        if not props:
            props = list(order)
        props.sort(key=lambda p: order.index(p) if p in order else 99)
        rec["status"] = "SURVIVED"
        t = None
        for p in props[:a.top]:
            k = check(V, R, p, ["--stride", str(a.stride)])
            if k:
                rec.update(status="killed", by=p, msg=k[0][:200])
                break
        if rec["status"] == "SURVIVED":
            t = subprocess.run(["timeout", "300", PY, "-m", "pytest", "-q", "-x", "tests", "-p", "no:cacheprovider"], cwd=R, capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=R + "/src", OMP_NUM_THREADS="2"))
            if t.returncode != 0:
                rec["status"] = "tests"
            else:
                for p in props[:a.full]:
                    k = check(V, R, p, [])
                    if k:
                        rec.update(status="killed-full", by=p, msg=k[0][:200])
                        break
        rec["t"] = round(time.time() - t0)
        with open("/tmp/mut/log.jsonl", "a") as o:
            o.write(json.dumps(rec, ensure_ascii=False) + "\n")
        if rec["status"] == "SURVIVED":
            print("SURVIVED", f, fn, line, what, "|", rec["src"][:120], "|", old[:60].replace("\n", " "), "->", txt[:60].replace("\n", " "), f"{rec['t']}s", flush=True)
    except Exception as ex:
        print("error", ex, m, flush=True)
    finally:
        shutil.rmtree(W, ignore_errors=True)
        slots.put(w)


with ThreadPoolExecutor(a.workers) as ex:
    list(ex.map(one, pick))
