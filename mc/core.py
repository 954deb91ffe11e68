"""Common driver: enumerate cases, explore each of them in worker processes, gather violations,
write evidence and replay files."""
from . import env
import argparse, hashlib, importlib, json, os, signal, sys, time, traceback
import multiprocessing as mp
import multiprocessing.connection

CASE_CPU = dict(quick=150, thorough=600)        # CPU seconds of the worker on one case
CASE_WALL = dict(quick=600, thorough=3600)      # wall-clock back-stop (children of a case)
STOP_AFTER = 20                                 # violating cases after which the exploration is cut short
TIER = "quick"


class Result:
    """What exploring one case covered and found."""
    def __init__(self):
        self.hashes = set()      # distinct states (digests)
        self.transitions = 0     # operations executed on the implementation
        self.traces = 0          # implementation traces compared with the model / oracle
        self.viol = []           # (signature, message)
        self.known = []          # (finding id, message)
        self.skipped = 0         # comparisons left out (ambiguous upwind ties and the like)
        self.counters = {}
        self.sample = None

    def state(self, *arrs):
        h = hashlib.blake2b(digest_size=8)
        for a in arrs:
            h.update(a if isinstance(a, (bytes, bytearray)) else repr(a).encode() if isinstance(a, (str, int, float, tuple, list, dict, bool, type(None))) else a.tobytes())
        d = h.digest()
        new = d not in self.hashes
        self.hashes.add(d)
        return new

    def bad(self, msg, sig=None):
        if len(self.viol) < 5:
            self.viol.append((sig or msg.split(":")[0], msg))
        else:
            self.counters["more_violations"] = self.counters.get("more_violations", 0) + 1

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n


class CaseTimeout(Exception):
    pass


def _alarm(sig, *_):
    raise CaseTimeout("case did not finish within " + (f"{CASE_CPU[TIER]} s of CPU time" if sig == signal.SIGPROF else f"{CASE_WALL[TIER]} s"))


_MOD = None


def _init(modname, seed):
    global _MOD
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    sys.stderr = devnull
    import warnings
    warnings.filterwarnings("ignore")
    import torch
    torch.set_num_threads(1)
    _MOD = importlib.import_module(modname)


def seed_all(seed):
    import random, numpy, torch
    random.seed(seed)
    numpy.random.seed(seed % (2 ** 32))
    torch.manual_seed(seed)


def _one(args):
    idx, case, seed = args
    seed_all(seed + idx)
    r = Result()
    cpu0 = time.process_time()
    os.chdir(env.SCRATCH)
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.alarm(CASE_WALL[TIER])
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU[TIER])
    try:
        _MOD.run_case(case, r)
    except CaseTimeout as e:
        r.bad(f"timeout: {e}")
    except AssertionError as e:
        r.bad(f"harness assertion: {e} {traceback.format_exc()[-600:]}")
    except Exception as e:
        r.bad(f"exception: {type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}")
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)
    if idx % 97 == 0 and r.sample is None:
        r.sample = case
    r.counters["slowest_case_cpu_s"] = time.process_time() - cpu0
    return idx, r.hashes, r.transitions, r.traces, r.viol, r.known, r.skipped, r.counters, r.sample


def _worker(conn, modname, seed):
    try:
        _init(modname, seed)
        while True:
            chunk = conn.recv()
            if chunk is None:
                break
            for w in chunk:
                conn.send(_one(w))
    except (EOFError, BrokenPipeError, KeyboardInterrupt):
        pass
    finally:
        os._exit(0)


def _cpu(pid):
    """CPU seconds used so far by one of our own workers."""
    try:
        f = open(f"/proc/{pid}/stat").read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 0.0


def explore(work, nj, chunk, modname, seed, fresh):
    """Yields the result of every case.  Unlike multiprocessing.Pool it survives a worker that dies (a crash of the
    code under test inside native code) or never returns from native code: such a case is tried once more in a
    process of its own and then reported as violating."""
    ctx = mp.get_context("fork")
    todo = [work[i:i + chunk] for i in range(0, len(work), chunk)][::-1]
    workers = []                         # [process, connection, cases not answered yet, cpu at last answer, time]
    failed = set()

    def start():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(b, modname, seed), daemon=False)
        p.start()
        b.close()
        workers.append([p, a, [], 0.0, time.time()])

    def give(w):
        w[2] = todo.pop()
        w[3], w[4] = _cpu(w[0].pid), time.time()
        w[1].send(w[2])
        w[2] = list(w[2])

    def drop(w):
        workers.remove(w)
        w[1].close()
        if w[0].is_alive():
            w[0].kill()
        w[0].join()

    def lost(w, why):
        """The worker is gone with cases unanswered: the first of them is the one that ended it."""
        rest = w[2]
        out = None
        if rest:
            first = rest.pop(0)
            if first[0] in failed:
                out = first[0], set(), 0, 0, [(why.split(":")[0], why)], [], 0, {}, None
            else:
                failed.add(first[0])
                todo.insert(0, [first])
            if rest:
                todo.append(rest)
        drop(w)
        return out

    try:
        while todo or any(w[2] for w in workers):
            while todo and len(workers) < nj:
                start()
                give(workers[-1])
            mp.connection.wait([w[1] for w in workers] + [w[0].sentinel for w in workers], timeout=2)
            for w in list(workers):
                ended = not w[0].is_alive()
                if w[1].poll():
                    try:
                        res = w[1].recv()
                    except (EOFError, OSError):
                        res, ended = None, True
                    if res is not None:
                        w[2] = [c for c in w[2] if c[0] != res[0]]
                        w[3], w[4] = _cpu(w[0].pid), time.time()
                        yield res
                        if not w[2]:
                            if fresh or not todo:
                                drop(w)
                            else:
                                give(w)
                        continue
                if ended:
                    w[0].join(30)
                    r = lost(w, f"crash: the interpreter died with exit code {w[0].exitcode} (a negative number is a signal)")
                    if r:
                        yield r
                elif w[2] and (_cpu(w[0].pid) - w[3] > 1.3 * CASE_CPU[TIER] or time.time() - w[4] > CASE_WALL[TIER] + 60):
                    failed.add(w[2][0][0])
                    r = lost(w, "timeout: case never returned from native code")
                    if r:
                        yield r
    finally:
        for w in list(workers):
            drop(w)


def load_known():
    path = os.path.join(env.VERIF, "known-findings.txt")
    out = {}
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("KNOWN-FINDING:"):
                # KNOWN-FINDING: property=<id> key=<key> <what fails>
                parts = line.split(None, 3)
                prop = parts[1].split("=", 1)[1]
                key = parts[2].split("=", 1)[1]
                out[(prop, key)] = parts[3] if len(parts) > 3 else ""
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--limit", type=int)
    ap.add_argument("--stride", type=int, help="explore every n-th case only (screening; not used by the registered commands)")
    a = ap.parse_args(argv)
    prop, tier = a.prop, a.tier if a.tier in ("quick", "thorough") else "quick"
    global TIER
    TIER = tier
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    modname = f"mc.checks.{prop.lower()}"
    rep_dir = os.path.join(env.VERIF, "replays")
    os.makedirs(rep_dir, exist_ok=True)
    out = sys.stdout
    for f in os.listdir(rep_dir):
        if not a.replay and f.startswith(prop + "-"):
            os.unlink(os.path.join(rep_dir, f))

    if a.replay:
        a.replay = os.path.join(env.ORIG_CWD, a.replay)
        rec = json.load(open(a.replay))
        cases = [rec["case"]]
        import_error = None
        so, se = sys.stdout, sys.stderr
        _init(modname, seed)
        res = _one((rec.get("index", 0), cases[0], seed))
        sys.stdout, sys.stderr = so, se
        for s, m in res[4]:
            print("violated:", m)
        for k, m in res[5]:
            print("known:", k, m)
        if res[4]:
            print(f"VIOLATION property={prop} replay={a.replay}")
            return 1
        print("replay: property held")
        return 0

    import_error = None
    try:
        so, se = sys.stdout, sys.stderr
        sys.stdout = open(os.devnull, "w")
        import torch
        torch.set_num_threads(1)
        mod = importlib.import_module(modname)
    except Exception:
        import_error = traceback.format_exc()
    finally:
        sys.stdout, sys.stderr = so, se
    if import_error:
        p = os.path.join(rep_dir, f"{prop}-import.json")
        json.dump(dict(property=prop, case=None, error=import_error), open(p, "w"))
        print(import_error)
        print(f"VIOLATION property={prop} replay={p}")
        return 1

    cases = list(mod.cases(tier))
    if a.limit:
        cases = cases[:a.limit]
    if a.stride:
        cases = cases[::a.stride]
    partial = bool(a.limit or a.stride)
    stopped = False
    known = load_known()
    hashes = set()
    tr = traces = skipped = 0
    counters, samples, viols, known_hits = {}, [], [], {}
    slowest = 0.0
    work = [(i, c, seed) for i, c in enumerate(cases)]
    nj = max(1, min(a.jobs, len(work)))
    chunk = max(1, min(64, len(work) // (nj * 16) or 1))
    fresh = getattr(mod, "FRESH", False)
    if fresh:
        chunk = 1
    found = explore(work, nj, chunk, modname, seed, fresh)
    try:
        for idx, hs, t, n, v, kn, sk, cn, smp in found:
            hashes |= hs
            tr += t
            traces += n
            skipped += sk
            slowest = max(slowest, cn.pop("slowest_case_cpu_s", 0))
            for k, x in cn.items():
                counters[k] = counters.get(k, 0) + x
            if smp is not None and len(samples) < 3:
                samples.append(smp)
            for key, msg in kn:
                if (prop, key) in known:
                    known_hits.setdefault(key, msg)
                else:
                    v = list(v) + [(key, msg)]
            for s, m in v:
                viols.append((idx, s, m))
            if len({i for i, _, _ in viols}) + 5 * sum(m.startswith("timeout") for _, _, m in viols) >= STOP_AFTER:
                stopped = True
                break
    finally:
        found.close()
    # whole-run checks of the module: vacuity guards and cross-case comparisons
    if hasattr(mod, "finish") and not partial and not stopped:
        for msg in mod.finish(tier, counters, cases) or []:
            viols.append((-1, "finish", msg))
    viols.sort()
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=len(hashes), transitions=tr, traces_validated_against_impl=traces,
                            cases=len(cases), slowest_case_cpu_s=round(slowest, 1), comparisons_skipped=skipped, counters=counters,
                            exhaustive=not partial and not stopped, bound=getattr(mod, "BOUND", {}).get(tier, ""),
                            rule=getattr(mod, "RULE", ""),
                            samples=samples or [cases[0]] if cases else []),
              assumptions=getattr(mod, "ASSUMPTIONS", []) + COMMON_ASSUMPTIONS,
              wall_s=round(wall, 2), violations=len(viols))
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(env.VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
    for key in sorted(known_hits):
        print(f"KNOWN-FINDING: property={prop} {key}: {known[(prop, key)]}")
    print(f"{prop} [{tier}] cases={len(cases)} states={len(hashes)} transitions={tr} traces={traces} "
          f"skipped={skipped} counters={counters} violations={len(viols)} {wall:.1f}s")
    if viols:
        shown = set()
        n = 0
        for idx, s, m in viols:
            if s in shown or n >= 5:
                continue
            shown.add(s)
            p = os.path.join(rep_dir, f"{prop}-{n}.json")
            with open(p, "w") as f:
                json.dump(dict(property=prop, index=idx, tier=tier, seed=seed,
                               case=cases[idx] if idx >= 0 else None, violation=m), f, indent=1, default=str)
            print("  violated:", m[:1500])
            print(f"VIOLATION property={prop} replay={p}")
            n += 1
        return 1
    return 0


COMMON_ASSUMPTIONS = [
    "CPU execution (no GPU in the sandbox); torch/numpy arithmetic is trusted",
    "float32 rounding allowances as stated in mc/spec.py",
]
