"""runcheck.py [--jobs n] [--tier t] [--props all|own] ids... : runs the property's check on a patched copy of /repo; appends to /tmp/catch.log"""
import sys, os, json, subprocess, shutil, tempfile, time
from concurrent.futures import ThreadPoolExecutor
SRC = os.environ.get("VERIF_SRC", "/verif")
SEED = SRC + "/seeded"
a = sys.argv[1:]
def opt(n, d):
    if n in a:
        i = a.index(n); v = a[i + 1]; del a[i:i + 2]; return v
    return d
jobs = int(opt("--jobs", "2")); tier = opt("--tier", "quick"); props = opt("--props", "own")
ids = a or sorted(os.listdir(SEED))
def one(i):
    W = tempfile.mkdtemp(prefix="rc-")
    try:
        R, V = W + "/repo", W + "/verif"
        subprocess.run(f"cp -a /repo {R} && git -C {R} apply {SEED}/{i}/patch.diff && mkdir {V} && cd {SRC} && cp -a mc check.sh MANIFEST.json known-findings.txt properties.jsonl {V}/", shell=True, check=True)
        own = json.load(open(f"{SEED}/{i}/meta.json"))["property"]
        out = []
        for p in ([own] if props == "own" else props.split(",")):
            t = time.time()
            r = subprocess.run(["timeout", "1000", "bash", V + "/check.sh", p, tier], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=R, VERIF_SEED="1", VERIF_TIER=tier))
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + p)]
            out.append(f"{p}:{'CAUGHT' if r.returncode == 1 and v else 'MISSED'} rc={r.returncode} n={len(v)} {time.time()-t:.0f}s")
        line = f"{i:36s} " + "  ".join(out)
        print(line, flush=True)
        open("/tmp/catch.log", "a").write(line + "\n")
    finally:
        shutil.rmtree(W, ignore_errors=True)
with ThreadPoolExecutor(jobs) as ex:
    list(ex.map(one, ids))
