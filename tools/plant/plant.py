"""Builds /verif/seeded/<id>/ from bug descriptions and tries them.
usage: plant.py FILE [--only id,id] [--check] [--jobs n]
FILE defines BUGS: list of dict(id, prop, file, edits=[(old,new),...] or {file: [...]}, needs, breaks, demo, also=[...])"""
import sys, os, json, subprocess, shutil, tempfile, runpy, time
HERE = os.path.dirname(os.path.abspath(__file__))
SEED = "/verif/seeded"
BASE = "c4d65e2"
PY = "/opt/venv/bin/python"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main():
    args = sys.argv[1:]
    only = None
    if "--only" in args:
        only = set(args[args.index("--only") + 1].split(","))
    bugs = runpy.run_path(args[0])["BUGS"]
    for b in bugs:
        if only and b["id"] not in only:
            continue
        t0 = time.time()
        msg = one(b, "--check" in args)
        print(f"{b['id']:34s} {b['prop']} {msg} ({time.time()-t0:.0f}s)", flush=True)


def one(b, docheck):
    W = tempfile.mkdtemp(prefix="plant-")
    try:
        R = os.path.join(W, "repo")
        sh(f"cp -a /repo {R}")
        ed = b["edits"] if isinstance(b["edits"], dict) else {b["file"]: b["edits"]}
        for f, es in ed.items():
            p = os.path.join(R, f)
            s = open(p).read()
            for e in es:
                old, new = e[0], e[1]
                nth = e[2] if len(e) > 2 else None
                c = s.count(old)
                if nth is None:
                    if c != 1:
                        return f"EDIT matches {c} times: {old[:60]!r}"
                    s = s.replace(old, new)
                elif nth == "all":
                    s = s.replace(old, new)
                else:
                    pos = -1
                    for _ in range(nth + 1):
                        pos = s.find(old, pos + 1)
                    if pos < 0:
                        return "EDIT nth not found"
                    s = s[:pos] + new + s[pos + len(old):]
            open(p, "w").write(s)
        diff = sh(f"git -C {R} diff").stdout
        if not diff:
            return "EMPTY diff"
        # removed lines must come from the original repository
        orig = 0
        for f in ed:
            bl = sh(f"git -C {R} blame -s HEAD -- {f}").stdout.splitlines()
            d = sh(f"git -C {R} diff -U0 -- {f}").stdout
            ln = 0
            for line in d.splitlines():
                if line.startswith("@@"):
                    a = line.split()[1][1:].split(",")
                    ln = int(a[0])
                elif line.startswith("-") and not line.startswith("---"):
                    if bl[ln - 1].startswith("^"):
                        orig += 1
                    elif line[1:].strip():
                        return f"NOT ORIGINAL line: {line[:80]}"
                    ln += 1
        if not orig:
            return "NO original line changed"
        D = os.path.join(W, "seed")
        os.makedirs(D)
        open(os.path.join(D, "patch.diff"), "w").write(diff)
        shutil.copy(os.path.join(HERE, "lib.py"), D)
        open(os.path.join(D, "demo.py"), "w").write("from lib import *\n" + b["demo"].strip("\n") + "\n")
        open(os.path.join(D, "demo.sh"), "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(D, "demo.sh"), 0o755)
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(D, "meta.json"), "w"), indent=1)
        r = sh(f"bash {D}/demo.sh", cwd="/repo", timeout=300)
        if r.returncode:
            return "DEMO fails on clean: " + (r.stdout + r.stderr)[-600:]
        r = sh(f"bash {D}/demo.sh", cwd=R, timeout=300)
        if r.returncode == 0:
            return "DEMO passes on patched"
        how = (r.stdout + r.stderr).strip().splitlines()[-1][:100] if (r.stdout + r.stderr).strip() else "?"
        r = sh(f"OMP_NUM_THREADS=2 PYTHONDONTWRITEBYTECODE=1 {PY} -m pytest -q -x tests -p no:cacheprovider", cwd=R, env=dict(os.environ, PYTHONPATH=os.path.join(R, "src")), timeout=600)
        if r.returncode:
            return "TESTS fail: " + " ".join(r.stdout.strip().splitlines()[-3:])[:300]
        dst = os.path.join(SEED, b["id"])
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(SEED, exist_ok=True)
        shutil.copytree(D, dst)
        out = f"kept [{how}]"
        if docheck:
            V = os.path.join(W, "verif")
            sh(f"mkdir {V} && cp -a /verif/mc /verif/check.sh /verif/MANIFEST.json /verif/known-findings.txt /verif/properties.jsonl {V}/")
            t = time.time()
            try:
                r = sh(f"bash {V}/check.sh {b['prop']} quick", env=dict(os.environ, VERIF_REPO=R, VERIF_SEED="1", VERIF_TIER="quick"), timeout=1200)
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + b["prop"])]
                out += f" | CHECK rc={r.returncode} {'CAUGHT' if r.returncode == 1 and v else 'MISSED'} n={len(v)} {time.time()-t:.0f}s"
            except subprocess.TimeoutExpired:
                out += " | CHECK TIMEOUT"
        return out
    finally:
        shutil.rmtree(W, ignore_errors=True)


main()
