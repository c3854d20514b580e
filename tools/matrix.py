#!/usr/bin/env python3
"""tools/matrix.py [ID...]: runs each planted bug's own check on a scratch copy with the bug in it."""
import sys, os, subprocess, json, shutil, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
for i in ids:
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    tmp = tempfile.mkdtemp(prefix="matrix.")
    try:
        subprocess.run(f"git -C /repo archive HEAD | tar x -C {tmp} && cd {tmp} && git init -q && git apply {V}/seeded/{i}/patch.diff", shell=True, check=True)
        for p in [m["property"]] + m.get("also", []):
            t = time.time()
            r = subprocess.run([V + "/check.sh", p], env=dict(os.environ, VERIF_REPO=tmp), capture_output=True, text=True)
            o = r.stdout.splitlines()
            why = [l for l in o if l.strip().startswith(p + "/")][:1] or o[-2:]
            print(f"{i}: {p} exit {r.returncode} {time.time()-t:.0f}s {' '.join(why)[:230]}", flush=True)
    finally:
        shutil.rmtree(tmp)
