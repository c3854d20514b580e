#!/usr/bin/env python3
"""Mutation sweep: tools/mutate/run.py MUTS.jsonl OUT.jsonl [workers] [runs] [filter-regex]
Builds the simulator around each mutant (in scratch copies under /tmp) and runs every scenario
briefly until one reports a violation. Not part of any check: it measures the checks."""
import sys, os, json, subprocess, re, threading, queue, time, shutil
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
muts = [json.loads(l) for l in open(sys.argv[1])]
out = sys.argv[2]
W = int(sys.argv[3]) if len(sys.argv) > 3 else 7
RUNS = int(sys.argv[4]) if len(sys.argv) > 4 else 250
flt = re.compile(sys.argv[5]) if len(sys.argv) > 5 else None
ALL = [("C05","udp"),("C02","trace"),("C03","trace"),("C19","codec"),("C08","tcp"),("C10","conf"),("C17","cache"),("C04","trace"),("C01","trace"),("C07","trace"),("C20","beat"),("C15","sample"),("C13","active"),("C12","stuck"),
       ("C14","meter"),("C18","dump"),("C11","save"),("C09","link"),("C16","ids"),("C06","harm")]
PRI = [("sampler|strmatch","C15"),("dump.go","C18"),("configure","C10"),("exthandler","C11"),("opserver","C10"),("structure","C17"),("netdata","C19"),("udp","C05"),("channelfactory","C06"),("tcpmanager","C09"),("tcpclient","C08"),("tcpclient.go","C09"),
       ("handlers","C08"),("tctxmanager","C12"),("tctxmanager","C13"),("/strace/tracemain","C13"),("/strace/tracemain","C12"),("/strace/tracemain","C03"),("/strace/tracemain","C01"),("/strace/tracemain","C07"),("/strace/tracemain","C06"),("configure","C11"),("conf/configure","C06"),("timeutil|mathutil|hexa|iputil","C02"),("timeutil|mathutil|hexa|iputil","C14"),("counter","C14"),("counter","C20"),("countertask","C20"),("agenttask","C20"),("keygen","C16"),("profilecollector","C03"),("dataproxy","C04"),("tracemain","C02"),("logger|panic|osutil|fileutil","C06"),("step","C03"),("xlog|tracecontext","C02")]
done = set()
if os.path.exists(out):
    for l in open(out):
        r = json.loads(l); done.add((r["file"], r["off"], r["new"]))
q = queue.Queue()
for m in muts:
    if "hashutil" in m["file"] and m["line"] < 55: continue
    if flt and not flt.search(m["file"]): continue
    if (m["file"], m["off"], m["new"]) not in done: q.put(m)
lock = threading.Lock()
env = dict(os.environ)
def worker(k):
    d = f"/tmp/mw{k}"
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(f"mkdir -p {d}/repo && git -C /repo archive HEAD | tar x -C {d}/repo", shell=True, check=True)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        f = f"{d}/repo/{m['file']}"
        src = open(f, "rb").read()
        open(f, "wb").write(src[:m["off"]] + m["new"].encode() + src[m["end"]:])
        try:
            e = dict(env, VERIF_REPO=f"{d}/repo")
            b = subprocess.run(f"{V}/build.sh {d}/sim {d}/w", shell=True, env=e, capture_output=True, text=True)
            if b.returncode:
                m["res"] = "nocompile"; m["msg"] = b.stderr[-150:]
            else:
                order = [x for p, c in PRI if re.search(p, m["file"]) for x in ALL if x[0] == c]
                if not order or not os.environ.get("ONLYPRI"): order += [x for x in ALL if x not in order]
                m["res"] = "survived"; t0 = time.time()
                for c, s in order:
                    n = RUNS if s not in ("codec", "cache") else RUNS * 8
                    if s in ("harm",): n = RUNS // 2
                    r = subprocess.run(["timeout", "100", f"{d}/sim", "one", "-n", str(n), c, s, "1"], capture_output=True, text=True, errors="replace")
                    last = r.stdout.strip().split("\n")[-1] if r.stdout.strip() else ""
                    k2 = re.search(r"kinds map\[(.*)\]", last)
                    if k2 and k2.group(1):
                        m["res"] = "killed"; m["by"] = c; m["kinds"] = k2.group(1)[:100]; break
                    if not k2:
                        m["res"] = "noanswer"; m["by"] = c; m["msg"] = (r.stdout + r.stderr)[-300:]
                        # keep looking for a proper verdict
                        continue
                    if "ERR" in r.stdout and m["res"] == "survived":
                        m["res"] = "err"; m["by"] = c
                m["t"] = round(time.time() - t0, 1)
        finally:
            open(f, "wb").write(src)
        with lock:
            open(out, "a").write(json.dumps(m) + "\n")
    shutil.rmtree(d, ignore_errors=True)
ts = [threading.Thread(target=worker, args=(k,)) for k in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
