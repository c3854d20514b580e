#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run: python3 tools/manifest.py > MANIFEST.json)."""
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(here+"/properties.jsonl")]
src=open(here+"/tools/claimed.txt").read().split("\n")
claimed={l.split("|")[0]:l.split("|")[1] for l in src if "|" in l}
NOTE=("Seeded search: every run executes the real agent code in one process under a deterministic scheduler, clock, network and disk, "
      "so a clean check is evidence over the runs counted in the evidence file, not a proof. Trusted: the source rewriter, the shadow sync/time/net/os packages, "
      "the independent decoder and the reference model. ")
m={"version":1,"setup_cmd":"./setup.sh",
 "hooks":{"guard":"none (no hook is committed in /repo: scheduling points and seams are inserted into a rewritten copy at build time)","enable":"./build.sh rewrites /repo's working tree into /verif/build and compiles the copy","source_commits":[]},
 "checks":[],"not_applicable":[],
 "notes":"20 properties, one simulator. ./check.sh --replay FILE reproduces a violation exactly. See DESIGN.md."}
for p in props:
    i=p["id"]
    if i in claimed:
        m["checks"].append({"property":i,"quick_cmd":"./check.sh "+i,"thorough_cmd":"./check.sh "+i,"technique":"deterministic simulation with fault injection (seeded schedule and fault search)","level":"exploration","level_note":NOTE+claimed[i]})
    else:
        m["not_applicable"].append({"property":i,"reason":"check not built yet"})
print(json.dumps(m,indent=1))
