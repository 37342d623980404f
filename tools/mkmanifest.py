import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
WEB={f"C{i}" for i in range(19,28)}
import os
web_ready=os.path.exists('/verif/web/check.mjs')
LN={
"lib":"Seeded search, not proof: every explored run drives the real json_typegen_shared (with its real dependencies, ureq included) inside a process whose file, socket, clock, randomness and scheduling calls are answered by the simulator; assumes the simulator's POSIX semantics (documented in DESIGN.md) and trusts rustc, libc's pure functions and the oracle code.",
"cli":"Seeded search, not proof: every explored run is the real json_typegen executable in its own process with all its file, socket, stdio and clock calls answered by the simulator; assumes the simulator's POSIX semantics and trusts the library call used as the reference for successful output.",
"mac":"Seeded search, not proof: the real proc macro inside the real rustc with the sample's file calls answered by the simulator; reference is the library called directly; serde_derive is a stub that expands to nothing.",
"web":"Seeded search, not proof: the real Svelte components and worker source of /repo, compiled by a small compiler of our own for the Svelte subset they use, run in one Node process against stub browser APIs (Worker queues, FileReader, localStorage, URL, clipboard) under a seeded scheduler; the wasm generator is a deterministic stand-in.",
}
LN["web25"]=LN["web"].replace("the wasm generator is a deterministic stand-in.","the generator is the real json_typegen_wasm and json_typegen_shared, built for this machine instead of wasm32; the reference is the library called directly with the options set field by field.")
checks=[];na=[]
for p in props:
    i=p['id'];n=int(i[1:])
    if n>=40:
        na.append({"property":i,"reason":"A pure function of its input: no schedule, clock, I/O, fault or interleaving takes part in it, so there is nothing for a simulator to control; deciding it would be plain input generation, another technique."})
        continue
    if i in WEB and not web_ready:
        na.append({"property":i,"reason":"Not claimed yet: the simulator for the web page is still being built."})
        continue
    kind="web25" if i=="C25" else "web" if i in WEB else "mac" if i=="C18" else "cli" if 12<=n<=17 else "lib"
    checks.append({"property":i,"quick_cmd":f"bash bin/check {i} quick","thorough_cmd":f"bash bin/check {i} thorough","evidence_file":f"evidence/{i}.json",
      "technique":"deterministic simulation with fault injection (seeded search over deliveries, faults and schedules)","level":"exploration","level_note":LN[kind]})
m={"version":1,"setup_cmd":"bash bin/build","checks":checks,"not_applicable":na,
"notes":"No hooks in /repo: every seam is at the system-call level (an LD_PRELOAD library the checks build) or at the browser API level. Known findings and fixed defects are in known-findings.jsonl. Replay with: bash bin/check replay FILE."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
