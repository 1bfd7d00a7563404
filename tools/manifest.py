#!/usr/bin/env python3
"""Writes MANIFEST.json. python3 tools/manifest.py (from /verif)"""
import json
DS="deterministic simulation with fault injection: seeded search over "
CH={
"C01":("schedules, core counts, map orders and clocks; byte comparison of two simulated runs","exploration"),
"C08":("I/O faults at system calls of simulated tool runs; comparison with the fault-free run","fault_enumeration"),
"C09":("crash points and I/O faults; audit of every file-system operation of simulated tool runs","fault_enumeration"),
"C10":("crash points and I/O faults; state of pre-existing outputs after simulated failed or killed runs","fault_enumeration"),
"C11":("I/O faults, schedules, models and planes; exact clipping model as oracle","exploration"),
"C12":("I/O faults, schedules and models; reference verdicts as oracle","exploration"),
"C13":("hash orders, schedules and I/O faults; closedness, budget and bounds of the simulated output","exploration"),
"C15":("I/O faults and planes files; a simulated printer's bed commands and layers against the file","fault_enumeration"),
"C16":("map orders, clocks, templates and I/O faults; reference substitution as oracle","exploration"),
"C17":("configurations and I/O faults on the trace; comparison with the untraced simulated run","fault_enumeration"),
}
try: exec(open('tools/manifest_lib.py').read())
except FileNotFoundError: pass
NOTE="Sampled, not exhaustive: a quiet run is evidence. Real code: every package of the repository in the tool or library call, translated from the current tree with a yield before each statement; simulated: files, clock, scheduler (sequentially consistent, statement granularity), core count, map order. Trusts simgen, simrt and the harness oracle."
EXTRA={
"C02":" Contours are compared only for heights in general position.",
"C04":" Data races are decided by Go's race detector following the simulated happens-before edges on simulated schedules.",
"C15":" Layer heights per part are compared only when no vertex touches a plane within rounding.",
}
NA={
"C30":"pure geometric function of layer outlines and settings: no schedule, fault, clock or history changes it, so the simulator decides nothing beyond sampling inputs",
"C31":"pure geometric function of layer outlines and settings, as C30",
"C32":"pure function of mesh and plane (capping geometry); the schedule- and fault-dependent part of cutting is C11",
"C33":"pure function of mesh, centre and angle; no nondeterminism, fault or history involved",
"C34":"pure classification heuristics over a mesh; no nondeterminism, fault or history involved",
"C35":"pure heuristics over a mesh; what depends on schedules and files in the analyser is covered by C01, C05, C08",
"C36":"pure function of a poly-line; no nondeterminism, fault or history involved",
"C37":"pure geometric function of mesh and settings; no nondeterminism, fault or history involved",
}
ids=[json.loads(l)["id"] for l in open("properties.jsonl")]
checks=[]; na=[]
for i in ids:
    if i in CH:
        t,l=CH[i]
        checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","evidence_file":f"evidence/{i}.json","technique":DS+t,"level":l,"level_note":NOTE+EXTRA.get(i,"")})
    else:
        na.append({"property":i,"reason":NA.get(i,"check not built yet")})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,
"notes":"No hooks in /repo: simgen inserts every seam while translating the current source (see DESIGN.md). Replay a violation with ./replay.sh FILE. Genuine defects found are in known_findings.txt (all repaired by fix: commits in /repo)."}
json.dump(m,open("MANIFEST.json","w"),indent=1); open("MANIFEST.json","a").write("\n")
