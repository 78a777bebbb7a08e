#!/usr/bin/env python3
"""Source of MANIFEST.json (run: python3 tools/mkmanifest.py)."""
import json,os,sys
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IDE_NOTE=("Seeded search over schedules, user actions and faults; the extension's own TypeScript (bundled from /repo) runs for real, "
 "while VS Code, the file system, the network and the analyser processes are simulated. Assumes the stubs behave as the VS Code API documents; "
 "says nothing about schedules not sampled.")
T="deterministic simulation with fault injection (seeded schedule and fault search)"
checks=[];na=[]
def c(id,cmd,note,level="exploration"):
    checks.append(dict(property=id,quick_cmd=cmd+" --tier quick",thorough_cmd=cmd+" --tier thorough",
        evidence_file=f"evidence/{id}.json",technique=T,level=level,level_note=note))
for i in range(1,11): c(f"C{i:02d}",f"node idesim/run.js --property C{i:02d}",IDE_NOTE)
exec(open(os.path.join(ROOT,"tools/manifest_rust.py")).read())
for id,why in [("C30","pure function of the program text, no schedule, time, I/O or fault involved: precision is not observable by injecting faults (a fault can show a missing dependency, never a superfluous one)"),
  ("C31","pure function of the source text: no concurrency, time, I/O or fault to simulate"),
  ("C32","pure macro expansion at compile time: no concurrency, time, I/O or fault to simulate")]:
    na.append(dict(property=id,reason=why))
m=dict(version=1,setup_cmd=SETUP,checks=checks,not_applicable=na)
if HOOKS: m["hooks"]=HOOKS
json.dump(m,open(os.path.join(ROOT,"MANIFEST.json"),"w"),indent=1); open(os.path.join(ROOT,"MANIFEST.json"),"a").write("\n")
