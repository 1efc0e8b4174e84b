#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property whose monitor exists (monitors["ID"] in harness/mon)."""
import json, os, re, glob
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have=set()
for f in glob.glob(H+"/harness/mon/*.go"):
    have|=set(re.findall(r'monitors\["(\w+)"\]\s*=',open(f).read()))
NOTES={
"E01":"two-run masking oracle over random call trees: full KV dump and logs against the run without the failing frames, plus a model of the surviving effects",
"E02":"differential execution of random programs against go-ethereum's own core/state backend",
"E03":"probe contracts and with/without-history twin executions on the same state",
"E04":"context probe against the block the driver built, for long chains with restarts and retention changes",
}
try:
    NOTES.update(json.load(open(H+"/tools/notes.json")))
except FileNotFoundError: pass
props=[json.loads(l) for l in open(H+"/properties.jsonl")]
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in have:
        checks.append(dict(property=i,quick_cmd="python3 run.py %s quick"%i,thorough_cmd="python3 run.py %s thorough"%i,
            technique="runtime monitoring"+(" with the Go race detector" if i=="X06" else ""),level="exploration",
            level_note=NOTES.get(i,"monitored executions of the real application, see DESIGN.md")))
    else:
        na.append(dict(property=i,reason="monitor not built yet"))
json.dump(dict(version=1,setup_cmd="bash setup.sh",hooks=dict(guard="none",enable="no hooks in /repo: the harness is compiled in through go build -overlay",source_commits=[]),checks=checks,not_applicable=na),open(H+"/MANIFEST.json","w"),indent=1)
print(len(checks),"checks",len(na),"na")
