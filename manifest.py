import json,sys
sys.path.insert(0,'/verif')
import importlib, checks
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NA={
"P01":"A pure function of its arguments: no schedule, clock, I/O, fault or failure can influence it, so deterministic simulation has nothing to decide (its behaviour when memory runs out is X01).",
"P02":"Pure arithmetic on values: no schedule, clock, I/O, fault or failure can influence it (its behaviour when memory runs out is N01).",
"P03":"A pure function of the format text and arguments: no schedule, clock, I/O, fault or failure can influence it (its behaviour when memory runs out is X01).",
"P04":"Compile-time facts and pure comparisons: nothing is executed that a simulator could schedule or fail.",
}
ch=[]
for p in props:
    i=p['id']
    if i in checks.CHECKS:
        c=checks.CHECKS[i]
        ch.append(dict(property=i,quick_cmd="python3 /verif/check.py %s quick"%i,thorough_cmd="python3 /verif/check.py %s thorough"%i,
          evidence_file="evidence/%s.json"%i, technique="deterministic simulation with fault injection: "+c.get('tech','seeded histories and faults against a reference model'),
          level="exploration", level_note=c['note']))
na=[dict(property=p['id'],reason=NA.get(p['id'],"Check not built yet.")) for p in props if p['id'] not in checks.CHECKS]
m=dict(version=1,setup_cmd="true",checks=ch,not_applicable=na,
 notes="No hooks in /repo: every seam (system calls, stdio, clock, heap, thread primitives) is interposed at link time or by instrumentation of the harness's own compilation of the headers.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
