"""Regenerates MANIFEST.json from mc/plan.json (properties with a plan are claimed)."""
import json,os
d=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
plan=json.load(open(d+'/mc/plan.json'))
ids=[json.loads(l)['id'] for l in open(d+'/properties.jsonl')]
E="bounded-exhaustive enumeration of executions of the real code, each compared with an independent reference model"
S="stateless exhaustive exploration of the interleavings of the real code (controlled scheduler, preemption bounding), with a race-detecting pass"
F="complete enumeration of the real code compiled over a prime field small enough to enumerate"
checks=[];na=[]
for i in ids:
    if i not in plan:
        na.append({"property":i,"reason":"check not built yet"});continue
    en={p['engine'] for p in plan[i]['phases']}
    t=[]
    if 'plain' in en: t.append(E)
    if any(e.startswith('small') for e in en): t.append(F)
    if en&{'sched','race'}: t.append(S)
    b='; '.join(f"{p['name'].split('/')[1]}: {p['bounds']}" for p in plan[i]['phases'] if p.get('bounds'))
    checks.append({"property":i,"quick_cmd":f"bash run.sh quick {i}","thorough_cmd":f"bash run.sh thorough {i}",
      "technique":"model checking: "+" + ".join(t),"level":plan[i].get('level','model_checking'),
      "level_note":plan[i].get('note') or ("Exhaustive within the stated bounds, on the code compiled from the current tree. "+b)})
json.dump({"version":1,"setup_cmd":"true","checks":checks,"not_applicable":na},open(d+'/MANIFEST.json','w'),indent=1)
