import json,sys
sys.path.insert(0,'/verif')
from checkinfo import INFO
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NA={}
m={"version":1,"setup_cmd":"bash build.sh all","checks":[],"not_applicable":[],
"notes":"No guarded hooks were needed in /repo: every seam is inserted by a build overlay (tools/overlay) that instruments /repo's working tree and patches the Go runtime's scheduler, clock and randomness and net's UDP socket. Unguarded fix: commits in /repo are listed in known_findings.txt."}
for p in props:
    i=p['id']
    if i in INFO:
        m["checks"].append({"property":i,"quick_cmd":"python3 check.py "+i,"thorough_cmd":"VERIF_TIER=thorough python3 check.py "+i,"evidence_file":"evidence/%s.json"%i,
          "technique":INFO[i].get("technique","deterministic simulation with fault injection: seeded search over schedules, timing and faults on the real code, checked against a reference model"),
          "level":"exploration","level_note":INFO[i].get("note","Sampled, not exhaustive: seeded random and priority-based schedules at statement granularity with exact replay. Trusts the reference model, the runtime overlay and the simulated transports.")})
    else:
        m["not_applicable"].append({"property":i,"reason":NA.get(i,"check not built yet")})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
