import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NA=json.load(open('/verif/tools/na.json'))
NOTE=json.load(open('/verif/tools/notes.json'))
checks=[]
for p in props:
    i=p['id']
    if i in NA: continue
    checks.append({"property":i,"quick_cmd":f"/verif/check.sh {i} quick","thorough_cmd":f"/verif/check.sh {i} thorough",
      "technique":"deterministic simulation with fault injection: seeded search over schedules, transactions and faults against an executable reference model",
      "level":"exploration","level_note":NOTE.get(i) or NOTE["*"]})
m={"version":1,"setup_cmd":"/verif/setup.sh","checks":checks,
   "not_applicable":[{"property":k,"reason":v} for k,v in NA.items()],
   "notes":"All checks share one simulator (/verif/simsdk). It compiles the pallets, primitives and runtime glue of /repo's working tree unmodified against a stand-in SDK; see DESIGN.md."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
