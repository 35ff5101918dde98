import json
V='/verif/'
cfg=json.load(open(V+'checks.json'))
props=[json.loads(l) for l in open(V+'properties.jsonl')]
NA=json.load(open(V+'not_applicable.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in cfg:
        c=cfg[i]
        checks.append({"property":i,"quick_cmd":"python3 check.py "+i,"thorough_cmd":"VERIF_TIER=thorough python3 check.py "+i,
          "technique":c.get("technique","contracts on the extracted source functions, discharged by Verus/Z3; real-code replay on generated inputs"),
          "level":c.get("level","proof"),"level_note":c["note"]})
    else:
        na.append({"property":i,"reason":NA.get(i,"not built yet")})
json.dump({"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":na,
 "notes":"No hooks: everything is extracted from /repo's sources on each run or reached through the crate's public API. See DESIGN.md."},open(V+'MANIFEST.json','w'),indent=1)
