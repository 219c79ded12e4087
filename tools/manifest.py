import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
info=json.load(open('/verif/drv/info.json'))
import sys
m={"version":1,"setup_cmd":"python3-vt -c \"import z3\" && rustc +nightly --version",
"checks":[],"not_applicable":[],"notes":"See DESIGN.md. Repairs of genuine defects are the commits listed in known-findings.txt; no hooks are needed."}
for p in props:
    i=p["id"]
    lv=info["level"].get(i,"exploration")
    m["checks"].append({"property":i,"quick_cmd":"python3-vt check.py "+i,"thorough_cmd":"VERIF_TIER=thorough python3-vt check.py "+i,
     "evidence_file":"evidence/%s.json"%i,
     "technique":info["technique"].get(i,info["technique"]["default"]),"level":lv,"level_note":info["note"].get(i,info["note"]["default"])})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
