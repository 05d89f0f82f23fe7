#!/usr/bin/env python3
"""Regenerates MANIFEST.json from tools/claims.json and properties.jsonl."""
import json
ids=[json.loads(l)['id'] for l in open('/verif/properties.jsonl') if l.strip()]
c=json.load(open('/verif/tools/claims.json'))
m={"version":1,"setup_cmd":"bash setup.sh","hooks":{"guard":"none","enable":"no hooks: contracts are laid over /repo with go's -overlay, nothing in /repo is instrumented","source_commits":[]},"checks":[],"not_applicable":[]}
for i in ids:
    if i in c["checks"]:
        k=c["checks"][i]
        m["checks"].append({"property":i,"quick_cmd":f"bash check.sh {i}","thorough_cmd":f"bash check.sh {i}","evidence_file":f"evidence/{i}.json","technique":k.get("technique","deductive verification: contracts on the real functions, VCs generated from go/ssa, discharged by Z3/cvc5"),"level":k.get("level","proof"),"level_note":k["note"],**({"theorems":k["theorems"]} if "theorems" in k else {})})
    else:
        m["not_applicable"].append({"property":i,"reason":c["not_applicable"].get(i,"not yet built")})
m["notes"]=c.get("notes","")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
