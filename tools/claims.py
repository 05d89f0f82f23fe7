import json,sys
p='/verif/tools/claims.json'
c=json.load(open(p))
for k,v in json.load(sys.stdin).items():
    c["checks"][k]=v
json.dump(c,open(p,'w'),indent=1)
