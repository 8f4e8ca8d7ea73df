import json,sys
for a in sys.argv[1:]:
    d=json.load(open(a)); c=d["case"]
    print("==",a.split("/")[-1], d["message"][:300])
    for k in c:
        if k not in ("row_keys","used"): print("  ",k,str(c[k])[:400])
