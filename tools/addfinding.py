#!/usr/bin/env python3
"""addfinding.py fixed PROP COMMIT TEXT | finding PROP CASE REASON TEXT"""
import json,sys
p='/verif/known-findings.json'; k=json.load(open(p)); a=sys.argv[1:]
if a[0]=='fixed': k.append({"property":a[1],"status":"fixed","commit":a[2],"what":f"fixed: property={a[1]} {a[2]} {a[3]}"})
else: k.append({"property":a[1],"status":"finding","case":a[2],"reason":a[3],"what":a[4]})
json.dump(k,open(p,'w'),indent=1)
