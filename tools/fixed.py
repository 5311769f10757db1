#!/usr/bin/env python3
"""fixed.py ID COMMIT TEXT: append a fixed entry; fixed.py --known ID KEY WHAT INPUT"""
import json,sys
p='/verif/known_findings.json'
d=json.load(open(p))
if sys.argv[1]=='--known':
    d['known'].append(dict(property=sys.argv[2],key=sys.argv[3],what=sys.argv[4],input=sys.argv[5]))
else:
    d['fixed'].append(f"fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}")
json.dump(d,open(p,'w'),indent=1)
