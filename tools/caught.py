#!/usr/bin/env python3
# Records the outcome of tools/seedcheck.sh (stdin: its output) in caught.json.
import json,os,sys
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p=R+'/tools/caught.json'; d=json.load(open(p)) if os.path.exists(p) else {}
for l in sys.stdin:
    w=l.split()
    if len(w)>=3 and w[2].startswith('rc='): d[w[0]]=w[1] if w[2]=='rc=1' else 'missed'
json.dump(d,open(p,'w'),indent=1,sort_keys=True)
