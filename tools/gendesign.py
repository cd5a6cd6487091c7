#!/usr/bin/env python3
# Regenerates DESIGN.md from design_head.md, the registry, how.json and the seeds.
import json,os,glob
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(R+'/properties.jsonl')]
na=json.load(open(R+'/tools/na.json')); how=json.load(open(R+'/tools/how.json'))
kf=[l.strip() for l in open(R+'/known_findings.txt') if l.strip() and l[0]!='#']
o=open(R+'/tools/design_head.md').read()
for l in kf: o+='* '+l+'\n'
o+='\n## Properties\n'
for p in props:
    i=p['id']; f=f'{R}/harness/registry/{i}.json'
    o+=f"\n### {i} {p['title']}\n\n"
    if not os.path.exists(f) or i in na:
        o+='Not applicable: '+na.get(i,'not built yet')+'\n'; continue
    r=json.load(open(f))
    o+=how.get(i,'')+'\n\n'
    o+='Bounds: '+r['bounds']+'\n\nOutside: '+r['outside']+'\n\n'
    if r['assumptions']: o+='Assumes: '+'; '.join(r['assumptions'])+'\n\n'
    o+='| harness | what | quick | thorough |\n|---|---|---|---|\n'
    for h in r['harnesses']:
        fm=lambda d:' '.join(f'{k}={v}' for k,v in (d or {}).items())
        o+=f"| `{h['pkg']}.{h['func']}` | {h['about']} | {fm(h['quick'])} | {fm(h.get('thorough'))} |\n"
o+='\n## Planted bugs (seeded/) and what catches them\n\nEach row was confirmed by applying the patch, running the check and undoing it (`tools/seedcheck.sh` does so on a scratch copy).\n\n| id | property | needs | caught by |\n|---|---|---|---|\n'
ct=json.load(open(R+'/tools/caught.json')) if os.path.exists(R+'/tools/caught.json') else {}
for m in sorted(glob.glob(R+'/seeded/*/meta.json')):
    d=json.load(open(m)); i=os.path.basename(os.path.dirname(m))
    o+=f"| {i} | {d['property']} | {d['needs']} | {ct.get(i,'not run yet')} |\n"
if os.path.exists(R+'/tools/design_tail.md'): o+='\n'+open(R+'/tools/design_tail.md').read()
open(R+'/DESIGN.md','w').write(o)
