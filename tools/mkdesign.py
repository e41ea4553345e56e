#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + table of planted bugs + table of spaces (from evidence files: mkdesign.py [EVIDENCE_DIR])."""
import json, os, glob, sys
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ev=sys.argv[1] if len(sys.argv)>1 else f'{root}/evidence'
s=open(f'{root}/tools/design_head.md').read()
strength={
 'c04-relative-threshold':'"units per variable" spaces','c06-relative-pivot':'"units per variable" spaces','c24-stagnation':'tolerance 1e-9 in C24',
}
strength.update(json.load(open(f'{root}/tools/strengthened.json')))
rows=[]
for m in sorted(glob.glob(f'{root}/seeded/*/meta.json')):
    i=m.split('/')[-2]; j=json.load(open(m))
    n=f'**{i}**' if i in strength else i
    rows.append(f"| {n} | {j['property']} | {j['needs']} | {strength.get(i,'')} |")
seed="| change | caught by | needs | added because of it |\n|---|---|---|---|\n"+"\n".join(rows)
out=[]; tiers=set()
for f in sorted(glob.glob(f'{ev}/C*.json')):
    e=json.load(open(f)); c=e['coverage']; tiers.add(e['tier'])
    w=max(c.get('worst_error_over_tolerance',{}).values(),default=0)
    out.append(f"### {e['property']}: {c['traces_validated_against_impl']} executions, {c['states']} states, {c['transitions']} transitions, worst error/tolerance {w:.2f}")
    for x in c['spaces']: out.append(f"* {x['space']} ({x['executions']})")
s=s.replace('NSEEDED',str(len(rows))).replace('SEEDTABLE',seed).replace('TIER','/'.join(sorted(tiers))).replace('SPACETABLE',"\n".join(out))
open(f'{root}/DESIGN.md','w').write(s)
print(len(rows),len(out))
