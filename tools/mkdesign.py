#!/usr/bin/env python3
# DESIGN.md = design_head.md + defects fixed + planted bugs (from seeded/*/meta.json and seeded_results.txt)
import json,os,re
R='/verif/'
o=open(R+'tools/design_head.md').read()
k=json.load(open(R+'known_findings.json'))
o+="## Defects found and repaired (`fix:` commits in /repo)\n\n"
for x in k['fixed']:
    m=re.match(r'fixed: property=(\S+) (\S+) (.*)',x)
    o+=f"* {m[1]} `{m[2]}` {m[3]}\n"
o+="\n"+open(R+'tools/design_tail.md').read()
o+="\n## Planted bugs and the checks that catch them\n\nResult of the quick check of the named property (`-` not run yet).\n\n| bug | property | needs | result |\n|---|---|---|---|\n"
res={}
p=R+'tools/seeded_results.txt'
if os.path.exists(p):
    for l in open(p):
        a=l.split()
        if len(a)>=3: res[a[0]]=('caught' if a[2]=='rc=1' else 'MISSED' if a[2]=='rc=0' else a[2])+' ('+a[3]+')'
for d in sorted(os.listdir(R+'seeded')):
    m=json.load(open(R+f'seeded/{d}/meta.json'))
    o+=f"| {d} | {m['property']} | {m['needs']} | {res.get(d,'-')} |\n"
open(R+'DESIGN.md','w').write(o)
