#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md, the table of bounds and the results of the planted bugs."""
import json,os
R=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
P=json.load(open(os.path.join(R,'harness/props.json')))
rows=['| id | harness | quick | thorough | schedules (quick/thorough) |','|---|---|---|---|---|']
out=['','Outside the bounds and not claimed:','']
f=lambda d:', '.join('%s=%s'%x for x in sorted(d.items())) or 'fixed shapes'
for i,p in sorted(P.items()):
    for h in p['harness']:
        pre=h.get('preempt') or 0; t=h.get('tpreempt') or pre
        s=lambda n: '' if not n else ('%d preemptions'%n if n>0 else '%d deviations'%(-n-1))
        rows.append('| %s | %s | %s | %s | %s |'%(i,h['fn'],f(h['bounds']),f(dict(h['bounds'],**h['thorough'])),(s(pre)+' / '+s(t)) if pre else ''))
    out.append('* %s: %s.'%(i,p['outside']))
res={}
rf=os.path.join(R,'tools/seed/results.txt')
if os.path.exists(rf):
    for l in open(rf):
        n,r=l.rstrip('\n').split(' ',1); res[n]=r
sd=['| bug | property | needs | breaks | caught by |','|---|---|---|---|---|']
S=os.path.join(R,'seeded')
for n in sorted(os.listdir(S)) if os.path.isdir(S) else []:
    m=json.load(open(os.path.join(S,n,'meta.json')))
    sd.append('| %s | %s | %s | %s | %s |'%(n,m['property'],m['needs'],m['what_it_breaks'],res.get(n,'?')))
t=open(os.path.join(R,'tools/design.md')).read()
ex=os.path.join(R,'tools/design_extra.md')
t=t.replace('@EXTRA@',open(ex).read() if os.path.exists(ex) else '').replace('@BOUNDS@','\n'.join(rows+out)).replace('@SEEDED@','\n'.join(sd))
open(os.path.join(R,'DESIGN.md'),'w').write(t)
