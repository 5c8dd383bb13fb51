#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/props.json and properties.jsonl."""
import json,os
R=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
P=json.load(open(os.path.join(R,'harness/props.json')))
ids=[json.loads(l)['id'] for l in open(os.path.join(R,'properties.jsonl'))]
NA=json.load(open(os.path.join(R,'tools/not_applicable.json')))
checks=[];na=[]
for i in ids:
    if i in P:
        p=P[i]
        bounds='; '.join('%s: quick %s, thorough %s'%(h['fn'],h['bounds'] or 'fixed shapes',dict(h['bounds'],**h['thorough']) or 'fixed shapes') for h in p['harness'])
        note=('Every execution of the harnesses within the bounds is decided by the solver over the SSA of the current /repo and of the libraries it uses; '
          'a counterexample is replayed natively before it is reported. Bounds: '+bounds+'. Outside: '+p['outside']+
          '. Trusted: the symbolic machine (checked on every run by native replay of sampled paths), go/ssa, z3'+
          (', '+', '.join(p['assumptions']) if p['assumptions'] else '')+'.')
        checks.append({'property':i,'quick_cmd':'./check.sh %s quick'%i,'thorough_cmd':'./check.sh %s thorough'%i,
          'technique':'symbolic execution of the Go SSA with an SMT solver (bounded model checking)','level':'model_checking','level_note':note})
    else:
        na.append({'property':i,'reason':NA.get(i,'no harness has been built for it yet')})
m={'version':1,'setup_cmd':'./setup.sh','hooks':{'guard':'none','enable':'no hooks: in-package helpers go in through an overlay','source_commits':[]},'checks':checks,'not_applicable':na,
 'notes':'See DESIGN.md. The machine is engine/, the harnesses are harness/h, the table of bounds is tools/harness_table.py.'}
json.dump(m,open(os.path.join(R,'MANIFEST.json'),'w'),indent=1)
open(os.path.join(R,'MANIFEST.json'),'a').write('\n')
