#!/usr/bin/env python3
"""plant.py NAME: plants the bug defined in /tmp/bugs/NAME.py (prop, needs, breaks, edits=[(file, old, new)], demo)
into a scratch copy of /repo, and keeps it in /verif/seeded/NAME if it builds, passes the tests and the demo fails."""
import sys,os,json,subprocess,shutil,stat
name=sys.argv[1]
ns={}
exec(open('/tmp/bugs/%s.py'%name).read(),ns)
wt='/tmp/wt'
seed='/verif/tools/seed'
out='/verif/seeded/'+name
def run(cmd,**k): return subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,universal_newlines=True,**k)
if not os.path.isdir(wt): run(['cp','-a','/repo',wt])
run(['git','-C',wt,'checkout','-q','--','.']); run(['git','-C',wt,'clean','-fdq'])
h=run(['git','-C','/repo','rev-parse','HEAD']).stdout.strip()
if run(['git','-C',wt,'rev-parse','HEAD']).stdout.strip()!=h:
    run(['git','-C',wt,'fetch','-q','/repo','HEAD']); run(['git','-C',wt,'checkout','-q',h])
os.makedirs(out,exist_ok=True)
shutil.copy(seed+'/demo.sh',out+'/demo.sh'); os.chmod(out+'/demo.sh',0o755)
if ns.get('flags'):
    s=open(out+'/demo.sh').read().replace('$DEMO_FLAGS',ns['flags']); open(out+'/demo.sh','w').write(s)
else:
    s=open(out+'/demo.sh').read().replace(' $DEMO_FLAGS',''); open(out+'/demo.sh','w').write(s)
pkg=ns.get('pkg','./merge')
s=open(out+'/demo.sh').read().replace('./merge',pkg).replace('$PWD/merge/','$PWD/'+pkg[2:]+'/'); open(out+'/demo.sh','w').write(s)
h=open(seed+'/help_test.go').read()
import re
h=h.replace('package merge_test',re.match('package .*',ns['demo']).group(0)); open(out+'/help_test.go','w').write(h)
open(out+'/demo_test.go','w').write(ns['demo'])
def demo():
    r=run(['bash',out+'/demo.sh'],cwd=wt); return r.returncode,r.stdout[-1500:]
ok=True
c,o=demo()
if c!=0: print('demo fails on the original:\n',o); ok=False
for f,a,b in ns['edits']:
    p=os.path.join(wt,f); s=open(p).read()
    if s.count(a)!=1: print('edit does not match',f,s.count(a)); sys.exit(1)
    open(p,'w').write(s.replace(a,b))
r=run(['gofmt','-l']+[e[0] for e in ns['edits']],cwd=wt)
if r.stdout.strip(): print('gofmt:',r.stdout)
d=run(['git','-C',wt,'diff']).stdout
open(out+'/patch.diff','w').write(d)
r=run(['go','build','./...'],cwd=wt)
if r.returncode: print('build:',r.stdout[-1500:]); ok=False
for again in range(4):
    r=run(['go','test','-count=1','./...'],cwd=wt)
    bad=[x for x in r.stdout.split('\n') if x.startswith('--- FAIL') or x.startswith('FAIL') or 'panic' in x]
    if not bad or 'EOF' not in r.stdout: break # a plugin that was too slow to start: try again
if bad: print('tests:',[x for x in r.stdout.split('\n') if '--- FAIL' in x or 'panic' in x][:8],r.stdout[-600:])
if bad: ok=False
c,o=demo()
if c==0: print('demo passes with the bug'); ok=False
else: print('demo with the bug:',[x for x in o.split('\n') if x.strip()][:6])
json.dump(dict(property=ns['prop'],needs=ns['needs'],what_it_breaks=ns['breaks']),open(out+'/meta.json','w'),indent=1)
run(['git','-C',wt,'checkout','-q','--','.'])
print('OK' if ok else 'REJECTED',name)
if not ok: shutil.rmtree(out)
sys.exit(0 if ok else 1)
