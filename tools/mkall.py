#!/usr/bin/env python3
"""Writes harness/h/all.go from the exported functions Cnn* of the harness package."""
import re,glob,os
d=os.path.join(os.path.dirname(os.path.abspath(__file__)),'../harness/h')
fs=sorted(set(f for p in glob.glob(d+'/*.go') for f in re.findall(r'^func (C\d\d\w+)\(\)',open(p).read(),re.M)))
s=open(d+'/all.go').read()
i=s.index('map[string]func(){')+len('map[string]func(){')
j=s.index('\n}',i)
s=s[:i]+''.join('\n\t"%s": %s,'%(f,f) for f in fs)+s[j:]
open(d+'/all.go','w').write(s)
os.system('gofmt -w '+d+'/all.go')
