#!/usr/bin/env python3
"""Writes harness/props.json: which harnesses decide which property, within which bounds."""
import json,os
P={}
def prop(id,outside,*hs,assume=()):
    P[id]={"harness":list(hs),"outside":outside,"assumptions":list(assume)}
def h(fn,bounds={},thorough={},reach=(),time=90,**kw):
    d={"fn":fn,"bounds":bounds,"thorough":thorough,"reach":list(reach),"time":time}
    d.update(kw); return d
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'harness_table.py')).read())
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'../harness/props.json')
json.dump(P,open(out,'w'),indent=1)
open(out,'a').write('\n')
