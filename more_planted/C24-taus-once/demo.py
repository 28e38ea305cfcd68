import sys, os, random, math, tempfile
import numpy as np
import jajapy as ja
def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg); os._exit(1)

mk=lambda: ja.createPCTMC([(0,1,'x'),(0,0,'y'),(0,2,'z'),(1,0,1.0),(2,0,3.0)],['a','b','b'],['x','y','z'],0,{'x':1.0,'y':2.0,'z':.5})
s=lambda: ja.Set([['init',1.0,'a',.5,'b',.25,'a'],['init',.5,'a',.3,'a',.1,'b',.2,'a']],[3,1],4)
k=dict(epsilon=-1e9,verbose=0,stormpy_output=False,processes=1,update_constant=False)
a=mk(); ja.BW().fit(s(),initial_model=a,max_it=2,**k)
b=mk(); ja.BW().fit(s(),initial_model=b,max_it=1,**k); ja.BW().fit(s(),initial_model=b,max_it=1,**k)
check(all(abs(a.parameterValue(p)-b.parameterValue(p))<1e-7 for p in 'xyz'),(a.parameter_values,b.parameter_values))

print("ok")
sys.stdout.flush(); os._exit(0)
