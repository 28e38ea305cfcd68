import sys, os, random, math, tempfile
import numpy as np
import jajapy as ja
def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg); os._exit(1)

mk=lambda: ja.createCTMC([(0,1,1.0),(0,0,2.),(1,0,3.0)],['a','b'],0)
s=ja.Set([['init',1.0,'a',.5,'b',.25,'a']],[1],4)
fp=np.full((3,3),False); fp[1,0]=True
k=dict(max_it=3,verbose=0,stormpy_output=False,processes=1)
b=ja.BW(); b.fit(s,initial_model=mk(),fixed_parameters=fp,**k)
x=b.fit(s,initial_model=mk(),**k).matrix; y=ja.BW().fit(s,initial_model=mk(),**k).matrix
check(np.allclose(x,y),(x,y))

print("ok")
sys.stdout.flush(); os._exit(0)
