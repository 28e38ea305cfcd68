import sys, os, random, math, tempfile
import numpy as np
import jajapy as ja
def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg); os._exit(1)

rng=np.random.default_rng(0)
tr=[(0,1,'x'),(0,0,'x*y'),(0,2,1.0),(1,0,'y'),(2,0,3.0)]
for it in range(60):
    x,y=rng.uniform(.1,5,2)
    mk=lambda: ja.createPCTMC(list(tr),['a','b','c'],['x','y'],0,{'x':float(x),'y':float(y)})
    src=ja.createPCTMC(list(tr),['a','b','c'],['x','y'],0,{'x':float(rng.uniform(.1,5)),'y':float(rng.uniform(.1,5))})
    random.seed(it); np.random.seed(it)
    s=src.generateSet(5,4,timed=True)
    S=lambda: ja.Set([list(q) for q in s.sequences],list(s.times),4)
    prev=mk().logLikelihood(S())
    for k in range(1,4):
        m=mk(); ja.BW().fit(S(),initial_model=m,max_it=k,epsilon=-1e9,verbose=0,stormpy_output=False,processes=1,update_constant=False)
        v=m.logLikelihood(S())
        check(v>=prev-1e-7,(it,k,v,prev)); prev=v

print("ok")
sys.stdout.flush(); os._exit(0)
