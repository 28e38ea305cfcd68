import sys, os, random, math, tempfile
import numpy as np
import jajapy as ja
def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg); os._exit(1)

m=ja.createCTMC([(0,1,1.0),(1,0,3.0)],['a','b'],0)
a=['init',1.0,'a',.5,'b',.25,'a']; b=['init',.5,'a',.1,'b']
x=m.logLikelihood(ja.Set([a,b,a],[1,1,2],4)); y=m.logLikelihood(ja.Set([a,b],[3,1],4))
check(abs(x-y)<1e-9,(x,y))

print("ok")
sys.stdout.flush(); os._exit(0)
