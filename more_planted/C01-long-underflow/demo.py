import sys, os, random, math, tempfile
import numpy as np
import jajapy as ja
def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg); os._exit(1)

m=ja.createHMM([(0,0,1.0)],[(0,'a',.5),(0,'b',.5)],0)
s=ja.Set([['a','b']*130],[1],0)
check(abs(m.logLikelihood(s)-260*math.log(.5))<1e-6, m.logLikelihood(s))
m2=ja.createMC([(0,1,.5),(0,0,.5),(1,0,.5),(1,1,.5)],['a','b'],0)
s=ja.Set([['init','a']+['b','a']*150],[1],0)
check(abs(m2.logLikelihood(s)-300*math.log(.5))<1e-6, m2.logLikelihood(s))

print("ok")
sys.stdout.flush(); os._exit(0)
