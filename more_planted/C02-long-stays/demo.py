import sys, os, random, math, tempfile
import numpy as np
import jajapy as ja
def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg); os._exit(1)

m=ja.createCTMC([(0,1,1.0),(1,0,3.0)],['a','b'],0)
s=ja.Set([['init',1.0,'a',60.0,'b',.25,'a'],['init',.1,'a',.2,'b']],[1,1],4)
w=((-1)+(-60)+math.log(3)-.75 + -.1-.2)/2
check(abs(m.logLikelihood(s)-w)<1e-8,(m.logLikelihood(s),w))

print("ok")
sys.stdout.flush(); os._exit(0)
