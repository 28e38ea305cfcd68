import sys, os, random, math, tempfile
import numpy as np
import jajapy as ja
def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg); os._exit(1)

m=ja.createHMM([(0,0,1.0),(1,1,1.0)],[(0,'a',1.0),(1,'b',1.0)],[.9,.1])
s=ja.Set([['a','a'],['b','b']],[9,1],0)
before=m.logLikelihood(s)
h=ja.BW().fit(s,initial_model=m,max_it=1,verbose=0,stormpy_output=False,processes=1)
check(h.logLikelihood(s)>=before-1e-9,(before,h.logLikelihood(s)))

print("ok")
sys.stdout.flush(); os._exit(0)
