import sys, os, random, math, tempfile
import numpy as np
import jajapy as ja
def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg); os._exit(1)

mk=lambda: ja.createCTMC([(0,1,1.0),(1,0,3.0)],['a','b'],0,synchronous_transitions=[(0,'s',1,2.0)])
m2=ja.createCTMC([(0,1,1.0),(1,0,3.0)],['c','d'],0,synchronous_transitions=[(0,'s',0,2.0)])
m=ja.synchronousCompositionCTMCs(mk(),m2)
i,j=m.labelling.index('a,c'),m.labelling.index('b,c')
check(abs(float(m.transitionValue(i,j))-5.0)<1e-9,m.transitionValue(i,j))

print("ok")
sys.stdout.flush(); os._exit(0)
