import sys, os, random, math, tempfile
import numpy as np
import jajapy as ja
def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg); os._exit(1)

m=ja.createMDP([(0,'x',1,1.0),(1,'x',0,.5),(1,'y',1,1.0),(1,'x',1,.5)],['a','b'],0)
s=ja.Set([['init','x','a','x','b','y','b','x','a']],[2],1)
h=ja.BW().fit(s,initial_model=m,max_it=2,verbose=0,stormpy_output=False,processes=1)
check(not np.isnan(h.matrix).any(),h.matrix)

print("ok")
sys.stdout.flush(); os._exit(0)
