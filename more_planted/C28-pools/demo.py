import sys, os, random, math, tempfile
import numpy as np
import jajapy as ja
def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg); os._exit(1)

import multiprocessing, time
m=ja.createMC([(0,1,.3),(0,0,.7),(1,0,.5),(1,1,.5)],['a','b'],0)
ja.BW().fit(ja.Set([['init','a','b','a']],[1],0),initial_model=m,max_it=2,verbose=0,stormpy_output=False,processes=2)
for _ in range(60):
    if not multiprocessing.active_children(): break
    time.sleep(.1)
n=len(multiprocessing.active_children())
for c in multiprocessing.active_children(): c.terminate()
check(n==0,n)

print("ok")
sys.stdout.flush(); os._exit(0)
