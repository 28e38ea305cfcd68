import sys, os, random, math, tempfile
import numpy as np
import jajapy as ja
def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg); os._exit(1)

random.seed(3); np.random.seed(3)
m=ja.createMC([(0,1,.5),(0,0,.5),(1,0,.5),(1,1,.5)],['a','b'],[.5,.5])
s=m.generateSet(600,7)
t=[tuple(x) for x in s.sequences]
check(len(set(t))==len(t),(len(set(t)),len(t)))

print("ok")
sys.stdout.flush(); os._exit(0)
