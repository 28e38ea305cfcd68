import sys, os, random, math, tempfile
import numpy as np
import jajapy as ja
def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg); os._exit(1)

from jajapy.mdp.Scheduler import FiniteMemoryScheduler
m=ja.createMDP([(0,'x',1,1.0),(0,'y',1,1.0),(1,'x',1,1.0),(1,'y',1,1.0)],['a','b'],0)
s=FiniteMemoryScheduler({0:[[1.0],['x']],1:[[1.0],['y']]},{'a':[1,1],'b':[1,1],'init':[0,0]})
m.run(3,s); t=m.run(1,s,current=0)
check(t==['a','x','b'],t)

print("ok")
sys.stdout.flush(); os._exit(0)
