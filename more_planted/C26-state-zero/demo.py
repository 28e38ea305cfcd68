import sys, os, random, math, tempfile
import numpy as np
import jajapy as ja
def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg); os._exit(1)

from jajapy.mdp.Scheduler import FiniteMemoryScheduler
s=FiniteMemoryScheduler({0:[[1.0],['x']],1:[[1.0],['y']]},{'a':[1,1]})
s.addObservation('a')
check(s.getProbability('x',0)==1.0,s.getProbability('x',0))

print("ok")
sys.stdout.flush(); os._exit(0)
