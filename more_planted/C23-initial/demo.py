import sys, os, random, math, tempfile
import numpy as np
import jajapy as ja
def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg); os._exit(1)

from jajapy.pctmc.PCTMC import synchronousCompositionPCTMCs as comp
m1=ja.createPCTMC([(0,1,'x'),(1,2,3.0),(2,1,2.0)],['a','b','c'],['x'],1,{'x':1.0})
m2=ja.createPCTMC([(0,1,'y'),(1,2,5.0),(2,1,1.0)],['u','v','w'],['y'],0,{'y':1.0})
m=comp([m1,m2])
check(len(m.initial_state)==m.nb_states,(len(m.initial_state),m.nb_states))

print("ok")
sys.stdout.flush(); os._exit(0)
