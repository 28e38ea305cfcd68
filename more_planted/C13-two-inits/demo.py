import sys, os, random, math, tempfile
import numpy as np
import jajapy as ja
def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg); os._exit(1)

from jajapy.mc.MC import MC
m=MC(np.array([[.5,.5,0,0],[1,0,0,0],[1,0,0,0],[0,1.,0,0]]),['a','b','init','init'])
s=m.toStormpy()
check(sorted(s.initial_states)==[2,3],list(s.initial_states))

print("ok")
sys.stdout.flush(); os._exit(0)
