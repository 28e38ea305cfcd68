import sys, os, random, math, tempfile
import numpy as np
import jajapy as ja
def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg); os._exit(1)

m=ja.createPCTMC([(0,1,'x'),(0,0,1.0),(1,0,1.0)],['a','b'],['x'],0,{'x':0.001})
m.run(30); m.instantiate(['x'],[1000.0])
t=m.run(200)
check(t.count('b')>80,t.count('b'))

print("ok")
sys.stdout.flush(); os._exit(0)
