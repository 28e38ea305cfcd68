import sys, os, random, math, tempfile
import numpy as np
import jajapy as ja
def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg); os._exit(1)

m=ja.createPCTMC([(0,1,'x'),(1,0,1.0)],['a','b'],['x'],0,{'x':1e-7})
m.instantiate(['x'],[5e-7])
check(m.parameterValue('x')==5e-7,m.parameterValue('x'))

print("ok")
sys.stdout.flush(); os._exit(0)
