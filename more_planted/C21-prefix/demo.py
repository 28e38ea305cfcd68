import sys, os, random, math, tempfile
import numpy as np
import jajapy as ja
def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg); os._exit(1)

m=ja.createPCTMC([(0,1,'k10'),(1,0,'k1')],['a','b'],['k1','k10'],0,{'k10':1.0})
check(m.involvedParameters(0)==['k10'],m.involvedParameters(0))
check(m.isInstantiated(0),0)

print("ok")
sys.stdout.flush(); os._exit(0)
