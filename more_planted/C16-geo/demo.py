import sys, os, random, math, tempfile
import numpy as np
import jajapy as ja
def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg); os._exit(1)

m=ja.createPCTMC([(0,1,'x'),(1,0,1.0)],['a','b'],['x'],0,{'x':1.0})
s=m.generateSet(400,.5,'geo',6)
n=sum(t*(len(q)>9) for q,t in zip(s.sequences,s.times))
check(n>20,n)

print("ok")
sys.stdout.flush(); os._exit(0)
