import sys, os, random, math, tempfile
import numpy as np
import jajapy as ja
def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg); os._exit(1)

bad=0
for k in range(20):
    m=ja.CTMC_random(3,['a','b'],4,4,sseed=k)
    bad+=any(abs(1/m.e(s)-4)>1e-6 for s in range(3))
check(bad==0,bad)

print("ok")
sys.stdout.flush(); os._exit(0)
