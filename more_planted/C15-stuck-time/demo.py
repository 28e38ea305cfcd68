import sys, os, random, math, tempfile
import numpy as np
import jajapy as ja
def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg); os._exit(1)

m=ja.createCTMC([(0,1,1e8),(1,0,1e8)],['a','b'],0)
t=m.run(200,timed=True)
check(min(t[3::2])>0, t[:9])

print("ok")
sys.stdout.flush(); os._exit(0)
