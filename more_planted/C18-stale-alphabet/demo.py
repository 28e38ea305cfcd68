import sys, os, random, math, tempfile
import numpy as np
import jajapy as ja
def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg); os._exit(1)

m=ja.createMC([(0,1,1.0),(1,0,1.0)],['a','b'],0)
m.updateLabelling(['a','c'])
check(sorted(m.getAlphabet())==['a','c','init'],m.getAlphabet())

print("ok")
sys.stdout.flush(); os._exit(0)
