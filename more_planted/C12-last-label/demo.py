import sys, os, random, math, tempfile
import numpy as np
import jajapy as ja
def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg); os._exit(1)

s=ja.Set([['init',1.0,'a',2.0,'b']],[1],4)
check(sorted(s.getAlphabet())==['a','b','init'],s.getAlphabet())

print("ok")
sys.stdout.flush(); os._exit(0)
