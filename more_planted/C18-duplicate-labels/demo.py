import sys, os, random, math, tempfile
import numpy as np
import jajapy as ja
def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg); os._exit(1)

m=ja.createHMM([(0,0,1.0)],[(0,'a',.99999),(0,'b',.00001)],0)
check(sorted(m.getAlphabet(0))==['a','b'],m.getAlphabet(0))

print("ok")
sys.stdout.flush(); os._exit(0)
