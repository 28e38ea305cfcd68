import sys, os, random, math, tempfile
import numpy as np
import jajapy as ja
def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg); os._exit(1)

l=['a','b']
ja.MC_random(6,l,sseed=1)
a=ja.MC_random(6,l,sseed=3); b=ja.MC_random(6,['a','b'],sseed=3)
check(a.labelling==b.labelling,(a.labelling,b.labelling))

print("ok")
sys.stdout.flush(); os._exit(0)
