import sys, os, random, math, tempfile
import numpy as np
import jajapy as ja
def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg); os._exit(1)

a=ja.GoHMM_random(3,2,sseed=0); b=ja.GoHMM_random(3,2,sseed=0)
check((a.output==b.output).all() and (a.matrix==b.matrix).all(),'different models')

print("ok")
sys.stdout.flush(); os._exit(0)
