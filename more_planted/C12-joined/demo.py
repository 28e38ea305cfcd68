import sys, os, random, math, tempfile
import numpy as np
import jajapy as ja
def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg); os._exit(1)

s=ja.Set([['ab','c'],['a','bc']])
check(len(s.sequences)==2,s.sequences)

print("ok")
sys.stdout.flush(); os._exit(0)
