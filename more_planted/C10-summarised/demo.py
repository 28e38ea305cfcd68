import sys, os, random, math, tempfile
import numpy as np
import jajapy as ja
def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg); os._exit(1)

m=ja.MC_random(34,['a','b','c'],sseed=1)
d=tempfile.mkdtemp()
m.save(d+'/m.txt')
try:
    n=ja.loadMC(d+'/m.txt'); ok=n.matrix.shape==m.matrix.shape and (n.matrix==m.matrix).all()
except Exception as e: ok=False; print(e)
import shutil; shutil.rmtree(d)
check(ok,'not the same model')

print("ok")
sys.stdout.flush(); os._exit(0)
