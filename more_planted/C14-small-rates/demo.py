import sys, os, random, math, tempfile
import numpy as np
import jajapy as ja
def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg); os._exit(1)

m=ja.createCTMC([(0,1,1e-7),(0,0,1e-7),(1,0,2.0)],['a','b'],0)
d=tempfile.mkdtemp(); p=os.path.join(d,'m.sm'); m.savePrism(p)
try:
    n=ja.loadPrism(p); x=sum(1 for r in n.matrix.flatten() if 0<r<1e-5)
except Exception: x=-1
import shutil; shutil.rmtree(d)
check(x==2,x)

print("ok")
sys.stdout.flush(); os._exit(0)
