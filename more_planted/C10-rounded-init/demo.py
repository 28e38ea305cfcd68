import sys, os, random, math, tempfile
import numpy as np
import jajapy as ja
def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg); os._exit(1)

m=ja.createHMM([(0,0,1.0),(1,1,1.0)],[(0,'a',1.0),(1,'b',1.0)],[1/3,2/3])
d=tempfile.mkdtemp(); p=os.path.join(d,'m.txt'); m.save(p); n=ja.loadHMM(p)
import shutil; shutil.rmtree(d)
check((n.initial_state==m.initial_state).all(),n.initial_state)

print("ok")
sys.stdout.flush(); os._exit(0)
