import sys, os, random, math, tempfile
import numpy as np
import jajapy as ja
def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg); os._exit(1)

m=ja.createMDP([(0,'x',0,1.0)],['a'],0,' my model ')
d=tempfile.mkdtemp(); p=os.path.join(d,'m.txt'); m.save(p); n=ja.loadMDP(p)
import shutil; shutil.rmtree(d)
check(n.name==m.name,repr(n.name))

print("ok")
sys.stdout.flush(); os._exit(0)
