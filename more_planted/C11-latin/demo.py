import sys, os, random, math, tempfile
import numpy as np
import jajapy as ja
def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg); os._exit(1)

s=ja.Set([['a','→b'],['a','b']],[1,2],0)
d=tempfile.mkdtemp(); p=os.path.join(d,'m.txt'); s.save(p); t=ja.loadSet(p)
import shutil; shutil.rmtree(d)
check(t.sequences==s.sequences,t.sequences)

print("ok")
sys.stdout.flush(); os._exit(0)
