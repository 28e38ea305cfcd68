import sys, os, random, math, tempfile
import numpy as np
import jajapy as ja
def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg); os._exit(1)

s=ja.Set([['a',"b'c"],['a','b']],[1,2],0)
d=tempfile.mkdtemp(); p=os.path.join(d,'m.txt'); s.save(p)
try:
    ok=ja.loadSet(p).isEqual(s)
except Exception as e:
    ok=False
import shutil; shutil.rmtree(d)
check(ok,'different')

print("ok")
sys.stdout.flush(); os._exit(0)
