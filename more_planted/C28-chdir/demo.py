import sys, os, random, math, tempfile
import numpy as np
import jajapy as ja
def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg); os._exit(1)

d=tempfile.mkdtemp(); p=os.path.join(d,'m.sm'); open(p,'w').write('dtmc\nmodule m oops')
c=os.getcwd()
try: ja.loadPrism(p)
except Exception: pass
n=os.getcwd(); os.chdir(c)
import shutil; shutil.rmtree(d)
check(n==c,n)

print("ok")
sys.stdout.flush(); os._exit(0)
