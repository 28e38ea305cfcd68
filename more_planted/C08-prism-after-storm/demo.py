import sys, os, random, math, tempfile
import numpy as np
import jajapy as ja
def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg); os._exit(1)

m=ja.createMC([(0,1,.5),(0,0,.5),(1,0,.5),(1,1,.5)],['a','b'],0)
d=tempfile.mkdtemp(); p=os.path.join(d,'m.sm')
ja.BW().fit(ja.Set([['init','a','b','a']],[1],0),initial_model=m,max_it=2,verbose=0,stormpy_output=True,output_file_prism=p,processes=1)
ok=os.path.exists(p)
import shutil; shutil.rmtree(d)
check(ok,'no file')

print("ok")
sys.stdout.flush(); os._exit(0)
