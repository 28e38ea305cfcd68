import sys, os, random, math, tempfile
import numpy as np
import jajapy as ja
def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg); os._exit(1)

import importlib
am=importlib.import_module('jajapy.mdp.Active_BW_MDP')
asked=[]
orig=am.Pool
def pool(processes=None,*a,**k):
    asked.append(processes); return orig(2)
am.Pool=pool
m=ja.createMDP([(0,'x',1,.25),(0,'x',0,.75),(1,'x',0,1.0)],['a','b'],0)
am.Active_BW_MDP().fit(ja.Set([['init','x','a','x','b']],[1],1),m,0,1,2,2,1,initial_model=ja.createMDP([(0,'x',1,.5),(0,'x',0,.5),(1,'x',0,1.0)],['a','b'],0),max_it=1,verbose=0,stormpy_output=False,processes=2)
check(asked==[2],asked)

print("ok")
sys.stdout.flush(); os._exit(0)
