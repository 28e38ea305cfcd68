import sys, os, random, math, tempfile
import numpy as np
import jajapy as ja
def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg); os._exit(1)

from jajapy.mdp.Active_BW_MDP import Active_BW_MDP
m=ja.createMDP([(0,'x',1,1.0),(0,'y',1,1.0),(1,'x',1,1.0),(1,'y',1,1.0)],['a','b'],0)
random.seed(1); np.random.seed(1)
s=ja.Set([['init','x','a','x','b'],['init','x','a','y','b']],[500,1],1)
n0=[0,0]
orig=type(m).run
def run(self,*a,**k):
    t=orig(self,*a,**k)
    n0[t[3]=='y']+=1
    return t
type(m).run=run
Active_BW_MDP().fit(s,m,0,1,100,2,1,initial_model=ja.createMDP([(0,'x',1,1.0),(0,'y',1,1.0),(1,'x',1,1.0),(1,'y',1,1.0)],['a','b'],0),max_it=1,verbose=0,stormpy_output=False,processes=1)
check(n0[1]>70,n0)

print("ok")
sys.stdout.flush(); os._exit(0)
