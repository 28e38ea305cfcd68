import sys, os, random, math, tempfile
import numpy as np
import jajapy as ja
def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg); os._exit(1)

from jajapy.mdp.MDP import MDP
P=np.zeros((3,2,3)); P[2,:,0]=1; P[0,0]=[.5,.5,0]; P[0,1]=[.2,.8,0]; P[1,0]=[.3,.7,0]; P[1,1]=[.6,.4,0]
s=lambda: ja.Set([['init','x','a','x','b','y','b','x','a'],['init','y','a','x','a','x','b']],[2,1],1)
f=lambda m: ja.BW().fit(s(),initial_model=m,max_it=2,verbose=0,stormpy_output=False,processes=1).matrix
x=f(MDP(P.copy(),['a','b','init'],['x','y'])); y=f(MDP(P[:,::-1].copy(),['a','b','init'],['y','x']))
check(np.allclose(x,y[:,::-1]),(x,y))

print("ok")
sys.stdout.flush(); os._exit(0)
