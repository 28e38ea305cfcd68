import sys, os, random, math, tempfile
import numpy as np
import jajapy as ja
def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg); os._exit(1)

from jajapy.hmm.HMM import HMM
A=np.array([[.5,.5],[.3,.7]])
mk=lambda o: HMM(A.copy(),np.array([[.2,.8],[.6,.4]]) if o==['a','b'] else np.array([[.8,.2],[.4,.6]]),o,[.5,.5])
s=lambda: ja.Set([['a','b','b'],['b','a']],[1,2],0)
k=dict(max_it=2,verbose=0,stormpy_output=False,processes=1)
b=ja.BW(); b.fit(s(),initial_model=mk(['a','b']),**k); x=b.fit(s(),initial_model=mk(['b','a']),**k)
y=ja.BW().fit(s(),initial_model=mk(['b','a']),**k)
check(np.allclose(x.output,y.output),(x.output,y.output))

print("ok")
sys.stdout.flush(); os._exit(0)
