import sys, os, random, math, tempfile
import numpy as np
import jajapy as ja
def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg); os._exit(1)

import jajapy.base.Model as bm
m=ja.createMDP([(0,'x',1,.25),(0,'x',0,.75),(1,'x',0,1.0)],['a','b'],0)
s=ja.Set([['init','x','a','x','b'],['init','x','a','x','a']],[1,7],1)
a=m.logLikelihood(s); bm.platform='darwin'; b=m.logLikelihood(s)
check(abs(a-b)<1e-9,(a,b))

print("ok")
sys.stdout.flush(); os._exit(0)
