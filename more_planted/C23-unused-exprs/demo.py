import sys, os, random, math, tempfile
import numpy as np
import jajapy as ja
def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg); os._exit(1)

from jajapy.pctmc.PCTMC import synchronousCompositionPCTMCs as comp
def mk(tag,n,seed,par):
    r=random.Random(seed)
    return [(i,j,(repr(round(r.uniform(.1,9),3))+('*'+r.choice('xy') if par else ''))) for i in range(n) for j in range(n) if i==j or (j!=0 and r.random()<.5)]
bad=[]
for k in range(40):
    ta,tb=mk('a',3,k,True),mk('b',3,1000+k,True)
    try:
        a=ja.createPCTMC(ta,['a0','a1','a2'],['x','y'],0,{'x':1.0,'y':2.})
        b=ja.createPCTMC(tb,['b0','b1','b2'],['x','y'],1,{'x':1.,'y':2.})
    except IndexError: continue
    try: m=comp([a,b])
    except Exception as e: bad.append((k,e)); continue
    A={(i,j):float(eval(v,{'x':1.0,'y':2.})) for i,j,v in ta}; Bm={(i,j):float(eval(v,{'x':1.0,'y':2.})) for i,j,v in tb}
    L=m.labelling
    for s in range(m.nb_states):
        for t in range(m.nb_states):
            if 'init' in (L[s],L[t]): continue
            (p,q),(u,v)=[tuple(int(z[1:]) for z in l.split(',')) for l in (L[s],L[t])]
            w=(A.get((p,u),0) if q==v else 0)+(Bm.get((q,v),0) if p==u else 0)
            if abs(float(m.transitionValue(s,t))-w)>1e-6: bad.append((k,s,t))
check(not bad,bad[:3])

print("ok")
sys.stdout.flush(); os._exit(0)
