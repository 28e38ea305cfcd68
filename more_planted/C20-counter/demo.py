import sys, os, random, math, tempfile
import numpy as np
import jajapy as ja
def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg); os._exit(1)

# after x: y always leads to b in state u1 and always to a in state u2; many other actions dilute the frequencies
seqs=[];tm=[]
def add(t,n): seqs.append(t); tm.append(n)
add(['init','x','a','y','b'],40); add(['init','x','a','z','d'],2000)
add(['init','w','a','y','c'],40); add(['init','w','a','z','d'],2000)
m=ja.IOAlergia().fit(ja.Set(seqs,tm,1),.05,stormpy_output=False)
i=m.labelling.index('init')
x=np.argmax(m.matrix[i,m.actions.index('x')]); w=np.argmax(m.matrix[i,m.actions.index('w')])
check(x!=w,'states of different behaviour merged')

print("ok")
sys.stdout.flush(); os._exit(0)
