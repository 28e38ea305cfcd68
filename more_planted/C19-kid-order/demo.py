import sys, os, random, math, tempfile
import numpy as np
import jajapy as ja
def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg); os._exit(1)

def ref(seqs,alpha):
    # ALERGIA, children in alphabetical order
    class N:
        def __init__(s,l): s.l=l; s.k={}
    root=N('')
    for t in seqs:
        n=root
        for o in t:
            if o not in n.k: n.k[o]=[N(o),0]
            n.k[o][1]+=1; n=n.k[o][0]
    par={}
    al=sorted({o for t in seqs for o in t})
    def comp(a,b):
        if a is None or b is None: return True
        if a.l!=b.l: return False
        na=sum(c for _,c in a.k.values()); nb=sum(c for _,c in b.k.values())
        if na*nb==0: return True
        for o in al:
            fa=a.k[o][1] if o in a.k else 0; fb=b.k[o][1] if o in b.k else 0
            if not abs(fa/na-fb/nb)<(math.sqrt(1/na)+math.sqrt(1/nb))*math.sqrt(.5*math.log(2/alpha)): return False
        return all(comp(a.k[o][0] if o in a.k else None,b.k[o][0] if o in b.k else None) for o in al)
    def fold(a,b):
        for o in sorted(b.k):
            k,c=b.k[o]
            if o in a.k:
                a.k[o][1]+=c; fold(a.k[o][0],k)
            else: a.k[o]=[k,c]
    red=[root]
    while True:
        blue=[]
        for r in red:
            for o in sorted(r.k):
                k=r.k[o][0]
                if k not in red and k not in blue: blue.append(k)
        if not blue: break
        b=blue[0]
        for r in red:
            if comp(b,r):
                for x in red:
                    for o in x.k:
                        if x.k[o][0] is b: x.k[o][0]=r
                fold(r,b); break
        else: red.append(b)
    return len(red)
bad=[]
for k in range(300):
    random.seed(k)
    seqs=[['init']+[random.choice('abc') for _ in range(random.randint(1,6))] for _ in range(random.choice([6,12,25]))]
    m=ja.Alergia().fit(ja.Set(seqs),.5,stormpy_output=False)
    if ref(seqs,.5)-1!=m.nb_states: bad.append((k,ref(seqs,.5),m.nb_states))
check(not bad,bad[:4])

print("ok")
sys.stdout.flush(); os._exit(0)
