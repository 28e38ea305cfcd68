import sys, os, random, math, tempfile
import numpy as np
import jajapy as ja
def check(ok, msg):
    if not ok:
        print("DEMO FAILS:", msg); os._exit(1)

import signal
def late(*_):
    print("DEMO FAILS: does not end"); os._exit(1)
signal.signal(signal.SIGALRM, late); signal.alarm(100)
bad=0
for k in range(20):
    random.seed(k)
    seqs=[['init']+[random.choice('abcd') for _ in range(random.randint(1,6))] for _ in range(4)]
    m=ja.Alergia().fit(ja.Set(seqs),.1,stormpy_output=False)
    for t in seqs:
        cur={m.labelling.index('init')}
        for o in t[1:]:
            cur={j for i in cur for j in np.flatnonzero(m.matrix[i]) if m.labelling[j]==o}
        bad+=not cur
check(bad==0,bad)

print("ok")
sys.stdout.flush(); os._exit(0)
