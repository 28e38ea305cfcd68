"""C11: a saved Set read back is the same Set."""
import numpy as np
from ..core import Check, family
from .. import gen, snap
from .c10 import nasty


def any_set(rng, empty=True):
    kd = str(rng.choice(["MC", "MDP", "CTMC", "CTMCu", "HMM", "GoHMM"]))
    timed = kd == "CTMC"
    k = "CTMC" if kd == "CTMCu" else kd
    sp = gen.g_gohmm(rng) if k == "GoHMM" else gen.GENS[k](rng, odd=bool(rng.integers(2)))
    sp = nasty(rng, sp) if rng.random() < .5 else sp
    n = int(rng.integers(1, 12))
    lmin = 0 if k not in ("HMM", "GoHMM") else 1
    seqs, mult = gen.traces(rng, sp, n, lmin, 8, timed, maxmult=int(rng.choice([1, 4, 4, 4, 100000] if rng.random() < .6 else [1, 4, 300])))
    t = gen.set_type(sp, timed)
    if rng.random() < .4 and t in (0, 1):
        twins(rng, seqs, mult)
    if empty and rng.random() < .05:
        seqs, mult = [], []
    return kd, t, seqs, mult


def twins(rng, seqs, mult):
    """Different traces that look the same once their labels are put together."""
    for x in list(seqs)[:4]:
        y = [str(o) for o in x]
        if len(y) < 2:
            continue
        i = int(rng.integers(len(y) - 1))
        j = int(rng.integers(3))
        if j == 0 and len(y[i]) > 1:
            y[i], y[i + 1] = y[i][:-1], y[i][-1] + y[i + 1]
        elif j == 1 and len(y[i + 1]) > 1:
            y[i], y[i + 1] = y[i] + y[i + 1][0], y[i + 1][1:]
        else:
            y[i], y[i + 1] = y[i + 1], y[i]
        if y not in seqs:
            seqs.append(y)
            mult.append(int(rng.integers(1, 4)))


@family("roundtrip", weight=4, quick=150)
def roundtrip(ctx, rng):
    import jajapy as ja
    kd, t, seqs, mult = any_set(rng)
    mult = gen.huge(rng, mult)
    s = gen.mkset(seqs, mult, t)
    f = ctx.tmp("s.txt")
    if rng.random() < .3:
        open(f, "w").write("3\n['x']\n4\n" * 1000)
    before = snap.tset(s)
    ctx.call(s.save, f)
    ctx.check(snap.tset(s) == before, "save-changes-set", str(seqs))
    l = ctx.call(ja.loadSet, f)
    ctx.case((kd, seqs, mult), {"kind": kd, "sequences": seqs[:3], "times": mult[:3]})
    ctx.count("kind_" + kd)
    d = "%s %s x %s" % (kd, seqs, mult)
    ctx.check(l.type == t, "type", "type %s read back as %s; %s" % (t, l.type, d))
    ctx.check([list(x) for x in l.sequences] == seqs, "sequences", "read back %s; %s" % (l.sequences, d))
    ctx.check(all(type(a) is type(b) or (isinstance(a, float) and isinstance(b, float)) for x, y in zip(l.sequences, seqs) for a, b in zip(x, y)), "element types", d)
    ctx.check([int(x) for x in l.times] == mult, "times", "read back %s; %s" % (l.times, d))
    ctx.check(ctx.call(l.isEqual, s) and ctx.call(s.isEqual, l), "isEqual", d)
    g = ctx.tmp("s2.txt")
    ctx.call(l.save, g)
    ctx.check(open(f).read() == open(g).read(), "resave", d)


@family("generated", weight=1, quick=20)
def generated(ctx, rng):
    """Sets produced by the library itself (numpy floats in the traces)."""
    import jajapy as ja
    kd = str(rng.choice(["MC", "MDP", "CTMC", "HMM", "GoHMM", "PCTMC"]))
    sp = gen.GENS[kd](rng)
    if kd == "PCTMC" and not (gen.rates_of(sp).sum(axis=1) > 0).all():
        return
    m = ctx.call(gen.build, sp)
    n, l = int(rng.integers(1, 8)), int(rng.integers(1, 6))
    timed = kd in ("CTMC", "PCTMC") and rng.random() < .7
    if kd == "MDP":
        s = ctx.call(m.generateSet, n, l, ja.UniformScheduler(list(m.actions)))
    elif timed:
        s = ctx.call(m.generateSet, n, l, timed=True)
    else:
        s = ctx.call(m.generateSet, n, l)
    f = ctx.tmp("g.txt")
    ctx.call(s.save, f)
    r = ctx.call(ja.loadSet, f)
    ctx.case((kd, repr(s.sequences)), {"kind": kd, "sequences": s.sequences[:2]})
    ctx.check(r.type == s.type and r.sequences == s.sequences and list(r.times) == list(s.times), "differs", "%s: %s read back as %s" % (kd, s.sequences, r.sequences))
    ctx.check(r.isEqual(s), "isEqual", str(s.sequences))


@family("after-operations", weight=1, quick=25)
def after(ctx, rng):
    """Sets that were merged, extended from empty, sorted, then saved."""
    import jajapy as ja
    from jajapy.base.Set import Set
    kd, t, seqs, mult = any_set(rng, empty=False)
    s = ctx.call(Set, [], t=t) if rng.random() < .3 else gen.mkset(seqs[:2], mult[:2], t)
    cnt = {}
    for x, k in zip(s.sequences, s.times):
        cnt[repr(x)] = cnt.get(repr(x), 0) + int(k)
    for _ in range(int(rng.integers(1, 4))):
        i = rng.choice(len(seqs), int(rng.integers(1, len(seqs) + 1)), replace=False)
        ctx.call(s.addSet, gen.mkset([seqs[j] for j in i], [mult[j] for j in i], t))
        for j in i:
            cnt[repr(seqs[j])] = cnt.get(repr(seqs[j]), 0) + mult[j]
        if rng.random() < .4:
            ctx.call(s.sort)
    f = ctx.tmp("a.txt")
    ctx.call(s.save, f)
    r = ctx.call(ja.loadSet, f)
    got = {}
    for x, k in zip(r.sequences, r.times):
        got[repr(x)] = got.get(repr(x), 0) + int(k)
    ctx.case((kd, sorted(cnt.items())), {"kind": kd, "content": sorted(cnt.items())[:3]})
    ctx.check(got == cnt and r.type == t, "content", "expected %s, read back %s (type %s)" % (cnt, got, r.type))


CHECK = Check("C11", "random training sets of every type (odd labels, extreme numbers, huge multiplicities), sets generated by the library and sets "
              "produced by sequences of operations; a case is one set saved and read back, distinct by content", [roundtrip, generated, after],
              quick=15, thorough=150, assumptions=["traces are lists of strings and finite floats"])
