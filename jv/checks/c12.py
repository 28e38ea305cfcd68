"""C12: a Set behaves as a multiset of traces under every operation."""
import collections, copy
import numpy as np
from ..core import Check, family, short
from .. import gen, snap
from .c11 import any_set


def content(s):
    c = collections.Counter()
    for x, k in zip(s.sequences, s.times):
        c[repr(list(x))] += int(k)
    return c


def spell(l):
    """The traces of a list, counted (the list repeats the same objects)."""
    seen, n = {}, collections.Counter()
    for x in l:
        if id(x) not in seen:
            seen[id(x)] = repr(list(x))
        n[seen[id(x)]] += 1
    return n


def wellformed(ctx, s, d):
    ctx.check(len(s.sequences) == len(s.times), "length", "%d sequences, %d multiplicities; %s" % (len(s.sequences), len(s.times), d))
    ctx.check(all(float(k) == int(k) and k > 0 for k in s.times), "multiplicity", "%s; %s" % (list(s.times), d))
    r = [repr(list(x)) for x in s.sequences]
    ctx.check(len(set(r)) == len(r), "duplicates", "equal traces listed twice: %s; %s" % (r, d))


def queries(ctx, s, c, t, d):
    """Everything a Set answers, against the counter."""
    wellformed(ctx, s, d)
    ctx.check(content(s) == c, "content", "expected %s, got %s; %s" % (dict(c), dict(content(s)), d))
    l = ctx.call(s.to_list)
    ctx.check(spell(l) == c, "to_list", lambda: "%s; %s" % (short(l), d))
    seqs = [eval(x, {"__builtins__": {}}, {}) for x in c]
    if t in (0, 1, 4):
        step = 1 if t == 0 else 2
        obs = {o for x in seqs for o in x[::step]}
        got = ctx.call(s.getAlphabet)
        ctx.check(len(got) == len(obs) and set(got) == obs, "alphabet", "expected %s, got %s; %s" % (obs, got, d))
    else:
        ctx.check(list(ctx.call(s.getAlphabet)) == [], "alphabet", d)
    if t == 1:
        a, o = ctx.call(s.getActionsObservations)
        acts = {x for y in seqs for x in y[1::2]}
        ctx.check(len(a) == len(acts) and set(a) == acts and set(o) == obs and len(o) == len(obs), "actions", "expected %s, %s, got %s, %s; %s" % (acts, obs, a, o, d))


@family("history", weight=4, quick=80)
def history(ctx, rng):
    from jajapy.base.Set import Set
    kd, t, seqs, mult = any_set(rng, empty=False)
    if rng.random() < .3:
        s, c = ctx.call(Set, [], t=t), collections.Counter()
    elif rng.random() < .5:
        k = int(rng.integers(1, len(seqs) + 1))
        s, c = gen.mkset(seqs[:k], mult[:k], t), collections.Counter({repr(x): m for x, m in zip(seqs[:k], mult[:k])})
    else:
        l = [copy.deepcopy(seqs[int(i)]) for i in rng.integers(len(seqs), size=int(rng.integers(1, 15)))]
        s, c = ctx.call(Set, l, t=t), collections.Counter(repr(x) for x in l)
    ops = []
    others = []
    for _ in range(int(rng.integers(2, 10))):
        op = str(rng.choice(["add", "add", "add", "addself", "sort", "query", "reject", "equal", "reset" if rng.random() < .3 else "add"]))
        ops.append(op)
        d = "%s, operations %s on %s" % (kd, ops, seqs)
        if op == "add":
            i = rng.choice(len(seqs), int(rng.integers(1, len(seqs) + 1)), replace=False)
            m = [int(rng.integers(1, 6)) for _ in i]
            o = gen.mkset([seqs[j] for j in i], m, t)
            ctx.call(s.addSet, o)
            others.append((o, snap.tset(o)))
            for j, k in zip(i, m):
                c[repr(seqs[j])] += k
        elif op == "addself":
            if rng.random() < .4:
                ctx.call(s.addSet, s)
                c += c
            else:
                ctx.call(s.addSet, ctx.call(Set, [], t=t))
        elif op == "reset":
            l = [copy.deepcopy(seqs[int(i)]) for i in rng.integers(len(seqs), size=int(rng.integers(1, 9)))]
            b = repr(l)
            ctx.call(s.setFromList, l)
            ctx.check(repr(l) == b, "argument-changed", b)
            c = collections.Counter(repr(x) for x in l)
        elif op == "sort" and len(s.sequences):
            ctx.call(s.sort)
            x = [list(y) for y in s.sequences]
            ctx.check(x == sorted(x), "sort", "not sorted: %s; %s" % (x, d))
        elif op == "query":
            queries(ctx, s, c, t, d)
        elif op == "reject":
            t2 = int(rng.choice([x for x in (0, 1, 3, 4) if x != t]))
            o = Set([["x", "y", "z"]], [1], t2)
            ctx.check(ctx.refuses(s.addSet, o), "type-mismatch", "a set of type %s accepted one of type %s; %s" % (t, t2, d))
        elif op == "equal":
            o = shuffled(rng, c, t)
            ctx.check(ctx.call(s.isEqual, o) is True and ctx.call(o.isEqual, s) is True, "isEqual", "not equal to the same multiset; " + d)
        wellformed(ctx, s, d)
        for o, b in others:
            ctx.check(snap.tset(o) == b, "operand-changed", "a set added earlier became %s; %s" % (snap.tset(o), d))
    queries(ctx, s, c, t, "%s, operations %s on %s" % (kd, ops, seqs))
    ctx.count("operations", len(ops))
    ctx.case((kd, seqs, tuple(ops), tuple(sorted(c.items()))), {"kind": kd, "operations": ops, "content": dict(list(c.items())[:3])})


def shuffled(rng, c, t):
    ks = list(c)
    rng.shuffle(ks)
    return gen.mkset([eval(str(x), {"__builtins__": {}}, {}) for x in ks], [c[str(x)] for x in ks], t)


@family("equality", weight=2, quick=60)
def equality(ctx, rng):
    """isEqual is true of equal multisets and of nothing else."""
    kd, t, seqs, mult = any_set(rng, empty=False)
    mult = gen.huge(rng, mult)
    a = gen.mkset(seqs, mult, t)
    b = shuffled(rng, collections.Counter({repr(x): m for x, m in zip(seqs, mult)}), t)
    ctx.check(a.isEqual(b) and b.isEqual(a) and a.isEqual(a), "equal", "%s x %s" % (seqs, mult))
    s2, m2, t2 = copy.deepcopy(seqs), list(mult), t
    how = str(rng.choice(["mult", "drop", "extra", "change", "type", "swap", "length"]))
    i = int(rng.integers(len(seqs)))
    if how == "mult":
        m2[i] += int(rng.choice([1, 2, 7]))
    elif how == "drop":
        if len(s2) < 2:
            return
        k = m2[i]
        del s2[i], m2[i]
        m2[0] += k  # same total
    elif how == "extra":
        s2.append(["new", "x", "new"] if t != 3 else [[123.5] * len(seqs[0][0])])
        m2.append(1)
        if m2[i] > 1:
            m2[i] -= 1
    elif how == "change":
        if t == 3:
            s2[i][0][0] += 1e-9 * max(1, abs(s2[i][0][0]))
        elif t == 4 and len(s2[i]) > 1:
            s2[i][1] = float(np.nextafter(s2[i][1], 1e9))
        else:
            s2[i][-1] = s2[i][-1] + "'"
        if s2[i] in seqs:
            return
    elif how == "type":
        t2 = int(rng.choice([x for x in (0, 1, 3, 4) if x != t]))
    elif how == "swap":
        j = int(rng.integers(len(seqs)))
        if m2[i] == m2[j]:
            return
        m2[i], m2[j] = m2[j], m2[i]
    elif how == "length":
        s2[i] = s2[i] + (["x"] if t == 0 else ["A", "x"] if t == 1 else [1.0, "x"] if t == 4 else [s2[i][0]])
        if s2[i] in seqs:
            return
    o = gen.mkset(s2, m2, t2)
    ctx.case((kd, seqs, mult, how, i), {"difference": how, "sequences": seqs[:2]})
    ctx.check(not ctx.call(a.isEqual, o) and not ctx.call(o.isEqual, a), "not-equal", "sets differing by '%s' reported equal: %s x %s and %s x %s" % (how, seqs, mult, s2, m2))


@family("from-list", weight=2, quick=40)
def from_list(ctx, rng):
    """Set(list): grouping, type detection, arguments left alone."""
    from jajapy.base.Set import Set
    kd, t, seqs, mult = any_set(rng, empty=False)
    l = [copy.deepcopy(x) for x, k in zip(seqs, mult) for _ in range(min(k, 5))]
    l = [l[i] for i in rng.permutation(len(l))]
    before = repr(l)
    detect = t != 1 and any(len(x) > 1 for x in l)
    s = ctx.call(Set, l) if detect else ctx.call(Set, l, t=t)
    c = collections.Counter(repr(x) for x in l)
    queries(ctx, s, c, t, "Set(%s)" % l)
    ctx.check(s.type == t, "type", "Set(%s) has type %s instead of %s" % (l, s.type, t))
    ctx.check(repr(l) == before, "argument-changed", before)
    back = ctx.call(Set, ctx.call(s.to_list), t=t)
    ctx.check(back.isEqual(s), "to_list", str(l))
    seqs2, mult2 = copy.deepcopy(seqs), list(mult)
    u = ctx.call(Set, seqs2, mult2, t)
    ctx.call(u.addSet, gen.mkset([["p", "q", "r"]], [2], t))
    ctx.call(u.addSet, gen.mkset([seqs[0]], [3], t))
    ctx.check(seqs2 == seqs and mult2 == mult, "argument-changed", "lists given to Set changed by addSet: %s %s" % (seqs2, mult2))
    ctx.case((kd, before), {"kind": kd, "list": l[:3]})


@family("sort-then-use", weight=1, quick=10)
def sort_use(ctx, rng):
    """A sorted or merged set still works as test and training set."""
    from .. import fit, ref
    kd, timed, hyp, seqs, mult, t = fit.problem(rng)
    m = ctx.call(gen.build, hyp)
    s = gen.mkset(seqs[:1], mult[:1], t)
    if len(seqs) > 1:
        ctx.call(s.addSet, gen.mkset(seqs[1:], mult[1:], t))
    ctx.call(s.sort)
    exp, each = ref.set_loglik(hyp, seqs, mult, timed)
    if max(each) > -np.inf and (kd != "CTMC" or timed):
        ctx.close(ctx.call(m.logLikelihood, s), exp, "loglik", "%s %s x %s" % (gen.brief(hyp), seqs, mult), rtol=1e-7, atol=1e-8)
    if ref.em_step(hyp, seqs, mult, timed) is not None:
        _, info = fit.fit(ctx, m, s, max_it=1, processes=1)
        ctx.close(info["training_set_loglikelihood"], ref.em_step(hyp, seqs, mult, timed)["ll"], "fit", "%s %s" % (seqs, mult), rtol=1e-7, atol=1e-8)
    ctx.case((kd, seqs, mult), {"kind": kd})


CHECK = Check("C12", "random histories of operations on Sets of every type, checked after each operation against a counter of traces; random pairs of equal "
              "and minimally different sets; a case is one history or pair, distinct by content", [history, equality, from_list, sort_use], quick=15, thorough=150,
              assumptions=["multiplicities are positive integers"])
