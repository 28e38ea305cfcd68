"""C01: log-likelihood of untimed data equals the model's own probability."""
import math
import numpy as np
from ..core import Check, family
from .. import gen, ref, boot

KINDS = ("MC", "MDP", "CTMC", "HMM", "GoHMM", "PCTMC")


def numeric(sp):
    return gen.as_ctmc(sp) if sp["kind"] == "PCTMC" else sp


def corrupt(rng, sp, t):
    """A trace the model may well be unable to produce."""
    t = list(t)
    if sp["kind"] == "GoHMM":
        return t
    pos = [i for i in range(len(t))] if sp["kind"] != "MDP" else list(range(0, len(t), 2))
    i = int(rng.choice(pos))
    pool = list(sp.get("labels", sp.get("alphabet"))) + ["zz"]
    t[i] = str(rng.choice(pool))
    return t


def expect(ctx, sp, seqs, mult, timed=False, deep=False):
    nsp = numeric(sp)
    val, l = ref.set_loglik(nsp, seqs, mult, timed)
    if deep:
        n = len(nsp["init"])
        for t, x in zip(seqs, l):
            k = (len(t) + 1) // 2 if (nsp["kind"] == "MDP" or timed) else len(t)
            if n ** k <= 4096:
                y = ref.loglik_paths(nsp, t, timed)
                ctx.count("reference_paths_crosschecked")
                if not (x == y or abs(x - y) <= 1e-9 * max(1, abs(x))):
                    raise RuntimeError("reference disagrees with itself: %r %r" % (x, y))
    ctx.count("traces_scored", len(seqs))
    ctx.count("impossible_traces", sum(1 for x in l if x == -math.inf))
    return val, l


def one(ctx, rng, kinds, odd=False, impossible=0.0, lmax=9, real=False, long=False):
    kd = str(rng.choice(list(kinds)))
    sp = gen.GENS[kd](rng) if kd == "GoHMM" else gen.GENS[kd](rng, odd=odd)
    lmin = 1 if kd in ("HMM", "GoHMM") else 0
    if long:
        lmin, lmax = 15, 40
    seqs, mult = gen.traces(rng, sp, int(rng.integers(1, 7)), lmin, lmax)
    if rng.random() < impossible:
        ok = list(seqs)
        for t in list(seqs):
            if rng.random() < .6:
                c = corrupt(rng, sp, t)
                if c not in seqs:
                    seqs.append(c)
                    mult.append(int(rng.integers(1, 4)))
        k = rng.permutation(len(seqs))
        seqs, mult = [seqs[i] for i in k], [mult[i] for i in k]
    mult = gen.huge(rng, mult)
    exp, l = expect(ctx, sp, seqs, mult, deep=True)
    m = ctx.call(gen.build, sp)
    s = gen.mkset(seqs, mult, gen.set_type(sp, False))
    if real:
        with boot.real_pool(int(rng.integers(2, 5))):
            got = ctx.call(m.logLikelihood, s, _what=kd + ".logLikelihood")
        ctx.count("real_process_pools")
    else:
        got = ctx.call(m.logLikelihood, s, _what=kd + ".logLikelihood")
    ctx.case((kd, gen.brief(sp), seqs, mult), {"model": gen.brief(sp), "traces": seqs[:3], "times": mult[:3], "loglik": exp})
    ctx.count("kind_" + kd)
    ctx.close(got, exp, "loglik", lambda: "%s.logLikelihood of %d traces (%s) under %s" % (kd, len(seqs), seqs[:4], gen.brief(sp)), rtol=1e-7, atol=1e-9)


@family("possible", weight=3, quick=60)
def possible(ctx, rng):
    one(ctx, rng, KINDS)


@family("impossible", weight=2, quick=40)
def impossible(ctx, rng):
    one(ctx, rng, KINDS, impossible=1.0)


@family("oddlabels", weight=1, quick=15)
def oddlabels(ctx, rng):
    one(ctx, rng, ("MC", "MDP", "CTMC", "HMM", "PCTMC"), odd=True, impossible=.3)


@family("long", weight=1, quick=12)
def long_(ctx, rng):
    one(ctx, rng, ("MC", "MDP", "CTMC", "HMM", "GoHMM"), long=True)


@family("realpool", weight=1, quick=8)
def realpool(ctx, rng):
    one(ctx, rng, KINDS, impossible=.3, real=True)


@family("total", weight=1, quick=12)
def total(ctx, rng):
    """The probabilities of all traces of one length add up to one."""
    import itertools
    kd = str(rng.choice(["MC", "HMM", "CTMC", "MDP"]))
    sp = gen.GENS[kd](rng, missing=0.0) if kd == "MDP" else gen.GENS[kd](rng)
    m = ctx.call(gen.build, sp)
    al = sorted(set(sp.get("labels", sp.get("alphabet"))))
    L = 3 if len(al) <= 4 else 2
    acts = [str(rng.choice(sp["acts"])) for _ in range(L - 1)] if kd == "MDP" else None
    tot = 0.0
    for w in itertools.product(al, repeat=L):
        t = list(w)
        if kd == "MDP":
            t = [w[0]]
            for a, o in zip(acts, w[1:]):
                t += [a, o]
        if ref.loglik(sp, t) == -math.inf:
            continue
        v = ctx.call(m.logLikelihood, gen.mkset([t], [1], gen.set_type(sp, False)))
        tot += math.exp(v)
        ctx.count("traces_scored")
    ctx.case(("total", gen.brief(sp), acts), {"model": gen.brief(sp), "length": L, "sum": tot})
    ctx.close(tot, 1.0, "total-probability", "sum over all traces of length %d of %s" % (L, gen.brief(sp)), rtol=1e-7)


@family("absorbing", weight=1, quick=12)
def absorbing(ctx, rng):
    """CTMCs and PCTMCs stay for ever in the states they cannot leave."""
    kd = str(rng.choice(["CTMC", "PCTMC"]))
    sp = gen.GENS[kd](rng)
    gen.absorb(rng, sp)
    seqs, mult = gen.traces(rng, sp, int(rng.integers(1, 5)), 1, 6)
    for t in list(seqs):
        for u in (t + [t[-1]] * int(rng.integers(1, 4)), corrupt(rng, sp, t)):
            if rng.random() < .5 and u not in seqs:
                seqs.append(u)
                mult.append(int(rng.integers(1, 4)))
    exp, l = expect(ctx, sp, seqs, mult, deep=True)
    m = ctx.call(gen.build, sp)
    got = ctx.call(m.logLikelihood, gen.mkset(seqs, mult, 0), _what=kd + ".logLikelihood")
    ctx.case((kd, gen.brief(sp), seqs, mult), {"model": gen.brief(sp), "traces": seqs[:3], "loglik": exp})
    ctx.close(got, exp, "loglik", lambda: "%s.logLikelihood of %s under %s" % (kd, seqs, gen.brief(sp)))
    if kd == "CTMC":
        mc = ctx.call(m.toMC)
        ctx.close(ctx.call(mc.logLikelihood, gen.mkset(seqs, mult, 0)), exp, "toMC", lambda: "embedded MC: %s under %s" % (seqs, gen.brief(sp)))


@family("float-range", weight=0, quick=1)
def float_range(ctx, rng):
    """Fixed input of the finding 'underflow'."""
    m = ctx.call(gen.build, {"kind": "HMM", "A": np.array([[1.0]]), "B": np.array([[.5, .5]]), "alphabet": ["a", "b"], "init": np.array([1.0]), "name": "coin"})
    for n in (1000, 1200):
        got = ctx.call(m.logLikelihood, gen.mkset([["a"] * n], [1], 2))
        ctx.case(("float-range", n), {"model": "fair coin", "steps": n, "loglik": got})
        if n == 1200 and got == 0.0:
            ctx.fail("underflow", "a trace of 1200 steps of a fair coin is treated as impossible")
        ctx.close(got, n * math.log(.5), "loglik", "%d steps of a fair coin" % n)


float_range.finding = "underflow"

CHECK = Check("C01", "random MC/MDP/HMM/GoHMM/CTMC/PCTMC (ambiguous labels, zero and tiny probabilities, several or "
              "non-last init states) with simulated and corrupted traces; a case is one (model, set) pair, distinct by content",
              [possible, impossible, oddlabels, long_, realpool, total, absorbing, float_range], quick=45, thorough=500,
              assumptions=["reference forward algorithm, itself cross-checked against path enumeration on small cases",
                           "except for the fixed input of the finding 'underflow', traces short enough that their probability does not underflow a double"])
