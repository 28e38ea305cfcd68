"""C02: log-likelihood of timed traces is the density of labels and dwell times."""
import math
import numpy as np
from ..core import Check, family
from .. import gen, ref, boot
from .c01 import expect, numeric


def corrupt(rng, sp, t):
    t = list(t)
    i = int(rng.choice(range(0, len(t), 2)))
    t[i] = str(rng.choice(list(sp["labels"]) + ["zz"]))
    return t


def one(ctx, rng, kd, impossible=0.0, real=False, odd=False, times=None):
    sp = gen.GENS[kd](rng, odd=odd)
    seqs, mult = gen.traces(rng, numeric(sp), int(rng.integers(1, 6)), 1, 7, timed=True)
    if times is not None:
        for t in seqs:
            for i in range(1, len(t), 2):
                t[i] = float(times(rng))
    keep = len(seqs)
    if impossible:
        for t in list(seqs):
            if rng.random() < impossible:
                seqs.append(corrupt(rng, sp, t))
                mult.append(int(rng.integers(1, 4)))
    k = rng.permutation(len(seqs))
    seqs, mult = [seqs[i] for i in k], [mult[i] for i in k]
    mult = gen.huge(rng, mult)
    exp, l = expect(ctx, sp, seqs, mult, timed=True, deep=True)
    m = ctx.call(gen.build, sp)
    s = gen.mkset(seqs, mult, 4)
    if real:
        with boot.real_pool(int(rng.integers(2, 5))):
            got = ctx.call(m.logLikelihood, s, _what=kd + ".logLikelihood")
        ctx.count("real_process_pools")
    else:
        got = ctx.call(m.logLikelihood, s, _what=kd + ".logLikelihood")
    ctx.case((kd, gen.brief(sp), seqs, mult), {"model": gen.brief(sp), "traces": seqs[:3], "times": mult[:3], "loglik": exp})
    ctx.count("kind_" + kd)
    ctx.count("dwell_times", sum(len(t) // 2 for t in seqs))
    ctx.close(got, exp, "loglik-timed", lambda: "%s.logLikelihood of %s x%s under %s" % (kd, seqs[:4], mult[:4], gen.brief(sp)), rtol=1e-7, atol=1e-9)


def K(rng):
    return "CTMC" if rng.random() < .6 else "PCTMC"


@family("possible", weight=3, quick=50)
def possible(ctx, rng):
    one(ctx, rng, K(rng))


@family("impossible", weight=2, quick=30)
def impossible(ctx, rng):
    one(ctx, rng, K(rng), impossible=.7)


@family("extreme-times", weight=1, quick=15)
def extreme(ctx, rng):
    f = [lambda r: 10 ** r.uniform(-9, -3), lambda r: r.uniform(1, 6), lambda r: 0.0][int(rng.integers(3))]
    one(ctx, rng, K(rng), times=f)


@family("long-stays", weight=1, quick=15)
def long_stays(ctx, rng):
    """Stays of tens to hundreds of expected times: unlikely, not impossible."""
    kd = K(rng)
    sp = gen.GENS[kd](rng)
    num = numeric(sp)
    if kd == "CTMC":
        c = 10.0 ** rng.uniform(-5, 5)
        sp["R"] *= c
    e = num["R"].sum(axis=1)
    seqs, mult = [], []
    for t in gen.traces(rng, num, int(rng.integers(1, 5)), 1, 4, timed=True)[0]:
        if len(t) > 1 and rng.random() < .8:
            i = int(rng.choice(range(1, len(t), 2)))
            lo = min(e[s] for s in range(len(e)) if num["labels"][s] == t[i - 1])
            t[i] = float(np.round(rng.uniform(20, 500) / (lo if lo > 0 else e.max()), 3 if e.max() < 100 else 9))
            while t[i] and ref.loglik(num, t, True) < -500:
                t[i] /= 2
        if t not in seqs:
            seqs.append(t)
            mult.append(int(rng.integers(1, 4)))
    exp, l = expect(ctx, sp, seqs, mult, timed=True)
    m = ctx.call(gen.build, sp)
    got = ctx.call(m.logLikelihood, gen.mkset(seqs, mult, 4), _what=kd + ".logLikelihood")
    ctx.case((kd, gen.brief(sp), seqs, mult), {"model": gen.brief(sp), "traces": seqs[:3], "loglik": exp})
    ctx.count("kind_" + kd)
    ctx.close(got, exp, "loglik-timed", lambda: "%s.logLikelihood of %s x%s under %s" % (kd, seqs[:4], mult[:4], gen.brief(sp)), rtol=1e-7, atol=1e-9)


@family("unit-density", weight=1, quick=10)
def unit(ctx, rng):
    """A density of exactly one is not an impossible trace."""
    kd = K(rng)
    sp = gen.GENS[kd](rng)
    how = str(rng.choice(["no step", "unit rates"]))
    if how == "no step":
        l = [x for x, p in zip(sp["labels"], sp["init"]) if p > 0]
        seqs, mult = [[l[0]]], [int(rng.integers(1, 5))]
        if rng.random() < .3:
            seqs.append(["zz"])
            mult.append(1)
        if rng.random() < .3:
            num = numeric(sp)
            t = gen.sim(rng, num, 2, timed=True)
            seqs.append(t)
            mult.append(1)
    else:
        # init -> a -> ... at rate one, left at once
        N = int(rng.integers(2, 5))
        lab = ["init"] + gen.labels_pool(rng)[:N - 1]
        R = np.zeros((N, N))
        for i in range(N):
            R[i, i % (N - 1) + 1 if i < N - 1 else 1] = 1.0
        sp = {"kind": "CTMC", "labels": lab, "R": R, "init": np.eye(N)[0], "name": "u"}
        t, s = ["init"], 0
        for _ in range(int(rng.integers(1, 5))):
            s = int(np.argmax(R[s]))
            t += [0.0, lab[s]]
        seqs, mult = [t], [int(rng.integers(1, 4))]
    exp, l = expect(ctx, sp, seqs, mult, timed=True, deep=True)
    m = ctx.call(gen.build, sp)
    got = ctx.call(m.logLikelihood, gen.mkset(seqs, mult, 4), _what=kd + ".logLikelihood")
    ctx.case((how, gen.brief(sp), seqs, mult), {"model": gen.brief(sp), "traces": seqs, "loglik": exp})
    ctx.close(got, exp, "loglik-timed", lambda: "%s x%s under %s" % (seqs, mult, gen.brief(sp)), rtol=1e-7, atol=1e-9)


@family("realpool", weight=1, quick=6)
def realpool(ctx, rng):
    one(ctx, rng, K(rng), real=True, impossible=.2, odd=True)


@family("marginal", weight=1, quick=6)
def marginal(ctx, rng):
    """Integrating the density over the dwell time gives the untimed probability."""
    sp = gen.g_ctmc(rng, lo=.5, hi=3)
    t = gen.sim(rng, sp, 2)
    u = ref.loglik(sp, t)
    m = ctx.call(gen.build, sp)
    e = sp["R"].sum(axis=1)
    tot = 0.0
    # trapezoids in the logarithm of the dwell time: exact to 1e-5 for every mixture of rates in the range
    h = .25
    for s in np.arange(math.log(1e-6 / e.max()), math.log(40 / e.min()) + h, h):
        x = math.exp(s)
        v = ctx.call(m.logLikelihood, gen.mkset([[t[0], x, t[1]]], [1], 4))
        tot += math.exp(v) * x * h
        ctx.count("traces_scored")
    exp = math.exp(ref.loglik(sp, t[:2]))
    ctx.case(("marg", gen.brief(sp), t), {"model": gen.brief(sp), "trace": t[:2], "integral": tot, "untimed": exp})
    ctx.close(tot, exp, "marginal", "integral over the dwell time of %s under %s" % (t[:2], gen.brief(sp)), rtol=1e-3)


@family("float-range", weight=0, quick=1)
def float_range(ctx, rng):
    """Fixed input of the finding 'float-range'."""
    bad = []
    for rate, n in ((1e6, 40), (1e6, 60), (1e-6, 40), (1e-6, 60)):
        for kd in ("CTMC", "PCTMC"):
            R = np.array([[0, rate, 0], [rate, 0, 0], [rate, 0, 0]])
            sp = {"kind": "CTMC", "labels": ["a", "b", "init"], "R": R, "init": np.eye(3)[2], "name": "clock"}
            if kd == "PCTMC":
                sp = {"kind": "PCTMC", "labels": ["a", "b", "init"], "E": [[repr(x) if x else None for x in r] for r in R.tolist()],
                      "params": [], "values": {}, "init": np.eye(3)[2], "name": "clock"}
            m = ctx.call(gen.build, sp)
            t = ["init"]
            for i in range(n):
                t += [0.0, "ab"[i % 2]]
            got = ctx.call(m.logLikelihood, gen.mkset([t], [1], 4))
            ctx.case(("float-range", kd, rate, n), {"kind": kd, "rate": rate, "steps": n, "loglik": got})
            if n == 60 and not abs(got - n * math.log(rate)) < 1e-6:
                ctx.check(not math.isfinite(got) if rate > 1 else got in (0.0, -9999.0), "loglik-timed", lambda: "%r" % got)
                bad.append((kd, rate, got))
            else:
                ctx.close(got, n * math.log(rate), "loglik-timed", "%d steps at rate %g" % (n, rate))
    if bad:
        ctx.fail("float-range", "density out of the range of floats: %s" % bad)


float_range.finding = "float-range"

CHECK = Check("C02", "random CTMC / instantiated PCTMC with simulated, corrupted and extreme timed traces; a case is one "
              "(model, set) pair, distinct by content", [possible, impossible, extreme, long_stays, unit, realpool, marginal, float_range], quick=40, thorough=450,
              assumptions=["reference forward algorithm in jv/ref.py cross-checked against path enumeration on small cases"])
