"""C16: what a model simulates follows the distribution the model describes."""
import itertools, math
import numpy as np
from scipy import stats
from ..core import Check, family
from .. import gen, ref

ALPHA = 1e-9  # significance of one test


def counts_test(ctx, obs, prob, d, mech="frequency"):
    """obs: counter of outcomes, prob: outcome -> probability."""
    n = sum(obs.values())
    ctx.count("samples", n)
    bad = [o for o in obs if prob.get(o, 0) <= 0]
    ctx.check(not bad, "impossible", "observed impossible outcomes %s; %s" % (bad[:5], d))
    rest_o = rest_p = 0.0
    cells = []
    for o, p in prob.items():
        k = obs.get(o, 0)
        if n * p * (1 - p) >= 1e-12:
            pv = stats.binomtest(int(k), n, min(1.0, p)).pvalue
            ctx.count("tests")
            ctx.check(pv > ALPHA, mech, lambda: "outcome %s seen %d times in %d, probability %.6g (p-value %.3g); %s" % (o, k, n, p, pv, d))
        if n * p >= 25:
            cells.append((k, n * p))
        else:
            rest_o += k
            rest_p += n * p
    if rest_p >= 25:
        cells.append((rest_o, rest_p))
    if len(cells) > 1:
        x2 = sum((o - e) ** 2 / e for o, e in cells)
        pv = stats.chi2.sf(x2, max(1, len(cells) - 1))
        ctx.count("tests")
        ctx.check(pv > ALPHA, mech, lambda: "chi-square %.1f over %d cells (p-value %.3g); %s" % (x2, len(cells), pv, d))


def ks_test(ctx, xs, cdf, d, mech):
    ctx.count("samples", len(xs))
    ctx.count("tests")
    r = stats.kstest(np.asarray(xs, float), cdf)
    ctx.check(r.pvalue > ALPHA, mech, lambda: "%d samples, mean %.5g, KS statistic %.4g (p-value %.3g); %s" % (len(xs), np.mean(xs), r.statistic, r.pvalue, d))


def tally(it):
    c = {}
    for x in it:
        c[x] = c.get(x, 0) + 1
    return c


def trace_space(sp, n):
    """Every untimed trace of n steps with its probability."""
    if sp["kind"] == "HMM":
        return list(itertools.product(sp["alphabet"], repeat=n))
    ls = sorted(set(sp["labels"]))
    return list(itertools.product(ls, repeat=n + 1))


def small(rng, kd):
    while True:
        sp = gen.g_any(rng, [kd])
        if kd == "PCTMC" and any(x < 0 for x in ref_rates(sp)):
            continue
        return sp


def ref_rates(sp):
    return gen.rates_of(sp).ravel()


@family("traces", weight=4, quick=14)
def traces(ctx, rng):
    """Joint distribution of whole traces of two or three steps."""
    from jajapy.mdp.Scheduler import UniformScheduler
    kd = str(rng.choice(["MC", "CTMC", "HMM", "MDP", "PCTMC"], p=[.25, .25, .25, .2, .05]))
    sp = small(rng, kd)
    m = gen.build(sp)
    num = gen.as_ctmc(sp) if kd == "PCTMC" else sp
    N = 150 if kd == "PCTMC" else 4000
    n = int(rng.integers(1, 4))
    d = "%d runs of %d steps of %s" % (N, n, gen.brief(sp))
    if kd == "MDP":
        sch = UniformScheduler(list(sp["acts"]))
        got = tally(tuple(m.run(n, sch)) for _ in range(N))
        av = sp["P"].sum(axis=2) > 0
        prob = {}

        def walk(dist, tr, k):
            # dist: weights over states after the actions and labels of tr
            for l in set(sp["labels"]):
                w = dist * np.array([x == l for x in sp["labels"]])
                if w.sum() <= 0:
                    continue
                if k == n:
                    prob[tuple(tr + [l])] = w.sum()
                    continue
                for a in range(len(sp["acts"])):
                    x = np.where(av[:, a], w / av.sum(axis=1), 0) @ sp["P"][:, a, :]
                    if x.sum() > 0:
                        walk(x, tr + [l, sp["acts"][a]], k + 1)
        walk(sp["init"], [], 0)
    else:
        got = tally(tuple(m.run(n)) for _ in range(N))
        prob = {}
        for t in trace_space(num, n):
            p = ref.loglik(num, list(t))
            if p > -math.inf:
                prob[t] = math.exp(p)
    counts_test(ctx, got, prob, d)
    ctx.case((kd, n, repr(gen.brief(sp))), {"model": gen.brief(sp), "n": n, "distinct traces": len(got)})


@family("starts", weight=1, quick=4)
def starts(ctx, rng):
    """Initial states: models in which every state can be recognised."""
    kd = str(rng.choice(["HMM", "GoHMM"]))
    k = int(rng.integers(2, 6))
    init = gen.stoch(rng, k)
    A = np.array([gen.stoch(rng, k) for _ in range(k)])
    N = 3000
    if kd == "HMM":
        sp = {"kind": "HMM", "A": A, "B": np.eye(k), "alphabet": list("abcdef"[:k]), "init": init, "name": "h"}
        m = gen.build(sp)
        got = tally("abcdef".index(m.run(1)[0]) for _ in range(N))
    else:
        sp = {"kind": "GoHMM", "A": A, "out": np.array([[[100.0 * i, .5]] for i in range(k)]), "init": init, "name": "g"}
        m = gen.build(sp)
        got = tally(int(round(m.run(1)[0][0] / 100)) for _ in range(N))
    counts_test(ctx, got, {i: p for i, p in enumerate(init) if p > 0}, "initial states of %s" % gen.brief(sp))
    ctx.case((kd, repr(init.tolist())), {"init": init.tolist(), "counts": {str(a): b for a, b in got.items()}})


@family("dwell", weight=3, quick=8)
def dwell(ctx, rng):
    """Dwell times are exponential, whatever the successor chosen."""
    kd = str(rng.choice(["CTMC", "PCTMC"], p=[.8, .2]))
    sp = small(rng, kd)
    if rng.random() < .3 and kd == "CTMC":
        # rates far apart, as in stiff systems
        sp["R"] = sp["R"] * 10.0 ** rng.uniform(-4, 4, sp["R"].shape)
    m = gen.build(sp)
    num = gen.as_ctmc(sp) if kd == "PCTMC" else sp
    e = num["R"].sum(axis=1)
    N = 200 if kd == "PCTMC" else 2500
    states = [s for s in range(len(e)) if e[s] > 0]
    if kd == "PCTMC":
        states = states[:2]
    for s in states:
        r = [m.next(s) for _ in range(N)]
        d = "%d steps out of state %d of %s" % (N, s, gen.brief(sp))
        ks_test(ctx, [float(x[2]) * e[s] for x in r], "expon", d, "dwell")
        counts_test(ctx, tally(int(x[1]) for x in r), {j: p for j, p in enumerate(num["R"][s] / e[s]) if p > 0}, d, "successor")
        # the dwell time does not depend on the successor
        best = max(set(int(x[1]) for x in r), key=[int(x[1]) for x in r].count)
        y = [float(x[2]) * e[s] for x in r if int(x[1]) == best]
        if len(y) >= 100:
            ks_test(ctx, y, "expon", d + " (moving to %d)" % best, "dwell")
        ctx.case((kd, s, repr(num["R"].tolist())), {"state": s, "exit rate": e[s], "mean dwell": float(np.mean([float(x[2]) for x in r]))})


@family("timedrun", weight=2, quick=4)
def timedrun(ctx, rng):
    """The dwell times inside timed traces belong to the states they follow."""
    n = int(rng.integers(2, 5))
    lab = ["init"] + list("abcdef"[:n])
    R = np.zeros((n + 1, n + 1))
    for s in range(n + 1):
        R[s, 1:] = gen.stoch(rng, n, "dir") * np.exp(rng.uniform(-3, 3))
    sp = {"kind": "CTMC", "labels": lab, "R": R, "init": np.eye(n + 1)[0], "name": "c"}
    m = gen.build(sp)
    how = str(rng.choice(["run", "set"]))
    if how == "run":
        ts = [m.run(8, True) for _ in range(400)]
    else:
        ts = ctx.call(m.generateSet, 400, 8, timed=True).sequences
    xs = {l: [] for l in lab}
    nx = {l: {} for l in lab}
    for t in ts:
        for i in range(1, len(t), 2):
            xs[t[i - 1]].append(float(t[i]) * R[lab.index(t[i - 1])].sum())
            nx[t[i - 1]][t[i + 1]] = nx[t[i - 1]].get(t[i + 1], 0) + 1
    for l in lab:
        if len(xs[l]) >= 50:
            s = lab.index(l)
            d = "timed %s of %s" % (how, gen.brief(sp))
            ks_test(ctx, xs[l], "expon", "state %s, " % l + d, "dwell")
            counts_test(ctx, nx[l], {lab[j]: p for j, p in enumerate(R[s] / R[s].sum()) if p > 0}, "from %s, " % l + d, "successor")
    ctx.case((how, repr(R.tolist())), {"model": gen.brief(sp), "how": how})


@family("changed", weight=2, quick=6)
def changed(ctx, rng):
    """A simulation follows the values the parameters have at that moment."""
    sp = gen.g_pctmc(rng)
    while not sp["params"]:
        sp = gen.g_pctmc(rng)
    m = gen.build_pctmc(sp)
    vals = dict(sp["values"])
    hist = []
    for step in range(3):
        num = gen.as_ctmc(sp, vals)
        e = num["R"].sum(axis=1)
        states = [s for s in range(len(e)) if e[s] > 0 and any(x and any(p in x for p in sp["params"]) for x in sp["E"][s])]
        if (num["R"] < 0).any() or not states:
            return
        s = states[int(rng.integers(len(states)))]
        N = 120
        d = "%d steps out of state %d of %s, parameters %s after %s" % (N, s, gen.brief(sp), vals, hist)
        m.run(3)
        r = [m.next(s) for _ in range(N)]
        ks_test(ctx, [float(x[2]) * e[s] for x in r], "expon", d, "dwell")
        counts_test(ctx, tally(int(x[1]) for x in r), {j: p for j, p in enumerate(num["R"][s] / e[s]) if p > 0}, d, "successor")
        ctx.case((s, repr(sp["E"]), repr(vals)), {"state": s, "parameters": vals, "exit rate": e[s]})
        hist.append(dict(vals))
        # rates ten times larger or smaller
        p = str(rng.choice(sp["params"]))
        new = {p: vals[p] * float(rng.choice([.05, 15.0]))}
        if rng.random() < .5:
            ctx.call(m.instantiate, [p], [new[p]])
        else:
            for q in sp["params"]:
                new[q] = vals[q] * float(rng.choice([.05, 15.0]))
            ctx.call(m.instantiate, list(new), list(new.values()))
        vals.update(new)
        for q in new:
            ctx.check(m.parameterValue(q) == vals[q], "parameters", "%s; %s" % (m.parameter_values, vals))


@family("gauss", weight=2, quick=6)
def gauss(ctx, rng):
    """Gaussian observations: each component follows its own normal law, independently."""
    sp = gen.g_gohmm(rng)
    m = gen.build(sp)
    N = 2000
    for s in range(len(sp["A"])):
        o = np.array([m.next_obs(s) for _ in range(N)], float)
        d = "state %d of %s" % (s, gen.brief(sp))
        for k in range(o.shape[1]):
            ks_test(ctx, (o[:, k] - sp["out"][s, k, 0]) / sp["out"][s, k, 1], "norm", "component %d, " % k + d, "gauss")
        for a in range(o.shape[1]):
            for b in range(a):
                ks_test(ctx, ((o[:, a] - sp["out"][s, a, 0]) / sp["out"][s, a, 1] + (o[:, b] - sp["out"][s, b, 0]) / sp["out"][s, b, 1]) / math.sqrt(2),
                        "norm", "components %d and %d, " % (a, b) + d, "independence")
    # along runs: observation k has the mixture law of the state distribution
    n = int(rng.integers(1, 5))
    o = np.array([m.run(n)[-1] for _ in range(1500)], float)
    w = sp["init"] @ np.linalg.matrix_power(sp["A"], n - 1)
    for k in range(o.shape[1]):
        cdf = lambda x: sum(w[s] * stats.norm.cdf(x, *sp["out"][s, k]) for s in range(len(w)))
        ks_test(ctx, o[:, k], cdf, "observation %d, component %d of %s" % (n, k, gen.brief(sp)), "gauss")
    ctx.case(repr(gen.brief(sp)), {"model": gen.brief(sp)})


@family("geo", weight=2, quick=6)
def geo(ctx, rng):
    """Lengths: min_size plus a geometric variable."""
    from jajapy.mdp.Scheduler import UniformScheduler
    kd = str(rng.choice(["MC", "HMM", "GoHMM", "CTMC", "MDP", "MDP", "PCTMC", "PCTMC"]))
    sp, N = small(rng, kd), 1200
    if kd == "PCTMC":
        N = 150
        if rng.random() < .6:  # symbolic rates are slow
            sp, N = {"kind": kd, "labels": ["a", "init"], "E": [["x", None], ["1.0", None]], "params": ["x"], "values": {"x": 2.0},
                     "init": np.array([0., 1.]), "name": "g"}, 600
    m = gen.build(sp)
    p, mn = float(rng.choice([.2, .4, .7])), int(rng.integers(0, 7))
    a = (UniformScheduler(list(sp["acts"])),) if kd == "MDP" else ()
    s = ctx.call(m.generateSet, N, p, *a, distribution="geo", min_size=mn)
    got = {}
    for t, k in zip(s.sequences, s.times):
        n = len(t) if kd in ("HMM", "GoHMM") else len(t) // 2 if kd == "MDP" else len(t) - 1
        got[n] = got.get(n, 0) + int(k)
    prob = {mn + k: p * (1 - p) ** (k - 1) for k in range(1, 200)}
    counts_test(ctx, got, prob, "generateSet(%d, %s, geo, min_size=%d) of a %s" % (N, p, mn, kd), "length")
    ctx.case((kd, p, mn), {"kind": kd, "p": p, "min_size": mn, "lengths": {str(a): b for a, b in sorted(got.items())}})


@family("resolve", weight=2, quick=6)
def resolve(ctx, rng):
    """resolveRandom draws an index with the given probabilities."""
    from jajapy.base.tools import resolveRandom
    k = int(rng.integers(1, 8))
    p = gen.stoch(rng, k)
    arg = p.tolist() if rng.random() < .5 else p.copy()
    N = 4000
    got = tally(int(resolveRandom(arg)) for _ in range(N))
    ctx.check(np.array_equal(np.asarray(arg), p), "changed", "argument became %s" % arg)
    counts_test(ctx, got, {i: x for i, x in enumerate(p) if x > 0}, "resolveRandom(%s)" % p.tolist())
    ctx.case(repr(p.tolist()), {"p": p.tolist()})


CHECK = Check("C16", "a model (or distribution) whose simulated outcomes were tested statistically",
              [traces, starts, dwell, timedrun, changed, gauss, geo, resolve], quick=25, thorough=400,
              assumptions=["each statistical test is made at significance 1e-9: a deviation too small for the sample size is not detected"])
