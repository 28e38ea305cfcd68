"""C17: random generators: valid models, the requested options, and seeds that determine the result."""
import json, os, subprocess, sys
import numpy as np
from ..core import Check, family
from .. import gen, snap, boot

KINDS = ["MC", "MDP", "CTMC", "HMM", "GoHMM"]


def options(rng, kd):
    big = rng.random() < gen.BIG
    n = int(rng.integers(1, 7)) if not big else int(rng.integers(10, 30))
    labs = gen.labels_pool(rng, rng.random() < .3)[:int(rng.integers(1, 9 if not big else 15))]
    if "init" in labs:
        labs.remove("init")
    k = {}
    if kd == "MC":
        a = [n, labs]
    elif kd == "MDP":
        a = [n, labs, (["A", "B", "é"] + gen.ACTS[3:])[:int(rng.integers(1, 4) if not big else 11)]]
        if rng.random() < .5:
            k["deterministic"] = True
    elif kd == "CTMC":
        lo = int(rng.integers(1, 5))
        a = [max(n, 2), labs, lo, lo + (int(rng.integers(0, 5)) if rng.random() < .7 else 0)]
        if rng.random() < .5:
            k["self_loop"] = bool(rng.random() < .3)
    elif kd == "HMM":
        a = [n, labs]
    else:
        a = [n, int(rng.integers(1, 4)) if not big else int(rng.integers(3, 12))]
        if rng.random() < .6:
            m, s = float(np.round(rng.normal(0, 5), 2)), float(np.round(rng.uniform(.1, 2), 2))
            k.update(min_mu=m, max_mu=m + float(np.round(rng.uniform(0.1, 4), 2)), min_sigma=s, max_sigma=s + float(np.round(rng.uniform(0.1, 2), 2)))
    if rng.random() < .6:
        k["random_initial_state"] = bool(rng.random() < .5)
    return a, k


def make(ctx, kd, a, k):
    import jajapy as ja
    return ctx.call({"MC": ja.MC_random, "MDP": ja.MDP_random, "CTMC": ja.CTMC_random, "HMM": ja.HMM_random, "GoHMM": ja.GoHMM_random}[kd],
                    *[list(x) if isinstance(x, list) else x for x in a], **k)


def dist(ctx, v, d, what):
    v = np.asarray(v, float)
    ctx.check(np.all(np.isfinite(v)) and np.all(v >= 0) and abs(v.sum() - 1) < 1e-6, "distribution", lambda: "%s: %s; %s" % (what, v.tolist(), d))


@family("valid", weight=5, quick=110)
def valid(ctx, rng):
    kd = str(rng.choice(KINDS))
    a, k = options(rng, kd)
    if rng.random() < .5:
        k["sseed"] = int(rng.integers(2**31))
    labs = list(a[1]) if kd != "GoHMM" else None
    d = "%s_random(%s, %s)" % (kd, a, k)
    a0 = snap.snap(a)
    import copy
    a_ = copy.deepcopy(a)
    import jajapy as ja
    m = ctx.call(getattr(ja, kd + "_random"), *a_, **k)
    ctx.check(snap.snap(a_) == a0, "changed", "the arguments became %s; %s" % (a_, d))
    n = a[0]
    ctx.check(type(m).__name__ == kd, "kind", "returned a %s; %s" % (type(m).__name__, d))
    if kd in ("HMM", "GoHMM"):
        ctx.check(m.nb_states == n and m.matrix.shape == (n, n), "states", "%s; %s" % (m.matrix.shape, d))
        for s in range(n):
            dist(ctx, m.matrix[s], d, "row %d" % s)
        dist(ctx, m.initial_state, d, "initial distribution")
        if not k.get("random_initial_state", False):
            ctx.check(m.initial_state[0] == 1.0, "initial", "%s; %s" % (m.initial_state, d))
        elif n > 1:
            ctx.count("random_initial")
            ctx.check(sum(x > 0 for x in m.initial_state) > 1, "initial", "%s; %s" % (m.initial_state, d))
        if kd == "HMM":
            ctx.check(sorted(m.getAlphabet()) == sorted(labs) and m.output.shape == (n, len(labs)), "alphabet", "%s; %s" % (m.alphabet, d))
            for s in range(n):
                dist(ctx, m.output[s], d, "emissions of %d" % s)
        else:
            o = np.asarray(m.output, float)
            ctx.check(o.shape == (n, a[1], 2) and m.nb_distributions == a[1], "shape", "%s; %s" % (o.shape, d))
            lo, hi, slo, shi = k.get("min_mu", 0.0), k.get("max_mu", 2.0), k.get("min_sigma", .5), k.get("max_sigma", 2.0)
            e = 1e-3  # the generator rounds to three digits
            ctx.check(np.all(o[..., 0] >= lo - e) and np.all(o[..., 0] <= hi + e), "mu", "%s; %s" % (o[..., 0].tolist(), d))
            ctx.check(np.all(o[..., 1] >= slo - e) and np.all(o[..., 1] <= shi + e), "sigma", "%s; %s" % (o[..., 1].tolist(), d))
    else:
        ctx.check(m.nb_states == n + 1 and len(m.matrix) == n + 1 and len(m.labelling) == n + 1, "states", "%d states; %s" % (m.nb_states, d))
        L = [str(x) for x in m.labelling]
        ctx.check(L[-1] == "init" and "init" not in L[:-1], "initial", "labels %s; %s" % (L, d))
        ctx.check(sorted(L[:n][:len(labs)]) == sorted(labs[:n]) and all(x in labs for x in L[:n]), "labels", "labels %s; %s" % (L, d))
        ctx.check(set(m.getAlphabet()) == set(L), "alphabet", "%s; %s" % (m.alphabet, d))
        ctx.check(np.array_equal(np.asarray(m.initial_state, float), np.eye(n + 1)[-1]), "initial", "%s; %s" % (m.initial_state, d))
        M = np.asarray(m.matrix, float)
        flat = k.get("random_initial_state", True)
        if kd == "MDP":
            ctx.check(list(m.actions) == list(a[2]) and M.shape == (n + 1, len(a[2]), n + 1), "actions", "%s %s; %s" % (m.actions, M.shape, d))
            for s in range(n + 1):
                for x in range(len(a[2])):
                    dist(ctx, M[s, x], d, "state %d action %d" % (s, x))
            ctx.check(np.all(M[:, :, -1] == 0), "initial", "the initial state is entered again; %s" % d)
            ctx.check(all(np.array_equal(M[-1, 0], M[-1, x]) for x in range(len(a[2]))), "initial", "the initial distribution depends on the action; %s" % d)
            row = M[-1, 0]
            if k.get("deterministic"):
                for s in range(n):
                    for x in range(len(a[2])):
                        seen = [L[t] for t in np.nonzero(M[s, x])[0]]
                        ctx.check(len(seen) == len(set(seen)), "deterministic", "state %d action %d leads to %s; %s" % (s, x, seen, d))
                ctx.count("deterministic")
        else:
            ctx.check(M.shape == (n + 1, n + 1) and np.all(M[:, -1] == 0), "initial", "the initial state is entered again; %s" % d)
            if kd == "MC":
                for s in range(n + 1):
                    dist(ctx, M[s], d, "row %d" % s)
            else:
                ctx.check(np.all(np.isfinite(M)) and np.all(M >= 0), "rates", "%s; %s" % (M.tolist(), d))
                for s in range(n):
                    w = 1 / M[s].sum()
                    ctx.check(abs(w - round(w)) < 1e-6 and a[2] <= round(w) <= a[3], "exit", "state %d waits %s; %s" % (s, w, d))
                if not k.get("self_loop", True):
                    ctx.check(np.all(np.diag(M)[:n] == 0), "selfloop", "%s; %s" % (np.diag(M).tolist(), d))
                    ctx.count("no_self_loop")
                dist(ctx, M[-1], d, "initial row")
            row = M[-1]
        if not flat:
            ctx.check(row[0] == 1.0, "initial", "%s; %s" % (row.tolist(), d))
        elif n > 1:
            ctx.count("random_initial")
            ctx.check((row > 0).sum() > 1, "initial", "%s; %s" % (row.tolist(), d))
    ctx.case((kd, repr(a), repr(k)), {"call": d})


def probe_call(spec):
    """(also run in subprocesses) the model made by one seeded call."""
    import jajapy as ja
    f, a, k = spec
    m = getattr(ja, f)(*a, **k)
    r = {"m": np.asarray(m.matrix).tolist(), "i": np.asarray(m.initial_state).tolist()}
    for x in ("labelling", "alphabet", "actions", "output"):
        if hasattr(m, x):
            v = getattr(m, x)
            v = v.tolist() if hasattr(v, "tolist") else list(v)
            r[x] = sorted(v) if x == "alphabet" and f != "HMM_random" else v
    return r


@family("seed", weight=3, quick=9)
def seed(ctx, rng):
    """Same arguments and seed: same model, whatever was drawn before."""
    for kd in KINDS:
        same_seed(ctx, rng, kd, int(rng.choice([0, 1, int(rng.integers(2**31))], p=[.5, .15, .35])))


def same_seed(ctx, rng, kd, sseed):
    a, k = options(rng, kd)
    k["sseed"] = sseed
    d = "%s_random(%s, %s)" % (kd, a, k)
    first = snap.model(make(ctx, kd, a, k))
    for _ in range(2):
        ctx.seed_lib(rng)
        np.random.rand(int(rng.integers(50)))
        if rng.random() < .5:
            make(ctx, kd, *options(rng, kd))
        dd = snap.diff(first, snap.model(make(ctx, kd, a, k)))
        ctx.check(not dd, "seed", "two calls of %s differ in %s" % (d, dd))
    # different seeds do not all give the same model
    if a[0] >= 3 and not k.get("deterministic"):
        o = [snap.model(make(ctx, kd, a, dict(k, sseed=int(rng.integers(2**31))))) for _ in range(4)]
        ctx.check(any(snap.diff(first, x) for x in o), "seed_ignored", "five seeds give the same model; %s" % d)
    ctx.case((kd, repr(a), repr(k)), {"call": d})


PROG = r"""
import sys, json
sys.path.insert(0, %r)
from jv import boot
boot.import_jajapy(); boot.mute()
from jv.checks.c17 import probe_call
import random, numpy
random.seed(%d); numpy.random.seed(%d)
boot.say(json.dumps([probe_call(x) for x in json.loads(%r)]))
"""


@family("processes", weight=0, quick=1)
def processes(ctx, rng):
    """The same seeds give the same models in other processes (hash seeds)."""
    specs = []
    for kd in KINDS:
        for _ in range(6):
            a, k = options(rng, kd)
            k["sseed"] = int(rng.integers(2**31))
            specs.append((kd + "_random", a, k))
    mine = [probe_call(x) for x in specs]
    for hs in ["1", "2", "77", "random"]:
        env = dict(os.environ, PYTHONHASHSEED=hs)
        p = subprocess.run([sys.executable, "-c", PROG % (boot.VERIF, int(rng.integers(10**6)), int(rng.integers(10**6)), json.dumps(specs))], env=env,
                           capture_output=True, text=True, timeout=300)
        ctx.check(p.returncode == 0, "process", "subprocess failed: %s" % p.stderr[-500:])
        other = json.loads(p.stdout)
        for s, x, y in zip(specs, mine, other):
            ctx.count("cross_process_models")
            bad = [q for q in x if json.loads(json.dumps(x[q])) != y[q]]
            ctx.check(not bad, "hash_seed", lambda: "%s%s %s: %s differ between processes: %s / %s" % (s[0], s[1], s[2], bad, x[bad[0]], y[bad[0]]))
            ctx.case((hs, repr(s)), {"call": s, "PYTHONHASHSEED": hs})


@family("probs", weight=1, quick=10)
def probs(ctx, rng):
    import jajapy as ja
    from jajapy.base.tools import randomProbabilities
    n = int(rng.integers(1, 12))
    p = ctx.call(randomProbabilities, n)
    ctx.check(len(p) == n, "length", "%s for %d" % (p, n))
    dist(ctx, p, "randomProbabilities(%d)" % n, "result")
    ctx.check(ctx.refuses(randomProbabilities, 0) and ctx.refuses(randomProbabilities, -n) and ctx.refuses(randomProbabilities, 2.5), "refuse", "invalid size accepted")
    kd = str(rng.choice(["MC", "MDP", "CTMC"]))
    a, k = options(rng, kd)
    a[1] = list(a[1])
    a[1].insert(int(rng.integers(len(a[1]) + 1)), "init")
    ctx.check(ctx.refuses(getattr(ja, kd + "_random"), *a, **k), "refuse", "%s_random(%s) accepts the label 'init'" % (kd, a))
    ctx.case((n, kd, repr(a)))


@family("instantiation", weight=3, quick=15)
def instantiation(ctx, rng):
    """randomInstantiation: the asked parameters, in the asked range."""
    sp = gen.g_pctmc(rng)
    while not sp["params"]:
        sp = gen.g_pctmc(rng)
    given = {p: float(np.round(rng.uniform(.1, 3), 3)) for p in sp["params"] if rng.random() < .4}
    m = gen.build_pctmc(sp, given)
    lo = float(np.round(rng.uniform(.05, 2), 3))
    hi = lo + float(np.round(rng.uniform(.1, 2), 3))
    if rng.random() < .25:
        lo, hi = 0.0, float(10 ** rng.uniform(-4, 0))
    d = "parameters %s, instantiation %s, range %s-%s" % (sp["params"], given, lo, hi)
    some = None
    args = {"min_val": lo, "max_val": hi}
    if len(given) > 1:  # without a bound, the values already there give it
        for b in list(args):
            if rng.random() < .4:
                del args[b]
        lo, hi = sorted([args.get("min_val", min(given.values())), args.get("max_val", max(given.values()))])
        lo, hi = lo - 1e-12, hi + 1e-12
        ctx.count("default_bounds", 2 - len(args))
    if rng.random() < .5:
        some = [p for p in sp["params"] if rng.random() < .5]
        args["parameters"] = list(some)
    if rng.random() < .5:
        args["sseed"] = int(rng.integers(2**31)) if rng.random() < .6 else 0
    asked = some if some is not None else [p for p in sp["params"] if p not in given]
    r = ctx.call(m.randomInstantiation, **args)
    if some is not None:
        ctx.check(args["parameters"] == some, "changed", "the list of parameters became %s; %s" % (args["parameters"], d))
    for p in sp["params"]:
        v = m.parameterValue(p)
        if p in asked:
            ctx.check(m.isInstantiated(param=p) and lo <= v <= hi, "range", "%s = %s, asked %s; %s" % (p, v, asked, d))
        elif p in given:
            ctx.check(v == given[p], "untouched", "%s = %s; %s" % (p, v, d))
        else:
            ctx.check(not m.isInstantiated(param=p), "untouched", "%s = %s; %s" % (p, v, d))
    if len(asked) > 1 and hi - lo > 1e-6:
        ctx.check(len({m.parameterValue(p) for p in asked}) > 1, "independent", "all parameters got the same value; %s" % d)
    if "sseed" in args:
        m2 = gen.build_pctmc(sp, given)
        ctx.seed_lib(rng)
        ctx.call(m2.randomInstantiation, **args)
        ctx.check(all(repr(m.parameterValue(p)) == repr(m2.parameterValue(p)) for p in sp["params"]), "seed", "%s / %s; %s" % (m.parameter_values, m2.parameter_values, d))
    ctx.case((repr(sp["E"]), repr(given), repr(some)), {"case": d, "asked": asked, "result": {p: float(m.parameterValue(p)) for p in sp["params"]}})


CHECK = Check("C17", "a call of a random generator (kind, arguments, seed, process)", [valid, seed, processes, probs, instantiation], quick=15, thorough=300)
