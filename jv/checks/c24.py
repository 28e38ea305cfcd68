"""C24: learning the parameters of a PCTMC."""
import copy, math
import numpy as np
from scipy.optimize import brentq
from ..core import Check, family
from .. import fit, gen, ref, boot

# coefficient, exponents
SIMPLE = [(1, {"x": 1}), (2, {"x": 1}), (1, {"y": 1}), (.5, {"y": 1}), (3.5, {"z": 1}), (1, {"z": 1})]
PRODUCTS = SIMPLE + [(1, {"x": 1, "y": 1}), (3, {"x": 1, "y": 1}), (1, {"x": 2}), (2, {"y": 2}), (1, {"x": 2, "z": 1}),
                     (.25, {"y": 1, "z": 1}), (1, {"x": 3}), (.5, {"x": 1, "y": 1, "z": 1}), (1, {"z": 3})]


def text(mono):
    c, e = mono
    f = [] if c == 1 and e else [repr(float(c)) if c != int(c) else str(int(c))]
    return "*".join(f + [p if k == 1 else "%s**%d" % (p, k) for p, k in e.items()])


def value(mono, vals):
    c, e = mono
    r = float(c)
    for p, k in e.items():
        r *= vals[p] ** k
    return r


def problem(rng, pool, hidden=.6, pconst=.3):
    """A PCTMC whose rates are products of parameters, with its monomials."""
    while True:
        base = gen.g_ctmc(rng, hostile=False, style=str(rng.choice(["dir", "sparse", "sparse"])))
        lab = base["labels"]
        N = len(lab)
        mono = [[None] * N for _ in range(N)]
        few, same = np.round(rng.uniform(.3, 3, 2), 3), rng.random() < .4
        for i in range(N):
            for j in range(N):
                if base["R"][i, j] > 0:
                    if lab[i] == "init" or rng.random() < pconst:
                        mono[i][j] = (float(rng.choice(few)) if same else float(np.round(rng.uniform(.3, 3), 3)), {})
                    else:
                        mono[i][j] = pool[int(rng.integers(len(pool)))]
        used = [p for p in "xyz" if any(m and p in m[1] for r in mono for m in r)]
        if not used:
            continue
        if rng.random() < .15:  # an absorbing state
            k = int(rng.integers(N))
            if lab[k] != "init" and any(m and m[1] for i, r in enumerate(mono) if i != k for m in r):
                mono[k] = [None] * N
        used = [p for p in "xyz" if any(m and p in m[1] for r in mono for m in r)]
        vals = {p: float(np.round(rng.uniform(.3, 2.5), 3)) for p in used}
        nm = gen.names(rng)
        mono = [[m and (m[0], {nm[p]: k for p, k in m[1].items()}) for m in r] for r in mono]
        used, vals = [nm[p] for p in used], {nm[p]: v for p, v in vals.items()}
        E = [[None if m is None else text(m) for m in r] for r in mono]
        return {"kind": "PCTMC", "labels": lab, "E": E, "mono": mono, "params": used, "values": vals, "init": base["init"],
                "name": "p%d" % rng.integers(1000)}


def rates(sp, vals=None):
    v = sp["values"] if vals is None else vals
    N = len(sp["labels"])
    return np.array([[0.0 if sp["mono"][i][j] is None else value(sp["mono"][i][j], v) for j in range(N)] for i in range(N)])


def ctmc(sp, vals=None):
    return {"kind": "CTMC", "labels": sp["labels"], "R": rates(sp, vals), "init": sp["init"], "name": "r"}


def training(rng, sp, timed, n=(2, 6), lmax=7):
    src = copy.deepcopy(sp)
    src["values"] = {p: float(v * math.exp(rng.uniform(-1, 1))) for p, v in sp["values"].items()}
    seqs, mult = gen.traces(rng, ctmc(src), int(rng.integers(*n)), 2, lmax, timed)
    fit.unusual(rng, seqs, mult, timed)
    return seqs, mult


def stats(sp, seqs, mult, timed):
    """Expected uses N[s,s'], expected time (or time scaled by the current exit
    rate, untimed) T[s], and the log-likelihood of the set."""
    c = ctmc(sp)
    R = c["R"]
    e = R.sum(axis=1)
    J = ref.jump(c)
    n = len(R)
    N, T, ll, used = np.zeros((n, n)), np.zeros(n), 0.0, 0
    low = 0.0
    for t, m in zip(seqs, mult):
        p = ref.posteriors(c, t, timed)
        if p is None:
            continue
        used += 1
        g, x, l = p
        ll += m * l
        low = min(low, l)
        if timed:
            for i, dt in enumerate(ref.split(t)[1]):
                N += m * x[i]
                T += m * g[i] * dt
        else:
            N += m * (x.sum(axis=0) if len(x) else 0) + m * g[-1][:, None] * J
            T += m * g.sum(axis=0) / np.where(e > 0, e, 1)
    return N, T, ll, used, low


def step(sp, seqs, mult, timed, learn, constants):
    """The minorisation-maximisation step for rates c.prod(p^k): every learned
    parameter maximises its own part of the surrogate, found by bisection."""
    N, T, ll, used, low = stats(sp, seqs, mult, timed)
    if not used or ((T > 0) & (T < 1e-9)).any() or low < -250:
        return None  # too close to the end of the floating point range to compare
    R = rates(sp)
    new = copy.deepcopy(sp)
    n = len(R)
    moved = {}
    for p in learn:
        terms = []  # (exponent, total degree in the learned ones, uses, weight)
        for i in range(n):
            for j in range(n):
                m = sp["mono"][i][j]
                if m and p in m[1]:
                    deg = sum(k for q, k in m[1].items() if q in learn)
                    terms.append((m[1][p], deg, N[i, j], T[i] * R[i, j]))
        a = sum(k * u for k, d, u, w in terms)
        b = sum(k * w for k, d, u, w in terms)
        if b <= 0:
            continue  # never observed
        f = lambda r: sum(k * w * r ** d for k, d, u, w in terms) - a
        if a <= 0:
            r = 0.0
        else:
            hi = 1.0
            while f(hi) < 0:
                hi *= 2
            r = brentq(f, 0, hi, xtol=1e-15, rtol=1e-13)
        new["values"][p] = sp["values"][p] * r
        moved[p] = r
    if constants:
        for i in range(n):
            for j in range(n):
                m = sp["mono"][i][j]
                if m and not m[1] and T[i] > 0:
                    new["mono"][i][j] = (N[i, j] / T[i], {})
    return new, ll, moved, used


def trajectory(sp, seqs, mult, timed, learn, constants, iters):
    lls = []
    mv = {}
    for _ in range(iters):
        r = step(sp, seqs, mult, timed, learn, constants)
        if r is None:
            return None
        sp, ll, moved, used = r
        mv.update(moved)
        lls.append(ll)
        if any(v < 1e-9 or v > 1e9 for v in sp["values"].values()):
            return None  # a parameter leaves the range where floats say much
    return sp, lls, mv, used


def numeric(m):
    """the rates a model has, from its own expressions and values (our own evaluation)"""
    n = m.nb_states
    R = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            R[i, j] = float(m.transition_expr[m.matrix[i, j]].subs(m.parameter_values))
    return R


def make(ctx, rng, sp, values=True):
    from jajapy.pctmc.PCTMC import createPCTMC
    N = len(sp["labels"])
    if rng.random() < .6 or sp["labels"].index("init") != N - 1 or any(sp["E"][i][N - 1] for i in range(N)) \
            or any(not any(sp["E"][i][j] or sp["E"][j][i] for j in range(N)) for i in range(N)):
        return ctx.call(gen.build_pctmc, sp, values, bool(rng.integers(2)))
    ctx.count("createPCTMC")
    tr = [(i, j, sp["E"][i][j]) for i in range(N - 1) for j in range(N - 1) if sp["E"][i][j]]
    if sorted({k for t in tr for k in t[:2]}) != list(range(N - 1)):
        return ctx.call(gen.build_pctmc, sp, values, bool(rng.integers(2)))
    tr = [tr[i] for i in rng.permutation(len(tr))]
    ini = [0.0 if m is None else m[0] for m in sp["mono"][N - 1][:N - 1]]
    return ctx.call(createPCTMC, tr, sp["labels"][:-1], list(sp["params"]), ini, dict(sp["values"] if values is True else values))


def setup(rng, pool, **k):
    timed = bool(rng.random() < .55)
    sp = problem(rng, pool, **k)
    seqs, mult = training(rng, sp, timed)
    return timed, sp, seqs, mult


def judge(ctx, sp, got, exp, constants, learn, msg):
    ctx.check(list(got.labelling) == sp["labels"], "labels", msg)
    for p in sp["params"]:
        v = got.parameterValue(p)
        ctx.check(isinstance(v, (float, int, np.floating)) and not isinstance(v, complex) and np.isfinite(v) and v >= 0, "value",
                  lambda: "%s is %r: %s" % (p, v, msg))
        if p not in learn:
            ctx.check(v == sp["values"][p], "fixed-moved", lambda: "%s moved from %r to %r: %s" % (p, sp["values"][p], v, msg))
        else:
            ctx.close(v, exp["values"][p], "mm-step", lambda: "%s %s" % (p, msg), rtol=1e-5, atol=1e-9)
    R = numeric(got)
    X = rates(exp)
    ctx.close(R, X, "rates", msg, rtol=1e-5, atol=1e-9)
    if not constants:
        for i in range(len(R)):
            for j in range(len(R)):
                mo = sp["mono"][i][j]
                if mo is None or not mo[1]:
                    w = 0.0 if mo is None else mo[0]
                    ctx.check(R[i, j] == w, "constant-moved", lambda: "rate %d->%d from %r to %r: %s" % (i, j, w, R[i, j], msg))
    # the dependence on the parameters is still the one of the hypothesis
    w = {p: v * f for (p, v), f in zip(sp["values"].items(), (1.7, .6, 2.3))}
    c = copy.copy(got)
    c.parameter_values = w
    ctx.close(numeric(c), rates(exp, w), "expressions", msg, rtol=1e-5, atol=1e-9)


def report(ctx, sp, seqs, mult, timed, learn, how, iters, lls):
    ctx.case((how, timed, str(sp["E"]), str(sp["values"]), str(seqs), mult, iters, learn),
             {"how": how, "timed": timed, "labels": sp["labels"], "rates": sp["E"], "values": sp["values"], "learned": learn,
              "traces": seqs[:2], "iterations": iters, "loglik": lls})
    ctx.count("timed" if timed else "untimed")
    ctx.count("iterations", iters)
    ctx.count("parameters_learned", len(learn))
    ctx.count("parameters_kept", len(sp["params"]) - len(learn))


def monotone(ctx, sp, exp, seqs, mult, timed, lls, got, msg):
    """the trace specification itself: never less likely than before"""
    ll1 = ref.set_loglik({"kind": "CTMC", "labels": sp["labels"], "R": numeric(got), "init": sp["init"]}, seqs, mult, timed)
    k = [i for i, l in enumerate(ref.set_loglik(ctmc(sp), seqs, mult, timed)[1]) if l > -math.inf]
    tot = sum(ll1[1][i] * mult[i] for i in k)
    ctx.check(tot >= lls[0] - 1e-6 * max(1, abs(lls[0])), "less-likely",
              lambda: "log-likelihood went from %r to %r: %s" % (lls[0], tot, msg))


def fitting(ctx, rng, pool, **kw):
    timed, sp, seqs, mult = setup(rng, pool, **kw)
    fixed = [p for p in sp["params"] if rng.random() < .3]
    if len(fixed) == len(sp["params"]):
        fixed = []
    learn = [p for p in sp["params"] if p not in fixed]
    constants = bool(rng.random() < .5)
    iters = int(rng.integers(1, 4))
    r = trajectory(sp, seqs, mult, timed, learn, constants, iters)
    if r is None:
        return
    exp, lls, moved, used = r
    m = make(ctx, rng, sp)
    from jajapy.base.BW import BW
    k = {"fixed_parameters": fixed} if fixed else {}
    procs = int(rng.integers(1, 3))
    storm = rng.random() < .15
    got, info = ctx.call(BW().fit, gen.mkset(seqs, mult, 4 if timed else 0), initial_model=m, max_it=iters, epsilon=-1e300,
                         verbose=0, return_data=True, stormpy_output=storm, update_constant=constants, processes=procs, **k)
    report(ctx, sp, seqs, mult, timed, learn, "fit", iters, lls)
    ctx.count("constants_learned" if constants else "constants_kept")
    msg = "fit, %d iterations, fixed %s, constants %s, %s %s from %s labels %s on %s x %s" % (
        iters, fixed, constants, "timed" if timed else "untimed", sp["E"], sp["values"], sp["labels"], seqs, mult)
    ctx.check(info["learning_rounds"] == iters, "rounds", msg)
    ctx.close(info["training_set_loglikelihood"], lls[-1], "loglik", msg, rtol=1e-6, atol=1e-7)
    if storm:
        ctx.count("stormpy_outputs")
        n = got.nr_states
        ctx.check(n == len(sp["labels"]), "storm-size", msg)
        R = np.zeros((n, n))
        for i in range(n):
            for t in got.transition_matrix.get_row(i):
                R[i, t.column] = float(t.value())
        ctx.close(R, rates(exp), "storm-rates", msg, rtol=1e-5, atol=1e-9)
        return
    judge(ctx, sp, got, exp, constants, learn, msg)
    monotone(ctx, sp, exp, seqs, mult, timed, lls, got, msg)


@family("fit", weight=3, quick=45)
def fit_simple(ctx, rng):
    fitting(ctx, rng, SIMPLE)


@family("fit-products", weight=3, quick=45)
def fit_products(ctx, rng):
    fitting(ctx, rng, PRODUCTS)


@family("parameters", weight=3, quick=40)
def parameters(ctx, rng):
    from jajapy.base.BW import BW
    timed, sp, seqs, mult = setup(rng, PRODUCTS if rng.random() < .6 else SIMPLE)
    learn = [p for p in sp["params"] if rng.random() < .7] or [sp["params"][0]]
    learn = [learn[i] for i in rng.permutation(len(learn))]
    iters = int(rng.integers(1, 4))
    r = trajectory(sp, seqs, mult, timed, learn, False, iters)
    if r is None:
        return
    exp, lls, moved, used = r
    m = make(ctx, rng, sp)
    aslist = not timed and rng.random() < .3
    data = [copy.deepcopy(s) for s, k in zip(seqs, mult) for _ in range(k)] if aslist else gen.mkset(seqs, mult, 4 if timed else 0)
    rd = bool(rng.integers(2))
    got = ctx.call(BW().fit_parameters, data, m, list(learn), max_it=iters, epsilon=-1e300, verbose=bool(rng.random() < .1),
                   return_data=rd)
    if rd:
        got, info = got
    report(ctx, sp, seqs, mult, timed, learn, "fit_parameters", iters, lls)
    msg = "fit_parameters %s, %d iterations, %s %s from %s labels %s on %s x %s" % (
        learn, iters, "timed" if timed else "untimed", sp["E"], sp["values"], sp["labels"], seqs, mult)
    if rd:
        ctx.close(info["training_set_loglikelihood"], lls[-1], "loglik", msg, rtol=1e-6, atol=1e-7)
        ctx.check(info["learning_rounds"] == iters, "rounds", msg)
    ctx.check(sorted(got) == sorted(learn), "keys", lambda: "returned %s: %s" % (got, msg))
    for p in learn:
        ctx.close(float(got[p]), exp["values"][p], "mm-step", lambda: "%s %s" % (p, msg), rtol=1e-5, atol=1e-9)
    ctx.check(m.nb_states == len(sp["labels"]), "states", msg)


class Watch:
    """Records the parameter values a PCTMC goes through."""

    def __enter__(self):
        from jajapy.pctmc.PCTMC import PCTMC
        self.cls, self.old, self.log = PCTMC, PCTMC.instantiate, []
        log, old = self.log, self.old

        def instantiate(m, *a, **k):
            r = old(m, *a, **k)
            log.append(dict(m.parameter_values))
            return r
        PCTMC.instantiate = instantiate
        return self

    def __exit__(self, *a):
        self.cls.instantiate = self.old


@family("noninstantiated", weight=2, quick=25)
def noninstantiated(ctx, rng):
    from jajapy.base.BW import BW
    timed, sp, seqs, mult = setup(rng, PRODUCTS if rng.random() < .6 else SIMPLE)
    free = [p for p in sp["params"] if rng.random() < .6] or [sp["params"][-1]]
    given = {p: v for p, v in sp["values"].items() if p not in free}
    m = make(ctx, rng, sp, given)
    lo, hi = [(.2, 3.5), (.2, 3.5), (None, None), (.2, None), (None, 3.5), (0.0, .009), (0.0, .5)][int(rng.integers(7))]
    # without a bound, the values already there give it
    low, high = [b if b is not None else f(given.values()) if len(given) > 1 else None for b, f in ((lo, min), (hi, max))]
    iters = int(rng.integers(1, 4))
    mode = int(rng.integers(3))
    how = ["fit_nonInstantiatedParameters", "fit_parameters", "fit"][mode]
    data = gen.mkset(seqs, mult, 4 if timed else 0)
    k = dict(max_it=iters, epsilon=-1e300, return_data=True, min_val=lo, max_val=hi)
    with Watch() as w:
        if mode == 0:
            got, info = ctx.call(BW().fit_nonInstantiatedParameters, data, m, verbose=False, **k)
        elif mode == 1:
            got, info = ctx.call(BW().fit_parameters, data, m, list(free), verbose=False, **k)
        else:
            h, info = ctx.call(BW().fit, data, initial_model=m, verbose=0, stormpy_output=False, fixed_parameters=list(given),
                               update_constant=False, processes=1, **k)
            got = {p: h.parameterValue(p) for p in free}
    msg = "%s (free %s in %s..%s), %d iterations, %s %s given %s labels %s on %s x %s" % (
        how, free, lo, hi, iters, "timed" if timed else "untimed", sp["E"], given, sp["labels"], seqs, mult)
    ctx.check(sorted(got) == sorted(free), "keys", lambda: "returned %s: %s" % (got, msg))
    full = [d for d in w.log if set(d) >= set(sp["params"])]
    report(ctx, sp, seqs, mult, timed, free, how, iters, [info["training_set_loglikelihood"]])
    for d in full:
        for p, v in given.items():
            ctx.check(d[p] == v, "fixed-moved", lambda: "%s went from %r to %r: %s" % (p, v, d[p], msg))
    vals = {**given, **{p: float(v) for p, v in got.items()}}
    ctx.check(all(np.isfinite(v) and v >= 0 for v in vals.values()), "value", lambda: "%s %s" % (got, msg))
    if not full:
        return
    ctx.count("instantiations_seen", len(full))
    start = dict(sp, values={p: float(full[0][p]) for p in sp["params"]})
    if low is not None and high is not None:
        ctx.count("ranges_checked")
        ctx.check(all(min(low, high) - 1e-12 <= start["values"][p] <= max(low, high) + 1e-12 for p in free), "bounds", lambda: "%s %s" % (start["values"], msg))
    r = trajectory(start, seqs, mult, timed, free, False, iters)
    if r is None:
        return
    exp, lls, moved, used = r
    for p in sp["params"]:
        ctx.close(vals[p], exp["values"][p], "mm-step", lambda: "%s from %s %s" % (p, start["values"], msg), rtol=1e-5, atol=1e-9)
    ctx.close(info["training_set_loglikelihood"], lls[-1], "loglik", msg, rtol=1e-6, atol=1e-7)


@family("longrun", weight=1, quick=8)
def longrun(ctx, rng):
    """Many iterations, watched one by one."""
    from jajapy.base.BW import BW
    timed, sp, seqs, mult = setup(rng, PRODUCTS)
    m = ctx.call(gen.build_pctmc, sp)
    ps = list(sp["params"])
    ref0 = ref.set_loglik(ctmc(sp), seqs, mult, timed)
    if not any(l > -math.inf for l in ref0[1]):
        return
    with Watch() as w:
        ctx.call(BW().fit_parameters, gen.mkset(seqs, mult, 4 if timed else 0), m, ps, max_it=12, epsilon=1e-9, verbose=False)
    msg = "%s %s from %s labels %s on %s x %s" % ("timed" if timed else "untimed", sp["E"], sp["values"], sp["labels"], seqs, mult)
    last = None
    seen = 0
    for d in [sp["values"]] + w.log:
        v = {p: float(d[p]) for p in ps}
        if any(x < 1e-9 or x > 1e9 for x in v.values()):
            break
        l, each = ref.set_loglik(ctmc(sp, v), seqs, mult, timed)
        if min(x for x in each if x > -math.inf) < -250:
            break
        ctx.check(last is None or l >= last - 1e-7 * max(1, abs(last)), "less-likely",
                  lambda: "average log-likelihood from %r to %r at %s: %s" % (last, l, v, msg))
        last = l
        seen += 1
    report(ctx, sp, seqs, mult, timed, ps, "longrun", seen - 1, [last])
    ctx.count("likelihoods_compared", seen)


@family("tied", weight=1, quick=10)
def tied(ctx, rng):
    """Constants shared by several transitions stay shared."""
    from jajapy.base.BW import BW
    from jajapy.pctmc.PCTMC import PCTMC
    from sympy import sympify
    timed, sp, seqs, mult = setup(rng, SIMPLE, pconst=.7)
    N = len(sp["labels"])
    c = float(np.round(rng.uniform(.3, 3), 3))
    cells = [(i, j) for i in range(N) for j in range(N) if sp["mono"][i][j] and not sp["mono"][i][j][1] and sp["labels"][i] != "init"]
    if len(cells) < 2:
        return
    for i, j in cells:
        sp["mono"][i][j], sp["E"][i][j] = (c, {}), repr(c)
    m0 = ctx.call(gen.build_pctmc, sp)
    k = m0.matrix[cells[0]]
    M = m0.matrix.copy()
    for i, j in cells:
        M[i, j] = k
    m = ctx.call(PCTMC, M, list(sp["labels"]), list(m0.transition_expr), dict(sp["values"]), copy.deepcopy(m0.parameter_indexes),
                 list(sp["params"]), "tied")
    N_, T_, ll, used, low = stats(sp, seqs, mult, timed)
    if not used or low < -250:
        return
    den = sum(T_[i] for i, j in cells)
    exp = sum(N_[i, j] for i, j in cells) / den if den > 0 else c
    got, info = ctx.call(BW().fit, gen.mkset(seqs, mult, 4 if timed else 0), initial_model=m, max_it=1, epsilon=-1e300, verbose=0,
                         return_data=True, stormpy_output=False, processes=1)
    msg = "constant %r at %s, %s %s from %s labels %s on %s x %s" % (c, cells, "timed" if timed else "untimed", sp["E"], sp["values"],
                                                                    sp["labels"], seqs, mult)
    report(ctx, sp, seqs, mult, timed, list(sp["params"]), "tied", 1, [ll])
    R = numeric(got)
    for i, j in cells:
        ctx.close(R[i, j], exp, "tied", lambda: "rate %d->%d %s" % (i, j, msg), rtol=1e-5, atol=1e-9)
    monotone(ctx, sp, None, seqs, mult, timed, [ll], got, msg)


@family("refusals", weight=1, quick=6)
def refusals(ctx, rng):
    from jajapy.base.BW import BW
    timed, sp, seqs, mult = setup(rng, SIMPLE)
    m = ctx.call(gen.build_pctmc, sp)
    s = gen.mkset(seqs, mult, 4 if timed else 0)
    ctx.case(("refusal", str(sp["E"]), str(seqs)))
    ctx.check(ctx.refuses(BW().fit_parameters, s, m, ["nope"], max_it=1, verbose=False), "unknown-parameter", str(sp["params"]))
    h = gen.g_ctmc(rng)
    c = ctx.call(gen.build, h)
    ctx.check(ctx.refuses(BW().fit_parameters, s, c, ["x"], max_it=1, verbose=False), "not-parametric", gen.brief(h))
    ctx.check(ctx.refuses(BW().fit_nonInstantiatedParameters, s, c, max_it=1, verbose=False), "not-parametric", gen.brief(h))


CHECK = Check("C24", "random PCTMCs whose rates are constants and products of powers of parameters (hidden states included), random timed and "
              "untimed training sets; a case is one (model, set, learned parameters, method, iterations), distinct by content",
              [fit_simple, fit_products, parameters, noninstantiated, longrun, tied, refusals], quick=40, thorough=450,
              assumptions=["reference E-step in jv/ref.py; reference M-step by bisection on the surrogate in jv/checks/c24.py"])
