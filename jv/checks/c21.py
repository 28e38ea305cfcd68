"""C21: PCTMCs evaluate their rates and apply instantiations as documented."""
import copy, math
import numpy as np
from ..core import Check, family
from .. import gen, ref, snap

NEG = ["x-1", "2-y", "x-y", "x*y-0.5", "3-z", "x", "z**2", "1.5"]


def value(e, vals):
    """float if all the parameters have a value, else None"""
    if e is None:
        return 0.0
    try:
        return float(eval(e, {"__builtins__": {}}, dict(vals)))
    except NameError:
        return None


def decided(e, vals):
    """float if the value does not depend on the parameters without value, else None"""
    v = value(e, vals)
    if v is None and 0 in vals.values():
        a, b = [value(e, dict({p: c ** (k + 1.5) for k, p in enumerate(params_in(e))}, **vals)) for c in (1.25, 2.75)]
        v = a if a == b else None
    return v


def params_in(e):
    return gen.idents(e)


def isnum(v):
    try:
        float(v)
        return True
    except TypeError:
        return False


def judge(ctx, m, sp, vals, d):
    """Everything the model says about its rates under the values `vals`."""
    N = len(sp["labels"])
    E = sp["E"]
    V = [[value(E[i][j], vals) for j in range(N)] for i in range(N)]
    for p in sp["params"]:
        ctx.check(ctx.call(m.isInstantiated, param=p) is (p in vals), "isInstantiated", "parameter %s; %s" % (p, d))
        v = ctx.call(m.parameterValue, p)
        ctx.check(v == vals[p] if p in vals else math.isnan(v), "parameterValue", "%s is %r; %s" % (p, v, d))
        ctx.check(sorted(map(list, ctx.call(m.parameterIndexes, p))) == sorted([i, j] for i in range(N) for j in range(N) if p in params_in(E[i][j])), "parameterIndexes", "%s: %s; %s" % (p, m.parameterIndexes(p), d))
    ctx.check(ctx.call(m.parameterIndexes, "nope") == [] and math.isnan(ctx.call(m.parameterValue, "nope")), "unknown", d)
    ctx.check(bool(ctx.call(m.isInstantiated)) is all(p in vals for p in sp["params"]), "isInstantiated", "model; %s" % d)
    for i in range(N):
        row = [p for j in range(N) for p in params_in(E[i][j])]
        ctx.check(sorted(ctx.call(m.involvedParameters, i)) == sorted(set(row)), "involvedParameters", "state %d: %s; %s" % (i, m.involvedParameters(i), d))
        full = all(p in vals for p in row)
        ctx.check(ctx.call(m.isInstantiated, i) is full, "isInstantiated", "state %d; %s" % (i, d))
        for j in range(N):
            ps = params_in(E[i][j])
            ctx.check(sorted(ctx.call(m.involvedParameters, i, j)) == ps, "involvedParameters", "%d->%d: %s; %s" % (i, j, m.involvedParameters(i, j), d))
            ctx.check(ctx.call(m.isInstantiated, i, j) is all(p in vals for p in ps), "isInstantiated", "%d->%d; %s" % (i, j, d))
            for f in (m.transitionValue, m.evaluateTransition):
                g = ctx.call(f, i, j)
                if V[i][j] is not None:
                    ctx.check(isnum(g), "value", lambda: "%s(%d,%d) is %s; %s" % (f.__name__, i, j, g, d))
                    ctx.close(float(g), V[i][j], "value", "%s(%d,%d); %s" % (f.__name__, i, j, d))
                elif isnum(g) and 0 in vals.values():
                    ctx.close(float(g), decided(E[i][j], vals), "value", "%s(%d,%d); %s" % (f.__name__, i, j, d))
                else:
                    # symbolic; the remaining parameters are the unknown ones
                    ctx.check(sorted(map(str, g.free_symbols)) == [p for p in ps if p not in vals] or 0 in vals.values(), "symbolic", "%s(%d,%d) is %s; %s" % (f.__name__, i, j, g, d))
                    o = {p: 1.25 + .5 * k for k, p in enumerate(sp["params"])}
                    ctx.close(float(g.subs({s: o[s.name] for s in g.free_symbols})), value(E[i][j], dict(o, **vals)), "symbolic", "%s(%d,%d) is %s; %s" % (f.__name__, i, j, g, d), rtol=1e-6)
            o = {p: round(.3 + .7 * k, 2) for k, p in enumerate(sp["params"])}
            ctx.close(ctx.call(m.evaluateTransition, i, j, dict(o)), value(E[i][j], o), "value", "evaluateTransition(%d,%d,%s); %s" % (i, j, o, d))
        if full:
            e = sum(V[i])
            ctx.close(ctx.call(m.e, i), e, "exit-rate", "state %d; %s" % (i, d))
            ctx.close(ctx.call(m.expected_time, i), 1 / e if e > 0 else math.inf, "expected_time", "state %d; %s" % (i, d))
            t = 0.37
            ctx.close(ctx.call(m.lkl, i, t), e * math.exp(-e * t), "lkl", "state %d; %s" % (i, d))
            ctx.close(ctx.call(m.lkl, i, -.1), 0.0, "lkl", "negative time, state %d; %s" % (i, d))
            for j in range(N):
                ctx.close(ctx.call(m.l, i, j, sp["labels"][i]), V[i][j], "l", "%d->%d; %s" % (i, j, d))
                ctx.close(ctx.call(m.l, i, j, sp["labels"][i] + "x"), 0.0, "l", "other label, %d->%d; %s" % (i, j, d))
                if e > 0:
                    ctx.close(ctx.call(m.tau, i, j, sp["labels"][i]), V[i][j] / e, "tau", "%d->%d; %s" % (i, j, d))
                    ctx.close(ctx.call(m.tau, i, j, sp["labels"][i] + "x"), 0.0, "tau", "other label, %d->%d; %s" % (i, j, d))
        elif 0 not in vals.values():
            ctx.check(ctx.refuses(m.e, i), "not_instantiated", "e(%d) gives %s; %s" % (i, "a value", d))
            for f, a in ((m.expected_time, (i,)), (m.lkl, (i, .5)), (m.tau, (i, 0, sp["labels"][i]))):
                out = []
                if not ctx.refuses(lambda: out.append(f(*a))):
                    ctx.check(out[0] is None or not isnum(out[0]), "not_instantiated", "%s%s gives %s; %s" % (f.__name__, a, out[0], d))
            ctx.check(ctx.refuses(m.next, i), "not_instantiated", "next(%d) gives a step; %s" % (i, d))
            ctx.count("non_instantiated_states")
    if not all(p in vals for p in sp["params"]):
        ctx.check(ctx.refuses(m.logLikelihood, gen.mkset([["init", "a"]], [1], 0)), "not_instantiated", "logLikelihood gives a value; %s" % d)


@family("evaluate", weight=3, quick=20)
def evaluate(ctx, rng):
    sp = gen.g_pctmc(rng, odd=bool(rng.random() < .2))
    if rng.random() < .2:
        gen.absorb(rng, sp)
        ctx.count("with_absorbing_states")
    keep = {p: v for p, v in sp["values"].items() if rng.random() < .7}
    if keep and rng.random() < .15:
        keep[str(rng.choice(sorted(keep)))] = 0.0
        ctx.count("zero_values")
    share = bool(rng.integers(2))
    given = dict(keep)
    if rng.random() < .3:
        given.update({p: math.nan for p in sp["params"] if p not in keep})
        ctx.count("values_given_as_nan")
    m = ctx.call(gen.build_pctmc, sp, given, share)
    d = "%s with %s" % (gen.brief(sp), keep)
    got = ctx.call(m.getAlphabet)
    ctx.check(isinstance(got, list) and sorted(got) == sorted(set(sp["labels"])), "alphabet", lambda: "%r; %s" % (got, d))
    before = snap.model(m)
    judge(ctx, m, sp, keep, d)
    ctx.check(snap.model(m) == before, "changed", "asking for values changed %s; %s" % (snap.diff(before, snap.model(m)), d))
    ctx.case((d, share), {"case": d})


@family("instantiate", weight=3, quick=20)
def instantiate(ctx, rng):
    """Histories of instantiations: applied, or refused without effect."""
    sp = gen.g_pctmc(rng, exprs=NEG, hostile=False)
    if not sp["params"]:
        sp["E"][0][0] = "x" if sp["labels"][0] != "init" else sp["E"][0][0]
        sp["params"] = ["x"] if any(e == "x" for r in sp["E"] for e in r) else []
    N = len(sp["labels"])
    m = ctx.call(gen.build_pctmc, sp, {})
    vals = {}
    hist = []
    for _ in range(int(rng.integers(1, 9))):
        if not sp["params"]:
            break
        if rng.random() < .75:
            ps = [str(p) for p in rng.choice(sp["params"], int(rng.integers(1, len(sp["params"]) + 1)), replace=False)]
            vs = [float(np.round(rng.uniform(0.05, 3.5), 2)) for _ in ps]
            if rng.random() < .2:
                vs = [int(v) + 1 for v in vs]
            elif rng.random() < .4:  # close to the values they have, or small
                vs = [float(vals[p] * (1 + rng.choice([-1, 1]) * 10.0 ** rng.uniform(-14, -3))) if p in vals else float(10 ** rng.uniform(-10, -4)) for p in ps]
                ctx.count("close_or_small_values")
            if rng.random() < .1:
                vs[int(rng.integers(len(vs)))] = 0.0
                ctx.count("zero_values")
            new = dict(vals, **dict(zip(ps, vs)))
            rates = [decided(e, new) for r in sp["E"] for e in r if e]
            # rates whose sign could be a matter of rounding
            margin = min([abs(r) for e, r in zip([e for q in sp["E"] for e in q if e], rates) if r is not None and "-" in e] or [1])
            if margin < 1e-6:
                continue
            ok = all(r is None or r >= 0 for r in rates)
            arg = np.array(vs) if rng.random() < .3 else list(vs)
            got = ctx.call(m.instantiate, list(ps), arg)
            hist.append((ps, vs, bool(got)))
            d = "%s after %s" % (gen.brief(sp), hist)
            ctx.check(bool(got) is ok, "accepted" if got else "refused", d)
            ctx.count("accepted" if ok else "refused")
            if ok:
                vals = new
        else:
            ps = [str(p) for p in rng.choice(sp["params"], int(rng.integers(1, len(sp["params"]) + 1)), replace=False)] if rng.random() < .6 else None
            want = ps if ps is not None else [p for p in sp["params"] if p not in vals]
            # only when values in range can be found easily
            lo, hi = (1.0, 1.9) if rng.random() < .6 else (0.0, float(10 ** rng.uniform(-4, 0)))
            tries = [dict(vals, **{p: float(x) for p, x in zip(want, rng.uniform(lo, hi, len(want)))}) for _ in range(30)]
            if not all(all((decided(e, v) is None or decided(e, v) >= 0) for r in sp["E"] for e in r if e) for v in tries[:30]):
                if sum(all((decided(e, v) is None or decided(e, v) >= 0) for r in sp["E"] for e in r if e) for v in tries) < 5:
                    continue
            ctx.call(m.randomInstantiation, ps, lo, hi)
            hist.append(("random", ps))
            d = "%s after %s" % (gen.brief(sp), hist)
            now = dict(m.parameter_values)
            ctx.check(set(now) == set(vals) | set(want), "random", "values %s; %s" % (now, d))
            for p in now:
                if p in want:
                    ctx.check(lo <= now[p] <= hi, "random", "%s = %s; %s" % (p, now[p], d))
                else:
                    ctx.check(now[p] == vals[p], "random", "%s changed to %s; %s" % (p, now[p], d))
            vals = {p: float(v) for p, v in now.items()}
            rates = [decided(e, vals) for r in sp["E"] for e in r if e]
            ctx.check(all(r is None or r >= -1e-12 for r in rates), "random", "negative rates under %s; %s" % (vals, d))
            ctx.count("random_instantiations")
        d = "%s after %s" % (gen.brief(sp), hist)
        ctx.check({p: float(v) for p, v in m.parameter_values.items()} == {p: float(v) for p, v in vals.items()}, "values", "%s instead of %s; %s" % (m.parameter_values, vals, d))
    judge(ctx, m, sp, vals, "%s after %s" % (gen.brief(sp), hist))
    ctx.case((gen.brief(sp), repr(hist)), {"history": hist, "model": gen.brief(sp)})


@family("independent", weight=1, quick=10)
def independent(ctx, rng):
    """Copies and models made from the same arguments do not share values; an
    instantiated PCTMC is the CTMC it evaluates to."""
    sp = gen.g_pctmc(rng)
    m = ctx.call(gen.build_pctmc, sp)
    d = "%s" % gen.brief(sp)
    seqs, mult = gen.traces(rng, sp, 4, 1, 5)
    S = gen.mkset(seqs, mult, 0)
    tseqs, tmult = gen.traces(rng, sp, 3, 1, 4, True)
    T = gen.mkset(tseqs, tmult, 4)
    c = gen.build(gen.as_ctmc(sp))
    ctx.close(ctx.call(m.logLikelihood, S), ctx.call(c.logLikelihood, S), "as_ctmc", "untimed; %s" % d)
    ctx.close(ctx.call(m.logLikelihood, T), ctx.call(c.logLikelihood, T), "as_ctmc", "timed; %s" % d)
    o = copy.deepcopy(m)
    before = snap.model(m)
    if sp["params"]:
        new = {p: float(np.round(rng.uniform(.1, 3), 3)) for p in sp["params"]}
        ctx.call(o.instantiate, list(new), list(new.values()))
        ctx.check(snap.model(m) == before, "shared", "instantiating a copy changed the model; %s" % d)
        w, _ = ref.set_loglik(gen.as_ctmc(sp, new), seqs, mult)
        ctx.close(ctx.call(o.logLikelihood, S), w, "values", "likelihood after %s; %s" % (new, d))
        w, _ = ref.set_loglik(gen.as_ctmc(sp, new), tseqs, tmult, True)
        ctx.close(ctx.call(o.logLikelihood, T), w, "values", "timed likelihood after %s; %s" % (new, d))
        # back to the first values
        ctx.call(o.instantiate, list(sp["values"]), list(sp["values"].values()))
        ctx.close(ctx.call(o.logLikelihood, T), ctx.call(c.logLikelihood, T), "history", "after %s and back; %s" % (new, d))
    ctx.case(d, {"case": d})


CHECK = Check("C21", "a PCTMC and a history of instantiations", [evaluate, instantiate, independent], quick=25, thorough=300)
