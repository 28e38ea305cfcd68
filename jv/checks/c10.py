"""C10: a saved model read back is the same model."""
import os
import numpy as np
from ..core import Check, family
from .. import gen, snap

KINDS = ["MC", "MDP", "CTMC", "HMM", "GoHMM", "PCTMC"]
NAMES = ["m", "my model", "", "é-ü", "a'b", 'q"q', "x\\y", "MC", "[1, 2]", "name # 1", "unknown_MC", " lead", "trail ", "  two  words  ", "tab\tin", "0", "None"]


def loader(k):
    import importlib
    return getattr(importlib.import_module("jajapy.%s.%s" % (k.lower(), k)), "load" + k)


def nasty(rng, sp):
    """Values whose decimal form is long, tiny, huge or integral."""
    for key in ("P", "A", "B", "R"):
        if key in sp and rng.random() < .6:
            x = sp[key]
            if key == "R":
                sp[key] = np.where(x > 0, x * 10.0 ** rng.integers(-12, 13, x.shape), 0)
            else:
                y = np.where(x > 0, x * 10.0 ** rng.integers(-14, 1, x.shape), 0)
                d = y.sum(axis=-1, keepdims=True)
                sp[key] = np.where(d > 0, y / np.where(d > 0, d, 1), 0)
    if "out" in sp and rng.random() < .6:
        sp["out"] = sp["out"] * 10.0 ** rng.integers(-9, 10, sp["out"].shape)
    return sp


def any_model(ctx, rng, k):
    odd = bool(rng.integers(2))
    sp = nasty(rng, gen.g_gohmm(rng) if k == "GoHMM" else gen.GENS[k](rng, odd=odd))
    sp["name"] = str(rng.choice(NAMES))
    if k == "PCTMC":
        keep = {p: v for p, v in sp["values"].items() if rng.random() < .6}
        if rng.random() < .3:
            keep = {p: float(rng.uniform(.001, 9)) if rng.random() < .8 else 0.0 for p in keep}
        if rng.random() < .4:
            from jajapy.pctmc.PCTMC import PCTMC
            n = len(sp["labels"])
            rates = [.5, 2.0, 1e-7, 3] + ["%s*%s" % (c, p) for p in sp["params"] for c in ("1", "2.5", p)]
            sync = [(int(rng.integers(n)), str(rng.choice(["go", "é x"])), int(rng.integers(n)), rates[int(rng.integers(len(rates)))]) for _ in range(int(rng.integers(1, 4)))]
            ctx.count("with_synchronous_transitions")
            return sp, ctx.call(PCTMC, *gen.pctmc_args(sp, keep, bool(rng.integers(2))), sync)
        return sp, ctx.call(gen.build_pctmc, sp, keep, bool(rng.integers(2)))
    m = ctx.call(gen.build, sp)
    if k == "CTMC" and rng.random() < .4:
        from jajapy.ctmc.CTMC import CTMC
        n = len(sp["labels"])
        sync = [(int(rng.integers(n)), str(rng.choice(["go", "é x"])), int(rng.integers(n)), float(rng.uniform(.1, 3))) for _ in range(int(rng.integers(1, 4)))]
        m = ctx.call(CTMC, sp["R"].copy(), list(sp["labels"]), sp["name"], sync)
        ctx.count("with_synchronous_transitions")
    return sp, m


def number(x):
    """The value of the rate of a synchronous transition for some values of its parameters."""
    return repr(float(eval(str(x), {"__builtins__": {}}, {p: .5 + (sum(map(ord, p)) % 17) / 7.3 for p in gen.idents(str(x))})))


def view(m):
    """Everything the user can ask a model, with exact numbers."""
    d = snap.model(m)
    d["type"] = type(m).__name__
    d["str"] = None
    if "synchronous_transitions" in d:
        d["synchronous_transitions"] = snap.snap([(int(a), str(b), int(c), number(x)) for a, b, c, x in m.synchronous_transitions])
    if "transition_expr" in d:
        d["transition_expr"] = None  # compared by value
    return d


@family("roundtrip", weight=3, quick=120)
def roundtrip(ctx, rng):
    k = str(rng.choice(KINDS))
    sp, m = any_model(ctx, rng, k)
    f = ctx.tmp("m.txt")
    if rng.random() < .3:
        open(f, "w").write("old content " * 10000)
    before = view(m)
    s0 = snap.snap(m)
    ctx.call(m.save, f)
    ctx.check(snap.snap(m) == s0, "save-changes-model", lambda: str(gen.brief(sp)))
    l = ctx.call(loader(k), f)
    after = view(l)
    d = gen.brief(sp)
    ctx.case((k, d), {"kind": k, "model": d})
    ctx.count("kind_" + k)
    for x in before:
        ctx.check(before[x] == after[x], "differs", lambda: "%s: %s of the model read back is %s; model: %s" % (k, x, getattr(l, x, None), d))
    if k == "PCTMC":
        same_rates(ctx, rng, m, l, sp)
    elif not any(np.asarray(getattr(m, "matrix")).sum(axis=-1).flatten() == 0):
        ctx.check(str(m) == str(l), "str", lambda: "%s\n%s" % (m, l))
    g = ctx.tmp("m2.txt")
    ctx.call(l.save, g)
    ctx.check(open(f).read() == open(g).read(), "resave", lambda: "saving the loaded model gives another file: %s" % d)
    if k != "PCTMC":
        fields = {"MC": ["P"], "MDP": ["P"], "CTMC": ["R"], "HMM": ["A", "B", "init"], "GoHMM": ["A", "out", "init"]}[k]
        got = {"P": l.matrix, "R": l.matrix, "A": l.matrix, "B": getattr(l, "output", None), "out": getattr(l, "output", None), "init": l.initial_state}
        for x in fields:
            ctx.check(np.array_equal(np.asarray(got[x], float), sp[x]), "values", lambda: "%s of the loaded %s: %s, saved %s" % (x, k, got[x], sp[x]))
        ctx.check(l.name == sp["name"], "name", l.name)
        if k in ("MC", "MDP", "CTMC"):
            ctx.check(list(l.labelling) == sp["labels"], "labels", l.labelling)


def same_rates(ctx, rng, m, l, sp):
    N = len(sp["labels"])
    ctx.check(list(m.labelling) == list(l.labelling) == sp["labels"], "labels")
    vals = {p: float(rng.uniform(.2, 3)) for p in sp["params"]}
    R = gen.rates_of(sp, vals)
    for i in range(N):
        for j in range(N):
            ctx.close(float(l.evaluateTransition(i, j, vals)), R[i, j], "rate", lambda: "(%d,%d) of %s" % (i, j, gen.brief(sp)), rtol=1e-12, atol=0)
            ctx.check(sorted(m.involvedParameters(i, j)) == sorted(l.involvedParameters(i, j)), "parameters", lambda: "(%d,%d) of %s" % (i, j, gen.brief(sp)))
            ctx.check(m.isInstantiated(i, j) == l.isInstantiated(i, j), "instantiated", lambda: "(%d,%d) of %s" % (i, j, gen.brief(sp)))


@family("large", weight=1, quick=8)
def large(ctx, rng):
    """Models with more than a thousand numbers."""
    k = KINDS[int(rng.integers(5))] if ctx.index else "MC"
    n = int(rng.integers(33, 48))
    P = lambda *shape: np.array([gen.stoch(rng, shape[-1]) for _ in range(int(np.prod(shape[:-1])))]).reshape(shape)
    labels = ["s%d" % (i % 7) for i in range(n)] + ["init"]
    sp = {"kind": k, "labels": labels, "P": P(n + 1, n + 1), "init": np.eye(n + 1)[n], "name": "large"}
    if k == "MDP":
        sp["acts"] = ["a", "b"]
        sp["P"] = P(n + 1, 2, n + 1)
    elif k == "CTMC":
        sp["R"] = sp.pop("P") * rng.uniform(.1, 9)
    elif k in ("HMM", "GoHMM"):
        sp["A"], sp["init"] = P(n, n), P(1, n)[0]
        del sp["P"]
        if k == "HMM":
            sp["alphabet"] = ["o%d" % i for i in range(40)]
            sp["B"] = P(n, 40)
        else:
            sp["out"] = np.stack([rng.normal(0, 3, (n, 16)), rng.uniform(.3, 2.5, (n, 16))], axis=2)
    m = ctx.call(gen.build, sp)
    f = ctx.tmp("l.txt")
    ctx.call(m.save, f)
    l = ctx.call(loader(k), f)
    a, b = view(m), view(l)
    ctx.check(a == b, "differs", lambda: "%s of %d states: %s" % (k, n, str(snap.diff(a, b))[:300]))
    ctx.case((k, n, repr(m.matrix[0].tolist())), {"kind": k, "states": n})


NAMESP = ["beta", "gamma", "E", "S", "I", "N", "Q", "zeta", "alpha", "k_1", "pi", "mu"]


@family("parameter-names", weight=1, quick=12)
def names(ctx, rng):
    """Parameters may be called like mathematical objects."""
    import jajapy as ja
    a, b = (str(x) for x in rng.choice(NAMESP, 2, replace=False))
    v = {a: float(rng.uniform(.1, 3)), b: float(rng.uniform(.1, 3))}
    tr = [(0, 1, a), (1, 2, "2*" + b), (2, 0, "%s*%s" % (a, b)), (1, 0, "%s+%s" % (a, b)), (0, 0, 0.5)]
    m = ctx.call(ja.createPCTMC, list(tr), ["x", "y", "z"], [a, b], 0, dict(v))
    f = ctx.tmp("n.txt")
    ctx.call(m.save, f)
    l = ctx.call(ja.loadPCTMC, f)
    ctx.case((a, b, v), {"parameters": [a, b]})
    for x, what in ((m, "created"), (l, "loaded")):
        for i, j, e in ((0, 1, v[a]), (1, 2, 2 * v[b]), (2, 0, v[a] * v[b]), (1, 0, v[a] + v[b]), (0, 0, .5), (2, 2, 0.0)):
            ctx.close(float(x.evaluateTransition(i, j)), e, "rate", "%s model, parameters %s, transition (%d,%d)" % (what, v, i, j), rtol=1e-12)
        ctx.check(x.isInstantiated() and sorted(x.involvedParameters(1, 0)) == sorted([a, b]), "parameters", "%s %s" % (what, v))


@family("wrong-kind", weight=1, quick=36)
def wrong(ctx, rng):
    """A file holding another kind of model is refused."""
    k, k2 = (str(x) for x in rng.choice(KINDS, 2, replace=False))
    sp, m = any_model(ctx, rng, k)
    f = ctx.tmp("w.txt")
    ctx.call(m.save, f)
    ctx.case((k, k2, gen.brief(sp)), {"saved": k, "loaded as": k2})
    ctx.check(ctx.refuses(loader(k2), f), "accepted", "load%s accepted a file holding a %s: %s" % (k2, k, gen.brief(sp)))


@family("overwritten", weight=1, quick=10)
def several(ctx, rng):
    """Files keep their own model; saving again replaces the content."""
    ms = [(k,) + any_model(ctx, rng, k) for k in rng.choice(KINDS, 4)]
    fs = [ctx.tmp("s%d.txt" % i) for i in range(4)]
    for (k, sp, m), f in zip(ms, fs):
        ctx.call(m.save, f)
    ctx.call(ms[0][2].save, fs[1])
    for i in (3, 1, 2, 0):
        k, sp, m = ms[0] if i == 1 else ms[i]
        l = ctx.call(loader(str(k)), fs[i])
        a, b = view(m), view(l)
        ctx.check(a == b, "differs", lambda: "%s: %s" % (snap.diff(a, b), gen.brief(sp)))
    ctx.case(tuple(repr(gen.brief(x[1])) for x in ms), {"kinds": [str(x[0]) for x in ms]})


CHECK = Check("C10", "random models of the six kinds with odd labels and names, extreme numbers, partial instantiations; a case is one model "
              "saved and read back (or one wrong-kind load), distinct by content", [roundtrip, large, names, wrong, several], quick=20, thorough=200,
              assumptions=["names and labels do not contain line breaks", "rates, probabilities and Gaussian parameters are finite"])
