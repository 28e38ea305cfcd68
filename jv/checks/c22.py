"""C22 / C23: synchronous compositions of CTMCs / PCTMCs are the product model."""
import copy, itertools
import numpy as np
from ..core import Check, family
from .. import gen, ref, snap
from .c21 import value, params_in

EXPRS = ["x", "y", "2*x", "x*y", "x+y", "z", "x**2", "0.5", "1.5", "3*z", "y/2"]


def component(rng, ctmc, unique=True, acts=("a", "b"), tag="", big=False, nm={}):
    n = int(rng.integers(1, 5)) if not big else int(rng.integers(8, 13))
    if unique:
        labs = [tag + str(i) for i in range(n)]
    else:
        labs = [str(rng.choice(["u", "v"])) for _ in range(n)]
    E = [[None] * n for _ in range(n)]
    EX = [gen.renamed(e, nm) for e in EXPRS]
    loops = rng.random() < .5
    for i in range(n):
        for j in range(n):
            if (i != j or loops) and rng.random() < (.5 if not big else .8):
                E[i][j] = repr(float(np.round(rng.uniform(.1, 5), 3))) if ctmc or rng.random() < .3 else str(rng.choice(EX))
    sync = []
    for a in acts:
        for _ in range(int(rng.integers(0, 3))):
            r = float(np.round(rng.uniform(.1, 3), 3))
            if not ctmc and rng.random() < .5:
                r = str(rng.choice(EX[:7]))
            t = (int(rng.integers(n)), a, int(rng.integers(n)), r)
            sync.append(t)
    ini = np.zeros(n)
    if rng.random() < .5:
        ini[int(rng.integers(n))] = 1
    else:
        k = rng.choice(n, int(rng.integers(1, n + 1)), replace=False)
        ini[k] = rng.dirichlet(np.ones(len(k))) + .01
        ini /= ini.sum()
    pos = n if rng.random() < .75 else int(rng.integers(0, n + 1))
    used = sorted({p for r in E for e in r for p in params_in(e)} | {p for t in sync for p in params_in(str(t[3]))})
    return {"labels": labs, "E": E, "sync": sync, "init": ini, "pos": pos, "params": used, "ctmc": ctmc}


def raw(c):
    """Raw state ids (with the init state at c['pos']) of the n states."""
    return [i if i < c["pos"] else i + 1 for i in range(len(c["labels"]))]


def make(ctx, rng, c, vals, how=None):
    """The component, sometimes by way of a file."""
    import jajapy as ja
    m = make_(ctx, rng, c, vals, how)
    if rng.random() < .15:
        f = ctx.tmp("component.txt")
        ctx.call(m.save, f)
        m = ctx.call(ja.loadCTMC if c["ctmc"] else ja.loadPCTMC, f)
        ctx.count("components_from_files")
    return m


def make_(ctx, rng, c, vals, how=None):
    import jajapy as ja
    from jajapy.ctmc.CTMC import CTMC
    from jajapy.pctmc.PCTMC import PCTMC
    from sympy import sympify, Symbol
    n, ids = len(c["labels"]), raw(c)
    labs = list(c["labels"])
    labs.insert(c["pos"], "init")
    sync = [(ids[i], a, ids[j], r) for i, a, j, r in c["sync"]]
    seen = {x for i in range(n) for j in range(n) if c["E"][i][j] for x in (i, j)} | {x for t in c["sync"] for x in (t[0], t[2])}
    create = c["pos"] == n and len(seen) == n and rng.random() < .5
    if c["ctmc"]:
        if create:
            tr = [(i, j, float(c["E"][i][j])) for i in range(n) for j in range(n) if c["E"][i][j]]
            ini = c["init"].tolist() if (c["init"] != 1).all() or rng.random() < .5 else int(np.argmax(c["init"]))
            return ctx.call(ja.createCTMC, tr, c["labels"], ini, "comp", sync)
        R = np.zeros((n + 1, n + 1))
        for i in range(n):
            R[c["pos"], ids[i]] = c["init"][i]
            for j in range(n):
                R[ids[i], ids[j]] = float(c["E"][i][j] or 0)
        return ctx.call(CTMC, R, labs, "comp", sync) if sync or rng.random() < .5 else ctx.call(CTMC, R, labs, "comp")
    v = {p: vals[p] for p in c["params"] if p in vals}
    if create:
        tr = [(i, j, c["E"][i][j] if params_in(c["E"][i][j]) else float(c["E"][i][j])) for i in range(n) for j in range(n) if c["E"][i][j]]
        ini = c["init"].tolist() if (c["init"] != 1).all() or rng.random() < .5 else int(np.argmax(c["init"]))
        if not sync and rng.random() < .7:
            return ctx.call(ja.createPCTMC, tr, c["labels"], list(c["params"]), ini, v)
        return ctx.call(ja.createPCTMC, tr, c["labels"], list(c["params"]), ini, v, sync)
    M = np.zeros((n + 1, n + 1), dtype="uint16")
    ex = [sympify("0.0")]
    pi = [[] for _ in c["params"]]
    for i in range(n):
        if c["init"][i] > 0:
            ex.append(sympify(repr(float(c["init"][i]))))
            M[c["pos"], ids[i]] = len(ex) - 1
        for j in range(n):
            e = c["E"][i][j]
            if e:
                ex.append(sympify(e, {p: Symbol(p) for p in c["params"]}))
                M[ids[i], ids[j]] = len(ex) - 1
                for p in params_in(e):
                    pi[c["params"].index(p)].append([ids[i], ids[j]])
    if not sync and rng.random() < .7:
        return ctx.call(PCTMC, M, labs, ex, v, pi, list(c["params"]), "comp")
    return ctx.call(PCTMC, M, labs, ex, v, pi, list(c["params"]), "comp", sync)


def product(cs, vals, scale=None):
    """States (tuples), initial distribution and rates of the composition.
    scale = (component, i, j, factor) multiplies one rate of a component."""
    def rate(k, i, j):
        r = value(cs[k]["E"][i][j], vals)
        return r * scale[3] if scale and scale[:3] == (k, i, j) else r
    S = list(itertools.product(*[range(len(c["labels"])) for c in cs]))
    ix = {s: i for i, s in enumerate(S)}
    R = np.zeros((len(S), len(S)))
    for s in S:
        for k, c in enumerate(cs):
            for j in range(len(c["labels"])):
                if c["E"][s[k]][j]:
                    R[ix[s], ix[s[:k] + (j,) + s[k + 1:]]] += rate(k, s[k], j)
    acts = {a for c in cs for _, a, _, _ in c["sync"]}
    for a in acts:
        have = [k for k, c in enumerate(cs) if any(t[1] == a for t in c["sync"])]
        if len(have) < 2:
            continue
        for combo in itertools.product(*[[t for t in cs[k]["sync"] if t[1] == a] for k in have]):
            r = 1.0
            for t in combo:
                r *= value(str(t[3]), vals)
            for s in S:
                if all(s[k] == t[0] for k, t in zip(have, combo)):
                    d = list(s)
                    for k, t in zip(have, combo):
                        d[k] = t[2]
                    R[ix[s], ix[tuple(d)]] += r
    ini = np.array([np.prod([c["init"][x] for c, x in zip(cs, s)]) for s in S])
    return S, ini, R


def reach(ini, R):
    seen = set(np.nonzero(ini)[0].tolist())
    todo = list(seen)
    while todo:
        i = todo.pop()
        for j in np.nonzero(R[i])[0].tolist():
            if j not in seen:
                seen.add(j)
                todo.append(j)
    return seen


def numbers(ctx, m, vals=None):
    N = m.nb_states
    out = np.zeros((N, N))
    seen = {}  # matrix[i,j] is the index of the expression of the rate
    for i in range(N):
        for j in range(N):
            k = int(m.matrix[i, j])
            if k not in seen:
                seen[k] = float(ctx.call(m.evaluateTransition, i, j, vals) if vals is not None else ctx.call(m.transitionValue, i, j))
            out[i, j] = seen[k]
    return out


def compare(ctx, m, cs, vals, d, got=None, scale=None, mech="rates"):
    """Composite with unique labels against the product."""
    S, ini, R = product(cs, vals, scale)
    name = [",".join(c["labels"][x] for c, x in zip(cs, s)) for s in S]
    labs = list(m.labelling)
    ctx.check(labs.count("init") == 1 and len(set(labs)) == len(labs) and set(labs) - {"init"} <= set(name), "labels", lambda: "%s; %s" % (labs, d))
    ctx.check(m.nb_states == len(labs) == np.asarray(m.matrix).shape[0] == np.asarray(m.matrix).shape[1] == len(m.initial_state), "shape", lambda: "%s %s %s; %s" % (m.nb_states, labs, np.asarray(m.matrix).shape, d))
    i0 = labs.index("init")
    ctx.close(m.initial_state, [1.0 if i == i0 else 0.0 for i in range(len(labs))], "initial", d)
    G = numbers(ctx, m, vals) if got is None else got
    pos = {l: i for i, l in enumerate(labs)}
    re_ = reach(ini, R)
    row = np.zeros(len(S))
    for k, l in enumerate(name):
        if l in pos:
            row[k] = G[i0, pos[l]]
    ctx.close(row / row.sum() if row.sum() > 0 else row, ini, "initial", "initial distribution; %s" % d, rtol=1e-6)
    ctx.check(not G[:, i0].any(), "initial", lambda: "the initial state is entered; %s" % d)
    for k in re_:
        ctx.check(name[k] in pos, "missing", lambda: "the reachable state %s is missing from %s; %s" % (name[k], labs, d))
        for t in range(len(S)):
            w = R[k, t]
            g = G[pos[name[k]], pos[name[t]]] if name[t] in pos else 0.0
            ctx.check(abs(w - g) <= 1e-7 * max(1, w), mech, lambda: "%s -> %s has rate %r instead of %r; %s" % (name[k], name[t], g, w, d))
    ctx.count("rates_compared", len(re_) * len(S))


def indexes(ctx, m, d):
    N = m.nb_states
    inv = {p: [] for p in m.parameter_str}
    for i in range(N):
        for j in range(N):
            for p in m.involvedParameters(i, j):
                ctx.check(p in inv, "parameters", "%s is not declared; %s" % (p, d))
                inv[p].append([i, j])
    for p in m.parameter_str:
        ctx.check(sorted(map(list, ctx.call(m.parameterIndexes, p))) == sorted(inv[p]), "indexes", lambda: "%s is said to be used by %s, not %s; %s" % (p, m.parameterIndexes(p), inv[p], d))


def brief(cs, vals=None):
    return "components %s%s" % ([{k: (v.tolist() if hasattr(v, "tolist") else v) for k, v in c.items()} for c in cs], "" if vals is None else " values %s" % vals)


def drop_lonely(cs):
    """Actions known by a single component are out of scope."""
    for c in cs:
        c["sync"] = [t for t in c["sync"] if sum(any(u[1] == t[1] for u in o["sync"]) for o in cs) > 1]
        c["params"] = sorted({p for r in c["E"] for e in r for p in params_in(e)} | {p for t in c["sync"] for p in params_in(str(t[3]))})


@family("ctmcs", weight=4, quick=30)
def ctmcs(ctx, rng):
    import jajapy as ja
    big = rng.random() < .04
    cs = [component(rng, True, tag=t, big=big) for t in "st"]
    drop_lonely(cs)
    d = brief(cs)
    ms = [make(ctx, rng, c, {}) for c in cs]
    before = [snap.model(m) for m in ms]
    m = ctx.call(ja.synchronousCompositionCTMCs, *ms, **({"name": "compo"} if rng.random() < .5 else {}))
    ctx.check([snap.model(x) for x in ms] == before, "changed", "composition changed a component; %s" % d)
    ctx.check(type(m).__name__ == "PCTMC" and bool(m.isInstantiated()), "kind", "%s; %s" % (type(m).__name__, d))
    compare(ctx, m, cs, {}, d, got=numbers(ctx, m))
    if not big:
        indexes(ctx, m, d)
    ctx.count("states", m.nb_states)
    ctx.count("synchronous_pairs", sum(1 for a in cs[0]["sync"] for b in cs[1]["sync"] if a[1] == b[1]))
    ctx.case(d, {"case": d})


@family("rate-parameters", weight=2, quick=10)
def rate_parameters(ctx, rng):
    """Each parameter is the rate of one transition of one component."""
    import jajapy as ja
    cs = [component(rng, True, tag=t) for t in "st"]
    drop_lonely(cs)
    d = brief(cs)
    m = ctx.call(ja.synchronousCompositionCTMCs, *[make(ctx, rng, c, {}) for c in cs])
    base = numbers(ctx, m)
    S, ini, R0 = product(cs, {})
    re_ = reach(ini, R0)
    left = {}
    for k, c in enumerate(cs):
        for i in range(len(c["labels"])):
            for j in range(len(c["labels"])):
                if c["E"][i][j]:
                    _, _, R = product(cs, {}, (k, i, j, 2.0))
                    if any(abs(R[x] - R0[x]).max() > 0 for x in re_):
                        left[(k, i, j)] = None
    i0 = list(m.labelling).index("init")
    ps = list(m.parameter_str)
    rng.shuffle(ps)
    hit = set()
    for p in ps[:6]:
        v = dict(m.parameter_values)
        v[p] = v[p] * 2
        G = numbers(ctx, m, v)
        if not (abs(G - base) > 1e-12).any() or (abs(G - base) > 1e-12)[i0].any():
            continue
        ok = None
        err = None
        for key in left:
            try:
                compare(ctx, m, cs, {}, d, got=G, scale=key + (2.0,), mech="parameter")
                ok = key
                break
            except Exception as e:
                err = e
        changed = [i for i in range(len(base)) if (abs(G - base) > 1e-12)[i].any()]
        names = {",".join(c["labels"][x] for c, x in zip(cs, S[k])) for k in re_}
        if ok is None and not any(m.labelling[i] in names for i in changed):
            continue
        ctx.check(ok is not None, "parameter", lambda: "doubling %s doubles no single rate of a component: %s; %s" % (p, err, d))
        ctx.check(ok not in hit, "parameter", lambda: "two parameters for %s; %s" % (ok, d))
        hit.add(ok)
        ctx.count("parameters_identified")
    ctx.case(d, {"case": d})


def likelihood(ctx, m, cs, vals, d, rng):
    if m.nb_states > 8:  # the library evaluates rates slowly
        return
    S, ini, R = product(cs, vals)
    labs = [",".join(c["labels"][x] for c, x in zip(cs, s)) for s in S] + ["init"]
    N = len(S)
    X = np.zeros((N + 1, N + 1))
    X[:N, :N] = R
    X[N, :N] = ini
    sp = {"kind": "CTMC", "labels": labs, "R": X, "init": np.array([0.0] * N + [1.0]), "name": "x"}
    for timed in (False, True):
        seqs, mult = gen.traces(rng, sp, 3, 1, 4, timed)
        if timed and len(seqs[0]) < 2:
            continue
        if any(len(s) < 2 for s in seqs):
            seqs = [s for s in seqs if len(s) >= 2]
            mult = [1] * len(seqs)
            if not seqs:
                continue
        w, _ = ref.set_loglik(sp, seqs, mult, timed)
        ctx.close(ctx.call(m.logLikelihood, gen.mkset(seqs, mult, 4 if timed else 0)), w, "likelihood", lambda: "of %s; %s" % (seqs, d), rtol=1e-6)
        ctx.count("likelihoods")


@family("shared-labels", weight=2, quick=10)
def shared(ctx, rng):
    import jajapy as ja
    cs = [component(rng, True, unique=False) for _ in range(2)]
    drop_lonely(cs)
    d = brief(cs)
    m = ctx.call(ja.synchronousCompositionCTMCs, *[make(ctx, rng, c, {}) for c in cs])
    S, ini, R = product(cs, {})
    if not all(R[i].sum() > 0 for i in reach(ini, R)):
        ctx.count("with_absorbing_states")
    likelihood(ctx, m, cs, {}, d, rng)
    ctx.case(d, {"case": d})


# ------------------------------------------------------------------ C23
def some_values(rng, cs):
    allp = sorted({p for c in cs for p in c["params"]})
    v = {p: float(np.round(rng.uniform(.2, 3), 3)) for p in allp}
    if allp and rng.random() < .1:
        v[str(rng.choice(allp))] = 0.0
    return v


@family("pctmcs", weight=4, quick=25)
def pctmcs(ctx, rng):
    import jajapy as ja
    k = int(rng.choice([2, 2, 3, 3, 4]))
    nm = gen.names(rng)
    while True:
        cs = [component(rng, False, tag=t, nm=nm, acts=("a", "b", "c")[:int(rng.integers(1, 4))]) for t in "stuv"[:k]]
        if np.prod([len(c["labels"]) for c in cs]) <= 30:
            break
    drop_lonely(cs)
    vals = some_values(rng, cs)
    given = {p: v for p, v in vals.items() if rng.random() < .7}
    d = brief(cs, given)
    ms = [make(ctx, rng, c, given) for c in cs]
    before = [snap.model(m) for m in ms]
    m = ctx.call(ja.synchronousCompositionPCTMCs, list(ms))
    after = [snap.model(x) for x in ms]
    ctx.check(after == before, "changed", lambda: "composition changed %s of a component; %s" % ([snap.diff(a, b) for a, b in zip(before, after)], d))
    ctx.check(type(m).__name__ == "PCTMC", "kind", "%s; %s" % (type(m).__name__, d))
    ctx.check(all(isinstance(p, str) for p in m.parameter_str) and len(set(m.parameter_str)) == len(m.parameter_str), "parameters", "%s; %s" % (m.parameter_str, d))
    ctx.check({p: float(v) for p, v in m.parameter_values.items() if p in vals} == given, "values", lambda: "%s instead of %s; %s" % (m.parameter_values, given, d))
    compare(ctx, m, cs, vals, d, got=numbers(ctx, m, vals))
    indexes(ctx, m, d)
    other = some_values(rng, cs)
    compare(ctx, m, cs, other, d, got=numbers(ctx, m, other))
    ctx.count("composed_%d" % k)
    # a model made afterwards has no synchronous transitions of its own
    from jajapy.pctmc.PCTMC import PCTMC
    f = ctx.call(ja.createPCTMC, [(0, 0, 1.0)], ["q"], [], 0)
    ctx.check(list(f.synchronous_transitions) == [], "leak", lambda: "a new PCTMC has the synchronous transitions %s; %s" % (f.synchronous_transitions, d))
    # composing the same components again gives the same model
    m2 = ctx.call(ja.synchronousCompositionPCTMCs, list(ms))
    ctx.check(snap.model(m2) == snap.model(m), "again", lambda: "%s; %s" % (snap.diff(snap.model(m), snap.model(m2)), d))
    if all(p in given for p in vals):
        ctx.check(bool(ctx.call(m.isInstantiated)), "values", "not instantiated; %s" % d)
    if all(p in given for p in vals) and all(vals.values()):
        likelihood(ctx, m, cs, vals, d, rng)
    ctx.case(d, {"case": d})


@family("agree", weight=1, quick=5)
def agree(ctx, rng):
    """CTMCs written as PCTMCs compose to the same rates."""
    import jajapy as ja
    cs = [component(rng, True, tag=t) for t in "st"]
    drop_lonely(cs)
    d = brief(cs)
    a = ctx.call(ja.synchronousCompositionCTMCs, *[make(ctx, rng, c, {}) for c in cs])
    b = ctx.call(ja.synchronousCompositionPCTMCs, [make(ctx, rng, dict(c, ctmc=False), {}) for c in cs])
    ctx.check(list(a.labelling) == list(b.labelling) or sorted(a.labelling) == sorted(b.labelling), "agree", lambda: "%s %s; %s" % (a.labelling, b.labelling, d))
    A, B = numbers(ctx, a), numbers(ctx, b)
    o = [list(b.labelling).index(l) for l in a.labelling]
    ctx.close(B[np.ix_(o, o)], A, "agree", d, rtol=1e-6)
    ctx.case(d, {"case": d})


CHECK = Check("C22", "two CTMCs with synchronous transitions", [ctmcs, rate_parameters, shared], quick=25, thorough=300)
