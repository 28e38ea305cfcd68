"""C18: models are what the user wrote, accessors follow the definitions, invalid models are refused."""
import copy, math, re
import numpy as np
from ..core import Check, family
from .. import gen, ref, snap

KINDS = ["MC", "MDP", "CTMC", "HMM", "GoHMM"]


def proper(sp):
    """Move the only 'init' state last and forbid entering it, as create* does."""
    lab = sp["labels"]
    if lab.count("init") != 1:
        return None
    i = lab.index("init")
    o = [j for j in range(len(lab)) if j != i] + [i]
    sp = copy.deepcopy(sp)
    sp["labels"] = [lab[j] for j in o]
    sp["init"] = sp["init"][o]
    for k in ("P", "R"):
        if k in sp:
            x = sp[k]
            sp[k] = x[np.ix_(o, range(x.shape[1]), o)] if x.ndim == 3 else x[np.ix_(o, o)]
    return sp


def want_spec(rng, kd, odd):
    while True:
        sp = gen.g_any(rng, [kd], odd=odd) if kd != "GoHMM" else gen.g_gohmm(rng)
        if kd in ("HMM", "GoHMM"):
            return sp
        sp = proper(sp)
        if sp is None:
            continue
        n = len(sp["labels"]) - 1
        X = sp["P"] if "P" in sp else sp["R"]
        if X[..., n].any():
            continue
        row = gen.stoch(rng, n) if rng.random() < .5 else np.eye(n)[int(rng.integers(n))]
        row = np.append(row, 0.0)
        if kd == "MDP":
            X[n] = row  # every action
        else:
            X[n] = row
        used = set()
        for idx in np.argwhere(X[:n] > 0):
            used |= {int(idx[0]), int(idx[-1])}
        if used == set(range(n)) and (kd != "MDP" or (X[:n].sum(axis=2) > 0).any(axis=0).all()):
            return sp


def init_arg(rng, row):
    """How a user may write the initial distribution."""
    row = [float(x) for x in row]
    forms = ["list", "array"] + (["int"] * 3 if 1.0 in row else [])
    f = str(rng.choice(forms))
    return {"list": row, "array": np.array(row), "int": row.index(1.0) if 1.0 in row else None}[f]


def compare(ctx, m, sp, d):
    """Exact content of a model against its spec."""
    k = sp["kind"]
    ctx.check(type(m).__name__ == k, "kind", "%s; %s" % (type(m).__name__, d))
    ctx.check(m.name == sp["name"], "name", "%r; %s" % (m.name, d))
    key = {"MC": "P", "MDP": "P", "CTMC": "R", "HMM": "A", "GoHMM": "A"}[k]
    ctx.check(m.nb_states == len(sp[key]), "states", "%s; %s" % (m.nb_states, d))
    ctx.close(m.initial_state, sp["init"], "initial", d, rtol=1e-12, atol=0)
    X = np.asarray(m.matrix, float)
    Y = sp[key]
    if k == "MDP":
        ctx.check(sorted(m.actions) == sorted(sp["acts"]), "actions", "%s; %s" % (m.actions, d))
        Y = Y[:, [sp["acts"].index(a) for a in m.actions], :]
    ctx.close(X, Y, "transitions", d, rtol=1e-12, atol=0)
    if "labels" in sp:
        ctx.check([str(x) for x in m.labelling] == sp["labels"], "labels", "%s; %s" % (m.labelling, d))
        ctx.check(isinstance(m.getAlphabet(), list) and sorted(m.getAlphabet()) == sorted(set(sp["labels"])), "alphabet", "%s; %s" % (m.getAlphabet(), d))
    if k == "HMM":
        ctx.check(sorted(m.getAlphabet()) == sorted(sp["alphabet"]), "alphabet", "%s; %s" % (m.getAlphabet(), d))
        ctx.close(np.asarray(m.output, float), sp["B"][:, [sp["alphabet"].index(o) for o in m.alphabet]], "emissions", d, rtol=1e-12, atol=0)
    if k == "GoHMM":
        ctx.close(np.asarray(m.output, float), sp["out"], "gaussians", d, rtol=1e-12, atol=0)
        ctx.check(m.nb_distributions == sp["out"].shape[1], "gaussians", "%s distributions; %s" % (m.nb_distributions, d))


@family("create", weight=4, quick=60)
def create(ctx, rng):
    """create* functions build the model described by the transitions."""
    import jajapy as ja
    from jajapy.hmm.HMM import createHMM
    kd = str(rng.choice(KINDS))
    sp = want_spec(rng, kd, rng.random() < .3)
    d = "%s" % gen.brief(sp)
    if kd in ("HMM", "GoHMM"):
        n = len(sp["A"])
        tr = [(i, j, float(sp["A"][i, j])) for i in range(n) for j in range(n) if sp["A"][i, j] > 0]
        rng.shuffle(tr)
        tr = [(int(i), int(j), float(x)) for i, j, x in tr]
        ini = init_arg(rng, sp["init"])
        if kd == "HMM":
            keep = [k for k, o in enumerate(sp["alphabet"]) if sp["B"][:, k].any()]
            sp["alphabet"], sp["B"] = [sp["alphabet"][k] for k in keep], sp["B"][:, keep]
            em = [(i, o, float(sp["B"][i, k])) for i in range(n) for k, o in enumerate(sp["alphabet"]) if sp["B"][i, k] > 0]
            em = [em[i] for i in rng.permutation(len(em))]
            args = [tr, em, ini]
            f = createHMM
        else:
            if rng.random() < .5:
                out = [[tuple(map(float, x)) for x in st] for st in sp["out"]]
            else:
                out = [(s, float(x[0]), float(x[1])) for k in range(sp["out"].shape[1]) for s, x in [(s, sp["out"][s, k]) for s in rng.permutation(n).tolist()]]
            args = [tr, out, ini]
            f = ja.createGoHMM
    else:
        n = len(sp["labels"]) - 1
        X = sp["P"] if "P" in sp else sp["R"]
        if kd == "MDP":
            tr = [(int(i), sp["acts"][a], int(j), float(X[i, a, j])) for i, a, j in np.argwhere(X[:n] > 0)]
        else:
            tr = [(int(i), int(j), float(X[i, j])) for i, j in np.argwhere(X[:n] > 0)]
        tr = [tr[i] for i in rng.permutation(len(tr))]
        ini = init_arg(rng, X[n, 0, :n] if kd == "MDP" else X[n, :n])
        args = [tr, list(sp["labels"][:n]), ini]
        f = {"MC": ja.createMC, "MDP": ja.createMDP, "CTMC": ja.createCTMC}[kd]
    before = snap.snap(args)
    m = ctx.call(f, *args, name=sp["name"])
    ctx.check(snap.snap(args) == before, "changed", "the arguments became %s; %s" % (args, d))
    compare(ctx, m, sp, "created from %s" % (args,))
    ctx.case((kd, repr(args)), {"kind": kd, "args": args})


@family("createp", weight=2, quick=25)
def createp(ctx, rng):
    """createPCTMC"""
    import jajapy as ja
    from sympy import sympify, Symbol
    sp = gen.g_pctmc(rng, nm=dict(zip("xyz", "xyz")))
    names = dict(zip("xyz", rng.permutation(["x", "y", "z", "beta", "E", "lambda_1", "N", "mu2"])[:3].tolist()))
    keep = [i for i, l in enumerate(sp["labels"]) if l != "init"]
    n = len(keep)
    tr, used = [], set()
    for i, s in enumerate(keep):
        for j, t in enumerate(keep):
            e = sp["E"][s][t]
            if e is None:
                continue
            used |= {i, j}
            for a, b in names.items():
                e = re.sub(r"\b%s\b" % a, b, e)
            tr.append((i, j, e if not re.fullmatch(r"[0-9.]+", e) or rng.random() < .5 else float(e)))
    if used != set(range(n)) or not tr:
        ctx.case(("skip",))
        return
    params = [names[p] for p in "xyz"]
    params = [params[i] for i in rng.permutation(3)]
    vals = {names[p]: float(np.round(rng.uniform(.1, 3), 3)) for p in "xyz" if rng.random() < .7}
    row = gen.stoch(rng, n) if rng.random() < .5 else np.eye(n)[int(rng.integers(n))]
    args = [[tr[i] for i in rng.permutation(len(tr))], [sp["labels"][i] for i in keep], params, init_arg(rng, row), dict(vals)]
    before = snap.snap(args)
    m = ctx.call(ja.createPCTMC, *args, name="p")
    d = "createPCTMC(%s)" % (args,)
    ctx.check(snap.snap(args) == before, "changed", "the arguments became %s; %s" % (args, d))
    ctx.check(m.labelling == args[1] + ["init"], "labels", "%s; %s" % (m.labelling, d))
    sym = {p: Symbol(p) for p in params}
    W = [[sympify("0")] * (n + 1) for _ in range(n + 1)]
    for i, j, e in tr:
        W[i][j] = sympify(str(e), sym)
    for j in range(n):
        W[n][j] = sympify(float(row[j]))
    used = {p: set() for p in params}
    for i in range(n + 1):
        for j in range(n + 1):
            g = m.transitionExpression(i, j)
            ctx.check(abs(float((g - W[i][j]).subs({p: .7312 + k for k, p in enumerate(params)}))) < 1e-9 and g.free_symbols == W[i][j].free_symbols,
                      "expression", "(%d,%d): %s instead of %s; %s" % (i, j, g, W[i][j], d))
            for s in W[i][j].free_symbols:
                used[s.name].add((i, j))
    for p in params:
        got = [tuple(int(y) for y in x) for x in m.parameterIndexes(p)]
        ctx.check(set(got) == used[p], "indexes", "%s: %s instead of %s; %s" % (p, got, used[p], d))
        v = m.parameterValue(p)
        ctx.check(v == vals[p] if p in vals else math.isnan(v), "values", "%s = %s; %s" % (p, v, d))
    ctx.case(repr(args), {"args": args})


@family("constructor", weight=3, quick=40)
def constructor(ctx, rng):
    """The class constructors, including forms users may write."""
    kd = str(rng.choice(KINDS))
    sp = gen.g_any(rng, [kd]) if kd == "GoHMM" else gen.g_any(rng, [kd], odd=rng.random() < .3)
    d = "%s" % gen.brief(sp)
    if kd == "HMM":
        from jajapy.hmm.HMM import HMM
        if 1.0 in sp["init"] and rng.random() < .5:
            ini = sp["init"].tolist().index(1.0)
        else:
            ini = sp["init"].tolist() if rng.random() < .5 else sp["init"].copy()
        out = sp["B"].tolist() if rng.random() < .5 else sp["B"].copy()
        m = ctx.call(HMM, sp["A"].copy(), out, list(sp["alphabet"]), ini, sp["name"])
    elif kd == "GoHMM":
        from jajapy.gohmm.GoHMM import GoHMM
        out = sp["out"].tolist() if rng.random() < .5 else sp["out"].copy()
        m = ctx.call(GoHMM, sp["A"].copy(), out, sp["init"].tolist() if rng.random() < .5 else sp["init"].copy(), sp["name"])
    else:
        m = ctx.call(gen.build, sp)
    compare(ctx, m, sp, d)
    ctx.call(m.rename, "another name")
    ctx.check(m.name == "another name", "name", d)
    ctx.case((kd, d), {"model": gen.brief(sp)})


def scalar(ctx, got, want, mech, d):
    ctx.count("accessor_values")
    ctx.close(float(got), float(want), mech, d, rtol=1e-9, atol=1e-12)


@family("accessors", weight=4, quick=40)
def accessors(ctx, rng):
    kd = str(rng.choice(KINDS))
    sp = gen.g_any(rng, [kd]) if kd == "GoHMM" else gen.g_any(rng, [kd], odd=rng.random() < .3)
    m = gen.build(sp)
    before = snap.model(m)
    d = "%s" % gen.brief(sp)
    N = len(sp["init"])
    labs = list(dict.fromkeys(sp.get("labels", sp.get("alphabet", [])))) + ["unknown!"]
    for s in range(N):
        scalar(ctx, ctx.call(m.pi, s), sp["init"][s], "pi", "pi(%d); %s" % (s, d))
        if "labels" in sp:
            ctx.check(ctx.call(m.getLabel, s) == sp["labels"][s], "label", "getLabel(%d); %s" % (s, d))
            for o in labs:
                scalar(ctx, ctx.call(m.b, s, o), sp["labels"][s] == o, "b", "b(%d,%r); %s" % (s, o, d))
        if kd == "CTMC":
            e = sp["R"][s].sum()
            scalar(ctx, ctx.call(m.e, s), e, "e", "e(%d); %s" % (s, d))
            scalar(ctx, ctx.call(m.expected_time, s), 1 / e, "expected_time", "expected_time(%d); %s" % (s, d))
            for t in (0.0, float(rng.exponential(1 / e)), -1.0):
                scalar(ctx, ctx.call(m.lkl, s, t), e * math.exp(-e * t) if t >= 0 else 0, "lkl", "lkl(%d,%s); %s" % (s, t, d))
        if kd == "HMM":
            for o in labs:
                w = sp["B"][s, sp["alphabet"].index(o)] if o in sp["alphabet"] else 0
                scalar(ctx, ctx.call(m.b, s, o), w, "b", "b(%d,%r); %s" % (s, o, d))
            got = ctx.call(m.getAlphabet, s)
            ctx.check(sorted(got) == sorted(o for k, o in enumerate(sp["alphabet"]) if sp["B"][s, k] > 0), "alphabet", "getAlphabet(%d)=%s; %s" % (s, got, d))
        if kd == "GoHMM":
            x = [float(rng.normal(a, b)) for a, b in sp["out"][s]]
            scalar(ctx, ctx.call(m.b, s, x), ref.go_b(sp, x)[s], "b", "b(%d,%s); %s" % (s, x, d))
            ctx.close(ctx.call(m.mu, s), sp["out"][s, :, 0], "mu", "mu(%d); %s" % (s, d))
            for k in range(len(x)):
                scalar(ctx, ctx.call(m.mu_n, s, k), sp["out"][s, k, 0], "mu", "mu_n(%d,%d); %s" % (s, k, d))
                scalar(ctx, ctx.call(m.b_n, s, k, x[k]), ref.norm_pdf(x[k], *sp["out"][s, k]), "b", "b_n(%d,%d); %s" % (s, k, d))
        if kd == "MDP":
            av = [a for i, a in enumerate(sp["acts"]) if sp["P"][s, i].sum() > 0]
            got = ctx.call(m.getActions, s)
            ctx.check(sorted(got) == sorted(av), "actions", "getActions(%d)=%s; %s" % (s, got, d))
        for t in range(N):
            if kd in ("HMM", "GoHMM", "MC"):
                p = sp["P" if kd == "MC" else "A"][s, t]
                scalar(ctx, ctx.call(m.a, s, t), p, "a", "a(%d,%d); %s" % (s, t, d))
                if kd == "GoHMM":
                    scalar(ctx, ctx.call(m.tau, s, t, x), p * ref.go_b(sp, x)[s], "tau", "tau(%d,%d,%s); %s" % (s, t, x, d))
                else:
                    for o in labs:
                        b = ref.emis(sp, o)[s]
                        scalar(ctx, ctx.call(m.tau, s, t, o), p * b, "tau", "tau(%d,%d,%r); %s" % (s, t, o, d))
            elif kd == "CTMC":
                for o in labs:
                    b = float(sp["labels"][s] == o)
                    scalar(ctx, ctx.call(m.l, s, t, o), b * sp["R"][s, t], "l", "l(%d,%d,%r); %s" % (s, t, o, d))
                    scalar(ctx, ctx.call(m.tau, s, t, o), b * sp["R"][s, t] / e, "tau", "tau(%d,%d,%r); %s" % (s, t, o, d))
            else:
                for i, a in enumerate(sp["acts"]):
                    scalar(ctx, ctx.call(m.a, s, t, a), sp["P"][s, i, t], "a", "a(%d,%d,%r); %s" % (s, t, a, d))
                    for o in labs:
                        scalar(ctx, ctx.call(m.tau, s, a, t, o), (sp["labels"][s] == o) * sp["P"][s, i, t], "tau", "tau(%d,%r,%d,%r); %s" % (s, a, t, o, d))
                scalar(ctx, ctx.call(m.tau, s, "unknown!", t, sp["labels"][s]), 0, "tau", "unknown action; %s" % d)
    if "labels" in sp:
        got = ctx.call(m.getAlphabet)
        ctx.check(sorted(got) == sorted(set(sp["labels"])), "alphabet", "%s; %s" % (got, d))
        for bad in (N, N + 3, -1 - N):
            ctx.check(ctx.refuses(m.getLabel, bad), "index", "getLabel(%d) answered; %s" % (bad, d))
            if kd == "MC":
                ctx.check(ctx.refuses(m.a, bad, 0) and ctx.refuses(m.a, 0, bad) and ctx.refuses(m.tau, bad, 0, "a"), "index", "a(%d,0) answered; %s" % (bad, d))
            if kd == "CTMC":
                ctx.check(ctx.refuses(m.e, bad) and ctx.refuses(m.l, 0, bad, "a"), "index", "e(%d) answered; %s" % (bad, d))
    if kd == "MDP":
        ctx.check(sorted(ctx.call(m.getActions)) == sorted(sp["acts"]), "actions", d)
    if kd == "CTMC":
        mc = ctx.call(m.toMC, "embedded")
        ctx.check(type(mc).__name__ == "MC" and mc.name == "embedded", "toMC", d)
        ctx.close(mc.matrix, ref.jump(sp), "toMC", d, rtol=1e-9)
        ctx.check(list(mc.labelling) == sp["labels"], "toMC", d)
        mc.matrix[:] = 0
        mc.labelling[0] = "changed"
    ctx.call(str, m)
    dd = snap.diff(before, snap.model(m))
    ctx.check(not dd, "changed", "looking at the model changed %s; %s" % (dd, d))
    ctx.case((kd, d), {"model": gen.brief(sp)})


NUM = r"([-+0-9.e]+|inf|nan)"


@family("printed", weight=2, quick=20)
def printed(ctx, rng):
    """What print shows are the model's transitions."""
    kd = str(rng.choice(KINDS))
    sp = gen.g_any(rng, [kd])
    m = gen.build(sp)
    d = "%s" % gen.brief(sp)
    txt = ctx.call(str, m)
    ctx.check("Name: " + sp["name"] in txt, "printed", "name; %s" % d)
    got = {}
    cur = -1
    for line in txt.split("\n"):
        x = re.match(r"s(\d+)(?: - \((.*)\))? -> s(\d+) : (?:lambda = )?" + NUM + "$", line)
        if x:
            got[(int(x[1]), x[2], int(x[3]))] = float(x[4])
        x = re.match(r"s(\d+) => (.*) : " + NUM + "$", line)
        if x:
            got[(int(x[1]), "=>", x[2])] = float(x[3])
    want = {}
    X = sp.get("P", sp.get("R", sp.get("A")))
    for idx in np.argwhere(X > 0):
        k = (int(idx[0]), sp["acts"][idx[1]], int(idx[2])) if kd == "MDP" else (int(idx[0]), None, int(idx[1]))
        want[k] = X[tuple(idx)]
    if kd == "HMM":
        for s, o in np.argwhere(sp["B"] > 0):
            want[(int(s), "=>", sp["alphabet"][o])] = sp["B"][s, o]
    for k in got:
        ctx.check(k in want and abs(got[k] - want[k]) <= 1e-4 + 1e-6 * want[k], "printed", "%s printed as %s, is %s; %s" % (k, got[k], want.get(k), d))
    for k in want:
        big = want[k] / (sp["R"][k[0]].sum() if kd == "CTMC" else 1)
        ctx.check(k in got or big < 1e-3, "printed", "%s (%s) is not printed; %s" % (k, want[k], d))
    if kd == "GoHMM":
        v = [float(x) for x in re.findall(r"(?:mean|std) \d+: " + NUM, txt)]
        ctx.close(v, sp["out"].ravel(), "printed", d, rtol=1e-3, atol=1e-3)
    initial_line(ctx, txt, sp["init"], d)
    ctx.count("lines_read", len(got))
    ctx.case((kd, d), {"text": txt[:400]})


def initial_line(ctx, txt, init, d):
    """Where the text says the model starts."""
    x = re.findall(r"^Initial state: (.*)$", txt, re.M)
    ctx.check(len(x) == 1, "printed", "%d lines 'Initial state' for %s; %s" % (len(x), init, d))
    got = {}
    for part in x[0].split(", "):
        y = re.match(r"s(\d+)(?:: %s)?$" % NUM, part)
        ctx.check(y is not None, "printed", "initial states %r for %s; %s" % (x[0], init, d))
        got[int(y[1])] = float(y[2]) if y[2] else 1.0
    for s, p in enumerate(init):
        ctx.check(abs(got.get(s, 0.0) - p) < 2e-3, "printed", "initial states %r for %s; %s" % (x[0], list(init), d))


@family("printedp", weight=1, quick=12)
def printedp(ctx, rng):
    """What print shows of a PCTMC, instantiated or not."""
    from sympy import sympify, Symbol
    sp = gen.g_pctmc(rng)
    vals = {p: v for p, v in sp["values"].items() if rng.random() < .6}
    m = gen.build_pctmc(sp, dict(vals), bool(rng.integers(2)))
    d = "%s with %s" % (gen.brief(sp), vals)
    txt = ctx.call(str, m)
    ctx.check("Name: " + sp["name"] in txt, "printed", "name; %s" % d)
    shown = {k: float(v) for k, v in re.findall(r"^(\w+) = " + NUM + "$", txt, re.M)}
    ctx.check(set(shown) == set(vals) and all(abs(shown[p] - vals[p]) <= 1e-5 + 1e-9 * abs(vals[p]) for p in vals), "printed", "parameters %s; %s" % (shown, d))
    initial_line(ctx, txt, np.array([l == "init" for l in sp["labels"]], float) / sp["labels"].count("init"), d)
    ctx.check(re.findall(r"^-+STATE (\d+)--(.*)----$", txt, re.M) == [(str(i), l) for i, l in enumerate(sp["labels"])], "printed", "states of %r; %s" % (txt[:600], d))
    sym = {p: Symbol(p) for p in sp["params"]}
    o = {p: .7312 + k for k, p in enumerate(sp["params"])}
    got = {}
    for i, j, e, v in re.findall(r"^s(\d+) -> s(\d+) : lambda = (.*?)(?: \(=(.*)\))?$", txt, re.M):
        got[int(i), int(j)] = (e, v)
    N = len(sp["labels"])
    for i in range(N):
        for j in range(N):
            e = sp["E"][i][j]
            if e is None:
                ctx.check((i, j) not in got or float(sympify(got[i, j][0], sym).subs(o)) == 0, "printed", "(%d,%d) printed as %s; %s" % (i, j, got.get((i, j)), d))
                continue
            w = eval(e, {}, dict(o))
            if (i, j) not in got:
                ctx.check(w == 0, "printed", "(%d,%d) is not printed; %s" % (i, j, d))
                continue
            g = float(sympify(got[i, j][0], sym).subs(o))
            ctx.check(abs(g - w) <= 1e-6 * max(1, abs(w)), "printed", "(%d,%d) printed as %s; %s" % (i, j, got[i, j], d))
            ps = gen.idents(e)
            if ps and all(p in vals for p in ps):
                v = eval(e, {}, dict(vals))
                ctx.check(got[i, j][1] and abs(float(got[i, j][1]) - v) <= 1e-5 + 1e-9 * abs(v), "printed", "(%d,%d) has the value %s, printed as %s; %s" % (i, j, v, got[i, j], d))
                ctx.count("values_read")
            elif any(p not in vals for p in ps):
                ctx.check(not got[i, j][1], "printed", "(%d,%d) has no value, printed as %s; %s" % (i, j, got[i, j], d))
    ctx.count("lines_read", len(got))
    ctx.case(d, {"text": txt[:400]})


@family("refusep", weight=1, quick=12)
def refusep(ctx, rng):
    """Invalid PCTMCs and HMMs are refused, by the constructors and create*."""
    import jajapy as ja
    from jajapy.hmm.HMM import createHMM
    from sympy import sympify
    sp = gen.g_pctmc(rng)
    d = "%s" % gen.brief(sp)
    good = gen.pctmc_args(sp)
    ctx.call(ja.PCTMC, *copy.deepcopy(good))

    def variant(why, f):
        a = copy.deepcopy(list(good))
        if f(a) is False:
            return
        ctx.count("refused")
        ctx.check(ctx.refuses(ja.PCTMC, *a), "refuse", "a PCTMC with %s is accepted: %s" % (why, a))

    def nolabel(a):
        a[1] = [l if l != "init" else "a" for l in a[1]]

    def short(a):
        i = [i for i, l in enumerate(a[1]) if l != "init" or a[1].count("init") > 1]
        if not i:
            return False
        del a[1][i[0]]

    def big(a):
        i, j = int(rng.integers(len(a[0]))), int(rng.integers(len(a[0])))
        a[0][i, j] = len(a[2]) + int(rng.integers(0, 3))

    def neg(a):
        a[0] = a[0].astype(int)
        a[0][int(rng.integers(len(a[0]))), int(rng.integers(len(a[0])))] = -1

    def names(a):
        a[5] = list(a[5]) + ["extra"] if rng.random() < .5 or not a[5] else list(a[5])[:-1]

    variant("no initial state", nolabel)
    variant("too many labels", lambda a: a[1].append("a"))
    variant("too few labels", short)
    variant("a transition without expression", big)
    variant("a negative expression index", neg)
    variant("%s parameter names" % "another number of", names)
    # create*
    n = int(rng.integers(1, 4))
    tr = [(i, (i + 1) % n, "x" if i else "2*x") for i in range(n)]
    r = [1.0 / n] * n
    ctx.call(ja.createPCTMC, tr, list("abc"[:n]), ["x"], list(r))
    off = float(rng.choice([-.3, -.05, -.01, .01, .2]))
    r[int(rng.integers(n))] += off
    one = [(i, (i + 1) % n, 1.0) for i in range(n)]
    em = [(i, "ab"[i % 2], 1.0) for i in range(n)]
    ctx.call(createHMM, one, em, 0)
    ctx.check(ctx.refuses(createHMM, one, em, list(r)), "refuse", "createHMM accepts the initial distribution %s" % r)
    k = int(rng.integers(n))
    ctx.check(ctx.refuses(createHMM, [x if i != k else x[:2] + (1.0 + off,) for i, x in enumerate(one)], em, 0), "refuse", "createHMM accepts a row of sum %s" % (1 + off))
    ctx.check(ctx.refuses(createHMM, one, [x if i != k else x[:2] + (1.0 + off,) for i, x in enumerate(em)], 0), "refuse", "createHMM accepts emissions of sum %s" % (1 + off))
    ctx.case((d, n, off), {"model": gen.brief(sp)})


@family("refuse", weight=3, quick=40)
def refuse(ctx, rng):
    """Invalid models are refused."""
    import jajapy as ja
    from jajapy.hmm.HMM import HMM, createHMM
    from jajapy.gohmm.GoHMM import GoHMM
    kd = str(rng.choice(KINDS + ["create"]))
    off = float(rng.choice([-.5, -.1, -.01, -.002, .002, .01, .3, 1.0]))
    if kd == "create":
        n = int(rng.integers(1, 4))
        labs = list("abc"[:n])
        which = str(rng.choice(["MC", "MDP", "CTMC", "PCTMC"]))
        one = [(i, (i + 1) % n, 1.0) for i in range(n)]
        tr = [(i, "A", j, p) for i, j, p in one] if which == "MDP" else one
        f = {"MC": ja.createMC, "MDP": ja.createMDP, "CTMC": ja.createCTMC}.get(which, lambda t, l, i: ja.createPCTMC(t, l, [], i))
        ctx.call(f, tr, list(labs), 0)
        bad = list(labs)
        bad[int(rng.integers(n))] = "init"
        ctx.check(ctx.refuses(f, tr, bad, 0), "refuse", "create%s accepts the label 'init': %s" % (which, bad))
        ctx.check(ctx.refuses(f, tr, labs[:-1], 0), "refuse", "create%s accepts a labelling that is too short: %s" % (which, labs[:-1]))
        if which in ("MC", "MDP"):
            ctx.check(ctx.refuses(f, [x[:-1] + (x[-1] + off,) for x in tr], list(labs), 0), "refuse", "create%s accepts probabilities %s" % (which, 1 + off))
            r = [1.0 / n] * n
            r[0] += off
            ctx.check(ctx.refuses(f, tr, list(labs), r), "refuse", "create%s accepts the initial distribution %s" % (which, r))
        ctx.case(("create", which, n, off))
        return
    sp = gen.g_any(rng, [kd], style="dir")
    gen.build(sp)
    d = "%s" % gen.brief(sp)
    bad = []
    if kd in ("MC", "HMM", "GoHMM", "MDP"):
        x = copy.deepcopy(sp)
        X = x["P" if "P" in x else "A"]
        rows = np.argwhere(X.sum(axis=-1) > 0)
        r = tuple(rows[int(rng.integers(len(rows)))])
        c = np.nonzero(X[r])[0]
        X[r][c[int(rng.integers(len(c)))]] += off
        if abs(X[r].sum()) > 1e-3:
            bad.append(("a row of sum %s" % X[r].sum(), x))
    if "labels" in sp:
        x = copy.deepcopy(sp)
        x["labels"] = [l if l != "init" else "a" for l in x["labels"]]
        bad.append(("no initial state", x))
        x = copy.deepcopy(sp)
        x["labels"] = x["labels"] + ["a"]
        bad.append(("too many labels", x))
        if len(sp["labels"]) > 2:
            x = copy.deepcopy(sp)
            i = [i for i, l in enumerate(x["labels"]) if l != "init"][0]
            del x["labels"][i]
            bad.append(("too few labels", x))
    else:
        x = copy.deepcopy(sp)
        x["init"][int(np.argmax(x["init"]))] += off
        bad.append(("initial distribution %s" % x["init"], x))
    if kd == "HMM":
        x = copy.deepcopy(sp)
        i = int(rng.integers(len(x["B"])))
        x["B"][i, int(np.argmax(x["B"][i]))] += off
        if abs(x["B"][i].sum()) > 1e-3:
            bad.append(("emissions of sum %s" % x["B"][i].sum(), x))
    if kd == "GoHMM":
        x = copy.deepcopy(sp)
        x["out"][int(rng.integers(len(x["out"]))), int(rng.integers(x["out"].shape[1])), 1] *= -1
        bad.append(("a negative standard deviation", x))
        o = sp["out"].tolist()
        o[int(rng.integers(len(o)))].append([0.0, 1.0])
        if len(o) > 1:
            ctx.check(ctx.refuses(GoHMM, sp["A"].copy(), o, sp["init"].copy()), "refuse", "different numbers of distributions: %s" % o)
        o = [[x[:1] for x in st] for st in sp["out"].tolist()]
        ctx.check(ctx.refuses(GoHMM, sp["A"].copy(), o, sp["init"].copy()), "refuse", "distributions with one parameter: %s" % o)
    for why, x in bad:
        ctx.count("refused")
        ctx.check(ctx.refuses(gen.build, x), "refuse", "%s with %s is accepted: %s" % (kd, why, gen.brief(x)))
    ctx.case((kd, off, d), {"kind": kd, "refused": [w for w, _ in bad]})


@family("relabel", weight=2, quick=15)
def relabel(ctx, rng):
    """updateLabelling changes labels, and what is likely, and nothing else."""
    kd = str(rng.choice(["MC", "MDP", "CTMC"]))
    sp = gen.g_any(rng, [kd])
    m = gen.build(sp)
    before = snap.model(m)
    new = [l if l == "init" else str(rng.choice(["a", "q", "zz", "é"])) for l in sp["labels"]]
    arg = list(new)
    if new[-1] == "init" and new.count("init") == 1 and rng.random() < .5:
        arg = new[:-1]
    keep = list(arg)
    d = "updateLabelling(%s) of %s" % (arg, gen.brief(sp))
    ctx.call(m.updateLabelling, arg)
    ctx.check(arg == keep, "changed", "the argument became %s; %s" % (arg, d))
    ctx.check(list(m.labelling) == new, "labels", "%s; %s" % (m.labelling, d))
    ctx.check(sorted(m.getAlphabet()) == sorted(set(new)), "alphabet", "%s; %s" % (m.getAlphabet(), d))
    dd = [x for x in snap.diff(before, snap.model(m)) if x not in ("labelling", "alphabet")]
    ctx.check(not dd, "changed", "%s; %s" % (dd, d))
    sp2 = dict(sp, labels=new)
    seqs, mult = gen.traces(rng, sp2, 3, 1, 5)
    w, _ = ref.set_loglik(sp2, seqs, mult)
    ctx.close(ctx.call(m.logLikelihood, gen.mkset(seqs, mult, gen.set_type(sp, False))), w, "likelihood", d)
    # a labelling without initial state is not applied
    ctx.call(m.updateLabelling, ["a"] * len(new))
    ctx.check(list(m.labelling) == new, "no_init", "%s; %s" % (m.labelling, d))
    ctx.case((kd, repr(new), d), {"case": d})


CHECK = Check("C18", "a model (kind, content, way it was written)", [create, createp, constructor, accessors, printed, printedp, refuse, refusep, relabel], quick=20, thorough=300)
