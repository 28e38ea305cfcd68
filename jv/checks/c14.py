"""C14: a model written to a Prism file and loaded again has the same behaviour."""
import math, os
import numpy as np
from ..core import Check, family
from .. import gen, ref, snap

KINDS = ["MC", "MDP", "CTMC", "PCTMC"]


def read_spec(ctx, l, vals=None):
    """Neutral spec of a loaded jajapy model."""
    k = type(l).__name__
    lab = [str(x) for x in l.labelling]
    base = {"labels": lab, "init": np.array(l.initial_state, float), "name": l.name}
    if k == "PCTMC":
        N = len(lab)
        R = np.zeros((N, N))
        for i in range(N):
            for j in range(N):
                R[i, j] = float(l.evaluateTransition(i, j, vals))
        return dict(base, kind="CTMC", R=R)
    if k == "CTMC":
        return dict(base, kind="CTMC", R=np.array(l.matrix, float))
    if k == "MDP":
        return dict(base, kind="MDP", P=np.array(l.matrix, float), acts=[str(a) for a in l.actions])
    if k == "MC":
        return dict(base, kind="MC", P=np.array(l.matrix, float))
    ctx.fail("type", "loadPrism returned %s" % type(l))


def numeric(sp, vals=None):
    return gen.as_ctmc(sp, vals) if sp["kind"] == "PCTMC" else sp


def same_behaviour(ctx, rng, a, b, d, n=14):
    """Both specs give every observed trace the same probability (density)."""
    ctx.check(a["kind"] == b["kind"], "kind", "%s read back as %s; %s" % (a["kind"], b["kind"], d))
    timeds = [False, True] if a["kind"] == "CTMC" else [False]
    for timed in timeds:
        for i in range(n + 8):
            src = a if i % 2 else b
            if i >= n:  # traces that take the improbable transitions as often as the others
                src = level(src)
            x = gen.sim(rng, src, int(rng.integers(1, 7)), timed)
            if rng.random() < .3:  # foreign traces: most are impossible
                j = 2 * int(rng.integers((len(x) + 1) // 2)) if timed or a["kind"] == "MDP" else int(rng.integers(len(x)))
                x[j] = str(rng.choice(a["labels"]))
            if a["kind"] == "MDP" and rng.random() < .3 and len(x) > 1:
                x[1] = str(rng.choice(a["acts"]))
            p, q = ref.loglik(a, x, timed), ref.loglik(b, x, timed)
            ctx.count("traces_compared")
            ctx.check(p == q or abs(p - q) <= 1e-6 * max(1, abs(p)), "behaviour",
                      lambda: "log-likelihood of %s: %s for the saved model, %s for the loaded one (%s); %s" % (x, p, q, gen.brief(b), d))


def level(sp):
    """The same model with equiprobable transitions."""
    k = "R" if sp["kind"] == "CTMC" else "P"
    x = (sp[k] > 0) * 1.0
    if k == "P":
        x = x / np.maximum(x.sum(axis=-1, keepdims=True), 1)
    return dict(sp, **{k: x})


def reachable(sp):
    X = sp["P"].sum(axis=1) if sp["kind"] == "MDP" else sp["P"] if sp["kind"] == "MC" else sp["R"]
    seen = set(np.nonzero(sp["init"])[0].tolist())
    todo = list(seen)
    while todo:
        s = todo.pop()
        for t in np.nonzero(X[s])[0].tolist():
            if t not in seen:
                seen.add(t)
                todo.append(t)
    return sorted(seen)


def actions_ok(ctx, a, b, d):
    """In every reachable state the same actions are available (as multiset of
    (label, available actions))."""
    f = lambda sp: sorted((sp["labels"][s], tuple(sorted(sp["acts"][i] for i in range(len(sp["acts"])) if sp["P"][s, i].any()))) for s in reachable(sp))
    ctx.check(f(a) == f(b), "available-actions", lambda: "%s instead of %s; %s" % (f(b), f(a), d))


def compare(ctx, rng, sp, l, d, vals=None):
    a = numeric(sp, vals)
    b = read_spec(ctx, l, vals)
    r = reachable(a)
    ctx.check(sorted(b["labels"]) == sorted(a["labels"][i] for i in r), "labels", lambda: "labels %s, reachable states of the saved model %s; %s" % (b["labels"], [a["labels"][i] for i in r], d))
    ctx.close(sorted(b["init"]), sorted(a["init"][i] for i in r), "initial", d)
    if a["kind"] == "CTMC":
        ctx.close(sorted(b["R"].sum(axis=1)), sorted(a["R"].sum(axis=1)[r]), "exit-rates", d, rtol=1e-8)
    if a["kind"] == "MDP":
        actions_ok(ctx, a, b, d)
    same_behaviour(ctx, rng, a, b, d)


@family("roundtrip", weight=3, quick=80)
def roundtrip(ctx, rng):
    import jajapy as ja
    kd = str(rng.choice(KINDS))
    sp = gen.GENS[kd](rng)
    f = ctx.tmp("m.sm")
    inst = True
    if kd in ("MC", "MDP") and rng.random() < .3:
        x = np.where(sp["P"] > 0, sp["P"] * 10.0 ** rng.integers(-14, 1, sp["P"].shape), 0)
        t = x.sum(axis=-1, keepdims=True)
        sp["P"] = np.where(t > 0, x / np.where(t > 0, t, 1), 0)
        ctx.count("tiny_probabilities")
    if kd == "PCTMC":
        u = rng.random()
        if rng.random() < .5:  # from tiny to huge, with many digits
            sp["values"] = {p: float(v * 10.0 ** rng.integers(-9, 7) * rng.uniform(.5, 1)) for p, v in sp["values"].items()}
            ctx.count("constants_with_many_digits")
        inst = True if u < .35 else {} if u < .65 else {p: v for p, v in sp["values"].items() if rng.random() < .5}
        m = ctx.call(gen.build_pctmc, sp, inst)
    else:
        m = ctx.call(gen.build, sp)
    before = snap.model(m)
    ctx.call(m.savePrism, f)
    ctx.check(snap.model(m) == before, "changed", str(gen.brief(sp)))
    l = ctx.call(ja.loadPrism, f)
    d = gen.brief(sp)
    ctx.case((kd, d, repr(inst)), {"kind": kd, "model": d, "instantiation": inst if kd == "PCTMC" else None})
    ctx.count("kind_" + kd)
    if sp["labels"].count("init") > 1:
        ctx.count("several_initial_states")
    if kd == "PCTMC":
        free = [p for p in sp["params"] if inst is not True and p not in inst]
        r = reachable(gen.as_ctmc(sp))
        import re
        used = {p for p in free for i in r for e in sp["E"][i] if e and re.search(r"\b%s\b" % p, e)}
        ctx.check(type(l).__name__ == "PCTMC" if used else (type(l).__name__ == "CTMC" or free), "kind", "%s, free parameters %s; %s" % (type(l).__name__, used, d))
        if used:
            vals = None
            ctx.check(set(l.parameter_str) >= used and not any(l.isInstantiated(param=p) for p in used), "parameters", "%s %s; %s" % (l.parameter_str, l.parameter_values, d))
            ctx.count("parametric_files")
            for _ in range(2):
                vals = dict(sp["values"])
                vals.update({p: float(np.round(rng.uniform(.1, 3), 3)) for p in free})
                compare(ctx, rng, sp, l, d, vals)
                if rng.random() < .5:
                    ctx.check(ctx.call(l.instantiate, sorted(used), [vals[p] for p in sorted(used)]) is True, "instantiate", str(d))
                    compare(ctx, rng, numeric(sp, vals), l, d)
                    break
            return
        compare(ctx, rng, numeric(sp), l, d, sp['values'] if type(l).__name__ == 'PCTMC' else None)
        return
    compare(ctx, rng, numeric(sp), l, d)
    # a second generation must not drift
    if rng.random() < .3 and l.nb_states > 1:  # Storm reads one-state modules as deadlocks
        l.rename("again")
        ctx.call(l.savePrism, f)
        compare(ctx, rng, numeric(sp), ctx.call(ja.loadPrism, f), "second generation of %s" % d)
        ctx.count("second_generations")


def num(rng, x):
    return repr(float(x)) if rng.random() < .8 else "(%r*1)" % float(x)


def write(rng, sp, params, extra):
    """Own Prism writer: several commands per state, formulas, double labels."""
    k = sp["kind"]
    N = len(sp["labels"])
    o = [{"MC": "dtmc", "MDP": "mdp"}.get(k, "ctmc"), ""]
    for p in params:
        o.append("const double %s;" % p)
    ini = [i for i in range(N) if sp["labels"][i] == "init"][0]
    o.append("module main_1")
    o.append("  loc : [0..%d] init %d;" % (N + extra, ini))
    for s in rng.permutation(N):
        if k == "MDP":
            for a in rng.permutation(len(sp["acts"])):
                r = sp["P"][s, a]
                if r.any():
                    o.append("  [%s] loc=%d -> %s;" % (sp["acts"][a], s, " + ".join("%s : (loc'=%d)" % (num(rng, r[t]), t) for t in rng.permutation(np.nonzero(r)[0]))))
        elif k == "MC":
            r = sp["P"][s]
            o.append("  [] loc=%d -> %s;" % (s, " + ".join("%s : (loc'=%d)" % (num(rng, r[t]), t) for t in rng.permutation(np.nonzero(r)[0]))))
        else:
            es = [(t, sp["E"][s][t]) for t in range(N) if sp["E"][s][t] is not None] if k == "PCTMC" else [(t, repr(float(sp["R"][s, t]))) for t in np.nonzero(sp["R"][s])[0]]
            es = [es[i] for i in rng.permutation(len(es))]
            if rng.random() < .5 and len(es) > 1:
                for t, e in es:
                    o.append("  [] loc=%d -> %s : (loc'=%d);" % (s, e.replace("**", "^"), t))
            else:
                o.append("  [] loc=%d -> %s;" % (s, " + ".join("%s : (loc'=%d)" % (e.replace("**", "^"), t) for t, e in es)))
    o.append("endmodule")
    for l in rng.permutation(sorted(set(sp["labels"]) - {"init"})):
        o.append('label "%s" = %s;' % (l, " | ".join("loc=%d" % i for i in range(N) if sp["labels"][i] == l)))
    return "\n".join(o) + "\n"


@family("written-by-hand", weight=2, quick=40)
def byhand(ctx, rng):
    """Prism programs written by this check, loaded by the library."""
    import jajapy as ja
    kd = str(rng.choice(KINDS))
    sp = gen.GENS[kd](rng, hostile=False)
    f = ctx.tmp("h.prism")
    src = write(rng, sp, sp.get("params", []), int(rng.integers(0, 3)))
    open(f, "w").write(src)
    l = ctx.call(ja.loadPrism, f)
    ctx.case((kd, src), {"kind": kd, "program": src[:500]})
    vals = None
    if kd == "PCTMC" and type(l).__name__ == "PCTMC":
        vals = {p: float(np.round(rng.uniform(.1, 3), 3)) for p in sp["params"]}
        ctx.check(not l.parameter_values, "parameters", "%s; %s" % (l.parameter_values, src))
    if kd == "PCTMC" and vals is None:
        vals = sp["values"]
    compare(ctx, rng, numeric(sp, vals), l if vals is None or type(l).__name__ == "CTMC" else l, src, vals if type(l).__name__ == "PCTMC" else None)


@family("both-labels", weight=1, quick=12)
def initlabel(ctx, rng):
    """An initial state with labels of its own gets a preceding 'init' state."""
    import jajapy as ja
    kd = str(rng.choice(["MC", "CTMC", "MDP", "PCTMC"]))
    sp = gen.GENS[kd](rng, hostile=False)
    N = len(sp["labels"])
    src = write(rng, sp, sp.get("params", []), 0)
    vals = None
    if kd == "PCTMC":
        vals = {p: float(np.round(rng.uniform(.1, 3), 3)) for p in sp["params"]}
        sp = numeric(sp, vals)
        kd = "CTMC"
    ini = sp["labels"].index("init")
    src += 'label "start" = loc=%d;\n' % ini
    f = ctx.tmp("b.prism")
    open(f, "w").write(src)
    l = ctx.call(ja.loadPrism, f)
    exp = dict(sp, labels=["start" if i == ini else x for i, x in enumerate(sp["labels"])] + ["init"], init=np.append(np.zeros(N), 1.0))
    key = "R" if kd == "CTMC" else "P"
    x = sp[key]
    if kd == "MDP":
        use = [i for i in range(x.shape[1]) if x[:, i].any()]
        x = x[:, use]
        exp["acts"] = [sp["acts"][i] for i in use]
        y = np.zeros((N + 1, x.shape[1], N + 1))
        y[:N, :, :N] = x
        y[N, :, ini] = 1
    else:
        y = np.zeros((N + 1, N + 1))
        y[:N, :N] = x
        y[N, ini] = 1
    exp[key] = y
    ctx.case((kd, src), {"kind": kd, "program": src[:400]})
    if type(l).__name__ == "PCTMC":
        ctx.count("parametric_programs")
    b = read_spec(ctx, l, vals if type(l).__name__ == "PCTMC" else None)
    if kd == "MDP":
        same_behaviour(ctx, rng, exp, b, src)
        return
    r = reachable(exp)
    ctx.check(sorted(b["labels"]) == sorted(exp["labels"][i] for i in r), "labels", lambda: "%s; %s" % (b["labels"], src))
    same_behaviour(ctx, rng, exp, b, src)


@family("unnamed-commands", weight=1, quick=12)
def unnamed(ctx, rng):
    """MDPs whose commands have no name, or the same name twice in a state: every command is one action of its state."""
    import jajapy as ja
    N = int(rng.integers(2, 6))
    mode = int(rng.integers(4))
    o = ["mdp", "module m", "  s : [0..%d] init 0;" % (N - 1)]
    rows = []
    for i in range(N):
        rows.append([])
        for c in range(int(rng.integers(1, 4))):
            v = np.zeros(N)
            for _ in range(8):
                v[(i + 1) % N if c == 0 and not v.any() else int(rng.integers(N))] += .125
            if any((v == r).all() for r in rows[i]):
                continue
            # no name at all; none in some states; names used twice; all of them
            a = ["", "" if i % 2 else "ab"[c % 2], "aab"[c], str(rng.choice(["", "a", "b"]))][mode]
            rows[i].append(v)
            o.append("  [%s] s=%d -> %s;" % (a, i, " + ".join("%r : (s'=%d)" % (float(v[t]), t) for t in np.flatnonzero(v))))
    o.append("endmodule")
    o += ['label "l%d" = s=%d;' % (i, i) for i in range(1, N)]
    src = "\n".join(o) + "\n"
    f = ctx.tmp("u.prism")
    open(f, "w").write(src)
    b = read_spec(ctx, ctx.call(ja.loadPrism, f))
    ctx.case(("unnamed", src), {"program": src[:500], "actions": b.get("acts")})
    ctx.check(b["kind"] == "MDP", "kind", b["kind"])
    want = ["init"] + ["l%d" % i for i in range(1, N)]
    ctx.check(sorted(b["labels"]) == sorted(want), "labels", lambda: "%s; %s" % (b["labels"], src))
    at = [b["labels"].index(x) for x in want]
    for i in range(N):
        got = [tuple(np.round(r[at], 9)) for r in b["P"][at[i]] if r.any()]
        ctx.check(sorted(got) == sorted(tuple(r) for r in rows[i]), "commands", lambda: "state %d: %s instead of %s; %s" % (i, got, rows[i], src))
    ctx.check(len(b["acts"]) == len(set(b["acts"])) == b["P"].shape[1], "actions", lambda: "%s; %s" % (b["acts"], src))


CHECK = Check("C14", "random MCs, MDPs, CTMCs and PCTMCs (fully, partly or not instantiated, several initial states) written by savePrism, and Prism programs "
              "written by the check itself; a case is one file loaded, distinct by content", [roundtrip, byhand, initlabel, unnamed], quick=25, thorough=250,
              assumptions=["at least two states", "Stormpy 1.10's Prism parser", "names, labels, actions and parameters are Prism identifiers", "equality is judged on the likelihood of simulated and foreign traces, "
                           "labels, exit rates and available actions, at 1e-6"])
