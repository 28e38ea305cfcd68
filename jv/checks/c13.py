"""C13: models keep their meaning through the conversion to and from Stormpy."""
import numpy as np
from ..core import Check, family
from .. import gen, ref, snap

KINDS = ["MC", "MDP", "CTMC", "PCTMC"]


def spec(rng, kd, odd=False, tiny=False):
    while True:
        sp = gen.GENS[kd](rng, odd=odd)
        if kd == "PCTMC" and not np.isfinite(gen.rates_of(sp)).all():
            continue
        if tiny and kd in ("MC", "MDP") and rng.random() < .2:
            x = np.where(sp["P"] > 0, sp["P"] * 10.0 ** rng.integers(-14, 1, sp["P"].shape), 0)
            t = x.sum(axis=-1, keepdims=True)
            sp["P"] = np.where(t > 0, x / np.where(t > 0, t, 1), 0)
        return sp


def numeric(sp):
    return gen.rates_of(sp) if sp["kind"] == "PCTMC" else sp["R"] if sp["kind"] == "CTMC" else sp["P"]


def to_storm(ctx, rng, sp):
    import jajapy as ja
    m = ctx.call(gen.build, sp)
    before = snap.model(m)
    s = ctx.call(m.toStormpy) if sp["kind"] != "PCTMC" and rng.random() < .6 else ctx.call(ja.jajapyModeltoStormpy, m)
    ctx.check(snap.model(m) == before, "changed", lambda: "conversion changed the model %s" % gen.brief(sp))
    want = {"MC": "SparseDtmc", "MDP": "SparseMdp", "CTMC": "SparseCtmc", "PCTMC": "SparseCtmc"}[sp["kind"]]
    ctx.check(type(s).__name__ == want, "type", "%s gives %s" % (sp["kind"], type(s)))
    return m, s


@family("roundtrip", weight=3, quick=60)
def roundtrip(ctx, rng):
    import jajapy as ja
    kd = str(rng.choice(KINDS))
    sp = spec(rng, kd, odd=bool(rng.integers(2)), tiny=True)
    m, s = to_storm(ctx, rng, sp)
    d = gen.brief(sp)
    ctx.case((kd, d), {"kind": kd, "model": d})
    ctx.count("kind_" + kd)
    N = len(sp["labels"])
    ctx.check(s.nr_states == N, "states", str(d))
    for i in range(N):
        ctx.check(set(s.labeling.get_labels_of_state(i)) == {sp["labels"][i]}, "labels", lambda: "state %d carries %s; %s" % (i, s.labeling.get_labels_of_state(i), d))
    if kd == "MDP":
        named = bool(rng.integers(2))
        j = ctx.call(ja.stormpyModeltoJajapy, s, list(sp["acts"])) if named else ctx.call(ja.stormpyModeltoJajapy, s)
        used = [a for i, a in enumerate(sp["acts"]) if sp["P"][:, i].any()]
        ctx.check(set(j.actions) == set(sp["acts"] if named else used), "actions", lambda: "%s; %s" % (j.actions, d))
        T = np.zeros(sp["P"].shape)
        for i, a in enumerate(sp["acts"]):
            if a in j.actions:
                T[:, i] = np.asarray(j.matrix, float)[:, j.actions.index(a)]
    else:
        j = ctx.call(ja.stormpyModeltoJajapy, s)
        T = np.asarray(j.matrix, float)
    ctx.check(type(j).__name__ == ("CTMC" if kd == "PCTMC" else kd), "type", type(j).__name__)
    ctx.check(list(j.labelling) == sp["labels"], "labels", lambda: "%s; %s" % (j.labelling, d))
    ctx.close(T, numeric(sp), "matrix", lambda: "read back from Stormpy; %s" % d, rtol=1e-9, atol=0)
    ctx.close(j.initial_state, sp["init"], "initial", str(d))


def value(ctx, s, formula):
    import stormpy as st
    p = st.parse_properties(formula)[0]
    r = st.model_checking(s, p, only_initial_states=False)
    ctx.count("model_checking_queries")
    return np.array([r.at(i) for i in range(s.nr_states)])


@family("model-checking", weight=3, quick=40)
def checking(ctx, rng):
    """Storm's answers on the converted model against values computed from the
    original numbers (linear systems, value iteration, matrix exponential)."""
    kd = str(rng.choice(KINDS))
    sp = spec(rng, kd)
    m, s = to_storm(ctx, rng, sp)
    X = numeric(sp)
    lab = str(rng.choice(sorted(set(sp["labels"]))))
    tgt = [i for i, l in enumerate(sp["labels"]) if l == lab]
    k = int(rng.integers(0, 6))
    d = "label %s, %s" % (lab, gen.brief(sp))
    ctx.case((kd, gen.brief(sp), lab, k), {"kind": kd, "target": lab, "model": gen.brief(sp)})
    ctx.count("checked_" + kd)
    if kd == "MC":
        if ref.reach_mdp(X[:, None, :], tgt) is not None:
            ctx.close(value(ctx, s, 'P=? [F "%s"]' % lab), ref.reach_dtmc(X, tgt), "reach", d, rtol=1e-4, atol=1e-5)
        x = np.zeros(len(X))
        x[tgt] = 1
        for _ in range(k):
            x = X @ x
            x[tgt] = 1
        ctx.close(value(ctx, s, 'P=? [F<=%d "%s"]' % (k, lab)), x, "bounded", d, rtol=1e-6, atol=1e-8)
    elif kd == "MDP":
        for mx in (True, False):
            exp = ref.reach_mdp(X, tgt, mx)
            if exp is None:
                ctx.count("slowly_converging_models_skipped")
                continue
            got = value(ctx, s, 'P%s=? [F "%s"]' % ("max" if mx else "min", lab))
            ctx.close(got, exp, "Pmax" if mx else "Pmin", d, rtol=1e-3, atol=1e-4)
    else:
        P = ref.jump({"R": X})
        if ref.reach_mdp(P[:, None, :], tgt) is not None:
            ctx.close(value(ctx, s, 'P=? [F "%s"]' % lab), ref.reach_dtmc(P, tgt), "reach", d, rtol=1e-4, atol=1e-5)
        t = float(np.round(rng.uniform(.05, 3), 3))
        ctx.close(value(ctx, s, 'P=? [F<=%s "%s"]' % (t, lab)), ref.timed_reach(X, tgt, t), "timed", "time %s, %s" % (t, d), rtol=1e-3, atol=1e-4)
        e = X.sum(axis=1)
        ctx.close(list(s.exit_rates), e, "exit-rates", d, rtol=1e-9)


@family("from-storm", weight=2, quick=30)
def from_storm(ctx, rng):
    """Stormpy models with any number of labels per state."""
    import stormpy as st, jajapy as ja
    kd = str(rng.choice(["MC", "CTMC", "MDP"]))
    sp = spec(rng, kd)
    N = len(sp["labels"])
    pool = ["up", "down", "err", "a"]
    labs = [sorted(str(x) for x in rng.choice(pool, int(rng.integers(0, 3)), replace=False)) for _ in range(N)]
    ini = int(rng.integers(N))
    L = st.storage.StateLabeling(N)
    for x in pool + ["init"]:
        L.add_label(x)
    for i, x in enumerate(labs):
        for y in rng.permutation(x):
            L.add_label_to_state(str(y), i)
    if rng.random() < .5:
        labs[ini] = []
        L.set_states("up", st.BitVector(N, [i for i in range(N) if "up" in labs[i]]))
        for x in pool[1:]:
            L.set_states(x, st.BitVector(N, [i for i in range(N) if x in labs[i]]))
    L.add_label_to_state("init", ini)
    acts = None
    if kd == "MDP":
        rows, start, cl = [], [], []
        for i in range(N):
            start.append(len(rows))
            for a in range(len(sp["acts"])):
                if sp["P"][i, a].any():
                    rows.append(sp["P"][i, a])
                    cl.append(sp["acts"][a])
        row = len(rows)
        C = st.storage.ChoiceLabeling(row)
        for a in sp["acts"]:
            C.add_label(a)
        for r, a in enumerate(cl):
            C.add_label_to_choice(a, r)
        comp = st.SparseModelComponents(transition_matrix=st.build_sparse_matrix(np.array(rows), start), state_labeling=L)
        comp.choice_labeling = C
        s = st.storage.SparseMdp(comp)
        j = ctx.call(ja.stormpyModeltoJajapy, s, sorted(sp["acts"])) if rng.random() < .5 else ctx.call(ja.stormpyModeltoJajapy, s)
        X = np.zeros((N, len(j.actions), N))
        for a, n in enumerate(sp["acts"]):
            if n in j.actions:
                X[:, j.actions.index(n)] = sp["P"][:, a]
    else:
        X = numeric(sp)
        comp = st.SparseModelComponents(transition_matrix=st.build_sparse_matrix(X), state_labeling=L, rate_transitions=kd == "CTMC")
        s = st.storage.SparseDtmc(comp) if kd == "MC" else st.storage.SparseCtmc(comp)
        j = ctx.call(ja.stormpyModeltoJajapy, s)
    d = "labels %s, initial state %d, %s" % (labs, ini, gen.brief(sp))
    ctx.case((kd, d), {"kind": kd, "labels": labs, "initial": ini})
    exp = ["_".join(x) if x else "empty" for x in labs]
    if labs[ini]:
        exp.append("init")
        ctx.count("added_initial_state")
    else:
        exp[ini] = "init"
    ctx.check(list(j.labelling) == exp, "labels", lambda: "%s instead of %s; %s" % (j.labelling, exp, d))
    T = np.asarray(j.matrix, float)
    ctx.close(T[:N, ..., :N], X, "matrix", d, rtol=1e-9, atol=1e-12)
    if labs[ini]:
        z = np.zeros(T[-1].shape)
        z[..., ini] = 1
        ctx.check((T[:N, ..., N] == 0).all(), "initial", d)
        if kd == "MDP":
            en = [k for k in range(T.shape[1])]
            ctx.close(T[-1], z, "initial", d)
        else:
            ctx.check(T[-1, ini] > 0 and (np.delete(T[-1], ini) == 0).all(), "initial", d)
            if kd == "MC":
                ctx.close(T[-1], z, "initial", d)
    init = np.zeros(len(exp))
    init[exp.index("init")] = 1
    ctx.close(j.initial_state, init, "initial", d)


@family("refused", weight=1, quick=8)
def refused(ctx, rng):
    import jajapy as ja
    kd = str(rng.choice(["HMM", "GoHMM", "PCTMC"]))
    if kd == "PCTMC":
        while True:
            sp = spec(rng, kd)
            if sp["params"]:
                break
        keep = {p: v for p, v in sp["values"].items() if p != str(rng.choice(sp["params"]))}
        if len(keep) == len(sp["params"]):
            keep.pop(sp["params"][0])
        m = gen.build_pctmc(sp, instantiate=keep)
    else:
        sp = gen.GENS[kd](rng)
        m = gen.build(sp)
    ctx.case((kd, gen.brief(sp)), {"kind": kd})
    ctx.check(ctx.refuses(ja.jajapyModeltoStormpy, m), "accepted", "%s was converted: %s" % (kd, gen.brief(sp)))


CHECK = Check("C13", "random MCs, MDPs (with states lacking actions), CTMCs and instantiated PCTMCs converted to Stormpy, checked there and converted back; random "
              "Stormpy models with several labels per state; a case is one model, distinct by content", [roundtrip, checking, from_storm, refused], quick=20, thorough=250,
              assumptions=["Stormpy 1.10's model checkers, compared at 1e-3 to 1e-5", "labels other than Storm's own 'deadlock'"])
