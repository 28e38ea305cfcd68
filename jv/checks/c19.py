"""C19: Alergia (and C20: IOAlergia) learn the models their definition gives."""
import sys
import os
import numpy as np
from ..core import Check, family
from .. import gen, ref, snap, alergia

KINDS = {"C19": "MC", "C20": "MDP"}


def sample(rng, mdp, start=None):
    """Training sets: few or many traces, from models or from nowhere; the
    first label is 'init' or something else."""
    if start is None:
        start = "init" if rng.random() < .6 else "s"
    style = str(rng.choice(["model", "model", "words", "loop", "big"]))
    big = rng.random() < gen.BIG
    labs = list("abcd"[:int(rng.integers(1, 5))]) if not big else gen.LABELS_PLAIN[:]
    acts = gen.ACTS[:int(rng.integers(1, 4))] if not big else gen.ACTS[:int(rng.integers(9, 13))]
    seqs, mult = [], []

    def add(t, m):
        if t in seqs:
            mult[seqs.index(t)] += m
        else:
            seqs.append(t)
            mult.append(m)
    n = int(rng.integers(1, 40))
    if rng.random() < gen.BIG:
        n = int(rng.integers(100, 250))
    if style in ("model", "big"):
        sp = (gen.g_mdp if mdp else gen.g_mc)(rng, hostile=False, reenter=0) if not mdp else gen.g_mdp(rng, hostile=False)
        top = 30 if style == "big" else 4
        if start != "init":
            first = str(rng.choice(labs))
            sp["labels"] = [first if l == "init" else l for l in sp["labels"]]
        for _ in range(n):
            add(gen.sim(rng, sp, int(rng.integers(0 if rng.random() < .2 else 1, 9))), int(rng.integers(1, top)))
    elif style == "words":
        first = start if start == "init" else str(rng.choice(labs))
        for _ in range(n):
            t = [first]
            for _ in range(int(rng.integers(0, 7))):
                if mdp:
                    t.append(str(rng.choice(acts)))
                t.append(str(rng.choice(labs)))
            add(t, int(rng.integers(1, 6)))
    else:
        # cyclic behaviour with rare exceptions
        first = start if start == "init" else str(rng.choice(labs))
        w = [str(x) for x in rng.choice(labs, int(rng.integers(1, 4)))]
        for _ in range(n):
            t = [first]
            for i in range(int(rng.integers(1, 10))):
                if mdp:
                    t.append(acts[i % len(acts)] if rng.random() < .8 else str(rng.choice(acts)))
                t.append(w[i % len(w)] if rng.random() < .9 else str(rng.choice(labs)))
            add(t, int(rng.integers(1, 20)))
    if not mdp and start != "init" and rng.random() < .5:
        # without 'init' the traces may start with different labels
        k = [i for i in range(len(seqs)) if len(seqs[i]) > 1]
        for i in k[::2]:
            seqs[i] = seqs[i][1:]
        s2, m2 = list(seqs), list(mult)
        del seqs[:], mult[:]
        for t, m in zip(s2, m2):
            add(t, m)
    return seqs, mult


def alpha_of(rng):
    return float(rng.choice([0.05, 0.1, 0.5, 1.0, 0.9, 0.01, 1e-3, 1e-6, 1e-12, float(rng.uniform(1e-3, 1))]))


def learner(mdp):
    import jajapy as ja
    return ja.IOAlergia() if mdp else ja.Alergia()


def fit(ctx, mdp, seqs, mult, alpha, L=None, **k):
    s = gen.mkset(seqs, mult, 1 if mdp else 0)
    before = snap.tset(s)
    k.setdefault("stormpy_output", False)
    m = ctx.call((L or learner(mdp)).fit, s, alpha, **k)
    ctx.check(snap.tset(s) == before, "changed", lambda: "the training set %s became %s" % (before, snap.tset(s)))
    return m


def view(ctx, mdp, m, seqs, d):
    """Automaton of a learned jajapy model, after checks on its form."""
    M = np.asarray(m.matrix, float)
    labs = list(m.labelling)
    ctx.check(type(m).__name__ == ("MDP" if mdp else "MC"), "kind", "a %s; %s" % (type(m).__name__, d))
    ctx.check(np.isfinite(M).all() and (M >= 0).all(), "probabilities", lambda: "%s; %s" % (M.tolist(), d))
    sums = M.sum(axis=-1)
    ctx.check(((abs(sums - 1) < 1e-6) | (sums == 0)).all(), "probabilities", lambda: "rows of sums %s; %s" % (sums.tolist(), d))
    ctx.check(labs.count("init") == 1, "init", lambda: "labelling %s; %s" % (labs, d))
    i0 = labs.index("init")
    ctx.close(m.initial_state, [1.0 if i == i0 else 0.0 for i in range(len(labs))], "init", "initial distribution; %s" % d)
    acts = list(m.actions) if mdp else None
    if mdp:
        used = sorted({x for t in seqs for x in t[1::2]})
        ctx.check(sorted(acts) == used, "actions", lambda: "%s instead of %s; %s" % (acts, used, d))
    if mdp and seqs[0][0] != "init":
        # every action of the added initial state leads to the first state
        t = {tuple(np.nonzero(M[i0, a])[0]) for a in range(len(acts))}
        ctx.check(len(t) <= 1 and all(len(x) == 1 for x in t), "init", lambda: "initial rows %s; %s" % (M[i0].tolist(), d))
        ctx.check(not M[:, :, i0].any(), "init", lambda: "the initial state is entered; %s" % d)
        i0 = int(t.pop()[0]) if t else (1 - i0)
    aut = alergia.of_matrix(M, labs, acts, i0)
    ctx.check(aut is not None, "deterministic", lambda: "two transitions with the same label%s: %s %s; %s" % (" and action" if mdp else "", labs, M.tolist(), d))
    n = len(aut) + (1 if mdp and seqs[0][0] != "init" else 0)
    ctx.check(n == len(labs), "unreachable", lambda: "%d of %d states are reachable; %s" % (n, len(labs), d))
    return aut


def paths_of(mdp, seqs, mult):
    if mdp:
        return [(alergia.steps(t, True, 0)[1], m) for t, m in zip(seqs, mult)]
    k = 1 if seqs[0][0] == "init" else 0
    return [([("", x) for x in t[k:]], m) for t, m in zip(seqs, mult)]


def brief(seqs, mult, alpha):
    return "alpha %r, training set %s" % (alpha, [(" ".join(t), int(m)) for t, m in zip(seqs, mult)])


def judge_counts(ctx, mdp, aut, seqs, mult, d):
    cnt, bad = alergia.recount(aut, paths_of(mdp, seqs, mult))
    ctx.check(cnt is not None, "impossible", lambda: "the training trace %s is impossible in the learned model; %s" % (bad, d))
    for i, (lab, out) in enumerate(aut):
        tot = {}
        for (a, _), c in cnt[i].items():
            tot[a] = tot.get(a, 0) + c
        ctx.check(set(out) == set(cnt[i]), "frequencies", lambda: "state %d has transitions %s, the traces take %s; %s" % (i, sorted(out), sorted(cnt[i]), d))
        for k in out:
            ctx.close(out[k][1], cnt[i][k] / tot[k[0]], "frequencies", lambda: "state %d (%s), transition %s; %s" % (i, lab, k, d), rtol=1e-7)
    ctx.count("states_recounted", len(aut))


def make(mdp):
    @family("reference", weight=4, quick=60)
    def reference(ctx, rng):
        """The learned model is the reference's, up to numbering."""
        seqs, mult = sample(rng, mdp)
        mult = gen.huge(rng, mult)
        alpha = alpha_of(rng)
        d = brief(seqs, mult, alpha)
        m = fit(ctx, mdp, seqs, mult, alpha)
        aut = view(ctx, mdp, m, seqs, d)
        judge_counts(ctx, mdp, aut, seqs, mult, d)
        ctx.case((repr(seqs), repr(mult), alpha), {"case": d})
        try:
            root, red, merges = alergia.learn(seqs, mult, alpha, mdp)
        except alergia.Tie:
            ctx.count("ties_on_the_bound_skipped")
            return
        want = alergia.automaton(alergia.start(root, mdp))
        ctx.count("merges_in_reference", merges)
        ctx.count("states_in_reference", len(want))
        ctx.count("reference_keeps_several_states_per_label" if len(want) > len({l for l, _ in want}) else "reference_one_state_per_label")
        diff = alergia.same(aut, want)
        ctx.check(diff is None, "model", lambda: "%s; %s" % (diff, d))

    @family("recount", weight=2, quick=20)
    def recount(ctx, rng):
        """Larger sets: frequencies, possibility and likelihood."""
        seqs, mult = sample(rng, mdp)
        mult = [int(m * rng.integers(1, 60)) for m in mult] if rng.random() < .8 else gen.huge(rng, mult, 1)
        alpha = alpha_of(rng)
        d = brief(seqs, mult, alpha)
        m = fit(ctx, mdp, seqs, mult, alpha)
        judge_counts(ctx, mdp, view(ctx, mdp, m, seqs, d), seqs, mult, d)
        if seqs[0][0] == "init":
            w = 0.0
            aut = view(ctx, mdp, m, seqs, d)
            for ks, mm in paths_of(mdp, seqs, mult):
                s = 0
                for k in ks:
                    s, p = aut[s][1][k]
                    w += mm * np.log(p)
            ctx.close(ctx.call(m.logLikelihood, gen.mkset(seqs, mult, 1 if mdp else 0)), w / sum(mult), "likelihood", "of the training set under the learned model; %s" % d)
        ctx.case((repr(seqs), repr(mult), alpha), {"case": d})

    @family("order", weight=2, quick=20)
    def order(ctx, rng):
        """Only the multiset of traces counts; learners keep no memory."""
        seqs, mult = sample(rng, mdp)
        alpha = alpha_of(rng)
        d = brief(seqs, mult, alpha)
        one = view(ctx, mdp, fit(ctx, mdp, seqs, mult, alpha), seqs, d)
        L = learner(mdp)
        for how in ("shuffled", "split", "used learner", "list"):
            s2, m2 = list(seqs), list(mult)
            o = rng.permutation(len(s2))
            s2, m2 = [s2[i] for i in o], [m2[i] for i in o]
            if how == "split":
                for i in range(len(s2)):
                    if m2[i] > 1:
                        k = int(rng.integers(1, m2[i]))
                        s2.append(list(s2[i]))
                        m2.append(m2[i] - k)
                        m2[i] = k
            if how == "used learner":
                x, y = sample(rng, mdp)
                ctx.call(L.fit, gen.mkset(x, y, 1 if mdp else 0), alpha_of(rng), stormpy_output=False)
            if how == "list":
                from jajapy.base.Set import Set
                S = Set([list(t) for t, m in zip(s2, m2) for _ in range(m)], t=1 if mdp else 0)
                got = ctx.call(learner(mdp).fit, S, alpha, stormpy_output=False)
            else:
                got = fit(ctx, mdp, s2, m2, alpha, L=L if how == "used learner" else None)
            two = view(ctx, mdp, got, s2, d)
            diff = alergia.same(two, one)
            if diff is not None:
                try:
                    alergia.learn(seqs, mult, alpha, mdp)
                except alergia.Tie:
                    ctx.count("ties_on_the_bound_skipped")
                    return
            ctx.check(diff is None, "order", lambda: "%s (%s); %s" % (diff, how, d))
        ctx.case((repr(seqs), repr(mult), alpha), {"case": d})

    @family("extreme", weight=1, quick=15)
    def extreme(ctx, rng):
        """A vanishing alpha merges all states of equal label: bigrams."""
        seqs, mult = sample(rng, mdp)
        alpha = float(rng.choice([1e-300, 1e-200]))
        total = sum(mult)
        d = brief(seqs, mult, alpha)
        if total > 600:
            seqs, mult = seqs[:10], [1] * len(seqs[:10])
            d = brief(seqs, mult, alpha)
        aut = view(ctx, mdp, fit(ctx, mdp, seqs, mult, alpha), seqs, d)
        # Hoeffding's bound must exceed 1 for every pair of counts
        worst = sum(m * (len(t) + 1) for t, m in zip(seqs, mult))
        if 2 / np.sqrt(worst) * np.sqrt(np.log(2 / alpha) / 2) <= 1:
            ctx.count("too_large_for_this_alpha")
            ctx.case((repr(seqs), repr(mult), alpha))
            return
        labs = [l for l, _ in aut]
        ctx.check(len(labs) == len(set(labs)), "merged", lambda: "states %s; %s" % (labs, d))
        big = {}
        for t, m in zip(seqs, mult):
            t = t if t[0] == "init" or mdp else ["init"] + t
            for i in range(0, len(t) - 1, 2 if mdp else 1):
                k = (t[i + 1], t[i + 2]) if mdp else ("", t[i + 1])
                big.setdefault(t[i], {})
                big[t[i]][k] = big[t[i]].get(k, 0) + m
        for l, out in aut:
            w = big.get(l, {})
            ctx.check(set(w) == set(out), "bigrams", lambda: "after %s: %s instead of %s; %s" % (l, sorted(out), sorted(w), d))
            for k in out:
                ctx.close(out[k][1], w[k] / sum(c for k2, c in w.items() if k2[0] == k[0]), "bigrams", "after %s by %s; %s" % (l, k, d))
        ctx.case((repr(seqs), repr(mult), alpha), {"case": d})

    @family("outputs", weight=1, quick=10)
    def outputs(ctx, rng):
        """The Stormpy model and the Prism file are the learned model."""
        import jajapy as ja
        seqs, mult = sample(rng, mdp)
        alpha = alpha_of(rng)
        d = brief(seqs, mult, alpha)
        m = fit(ctx, mdp, seqs, mult, alpha)
        M = np.asarray(m.matrix, float)
        one = view(ctx, mdp, m, seqs, d)
        dead = not ((M.sum(axis=(1, 2)) > 0).all() if mdp else (M.sum(axis=-1) > 0).all())
        path = ctx.tmp("out.prism")
        if os.path.exists(path):
            os.remove(path)
        k = {"output_file_prism": path}
        st = None
        if dead:
            fit(ctx, mdp, seqs, mult, alpha, **k)
            ctx.count("learned_models_with_dead_ends")
            ctx.check(os.path.exists(path), "prism_file", "no file written; %s" % d)
        else:
            st = fit(ctx, mdp, seqs, mult, alpha, stormpy_output=True, **k)
            ctx.check(type(st).__name__ == ("SparseMdp" if mdp else "SparseDtmc"), "kind", "%s; %s" % (type(st).__name__, d))
            back = ctx.call(ja.stormpyModeltoJajapy, st, sorted({x for t in seqs for x in t[1::2]})) if mdp else ctx.call(ja.stormpyModeltoJajapy, st)
            diff = alergia.same(view(ctx, mdp, back, seqs, d), one)
            ctx.check(diff is None, "stormpy_output", lambda: "%s; %s" % (diff, d))
            lp = ctx.call(ja.loadPrism, path)
            ctx.count("models_read_back")
            A = alergia.of_matrix(lp.matrix, list(lp.labelling), list(lp.actions) if mdp else None, list(lp.labelling).index("init"))
            B = alergia.of_matrix(m.matrix, list(m.labelling), list(m.actions) if mdp else None, list(m.labelling).index("init"))
            ctx.check(A is not None, "prism_file", d)
            diff = alergia.same(A, B)
            ctx.check(diff is None, "prism_file", lambda: "%s; %s" % (diff, d))
        ctx.case((repr(seqs), repr(mult), alpha, dead), {"case": d})

    @family("long", weight=0, quick=2)
    def long(ctx, rng):
        """Traces longer than the recursion limit of Python."""
        labs, acts = list("abc")[:int(rng.integers(1, 4))], ["A", "B"][:int(rng.integers(1, 3))]
        first = "init" if rng.random() < .5 else "s"
        seqs = []
        word = [str(x) for x in rng.choice(labs, int(rng.integers(1, 4)))]
        for k in range(int(rng.integers(1, 3))):
            t = [first]
            for i in range(sys.getrecursionlimit() + int(rng.integers(50, 200))):
                if mdp:
                    t.append(str(rng.choice(acts)) if k == 0 else seqs[0][len(t)] if len(t) < len(seqs[0]) and rng.random() < .99 else acts[0])
                t.append(word[i % len(word)] if rng.random() < .999 else str(rng.choice(labs)))
            seqs.append(t)
        mult = [int(rng.integers(1, 5)) for _ in seqs]
        alpha = float(rng.choice([.05, .5, 1e-6]))
        d = "alpha %r, %d traces of about %d labels (%s)" % (alpha, len(seqs), len(seqs[0]), " ".join(seqs[0][:20]))
        aut = view(ctx, mdp, fit(ctx, mdp, seqs, mult, alpha), seqs, d)
        judge_counts(ctx, mdp, aut, seqs, mult, d)
        ctx.case((repr(seqs), repr(mult), alpha), {"case": d, "states": len(aut)})
        limit = sys.getrecursionlimit()
        sys.setrecursionlimit(100000)
        try:
            want = alergia.automaton(alergia.start(alergia.learn(seqs, mult, alpha, mdp)[0], mdp))
        except alergia.Tie:
            ctx.count("ties_on_the_bound_skipped")
            return
        finally:
            sys.setrecursionlimit(limit)
        diff = alergia.same(aut, want)
        ctx.check(diff is None, "model", lambda: "%s; %s" % (diff, d))

    return [reference, recount, order, extreme, outputs, long]


CHECK = Check("C19", "a training set and a significance level", make(False), quick=25, thorough=400)
