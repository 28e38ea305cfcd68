"""C25: active learning of MDPs."""
import contextlib, copy, io, math, re
import numpy as np
from ..core import Check, Violation, family
from .. import gen, ref, boot


def problem(rng, full=True):
    sul = gen.g_mdp(rng, hostile=False, missing=float(rng.choice([0, .25, .5])), style=str(rng.choice(["dir", "sparse", "round"])))
    # every action must be known somewhere for the training set to mention it
    hyp = copy.deepcopy(sul)
    N, na, _ = sul["P"].shape
    non = [i for i, l in enumerate(sul["labels"]) if l != "init"]
    hyp["P"] = np.zeros_like(sul["P"])
    for s in range(N):
        for a in range(na):
            hyp["P"][s, a, non] = gen.stoch(rng, len(non), "dir")
    if rng.random() < .3 and na > 1:  # the hypothesis lists the actions in another order
        o = rng.permutation(na)
        hyp["acts"] = [hyp["acts"][i] for i in o]
        hyp["P"] = hyp["P"][:, o, :]
    seqs, mult = gen.traces(rng, sul, int(rng.integers(2, 7)), 2, 6)
    return sul, hyp, seqs, mult


class Watch:
    """Records every run of the SUL with the scheduler's class, and the
    hypothesis of the learner at that moment."""

    def __init__(self, sul, learner):
        self.sul, self.learner, self.runs = sul, learner, []

    def __enter__(self):
        from jajapy.mdp.MDP import MDP
        self.cls, self.old = MDP, MDP.run
        w, old = self, self.old

        def run(m, *a, **k):
            r = old(m, *a, **k)
            if m is w.sul:
                sched = k.get("scheduler", a[1] if len(a) > 1 else None)
                n = k.get("number_steps", a[0] if a else None)
                w.runs.append((list(r), type(sched).__name__, n, np.array(w.learner.h.matrix, float)))
            return r
        MDP.run = run
        return self

    def __exit__(self, *a):
        self.cls.run = self.old


def merge(seqs, mult, new):
    seqs, mult = [list(s) for s in seqs], [int(m) for m in mult]
    for t in new:
        if t in seqs:
            mult[seqs.index(t)] += 1
        else:
            seqs.append(list(t))
            mult.append(1)
    return seqs, mult


def possible(sul, t):
    return ref.loglik(sul, t) > -math.inf


def rows_ok(ctx, P, msg):
    s = P.sum(axis=2)
    ctx.check((P >= -1e-12).all(), "negative", lambda: "%s %s" % (P.tolist(), msg))
    ctx.check(np.logical_or(np.abs(s - 1) < 1e-6, s == 0).all(), "not-stochastic", lambda: "%s %s" % (P.tolist(), msg))


def learn(ctx, rng, lr, iters=None, maxit=None, procs=1, n=None, eps=None):
    from jajapy.mdp.Active_BW_MDP import Active_BW_MDP
    sul, hyp, seqs, mult = problem(rng)
    iters = iters or int(rng.integers(1, 4))
    maxit = maxit or int(rng.integers(1, 3))
    nseq = n or int(rng.integers(1, 6) if lr == 0 else rng.integers(2, 9))
    length = None if rng.random() < .3 else int(rng.integers(1, 7))
    eps = float(rng.choice([0.0, .5, .9, 1.0])) if eps is None else eps
    S, H = ctx.call(gen.build, sul), ctx.call(gen.build, hyp)
    before = copy.deepcopy(S.__dict__)
    data = gen.mkset(seqs, mult, 1)
    if rng.random() < .15:
        data = [copy.deepcopy(s) for s, m in zip(seqs, mult) for _ in range(m)]
    snap = copy.deepcopy(data if isinstance(data, list) else (data.sequences, data.times.tolist(), data.type))
    L = Active_BW_MDP()
    kw = {"epsilon_greedy": eps} if eps != .9 else {}
    if length:
        kw["sequence_length"] = length
    storm = bool(rng.random() < .12)
    path = ctx.tmp("active.txt") if rng.random() < .2 else None
    if path:
        kw["output_file"] = path
    prism = ctx.tmp("active.sm") if rng.random() < .2 else None
    if prism:
        kw["output_file_prism"] = prism
    level = 0 if rng.random() < .7 else int(rng.integers(1, 4))
    said = io.StringIO()
    with contextlib.redirect_stdout(said), Watch(S, L) as w:
        args = dict(lr=lr, nb_iterations=iters, nb_sequences=nseq, initial_model=H, epsilon=-1e300, max_it=maxit, verbose=level,
                    return_data=True, stormpy_output=storm, processes=procs, **kw)
        try:
            if procs > 1 and rng.random() < .1:
                ctx.count("real_process_pools")
                with boot.real_pool(procs):
                    got, info = ctx.call(L.fit, data, S, **args)
            else:
                got, info = ctx.call(L.fit, data, S, **args)
        except Violation as v:
            # refused by the training itself: fair if the last sample is
            # out of reach of the current hypothesis
            last = w.runs[-nseq:]
            if lr == 0 or not last or len(w.runs) % nseq or "ValueError" not in v.msg:
                raise
            h = dict(hyp, P=last[0][3])
            if any(ref.loglik(h, r[0]) > -math.inf for r in last):
                raise
            ctx.count("samples_out_of_reach")
            return
    msg = "lr=%r, %d iterations of %d traces (length %s), epsilon_greedy %s, max_it %d: SUL %s hypothesis %s traces %s x %s" % (
        lr, iters, nseq, length, eps, maxit, gen.brief(sul), gen.brief(hyp), seqs, mult)
    ctx.case((lr, iters, nseq, length, eps, maxit, gen.brief(sul), gen.brief(hyp), seqs, mult),
             {"lr": lr, "iterations": iters, "nb_sequences": nseq, "epsilon_greedy": eps, "SUL": gen.brief(sul), "traces": seqs[:2],
              "sampled": [r[0] for r in w.runs[:3]]})
    ctx.count("lr_%s" % lr)
    ctx.count("active_iterations", iters)
    ctx.count("traces_sampled", len(w.runs))
    # what was asked to the system under learning
    ctx.check(len(w.runs) == iters * nseq, "sample-size", lambda: "%d traces sampled: %s" % (len(w.runs), msg))
    want = length or (len(seqs[0]) // 2)
    for t, sched, k, _ in w.runs:
        ctx.check(len(t) == 2 * want + 1, "sample-length", lambda: "%s: %s" % (t, msg))
        ctx.check(possible(sul, t), "sample-impossible", lambda: "%s: %s" % (t, msg))
        if eps == 0:
            ctx.check(sched != "ActiveLearningScheduler", "explore", lambda: "%s used: %s" % (sched, msg))
        if eps == 1:
            ctx.check(sched != "UniformScheduler", "exploit", lambda: "%s used: %s" % (sched, msg))
        ctx.count("runs_under_" + sched)
    said = said.getvalue()
    ctx.check(level > 0 or not re.sub(r"WARN.*", "", said).strip(), "silent", lambda: "printed %r: %s" % (said, msg))
    # the user's objects
    now = data if isinstance(data, list) else (data.sequences, data.times.tolist(), data.type)
    ctx.check(now == snap, "set-changed", lambda: "%s became %s: %s" % (snap, now, msg))
    for k in before:
        same = np.array_equal(before[k], S.__dict__[k]) if isinstance(before[k], np.ndarray) else before[k] == S.__dict__.get(k)
        ctx.check(same, "sul-changed", lambda: "%s: %s" % (k, msg))
    # the hypotheses, one iteration after the other
    P = hyp["P"]
    cur = dict(hyp)
    for _ in range(maxit):
        cur["P"] = ref.em_step(cur, seqs, mult)["T"]
    total = (seqs, mult)
    last_lr = None
    for i in range(iters):
        sample = w.runs[i * nseq:(i + 1) * nseq]
        ctx.close(sample[0][3], cur["P"], "hypothesis", lambda: "before active iteration %d: %s" % (i + 1, msg), rtol=1e-5, atol=1e-8)
        rows_ok(ctx, sample[0][3], msg)
        new = [r[0] for r in sample]
        total = merge(total[0], total[1], new)
        nxt = dict(cur)
        fs, fm = total if lr == 0 else merge([], [], new)
        for _ in range(maxit):
            e = ref.em_step(nxt, fs, fm)
            if e is None:
                ctx.fail("oracle", "no trace is possible: " + msg)
            nxt["P"] = e["T"]
        target = w.runs[(i + 1) * nseq][3] if i + 1 < iters else (None if storm else np.array(got.matrix, float))
        if lr == 0:
            cur = nxt
        elif lr == "dynamic":
            d = nxt["P"] - cur["P"]
            if target is None or np.abs(d).max() < 1e-6:
                return
            rate = float(((target - cur["P"]) * d).sum() / (d * d).sum())
            ctx.check(0 < rate <= 1, "dynamic-rate", lambda: "learning rate %r: %s" % (rate, msg))
            ctx.close(target, cur["P"] + rate * d, "merge", msg, rtol=1e-4, atol=1e-6)
            ctx.check(last_lr is None or rate <= last_lr + 1e-6, "dynamic-rate", lambda: "learning rate %r then %r: %s" % (last_lr, rate, msg))
            last_lr = rate
            cur = dict(cur, P=target)
        else:
            cur = dict(cur, P=lr * nxt["P"] + (1 - lr) * cur["P"])
    if storm:
        ctx.count("stormpy_outputs")
        n = got.nr_states
        ctx.check(n == len(hyp["labels"]), "storm-size", msg)
        from jajapy import stormpyModeltoJajapy
        got = ctx.call(stormpyModeltoJajapy, got, list(hyp["acts"]))
    ctx.check(list(got.labelling) == hyp["labels"] and list(got.actions) == hyp["acts"], "model", msg)
    Q = np.array(got.matrix, float)
    rows_ok(ctx, Q, msg)
    ctx.close(Q, cur["P"], "learned", msg, rtol=1e-5, atol=1e-8)
    ctx.check(info["learning_rounds"] == maxit * (iters + 1), "rounds", lambda: "%r: %s" % (info, msg))
    ctx.close(info["training_set_loglikelihood"], ref.set_loglik(dict(hyp, P=Q), *total)[0], "loglik", msg, rtol=1e-6, atol=1e-7)
    if path:
        from jajapy import loadMDP
        m = ctx.call(loadMDP, path)
        ctx.close(np.array(m.matrix, float), Q, "file", msg)
    if prism:
        from jajapy import loadPrism
        m = ctx.call(loadPrism, prism)
        lsp = dict(hyp, labels=list(m.labelling), acts=list(m.actions), P=np.array(m.matrix, float), init=np.array(m.initial_state, float))
        for x in total[0]:
            a, b = ref.loglik(dict(hyp, P=Q), x), ref.loglik(lsp, x)
            ctx.check(a == b or abs(a - b) < 1e-6 * max(1, abs(a)), "prism", lambda: "log-likelihood of %s: %s for the learned model, %s for the Prism file: %s" % (x, a, b, msg))
        ctx.count("prism_files")


@family("all-traces", weight=3, quick=30)
def all_traces(ctx, rng):
    learn(ctx, rng, 0)


@family("rate", weight=2, quick=20)
def rate(ctx, rng):
    learn(ctx, rng, float(rng.choice([.1, .25, .5, .9])))


@family("dynamic", weight=2, quick=20)
def dynamic(ctx, rng):
    learn(ctx, rng, "dynamic")


@family("processes", weight=1, quick=10)
def processes(ctx, rng):
    learn(ctx, rng, [0, .5][int(rng.integers(2))], procs=2)


@family("preference", weight=1, quick=6)
def preference(ctx, rng):
    """In the exploiting runs the actions the training set used least are the
    ones chosen most, and no available action is ever out of reach."""
    from jajapy.mdp.Active_BW_MDP import Active_BW_MDP
    na = int(rng.integers(2, 5))
    acts = list("ABCD")[:na]
    # init -> a -> a whatever the action: only the counts of the actions matter
    P = np.zeros((2, na, 2))
    P[0, :, 0] = P[1, :, 0] = 1
    sp = {"kind": "MDP", "labels": ["a", "init"], "acts": acts, "P": P, "init": np.array([0., 1.]), "name": "x"}
    fav = {l: int(rng.integers(na)) for l in ["init", "a"]}
    if rng.random() < .6:
        fav["a"] = (fav["init"] + 1) % na
    t = ["init", acts[fav["init"]], "a"]
    for _ in range(int(rng.integers(1, 20))):
        t += [acts[fav["a"]], "a"]
    S, H = ctx.call(gen.build, sp), ctx.call(gen.build, sp)
    L = Active_BW_MDP()
    with Watch(S, L) as w:
        ctx.call(L.fit, gen.mkset([t], [5000], 1), S, lr=0, nb_iterations=1, nb_sequences=240, sequence_length=3, epsilon_greedy=1.0,
                 initial_model=H, max_it=1, verbose=0, stormpy_output=False, processes=1)
    n = {l: {a: 0 for a in acts} for l in fav}
    for r in w.runs:
        for l, a in zip(r[0][0:-1:2], r[0][1::2]):
            n[l][a] += 1
    ctx.case(("preference", na, str(fav), len(t)), {"actions": na, "favourites": {l: acts[i] for l, i in fav.items()}, "chosen": n})
    for l in fav:
        f, c, k = acts[fav[l]], n[l], sum(n[l].values())
        ctx.count("actions_chosen", k)
        msg = "in state %s the training set only uses %s, chosen %s" % (l, f, c)
        # the favourite was used thousands of times: a uniform choice would use it k/na times
        ctx.check(c[f] < .5 * k / na, "least-used-first", msg)
        for a in acts:
            if a != f:
                ctx.check(c[a] > .4 * k / (na - 1), "least-used-first", msg)


@family("single-available", weight=1, quick=6)
def single(ctx, rng):
    """Some states of the system have a single action, always the same."""
    from jajapy.mdp.Active_BW_MDP import Active_BW_MDP
    sul, hyp, seqs, mult = problem(rng)
    na = len(sul["acts"])
    for s in range(len(sul["labels"])):
        if rng.random() < .7:
            a = int(rng.integers(na))
            row = sul["P"][s][sul["P"][s].sum(axis=1) > 0][0].copy()
            sul["P"][s] = 0
            sul["P"][s, a] = row
    seqs, mult = gen.traces(rng, sul, 3, 2, 5)
    if rng.random() < .5:  # the hypothesis knows which actions are available
        hyp = copy.deepcopy(sul)
    S, H = ctx.call(gen.build, sul), ctx.call(gen.build, hyp)
    L = Active_BW_MDP()
    with Watch(S, L) as w:
        got = ctx.call(L.fit, gen.mkset(seqs, mult, 1), S, lr=0, nb_iterations=2, nb_sequences=4, sequence_length=5,
                       epsilon_greedy=1.0, initial_model=H, max_it=2, verbose=0, stormpy_output=False, processes=1)
    msg = "SUL %s hypothesis %s traces %s" % (gen.brief(sul), gen.brief(hyp), seqs)
    ctx.case(("single", gen.brief(sul), gen.brief(hyp), seqs), {"SUL": gen.brief(sul)})
    ctx.check(len(w.runs) == 8, "sample-size", msg)
    for t, _, _, _ in w.runs:
        ctx.check(possible(sul, t), "sample-impossible", lambda: "%s: %s" % (t, msg))
    rows_ok(ctx, np.array(got.matrix, float), msg)


CHECK = Check("C25", "random systems (actions missing in some states or not), random hypotheses, training sets, learning rates (0, constant, "
              "dynamic), epsilon_greedy values, sample sizes; a case is one active learning, distinct by content",
              [all_traces, rate, dynamic, processes, preference, single], quick=35, thorough=400,
              assumptions=["reference EM step in jv/ref.py", "the samples are the runs of the system under learning recorded by a hook on MDP.run"])
