"""C07: the learning result is a function of hypothesis and multiset of traces."""
import copy
import numpy as np
from ..core import Check, family
from .. import gen, ref, boot, fit


def explain(hyp, seqs, mult, timed):
    return ref.em_step(hyp, seqs, mult, timed) is not None


def same(ctx, a, b, mech, msg, rtol=1e-6, atol=1e-7):
    fit.close(ctx, fit.params(b), fit.params(a), mech, msg, rtol=rtol, atol=atol)


def run(ctx, hyp, s, k, **kw):
    kw.setdefault("processes", 1)
    return fit.fit(ctx, ctx.call(gen.build, hyp), s, max_it=k, epsilon=-1e300, **kw)


def base(ctx, rng, kinds=fit.KINDS, **k):
    while True:
        kd, timed, hyp, seqs, mult, t = fit.problem(rng, kinds, **k)
        if not explain(hyp, seqs, mult, timed):
            continue
        n = int(rng.integers(1, 4))
        m, info = run(ctx, hyp, gen.mkset(seqs, mult, t), n)
        if kd == "GoHMM" and (np.asarray(m.output)[:, :, 1] < 1e-2).any():
            ctx.count("collapsed_gaussians_skipped")
            continue
        ctx.count("kind_%s%s" % (kd, "_timed" if timed else ""))
        return kd, timed, hyp, seqs, mult, t, n, m, info


def desc(kd, timed, hyp, seqs, mult, n):
    return "%s%s, %d iteration(s), hypothesis %s, traces %s x %s" % (kd, " timed" if timed else "", n, gen.brief(hyp), seqs, mult)


@family("order-grouping", weight=3, quick=40)
def order(ctx, rng):
    kd, timed, hyp, seqs, mult, t, n, m, info = base(ctx, rng)
    d = desc(kd, timed, hyp, seqs, mult, n)
    perm = rng.permutation(len(seqs))
    s2, m2 = [seqs[i] for i in perm], [mult[i] for i in perm]
    a, ia = run(ctx, hyp, gen.mkset(s2, m2, t), n)
    same(ctx, m, a, "order", "reordered set; " + d)
    # each trace listed as often as it occurs
    s3, m3 = [], []
    for x, k in zip(seqs, mult):
        cut = int(rng.integers(0, k))
        for part in ([k] if cut == 0 else [cut, k - cut]):
            s3.append(list(x))
            m3.append(part)
    b, ib = run(ctx, hyp, gen.mkset(s3, m3, t), n)
    same(ctx, m, b, "split", "equal traces split in several entries; " + d)
    k = int(rng.integers(2, 6))
    c, ic = run(ctx, hyp, gen.mkset(seqs, [k * x for x in mult], t), n)
    same(ctx, m, c, "scale", "all multiplicities x%d; " % k + d)
    for i, f in ((ia, 1), (ib, 1), (ic, k)):
        ctx.close(i["training_set_loglikelihood"], f * info["training_set_loglikelihood"], "loglik", d, rtol=1e-8, atol=1e-8)
        ctx.check(i["learning_rounds"] == n, "rounds", d)
    ctx.case(("og", kd, timed, gen.brief(hyp), seqs, mult, n), {"kind": kd, "traces": seqs[:3], "times": mult[:3], "order": perm.tolist()})


@family("list-or-set", weight=1, quick=15)
def as_list(ctx, rng):
    """A plain list of traces, in any order, equals the corresponding Set."""
    kd, timed, hyp, seqs, mult, t, n, m, info = base(ctx, rng, kinds=("MC", "MDP", "CTMC", "CTMCu", "HMM", "GoHMM"))
    d = desc(kd, timed, hyp, seqs, mult, n)
    l = [copy.deepcopy(x) for x, k in zip(seqs, mult) for _ in range(k)]
    order = rng.permutation(len(l))
    l = [l[i] for i in order]
    a, ia = run(ctx, hyp, l, n)
    same(ctx, m, a, "list", "training set given as a list; " + d)
    ctx.close(ia["training_set_loglikelihood"], info["training_set_loglikelihood"], "loglik", d, rtol=1e-8, atol=1e-8)
    ctx.case(("ls", kd, timed, gen.brief(hyp), seqs, mult, n), {"kind": kd, "list": l[:3]})
    if kd == "GoHMM" and len({len(x) for x in seqs}) == 1 or kd in ("MC", "HMM") and len({len(x) for x in seqs}) == 1:
        arr = np.array(l)
        b, ib = run(ctx, hyp, arr, n)
        same(ctx, m, b, "ndarray", "training set given as an array; " + d)
        ctx.count("ndarray_sets")


@family("processes", weight=1, quick=10)
def processes(ctx, rng):
    kd, timed, hyp, seqs, mult, t, n, m, info = base(ctx, rng, nseq=(2, 12))
    d = desc(kd, timed, hyp, seqs, mult, n)
    for p, cpus in ((2, 4), (int(rng.integers(3, 6)), 6), (None, 3)):
        with boot.real_pool(cpus):
            a, ia = run(ctx, hyp, gen.mkset(seqs, mult, t), n, processes=p)
        ctx.count("real_process_pools")
        same(ctx, m, a, "processes", "processes=%s of %d; %s" % (p, cpus, d))
        ctx.close(ia["training_set_loglikelihood"], info["training_set_loglikelihood"], "loglik", d, rtol=1e-8, atol=1e-8)
    ctx.case(("pr", kd, timed, gen.brief(hyp), seqs, mult, n), {"kind": kd, "processes": [1, 2, p], "traces": len(seqs)})


@family("renaming", weight=3, quick=40)
def renaming(ctx, rng):
    """The same hypothesis with its states, actions and symbols in another
    order, and other names: the same model learned, renamed."""
    kd, timed, hyp, seqs, mult, t, n, m, info = base(ctx, rng)
    d = desc(kd, timed, hyp, seqs, mult, n)
    h = copy.deepcopy(hyp)
    N = len(hyp["init"])
    o = rng.permutation(N)
    h["init"] = hyp["init"][o]
    names = {}
    if "labels" in hyp:
        h["labels"] = [hyp["labels"][i] for i in o]
        pool = [x for x in set(hyp["labels"]) if x != "init"]
    else:
        pool = list(hyp.get("alphabet", []))
    if rng.random() < .5:
        new = [str(x) for x in rng.permutation(["k%d" % i for i in range(len(pool))])]
        names = dict(zip(sorted(pool), new))
    r = lambda x: names.get(x, x)
    acts = {}
    if kd == "MDP":
        oa = rng.permutation(len(hyp["acts"]))
        if rng.random() < .5:
            acts = dict(zip(hyp["acts"], [str(x) for x in rng.permutation(["A%d" % i for i in range(len(hyp["acts"]))])]))
        h["acts"] = [acts.get(hyp["acts"][i], hyp["acts"][i]) for i in oa]
        h["P"] = hyp["P"][np.ix_(o, oa, o)]
    else:
        key = {"MC": "P", "CTMC": "R"}.get(kd, "A")
        h[key] = hyp[key][np.ix_(o, o)]
    ok = None
    if kd == "HMM":
        ok = rng.permutation(len(hyp["alphabet"]))
        h["alphabet"] = [r(hyp["alphabet"][i]) for i in ok]
        h["B"] = hyp["B"][np.ix_(o, ok)]
    elif kd == "GoHMM":
        h["out"] = hyp["out"][o]
    else:
        h["labels"] = [r(x) for x in h["labels"]]
    if kd == "GoHMM":
        s2 = seqs
    elif kd == "MDP":
        s2 = [[acts.get(x, x) if i % 2 else r(x) for i, x in enumerate(q)] for q in seqs]
    else:
        s2 = [[r(x) if isinstance(x, str) else x for x in q] for q in seqs]
    a, ia = run(ctx, h, gen.mkset(s2, mult, t), n)
    want, got = fit.params(m), fit.params(a)
    d = "renamed to %s; %s" % (gen.brief(h), d)
    W = want["T"][np.ix_(o, oa, o)] if kd == "MDP" else want["T"][np.ix_(o, o)]
    ctx.close(got["T"], W, "renaming", lambda: "transitions, " + d, rtol=1e-6, atol=1e-7)
    if "init" in want:
        ctx.close(got["init"], want["init"][o], "renaming", lambda: "initial distribution, " + d, rtol=1e-6, atol=1e-7)
    if kd == "HMM":
        ctx.close(got["out"], want["out"][np.ix_(o, ok)], "renaming", lambda: "emissions, " + d, rtol=1e-6, atol=1e-7)
    if kd == "GoHMM":
        ctx.close(got["out"], want["out"][o], "renaming", lambda: "gaussians, " + d, rtol=1e-6, atol=1e-7)
    ctx.close(ia["training_set_loglikelihood"], info["training_set_loglikelihood"], "loglik", d, rtol=1e-8, atol=1e-8)
    ctx.case(("rn", kd, timed, gen.brief(h), s2, mult, n), {"kind": kd, "states": o.tolist(), "names": names, "actions": acts})


@family("inline-pool", weight=2, quick=25)
def inline(ctx, rng):
    """The multi-process path, run in this process on pickled copies."""
    kd, timed, hyp, seqs, mult, t, n, m, info = base(ctx, rng, nseq=(2, 12))
    before = boot.InlinePool.tasks
    a, ia = run(ctx, hyp, gen.mkset(seqs, mult, t), n, processes=int(rng.integers(2, 4)))
    ctx.count("pool_tasks", boot.InlinePool.tasks - before)
    d = desc(kd, timed, hyp, seqs, mult, n)
    same(ctx, m, a, "processes", d)
    ctx.close(ia["training_set_loglikelihood"], info["training_set_loglikelihood"], "loglik", d, rtol=1e-8, atol=1e-8)
    ctx.case(("ip", kd, timed, gen.brief(hyp), seqs, mult, n))


@family("reused-object", weight=1, quick=12)
def reused(ctx, rng):
    """One BW object learning a sequence of different models."""
    from jajapy.base.BW import BW
    bw = BW()
    hist = []
    for _ in range(int(rng.integers(3, 6))):
        kd, timed, hyp, seqs, mult, t, n, m, info = base(ctx, rng)
        hist.append(kd + ("_timed" if timed else ""))
        kw = dict(max_it=n, epsilon=-1e300, processes=int(rng.integers(1, 3)), stormpy_output=False, verbose=0, return_data=True)
        if kd == "CTMC" and rng.random() < .5:
            kw["fixed_parameters"] = np.zeros(hyp["R"].shape, bool)
        a, ia = ctx.call(bw.fit, gen.mkset(seqs, mult, t), initial_model=ctx.call(gen.build, hyp), _what="BW.fit", **kw)
        same(ctx, m, a, "reuse", "BW object used for %s; %s" % (hist, desc(kd, timed, hyp, seqs, mult, n)))
        ctx.close(ia["training_set_loglikelihood"], info["training_set_loglikelihood"], "loglik", str(hist), rtol=1e-8, atol=1e-8)
    ctx.count("reuses", len(hist) - 1)
    ctx.case(("re", tuple(hist), gen.brief(hyp), seqs), {"sequence of kinds": hist})


@family("fresh-copy", weight=1, quick=10)
def again(ctx, rng):
    """Running the same learning twice in one process gives the same model."""
    kd, timed, hyp, seqs, mult, t, n, m, info = base(ctx, rng)
    a, ia = run(ctx, hyp, gen.mkset(seqs, mult, t), n, verbose=int(rng.integers(0, 2)), pp="x")
    d = desc(kd, timed, hyp, seqs, mult, n)
    same(ctx, m, a, "again", d, rtol=1e-9, atol=1e-12)
    # max_it=n in one run or n runs of one iteration each
    h = ctx.call(gen.build, hyp)
    for _ in range(n):
        h, ih = fit.fit(ctx, h, gen.mkset(seqs, mult, t), max_it=1, epsilon=-1e300, processes=1)
    same(ctx, m, h, "continued", "n runs of one iteration; " + d, rtol=1e-6, atol=1e-7)
    ctx.case(("ag", kd, timed, gen.brief(hyp), seqs, mult, n))


CHECK = Check("C07", "random learning problems run in several presentations (order, grouping, list/array/Set, renaming of states, actions and symbols, 1..5 processes, reused "
              "BW object); a case is one problem with one family of presentations, distinct by content",
              [order, as_list, processes, renaming, inline, reused, again], quick=40, thorough=500,
              assumptions=["worker processes are real in the 'processes' family; elsewhere a stand-in pool runs pickled copies in-process"])
