"""C09: rates declared fixed are not learned, the others are."""
import numpy as np
from ..core import Check, family
from .. import gen, ref, boot, fit
from . import c07


def mask(rng, R):
    N = len(R)
    k = rng.choice(["some", "rows", "all", "one", "none", "zeros"], p=[.35, .2, .1, .15, .1, .1])
    F = np.zeros((N, N), bool)
    if k == "some":
        F = rng.random((N, N)) < .4
    elif k == "rows":
        F[rng.random(N) < .5] = True
    elif k == "all":
        F[:] = True
    elif k == "one":
        i, j = np.argwhere(R > 0)[int(rng.integers((R > 0).sum()))]
        F[i, j] = True
    elif k == "zeros":
        F = R == 0
    return F


def learn(ctx, rng, kinds, n, procs):
    kd, timed, hyp, seqs, mult, t = fit.problem(rng, kinds)
    F = mask(rng, hyp["R"])
    sp, lls, unv = hyp, [], 0
    for _ in range(n):
        em = ref.em_step(sp, seqs, mult, timed, fixed=F) if timed else ref.em_step(sp, seqs, mult, timed)
        if em is None:
            return
        unv = int((em["den"] < 1e-300).sum())
        if timed:
            if (em["T"].sum(axis=1) <= 0).any():
                return
            sp = dict(sp, R=em["T"])
            lls.append(em["ll"])
    bw, opt = None, {"fixed_parameters": F.copy()}
    if rng.random() < .35:  # a learner that already learned with other fixed rates
        from jajapy.base.BW import BW
        bw = BW()
        for _ in range(int(rng.integers(1, 3))):
            G = mask(rng, hyp["R"])
            fit.fit(ctx, ctx.call(gen.build, hyp), gen.mkset(seqs, mult, t), bw=bw, max_it=1, epsilon=-1e300, processes=procs, fixed_parameters=G)
        ctx.count("reused_learners")
        if not F.any() and rng.random() < .8:
            opt = {}
    m, info = fit.fit(ctx, ctx.call(gen.build, hyp), gen.mkset(seqs, mult, t), bw=bw, max_it=n, epsilon=-1e300, processes=procs, **opt)
    if opt:
        ctx.check(np.array_equal(opt["fixed_parameters"], F), "mask-changed", lambda: "%s became %s" % (F.tolist(), opt["fixed_parameters"].tolist()))
    d = "fixed %s; %s" % (F.astype(int).tolist(), c07.desc(kd, timed, hyp, seqs, mult, n))
    T = np.array(m.matrix, float)
    ctx.case((timed, gen.brief(hyp), F.tolist(), seqs, mult, n), {"timed": timed, "fixed": F.astype(int).tolist(), "hypothesis": gen.brief(hyp), "traces": seqs[:2]})
    ctx.count("fixed_rates", int((F & (hyp["R"] > 0)).sum()))
    ctx.count("fixed_rates_of_unvisited_states", int((F & (hyp["R"] > 0) & (em["den"] < 1e-300)[:, None]).sum()))
    ctx.count("learned_rates", int((~F & (hyp["R"] > 0)).sum()))
    ctx.count("unvisited_states", unv)
    ctx.check(np.array_equal(T[F], hyp["R"][F]), "fixed-moved", lambda: "fixed rates %s became %s; %s" % (hyp["R"][F].tolist(), T[F].tolist(), d))
    if timed:
        ctx.close(T[~F], sp["R"][~F], "free-rates", "rates that are not fixed; " + d, rtol=1e-5, atol=1e-8)
        ctx.close(info["training_set_loglikelihood"], lls[-1], "loglik", d, rtol=1e-7, atol=1e-8)
    else:
        ctx.check(np.isfinite(T).all() and (T >= 0).all(), "invalid", d)
        ctx.check(not (T[hyp["R"] == 0] > 0).any(), "support", d)


@family("timed-step", weight=3, quick=60)
def timed_step(ctx, rng):
    learn(ctx, rng, ("CTMC",), 1, int(rng.integers(1, 3)))


@family("timed-several", weight=2, quick=30)
def timed_several(ctx, rng):
    learn(ctx, rng, ("CTMC",), int(rng.integers(2, 6)), int(rng.integers(1, 3)))


@family("untimed", weight=1, quick=15)
def untimed(ctx, rng):
    learn(ctx, rng, ("CTMCu",), 1, int(rng.integers(1, 3)))


@family("realpool", weight=1, quick=3)
def realpool(ctx, rng):
    with boot.real_pool(3):
        learn(ctx, rng, ("CTMC",), int(rng.integers(1, 3)), 2)
    ctx.count("real_process_pools")


CHECK = Check("C09", "random CTMC hypotheses, random masks of fixed transitions (also of unvisited states and of absent transitions), "
              "random training sets; a case is one learning run, distinct by content", [timed_step, timed_several, untimed, realpool], quick=30, thorough=400)
