"""C06: one Baum-Welch iteration is the expectation-maximisation update."""
import numpy as np
from ..core import Check, family
from .. import gen, ref, boot, fit


def never(kd, timed, sp, seqs):
    """States (pairs state-action for MDPs) in which no trace can ever be,
    whatever the values of the positive probabilities."""
    N = len(sp["init"])
    M = sp[{"MC": "P", "MDP": "P", "CTMC": "R"}.get(kd, "A")] > 0
    seen = set()
    for t in seqs:
        acts = None
        if kd == "MDP":
            obs, acts = t[0::2], [sp["acts"].index(a) for a in t[1::2]]
        else:
            obs = t[0::2] if timed else t
        if kd == "HMM":
            W = [sp["B"][:, sp["alphabet"].index(o)] > 0 if o in sp["alphabet"] else np.zeros(N, bool) for o in obs]
        elif kd == "GoHMM":
            W = [np.ones(N, bool)] * len(obs)
        else:
            W = [np.array([l == o for l in sp["labels"]]) for o in obs]
        stay = np.array([kd == "CTMC" and not timed and not M[s].any() for s in range(N)])
        step = [M[:, acts[i], :] if acts else M | np.diag(stay) for i in range(len(obs) - 1)]
        f = [(sp["init"] > 0) & W[0]]
        for i in range(len(obs) - 1):
            f.append((f[i] @ step[i]) & W[i + 1])
        b = [np.ones(N, bool)]
        for i in range(len(obs) - 2, -1, -1):
            b.insert(0, step[i] @ (b[0] & W[i + 1]))
        for i in range(len(obs) - (1 if acts is not None or timed else 0)):
            for s in np.flatnonzero(f[i] & b[i]):
                seen.add((int(s), acts[i]) if acts is not None else int(s))
    if kd == "MDP":
        return [(s, a) for s in range(N) for a in range(len(sp["acts"])) if (s, a) not in seen]
    return [s for s in range(N) if s not in seen]


def one(ctx, rng, kinds, iters=1, foreign=None, procs=None, style=None, lmax=8):
    kd, timed, hyp, seqs, mult, t = fit.problem(rng, kinds, foreign=foreign, style=style, lmax=lmax)
    mult = gen.huge(rng, mult)
    sp = hyp
    lls = []
    em = None
    for _ in range(iters):
        em = ref.em_step(sp, seqs, mult, timed)
        if em is None:
            return  # the hypothesis explains no trace: C08 deals with it
        lls.append(em["ll"])
        sp = dict(sp)
        sp[{"MC": "P", "MDP": "P", "CTMC": "R"}.get(kd, "A")] = em["T"]
        if "init" in em:
            sp["init"] = em["init"]
        if "B" in em:
            sp["B"] = em["B"]
        if "out" in em:
            if (em["out"][:, :, 1] < 1e-3).any():
                return  # collapsed gaussian: density not defined
            sp["out"] = em["out"]
    m = ctx.call(gen.build, hyp)
    p = procs or int(rng.integers(1, 3))
    s = gen.mkset(seqs, mult, t)
    if procs and procs > 1:
        with boot.real_pool(procs):
            got, info = fit.fit(ctx, m, s, max_it=iters, epsilon=-1e300, processes=procs)
        ctx.count("real_process_pools")
    else:
        got, info = fit.fit(ctx, m, s, max_it=iters, epsilon=-1e300, processes=p)
    ctx.case((kd, timed, gen.brief(hyp), seqs, mult, iters), {"kind": kd, "timed": timed, "hypothesis": gen.brief(hyp),
             "traces": seqs[:3], "times": mult[:3], "iterations": iters, "loglik": lls})
    ctx.count("kind_%s%s" % (kd, "_timed" if timed else ""))
    ctx.count("em_iterations", iters)
    ctx.count("impossible_traces", len(seqs) - em["used"])
    ctx.count("unvisited_states", int((em["den"] < 1e-300).sum()))
    msg = "%s%s after %d iteration(s) from %s on %s x %s" % (kd, " timed" if timed else "", iters, gen.brief(hyp), seqs, mult)
    q = fit.params(got)
    vis = np.asarray(em["den"]) > 1e-9
    T, R = np.asarray(q["T"], float), em["T"]
    ctx.check(T.shape == R.shape, "shape", msg)
    ctx.close(T[vis], R[vis], "em-transitions", msg, rtol=1e-5, atol=1e-8)
    if "init" in em:
        ctx.close(q["init"], em["init"], "em-initial", msg, rtol=1e-5, atol=1e-8)
    if "B" in em:
        ctx.close(q["out"][vis], em["B"][vis], "em-emission", msg, rtol=1e-5, atol=1e-8)
    if "out" in em:
        ctx.close(q["out"][vis][:, :, 0], em["out"][vis][:, :, 0], "em-mu", msg, rtol=1e-5, atol=1e-7)
        ctx.close(q["out"][vis][:, :, 1], em["out"][vis][:, :, 1], "em-sigma", msg, rtol=1e-5, atol=1e-7)
    for s in never(kd, timed, hyp, seqs):
        # no trace can ever be there: nothing was learned, nothing changes
        ctx.count("unreachable_states_checked")
        was = {"T": hyp[{"MC": "P", "MDP": "P", "CTMC": "R"}.get(kd, "A")]}
        if kd in ("HMM", "GoHMM"):
            was["out"] = hyp["B"] if kd == "HMM" else hyp["out"]
        for k in was:
            ctx.close(np.asarray(q[k], float)[s], was[k][s], "unreached-changed", lambda: "%s of state %s, which no trace can reach: %s" % (
                k, s, msg), rtol=1e-9, atol=1e-12)
    ctx.close(info["training_set_loglikelihood"], lls[-1], "em-loglik", msg, rtol=1e-7, atol=1e-8 + 1e-14 * sum(mult))


@family("step", weight=4, quick=70)
def step(ctx, rng):
    one(ctx, rng, fit.KINDS)


@family("several", weight=2, quick=25)
def several(ctx, rng):
    one(ctx, rng, fit.KINDS, iters=int(rng.integers(2, 5)))


@family("deterministic", weight=1, quick=15)
def deterministic(ctx, rng):
    one(ctx, rng, fit.KINDS, style=str(rng.choice(["det", "sparse"])), foreign=True)


@family("realpool", weight=1, quick=6)
def realpool(ctx, rng):
    one(ctx, rng, fit.KINDS, procs=int(rng.integers(2, 4)))


@family("longer", weight=1, quick=5)
def longer(ctx, rng):
    one(ctx, rng, fit.KINDS, lmax=22)


@family("float-range", weight=0, quick=1)
def float_range(ctx, rng):
    """Fixed input of the finding 'underflow'."""
    for n in (1000, 1200):
        m = ctx.call(gen.build, {"kind": "HMM", "A": np.array([[1.0]]), "B": np.array([[.5, .5]]), "alphabet": ["a", "b"], "init": np.array([1.0]), "name": "coin"})
        got, info = fit.fit(ctx, m, gen.mkset([["a"] * n, ["b"]], [1, 1], 2), max_it=1, epsilon=-1e300, processes=1)
        out = np.asarray(fit.params(got)["out"], float)
        ctx.case(("float-range", n), {"model": "fair coin", "steps": n, "learned": out.tolist()})
        if n == 1200 and np.allclose(out, [[0, 1]], atol=1e-12):
            ctx.fail("underflow", "a training trace of 1200 steps of a fair coin is ignored")
        ctx.close(out, [[n / (n + 1), 1 / (n + 1)]], "em-emission", "%d steps of a fair coin" % n)


float_range.finding = "underflow"

CHECK = Check("C06", "random hypotheses of MC, MDP, CTMC (timed and untimed), HMM, GoHMM with random training sets (own and "
              "foreign, some traces impossible); a case is one (hypothesis, set, number of iterations), distinct by content",
              [step, several, deterministic, realpool, longer, float_range], quick=55, thorough=550,
              assumptions=["reference forward-backward in jv/ref.py (scaled, independent of jajapy)"])
