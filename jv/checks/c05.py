"""C05: whatever Baum-Welch returns is a well-formed model of the same shape."""
import numpy as np
from ..core import Check, family
from .. import gen, ref, boot, fit


def stochastic(ctx, M, what, allow_zero=None):
    M = np.asarray(M, float)
    ctx.check(np.isfinite(M).all(), "not-finite", lambda: "%s: %s" % (what, M.tolist()))
    ctx.check((M >= -1e-12).all(), "negative", lambda: "%s: %s" % (what, M.tolist()))
    s = M.sum(axis=-1)
    bad = np.abs(s - 1) > 1e-6
    if allow_zero is not None:
        bad &= ~(np.asarray(allow_zero) & (np.abs(s) < 1e-12))
    ctx.check(not bad.any(), "row-sum", lambda: "%s: row sums %s" % (what, s.tolist()))


def validate(ctx, kd, hyp, m, msg, long=False):
    cls = {"MC": "MC", "MDP": "MDP", "CTMC": "CTMC", "HMM": "HMM", "GoHMM": "GoHMM"}[kd]
    ctx.check(type(m).__name__ == cls, "type", "%s: got %s" % (msg, type(m).__name__))
    N = len(hyp["init"])
    ctx.check(m.nb_states == N and len(m.initial_state) == N, "nb-states", msg)
    T = np.asarray(m.matrix, float)
    old = {"MC": "P", "MDP": "P", "CTMC": "R"}.get(kd, "A")
    ctx.check(T.shape == hyp[old].shape, "shape", msg)
    ctx.check(not (T[hyp[old] == 0] > 1e-12).any(), "support", lambda: "%s: a transition of probability 0 became possible: %s -> %s" % (msg, hyp[old].tolist(), T.tolist()))
    if kd in ("MC", "MDP", "CTMC"):
        ctx.check(list(m.labelling) == list(hyp["labels"]), "labels", lambda: "%s: labels %s" % (msg, m.labelling))
        ctx.check(sorted(m.getAlphabet()) == sorted(set(hyp["labels"])), "alphabet", msg)
        ctx.close(m.initial_state, hyp["init"], "initial", msg)
    if kd == "CTMC":
        ctx.check(np.isfinite(T).all(), "not-finite", msg)
        ctx.check((T >= -1e-12).all(), "negative", msg)
        # (after many iterations the rates of a state may have shrunk under the range of floats)
        ctx.check(long or (T.sum(axis=1) > 0)[hyp["R"].any(axis=1)].all(), "no-exit", lambda: "%s: exit rates %s" % (msg, T.sum(axis=1)))
    elif kd == "MDP":
        stochastic(ctx, T, msg, allow_zero=hyp["P"].sum(axis=2) == 0)
        en = T.sum(axis=2) > .5
        ctx.check((en == (hyp["P"].sum(axis=2) > 0)).all(), "actions-enabled", msg)
        ctx.check(list(m.actions) == list(hyp["acts"]), "actions", msg)
    else:
        stochastic(ctx, T, msg)
    if kd == "HMM":
        stochastic(ctx, m.output, msg + " emissions")
        ctx.check(not (np.asarray(m.output)[hyp["B"] == 0] > 1e-12).any(), "support", msg + " emission of probability 0 became possible")
        stochastic(ctx, [m.initial_state], msg + " initial")
        ctx.check(not (np.asarray(m.initial_state)[hyp["init"] == 0] > 1e-12).any(), "support", msg + " initial")
        ctx.check(list(m.getAlphabet()) == list(hyp["alphabet"]), "alphabet", msg)
    if kd == "GoHMM":
        o = np.asarray(m.output, float)
        ctx.check(o.shape == hyp["out"].shape and np.isfinite(o).all(), "gaussians", msg)
        ctx.check((o[:, :, 1] >= 0).all(), "sigma", msg)
        stochastic(ctx, [m.initial_state], msg + " initial")
        ctx.check(not (np.asarray(m.initial_state)[hyp["init"] == 0] > 1e-12).any(), "support", msg + " initial")


@family("given-start", weight=3, quick=60)
def given(ctx, rng):
    kd, timed, hyp, seqs, mult, t = fit.problem(rng)
    if ref.em_step(hyp, seqs, mult, timed) is None:
        return
    m = ctx.call(gen.build, hyp)
    k = int(rng.integers(1, 9))
    r, info = fit.fit(ctx, m, gen.mkset(seqs, mult, t), max_it=k, epsilon=float(rng.choice([-1e300, 1e-3, .5])), processes=int(rng.integers(1, 3)))
    msg = "%s%s fitted for %d iteration(s) from %s on %s x %s" % (kd, " timed" if timed else "", info["learning_rounds"], gen.brief(hyp), seqs, mult)
    ctx.case((kd, timed, gen.brief(hyp), seqs, mult, k), {"kind": kd, "hypothesis": gen.brief(hyp), "traces": seqs[:3], "rounds": info["learning_rounds"]})
    ctx.count("kind_" + kd + ("_timed" if timed else ""))
    ctx.count("iterations", info["learning_rounds"])
    validate(ctx, kd, hyp, r, msg)


@family("long-run", weight=1, quick=8)
def long_run(ctx, rng):
    """Many iterations: probabilities shrink towards 0 and must stay a model."""
    kd, timed, hyp, seqs, mult, t = fit.problem(rng, kinds=("MC", "MDP", "CTMC", "HMM"))
    if ref.em_step(hyp, seqs, mult, timed) is None:
        return
    m = ctx.call(gen.build, hyp)
    r, info = fit.fit(ctx, m, gen.mkset(seqs, mult, t), max_it=120, epsilon=-1e300, processes=1)
    ctx.case(("long", kd, gen.brief(hyp), seqs, mult), {"kind": kd, "rounds": info["learning_rounds"]})
    ctx.count("iterations", info["learning_rounds"])
    validate(ctx, kd, hyp, r, "%s after %d iterations from %s on %s x %s" % (kd, info["learning_rounds"], gen.brief(hyp), seqs, mult), True)


@family("random-start", weight=1, quick=16)
def random_start(ctx, rng):
    from jajapy.base.BW import BW
    kd, timed, src, seqs, mult, t = fit.fresh_problem(rng, kinds=("MC", "MDP", "CTMC", "GoHMM"))
    kw = {}
    loops = bool(rng.integers(2))
    if kd == "CTMC":
        kw = dict(min_exit_rate_time=1, max_exit_rate_time=int(rng.integers(1, 6)), self_loop=loops)
    labs = sorted({x for s in seqs for x in (s[0::2] if (timed or kd == "MDP") else s)} - {"init"}) if kd != "GoHMM" else []
    n = max(2, len(labs)) + int(rng.integers(0, 3))
    ris = bool(rng.integers(2))
    kw.update(nb_states=n, max_it=int(rng.integers(1, 4)), epsilon=-1e300, processes=1, stormpy_output=False, verbose=0, return_data=True, random_initial_state=ris)

    def learn():
        try:
            return BW().fit(gen.mkset(seqs, mult, t), **kw)
        except ValueError:  # the hypothesis drawn may be unable to generate the traces
            if kd == "GoHMM" or ris and (kd != "CTMC" or loops):
                raise
    r = ctx.call(learn)
    if r is None:
        ctx.count("unable_random_hypotheses")
        return
    r, info = r
    msg = "%s learned from a random start with %d states on %s x %s, options %s" % (kd, n, seqs, mult, kw)
    ctx.case(("rs", kd, seqs, mult, n), {"kind": kd, "nb_states": n, "traces": seqs[:3]})
    ctx.check(type(r).__name__ == kd, "type", "%s: got %s" % (msg, type(r).__name__))
    N = n + (kd != "GoHMM")
    ctx.check(r.nb_states == N, "nb-states", "%s: %d" % (msg, r.nb_states))
    T = np.asarray(r.matrix, float)
    if kd == "CTMC":
        ctx.check(np.isfinite(T).all() and (T >= 0).all() and (T.sum(axis=1) > 0).all(), "rates", msg)
    elif kd == "MDP":
        acts = sorted({a for s in seqs for a in s[1::2]})
        ctx.check(sorted(r.actions) == acts, "actions", "%s: %s" % (msg, r.actions))
        ctx.check(T.shape == (N, len(acts), N), "shape", msg)
        stochastic(ctx, T, msg)
    else:
        stochastic(ctx, T, msg)
    if kd == "GoHMM":
        ctx.check(np.asarray(r.output).shape == (n, len(seqs[0][0]), 2), "gaussians", msg)
        if not ris:
            ctx.check(r.initial_state[0] == 1, "support", "initial distribution %s; %s" % (r.initial_state, msg))
    else:
        ctx.check(set(r.labelling) == set(labs) | {"init"}, "labels", "%s: labels %s, training labels %s" % (msg, r.labelling, labs))
        ctx.check(list(r.labelling).count("init") == 1, "init", msg)
        ini = list(r.labelling).index("init")
        ctx.check((T[..., ini] == 0).all(), "support", "the initial state is entered again; %s" % msg)
        if not ris:
            ctx.check(((T[ini] > 0).any(axis=0) if kd == "MDP" else T[ini] > 0).sum() <= 1, "support", "several first states; %s" % msg)
            ctx.count("fixed_initial_state")
        if kd == "CTMC" and not loops:
            ctx.check((np.diag(T) == 0).all(), "support", "self-loops; %s" % msg)
            ctx.count("no_self_loop")


CHECK = Check("C05", "random (hypothesis, training set) pairs and random starts; a case is one learning run, distinct by content",
              [given, long_run, random_start], quick=45, thorough=450)
