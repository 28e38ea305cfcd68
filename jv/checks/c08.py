"""C08: when learning stops, what it reports, what it writes, when it refuses."""
import contextlib, io, math, os, re
import numpy as np
from ..core import Check, family
from .. import gen, ref, boot, fit
from . import c07


def trajectory(hyp, seqs, mult, timed, n):
    """Hypotheses and log-likelihoods met by the learning, by reference EM."""
    sp, lls, models = hyp, [], []
    for _ in range(n):
        em = ref.em_step(sp, seqs, mult, timed)
        if em is None:
            return None
        lls.append(em["ll"])
        sp = dict(sp)
        sp[{"MC": "P", "MDP": "P", "CTMC": "R"}.get(sp["kind"], "A")] = em["T"]
        for a in ("init", "B", "out"):
            if a in em:
                sp[a] = em[a]
        if "out" in em and (em["out"][:, :, 1] < 1e-2).any():
            return None
        models.append(sp)
    return lls, models


@family("stopping", weight=3, quick=40)
def stopping(ctx, rng):
    kd, timed, hyp, seqs, mult, t = fit.problem(rng)
    tr = trajectory(hyp, seqs, mult, timed, 25)
    if tr is None:
        return
    lls, models = tr
    eps = float(10 ** rng.uniform(-5, 1)) if rng.random() < .8 else float(rng.choice([0.01, 0.01, 0.0]))
    mx = int(rng.integers(1, 25))
    stop = mx
    for k in range(1, mx):
        d = lls[k] - lls[k - 1]
        if abs(d - eps) < 1e-6 * max(1, abs(lls[k])):
            return  # too close to call
        if d < eps:
            stop = k + 1
            break
    kw = {"epsilon": eps} if eps != 0.01 else {}
    if stop == mx or rng.random() < .5:
        kw["max_it"] = mx
    m, info = fit.fit(ctx, ctx.call(gen.build, hyp), gen.mkset(seqs, mult, t), processes=int(rng.integers(1, 3)), **kw)
    d = "%s, epsilon %g, max_it %d, log-likelihoods %s" % (c07.desc(kd, timed, hyp, seqs, mult, stop), eps, mx, lls[:stop + 1])
    ctx.case(("stop", kd, timed, gen.brief(hyp), seqs, mult, eps, mx), {"kind": kd, "epsilon": eps, "max_it": mx, "rounds": stop, "loglik": lls[:stop]})
    ctx.count("stopped_by_max_it" if stop == mx else "stopped_by_epsilon")
    ctx.check(info["learning_rounds"] == stop, "rounds", lambda: "reported %s rounds, expected %d; %s" % (info["learning_rounds"], stop, d))
    ctx.close(info["training_set_loglikelihood"], lls[stop - 1], "reported-loglik", d, rtol=1e-6, atol=1e-7)
    ctx.check(math.isfinite(info["learning_time"]) and info["learning_time"] >= 0, "time", d)
    got = fit.params(m)["T"]
    exp = models[stop - 1][{"MC": "P", "MDP": "P", "CTMC": "R"}.get(kd, "A")]
    ctx.close(got, exp, "returned-model", "returned model is not the hypothesis after the last reported round; " + d, rtol=1e-3, atol=1e-5)


LOAD = {"MC": "loadMC", "MDP": "loadMDP", "CTMC": "loadCTMC", "HMM": "loadHMM", "GoHMM": "loadGoHMM"}


@family("outputs", weight=2, quick=30)
def outputs(ctx, rng):
    import jajapy as ja
    from jajapy.base.BW import BW
    while True:
        kd, timed, hyp, seqs, mult, t = fit.problem(rng)
        if ref.em_step(hyp, seqs, mult, timed) is not None and hyp.get("labels", ["init"]).count("init") == 1:
            break
    n = int(rng.integers(1, 4))
    base, ib = fit.fit(ctx, ctx.call(gen.build, hyp), gen.mkset(seqs, mult, t), max_it=n, epsilon=-1e300, processes=1)
    d = c07.desc(kd, timed, hyp, seqs, mult, n)
    if kd == "GoHMM" and (np.asarray(base.output)[:, :, 1] < 1e-2).any():
        return
    f, fp = ctx.tmp("out.txt"), ctx.tmp("out.sm")
    kw = {}
    storm = bool(rng.integers(2))
    if rng.random() < .8:
        kw["output_file"] = f
    if rng.random() < .6:
        kw["output_file_prism"] = fp
    for x in (f, fp):
        if os.path.exists(x):
            os.remove(x)
    data = bool(rng.integers(2))
    level = int(rng.choice([0, 1, 2, 3]))
    said = io.StringIO()
    with contextlib.redirect_stdout(said):
        r = ctx.call(BW().fit, gen.mkset(seqs, mult, t), initial_model=ctx.call(gen.build, hyp), max_it=n, epsilon=-1e300, processes=1,
                     stormpy_output=storm, verbose=level, return_data=data, **kw)
    said = said.getvalue()
    ctx.count("verbose_%d" % level)
    rounds = re.findall(r"Iterations:\s*(\d+)", said)
    ctx.check(level > 0 or not re.sub(r"WARN.*", "", said).strip(), "silent", "verbose=0 printed %r; %s" % (said, d))
    ctx.check(rounds == ([str(n)] if level == 3 else []), "recap", "verbose=%d printed %r after %d rounds; %s" % (level, said, n, d))
    m = r
    if data:
        ctx.check(isinstance(r, (tuple, list)) and len(r) == 2 and set(r[1]) >= {"learning_rounds", "learning_time", "training_set_loglikelihood"}, "return-data", d)
        m = r[0]
        ctx.close(r[1]["training_set_loglikelihood"], ib["training_set_loglikelihood"], "reported-loglik", d)
    ctx.case(("out", kd, timed, gen.brief(hyp), seqs, mult, n, storm, sorted(kw)), {"kind": kd, "stormpy_output": storm, "files": sorted(kw), "return_data": data})
    ctx.count("outputs_" + kd)
    hmm = kd in ("HMM", "GoHMM")
    if storm and not hmm:
        ctx.check(type(m).__module__.startswith("stormpy") and type(m).__name__ == {"MC": "SparseDtmc", "MDP": "SparseMdp", "CTMC": "SparseCtmc"}[kd],
                  "storm-type", "%s: got %s" % (d, type(m)))
        ctx.count("stormpy_models")
        m = ctx.call(ja.stormpyModeltoJajapy, m, list(hyp["acts"])) if kd == "MDP" else ctx.call(ja.stormpyModeltoJajapy, m)
        ctx.check(list(m.labelling) == list(base.labelling), "storm-labels", d)
        T, B = np.array(m.matrix, float), np.array(base.matrix, float)
        if kd == "MDP":
            B = B[:, [base.actions.index(a) for a in m.actions], :]
        ctx.close(T, B, "storm-model", d, rtol=1e-7, atol=1e-9)
    else:
        ctx.check(type(m) is type(base), "jajapy-type", "%s: got %s" % (d, type(m)))
        c07.same(ctx, base, m, "returned", d, rtol=1e-9, atol=1e-12)
    if "output_file" in kw:
        ctx.check(os.path.exists(f), "no-file", d)
        l = ctx.call(getattr(ja, LOAD[kd]), f)
        c07.same(ctx, base, l, "saved", "model read back from output_file; " + d, rtol=1e-9, atol=1e-12)
        ctx.count("saved_files")
    else:
        ctx.check(not os.path.exists(f), "unrequested-file", d)
    if "output_file_prism" in kw and not hmm:
        ctx.check(os.path.exists(fp), "no-prism-file", d)
        l = ctx.call(ja.loadPrism, fp)
        sp = fit.with_params(hyp, base)
        lsp = dict(hyp, labels=list(l.labelling), init=np.array(l.initial_state, float))
        lsp = fit.with_params(lsp, l)
        if kd == "MDP":
            lsp["acts"] = list(l.actions)
        for x in seqs[:4]:
            if timed and not sp["R"].any(axis=1).all():
                break  # Storm gives a self-loop of rate 1 to the absorbing states
            a, b = ref.loglik(sp, x, timed), ref.loglik(lsp, x, timed)
            ctx.check(a == b or abs(a - b) < 1e-6 * max(1, abs(a)), "prism", "log-likelihood of %s: %s for the fitted model, %s for the Prism file; %s" % (x, a, b, d))
        ctx.count("prism_files")


@family("storm-start", weight=1, quick=10)
def storm_start(ctx, rng):
    """A Stormpy model as starting hypothesis is the same as the jajapy one."""
    while True:
        kd, timed, hyp, seqs, mult, t = fit.problem(rng, kinds=("MC", "CTMC", "CTMCu"))
        if ref.em_step(hyp, seqs, mult, timed) is not None:
            break
    n = int(rng.integers(1, 4))
    base, ib = fit.fit(ctx, ctx.call(gen.build, hyp), gen.mkset(seqs, mult, t), max_it=n, epsilon=-1e300, processes=1)
    h = ctx.call(ctx.call(gen.build, hyp).toStormpy)
    m, info = fit.fit(ctx, h, gen.mkset(seqs, mult, t), max_it=n, epsilon=-1e300, processes=1)
    d = c07.desc(kd, timed, hyp, seqs, mult, n)
    c07.same(ctx, base, m, "storm-start", d)
    ctx.close(info["training_set_loglikelihood"], ib["training_set_loglikelihood"], "reported-loglik", d)
    ctx.case(("ss", kd, timed, gen.brief(hyp), seqs, mult, n), {"kind": kd})


@family("impossible", weight=1, quick=16)
def impossible(ctx, rng):
    """No training sequence can be generated: a ValueError, never a model."""
    from jajapy.base.BW import BW
    kd, timed, hyp, seqs, mult, t = fit.problem(rng, kinds=("MC", "MDP", "CTMC", "CTMCu", "HMM"))
    seqs = [s for s in seqs if len(s) > 1] or [[seqs[0][0]] + ([1.0] if timed else [hyp["acts"][0]] if kd == "MDP" else []) + ["zzz"]]
    bad = []
    for x in seqs:
        x = list(x)
        i = int(rng.choice(range(0 if kd == "HMM" else (2 if timed or kd == "MDP" else 1), len(x), 2 if timed or kd == "MDP" else 1)))
        x[i] = "zzz"
        if x not in bad:
            bad.append(x)
    mult = mult[:len(bad)]
    p = int(rng.choice([1, 2]))
    ctx.case(("imp", kd, timed, gen.brief(hyp), bad, p), {"kind": kd, "traces": bad[:2]})
    try:
        ctx._limited(BW().fit, (gen.mkset(bad, mult, t),), dict(initial_model=gen.build(hyp), processes=p, stormpy_output=False, verbose=0, max_it=5))
    except ValueError as e:
        ctx.check(len(str(e)) > 10, "message", str(e))
        return
    except Exception as e:
        ctx.fail("wrong-error", "%s: %s instead of a ValueError: %s" % (kd, type(e).__name__, e))
    ctx.fail("no-error", "%s learned something from %s, none of which %s can generate" % (kd, bad, gen.brief(hyp)))


@family("mismatch", weight=1, quick=10)
def mismatch(ctx, rng):
    """Training set and hypothesis of incompatible kinds are refused."""
    from jajapy.base.BW import BW
    a, b = [("MC", "GoHMM"), ("MC", "CTMC"), ("MDP", "CTMC"), ("GoHMM", "MDP"), ("GoHMM", "CTMC"), ("MDP", "GoHMM"), ("MC", "MDP")][int(rng.integers(7))]
    _, _, hyp, _, _, _ = fit.problem(rng, kinds=(a,), impossible=0)
    _, _, _, seqs, mult, t = fit.problem(rng, kinds=(b,), impossible=0)
    keep = [i for i, s in enumerate(seqs) if len(s) > 1]  # a trace of one label is one of any kind of model
    seqs, mult = [seqs[i] for i in keep], [mult[i] for i in keep]
    if not seqs:
        return
    ok = ctx.refuses(BW().fit, gen.mkset(seqs, mult, t), initial_model=gen.build(hyp), processes=1, stormpy_output=False, verbose=0, max_it=2)
    ctx.case(("mm", a, b, seqs), {"hypothesis": a, "traces of": b})
    ctx.check(ok, "accepted", "a %s hypothesis was fitted to traces of a %s: %s" % (a, b, seqs[:2]))
    ctx.check(ctx.refuses(BW().fit, gen.mkset(seqs, mult, t), stormpy_output=False, verbose=0), "no-start", "fit without hypothesis nor number of states returned")


CHECK = Check("C08", "random learning problems with random epsilon, max_it and output options; a case is one learning run, distinct by content",
              [stopping, outputs, storm_start, impossible, mismatch], quick=40, thorough=450,
              assumptions=["stopping points closer than 1e-6 to epsilon are not judged", "Stormpy 1.10 reads the Prism files"])
