"""Shared pieces of the Baum-Welch checks."""
import copy
import numpy as np
from . import gen, ref, boot, snap

KINDS = ("MC", "MDP", "CTMC", "CTMCu", "HMM", "GoHMM")


def problem(rng, kinds=KINDS, nseq=(2, 8), lmax=8, foreign=None, style=None, missing=0.25, impossible=0.35):
    """(kind, timed, hypothesis spec, seqs, mult, settype).

    The traces come from another random model over the same labels (so the
    hypothesis may be unable to produce some of them) or from the hypothesis.
    """
    kd = str(rng.choice(list(kinds)))
    timed = kd == "CTMC"
    kd = "CTMC" if kd == "CTMCu" else kd
    if foreign is None:
        foreign = rng.random() < .5
    G = lambda **k: gen.GENS[kd](rng, **k)
    hyp = G(missing=missing, style=style) if kd == "MDP" else G(style=style)
    absorb = []
    if kd == "CTMC" and rng.random() < .2:
        non = [i for i, l in enumerate(hyp["labels"]) if l != "init"]
        absorb = [i for i in non if rng.random() < .4] or non[:1]
        hyp["R"][absorb] = 0
    src = hyp
    if foreign:
        src = copy.deepcopy(hyp)
        for key in ("P", "A", "B", "R"):
            if key in src:
                x = src[key]
                nz = x > 0
                if key == "R":
                    src[key] = x * np.exp(rng.uniform(-1.5, 1.5, x.shape))
                elif x.ndim == 2:
                    y = np.where(nz, rng.uniform(.05, 1, x.shape), 0)
                    src[key] = y / np.maximum(y.sum(axis=1, keepdims=True), 1e-300)
                else:
                    y = np.where(nz, rng.uniform(.05, 1, x.shape), 0)
                    d = y.sum(axis=2, keepdims=True)
                    src[key] = np.where(d > 0, y / np.where(d > 0, d, 1), 0)
        if "out" in src:
            src["out"] = src["out"] + rng.normal(0, .5, src["out"].shape) * np.array([1, 0])
    lmin = 2
    if kd == "GoHMM":
        nseq, lmin = (5, 9), 5
    n = int(rng.integers(*nseq))
    if rng.random() < gen.BIG:
        lmax = 30
    seqs, mult = gen.traces(rng, src, n, lmin, lmax, timed)
    if absorb and not timed:  # stays in the absorbing states
        for i, s in enumerate(seqs):
            u = s + [s[-1]] * int(rng.integers(0, 4))
            if u not in seqs:
                seqs[i] = u
    if kd != "GoHMM" and impossible and rng.random() < impossible:
        # traces the hypothesis may be unable to produce (labels all known to it)
        pool = list(hyp.get("labels", hyp.get("alphabet")))
        for _ in range(int(rng.integers(1, 3))):
            t = list(seqs[int(rng.integers(len(seqs)))])
            i = int(rng.choice(range(1 if kd == "HMM" else 2, len(t), 2 if (timed or kd == "MDP") else 1) or [0]))
            if i == 0 and kd != "HMM":
                continue
            t[i] = str(rng.choice(pool))
            if t not in seqs:
                j = int(rng.integers(len(seqs) + 1))
                seqs.insert(j, t)
                mult.insert(j, int(rng.integers(1, 4)))
    if kd != "GoHMM":
        unusual(rng, seqs, mult, timed)
    return kd, timed, hyp, seqs, mult, gen.set_type(hyp, timed)


def unusual(rng, seqs, mult, timed):
    """Traces of one label; dwell times that are numpy numbers."""
    if rng.random() < .15:
        t = list(seqs[int(rng.integers(len(seqs)))])[:1]
        if t not in seqs:
            j = int(rng.integers(len(seqs) + 1))
            seqs.insert(j, t)
            mult.insert(j, int(rng.integers(1, 4)))
    if timed and rng.random() < .15:
        for s in seqs:
            s[1::2] = [np.float64(x) for x in s[1::2]]


def fresh_problem(rng, kinds):
    """A training set no trace of which comes back to the initial state, which
    the library's random hypotheses never do."""
    while True:
        pb = problem(rng, kinds=kinds, foreign=False, impossible=0)
        if pb[1] and any(sum(t[1::2]) > 300 for t in pb[3]):
            continue  # densities under the range of floats for rates of about 1 (listed finding)
        if pb[0] == "GoHMM" and any(sum((abs(x) + 2) ** 2 for v in t for x in v) * 2 > 600 for t in pb[3]):
            continue  # the same for means in [0, 2] and deviations of at least 0.5
        if all(o != "init" for t in pb[3] for o in t[1:]):
            return pb


def fit(ctx, model, s, bw=None, **k):
    from jajapy.base.BW import BW
    k.setdefault("stormpy_output", False)
    k.setdefault("verbose", 0)
    k.setdefault("return_data", True)
    return ctx.call((bw or BW()).fit, s, initial_model=model, **k)


def params(m):
    """kind -> dict of numeric parameters of a jajapy model"""
    d = {"T": np.array(m.matrix, dtype=float)}
    t = type(m).__name__
    if t in ("HMM", "GoHMM"):
        d["init"] = np.array(m.initial_state, dtype=float)
        d["out"] = np.array(m.output, dtype=float)
    return d


def with_params(sp, m):
    """spec with the numeric content of the learned model m"""
    sp = copy.deepcopy(sp)
    k = sp["kind"]
    key = {"MC": "P", "MDP": "P", "CTMC": "R", "HMM": "A", "GoHMM": "A"}[k]
    sp[key] = np.array(m.matrix, dtype=float)
    if k == "HMM":
        sp["B"] = np.array(m.output, dtype=float)
        sp["init"] = np.array(m.initial_state, dtype=float)
    if k == "GoHMM":
        sp["out"] = np.array(m.output, dtype=float)
        sp["init"] = np.array(m.initial_state, dtype=float)
    return sp


def close(ctx, a, b, mech, msg, rtol=1e-6, atol=1e-8):
    for k in b:
        ctx.close(a[k], b[k], mech, lambda: "%s [%s]" % (msg, k), rtol=rtol, atol=atol)
