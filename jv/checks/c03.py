"""C03: log-likelihood depends on the model and the multiset of traces only."""
import sys, copy
import numpy as np
from ..core import Check, family
from .. import gen, ref, boot, snap
from .c01 import numeric, corrupt
from .c02 import corrupt as corrupt_t


class other_platform:
    """Make the library believe it runs on macOS / Windows."""

    def __init__(self, name):
        self.name = name

    def __enter__(self):
        self.saved = []
        for n, m in list(sys.modules.items()):
            if n.startswith("jajapy") and isinstance(getattr(m, "platform", None), str):
                self.saved.append((m, m.platform))
                m.platform = self.name
        self.sys = sys.platform
        sys.platform = self.name

    def __exit__(self, *a):
        for m, v in self.saved:
            m.platform = v
        sys.platform = self.sys


def setup(ctx, rng, kinds, impossible=.3):
    kd = str(rng.choice(list(kinds)))
    timed = kd in ("CTMC", "PCTMC") and rng.random() < .5
    sp = gen.GENS[kd](rng)
    seqs, mult = gen.traces(rng, numeric(sp), int(rng.integers(2, 8)), 1, 7, timed)
    if rng.random() < impossible and kd != "GoHMM":
        t = (corrupt_t if timed else corrupt)(rng, sp, seqs[0])
        if t not in seqs:
            seqs.append(t)
            mult.append(2)
    return kd, sp, seqs, mult, gen.set_type(sp, timed)


ALL = ("MC", "MDP", "CTMC", "HMM", "GoHMM", "PCTMC")


@family("reorder-regroup", weight=3, quick=40)
def reorder(ctx, rng):
    kd, sp, seqs, mult, t = setup(ctx, rng, ALL)
    m = ctx.call(gen.build, sp)
    S = lambda q, w: gen.mkset(q, w, t)
    base = ctx.call(m.logLikelihood, S(seqs, mult))
    ctx.case((kd, gen.brief(sp), seqs, mult), {"model": gen.brief(sp), "traces": seqs[:3], "times": mult[:3]})
    k = rng.permutation(len(seqs))
    ctx.close(ctx.call(m.logLikelihood, S([seqs[i] for i in k], [mult[i] for i in k])), base, "order",
              "%s: log-likelihood after permuting the set by %s; set %s x %s" % (kd, k.tolist(), seqs, mult), rtol=1e-9)
    # the same multiset with the duplicates written out / built from a list of traces
    flat = [s for s, n in zip(seqs, mult) for _ in range(n)]
    k = rng.permutation(len(flat))
    flat = [flat[i] for i in k]
    from jajapy.base.Set import Set
    ctx.close(ctx.call(m.logLikelihood, S(flat, [1] * len(flat))), base, "split", "%s: duplicates listed separately" % kd, rtol=1e-9)
    g = ctx.call(Set, copy.deepcopy(flat), None, t)
    ctx.close(ctx.call(m.logLikelihood, g), base, "from-list", "%s: Set built from a plain list" % kd, rtol=1e-9)
    # scaling all multiplicities
    c = int(rng.integers(2, 6)) if rng.random() < .8 else int(rng.choice([255, 65536, 10 ** 10]))
    ctx.close(ctx.call(m.logLikelihood, S(seqs, [c * x for x in mult])), base, "scale", "%s: multiplicities times %d" % (kd, c), rtol=1e-9)


@family("pure", weight=2, quick=25)
def pure(ctx, rng):
    kd, sp, seqs, mult, t = setup(ctx, rng, ALL)
    if rng.random() < .3 and kd in ("HMM", "GoHMM"):
        seqs = [s[:1] for s in seqs]
    m = ctx.call(gen.build, sp)
    s = gen.mkset(seqs, mult, t)
    a, b = snap.model(m), snap.tset(s)
    mode = ["inline", "real", "darwin", "win32"][int(rng.integers(4))]
    vals = []
    for _ in range(3):
        if mode == "real":
            with boot.real_pool(int(rng.integers(2, 5))):
                vals.append(ctx.call(m.logLikelihood, s))
        elif mode == "inline":
            vals.append(ctx.call(m.logLikelihood, s))
        else:
            with other_platform(mode):
                vals.append(ctx.call(m.logLikelihood, s))
    ctx.count("mode_" + mode)
    ctx.case(("pure", mode, kd, gen.brief(sp), seqs, mult), {"model": gen.brief(sp), "mode": mode, "values": [float(v) for v in vals]})
    ctx.check(vals[0] == vals[1] == vals[2], "repeat", lambda: "%s/%s: repeated calls gave %s" % (kd, mode, vals))
    ctx.check(snap.model(m) == a, "model-changed", lambda: "%s/%s: logLikelihood changed the model's %s" % (kd, mode, snap.diff(a, snap.model(m))))
    ctx.check(snap.tset(s) == b, "set-changed", lambda: "%s/%s: logLikelihood changed the set: %s -> %s" % (kd, mode, b, snap.tset(s)))


@family("platform", weight=2, quick=25)
def platform(ctx, rng):
    kd, sp, seqs, mult, t = setup(ctx, rng, ALL, impossible=.5)
    m = ctx.call(gen.build, sp)
    base = ctx.call(m.logLikelihood, gen.mkset(seqs, mult, t))
    for p in ("darwin", "win32"):
        with other_platform(p):
            v = ctx.call(m.logLikelihood, gen.mkset(seqs, mult, t))
        ctx.close(v, base, "platform", "%s on %s, set %s x %s under %s" % (kd, p, seqs, mult, gen.brief(sp)), rtol=1e-9)
    ctx.case(("plat", kd, gen.brief(sp), seqs, mult), {"model": gen.brief(sp), "loglik": float(base)})


@family("cpus", weight=1, quick=6)
def cpus(ctx, rng):
    kd, sp, seqs, mult, t = setup(ctx, rng, ALL)
    m = ctx.call(gen.build, sp)
    base = ctx.call(m.logLikelihood, gen.mkset(seqs, mult, t))
    for c in (1, 2, 3, 6):
        with boot.real_pool(c):
            v = ctx.call(m.logLikelihood, gen.mkset(seqs, mult, t))
        ctx.count("real_process_pools")
        ctx.close(v, base, "cpus", "%s with %d cpus" % (kd, c), rtol=1e-9)
    ctx.case(("cpus", kd, gen.brief(sp), seqs, mult), {"model": gen.brief(sp), "loglik": float(base)})


CHECK = Check("C03", "random models of all six kinds with random sets; each case re-evaluates one (model, set) pair after "
              "permuting, splitting, scaling, repeating, on another platform code path or worker count; distinct by content",
              [reorder, pure, platform, cpus], quick=45, thorough=450,
              assumptions=["the macOS/Windows code path is selected by patching the platform name, the code itself is unchanged"])
