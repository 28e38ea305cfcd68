"""C15: simulated traces have the requested shape and are possible."""
import math
import numpy as np
from ..core import Check, family
from .. import gen, ref, snap

KINDS = ["MC", "MDP", "CTMC", "HMM", "GoHMM", "PCTMC"]


def subject(rng, kd):
    if kd == "PCTMC":
        sp = gen.g_pctmc(rng, odd=rng.random() < .3)
        return sp, gen.build(sp), gen.as_ctmc(sp)
    sp = gen.g_any(rng, [kd]) if kd == "GoHMM" else gen.g_any(rng, [kd], odd=rng.random() < .3)
    if kd == "CTMC" and rng.random() < .3:
        # very slow or very fast clocks
        sp["R"] = sp["R"] * 10.0 ** rng.uniform(-12, 12)
    m = gen.build(sp)
    if kd == "HMM" and rng.random() < .3:
        # rows whose sum is only close to one, as after rounding
        sp["A"] = np.round(sp["A"], 4)
        sp["B"] = np.round(sp["B"], 4)
        ok = all(abs(x.sum() - 1) < 4e-4 for x in list(sp["A"]) + list(sp["B"]))
        if ok:
            m = gen.build(sp)
    if kd in ("HMM", "GoHMM"):
        sp = dict(sp)
    return sp, m, sp


def start_at(sp, s):
    sp = dict(sp)
    v = np.zeros(len(sp["init"]))
    v[s] = 1.0
    sp["init"] = v
    return sp


def judge(ctx, sp, t, n, timed, d):
    """Shape of one trace of n steps, and whether the model can generate it."""
    k = sp["kind"]
    ctx.count("traces_judged")
    ctx.check(isinstance(t, list), "shape", "not a list: %r; %s" % (t, d))
    if k in ("HMM", "GoHMM"):
        ctx.check(len(t) == n, "length", "%d observations instead of %d: %s; %s" % (len(t), n, t, d))
    else:
        e = 2 * n + 1 if k == "MDP" or timed else n + 1
        ctx.check(len(t) == e, "length", "length %d instead of %d: %s; %s" % (len(t), e, t, d))
    if k == "GoHMM":
        for o in t:
            ctx.check(len(o) == sp["out"].shape[1] and all(isinstance(float(x), float) and math.isfinite(x) for x in o),
                      "shape", "observation %r; %s" % (o, d))
    elif k == "HMM":
        ctx.check(all(o in sp["alphabet"] for o in t), "label", "%s; %s" % (t, d))
    else:
        step = 2 if k == "MDP" or timed else 1
        ctx.check(all(isinstance(o, str) and o in sp["labels"] for o in t[::step]), "label", "%s; %s" % (t, d))
        if k == "MDP":
            ctx.check(all(a in sp["acts"] for a in t[1::2]), "action", "%s; %s" % (t, d))
        elif timed:
            ctx.check(all(float(x) > 0 and math.isfinite(x) for x in t[1::2]), "dwell", "%s; %s" % (t, d))
    if n == 0 and k in ("HMM", "GoHMM"):
        return
    ll = ref.loglik(sp, t, timed)
    if k == "GoHMM" and ll == -math.inf:
        return  # underflow of a density
    ctx.check(ll > -math.inf, "possible", "the model cannot generate %s; %s" % (t, d))


@family("run", weight=4, quick=60)
def run(ctx, rng):
    from jajapy.mdp.Scheduler import UniformScheduler
    kd = str(rng.choice(KINDS))
    sp, m, num = subject(rng, kd)
    before = snap.model(m)
    ns = [0, 1] + [int(rng.integers(2, 13)) for _ in range(4 if kd != "PCTMC" else 1)]
    for n in ns:
        for timed in ([False, True] if kd in ("CTMC", "PCTMC") else [False]):
            d = "run(%d, timed=%s) of %s" % (n, timed, gen.brief(sp))
            start = None
            if kd == "MDP":
                sch = UniformScheduler(list(sp["acts"]))
                if rng.random() < .4:
                    start = int(rng.integers(len(sp["init"])))
                    t = ctx.call(m.run, n, sch, start)
                else:
                    t = ctx.call(m.run, n, sch)
            elif kd in ("MC", "HMM", "GoHMM"):
                if rng.random() < .4:
                    start = int(rng.integers(len(sp["init"])))
                    t = ctx.call(m.run, n, start) if rng.random() < .5 else ctx.call(m.run, n, current=start)
                else:
                    t = ctx.call(m.run, n)
            else:
                t = ctx.call(m.run, n, timed) if timed else ctx.call(m.run, n)
            judge(ctx, num if start is None else start_at(num, start), t, n, timed, "started in %s, " % start + d)
            ctx.case((kd, repr(t), n, start), {"kind": kd, "n": n, "start": start, "trace": t})
    dd = snap.diff(before, snap.model(m))
    ctx.check(not dd, "changed", "running changed %s of %s" % (dd, gen.brief(sp)))


@family("set", weight=3, quick=40)
def genset(ctx, rng):
    from jajapy.base.Set import Set
    from jajapy.mdp.Scheduler import UniformScheduler
    kd = str(rng.choice(KINDS))
    sp, m, num = subject(rng, kd)
    before = snap.model(m)
    timed = kd in ("CTMC", "PCTMC") and rng.random() < .5
    size = int(rng.integers(1, 25 if kd != "PCTMC" else 6))
    mode = str(rng.choice(["int", "list", "geo"]))
    big = kd != "PCTMC" and rng.random() < .1
    if big:
        # many traces that occur several times, at every distance
        size, mode, timed = int(rng.integers(100, 400)), "int", False
        ctx.count("large_sets")
    args = [size]
    k = {}
    if mode == "int":
        p = int(rng.integers(4, 8)) if big else int(rng.integers(1, 7))
        want = [p] * size
        args.append(p)
    elif mode == "list":
        want = [int(rng.integers(1, 7)) for _ in range(size)]
        args.append(list(want))
    else:
        mn = int(rng.integers(1, 5))
        args.append(float(rng.choice([.3, .5, .9, 1.0])))
        k = {"distribution": "geo", "min_size": mn}
        want = None
    d = "generateSet(%s, %s, timed=%s) of %s" % (args, k, timed, gen.brief(sp))
    if kd == "MDP":
        s = ctx.call(m.generateSet, *args, UniformScheduler(list(sp["acts"])), **k)
    elif timed:
        s = ctx.call(m.generateSet, *args, timed=True, **k)
    else:
        s = ctx.call(m.generateSet, *args, **k)
    ctx.check(isinstance(s, Set), "type", "returned %r; %s" % (type(s), d))
    ctx.check(s.type == gen.set_type(sp, timed), "type", "type %s; %s" % (s.type, d))
    times = [int(x) for x in s.times]
    ctx.check(len(times) == len(s.sequences) and all(x > 0 for x in times) and sum(times) == size, "size",
              "multiplicities %s for %d sequences; %s" % (times, len(s.sequences), d))
    r = [repr(x) for x in s.sequences]
    ctx.check(len(set(r)) == len(r), "duplicates", "%s; %s" % (r, d))
    lens = []
    for t, x in zip(s.sequences, times):
        n = len(t) if kd in ("HMM", "GoHMM") else (len(t) // 2 if timed or kd == "MDP" else len(t) - 1)
        judge(ctx, num, t, n, timed, d)
        lens += [n] * x
    if want is not None:
        ctx.check(sorted(lens) == sorted(want), "length", "lengths %s instead of %s; %s" % (sorted(lens), sorted(want), d))
    else:
        ctx.check(all(x >= mn + 1 for x in lens), "length", "lengths %s, min_size %d; %s" % (lens, mn, d))
    dd = snap.diff(before, snap.model(m))
    ctx.check(not dd, "changed", "generateSet changed %s of %s" % (dd, gen.brief(sp)))
    if mode == "list":
        ctx.check(args[1] == want, "changed", "the list of lengths became %s; %s" % (args[1], d))
    ctx.count("sets_judged")
    ctx.case((kd, mode, timed, size, repr(s.sequences)), {"kind": kd, "mode": mode, "timed": timed, "sequences": s.sequences[:3], "times": times[:3]})


@family("next", weight=2, quick=20)
def nxt(ctx, rng):
    """One step: the observation is the state's, the successor is possible."""
    kd = str(rng.choice(KINDS))
    sp, m, num = subject(rng, kd)
    for s in range(len(sp["init"])):
        for _ in range(6 if kd != "PCTMC" else 2):
            d = "next(%d) of %s" % (s, gen.brief(sp))
            if kd in ("MC", "MDP"):
                if kd == "MDP":
                    av = [i for i in range(len(sp["acts"])) if sp["P"][s, i].sum() > 0]
                    a = av[int(rng.integers(len(av)))]
                    got = set(ctx.call(m.getActions, s))
                    ctx.check(got == {sp["acts"][i] for i in av}, "action", "getActions(%d): %s; %s" % (s, got, d))
                    n, o = ctx.call(m.next, s, sp["acts"][a])
                    row = sp["P"][s, a]
                else:
                    n, o = ctx.call(m.next, s)
                    row = sp["P"][s]
                ctx.check(o == sp["labels"][s], "label", "%r; %s" % (o, d))
            elif kd in ("CTMC", "PCTMC"):
                o, n, t = ctx.call(m.next, s)
                row = num["R"][s]
                ctx.check(o == num["labels"][s], "label", "%r; %s" % (o, d))
                ctx.check(row.sum() == 0 or (float(t) > 0 and math.isfinite(t)), "dwell", "%r; %s" % (t, d))
                if row.sum() == 0:
                    row = np.eye(len(row))[s]
            else:
                n, o = ctx.call(m.next, s)
                row = sp["A"][s]
                if kd == "HMM":
                    ctx.check(o in sp["alphabet"] and sp["B"][s, sp["alphabet"].index(o)] > 0, "label", "%r; %s" % (o, d))
                else:
                    ctx.check(len(o) == sp["out"].shape[1], "label", "%r; %s" % (o, d))
                o = ctx.call(m.next_obs, s)
                ctx.check(sp["B"][s, sp["alphabet"].index(o)] > 0 if kd == "HMM" else len(o) == sp["out"].shape[1], "label", "next_obs: %r; %s" % (o, d))
                j = int(ctx.call(m.next_state, s))
                ctx.check(row[j] > 0, "successor", "next_state moved to %d; %s" % (j, d))
            ctx.check(0 <= int(n) < len(row) and row[int(n)] > 0, "successor", "moved to %s; %s" % (n, d))
            ctx.case((kd, s, int(n), repr(o)[:20], repr(row.tolist())))


@family("absorbing", weight=1, quick=12)
def absorbing(ctx, rng):
    """A state that cannot be left is never left."""
    kd = str(rng.choice(["CTMC", "PCTMC"]))
    sp = gen.GENS[kd](rng, odd=rng.random() < .3)
    dead = gen.absorb(rng, sp)
    m = ctx.call(gen.build, sp)
    num = gen.as_ctmc(sp) if kd == "PCTMC" else sp
    for n in (1, int(rng.integers(2, 8)), int(rng.integers(2, 8))):
        d = "%d steps of %s" % (n, gen.brief(sp))
        judge(ctx, num, ctx.call(m.run, n), n, False, d)
        s = ctx.call(m.generateSet, 3, n)
        ctx.check(sum(int(x) for x in s.times) == 3, "size", "%s; %s" % (s.times, d))
        for t in s.sequences:
            judge(ctx, num, t, n, False, d)
        t = ctx.call(m.run, n, True)
        ctx.check(len(t) == 2 * n + 1, "length", "%s; %s" % (t, d))
        w = [float(x) for x in t[1::2]]
        k = next((i for i, x in enumerate(w) if x == math.inf), n)
        ctx.check(all(x > 0 for x in w) and all(x == math.inf for x in w[k:]) and set(t[2 * k::2]) == {t[2 * k]}, "stay", "%s; %s" % (t, d))
        ctx.check(k == n or any(num["labels"][i] == t[2 * k] for i in dead), "stay", "%s stops in a state that can be left; %s" % (t, d))
        ctx.check(ref.loglik(num, t[:2 * k + 1], True) > -math.inf, "possible", "the model cannot generate %s; %s" % (t, d))
        ctx.count("absorbed" if k < n else "not_absorbed")
    for i in dead:
        o, j, t = ctx.call(m.next, i)
        ctx.check(o == num["labels"][i] and j == i and t == math.inf, "stay", "next(%d) gives %s; %s" % (i, (o, j, t), gen.brief(sp)))
    ctx.case((kd, gen.brief(sp)), {"model": gen.brief(sp), "absorbing": dead})


CHECK = Check("C15", "a simulated trace, set or step (kind, arguments, outcome)", [run, genset, nxt, absorbing], quick=15, thorough=400)
