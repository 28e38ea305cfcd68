"""C26: schedulers, and simulations under them."""
import copy, math, collections
import numpy as np
from scipy import stats
from ..core import Check, family
from .. import gen, ref, boot


def unique_mdp(rng, missing=.3):
    """an MDP whose labels tell its states"""
    sp = gen.g_mdp(rng, hostile=False, missing=missing)
    n = len(sp["labels"])
    names = iter("s%d" % i for i in range(n))
    sp["labels"] = [l if l == "init" else next(names) for l in sp["labels"]]
    return sp


def avail(sp, s):
    return [a for i, a in enumerate(sp["acts"]) if sp["P"][s, i].sum() > 0]


def possible(sp, t):
    return ref.loglik(sp, t) > -math.inf


def from_any(sp):
    return dict(sp, init=np.ones(len(sp["labels"])) / len(sp["labels"]))


def automaton(rng, sp, det=False, full=True):
    k = int(rng.integers(1, 4))
    acts = sp["acts"]
    am = {}
    for s in range(k):
        v = gen.stoch(rng, len(acts), "det" if det else ("dir" if full else None))
        o = rng.permutation(len(acts))
        am[s] = [[float(v[i]) for i in o], [acts[i] for i in o]]
    obs = list(dict.fromkeys(sp["labels"]))
    tm = {o: [int(x) for x in rng.integers(0, k, k)] for o in obs if rng.random() < .8}
    return am, tm


def walk(tm, obs):
    s, res = 0, [0]
    for o in obs:
        if o in tm:
            s = tm[o][s]
        res.append(s)
    return res


class Recorder:
    """A user-made scheduler: writes down everything the simulation asks."""

    def __init__(self, rng, actions, base):
        self.rng, self.actions, self.log = rng, actions, []
        class S(base):
            def __init__(me):
                super().__init__()

            def reset(me):
                self.log.append(("reset",))

            def getAction(me):
                a = self.actions[int(self.rng.integers(len(self.actions)))]
                self.log.append(("act", a))
                return a

            def addObservation(me, o):
                self.log.append(("obs", o))
        self.scheduler = S()


def protocol(ctx, log, traces, sp, msg):
    """The trace specification: reset, then for each step some proposals, the
    last one being the action executed, then the label of the state left."""
    i = 0
    for t in traces:
        ctx.check(i < len(log) and log[i][0] == "reset", "no-reset", lambda: "event %d of %s: %s" % (i, log[max(0, i - 3):i + 3], msg))
        while i < len(log) and log[i][0] == "reset":
            i += 1
        for o, a in zip(t[0:-1:2], t[1::2]):
            last = None
            while i < len(log) and log[i][0] == "act":
                last = log[i][1]
                i += 1
            ctx.check(last == a, "other-action", lambda: "executed %s, proposed last %s: %s" % (a, last, msg))
            ctx.check(i < len(log) and log[i] == ("obs", o), "observation", lambda: "expected the observation %s, got %s: %s" % (o, log[i:i + 1], msg))
            i += 1
    ctx.check(i == len(log), "events-left", lambda: "%s: %s" % (log[i:i + 5], msg))


@family("protocol", weight=2, quick=40)
def proto(ctx, rng):
    from jajapy.mdp.Scheduler import Scheduler
    sp = unique_mdp(rng) if rng.random() < .5 else gen.g_mdp(rng)
    m = ctx.call(gen.build, sp)
    r = Recorder(rng, sp["acts"], Scheduler)
    msg = gen.brief(sp)
    n = int(rng.integers(0, 12))
    ctx.case(("protocol", gen.brief(sp), n), {"mdp": gen.brief(sp), "steps": n})
    if rng.random() < .5:
        ts = [ctx.call(m.run, n, r.scheduler) if rng.random() < .5 else ctx.call(m.run, n, r.scheduler, int(rng.integers(len(sp["labels"]))))
              for _ in range(int(rng.integers(1, 4)) if n else 1)]
        for t in ts:
            ctx.check(len(t) == 2 * n + 1 and possible(from_any(sp), t), "trace", lambda: "%s: %s" % (t, msg))
        protocol(ctx, r.log, ts, sp, msg)
    else:
        k = int(rng.integers(1, 6))
        s = ctx.call(m.generateSet, k, n, r.scheduler)
        ctx.check(s.type == 1 and sum(s.times) == k and len(set(map(str, s.sequences))) == len(s.sequences), "set", lambda: "%s x %s: %s" % (
            s.sequences, s.times, msg))
        # the runs, cut out of the log
        runs, cur = [], None
        for e in r.log + [("reset",)]:
            if e[0] == "reset":
                if cur:
                    runs.append(cur)
                cur = []
            elif e[0] == "obs":
                cur.append(e[1])
        if n:
            ctx.check(len(runs) == k, "resets", lambda: "%d resets for %d traces: %s" % (len(runs), k, msg))
            a = collections.Counter(tuple(x) for x in runs)
            b = collections.Counter()
            for t, c in zip(s.sequences, s.times):
                b[tuple(t[0:-1:2])] += int(c)
            ctx.check(a == b, "observations", lambda: "%s heard, %s in the set: %s" % (a, b, msg))
    ctx.count("scheduler_events", len(r.log))


@family("finite-memory", weight=3, quick=50)
def finite(ctx, rng):
    """The run replayed through the automaton."""
    from jajapy.mdp.Scheduler import FiniteMemoryScheduler
    sp = unique_mdp(rng, missing=float(rng.choice([0, .4]))) if rng.random() < .5 else gen.g_mdp(rng, missing=float(rng.choice([0, .4])))
    everywhere = all(len(avail(sp, s)) == len(sp["acts"]) for s in range(len(sp["labels"])))
    am, tm = automaton(rng, sp, det=everywhere and rng.random() < .5, full=not everywhere)
    am0, tm0 = copy.deepcopy(am), copy.deepcopy(tm)
    S = ctx.call(FiniteMemoryScheduler, am, tm)
    m = ctx.call(gen.build, sp)
    msg = "scheduler %s %s on %s" % (am, tm, gen.brief(sp))
    ctx.case(("finite", str(am), str(tm), gen.brief(sp)), {"actions": am, "moves": tm, "mdp": gen.brief(sp)})
    for _ in range(3):
        n = int(rng.integers(1, 14))
        # a started run forgets what the scheduler heard before
        t = ctx.call(m.run, n, S) if rng.random() < .5 else ctx.call(m.run, n, S, int(rng.integers(len(sp["labels"]))))
        ctx.check(len(t) == 2 * n + 1 and possible(from_any(sp), t), "trace", lambda: "%s: %s" % (t, msg))
        st = walk(tm, t[0:-1:2])
        for s, a in zip(st, t[1::2]):
            ctx.check(am[s][0][am[s][1].index(a)] > 0, "action", lambda: "%s in scheduler state %d, run %s: %s" % (a, s, t, msg))
            ctx.count("actions_replayed")
        # where the scheduler is, seen through its public methods
        ctx.check(S.getActions() == am[st[-1]], "getActions", lambda: "%s after %s: %s" % (S.getActions(), t, msg))
        ctx.check(list(ctx.call(S.getSequenceStates, t[0::2])) == walk(tm, t[0::2]), "getSequenceStates", lambda: "%s: %s" % (t, msg))
    k = len(am)
    for s in range(k):
        ctx.check(S.getActions(s) == am[s], "getActions", msg)
        for a in sp["acts"] + ["nope"]:
            p = dict(zip(am[s][1], am[s][0])).get(a, 0)
            ctx.close(S.getProbability(a, s), p, "getProbability", lambda: "%s in %d: %s" % (a, s, msg))
    S.reset()
    ctx.check(S.getActions() == am[0] and S.getProbability(am[0][1][0]) == am[0][0][0], "reset", msg)
    ctx.check(am == am0 and tm == tm0, "changed", msg)


def chi(ctx, rng, draw, acts, p, msg, n=400):
    """two-stage frequency test (false alarms below 1e-7)"""
    def once(n):
        c = collections.Counter(draw() for _ in range(n))
        bad = [a for a in c if a not in acts or p[acts.index(a)] == 0]
        ctx.check(not bad, "impossible-action", lambda: "%s: %s" % (bad, msg))
        keep = [i for i in range(len(acts)) if p[i] > 0]
        if len(keep) < 2:
            return 1.0
        e = np.array([p[i] for i in keep])
        return stats.chisquare([c[acts[i]] for i in keep], e / e.sum() * n).pvalue
    ctx.count("draws", n)
    if once(n) < 1e-3:
        v = once(5 * n)
        ctx.check(v >= 1e-6, "frequency", lambda: "p-value %g: %s" % (v, msg))


@family("frequencies", weight=2, quick=25)
def frequencies(ctx, rng):
    from jajapy.mdp.Scheduler import UniformScheduler, FiniteMemoryScheduler
    sp = unique_mdp(rng, missing=0)
    acts = sp["acts"]
    if rng.random() < .5:
        acts = ["A", "B", "C", "D", "E"][:int(rng.integers(1, 6))]
        S = ctx.call(UniformScheduler, list(acts))
        msg = "uniform over %s" % acts
        ctx.case(("uniform", acts))
        chi(ctx, rng, S.getAction, acts, [1 / len(acts)] * len(acts), msg)
        ctx.call(S.reset)
        ctx.call(S.addObservation, "x")
        return
    am, tm = automaton(rng, sp, full=True)
    S = ctx.call(FiniteMemoryScheduler, am, tm)
    obs = [sp["labels"][int(rng.integers(len(sp["labels"])))] for _ in range(int(rng.integers(0, 5)))]
    for o in obs:
        S.addObservation(o)
    s = walk(tm, obs)[-1]
    ctx.case(("frequencies", str(am), str(tm), obs))
    chi(ctx, rng, S.getAction, am[s][1], am[s][0], "%s %s after %s" % (am, tm, obs))


@family("uniform-run", weight=1, quick=12)
def uniform_run(ctx, rng):
    """Under a uniform scheduler the available actions are equally frequent."""
    from jajapy.mdp.Scheduler import UniformScheduler
    sp = unique_mdp(rng, missing=.4)
    m = ctx.call(gen.build, sp)
    S = ctx.call(UniformScheduler, list(sp["acts"]))
    msg = gen.brief(sp)
    ctx.case(("uniform-run", gen.brief(sp)))
    s = ["init"] + [l for l in sp["labels"] if l != "init"]
    l = s[int(rng.integers(len(s)))]
    i = sp["labels"].index(l)
    av = avail(sp, i)
    chi(ctx, rng, lambda: ctx.call(m.run, 1, S, i)[1], av, [1 / len(av)] * len(av), "state %s of %s" % (l, msg), n=200)


@family("memoryless", weight=2, quick=30)
def memoryless(ctx, rng):
    from jajapy.mdp.Scheduler import MemorylessScheduler
    sp = unique_mdp(rng)
    N = len(sp["labels"])
    m = ctx.call(gen.build, sp)
    plan = [avail(sp, s)[int(rng.integers(len(avail(sp, s))))] for s in range(N)]
    S = ctx.call(MemorylessScheduler, list(plan))
    msg = "plan %s on %s" % (plan, gen.brief(sp))
    ctx.case(("memoryless", plan, gen.brief(sp)), {"plan": plan, "mdp": gen.brief(sp)})
    for s in range(N):
        ctx.check(ctx.call(S.getAction, s) == plan[s], "getAction", msg)
    for _ in range(3):
        n = int(rng.integers(0, 12))
        t = ctx.call(m.run, n, S)
        ctx.check(len(t) == 2 * n + 1 and possible(sp, t), "trace", lambda: "%s: %s" % (t, msg))
        for o, a in zip(t[0:-1:2], t[1::2]):
            ctx.check(plan[sp["labels"].index(o)] == a, "action", lambda: "%s in %s: %s" % (a, o, msg))
            ctx.count("actions_checked")
    s = ctx.call(m.generateSet, 4, 5, S)
    for t in s.sequences:
        for o, a in zip(t[0:-1:2], t[1::2]):
            ctx.check(plan[sp["labels"].index(o)] == a, "action", lambda: "%s in %s: %s" % (a, o, msg))
    # an action the state does not have: refused, not looped on
    bad = [(i, a) for i in range(N) for a in sp["acts"] if a not in avail(sp, i)]
    if bad:
        i, a = bad[int(rng.integers(len(bad)))]
        p2 = list(plan)
        p2[i] = a
        ctx.CALL_LIMIT = 20
        ctx.check(ctx.refuses(m.run, 2, MemorylessScheduler(p2), i), "unavailable", lambda: "%s in state %d: %s" % (a, i, msg))
        ctx.CALL_LIMIT = 150
        ctx.count("unavailable_refused")


CHECK = Check("C26", "random MDPs (some actions missing), random finite-memory, memoryless, uniform and user-made schedulers; a case is one "
              "(scheduler, MDP), distinct by content; every run is replayed event by event",
              [proto, finite, frequencies, uniform_run, memoryless], quick=25, thorough=300,
              assumptions=["frequency tests are two-stage with a threshold of 1e-6 on five times more draws"])
