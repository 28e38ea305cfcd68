"""C27: results depend on the arguments only."""
import os, sys, json, subprocess, importlib
import numpy as np
from ..core import Check, Violation, family
from .. import boot, jobs

# families of other checks, used as a past for the process
PASTS = [("c01", "possible"), ("c03", None), ("c05", None), ("c06", None), ("c09", None), ("c10", None), ("c12", "history"), ("c13", "roundtrip"),
         ("c14", "roundtrip"), ("c15", "run"), ("c17", "valid"), ("c18", "create"), ("c18", "refuse"), ("c18", "accessors"), ("c18", "relabel"),
         ("c19", None), ("c20", None), ("c21", None), ("c22", "ctmcs"), ("c22", "pctmcs"), ("c24", "fit"), ("c24", "parameters"), ("c25", "all-traces"),
         ("c26", "finite-memory")]


class Quiet:
    """A ctx that forgets what a family of another check finds."""

    def __init__(self, ctx):
        self._c = ctx

    def __getattr__(self, k):
        return getattr(self._c, k)

    def count(self, *a):
        pass

    def case(self, *a):
        pass


def past(ctx, rng):
    mod, fam = PASTS[int(rng.integers(len(PASTS)))]
    chk = importlib.import_module("jv.checks." + mod).CHECK
    chk = chk[mod.upper()] if isinstance(chk, dict) else chk
    fams = [f for f in chk.families if (f.fam == fam if fam else True) and f.fam not in ("processes", "realpool", "real-pool")]
    fams = fams or chk.families
    f = fams[int(rng.integers(len(fams)))]
    try:
        f(Quiet(ctx), rng)
    except Violation:
        pass
    except Exception:
        pass
    ctx.count("other_uses_before")


def elsewhere(ctx, todo, hashseed):
    """Each job alone in an interpreter that has used nothing."""
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    p = subprocess.run([sys.executable, "-m", "jv.jobs"], input=json.dumps(todo), env=env, cwd=boot.VERIF, capture_output=True, text=True, timeout=600)
    if p.returncode:
        raise RuntimeError("job server: " + p.stderr[-800:])
    return json.loads(p.stdout)


def norm(r):
    return json.loads(json.dumps(r))


def batch(ctx, rng, n, noise):
    kinds = list(jobs.JOBS)
    todo = [[k, int(rng.integers(2**31))] for k in kinds] + [[kinds[int(rng.integers(len(kinds)))], int(rng.integers(2**31))] for _ in range(n)]
    todo += [["twins", int(rng.integers(2**31))] for _ in range(n)] + [["shared_arguments", int(rng.integers(2**31))] for _ in range(n // 3)]
    mine = os.environ.get("PYTHONHASHSEED", "random")
    other = [t for t in todo if not jobs.JOBS[t[0]][1]]
    alone = {}
    if mine != "random":
        for t, r in zip(todo, elsewhere(ctx, todo, mine)):
            alone[tuple(t)] = r
    for t, r in zip(other, elsewhere(ctx, other, int(rng.integers(1, 10**6)))):
        k = tuple(t)
        ctx.check(r[0] not in ("harness", "lost"), "alone", "%s: %s" % (t, r))
        if k in alone:
            d = jobs.close(alone[k], r)
            ctx.check(d is None, "hash-order", lambda: "%s with another hash seed: %s" % (t, d))
        else:
            alone[k] = r
        ctx.count("other_hash_seed")
    again = todo + [todo[int(rng.integers(len(todo)))] for _ in range(len(todo) // 2)]
    for i in rng.permutation(len(again)).tolist():
        k = tuple(again[i])
        if rng.random() < noise:
            past(ctx, rng)
        r = norm(ctx.call(jobs.execute, *k, _what="job %s %d" % k))
        ctx.check(r[0] != "harness", "unreadable-job", "%s: %s" % (k, r))
        if k not in alone:
            alone[k] = r
            continue
        d = jobs.close(alone[k], r)
        ctx.check(d is None, "history", lambda: "%s alone / after other calls: %s" % (k, d))
        ctx.count("results_compared")
        ctx.count("job_" + k[0])
        ctx.case(k, {"job": k[0], "seed": k[1], "result": str(r)[:300]})


@family("history", weight=2, quick=3)
def history(ctx, rng):
    batch(ctx, rng, 25, .0)


@family("busy-history", weight=1, quick=1)
def busy(ctx, rng):
    """the same after checks of other properties have used the library"""
    batch(ctx, rng, 10, .5)


CHECK = Check("C27", "random calls of every part of the library (learning, likelihoods, files, conversions, composition, simulation, sets), each executed "
              "alone in a fresh interpreter, with another hash seed, and several times inside a process with a long past; a case is one (call, arguments)",
              [history, busy], quick=40, thorough=450, assumptions=["the random module and numpy.random are seeded before each call"])
