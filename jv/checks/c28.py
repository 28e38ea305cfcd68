"""C28: the library leaves nothing behind it."""
import copy, gc, os, signal, sys, threading, time, warnings
import multiprocessing
import numpy as np
from ..core import Check, family
from .. import boot, gen, jobs, fit


def fds():
    r = {}
    for f in os.listdir("/proc/self/fd"):
        try:
            r[f] = os.readlink("/proc/self/fd/" + f)
        except OSError:
            pass
    return r


def children():
    """Every live or unreaped child process."""
    me, r = os.getpid(), []
    for t in os.listdir("/proc/self/task"):
        try:
            r += open("/proc/self/task/%s/children" % t).read().split()
        except OSError:
            pass
    return sorted(r)


def listing(d):
    r = {}
    for p, _, fs in os.walk(d):
        for f in fs:
            q = os.path.join(p, f)
            s = os.stat(q)
            r[os.path.relpath(q, d)] = (s.st_size, s.st_mtime_ns)
    return r


def here():
    try:
        return os.getcwd()
    except OSError as e:
        return "none (%s)" % e


def settings():
    return {"directory": here(), "environment": dict(os.environ), "floating point errors": np.geterr(), "print options": repr(np.get_printoptions()),
            "recursion limit": sys.getrecursionlimit(), "import path": list(sys.path), "output": (id(sys.stdout), id(sys.stderr)),
            "signals": {s: signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGCHLD, signal.SIGALRM, signal.SIGPIPE)},
            "switch interval": sys.getswitchinterval(), "default float errors": np.geterrcall(), "start method": multiprocessing.get_start_method()}


def threads():
    return sorted(t.name for t in threading.enumerate())


class Watched:
    """Observes the process around some library calls."""

    def __init__(self, ctx, msg):
        self.ctx, self.msg = ctx, msg

    def __enter__(self):
        self.home = os.getcwd()
        self.dir = self.ctx.tmp("cwd")
        os.makedirs(self.dir, exist_ok=True)
        os.chdir(self.dir)
        self.tmpdir = os.environ.get("TMPDIR")
        os.environ["TMPDIR"] = self.dir
        import tempfile
        tempfile.tempdir = None
        gc.collect()
        self.before = (settings(), fds(), children(), threads(), listing(self.dir), listing(self.home) if self.home == boot.VERIF else {})
        boot._mode["requested"] = []
        return self

    def __exit__(self, et, ev, tb):
        import tempfile
        try:
            if et is None:
                self.judge()
        finally:
            os.chdir(self.home)
            if self.tmpdir is None:
                os.environ.pop("TMPDIR", None)
            else:
                os.environ["TMPDIR"] = self.tmpdir
            tempfile.tempdir = None

    def judge(self):
        ctx, msg = self.ctx, self.msg
        s0, f0, c0, t0, l0, _ = self.before
        end = time.monotonic() + 8
        while True:
            gc.collect()
            multiprocessing.active_children()
            c, t, f = children(), threads(), fds()
            extra = {k: v for k, v in f.items() if k not in f0 or f0[k] != v}
            if (not set(c) - set(c0) and t == t0 and not extra) or time.monotonic() > end:
                break
            time.sleep(.05)
        ctx.check(not set(c) - set(c0), "processes-left", lambda: "%d processes left: %s" % (len(set(c) - set(c0)), msg))
        ctx.check(t == t0, "threads-left", lambda: "%s instead of %s: %s" % (t, t0, msg))
        ctx.check(not extra, "descriptors-left", lambda: "%s: %s" % (extra, msg))
        s = settings()
        bad = [k for k in s0 if s0[k] != s[k]]
        ctx.check(not bad, "settings", lambda: "%s changed (%s / %s): %s" % (bad, s0[bad[0]], s[bad[0]], msg))
        l = listing(self.dir)
        left = sorted(k for k in l if l[k] != l0.get(k))
        gone = sorted(k for k in l0 if k not in l)
        ctx.check(not left and not gone, "files", lambda: "files written %s or removed %s: %s" % (left, gone, msg))
        ctx.count("observations")


@family("calls", weight=3, quick=60)
def calls(ctx, rng):
    """Any call, with the work done in this process."""
    k = list(jobs.JOBS)[ctx.index % len(jobs.JOBS)]
    todo = [(k, int(rng.integers(2**31))) for _ in range(3 if k != "loglik" else 1)]
    with Watched(ctx, "after %s" % todo):
        for t in todo:
            r = ctx.call(jobs.execute, *t, _what="job %s %d" % t)
            ctx.check(r[0] != "harness", "unreadable-job", "%s: %s" % (t, r))
            ctx.case(t, {"job": t[0], "seed": t[1]})
            ctx.count("job_" + k)


PARALLEL = ["loglik", "learn", "learn_anew", "learn_parameters", "active"]


@family("parallel", weight=3, quick=14)
def parallel(ctx, rng):
    """The calls that start worker processes."""
    k = str(rng.choice(PARALLEL))
    todo = [(k, int(rng.integers(2**31))) for _ in range(2)]
    cpus = int(rng.integers(2, 6))
    with Watched(ctx, "after %s, %d processors" % (todo, cpus)):
        with boot.real_pool(cpus):
            for t in todo:
                a = ctx.call(jobs.execute, *t, _what="job %s %d" % t)
                ctx.check(a[0] != "harness", "unreadable-job", "%s: %s" % (t, a))
        n = boot._mode.get("requested") or []
    ctx.check(all(x is None or x <= cpus for x in n), "workers", lambda: "%s workers on %d processors: %s" % (n, cpus, todo))
    ctx.count("pools_started", len(n))
    ctx.count("workers_started", sum(x or cpus for x in n))
    ctx.case(tuple(todo), {"jobs": todo, "processors": cpus, "pools": n})


@family("asked-workers", weight=1, quick=12)
def asked(ctx, rng):
    """`processes` is obeyed; what is not a number of processors is replaced."""
    from jajapy import BW
    kd, timed, hyp, seqs, mult, t = fit.problem(rng, kinds=("MC", "MDP", "MDP", "CTMC", "HMM"), impossible=0)
    cpus = int(rng.integers(2, 6))
    p = [1, 2, cpus, cpus + 1 + int(rng.integers(50)), 0, -int(rng.integers(1, 5)), None, 2.0][int(rng.integers(8))]
    ok = type(p) is int and 1 <= p <= cpus
    msg = "processes=%r with %d processors, %s" % (p, cpus, gen.brief(hyp))
    active = kd == "MDP" and rng.random() < .7
    with Watched(ctx, msg):
        with boot.real_pool(cpus):
            k = {} if p is None and rng.random() < .5 else {"processes": p}
            if active:
                from jajapy import Active_BW_MDP
                ctx.count("active_learning")
                r = ctx.call(Active_BW_MDP().fit, gen.mkset(seqs, mult, t), gen.build(hyp), lr=0, nb_iterations=2, nb_sequences=2, sequence_length=3,
                             initial_model=gen.build(hyp), max_it=1, stormpy_output=False, verbose=0, **k)
            else:
                r = ctx.call(BW().fit, gen.mkset(seqs, mult, t), initial_model=gen.build(hyp), max_it=2, stormpy_output=False, verbose=0, **k)
            n = boot._mode.get("requested") or []
            ctx.check(type(r).__name__ == kd, "kind", msg)
    top = p if ok else cpus - 1
    ctx.check(all(x is not None and x <= top for x in n), "workers", lambda: "pools of %s workers: %s" % (n, msg))
    ctx.check(top > 1 or not n, "workers", lambda: "pools of %s workers although a single process was asked: %s" % (n, msg))
    ctx.count("pools_started", len(n))
    ctx.case((repr(p), cpus, gen.brief(hyp), seqs), {"processes": repr(p), "processors": cpus, "pools": n})


@family("faults", weight=2, quick=6)
def faults(ctx, rng):
    """A failure in the middle of parallel work is reported at once and leaves nothing."""
    from jajapy import BW
    kd, timed, hyp, seqs, mult, t = fit.problem(rng, kinds=("MC", "MDP", "CTMC", "HMM"), impossible=0)
    how = str(rng.choice(["impossible", "bad-trace"]))
    if how == "impossible":
        seqs = [q[:-1] + ["zz"] for q in seqs]
    else:
        # something no observation can be, in one of the traces
        i = int(rng.integers(len(seqs)))
        seqs = copy.deepcopy(seqs)
        seqs[i][-1] = ["not", "a", "label"]
    S = gen.mkset(seqs, mult, t)
    m = gen.build(hyp)
    msg = "%s, %s on %s" % (how, gen.brief(hyp), seqs)
    refused = 0
    with Watched(ctx, msg):
        with boot.real_pool(4):
            ctx.CALL_LIMIT = 60
            try:
                refused += ctx.refuses(BW().fit, S, initial_model=m, max_it=2, stormpy_output=False, verbose=0, processes=3)
                refused += ctx.refuses(m.logLikelihood, S)
            finally:
                ctx.CALL_LIMIT = 150
    if how == "impossible":
        ctx.check(refused >= 1, "unreported", msg)
    ctx.count("refused_calls", refused)
    ctx.case((how, gen.brief(hyp), str(seqs)), {"how": how, "refused": refused})


@family("many-files", weight=1, quick=6)
def many(ctx, rng):
    """Saving and loading a hundred times, with the cycle collector off."""
    import jajapy as ja
    sp = gen.g_any(rng)
    m = gen.build(sp)
    seqs, mult = gen.traces(rng, sp if sp["kind"] != "PCTMC" else gen.as_ctmc(sp), 3, 1, 4)
    S = gen.mkset(seqs, mult, gen.set_type(sp, False))
    f = ctx.tmp("many.txt")
    load = getattr(ja, "load" + sp["kind"])
    msg = "saving and loading a %s" % sp["kind"]
    with Watched(ctx, msg):
        n0 = len(fds())
        gc.disable()
        try:
            for _ in range(30):
                ctx.call(m.save, f)
                with open(f) as fo:
                    a = fo.read()
                l = ctx.call(load, f)
                ctx.call(S.save, f)
                ctx.call(ja.loadSet, f)
                if sp["kind"] in ("MC", "MDP", "CTMC", "PCTMC"):
                    ctx.call(m.savePrism, f)
            n1 = len(fds())
        finally:
            gc.enable()
        ctx.call(l.save, f)
        with open(f) as fo:
            b = fo.read()
        ctx.check(n1 <= n0 + 2, "descriptors-left", lambda: "%d then %d open files: %s" % (n0, n1, msg))
        if sp["kind"] not in ("PCTMC", "HMM", "MDP"):
            ctx.check(len(a.splitlines()) == len(b.splitlines()), "file", lambda: "%r / %r: %s" % (a, b, msg))
    ctx.count("files_written", 60)
    ctx.case((sp["kind"], gen.brief(sp)), {"kind": sp["kind"], "files": 60})


CHECK = Check("C28", "random calls of every part of the library, with real worker processes or none, failing or not; a case is one set of calls after which "
              "processes, threads, descriptors, files, and process-wide settings are compared with those before",
              [calls, parallel, asked, faults, many], quick=30, thorough=300)
