"""Check runner: deterministic cases, violations, replay files, evidence."""
import os, sys, time, json, hashlib, traceback, signal, random, collections
from . import boot
import numpy as np


class Violation(Exception):
    def __init__(self, mech, msg):
        super().__init__(mech + ": " + msg)
        self.mech, self.msg = mech, msg


class Hang(BaseException):
    pass


class Rejected(Exception):
    """Raised by ctx.refused when the library refuses an input."""


def short(x, n=600):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + "...[%d chars]" % len(s)


class Ctx:
    CALL_LIMIT = 150  # seconds a single library call may take

    def __init__(self, prop, seed, tier, budget, known):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.t0, self.budget = time.monotonic(), budget
        self.known = known
        self.evals = 0
        self.keys = set()
        self.counts = collections.Counter()
        self.samples = []
        self.violations = []
        self.family = self.index = None
        self.known_seen = []

    # ---- time
    def elapsed(self):
        return time.monotonic() - self.t0

    def left(self):
        return self.budget - self.elapsed()

    # ---- randomness
    def rng(self, *key):
        h = hashlib.sha256(repr((self.seed, self.prop) + key).encode()).digest()
        return np.random.default_rng(int.from_bytes(h[:8], "big"))

    def seed_lib(self, rng):
        k = int(rng.integers(2**31))
        random.seed(k)
        np.random.seed(k)
        return k

    # ---- observation
    def count(self, what, n=1):
        self.counts[what] += n

    def case(self, key, sample=None):
        """Register one evaluated case; `key` identifies it for distinctness."""
        self.evals += 1
        h = hashlib.sha1(repr(key).encode()).hexdigest()
        new = h not in self.keys
        self.keys.add(h)
        if sample is not None and new and (len(self.samples) < 6 or (len(self.samples) < 12 and len(self.keys) % 25 == 0)):
            self.samples.append({"family": self.family, "index": self.index, "case": short(sample, 900)})

    # ---- scratch files
    def tmp(self, name):
        """A path in a scratch directory of this run (removed at the end)."""
        if not hasattr(self, "_tmp"):
            import tempfile, atexit
            self._tmp = tempfile.mkdtemp(prefix="jv-")
        return os.path.join(self._tmp, name)

    def cleanup(self):
        if hasattr(self, "_tmp"):
            import shutil
            shutil.rmtree(self._tmp, ignore_errors=True)

    # ---- oracles
    def fail(self, mech, msg):
        raise Violation(mech, msg)

    def check(self, ok, mech, msg=""):
        self.count("assertions")
        if not ok:
            raise Violation(mech, msg() if callable(msg) else msg)

    def close(self, a, b, mech, msg="", rtol=1e-7, atol=1e-9):
        self.count("assertions")
        try:
            a_, b_ = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
            ok = a_.shape == b_.shape and np.allclose(a_, b_, rtol=rtol, atol=atol, equal_nan=True)
        except (TypeError, ValueError):
            ok = False
        if not ok:
            raise Violation(mech, "%s: got %s, expected %s" % (msg() if callable(msg) else msg, short(np.asarray(a).tolist() if hasattr(a, 'shape') else a), short(np.asarray(b).tolist() if hasattr(b, 'shape') else b)))

    # ---- guarded library call
    def call(self, f, *a, **k):
        """Call into the library: any exception or hang is a violation."""
        self.count("library_calls")
        what = k.pop("_what", None) or getattr(f, "__qualname__", repr(f))
        try:
            return self._limited(f, a, k)
        except Hang:
            raise Violation("hang", "%s did not return within %d s" % (what, self.CALL_LIMIT))
        except Violation:
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            loc = [x for x in tb if "/jajapy/" in x.filename]
            where = "%s:%s" % (os.path.basename(loc[-1].filename), loc[-1].name) if loc else "?"
            raise Violation("exception", "%s raised %s: %s (in %s)" % (what, type(e).__name__, e, where))

    def refuses(self, f, *a, **k):
        """True if the library raises (any Exception) on this input."""
        self.count("library_calls")
        try:
            self._limited(f, a, k)
        except Hang:
            raise Violation("hang", "%s did not return within %d s" % (f, self.CALL_LIMIT))
        except Exception:
            return True
        return False

    def _limited(self, f, a, k):
        def onalarm(*_):
            raise Hang()
        old = signal.signal(signal.SIGALRM, onalarm)
        signal.setitimer(signal.ITIMER_REAL, self.CALL_LIMIT)
        try:
            return f(*a, **k)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)


class Check:
    """A check is a list of families; each family function takes (ctx, rng)."""

    def __init__(self, prop, rule, families, level="exploration", quick=60, thorough=600,
                 min_cases=None, assumptions=(), once=()):
        self.prop, self.rule, self.families = prop, rule, families
        self.level, self.quick, self.thorough = level, quick, thorough
        self.min_cases = min_cases
        self.assumptions = list(assumptions)
        self.once = list(once)


def family(name, weight=1, quick=None):
    def deco(f):
        f.fam, f.weight, f.quick_n = name, weight, quick
        return f
    return deco


def _evidence_path(prop):
    d = os.path.join(boot.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, prop + ".json")


def load_known(prop):
    """known_findings.jsonl: {"property","key","status","what"}"""
    res = {}
    p = os.path.join(boot.VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                # finding: property=C13 key=<key> <text>
                parts = line[len("finding:"):].strip().split(" ", 2)
                d = dict(x.split("=", 1) for x in parts[:2])
                if d["property"] == prop:
                    res[d["key"]] = parts[2]
    return res


def run_one(ctx, fam, idx):
    ctx.family, ctx.index = fam.fam, idx
    rng = ctx.rng(fam.fam, idx)
    ctx.seed_lib(rng)
    try:
        fam(ctx, rng)
        return None
    except Violation as v:
        return v
    except (MemoryError, OSError):
        raise
    except Exception as e:
        # the oracle could not even read what the library produced
        tb = traceback.extract_tb(e.__traceback__)
        loc = [x for x in tb if "/jajapy/" in x.filename] or tb
        return Violation("unreadable", "%s: %s while examining the library's result (%s:%d)" % (
            type(e).__name__, e, os.path.basename(loc[-1].filename), loc[-1].lineno))


def run_check(chk, seed, tier, replay=None):
    known = load_known(chk.prop)
    scale = float(os.environ.get("JV_SCALE", "1"))
    budget = (chk.quick if tier == "quick" else chk.thorough) * scale
    ctx = Ctx(chk.prop, seed, tier, budget, known)
    boot.import_jajapy()
    boot.mute()
    fams = {f.fam: f for f in chk.families}
    if replay:
        r = json.load(open(replay))
        ctx.seed = r["seed"]
        v = run_one(ctx, fams[r["family"]], r["index"])
        ctx.cleanup()
        boot.say("REPLAY", v if v else "no violation")
        return 1 if v else 0
    per_family = collections.Counter()
    found = []
    known_hit = {}

    def attempt(fam, idx):
        v = run_one(ctx, fam, idx)
        per_family[fam.fam] += 1
        if v is None:
            return
        # a listed finding: identified by the family that reproduces exactly it
        # on its fixed input, and by what it does wrong there
        key = getattr(fam, "finding", None)
        if key and key in known and v.mech == key:
            known_hit[key] = str(v)
            return
        found.append((fam.fam, idx, v))

    # Each family gets its quick_n guaranteed cases, then the rest of the
    # budget is shared round-robin by weight.
    order = list(chk.families)
    for fam in order:  # each family at least once, even on a slow machine
        if len(found) < 3:
            attempt(fam, 0)
    for fam in order:
        n = fam.quick_n or 1
        for i in range(1, n):
            if found and ctx.left() < 0:
                break
            # guaranteed cases may overrun the budget up to a hard cap
            if ctx.elapsed() > max(budget * 2.5, budget + 120):
                break
            attempt(fam, i)
            if len(found) >= 3:
                break
        if len(found) >= 3:
            break
    sched = [f for f in order for _ in range(f.weight) if f.weight > 0 and not getattr(f, "finding", None)]
    k = 0
    cap = int(os.environ.get("JV_MAXCASES", "1000000"))
    while sched and not found and ctx.left() > 0 and sum(per_family.values()) < cap:
        f = sched[k % len(sched)]
        k += 1
        attempt(f, per_family[f.fam])
        if tier == "quick" and chk.min_cases and k >= chk.min_cases:
            break
    ctx.cleanup()
    rc = 0
    for key, text in known.items():
        if key in known_hit:
            boot.say("KNOWN-FINDING: property=%s %s" % (chk.prop, text))
    seen_mech = set()
    for famn, idx, v in found:
        if v.mech in seen_mech:
            continue
        seen_mech.add(v.mech)
        d = os.path.join(boot.VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s-%d.json" % (chk.prop, famn, idx))
        with open(path, "w") as fo:
            json.dump({"property": chk.prop, "seed": ctx.seed, "family": famn, "index": idx,
                       "mechanism": v.mech, "message": short(v.msg, 8000),
                       "how": "python3 /verif/run.py %s --replay %s" % (chk.prop, path)}, fo, indent=1)
        boot.say("VIOLATION property=%s replay=%s" % (chk.prop, path))
        boot.say("  [%s/%s#%d] %s" % (v.mech, famn, idx, short(v.msg, 1500)))
        rc = 1
    if rc == 0 and (ctx.evals == 0 or ctx.counts["assertions"] == 0 or any(per_family[f.fam] == 0 for f in order)):
        boot.say("ERROR: nothing observed (evals=%d, assertions=%d, families=%s)" % (ctx.evals, ctx.counts["assertions"], dict(per_family)))
        rc = 2
    lines = collections.Counter(f for f, _ in boot.LINES)
    if os.environ.get("JV_LINES"):
        json.dump(sorted(boot.LINES), open(os.environ["JV_LINES"], "w"))
    cov = {"evaluations": ctx.evals, "distinct_nontrivial": len(ctx.keys), "rule": chk.rule,
           "samples": ctx.samples or [{"note": "no sample recorded"}],
           "cases_per_family": dict(per_family),
           "library_lines_executed": {"total": len(boot.LINES), "by_file": dict(sorted(lines.items()))},
           "observed": {k: int(v) for k, v in sorted(ctx.counts.items())}}
    ev = {"property": chk.prop, "tier": tier, "seed": seed, "level": chk.level, "coverage": cov,
          "assumptions": chk.assumptions, "wall_s": round(ctx.elapsed(), 2), "violations": len(found)}
    p = _evidence_path(chk.prop)
    with open(p + ".tmp", "w") as fo:
        json.dump(ev, fo, indent=1)
    os.replace(p + ".tmp", p)
    boot.say("%s %s tier=%s seed=%d evaluations=%d distinct=%d assertions=%d wall=%.1fs" % (
        chk.prop, "VIOLATED" if rc == 1 else ("held" if rc == 0 else "ERROR"), tier, seed, ctx.evals, len(ctx.keys), ctx.counts["assertions"], ctx.elapsed()))
    return rc
