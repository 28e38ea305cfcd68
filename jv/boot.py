"""Process set-up: environment, import path, pool substitution, output plumbing.

Must be imported before numpy / jajapy.
"""
import os, sys

os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("TERM", "dumb")
sys.dont_write_bytecode = True

REPO = os.environ.get("JV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, REPO)

import multiprocessing, multiprocessing.pool, pickle, warnings  # noqa: E402

warnings.simplefilter("ignore")

# ---------------------------------------------------------------- output
# The library prints (and `loadPrism` runs `clear`); keep the real stdout for
# ourselves and send everything else to /dev/null.
_out = os.fdopen(os.dup(1), "w", buffering=1)
_devnull = os.open(os.devnull, os.O_WRONLY)


def say(*a):
    _out.write(" ".join(str(x) for x in a) + "\n")
    _out.flush()


def mute():
    sys.stdout.flush()
    os.dup2(_devnull, 1)
    if not os.environ.get("JV_DEBUG"):
        sys.stdout = open(os.devnull, "w")


# ---------------------------------------------------------------- pools
REAL_POOL = multiprocessing.Pool
REAL_CPU = multiprocessing.cpu_count


class _Res:
    def __init__(self, ok, v):
        self.ok, self.v = ok, v

    def get(self, timeout=None):
        if self.ok:
            return self.v
        raise self.v

    def ready(self):
        return True

    def successful(self):
        return self.ok

    def wait(self, timeout=None):
        pass


class InlinePool:
    """Same contract as multiprocessing.Pool, run in this process.

    Each task works on a pickled copy of its function and arguments and its
    result is pickled back, exactly what a worker process would see, so no
    state can leak between tasks or back into the caller.  `order` (class
    attribute) lets a check execute the submitted tasks in a hostile order.
    """
    tasks = 0

    def __init__(self, processes=None, initializer=None, initargs=(), *a, **k):
        self._initializer = (initializer, initargs)
        self._init = False

    def _run(self, f, a, k):
        InlinePool.tasks += 1
        if not self._init and self._initializer[0]:
            self._initializer[0](*self._initializer[1])
        self._init = True
        f, a, k = pickle.loads(pickle.dumps((f, a, k)))
        return pickle.loads(pickle.dumps(f(*a, **k)))

    def apply(self, f, args=(), kwds={}):
        return self._run(f, tuple(args), dict(kwds))

    def apply_async(self, f, args=(), kwds={}, callback=None, error_callback=None):
        try:
            v = self._run(f, tuple(args), dict(kwds))
        except Exception as e:  # noqa
            if error_callback:
                error_callback(e)
            return _Res(False, e)
        if callback:
            callback(v)
        return _Res(True, v)

    def map(self, f, it, chunksize=None):
        return [self._run(f, (x,), {}) for x in it]

    def starmap(self, f, it, chunksize=None):
        return [self._run(f, tuple(x), {}) for x in it]

    def imap(self, f, it, chunksize=1):
        return iter(self.map(f, it))

    imap_unordered = imap

    def map_async(self, f, it, chunksize=None, callback=None, error_callback=None):
        return _Res(True, self.map(f, it))

    def starmap_async(self, f, it, chunksize=None, callback=None, error_callback=None):
        return _Res(True, self.starmap(f, it))

    def close(self):
        pass

    terminate = join = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


# jajapy does `from multiprocessing import Pool, cpu_count` at import time: a
# switchable stand-in has to be in place before that.
_mode = {"pool": "inline", "cpus": 3}
LIVE_POOLS = []


def _pool(*a, **k):
    if _mode["pool"] == "inline":
        return InlinePool(*a, **k)
    n = a[0] if a else k.get("processes")
    _mode.setdefault("requested", []).append(n)
    return REAL_POOL(*a, **k)


def _cpus():
    return _mode["cpus"]


multiprocessing.Pool = _pool
multiprocessing.cpu_count = _cpus


class real_pool:
    """with real_pool(cpus): worker processes are real, cpu_count()==cpus."""

    def __init__(self, cpus=3):
        self.cpus = cpus

    def __enter__(self):
        self.old = dict(_mode)
        _mode["pool"], _mode["cpus"] = "real", self.cpus

    def __exit__(self, *a):
        _mode.update(self.old)


LINES = set()  # (file, line) of the library executed in this process


def watch_lines():
    """Record which lines of the library are executed (each one reported once,
    at no further cost)."""
    mon = getattr(sys, "monitoring", None)
    if mon is None or mon.get_tool(4):
        return
    root = os.path.join(os.path.abspath(REPO), "jajapy") + os.sep

    def line(code, n):
        if code.co_filename.startswith(root):
            LINES.add((code.co_filename[len(root):], n))
        return mon.DISABLE
    mon.use_tool_id(4, "jv")
    mon.register_callback(4, mon.events.LINE, line)
    mon.set_events(4, mon.events.LINE)


def import_jajapy():
    watch_lines()
    import jajapy
    f = os.path.abspath(jajapy.__file__)
    if not f.startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError("jajapy imported from " + f)
    return jajapy
