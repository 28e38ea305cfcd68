"""Deep, value-level snapshots of library objects and arguments."""
import numpy as np


def snap(x, depth=0):
    if depth > 12:
        return "deep"
    if isinstance(x, np.ndarray):
        return ("arr", x.shape, tuple(snap(v, depth + 1) for v in x.tolist())) if x.ndim else ("sc", snap(x.item()))
    if isinstance(x, np.generic):
        return snap(x.item())
    if isinstance(x, float):
        return ("f", repr(x))
    if isinstance(x, (int, str, bytes, bool, type(None))):
        return (type(x).__name__ if isinstance(x, (bool, str)) else "", x)
    if isinstance(x, (list, tuple)):
        return ("seq", tuple(snap(v, depth + 1) for v in x))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted(map(repr, x))))
    if isinstance(x, dict):
        return ("dict", tuple(sorted(((repr(k), snap(v, depth + 1)) for k, v in x.items()))))
    if callable(x) and not hasattr(x, "__dict__"):
        return "callable"
    mod = type(x).__module__
    if mod.startswith("sympy"):
        return ("sym", str(x))
    if mod.startswith("jajapy"):
        return (type(x).__name__, tuple(sorted((k, snap(v, depth + 1)) for k, v in vars(x).items() if not callable(v))))
    return ("obj", type(x).__name__)


# what a user can see of a model: public, behaviour-level attributes
PUBLIC = ["name", "labelling", "alphabet", "actions", "nb_states", "matrix", "output", "initial_state",
          "parameter_str", "parameter_values", "parameter_indexes", "transition_expr", "synchronous_transitions"]


def model(m):
    r = {}
    for k in PUBLIC:
        if hasattr(m, k):
            v = getattr(m, k)
            if k == "alphabet":
                v = sorted(map(str, v)) if type(m).__name__ not in ("HMM",) else v
            r[k] = snap(v)
    return r


def tset(s):
    return (s.type, tuple(repr(x) for x in s.sequences), tuple(int(x) for x in s.times))


def diff(a, b):
    if isinstance(a, dict):
        return [k for k in a if a.get(k) != b.get(k)] + [k for k in b if k not in a]
    return [] if a == b else ["value"]
