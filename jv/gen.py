"""Neutral model specs, hostile random generators, own simulator.

A spec is a dict holding plain numpy data; `build` turns it into a jajapy
object through the public constructors.  Nothing here calls jajapy's logic.
"""
import copy
import os
import re
import numpy as np

LABELS_PLAIN = ["a", "b", "c", "d", "e", "f", "g", "h", "l2", "l10", "aa", "B", "x_1", "ab"]
BIG = float(os.environ.get("JV_BIG", ".03"))  # proportion of models with ten states or more, of large training sets
LABELS_ODD = ["a", "b b", "c'q", 'd"q', "é", "X_1", "[e]", "1.5", "init2", "None", "-"]


ACTS = ["A", "B", "C"] + ["A%d" % i for i in range(1, 11)]
ACTS_ODD = ["A A", "é", "B'"] + ["A %d" % i for i in range(1, 11)]


def labels_pool(rng, odd=False):
    p = list(LABELS_ODD if odd else LABELS_PLAIN)
    rng.shuffle(p)
    return p


def stoch(rng, k, style=None):
    """A stochastic vector of length k."""
    if style is None:
        style = rng.choice(["dir", "sparse", "det", "uniform", "tiny", "round"], p=[.3, .3, .1, .1, .1, .1])
    v = np.zeros(k)
    if style == "dir":
        v = rng.dirichlet(np.ones(k))
        v = np.maximum(v, 1e-4)
    elif style == "sparse":
        m = int(rng.integers(1, k + 1))
        idx = rng.choice(k, m, replace=False)
        v[idx] = rng.dirichlet(np.ones(m)) + 1e-3
    elif style == "det":
        v[int(rng.integers(k))] = 1.0
    elif style == "uniform":
        v[:] = 1.0
    elif style == "tiny":
        v = 10.0 ** rng.uniform(-7, 0, k)
    elif style == "round":
        v = rng.integers(0, 11, k).astype(float)
        if v.sum() == 0:
            v[int(rng.integers(k))] = 1
    return v / v.sum()


def labelled(rng, n, nl, odd=False, n_init=1, init_last=True):
    """n states, nl labels, plus n_init states labelled 'init'."""
    pool = labels_pool(rng, odd)[:nl]
    nl = len(pool)
    lab = [pool[i] if i < nl else pool[int(rng.integers(nl))] for i in range(n)]
    rng.shuffle(lab)
    if init_last:
        lab = lab + ["init"] * n_init
    else:
        for _ in range(n_init):
            lab.insert(int(rng.integers(len(lab) + 1)), "init")
    return lab


def init_vec(lab):
    c = lab.count("init")
    return np.array([1.0 / c if l == "init" else 0.0 for l in lab])


def g_shape(rng, odd, hostile=True):
    n = int(rng.integers(1, 6))
    if hostile and rng.random() < BIG:
        n = int(rng.integers(9, 14))
    nl = int(rng.integers(1, n + 1))
    n_init, last = 1, True
    if hostile and rng.random() < .3:
        last = False
    if hostile and rng.random() < .15:
        n_init = 2
    return labelled(rng, n, nl, odd, n_init, last)


def g_mc(rng, odd=False, hostile=True, reenter=0.1, style=None):
    lab = g_shape(rng, odd, hostile)
    N = len(lab)
    non = [i for i, l in enumerate(lab) if l != "init"]
    P = np.zeros((N, N))
    tgt = list(range(N)) if rng.random() < reenter else non
    for s in range(N):
        P[s, tgt] = stoch(rng, len(tgt), style)
    return {"kind": "MC", "labels": lab, "P": P, "init": init_vec(lab), "name": "m%d" % rng.integers(1000)}


def g_mdp(rng, odd=False, hostile=True, missing=0.25, style=None, nact=None):
    lab = g_shape(rng, odd, hostile)
    N = len(lab)
    non = [i for i, l in enumerate(lab) if l != "init"]
    na = nact or (int(rng.integers(1, 4)) if N < 9 else int(rng.choice([2, 11])))
    acts = (ACTS if not odd else ACTS_ODD)[:na]
    rng.shuffle(acts)
    P = np.zeros((N, na, N))
    for s in range(N):
        keep = [a for a in range(na) if rng.random() >= missing] or [int(rng.integers(na))]
        for a in keep:
            P[s, a, non] = stoch(rng, len(non), style)
    return {"kind": "MDP", "labels": lab, "acts": acts, "P": P, "init": init_vec(lab), "name": "d%d" % rng.integers(1000)}


def g_ctmc(rng, odd=False, hostile=True, selfloop=0.5, style=None, lo=.05, hi=20.):
    sp = g_mc(rng, odd, hostile, style=style)
    N = len(sp["labels"])
    R = sp["P"].copy()
    loop = rng.random() < selfloop
    for s in range(N):
        if not loop and R[s, s] > 0 and (R[s] > 0).sum() > 1:
            R[s, s] = 0.0
        R[s] *= np.exp(rng.uniform(np.log(lo), np.log(hi)))
    return {"kind": "CTMC", "labels": sp["labels"], "R": R, "init": sp["init"], "name": "c%d" % rng.integers(1000)}


def g_hmm(rng, odd=False, style=None, hostile=True):
    n = int(rng.integers(1, 5))
    k = int(rng.integers(1, 5))
    if hostile and rng.random() < BIG:
        n, k = int(rng.integers(1, 13)), int(rng.integers(5, 12))
    al = labels_pool(rng, odd)[:k]
    A = np.array([stoch(rng, n, style) for _ in range(n)])
    B = np.array([stoch(rng, k, style) for _ in range(n)])
    return {"kind": "HMM", "A": A, "B": B, "alphabet": al, "init": stoch(rng, n, style), "name": "h%d" % rng.integers(1000)}


def g_gohmm(rng, style=None, hostile=True):
    n = int(rng.integers(1, 4))
    k = int(rng.integers(1, 4))
    if hostile and rng.random() < BIG:
        n, k = int(rng.integers(4, 12)), int(rng.integers(1, 12))
    A = np.array([stoch(rng, n, style) for _ in range(n)])
    out = np.stack([rng.normal(0, 3, (n, k)), rng.uniform(.3, 2.5, (n, k))], axis=2)
    return {"kind": "GoHMM", "A": A, "out": out, "init": stoch(rng, n, style), "name": "g%d" % rng.integers(1000)}


EXPRS = ["x", "y", "2*x", "x*y", "x+y", "x**2", "3.5*y", "x/2", "x*y+1", "0.25", "1.5", "x**2*y", "z", "z+0.5", "x+y+z", "2*x*z"]


NAMESETS = [("k", "k1", "k10"), ("beta", "Q", "x_1"), ("mu", "mu2", "gamma"), ("p_11", "p_1", "N")]
IDENT = re.compile(r"(?<![\w.])[A-Za-z_]\w*")


def idents(e):
    """The parameters of an expression."""
    return sorted(set(IDENT.findall(e))) if e else []


def names(rng):
    """How the parameters x, y and z are called."""
    return dict(zip("xyz", NAMESETS[int(rng.integers(len(NAMESETS)))] if rng.random() < .35 else "xyz"))


def renamed(e, nm):
    return IDENT.sub(lambda m: nm.get(m.group(0), m.group(0)), e) if isinstance(e, str) else e


def g_pctmc(rng, exprs=None, odd=False, hostile=True, full=True, nm=None):
    """spec with E[i][j] = expression string or None; values = dict."""
    sp = g_ctmc(rng, odd, hostile)
    lab = sp["labels"]
    N = len(lab)
    if N > 8:  # symbolic rates are slow
        for i in range(N):
            nz = np.nonzero(sp["R"][i])[0]
            sp["R"][i, rng.permutation(nz)[2:]] = 0
    pool = exprs or EXPRS
    E = [[None] * N for _ in range(N)]
    for i in range(N):
        for j in range(N):
            if sp["R"][i, j] > 0:
                E[i][j] = str(rng.choice(pool)) if lab[i] != "init" else repr(float(sp["R"][i, j]))
    nm = nm or names(rng)
    E = [[renamed(e, nm) for e in r] for r in E]
    vals = {p: float(np.round(rng.uniform(.1, 3), 3)) for p in nm.values()}
    used = [p for p in nm.values() if any(p in idents(e) for r in E for e in r)]
    return {"kind": "PCTMC", "labels": lab, "E": E, "params": used, "values": {p: vals[p] for p in used}, "init": sp["init"],
            "name": "p%d" % rng.integers(1000)}


def rates_of(sp, values=None):
    """Numeric rate matrix of a PCTMC spec (plain python evaluation)."""
    v = dict(sp["values"] if values is None else values)
    N = len(sp["labels"])
    R = np.zeros((N, N))
    for i in range(N):
        for j in range(N):
            if sp["E"][i][j] is not None:
                R[i, j] = float(eval(sp["E"][i][j], {"__builtins__": {}}, v))
    return R


def as_ctmc(sp, values=None):
    return {"kind": "CTMC", "labels": list(sp["labels"]), "R": rates_of(sp, values), "init": sp["init"].copy(), "name": sp["name"], "slow": True}


def build(sp, ja=None):
    import jajapy as ja
    from jajapy.pctmc.PCTMC import PCTMC
    k = sp["kind"]
    if k == "MC":
        from jajapy.mc.MC import MC
        return MC(sp["P"].copy(), list(sp["labels"]), sp["name"])
    if k == "MDP":
        from jajapy.mdp.MDP import MDP
        return MDP(sp["P"].copy(), list(sp["labels"]), list(sp["acts"]), sp["name"])
    if k == "CTMC":
        from jajapy.ctmc.CTMC import CTMC
        return CTMC(sp["R"].copy(), list(sp["labels"]), sp["name"])
    if k == "HMM":
        from jajapy.hmm.HMM import HMM
        return HMM(sp["A"].copy(), sp["B"].copy(), list(sp["alphabet"]), sp["init"].copy(), sp["name"])
    if k == "GoHMM":
        from jajapy.gohmm.GoHMM import GoHMM
        return GoHMM(sp["A"].copy(), sp["out"].copy(), sp["init"].copy(), sp["name"])
    if k == "PCTMC":
        return build_pctmc(sp)
    raise ValueError(k)


def build_pctmc(sp, instantiate=True, share=True):
    from jajapy.pctmc.PCTMC import PCTMC
    return PCTMC(*pctmc_args(sp, instantiate, share))


def pctmc_args(sp, instantiate=True, share=True):
    from sympy import sympify, Symbol
    N = len(sp["labels"])
    sym = {p: Symbol(p) for p in sp["params"]}
    M = np.zeros((N, N), dtype="uint16")
    ex = [sympify("0.0")]
    key = {}
    pi = [[] for _ in sp["params"]]
    for i in range(N):
        for j in range(N):
            e = sp["E"][i][j]
            if e is None:
                continue
            se = sympify(e, sym)
            const = not se.free_symbols
            if const or not share or e not in key:
                ex.append(se)
                key[e] = len(ex) - 1
            M[i, j] = len(ex) - 1 if const or not share else key[e]
            for s in se.free_symbols:
                pi[sp["params"].index(s.name)].append([i, j])
    v = dict(sp["values"]) if instantiate is True else dict(instantiate or {})
    return M, list(sp["labels"]), ex, v, pi, list(sp["params"]), sp["name"]


# --------------------------------------------------------------- simulator
def choice(rng, p):
    c = np.cumsum(p)
    return int(np.searchsorted(c, rng.random() * c[-1], side="right").clip(0, len(p) - 1)) if c[-1] > 0 else None


def pick(rng, p):
    p = np.asarray(p, float)
    nz = np.nonzero(p)[0]
    return int(nz[choice(rng, p[nz])])


def sim(rng, sp, n, timed=False):
    """A trace the spec can generate: n steps."""
    k = sp["kind"]
    s = pick(rng, sp["init"])
    if k == "MC":
        out = [sp["labels"][s]]
        for _ in range(n):
            s = pick(rng, sp["P"][s])
            out.append(sp["labels"][s])
        return out
    if k == "MDP":
        out = [sp["labels"][s]]
        for _ in range(n):
            av = [a for a in range(len(sp["acts"])) if sp["P"][s, a].sum() > 0]
            if not av:
                break
            a = av[int(rng.integers(len(av)))]
            s = pick(rng, sp["P"][s, a])
            out += [sp["acts"][a], sp["labels"][s]]
        return out
    if k == "CTMC":
        out = [sp["labels"][s]]
        for _ in range(n):
            e = sp["R"][s].sum()
            if e <= 0:
                break
            if timed:
                out.append(float(rng.exponential(1 / e)))
            s = pick(rng, sp["R"][s])
            out.append(sp["labels"][s])
        return out
    if k == "PCTMC":
        return sim(rng, as_ctmc(sp), n, timed)
    if k == "HMM":
        out = []
        for _ in range(n):
            out.append(sp["alphabet"][pick(rng, sp["B"][s])])
            s = pick(rng, sp["A"][s])
        return out
    if k == "GoHMM":
        out = []
        for _ in range(n):
            out.append([float(rng.normal(m, sd)) for m, sd in sp["out"][s]])
            s = pick(rng, sp["A"][s])
        return out
    raise ValueError(k)


def traces(rng, sp, nseq, lmin, lmax, timed=False, maxmult=4):
    """Distinct traces and multiplicities."""
    seqs, mult = [], []
    if rng.random() < BIG and nseq > 1 and sp["kind"] != "PCTMC" and not sp.get("slow") and len(sp["init"]) < 9:
        nseq = int(rng.integers(20, 70))
    if maxmult < 10 and rng.random() < BIG and sp["kind"] != "PCTMC" and not sp.get("slow"):
        maxmult *= 100
    for _ in range(nseq):
        t = sim(rng, sp, int(rng.integers(lmin, lmax + 1)), timed)
        if t in seqs:
            mult[seqs.index(t)] += 1
        else:
            seqs.append(t)
            mult.append(int(rng.integers(1, maxmult + 1)))
    return seqs, mult


def huge(rng, mult, p=.04):
    """Now and then, multiplicities that do not fit in 8, 16 or 32 bits."""
    if rng.random() >= p:
        return mult
    return [int(m * rng.choice([1, 97, 70001, 3 * 10 ** 9])) for m in mult]


def set_type(sp, timed):
    return {"MC": 0, "HMM": 0, "MDP": 1, "GoHMM": 3}.get(sp["kind"], 4 if timed else 0)


def mkset(seqs, mult, t):
    from jajapy.base.Set import Set
    return Set(copy.deepcopy(seqs), list(mult), t)


def absorb(rng, sp):
    """Some states of a CTMC or PCTMC lose their transitions."""
    non = [i for i, l in enumerate(sp["labels"]) if l != "init"]
    dead = [i for i in non if rng.random() < .4] or non[:1]
    for i in dead:
        if sp["kind"] == "CTMC":
            sp["R"][i] = 0
        else:
            sp["E"][i] = [None] * len(sp["labels"])
    if sp["kind"] == "PCTMC":
        sp["params"] = [p for p in sp["params"] if any(p in idents(e) for r in sp["E"] for e in r)]
        sp["values"] = {p: sp["values"][p] for p in sp["params"]}
    return dead


GENS = {"MC": g_mc, "MDP": g_mdp, "CTMC": g_ctmc, "HMM": g_hmm, "GoHMM": g_gohmm, "PCTMC": g_pctmc}


def g_any(rng, kinds=("MC", "MDP", "CTMC", "HMM", "GoHMM", "PCTMC"), **k):
    kd = str(rng.choice(list(kinds)))
    return GENS[kd](rng, **k)


def brief(sp):
    d = {}
    for k, v in sp.items():
        d[k] = np.round(v, 4).tolist() if isinstance(v, np.ndarray) else v
    return d
