"""Reference semantics, written from the definitions and independent of jajapy."""
import itertools, math
import numpy as np


def norm_pdf(x, m, s):
    return math.exp(-0.5 * ((x - m) / s) ** 2) / (s * math.sqrt(2 * math.pi))


def go_b(sp, o):
    """density of the observation vector o in every state"""
    return np.array([np.prod([norm_pdf(x, m, s) for x, (m, s) in zip(o, st)]) for st in sp["out"]])


def emis(sp, o):
    if sp["kind"] == "HMM":
        return sp["B"][:, sp["alphabet"].index(o)] if o in sp["alphabet"] else np.zeros(len(sp["A"]))
    if sp["kind"] == "GoHMM":
        return go_b(sp, o)
    return np.array([1.0 if l == o else 0.0 for l in sp["labels"]])


def jump(sp):
    """Embedded jump matrix of a CTMC (rows with no rate stay put)."""
    R = sp["R"]
    e = R.sum(axis=1)
    P = np.zeros_like(R)
    for s in range(len(R)):
        if e[s] > 0:
            P[s] = R[s] / e[s]
        else:
            P[s, s] = 1.0
    return P


def split(trace):
    return trace[0::2], trace[1::2]


def steps(sp, trace, timed=False):
    """(weights, Ms): likelihood = init.diag(w0).M0.diag(w1).M1...diag(wn).1"""
    k = sp["kind"]
    if k in ("MC", "HMM", "GoHMM") or (k == "CTMC" and not timed):
        T = {"MC": lambda: sp["P"], "HMM": lambda: sp["A"], "GoHMM": lambda: sp["A"], "CTMC": lambda: jump(sp)}[k]()
        return [emis(sp, o) for o in trace], [T] * (len(trace) - 1)
    obs, mid = split(trace)
    w = [emis(sp, o) for o in obs]
    if k == "MDP":
        z = np.zeros((len(w[0]), len(w[0])))
        return w, [sp["P"][:, sp["acts"].index(a), :] if a in sp["acts"] else z for a in mid]
    if k == "CTMC":
        e = sp["R"].sum(axis=1)
        return w, [sp["R"] * np.exp(-e * t)[:, None] for t in mid]
    raise ValueError(k)


def loglik(sp, trace, timed=False):
    """Scaled forward algorithm; -inf if impossible."""
    w, M = steps(sp, trace, timed)
    a = sp["init"] * w[0]
    ll = 0.0
    for i in range(len(M)):
        a = (a @ M[i]) * w[i + 1]
        t = a.sum()
        if t <= 0:
            return -math.inf
        a = a / t
        ll += math.log(t)
    t = a.sum()
    return ll + math.log(t) if t > 0 else -math.inf


def loglik_paths(sp, trace, timed=False):
    """Sum over every state path: the definition itself (small models)."""
    w, M = steps(sp, trace, timed)
    n = len(w[0])
    tot = 0.0
    for path in itertools.product(range(n), repeat=len(w)):
        p = sp["init"][path[0]] * w[0][path[0]]
        for i in range(len(M)):
            if p == 0:
                break
            p *= M[i][path[i], path[i + 1]] * w[i + 1][path[i + 1]]
        tot += p
    return math.log(tot) if tot > 0 else -math.inf


def set_loglik(sp, seqs, mult, timed=False):
    """Weighted average; traces of probability 0 add nothing."""
    l = [loglik(sp, s, timed) for s in seqs]
    return sum(x * m for x, m in zip(l, mult) if x > -math.inf) / sum(mult), l


def posteriors(sp, trace, timed=False):
    """gamma[k,s], xi[k,s,s'] and loglik by forward-backward."""
    w, M = steps(sp, trace, timed)
    n = len(w)
    al = [sp["init"] * w[0]]
    c = [al[0].sum()]
    if c[0] <= 0:
        return None
    al[0] = al[0] / c[0]
    for i in range(n - 1):
        x = (al[-1] @ M[i]) * w[i + 1]
        t = x.sum()
        if t <= 0:
            return None
        al.append(x / t)
        c.append(t)
    be = [None] * n
    be[-1] = np.ones(len(w[0]))
    for i in range(n - 2, -1, -1):
        be[i] = M[i] @ (w[i + 1] * be[i + 1]) / c[i + 1]
    gamma = np.array([a * b for a, b in zip(al, be)])
    xi = np.array([al[i][:, None] * M[i] * (w[i + 1] * be[i + 1])[None, :] / c[i + 1] for i in range(n - 1)])
    return gamma, xi, sum(math.log(x) for x in c)


def em_step(sp, seqs, mult, timed=False, fixed=None):
    """One EM update.  For MC/HMM/GoHMM/untimed CTMC the unobserved move out of
    the last state is missing data, as in jajapy."""
    k = sp["kind"]
    N = len(sp["init"])
    tot = 0.0
    used = 0
    if k in ("MC", "HMM", "GoHMM") or (k == "CTMC" and not timed):
        T = {"MC": lambda: sp["P"], "HMM": lambda: sp["A"], "GoHMM": lambda: sp["A"], "CTMC": lambda: jump(sp)}[k]()
        num = np.zeros((N, N))
        den = np.zeros(N)
        ini = np.zeros(N)
        em = {}
        d = sp["out"].shape[1] if k == "GoHMM" else 0
        mu = np.zeros((N, d))
        va = np.zeros((N, d))
        for t, m in zip(seqs, mult):
            p = posteriors(sp, t)
            if p is None:
                continue
            used += 1
            g, x, ll = p
            tot += m * ll
            num += m * (x.sum(axis=0) if len(x) else 0)
            num += m * g[-1][:, None] * T
            den += m * g.sum(axis=0)
            ini += m * g[0]
            if k == "HMM":
                for i, o in enumerate(t):
                    em[o] = em.get(o, np.zeros(N)) + m * g[i]
            if k == "GoHMM":
                X = np.array(t)
                mu += m * g.T @ X
                for s in range(N):
                    va[s] += m * (g[:, s][:, None] * (X - sp["out"][s, :, 0]) ** 2).sum(axis=0)
        if not used:
            return None
        T2 = T.copy() if k != "CTMC" else sp["R"].copy()
        vis = den > 1e-300
        for s in range(N):
            if vis[s]:
                T2[s] = num[s] / den[s]
            if k == "CTMC" and not sp["R"][s].any():
                T2[s] = 0  # absorbing: no rate to learn
        res = {"T": T2, "den": den, "ll": tot, "used": used}
        if k in ("HMM", "GoHMM"):
            res["init"] = ini / ini.sum()
        if k == "HMM":
            B = sp["B"].copy()
            for s in range(N):
                if vis[s]:
                    B[s] = [em.get(o, np.zeros(N))[s] / den[s] for o in sp["alphabet"]]
            res["B"] = B
        if k == "GoHMM":
            out = sp["out"].copy()
            for s in range(N):
                if vis[s]:
                    out[s, :, 0] = mu[s] / den[s]
                    out[s, :, 1] = np.sqrt(va[s] / den[s])
            res["out"] = out
        return res
    if k == "MDP":
        na = len(sp["acts"])
        num = np.zeros((N, na, N))
        den = np.zeros((N, na))
        for t, m in zip(seqs, mult):
            p = posteriors(sp, t)
            if p is None:
                continue
            used += 1
            g, x, ll = p
            tot += m * ll
            for i, a in enumerate(split(t)[1]):
                ai = sp["acts"].index(a)
                num[:, ai, :] += m * x[i]
                den[:, ai] += m * g[i]
        if not used:
            return None
        T2 = sp["P"].copy()
        for s in range(N):
            for a in range(na):
                if den[s, a] > 1e-300:
                    T2[s, a] = num[s, a] / den[s, a]
        return {"T": T2, "den": den, "ll": tot, "used": used}
    if k == "CTMC" and timed:
        num = np.zeros((N, N))
        den = np.zeros(N)
        for t, m in zip(seqs, mult):
            p = posteriors(sp, t, True)
            if p is None:
                continue
            used += 1
            g, x, ll = p
            tot += m * ll
            for i, dt in enumerate(split(t)[1]):
                num += m * x[i]
                den += m * g[i] * dt
        if not used:
            return None
        T2 = sp["R"].copy()
        for s in range(N):
            if den[s] > 1e-300:
                T2[s] = num[s] / den[s]
        if fixed is not None:
            T2 = np.where(fixed, sp["R"], T2)
        return {"T": T2, "den": den, "ll": tot, "used": used}
    raise ValueError(k)


# --------------------------------------------------------------- model checking
def reach_dtmc(P, target):
    """P(F target) for every state (least fixpoint by linear solve)."""
    n = len(P)
    can = set(target)
    ch = True
    while ch:
        ch = False
        for s in range(n):
            if s not in can and any(P[s, t] > 0 and t in can for t in range(n)):
                can.add(s)
                ch = True
    x = np.zeros(n)
    for t in target:
        x[t] = 1.0
    q = [s for s in sorted(can) if s not in set(target)]
    if q:
        A = np.eye(len(q)) - P[np.ix_(q, q)]
        b = P[np.ix_(q, sorted(set(target)))].sum(axis=1)
        x[q] = np.linalg.solve(A, b)
    return x


def reach_mdp(P, target, maximize=True, it=4000, tol=1e-13):
    """Pmax/Pmin (F target) by value iteration; P[s,a,s'] with zero rows = disabled."""
    n, na, _ = P.shape
    x = np.zeros(n)
    x[list(target)] = 1.0
    en = P.sum(axis=2) > 0
    for _ in range(it):
        v = P @ x
        v = np.where(en, v, -1 if maximize else 2)
        y = v.max(axis=1) if maximize else v.min(axis=1)
        y = np.where(en.any(axis=1), y, 0)
        y[list(target)] = 1.0
        if np.abs(y - x).max() < tol:
            return y
        x = y
    return None  # too slow to be compared with another solver


def transient_ctmc(R, T):
    """exp(Q T)"""
    from scipy.linalg import expm
    Q = R - np.diag(R.sum(axis=1))
    return expm(Q * T)


def timed_reach(R, target, T):
    R = R.copy()
    for t in target:
        R[t] = 0
    X = transient_ctmc(R, T)
    return X[:, sorted(target)].sum(axis=1)
