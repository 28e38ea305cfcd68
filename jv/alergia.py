"""Reference ALERGIA / IOALERGIA: prefix tree, red-blue merging, written from
the papers' definition; transitions are keyed by what follows a state (a label,
or an action and a label)."""
import math
import numpy as np


class Tie(Exception):
    """A test falls on the edge of the bound: either answer is right."""


class Node:
    def __init__(self, label, prefix=()):
        self.label, self.prefix, self.kids = label, tuple(prefix), {}  # key -> [node, count]

    def act(self, a):
        return {k[1]: v for k, v in self.kids.items() if k[0] == a}


def steps(trace, mdp, flat):
    """(first label or None, list of keys)"""
    if mdp:
        return trace[0], [(trace[i], trace[i + 1]) for i in range(1, len(trace) - 1, 2)]
    return None, [("", x) for x in trace]


def tree(seqs, mult, mdp):
    root = Node(seqs[0][0], (seqs[0][0],)) if mdp else Node("")
    for t, m in sorted(zip(seqs, mult), key=lambda x: x[0]):
        _, ks = steps(t, mdp, None)
        n = root
        for k in ks:
            if k not in n.kids:
                n.kids[k] = [Node(k[1], n.prefix + (k if mdp else (k[1],))), 0]
            n.kids[k][1] += m
            n = n.kids[k][0]
    return root


def far(f1, n1, f2, n2, alpha):
    d = abs(f1 / n1 - f2 / n2)
    b = (math.sqrt(1 / n1) + math.sqrt(1 / n2)) * math.sqrt(math.log(2 / alpha) / 2)
    if abs(d - b) < 1e-9:
        raise Tie()
    return d > b


def compatible(x, y, alpha):
    if x.label != y.label:
        return False
    for a in set(k[0] for k in x.kids) & set(k[0] for k in y.kids):
        dx, dy = x.act(a), y.act(a)
        nx, ny = sum(c for _, c in dx.values()), sum(c for _, c in dy.values())
        if any(far(dx.get(o, (0, 0))[1], nx, dy.get(o, (0, 0))[1], ny, alpha) for o in set(dx) | set(dy)):
            return False
    return all(compatible(x.kids[k][0], y.kids[k][0], alpha) for k in set(x.kids) & set(y.kids))


def fold(x, y):
    # the order decides which of the nodes met first by the same key survives
    acts = list(dict.fromkeys(k[0] for k in y.kids))
    for k in sorted(y.kids, key=lambda k: (acts.index(k[0]), k[1])):
        z, c = y.kids[k]
        if k in x.kids:
            x.kids[k][1] += c
            fold(x.kids[k][0], z)
        else:
            x.kids[k] = [z, c]


def learn(seqs, mult, alpha, mdp):
    """Returns (root, red)"""
    root = tree(seqs, mult, mdp)
    red = [root]
    merges = 0
    while True:
        blue = [(r, k) for r in red for k in sorted(r.kids) if not any(r.kids[k][0] is q for q in red)]
        if not blue:
            break
        if mdp:
            blue.sort(key=lambda rk: rk[0].kids[rk[1]][0].prefix)
        r, k = blue[0]
        b = r.kids[k][0]
        for q in red:
            if compatible(q, b, alpha):
                r.kids[k][0] = q
                fold(q, b)
                merges += 1
                break
        else:
            red.append(b)
    return root, red, merges


def start(root, mdp):
    """The initial node of the resulting model and its automaton view."""
    if mdp:
        return root
    if any(k[1] == "init" for k in root.kids):
        return root.kids[("", "init")][0]
    root.label = "init"
    return root


def automaton(root):
    """Canonical numbering: BFS, keys sorted. [(label, {key: (target, prob)})]"""
    order, ids = [root], {id(root): 0}
    i = 0
    while i < len(order):
        for k in sorted(order[i].kids):
            z = order[i].kids[k][0]
            if id(z) not in ids:
                ids[id(z)] = len(order)
                order.append(z)
        i += 1
    res = []
    for n in order:
        tot = {}
        for (a, _), (_, c) in n.kids.items():
            tot[a] = tot.get(a, 0) + c
        res.append((n.label, {k: (ids[id(z)], c / tot[k[0]]) for k, (z, c) in n.kids.items()}))
    return res


def of_matrix(M, labels, actions, start):
    """The automaton of a learned model; None if it is not deterministic."""
    M = np.asarray(M, float)
    if actions is None:
        M, actions = M[:, None, :], [""]
    order, ids = [start], {start: 0}
    res = []
    i = 0
    while i < len(order):
        s = order[i]
        out = {}
        for a in range(len(actions)):
            for t in np.nonzero(M[s, a])[0]:
                k = (actions[a], labels[t])
                if k in out:
                    return None
                out[k] = (int(t), float(M[s, a, t]))
        for k in sorted(out):
            if out[k][0] not in ids:
                ids[out[k][0]] = len(order)
                order.append(out[k][0])
        res.append((labels[s], {k: (ids[t], p) for k, (t, p) in out.items()}))
        i += 1
    return res


def same(a, b):
    """None if equal, else a short explanation."""
    if len(a) != len(b):
        return "%d reachable states instead of %d" % (len(a), len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        if x[0] != y[0]:
            return "state %d labelled %s instead of %s" % (i, x[0], y[0])
        if set(x[1]) != set(y[1]):
            return "state %d (%s) has transitions %s instead of %s" % (i, x[0], sorted(x[1]), sorted(y[1]))
        for k in x[1]:
            if x[1][k][0] != y[1][k][0]:
                return "state %d (%s) by %s leads to %d instead of %d" % (i, x[0], k, x[1][k][0], y[1][k][0])
            if abs(x[1][k][1] - y[1][k][1]) > 1e-9:
                return "state %d (%s) by %s has probability %r instead of %r" % (i, x[0], k, x[1][k][1], y[1][k][1])
    return None


def recount(aut, paths):
    """Counts of the keys along the paths (list of (keys, mult)) in the
    automaton; None, path if a path leaves it."""
    cnt = [dict() for _ in aut]
    for ks, m in paths:
        s = 0
        for k in ks:
            if k not in aut[s][1]:
                return None, ks
            cnt[s][k] = cnt[s].get(k, 0) + m
            s = aut[s][1][k][0]
    return cnt, None
