"""Jobs for C27: one job is a call of the library on inputs made from a seed; its
result is a plain value that two executions of the same job must share.

`python -m jv.jobs` reads [[kind, seed], ...] on stdin and executes each job in a
fresh fork of an interpreter that has imported the library and used none of it.
"""
import sys, os, json, pickle, random, tempfile, shutil
from . import boot
import numpy as np
from . import gen, ref, fit as F

KINDS6 = ("MC", "MDP", "CTMC", "HMM", "GoHMM", "PCTMC")


class Plain:
    """Stands for the checks' ctx in generators."""

    def call(self, f, *a, **k):
        k.pop("_what", None)
        return f(*a, **k)

    def count(self, *a):
        pass

    def check(self, *a):
        pass


P = Plain()


# ------------------------------------------------------------- plain views
def flt(x):
    return np.asarray(x, float).tolist()


def view(m, texts=False):
    """What a model is, with no trace of the order of its alphabets."""
    t = type(m).__name__
    if t.startswith("Sparse"):
        r = {"kind": t, "labels": [sorted(str(l) for l in s.labels) for s in m.states], "states": m.nr_states,
             "rows": [[(e.column, float(e.value())) for e in row] for row in rows_of(m)]}
        return r
    if not hasattr(m, "initial_state"):
        return m if isinstance(m, (float, int, str, type(None))) else plain(m)
    r = {"kind": t, "name": m.name, "states": int(m.nb_states), "initial": flt(m.initial_state)}
    if hasattr(m, "labelling"):
        r["labels"] = [str(x) for x in m.labelling]
        r["alphabet"] = sorted(map(str, m.getAlphabet()))
    if t == "PCTMC":
        n = m.nb_states
        vals = {"x": 1.25, "y": .75, "z": 2.5, "p": .5, "q": 1.5, "r": 3.5}
        vals = {p: vals.get(p, 1.0 + (sum(map(ord, str(p))) % 17) / 7) for p in m.parameter_str}
        e = lambda i, j: m.transitionExpression(i, j)
        r["parameters"] = sorted(map(str, m.parameter_str))
        r["values"] = {str(p): float(v) for p, v in m.parameter_values.items()}
        r["rates"] = [[float(ev(e(i, j), vals)) for j in range(n)] for i in range(n)]
        r["involved"] = [[sorted(map(str, m.involvedParameters(i, j))) for j in range(n)] for i in range(n)]
        r["indexes"] = {str(p): sorted(map(list, m.parameterIndexes(p))) for p in m.parameter_str}
        r["sync"] = sorted(map(str, m.synchronous_transitions))
        return r
    M = np.asarray(m.matrix, float)
    if t == "MDP":
        o = sorted(range(len(m.actions)), key=lambda i: m.actions[i])
        r["actions"] = [m.actions[i] for i in o]
        M = M[:, o, :]
    r["matrix"] = M.tolist()
    if t == "CTMC":
        r["sync"] = sorted(map(str, m.synchronous_transitions))
    if t == "HMM":
        o = sorted(range(len(m.alphabet)), key=lambda i: m.alphabet[i])
        r["alphabet"] = [m.alphabet[i] for i in o]
        r["emissions"] = np.asarray(m.output, float)[:, o].tolist()
    if t == "GoHMM":
        r["gaussians"] = flt(m.output)
    return r


def ev(e, vals):
    return float(e.evalf(subs=vals)) if hasattr(e, "evalf") else float(e)


def rows_of(m):
    tm = m.transition_matrix
    return [tm.get_row(i) for i in range(tm.nr_rows)]


def plain(x):
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, np.floating):
        return float(x)
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted(map(str, x))
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (float, int, str, bool, type(None))):
        return x
    if type(x).__name__ == "Set":
        return setv(x)
    if type(x).__module__.startswith("sympy"):
        return str(x)
    return view(x)


def setv(s):
    return {"type": s.type, "sequences": [plain(x) for x in s.sequences], "times": [int(x) for x in s.times]}


def seeds(rng):
    k = int(rng.integers(2**31))
    random.seed(k)
    np.random.seed(k % 2**32)


# ------------------------------------------------------------------- jobs
JOBS = {}


def job(*tags):
    """tags: 'hash' = the result may depend on the order of a set, so that it
    is not compared between hash seeds."""
    def deco(f):
        JOBS[f.__name__] = (f, "hash" in tags)
        return f
    return deco


@job()
def loglik(rng, tmp):
    sp = gen.g_any(rng)
    timed = sp["kind"] in ("CTMC", "PCTMC") and rng.random() < .5
    num = gen.as_ctmc(sp) if sp["kind"] == "PCTMC" else sp
    seqs, mult = gen.traces(rng, num, 4, 1, 6, timed)
    if rng.random() < .3 and sp["kind"] != "GoHMM":
        seqs.append(seqs[0][:-1] + ["zz"])
        mult.append(1)
    m = gen.build(sp)
    s = gen.mkset(seqs, mult, gen.set_type(num, timed))
    return [m.logLikelihood(s), m.logLikelihood(s)]


@job()
def learn(rng, tmp):
    from jajapy import BW
    kd, timed, hyp, seqs, mult, t = F.problem(rng, impossible=.2)
    k = {}
    if kd == "CTMC" and rng.random() < .4:
        k["fixed_parameters"] = rng.random(hyp["R"].shape) < .3
    if rng.random() < .3:
        k["output_file"] = os.path.join(tmp, "o.txt")
    r, info = BW().fit(gen.mkset(seqs, mult, t), initial_model=gen.build(hyp), max_it=int(rng.integers(1, 5)), stormpy_output=bool(rng.random() < .2),
                       verbose=0, return_data=True, processes=int(rng.integers(1, 4)), **k)
    x = [view(r), info["learning_rounds"], info["training_set_loglikelihood"]]
    if k.get("output_file"):
        x.append(sorted(os.listdir(tmp)))
    return x


@job("hash")
def learn_anew(rng, tmp):
    """no hypothesis: the library draws one"""
    from jajapy import BW
    kd, timed, hyp, seqs, mult, t = F.fresh_problem(rng, ("MC", "MDP", "CTMC", "CTMCu", "HMM", "GoHMM"))
    seeds(rng)
    k = {}
    if kd == "HMM":
        k["output_type"] = "HMM" if False else None
        k = {}
    n = int(rng.integers(2, 4))
    n = max(n, len({o for q in seqs for o in (q[0::2] if timed or kd == "MDP" else q)} if kd not in ("HMM", "GoHMM") else {1}) + 1)
    r, info = BW().fit(gen.mkset(seqs, mult, t), nb_states=n, random_initial_state=bool(rng.integers(2)), max_it=2, stormpy_output=False, verbose=0,
                       return_data=True, processes=1, **k)
    return [view(r), info["learning_rounds"], info["training_set_loglikelihood"]]


@job()
def learn_parameters(rng, tmp):
    from jajapy import BW
    from .checks import c24
    timed, sp, seqs, mult = c24.setup(rng, c24.PRODUCTS if rng.random() < .5 else c24.SIMPLE)
    m = c24.make(P, rng, sp)
    s = gen.mkset(seqs, mult, 4 if timed else 0)
    if rng.random() < .5:
        learn = [p for p in sp["params"] if rng.random() < .7] or [sp["params"][0]]
        got, info = BW().fit_parameters(s, m, list(learn), max_it=2, verbose=0, return_data=True)
        return [plain(got), info["learning_rounds"], info["training_set_loglikelihood"]]
    got, info = BW().fit(s, initial_model=m, max_it=2, verbose=0, return_data=True, stormpy_output=False, update_constant=bool(rng.integers(2)), processes=1)
    return [view(got), info["learning_rounds"], info["training_set_loglikelihood"]]


def automaton_job(rng, mdp):
    from .checks import c19
    import jajapy as ja
    seqs, mult = c19.sample(rng, mdp)
    L = ja.IOAlergia() if mdp else ja.Alergia()
    return view(L.fit(gen.mkset(seqs, mult, 1 if mdp else 0), c19.alpha_of(rng), stormpy_output=bool(rng.random() < .15)))


@job()
def alergia(rng, tmp):
    return automaton_job(rng, False)


@job()
def ioalergia(rng, tmp):
    return automaton_job(rng, True)


@job("hash")
def active(rng, tmp):
    from jajapy import Active_BW_MDP
    from .checks import c25
    sul, hyp, seqs, mult = c25.problem(rng)
    seeds(rng)
    r, info = Active_BW_MDP().fit(gen.mkset(seqs, mult, 1), gen.build(sul), lr=0, nb_iterations=2, nb_sequences=3, sequence_length=3,
                                  initial_model=gen.build(hyp), max_it=2, verbose=0, return_data=True, stormpy_output=False, processes=1)
    return [view(r), info["learning_rounds"], info["training_set_loglikelihood"]]


@job()
def compose(rng, tmp):
    import jajapy as ja
    from .checks import c22
    ctmc = bool(rng.integers(2))
    cs = [c22.component(rng, ctmc, tag=t) for t in "st"]
    c22.drop_lonely(cs)
    vals = c22.some_values(rng, cs)
    ms = [c22.make_(P, rng, c, vals) for c in cs]
    f = ja.synchronousCompositionCTMCs if ctmc else ja.synchronousCompositionPCTMCs
    m = f(*ms) if ctmc else f(ms)
    return view(m)


@job()
def files(rng, tmp):
    import jajapy as ja
    sp = gen.g_any(rng) if rng.random() < .7 else gen.g_gohmm(rng)
    m = gen.build(sp)
    f = os.path.join(tmp, "m.txt")
    m.save(f)
    l = getattr(ja, "load" + sp["kind"])(f)
    txt = open(f).read() if sp["kind"] in ("GoHMM",) else None
    return [view(l), txt, sorted(os.listdir(tmp))]


@job()
def prism(rng, tmp):
    import jajapy as ja
    sp = gen.g_any(rng, ("MC", "MDP", "CTMC", "PCTMC"))
    m = gen.build(sp)
    f = os.path.join(tmp, "m.sm")
    m.savePrism(f)
    return [view(ja.loadPrism(f)), sorted(os.listdir(tmp))]


@job()
def storm(rng, tmp):
    import jajapy as ja
    sp = gen.g_any(rng, ("MC", "MDP", "CTMC", "PCTMC"))
    s = ja.jajapyModeltoStormpy(gen.build(sp))
    return [view(s), view(ja.stormpyModeltoJajapy(s))]


@job()
def simulate(rng, tmp):
    from jajapy import UniformScheduler
    sp = gen.g_any(rng)
    m = gen.build(sp)
    seeds(rng)
    a = [UniformScheduler(list(sp["acts"]))] if sp["kind"] == "MDP" else []
    k = {"timed": True} if sp["kind"] in ("CTMC", "PCTMC") and rng.random() < .5 else {}
    if rng.random() < .5:
        return [plain(m.run(4, *a, **k)) for _ in range(3)]
    if rng.random() < .5:
        return setv(m.generateSet(5, 3, *a, **k))
    return setv(m.generateSet(5, .5, *a, distribution="geo", min_size=2, **k))


@job()
def draw(rng, tmp):
    import jajapy as ja
    from .checks import c17
    kd = str(rng.choice(c17.KINDS))
    a, k = c17.options(rng, kd)
    k["sseed"] = int(rng.choice([0, int(rng.integers(2**31))]))
    return view(c17.make(P, kd, a, k))


@job()
def instantiate(rng, tmp):
    sp = gen.g_pctmc(rng)
    while not sp["params"]:
        sp = gen.g_pctmc(rng)
    given = {p: float(np.round(rng.uniform(.1, 3), 3)) for p in sp["params"] if rng.random() < .4}
    m = gen.build_pctmc(sp, given)
    k = {"min_val": .5, "max_val": 2.5} if rng.random() < .5 or len(given) < 2 else {}
    m.randomInstantiation(sseed=int(rng.integers(2**31)), **k)
    r = [plain(m.parameter_values), [[m.transitionValue(i, j) for j in range(m.nb_states)] for i in range(m.nb_states)]]
    m.instantiate(list(sp["params"]), [1.5] * len(sp["params"]))
    return r + [[m.e(i) for i in range(m.nb_states)], view(m)]


@job()
def create(rng, tmp):
    """the optional arguments are left to their defaults as often as not"""
    import jajapy as ja
    kd = str(rng.choice(["MC", "MDP", "CTMC", "PCTMC", "HMM", "GoHMM"]))
    k = {"name": "n"} if rng.random() < .3 else {}
    if kd in ("HMM", "GoHMM"):
        from .checks import c18
        sp = gen.g_hmm(rng) if kd == "HMM" else gen.g_gohmm(rng)
        n = len(sp["A"])
        tr = [(i, j, float(sp["A"][i, j])) for i in range(n) for j in range(n) if sp["A"][i, j] > 0]
        ini = sp["init"].tolist() if 1.0 not in sp["init"] else sp["init"].tolist().index(1.0)
        if kd == "HMM":
            em = [(i, o, float(sp["B"][i, c])) for i in range(n) for c, o in enumerate(sp["alphabet"]) if sp["B"][i, c] > 0]
            return view(ja.createHMM(tr, em, ini, **k))
        return view(ja.createGoHMM(tr, [[tuple(map(float, x)) for x in st] for st in sp["out"]], ini, **k))
    n = int(rng.integers(1, 4))
    labs = [str(rng.choice(["a", "b"])) for _ in range(n)]
    tgt = lambda i: [(i + 1) % n, int(rng.integers(n))]
    ini = int(rng.integers(n))
    if kd == "MC":
        return view(ja.createMC([(i, j, 1 / len(set(tgt_))) for i in range(n) for tgt_ in [tgt(i)] for j in sorted(set(tgt_))], labs, ini, **k))
    if kd == "MDP":
        return view(ja.createMDP([(i, a, (i + 1) % n, 1.0) for i in range(n) for a in "AB"], labs, ini, **k))
    rates = [(i, j, float(np.round(rng.uniform(.1, 3), 2))) for i in range(n) for j in sorted(set(tgt(i)))]
    sync = [(int(rng.integers(n)), "go", int(rng.integers(n)), 1.5)] if rng.random() < .5 else None
    if kd == "CTMC":
        if sync:
            k["synchronous_transitions"] = sync
        return view(ja.createCTMC(rates, labs, ini, **k))
    rates = [(i, j, str(rng.choice(["x", "y", "x*y", "2.0"]))) for i, j, _ in rates]
    ps = sorted({c for t in rates for c in t[2] if c in "xy"})
    if sync:
        k["synchronous_transitions"] = sync
    if ps and rng.random() < .5:
        k["parameter_instantiation"] = {ps[0]: 1.25}
    m = ja.createPCTMC(rates, labs, ps, ini, **k)
    r = [view(m)]
    if rng.random() < .5:
        m.instantiate(list(ps), [2.0] * len(ps))
        r.append(view(m))
    return r


@job()
def schedule(rng, tmp):
    from jajapy import UniformScheduler, FiniteMemoryScheduler, MemorylessScheduler
    from .checks import c26
    sp = c26.unique_mdp(rng, missing=0)
    m = gen.build(sp)
    which = int(rng.integers(3))
    if which == 0:
        S = UniformScheduler(list(sp["acts"]))
    elif which == 1:
        S = FiniteMemoryScheduler(*c26.automaton(rng, sp))
    else:
        S = MemorylessScheduler([str(rng.choice(sp["acts"])) for _ in sp["labels"]])
    seeds(rng)
    return [m.run(5, S), m.run(5, S, int(rng.integers(len(sp["labels"])))), setv(m.generateSet(3, 4, S))]


@job()
def sets(rng, tmp):
    from jajapy import Set, loadSet
    sp = gen.g_any(rng, ("MC", "MDP", "CTMC", "HMM"))
    timed = sp["kind"] == "CTMC" and bool(rng.integers(2))
    t = gen.set_type(sp, timed)
    seqs, mult = gen.traces(rng, sp, 5, 1, 5, timed)
    s = gen.mkset(seqs, mult, t)
    o = Set([q for q in seqs for _ in range(2)], t=t) if rng.random() < .5 else Set([q for q in seqs for _ in range(2)])
    r = [setv(o)]
    s.addSet(o)
    r += [setv(s), s.getAlphabet() if False else sorted(map(str, s.getAlphabet())), bool(s.isEqual(o))]
    f = os.path.join(tmp, "s.txt")
    s.save(f)
    return r + [setv(loadSet(f)), open(f).read()]


def twin_spec(rng):
    """Models from a handful: other calls have certainly used ones that look
    alike (same name, shape, labels, sums, or the same values elsewhere)."""
    kd = str(rng.choice(KINDS6))
    p, q = (float(x) for x in rng.choice([.25, .5, .75], 2))
    flip = bool(rng.integers(2))
    lab = ["b", "a", "init"] if flip else ["a", "b", "init"]
    P = np.array([[p, 1 - p, 0], [q, 1 - q, 0], [1 - q, q, 0]])
    ini = np.array([0, 0, 1.0])
    if kd == "MC":
        return {"kind": kd, "labels": lab, "P": P, "init": ini, "name": "m"}
    if kd == "MDP":
        return {"kind": kd, "labels": lab, "acts": ["B", "A"] if flip else ["A", "B"], "P": np.stack([P, P[[1, 0, 2]]], axis=1), "init": ini, "name": "m"}
    if kd == "CTMC":
        return {"kind": kd, "labels": lab, "R": P * float(rng.choice([1.0, 2.0])), "init": ini, "name": "m"}
    if kd == "HMM":
        return {"kind": kd, "A": P[:2, :2], "B": P[1:, :2], "alphabet": lab[:2], "init": np.array([p, 1 - p]), "name": "m"}
    if kd == "GoHMM":
        return {"kind": kd, "A": P[:2, :2], "out": np.array([[[p, q]], [[q, p]]]), "init": np.array([p, 1 - p]), "name": "m"}
    v = [float(x) for x in rng.permutation([1, 2, 3])]
    e = [["x", "y", None], ["x*y", "z", None], ["1.0", "x+z", None]]
    if flip:
        e = [e[1], e[0], e[2]]
    return {"kind": kd, "labels": lab, "E": e, "params": ["x", "y", "z"], "values": dict(zip("xyz", v)), "init": ini, "name": "m"}


def twin_sets(rng, kd):
    t = int(rng.integers(2))
    m = [[1, 2], [2, 1], [1, 1]][int(rng.integers(3))]
    if kd == "GoHMM":
        return [[[.25], [.5]], [[.75], [.25], [.5]]] if t else [[[.5], [.25]], [[.25], [.75], [.5]]], m
    if kd == "MDP":
        return [["init", "A", "a", "B", "b"], ["init", "B", "a"]] if t else [["init", "B", "a", "A", "b"], ["init", "A", "a"]], m
    s = [["a", "b"], ["b", "b", "a"]] if t else [["b", "a"], ["a", "b", "b"]]
    return (s if kd == "HMM" else [["init"] + x for x in s]), m


@job()
def twins(rng, tmp):
    from jajapy import BW
    r = []
    for _ in range(2):
        sp = twin_spec(rng)
        m = gen.build(sp)
        kd = sp["kind"]
        if kd == "PCTMC" and rng.random() < .5:
            v = [float(x) for x in rng.permutation([1, 2, 3])]
            m.instantiate(["x", "y", "z"], v)
        if kd in ("CTMC", "PCTMC"):
            r.append([[float(m.e(s)), m.expected_time(s), m.lkl(s, .5)] for s in range(3)])
            s = gen.mkset([["init", .5, "a", .25, "b"], ["init", .25, "b"]], [1, 2], 4)
            r.append(m.logLikelihood(s))
        if kd == "PCTMC":
            r.append([[float(m.transitionValue(i, j)) for j in range(3)] for i in range(3)])
        seqs, mult = twin_sets(rng, kd)
        S = gen.mkset(seqs, mult, gen.set_type(sp, False))
        r.append(m.logLikelihood(S))
        if kd in ("CTMC", "PCTMC"):
            r.append([[float(m.l(i, j, o)) for j in range(2)] for i in range(2) for o in "ab"])
        if kd != "PCTMC" and rng.random() < .5:
            b, info = BW().fit(S, initial_model=m, max_it=1, stormpy_output=False, verbose=0, return_data=True, processes=1)
            r += [view(b), info["training_set_loglikelihood"]]
        if rng.random() < .4:
            f = os.path.join(tempfile.gettempdir(), "jv-twin-%d.txt" % os.getpid())  # the same file each time
            try:
                import jajapy as ja
                m.save(f)
                r.append(view(getattr(ja, "load" + kd)(f)))
                if kd in ("MC", "MDP", "CTMC"):
                    m.savePrism(f)
                    r.append(view(ja.loadPrism(f)))
            finally:
                os.path.exists(f) and os.remove(f)
        seeds(rng)
        a = []
        if kd == "MDP":
            from jajapy import UniformScheduler
            a = [UniformScheduler(["A", "B"])]
        r.append(plain(m.run(4, *a)))
    return r


SHARED = {}


def shared():
    """Arguments that live as long as the process and are given to many calls."""
    if not SHARED:
        SHARED.update(labs=["a", "b"], more=["c", "a", "b", "d", "e"], acts=["A", "B"], params=["x", "y"], values={"x": 1.5, "y": .5}, one={"y": 2.0},
                      mc=[(0, 1, .25), (0, 0, .75), (1, 0, 1.0)], mdp=[(0, "A", 1, 1.0), (0, "B", 0, 1.0), (1, "A", 0, 1.0)], ctmc=[(0, 1, 2.0), (1, 0, .5)],
                      pctmc=[(0, 1, "x"), (1, 0, "x*y"), (1, 1, 1.0)], init=[.25, .75], sync=[(1, "go", 0, 1.5)], hmm=[(0, "a", .5), (0, "b", .5), (1, "b", 1.0)],
                      gauss=[[(0.0, 1.0)], [(2.0, .5)]], some=["x"], vals=[2.5], M=np.array([[.25, .75, 0], [1.0, 0, 0], [.5, .5, 0]]), lab3=["a", "b", "init"],
                      seqs=[["init", "a", "b", "a"], ["init", "b", "a", "a"], ["init", "a", "b", "a"]], fixed=np.array([[True, False, False], [False] * 3, [False] * 3]),
                      h2=np.array([[.25, .75], [1.0, 0]]), o2=np.array([[.5, .5], [.125, .875]]), i2=np.array([.25, .75]))
    return SHARED


@job()
def shared_arguments(rng, tmp):
    import jajapy as ja
    from jajapy.mc.MC import MC
    from jajapy.hmm.HMM import HMM
    S = shared()
    k = int(rng.integers(1000))
    ini = lambda: [0, 1, S["init"]][k % 3]
    n = int(rng.integers(2, 8))
    calls = {
        "MC_random": lambda: ja.MC_random(n, S[["labs", "more"][k % 2]], sseed=k),
        "MDP_random": lambda: ja.MDP_random(n, S[["labs", "more"][k % 2]], S["acts"], sseed=k),
        "CTMC_random": lambda: ja.CTMC_random(n, S[["labs", "more"][k % 2]], 1, 4, sseed=k),
        "HMM_random": lambda: ja.HMM_random(n, S[["labs", "more"][k % 2]], sseed=k),
        "createMC": lambda: ja.createMC(S["mc"], S["labs"], ini()),
        "createMDP": lambda: ja.createMDP(S["mdp"], S["labs"], ini()),
        "createCTMC": lambda: ja.createCTMC(S["ctmc"], S["labs"], ini(), synchronous_transitions=S["sync"]),
        "createPCTMC": lambda: ja.createPCTMC(S["pctmc"], S["labs"], S["params"], ini(), S[["values", "one"][k % 2]], synchronous_transitions=S["sync"]),
        "createHMM": lambda: ja.createHMM(S["mc"], S["hmm"], ini()),
        "createGoHMM": lambda: ja.createGoHMM(S["mc"], S["gauss"], ini()),
        "Set": lambda: ja.Set(S["seqs"], t=0),
        "MC": lambda: MC(S["M"], S["lab3"], "m"),
        "HMM": lambda: HMM(S["h2"], S["o2"], S["labs"], S["i2"], "m"),
        "simulate": lambda: MC(S["M"], S["lab3"], "m").generateSet(5, 4),
        "loglik": lambda: MC(S["M"], S["lab3"], "m").logLikelihood(ja.Set(S["seqs"], t=0)),
        "instantiate": lambda: inst(S, ja),
        "learn": lambda: ja.BW().fit(S["seqs"], initial_model=MC(S["M"], S["lab3"], "m"), max_it=2, stormpy_output=False, verbose=0, processes=1),
        "learn-hmm": lambda: ja.BW().fit(ja.Set([["a", "b", "b"], ["b", "a", "b"]], t=0), initial_model=HMM(S["h2"], S["o2"], S["labs"], S["i2"], "m"), max_it=2,
                                         stormpy_output=False, verbose=0, processes=1),
        "learn-fixed": lambda: ja.BW().fit(ja.Set([["init", .5, "a", .5, "b"], ["init", .1, "b", .5, "a"]], t=4), initial_model=ctmc(S), max_it=2,
                                           fixed_parameters=S["fixed"], stormpy_output=False, verbose=0, processes=1),
        "alergia": lambda: ja.Alergia().fit(ja.Set(S["seqs"], t=0), .5, stormpy_output=False),
    }
    r = []
    for c in rng.choice(sorted(calls), 3):
        seeds(rng)
        r.append([str(c), plain(calls[str(c)]())])
    return r


def inst(S, ja):
    m = ja.createPCTMC(S["pctmc"], S["labs"], S["params"], 0, S["one"])
    m.instantiate(S["some"], S["vals"])
    return m


def ctmc(S):
    from jajapy.ctmc.CTMC import CTMC
    return CTMC(S["M"], S["lab3"], "m")


@job()
def bad_files(rng, tmp):
    """files and programs that cannot be read"""
    import jajapy as ja
    f = os.path.join(tmp, "b.sm")
    txt = str(rng.choice(["dtmc\nmodule m oops", "", "ctmc\nmodule m\n s:[0..1] init 0;\n [] s=0 -> k : (s'=1);\nendmodule\n", "\0\1\2", "MC\n['a']\n",
                          "mdp\nmodule m\n s:[0..1] init 5;\nendmodule\n"]))
    open(f, "w").write(txt)
    r = []
    for l in rng.choice(["loadPrism", "loadMC", "loadMDP", "loadCTMC", "loadPCTMC", "loadHMM", "loadGoHMM", "loadSet"], 3):
        try:
            getattr(ja, str(l))(f)
            r.append("accepted")
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)) or type(e).__name__ == "Hang":
                raise
            r.append(type(e).__name__)
    return r


@job()
def wrong(rng, tmp):
    """refused calls"""
    import jajapy as ja
    calls = [lambda: ja.createMC([(0, 0, .5)], ["a"], 0), lambda: ja.loadMC(os.path.join(tmp, "none")), lambda: ja.Set([["a", 1.0]], t=9),
             lambda: ja.MC_random(2, ["init"]), lambda: ja.BW().fit(ja.Set([["init", "a"]], t=0), initial_model=gen.build(gen.g_hmm(rng)), stormpy_output=False, verbose=0),
             lambda: ja.createMDP([(0, "A", 0, .3)], ["a"], 0), lambda: ja.createCTMC([(0, 0, -1.0)], ["a"], 0),
             lambda: gen.build_pctmc(gen.g_pctmc(rng), {}).run(5), lambda: gen.build_pctmc(gen.g_pctmc(rng), {}).instantiate(["nope"], [1.0]),
             lambda: ja.BW().fit(ja.Set([["init", "zz", "zz"]], t=0), initial_model=gen.build(gen.g_mc(rng)), max_it=1, stormpy_output=False, verbose=0)]
    r = []
    for i in rng.permutation(len(calls))[:3].tolist():
        try:
            calls[i]()
            r.append("accepted")
        except Exception as e:
            r.append(type(e).__name__)
    return r


def execute(kind, seed):
    """The result of a job, as a plain value."""
    rng = np.random.default_rng(seed)
    seeds(rng)
    tmp = tempfile.mkdtemp(prefix="jv-job-")
    try:
        return ["ok", plain(JOBS[kind][0](rng, tmp))]
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        if "/jajapy/" not in tb[-1].filename and not any("/jajapy/" in x.filename for x in tb):
            return ["harness", type(e).__name__ + " " + traceback.format_exc()[-700:]]
        return ["error", type(e).__name__]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def close(a, b, path=""):
    """None, or where two results differ."""
    if isinstance(a, float) or isinstance(b, float):
        if not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
            return "%s: %r / %r" % (path, a, b)
        if a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * max(1e-3, abs(a), abs(b)):
            return None
        return "%s: %r / %r" % (path, a, b)
    if type(a) is not type(b):
        return "%s: %r / %r" % (path, a, b)
    if isinstance(a, list):
        if len(a) != len(b):
            return "%s: %d / %d items: %r / %r" % (path, len(a), len(b), a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            d = close(x, y, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    if isinstance(a, dict):
        if list(sorted(a)) != list(sorted(b)):
            return "%s: keys %s / %s" % (path, sorted(a), sorted(b))
        for k in a:
            d = close(a[k], b[k], "%s.%s" % (path, k))
            if d:
                return d
        return None
    return None if a == b else "%s: %r / %r" % (path, a, b)


def serve():
    """One fork per job; the parent never uses the library."""
    jobs = json.loads(sys.stdin.read())
    boot.import_jajapy()
    from .checks import c17, c18, c19, c22, c24, c25, c26  # noqa: imported before the forks
    boot.mute()
    res = []
    for kind, seed in jobs:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                import signal
                signal.alarm(240)
                os.close(r)
                with os.fdopen(w, "wb") as f:
                    pickle.dump(execute(kind, seed), f)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            d = f.read()
        os.waitpid(pid, 0)
        res.append(pickle.loads(d) if d else ["lost", None])
    boot._out.flush()
    os.write(boot._out.fileno(), json.dumps(res).encode())


if __name__ == "__main__":
    serve()
