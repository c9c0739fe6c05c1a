PROPERTY = "C28"
RULE = "one evaluation = one instance of an optimisation problem whose phase separator, mixer, start state, classical cost, compiled ansatz or trained circuit is compared with a brute-force model of the problem and dense matrices; distinct = distinct (problem, instance, angles)"
PLAN = {
    "quick": {"cost": 140, "classical": 160, "mixer": 100, "feasible": 60, "ansatz": 60, "run": 40, "colors": 40, "qubo": 6, "benchmark": 30, "vqe": 30, "qite": 24, "traced": 10},
    "thorough": {"cost": 1500, "classical": 1500, "mixer": 1000, "feasible": 600, "ansatz": 500, "run": 300, "colors": 400, "qubo": 40, "benchmark": 300, "vqe": 250, "qite": 200, "traced": 60},
}
REQUIRED_MONITORS = ["cost", "classical", "mixer", "feasible", "ansatz", "run", "colors", "qubo", "benchmark", "vqe", "qite", "traced"]
ASSUMPTIONS = [
    "phase separators are compared up to a global phase that does not depend on the basis state",
    "energies estimated from samples are judged within 0.15 of the exact expectation value",
    "the portfolio rebalancing problem is not covered: its documented cost is not specified unambiguously",
]
CASE_TIMEOUT = 300
# --- end of plan ---
import itertools
import math

import networkx as nx
import numpy as np
import scipy.linalg
from scipy.optimize import OptimizeResult
from sympy import Symbol

from vlib import dense as D
from vlib import opref as R
from vlib import qs as Q
from vlib.harness import Skip

import qrisp
from qrisp import QuantumArray, QuantumBool, QuantumVariable, auto_uncompute, cx, h, mcx, p, rx, ry, rz, x
from qrisp import qaoa
from qrisp.qaoa import QAOAProblem
from qrisp.algorithms.qaoa.problems import maxCut, maxKColorableSubgraph as color_module
from qrisp.algorithms.qaoa.qaoa_benchmark_data import QAOABenchmark
from qrisp.jasp import make_jaspr

TOL = 2e-4


def bits(v, n):
    return "".join(str((v >> i) & 1) for i in range(n))


def graph(py, n):
    g = nx.Graph()
    g.add_nodes_from(range(n))
    prob = py.choice([0.0, 0.3, 0.6, 1.0]) if py.random() < 0.8 else 0.5
    edges = [e for e in itertools.combinations(range(n), 2) if py.random() < prob]
    py.shuffle(edges)
    g.add_edges_from([e if py.random() < 0.5 else e[::-1] for e in edges])
    return g


class Problem:
    """text, number of bits, library problem, cost(str), feasible(str) or None, phase(str) in units of gamma, rx scale"""

    def __init__(self, kind, text, n, make, cost, feasible, phase, mixer, start):
        self.kind, self.text, self.n, self.make = kind, text, n, make
        self.cost, self.feasible, self.phase, self.mixer, self.start = cost, feasible, phase, mixer, start


def rotation(name, n, angle):
    u = np.eye(2**n, dtype=complex)
    for i in range(n):
        u = D.lift(D.one(name, angle), [i], n) @ u
    return u


def conditional_rx(n, beta, allowed):
    """bit i is rotated when the other bits allow it, one bit after the other"""
    u = np.eye(2**n, dtype=complex)
    r = D.one("rx", beta)
    for i in range(n):
        m = np.eye(2**n, dtype=complex)
        for v in range(2**n):
            if not (v >> i) & 1 and allowed(bits(v, n), i):
                idx = [v, v | (1 << i)]
                m[np.ix_(idx, idx)] = r
        u = m @ u
    return u


def independent(g):
    return lambda s: not any(s[a] == "1" and s[b] == "1" for a, b in g.edges())


def make_problem(py, kind=None, n=None):
    kind = kind or py.choice(["maxcut", "qubo", "maxsat", "e3lin2", "indep", "clique", "packing", "cover"])
    n = n or py.randint(2, 5)
    uniform = np.ones(2**n) / 2 ** (n / 2)
    zero = np.eye(2**n)[0]
    rxm = lambda beta: rotation("rx", n, 2 * beta)
    if kind == "maxcut":
        g = graph(py, n)
        cost = lambda s: -sum(s[a] != s[b] for a, b in g.edges())
        return Problem(kind, f"maxcut n={n} edges={list(g.edges())}", n, lambda: qaoa.maxcut_problem(g), cost, None, lambda s: -2 * cost(s), rxm, uniform)
    if kind == "qubo":
        q = np.array([[round(py.uniform(-2, 2), 2) if py.random() < 0.8 else 0.0 for _ in range(n)] for _ in range(n)])
        if py.random() < 0.4:
            q = (q + q.T) / 2
        if py.random() < 0.3:
            q = np.round(q * 2).astype(int)
        if not np.any(q):
            q[0, 0] = 1
        cost = lambda s: float(sum(q[i][j] * int(s[i]) * int(s[j]) for i in range(n) for j in range(n)))
        scale = 1 / math.sqrt(np.linalg.norm(q))
        return Problem(kind, f"qubo {q.tolist()}", n, lambda: qaoa.QUBO_problem(q), cost, None, lambda s: -scale * cost(s), rxm, uniform)
    if kind == "maxsat":
        clauses = []
        for _ in range(py.randint(1, 4)):
            k = py.randint(1, min(3, n))
            clauses.append([py.choice([1, -1]) * (i + 1) for i in py.sample(range(n), k)])
        sat = lambda s: sum(any((s[abs(l) - 1] == "1") == (l > 0) for l in c) for c in clauses)
        return Problem(kind, f"maxsat n={n} {clauses}", n, lambda: qaoa.maxsat_problem((n, clauses)), lambda s: -sat(s), None, lambda s: -sat(s), rxm, uniform)
    if kind == "e3lin2":
        n = max(3, n)
        clauses = [py.sample(range(n), 3) + [py.randint(0, 1)] for _ in range(py.randint(1, 4))]
        sat = lambda s: sum(sum(int(s[i]) for i in c[:3]) % 2 == c[3] for c in clauses)
        return Problem(kind, f"e3lin2 n={n} {clauses}", n, lambda: qaoa.e3lin2_problem(clauses), lambda s: -sat(s), None, lambda s: -sat(s), lambda beta: rotation("rx", n, 2 * beta), np.ones(2**n) / 2 ** (n / 2))
    weight = lambda s: s.count("1")
    if kind in ("indep", "clique", "packing"):
        if kind == "packing":
            uni = range(py.randint(2, 6))
            sets = [set(py.sample(uni, py.randint(1, min(3, len(uni))))) for _ in range(n)]
            g = nx.Graph()
            g.add_nodes_from(range(n))
            g.add_edges_from([(i, j) for i, j in itertools.combinations(range(n), 2) if sets[i] & sets[j]])
            text, make = f"packing {sets}", (lambda: qaoa.max_set_packing_problem(sets))
        elif kind == "clique":
            g0 = graph(py, n)
            g = nx.complement(g0)
            text, make = f"clique n={n} {list(g0.edges())}", (lambda: qaoa.max_clique_problem(g0))
        else:
            g = graph(py, n)
            text, make = f"indep n={n} {list(g.edges())}", (lambda: qaoa.max_indep_set_problem(g))
        ok = independent(g)
        allowed = lambda s, i: all(s[j] == "0" for j in g.adj[i])
        return Problem(kind, text, n, make, lambda s: -weight(s) if ok(s) else 0, ok, lambda s: -weight(s), lambda beta: conditional_rx(n, beta, allowed), zero)
    uni = list(range(py.randint(1, 4)))
    sets = [set(py.sample(uni, py.randint(1, len(uni)))) for _ in range(n)]
    for e in uni:
        if not any(e in s for s in sets):
            py.choice(sets).add(e)
    universe = set(uni)
    covers = lambda s: set().union(*[sets[i] for i in range(n) if s[i] == "1"]) == universe
    allowed = lambda s, i: all(any(s[j] == "1" and e in sets[j] for j in range(n) if j != i) for e in sets[i])
    return Problem("cover", f"cover {sets}", n, lambda: qaoa.min_set_cover_problem(sets, universe), lambda s: weight(s) if covers(s) else n, covers, lambda s: -weight(s), lambda beta: conditional_rx(n, beta, allowed), np.eye(2**n)[-1])


def separator(prob, gamma):
    return np.exp(1j * gamma * np.array([prob.phase(bits(v, prob.n)) for v in range(2**prob.n)]))


def angle(py):
    return round(py.uniform(-2, 2), 3)


def apply_to(ctx, n, psi, program, what):
    qv = QuantumVariable(n)
    program(qv)
    return D.run(qv.qs.copy(), list(qv), psi, what)


def case_cost(ctx):
    py = ctx.py
    prob = make_problem(py)
    gamma = angle(py)
    ctx.last = dict(problem=prob.text, gamma=gamma)
    pr = prob.make()
    psi = D.random_state(ctx.rng, prob.n)
    out = apply_to(ctx, prob.n, psi, lambda qv: pr.cost_operator(qv, gamma), "phase separator")
    ref = separator(prob, gamma) * psi
    d = D.phase_distance(out, ref)
    ctx.require(d < TOL, "the phase separator is not diagonal with phases proportional to the cost", detail=dict(distance=d, kind=prob.kind))
    ctx.observe("cost", key=(prob.text, gamma))


def counts(py, n, kind):
    k = py.randint(1, min(8, 2**n))
    keys = py.sample(range(2**n), k) if n <= 20 else [py.getrandbits(n) for _ in range(k)]
    w = np.array([py.random() + 0.01 for _ in keys])
    if kind == "prob":
        w = w / w.sum()
        vals = [float(a) for a in w]
    else:
        vals = [py.randint(1, 500) for _ in keys]
    return {bits(a, n): b for a, b in zip(keys, vals)}


def case_classical(ctx):
    py = ctx.py
    n = py.choice([2, 3, 4, 5, 6, 8])
    prob = make_problem(py, n=n)
    if prob.kind == "maxcut" and py.random() < 0.3:
        n = py.choice([31, 32, 33, 40, 60])
        g = nx.Graph()
        g.add_nodes_from(range(n))
        g.add_edges_from([tuple(py.sample(range(n), 2)) for _ in range(2 * n)])
        prob = Problem("maxcut", f"maxcut n={n}", n, lambda: qaoa.maxcut_problem(g), lambda s: -sum(s[a] != s[b] for a, b in g.edges()), None, None, None, None)
    c = counts(py, prob.n, py.choice(["prob", "prob", "int"]) if prob.kind == "qubo" else "prob")
    ctx.last = dict(problem=prob.text, counts={k: round(v, 4) for k, v in c.items()})
    before = dict(c)
    got = float(prob.make().cl_cost_function(c))
    ref = sum(prob.cost(s) * w for s, w in c.items())
    ctx.require(abs(got - ref) < 1e-6 * (1 + abs(ref)), "the classical cost is not the average cost of the outcomes", detail=dict(got=got, expected=ref, kind=prob.kind))
    ctx.require(c == before, "the classical cost function altered the outcomes")
    if prob.kind == "maxcut" and prob.n <= 8:
        s = bits(py.getrandbits(prob.n), prob.n)
        if prob.make and "edges=[]" not in prob.text:
            g = nx.Graph()
            g.add_nodes_from(range(prob.n))
            edges = eval(prob.text.split("edges=")[1])
            g.add_edges_from(edges)
            ctx.require(int(maxCut.maxcut_obj(s, g)) == prob.cost(s), "wrong cut size of a bit string", detail=dict(s=s))
    if prob.kind == "clique":
        edges = eval(prob.text.split(" ", 2)[2])
        g = nx.Graph()
        g.add_nodes_from(range(prob.n))
        g.add_edges_from(edges)
        got = float(qaoa.create_max_clique_cl_cost_function(g)(c)) if hasattr(qaoa, "create_max_clique_cl_cost_function") else ref
        ctx.require(abs(got - ref) < 1e-6 * (1 + abs(ref)), "the classical clique cost is not the average cost of the outcomes", detail=dict(got=got, expected=ref))
    ctx.observe("classical", key=(prob.text, tuple(sorted(c))))


def xxyy_matrix(beta):
    m = np.eye(4, dtype=complex)
    m[1, 1] = m[2, 2] = math.cos(beta)
    m[1, 2] = m[2, 1] = -1j * math.sin(beta)
    return m


def case_mixer(ctx):
    py = ctx.py
    n = py.randint(2, 5)
    beta = angle(py)
    kind = py.choice(["rx", "ry", "rz", "xy", "grover", "constrained", "controlled", "problem", "array"])
    psi = D.random_state(ctx.rng, n)
    text = kind
    if kind in ("rx", "ry"):
        f = lambda qv: getattr(qaoa, kind.upper() + "_mixer")(qv, beta)
        u = rotation(kind, n, 2 * beta)
    elif kind == "rz":
        f = lambda qv: qaoa.RZ_mixer(qv, beta)
        u = rotation("rz", n, -beta)
    elif kind == "xy":
        f = lambda qv: qaoa.XY_mixer(qv, beta)
        u = np.eye(2**n, dtype=complex)
        pairs = [(i, i + 1) for i in range(0, n - 1, 2)] + [(i, i + 1) for i in range(1, n - 1, 2)] + [(n - 1, 0)]
        for a, b in pairs:
            u = D.lift(xxyy_matrix(2 * beta), [a, b], n) @ u
    elif kind == "grover":
        f = lambda qv: qaoa.grover_mixer(qv, beta)
        s = np.ones(2**n) / 2 ** (n / 2)
        u = np.eye(2**n) + (np.exp(1j * beta) - 1) * np.outer(s, s)
    elif kind in ("constrained", "array"):
        if kind == "array" and n % 2:
            n += 1
            psi = D.random_state(ctx.rng, n)
        a, b = py.sample(range(n), 2)
        rule = py.choice(["differ", "both", "equal"])
        text = f"{kind} {rule} {a} {b}"

        @auto_uncompute
        def oracle(qarg, phase):
            reg = list(qarg) if isinstance(qarg, QuantumVariable) else sum([list(v) for v in qarg.flatten()], [])
            flag = QuantumBool()
            if rule == "both":
                mcx([reg[a], reg[b]], flag)
            else:
                cx(reg[a], flag)
                cx(reg[b], flag)
                if rule == "equal":
                    x(flag)
            p(phase, flag)

        ok = {"both": lambda v: (v >> a) & (v >> b) & 1, "differ": lambda v: ((v >> a) ^ (v >> b)) & 1, "equal": lambda v: 1 - (((v >> a) ^ (v >> b)) & 1)}[rule]
        good = np.array([ok(v) for v in range(2**n)], dtype=float)
        mixer = qaoa.constrained_mixer_gen(oracle, lambda q: int(good.sum()))
        f = lambda qv: mixer(qv, beta)
        s = good / np.linalg.norm(good)
        u = np.eye(2**n) + (np.exp(1j * beta) - 1) * np.outer(s, s)
    elif kind == "controlled":
        offs = py.randint(1, n - 1)
        want = py.randint(0, 1)
        text = f"controlled offset {offs} value {want}"

        def predicate(qv, i):
            flag = QuantumBool()
            cx(qv[(i + offs) % n], flag)
            if not want:
                x(flag)
            return flag

        mixer = qaoa.controlled_RX_mixer_gen(predicate)
        f = lambda qv: mixer(qv, beta)
        u = conditional_rx(n, beta, lambda s, i: int(s[(i + offs) % n]) == want)
    else:
        prob = make_problem(py, n=min(n, 4))
        n = prob.n
        psi = D.random_state(ctx.rng, n)
        text = prob.text
        mix = prob.make().mixer
        f = lambda qv: mix(qv, beta)
        u = prob.mixer(beta)
    ctx.last = dict(mixer=text, n=n, beta=beta)
    if kind == "array":
        qa = QuantumArray(qtype=QuantumVariable(n // 2), shape=(2,))
        f(qa)
        out = D.run(qa[0].qs.copy(), list(qa[0]) + list(qa[1]), psi, "mixer")
    else:
        out = apply_to(ctx, n, psi, f, "mixer")
    d = D.phase_distance(out, u @ psi)
    ctx.require(d < 1e-3, "the mixer does not act as documented", detail=dict(distance=d))
    ctx.observe("mixer", key=(text, n, beta))


def case_feasible(ctx):
    py = ctx.py
    prob = make_problem(py, kind=py.choice(["indep", "clique", "packing", "cover", "cover"]))
    depth = py.randint(1, 3)
    th = [(angle(py), angle(py)) for _ in range(depth)]
    ctx.last = dict(problem=prob.text, angles=th)
    pr = prob.make()

    def program(qv):
        pr.init_function(qv)
        for g, b in th:
            pr.cost_operator(qv, g)
            pr.mixer(qv, b)

    out = apply_to(ctx, prob.n, None, program, "feasible layers")
    bad = sum(abs(out[v]) ** 2 for v in range(2**prob.n) if not prob.feasible(bits(v, prob.n)))
    ctx.require(bad < 1e-6, "the mixer leaves the set of feasible solutions", detail=dict(probability=float(bad), kind=prob.kind))
    ctx.observe("feasible", key=(prob.text, tuple(th)))


def start_state(prob, init_type):
    if prob.kind in ("indep", "clique", "packing", "cover"):
        return prob.start
    if init_type == "tqa":
        return np.array([(-1) ** bin(v).count("1") for v in range(2**prob.n)]) / 2 ** (prob.n / 2)
    return prob.start


def ansatz_state(prob, theta, depth, init_type):
    psi = start_state(prob, init_type).astype(complex)
    for i in range(depth):
        psi = separator(prob, theta[i]) * psi
        psi = prob.mixer(theta[depth + i]) @ psi
    return psi


def case_ansatz(ctx):
    py = ctx.py
    prob = make_problem(py, n=py.randint(2, 4))
    depth = py.randint(1, 3)
    init_type = py.choice(["random", "tqa"])
    theta = [angle(py) for _ in range(2 * depth)]
    ctx.last = dict(problem=prob.text, depth=depth, init=init_type, theta=theta)
    qv = QuantumVariable(prob.n)
    before = len(qv.qs.data)
    qc, symbols = prob.make().compile_circuit(qv, depth, init_type)
    ctx.require(len(qv.qs.data) == before, "compiling the ansatz left instructions behind in the session")
    ctx.require(len(symbols) == 2 * depth, "wrong number of parameters of the compiled ansatz", detail=dict(symbols=[str(s) for s in symbols]))
    bound = qc.bind_parameters({s: t for s, t in zip(symbols, theta)})
    out = D.run(bound, list(qv), None, "compiled ansatz", clean=False) if len(bound.qubits) == prob.n else D.run(bound, list(qv), None, "compiled ansatz")
    ref = ansatz_state(prob, theta, depth, init_type)
    d = D.phase_distance(out, ref)
    ctx.require(d < 1e-3, "the compiled ansatz with bound parameters prepares another state", detail=dict(distance=d))
    ctx.observe("ansatz", key=(prob.text, depth, tuple(theta)))


class Recorder:
    """stands in for the classical optimiser: evaluates the cost at chosen points and returns the last one"""

    def __init__(self, points):
        self.points, self.values, self.start, self.options = points, [], None, None

    def __call__(self, fun, x0, args=(), **kw):
        self.start, self.options = np.array(x0), kw
        for q in self.points:
            self.values.append(float(fun(np.array(q), *args)))
        return OptimizeResult(x=np.array(self.points[-1]), fun=self.values[-1], success=True)


def case_run(ctx):
    py = ctx.py
    prob = make_problem(py, n=py.randint(2, 4))
    depth = py.randint(1, 2)
    init_type = py.choice(["random", "tqa"])
    points = [[angle(py) for _ in range(2 * depth)] for _ in range(2)]
    start = [angle(py) for _ in range(2 * depth)] if py.random() < 0.6 else None
    mode = py.choice(["run", "run", "train"])
    ctx.last = dict(problem=prob.text, depth=depth, init=init_type, points=points, mode=mode)
    rec = Recorder(points)
    # shots given as None lets the simulator return exact probabilities
    kwargs = {"shots": None}
    options = {"disp": False}
    exact = py.random() < 0.8
    if not exact:
        kwargs = {}
    k0, o0 = dict(kwargs), dict(options)
    pr = prob.make()
    if py.random() < 0.5:
        pr.set_callback()
    arg = QuantumVariable(prob.n) if py.random() < 0.5 else (lambda: QuantumVariable(prob.n))
    method = pr.run if mode == "run" else pr.train_function
    res = method(arg, depth, mes_kwargs=kwargs, max_iter=7, init_type=init_type, init_point=start, optimizer=rec, options=options)
    tol = 1e-3 if exact else 0.12
    worst = prob.cost
    for pt, v in zip(points, rec.values):
        psi = ansatz_state(prob, pt, depth, init_type)
        probs = np.abs(psi) ** 2
        ref = sum(prob.cost(bits(i, prob.n)) * probs[i] for i in range(len(probs)))
        scale = max(1, max(abs(worst(bits(i, prob.n))) for i in range(len(probs))))
        ctx.require(abs(v - ref) < tol * scale, "the cost handed to the optimiser is not the expected cost of the ansatz", detail=dict(got=v, expected=ref))
    if start is not None:
        ctx.require(np.allclose(rec.start, start), "the optimiser did not start at the given point", detail=dict(got=rec.start.tolist()))
    psi = ansatz_state(prob, points[-1], depth, init_type)
    if mode == "run":
        for s, w in res.items():
            ref = abs(psi[sum(int(b) << i for i, b in enumerate(s))]) ** 2
            ctx.require(abs(w - ref) < (2e-4 if exact else 0.06), "the reported outcome probability is not the one of the optimised ansatz", detail=dict(outcome=s, got=w, expected=ref))
        ctx.require(abs(sum(res.values()) - 1) < 1e-3, "the reported outcome probabilities do not add up")
    else:
        out = apply_to(ctx, prob.n, None, res, "trained circuit")
        d = D.phase_distance(out, psi)
        ctx.require(d < 1e-3, "the trained circuit does not prepare the optimised state", detail=dict(distance=d))
    if pr.callback and mode == "run":
        ctx.require(np.allclose(pr.optimization_costs[-len(rec.values):], rec.values), "the recorded costs differ from those handed to the optimiser")
    ctx.require(kwargs == k0 and options == o0, "the caller's keyword arguments were altered", detail=dict(mes_kwargs=str(kwargs), options=str(options)))
    ctx.observe("run", key=(prob.text, depth, mode, str(points)))


def case_colors(ctx):
    py = ctx.py
    k = py.choice([2, 3, 4])
    colors = ["red", "green", "blue", "grey"][:k]
    py.shuffle(colors)
    one_hot = py.random() < 0.6 or k == 3 and py.random() < 0.5
    nodes = 2 if one_hot and k == 4 else py.randint(2, 3)
    g = graph(py, nodes)
    mode = py.choice(["phase", "mixer", "encode", "classical", "start"])
    ctx.last = dict(colors=colors, one_hot=one_hot, nodes=nodes, edges=list(g.edges()), mode=mode)
    pr = qaoa.graph_coloring_problem(g)
    qa = QuantumArray(qtype=qaoa.QuantumColor(colors, one_hot_enc=one_hot), shape=nodes)
    size = k if one_hot else max(1, math.ceil(math.log2(k)))
    code = lambda c: 1 << colors.index(c) if one_hot else colors.index(c)
    everything = list(itertools.product(colors, repeat=nodes))
    if mode == "classical":
        w = {c: py.random() for c in py.sample(everything, py.randint(1, len(everything)))}
        tot = sum(w.values())
        w = {c: v / tot for c, v in w.items()}
        got = pr.cl_cost_function(w)
        ref = sum(-(4 ** sum(c[a] != c[b] for a, b in g.edges())) * v for c, v in w.items())
        ctx.require(abs(got - ref) < 1e-6 * (1 + abs(ref)), "the classical cost of colourings is not the documented average", detail=dict(got=got, expected=ref))
        ctx.observe("colors", key=str(ctx.last) + str(len(w)))
        return
    if mode == "start":
        qaoa.initial_state_mkcs(qa)
        res = qa.get_measurement()
        ctx.require(len(res) == 1, "the start state is not a single colouring", detail=dict(got=str(res)))
        c = list(list(res)[0])
        ctx.require(all(a in colors for a in c), "the start state is not a colouring", detail=dict(got=str(c)))
        ctx.observe("colors", key=str(ctx.last))
        return
    chosen = py.choice(everything)
    ctx.last["chosen"] = chosen
    if mode == "encode":
        qa[:] = list(chosen)
        res = qa.get_measurement()
        ctx.require(len(res) == 1 and tuple(list(res)[0]) == chosen, "an encoded colouring is not read back", detail=dict(got=str(res)))
        if not one_hot and k == 3:
            h(qa[0])
            res = qa[0].get_measurement()
            ctx.require(abs(sum(res.values()) - 1) < 1e-3, "reading a colour in superposition loses probability", detail=dict(got=str(res)))
        ctx.observe("colors", key=str(ctx.last))
        return
    regs = [list(v) for v in qa.flatten()]
    vals = py.sample(everything, min(len(everything), 12))
    amps = ctx.rng.normal(size=len(vals)) + 1j * ctx.rng.normal(size=len(vals))
    amps /= np.linalg.norm(amps)
    ang = angle(py)
    if mode == "phase":
        pr.cost_operator(qa, ang)
        qrisp.merge(*[v.qs for v in qa.flatten()])
        qc = qa.flatten()[0].qs.copy()
        got = Q.amplitudes(qc, regs, Q.rows_for(qc, regs, [tuple(code(c) for c in v) for v in vals], amps), what="colouring phases")
        ref = {tuple(code(c) for c in v): a * np.exp(2j * ang * sum(v[i] == v[j] for i, j in g.edges())) for v, a in zip(vals, amps)}
        ctx.require(Q.amp_diff(got, ref) < TOL, "the phase separator does not mark edges of equal colour")
    else:
        if not one_hot:
            raise Skip("the mixer of this problem is meant for one-hot colours")
        pr.mixer(qa, ang)
        qrisp.merge(*[v.qs for v in qa.flatten()])
        qc = qa.flatten()[0].qs.copy()
        got = Q.amplitudes(qc, regs, Q.rows_for(qc, regs, [tuple(code(c) for c in v) for v in vals], amps), what="colouring mixer")
        bad = sum(abs(a) ** 2 for v, a in got.items() if any(bin(b).count("1") != 1 for b in v))
        ctx.require(bad < 1e-6, "the mixer leaves the set of colourings", detail=dict(probability=float(bad)))
    ctx.observe("colors", key=str(ctx.last) + str(ang))


def case_qubo(ctx):
    py = ctx.py
    prob = make_problem(py, kind="qubo", n=py.randint(2, 4))
    q = np.array(eval(prob.text.split(" ", 1)[1]))
    ctx.last = dict(problem=prob.text)
    res = qaoa.solve_QUBO(q, depth=1, shots=py.choice([500, 1000]), max_iter=3)
    ctx.require(len(res) > 0, "no solutions")
    last = -math.inf
    tot = 0
    for cost, key, w in res:
        s = "".join(str(b) for b in key)
        ctx.require(abs(cost - prob.cost(s)) < 1e-6, "a solution is listed with the wrong cost", detail=dict(solution=s, got=float(cost), expected=prob.cost(s)))
        ctx.require(cost >= last - 1e-9, "the solutions are not listed by increasing cost")
        last = cost
        tot += w
    ctx.require(abs(tot - 1) < 1e-3, "the probabilities of the listed solutions do not add up", detail=dict(total=tot))
    ctx.observe("qubo", key=prob.text)


def case_benchmark(ctx):
    py = ctx.py
    prob = make_problem(py, n=3, kind=py.choice(["maxcut", "maxsat"]))
    costs = {bits(v, 3): prob.cost(bits(v, 3)) for v in range(8)}
    best = min(costs, key=costs.get)
    if costs[best] == 0:
        raise Skip("no cost")
    ctx.last = dict(problem=prob.text)
    if py.random() < 0.25:
        pr = prob.make()
        depths, shots, iters = [1], py.sample([100, 200], 2), [2]
        kw = {}
        data = pr.benchmark(QuantumVariable(3), depths, shots, iters, best, repetitions=1, mes_kwargs=kw, init_type=py.choice(["random", "tqa"]))
        ctx.require(kw == {}, "the caller's keyword arguments were altered")
        ctx.require([(a, b, c) for a, b, c in zip(data.layer_depth, data.shots, data.iterations)] == list(itertools.product(depths, shots, iters)), "the benchmark does not list one run per configuration")
        runs = data.counts
        qc = data.circuit_depth, data.qubit_amount
    else:
        m = py.randint(1, 4)
        runs = [counts(py, 3, "prob") for _ in range(m)]
        dd = dict(layer_depth=[py.randint(1, 2) for _ in range(m)], circuit_depth=[py.randint(3, 9) for _ in range(m)], qubit_amount=[3] * m, shots=[py.choice([100, 200]) for _ in range(m)], iterations=[py.choice([5, 10]) for _ in range(m)], counts=runs, runtime=[0.1] * m, cl_cost=[])
        data = QAOABenchmark(dd, best, prob.make().cl_cost_function)
    cost, gain = data.evaluate()
    m = len(runs)
    ratio = [sum(costs[s] * w for s, w in r.items()) / costs[best] for r in runs]
    for i in range(m):
        ctx.require(abs(gain[i] - ratio[i]) < 1e-6, "wrong approximation ratio", detail=dict(got=gain[i], expected=ratio[i]))
        vol = data.circuit_depth[i] * data.qubit_amount[i] * data.shots[i] * data.iterations[i]
        ctx.require(abs(cost[i] - vol) < 1e-6 * vol, "wrong overall quantum volume", detail=dict(got=cost[i], expected=vol))
    ranked = data.rank()
    ctx.require(np.allclose([r["metric"] for r in ranked], sorted(ratio, reverse=True), atol=1e-6), "runs are not ranked by approximation ratio")
    avg = {}
    for i in range(m):
        avg.setdefault((data.layer_depth[i], data.shots[i], data.iterations[i]), []).append(ratio[i])
    want = sorted([(float(np.mean(v))) for v in avg.values()], reverse=True)
    got = [float(r["metric"]) for r in data.rank(average_repetitions=True)]
    ctx.require(len(got) == len(want) and np.allclose(got, want, atol=1e-6), "repetitions are not averaged per configuration", detail=dict(got=got, expected=want))
    again = data.rank()
    ctx.require(np.allclose([r["metric"] for r in again], [r["metric"] for r in ranked], atol=1e-9), "ranking twice gives different orders")
    ctx.observe("benchmark", key=str(ctx.last) + str(ratio))


def case_vqe(ctx):
    from qrisp.vqe import VQEProblem
    from qrisp.operators import X, Y, Z

    py = ctx.py
    n = py.randint(1, 3)
    terms = []
    for _ in range(py.randint(1, 4)):
        support = py.sample(range(n), py.randint(1, n))
        terms.append((round(py.uniform(-1, 1), 3), {i: py.choice("XYZ") for i in support}))
    op = 0
    for c, t in terms:
        o = 1
        for i, s in t.items():
            o = o * {"X": X, "Y": Y, "Z": Z}[s](i)
        op = op + c * o
    ham = sum(c * R.string({n - 1 - i: s for i, s in t.items()}, n) for c, t in terms)
    wide = py.random() < 0.15
    depth = 12 if wide else py.randint(1, 3)
    per = 12 if wide else py.randint(1, 3)
    layout = [(py.choice(["ry", "rx", "rz"]), py.randrange(n)) for _ in range(per)]
    pair = py.sample(range(n), 2) if n > 1 else None
    style = py.choice(["index", "iterate"])
    point = [angle(py) for _ in range(depth * per)]
    ctx.last = dict(terms=str(terms), depth=depth, per=per, layout=layout, pair=pair, style=style)

    def ansatz(qv, theta):
        if style == "iterate":
            for j, t in enumerate(theta):
                g, q = layout[j % per]
                getattr(qrisp, g)(t, qv[q])
        else:
            for j in range(per):
                g, q = layout[j]
                getattr(qrisp, g)(theta[j], qv[q])
        if pair:
            cx(qv[pair[0]], qv[pair[1]])

    with_init = py.random() < 0.5
    init = (lambda qv: h(qv)) if with_init else None
    gates = [("h", None, [q]) for q in range(n)] if with_init else []
    for l in range(depth):
        gates += [(g, point[l * per + j], [q]) for j, (g, q) in enumerate(layout)]
        if pair:
            gates.append(("cx", None, pair))
    ref = D.matrix(gates, n)[:, 0]
    pr = VQEProblem(op, ansatz, per, init_function=init)
    mode = py.choice(["compile", "train", "run"])
    ctx.last["mode"] = mode
    if mode == "compile":
        qv = QuantumVariable(n)
        qc, symbols = pr.compile_circuit(qv, depth)
        ctx.require(len(qv.qs.data) == 0 or all(i.op.name == "qb_alloc" for i in qv.qs.data), "compiling the ansatz left instructions behind in the session")
        ctx.require(len(set(symbols)) == depth * per, "parameters of different layers share a symbol", detail=dict(distinct=len(set(symbols)), expected=depth * per))
        bound = qc.bind_parameters({s: t for s, t in zip(symbols, point)})
        out = D.run(bound, list(qv), None, "compiled ansatz")
        d = D.phase_distance(out, ref)
        ctx.require(d < 1e-3, "the compiled ansatz with bound parameters prepares another state", detail=dict(distance=d))
        ctx.observe("vqe", key=str(ctx.last))
        return
    rec = Recorder([point])
    kw, opts = {}, {"disp": False}
    k0, o0 = dict(kw), dict(opts)
    fn = pr.train_function if mode == "train" else pr.run
    arg = QuantumVariable(n) if py.random() < 0.5 else (lambda: QuantumVariable(n))
    res = fn(arg, depth, mes_kwargs=kw, max_iter=3, init_point=[0.1] * (depth * per), optimizer=rec, options=opts)
    e = float(np.real(np.vdot(ref, ham @ ref)))
    ctx.require(abs(rec.values[0] - e) < 0.15, "the energy handed to the optimiser is not the expectation value of the ansatz state", detail=dict(got=rec.values[0], expected=e))
    if mode == "run":
        ctx.require(abs(float(res) - rec.values[0]) < 1e-6, "the reported energy is not the optimised one", detail=dict(got=float(res), expected=rec.values[0]))
    else:
        out = apply_to(ctx, n, None, res, "trained circuit")
        d = D.phase_distance(out, ref)
        ctx.require(d < 1e-3, "the trained circuit does not prepare the optimised state", detail=dict(distance=d))
    ctx.require(kw == k0 and opts == o0, "the caller's keyword arguments were altered", detail=dict(mes_kwargs=str(kw), options=str(opts)))
    ctx.observe("vqe", key=str(ctx.last) + str(point))


def case_qite(ctx):
    from qrisp.qite import QITE

    py = ctx.py
    n = py.randint(1, 2)
    traced = py.random() < 0.4
    method = py.choice(["GC", "HOPF"])
    k = py.randint(0, 2 if method == "GC" or not traced else 1)
    s = [round(py.uniform(0.01, 1.0), 3) for _ in range(max(1, k))]
    prep = [(g, round(py.uniform(-2, 2), 3), [q]) for q in range(n) for g in py.sample(["ry", "rx"], 1)]
    coef = [round(py.uniform(-1, 1), 3) for _ in range(n)]
    ctx.last = dict(n=n, method=method, k=k, s=s, prep=str(prep), coef=coef, traced=traced)
    # exp(-itH) for the diagonal H = sum_i c_i Z_i, followed by a coupling when there are two qubits
    hm = np.zeros((2**n, 2**n), dtype=complex)
    for i, c in enumerate(coef):
        hm += c * np.diag([1 - 2 * ((v >> i) & 1) for v in range(2**n)])

    def exp_h(qarg, t):
        for i, c in enumerate(coef):
            rz(2 * t * c, qarg[i])

    def u0(qarg):
        D.apply(prep, [qarg[i] for i in range(n)])

    ex = lambda t: scipy.linalg.expm(-1j * t * hm)
    u = D.matrix(prep, n)
    phi = (math.sqrt(5) - 1) / 2
    for j in range(k):
        r = math.sqrt(s[j])
        w = u[:, :1] @ u[:, :1].conj().T
        om = lambda t: np.eye(2**n) + (np.exp(1j * t) - 1) * w
        if method == "GC":
            u = ex(-r) @ om(r) @ ex(r) @ u
        else:
            u = ex(-phi * r) @ om(phi * r) @ ex(r) @ om(-(1 + phi) * r) @ ex(-(1 - phi) * r) @ u
    if traced:
        import jax.numpy as jnp

        def main():
            qv = QuantumVariable(n)
            QITE(qv, u0, exp_h, jnp.array(s), k, method=method)
            return qv

        res = make_jaspr(main)().to_qc()
        reg = [list(v) for v in res[:-1] if isinstance(v, (list, tuple))][0]
        out = D.run(res[-1], reg, None, "traced imaginary time evolution")
    else:
        qv = QuantumVariable(n)
        QITE(qv, u0, exp_h, s, k, method=method)
        out = D.run(qv.qs.copy(), list(qv), None, "imaginary time evolution")
    d = D.phase_distance(out, u[:, 0])
    ctx.require(d < 1e-3, "the evolution is not the documented product of exponentials and reflections", detail=dict(distance=d))
    ctx.observe("qite", key=str(ctx.last))


def case_traced(ctx):
    py = ctx.py
    mode = py.choice(["ansatz", "post", "post"])
    if mode == "post":
        import jax.numpy as jnp

        n = py.randint(2, 8)
        g = graph(py, n)
        arr = np.array([py.getrandbits(n) for _ in range(py.randint(1, 20))])
        ctx.last = dict(n=n, edges=list(g.edges()), samples=arr.tolist())
        got = float(maxCut.create_maxcut_sample_array_post_processor(g)(jnp.array(arr)))
        ref = float(np.mean([-sum(bits(int(v), n)[a] != bits(int(v), n)[b] for a, b in g.edges()) for v in arr]))
        ctx.require(abs(got - ref) < 1e-4, "the average cut of a sample array is wrong", detail=dict(got=got, expected=ref))
        ctx.observe("traced", key=str(ctx.last))
        return
    kind = py.choice(["maxcut", "qubo", "e3lin2"])
    prob = make_problem(py, kind=kind, n=py.randint(2, 4))
    depth = py.randint(1, 2)
    theta = [angle(py) for _ in range(2 * depth)]
    mixer_name = py.choice(["rx", "xy"])
    ctx.last = dict(problem=prob.text, theta=theta, mixer=mixer_name)
    pr = prob.make()
    n = prob.n

    def main(*th):
        qv = QuantumVariable(n)
        h(qv)
        for i in range(depth):
            pr.cost_operator(qv, th[i])
            (qaoa.RX_mixer if mixer_name == "rx" else qaoa.XY_mixer)(qv, th[depth + i])
        return qv

    res = make_jaspr(main)(*[0.1] * (2 * depth)).to_qc(*theta)
    reg = [list(v) for v in res[:-1] if isinstance(v, (list, tuple))][0]
    out = D.run(res[-1], reg, None, "traced ansatz")
    psi = np.ones(2**n, dtype=complex) / 2 ** (n / 2)
    for i in range(depth):
        psi = separator(prob, theta[i]) * psi
        b = theta[depth + i]
        if mixer_name == "rx":
            psi = rotation("rx", n, 2 * b) @ psi
        else:
            for a, c in [(j, j + 1) for j in range(0, n - 1, 2)] + [(j, j + 1) for j in range(1, n - 1, 2)] + [(n - 1, 0)]:
                psi = D.lift(xxyy_matrix(2 * b), [a, c], n) @ psi
    d = D.phase_distance(out, psi)
    ctx.require(d < 1e-3, "the traced ansatz prepares another state", detail=dict(distance=d))
    ctx.observe("traced", key=str(ctx.last))


FAMILIES = {k[5:]: v for k, v in list(globals().items()) if k.startswith("case_")}
