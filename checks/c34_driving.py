PROPERTY = "C34"
RULE = "one evaluation = one driven evolution, objective, coefficient vector or solved instance of counterdiabatic driving compared with dense evolution, dense minimisation of the action and the cost function; distinct = distinct (form, operators, schedule, steps)"
PLAN = {
    "quick": {"local": 120, "optimised": 120, "compiled": 40, "objective": 24, "coefficients": 200, "instances": 60, "solve": 60, "solve_optimised": 12, "statistics": 60},
    "thorough": {"local": 1500, "optimised": 1500, "compiled": 400, "objective": 240, "coefficients": 3000, "instances": 600, "solve": 600, "solve_optimised": 100, "statistics": 600},
}
REQUIRED_MONITORS = ["local", "optimised", "compiled", "objective", "coefficients", "instances", "solve", "solve_optimised", "statistics"]
ASSUMPTIONS = [
    "operators handed over by the user consist of commuting terms, so that every single evolution has one exact meaning; terms of predefined gauge potentials that do not commute are evolved by the operator's own product formula, which another property covers",
    "the sign of the gauge coefficients belongs to the evolution with the initial Hamiltonian of the predefined instances",
    "cost matrices are symmetric, as documented",
]
CASE_TIMEOUT = 300
HEAVY = ["objective", "solve_optimised"]
# --- end of plan ---
import math

import numpy as np
import sympy as sp

from vlib import dense as D
from vlib.harness import Skip

import qrisp
from qrisp import QuantumVariable
from qrisp.algorithms import cold as C
from qrisp.algorithms.cold import DCQOProblem, create_COLD_instance, create_LCD_instance, solve_QUBO, solve_alpha, solve_alpha_gamma_chi
from qrisp.operators.qubit import X, Y, Z

P = {"I": np.eye(2, dtype=complex), "X": np.array([[0, 1], [1, 0]], dtype=complex), "Y": np.array([[0, -1j], [1j, 0]], dtype=complex), "Z": np.diag([1, -1]).astype(complex)}
G = {"X": X, "Y": Y, "Z": Z}


def mat(n, f):
    """matrix of a product of Pauli factors {qubit: letter}; qubit 0 least significant"""
    m = np.ones((1, 1), dtype=complex)
    for i in range(n):
        m = np.kron(P[f.get(i, "I")], m)
    return m


def zero(n):
    return np.zeros((2**n, 2**n), dtype=complex)


def evolve(h, t, psi):
    w, v = np.linalg.eigh((h + h.conj().T) / 2)
    return v @ (np.exp(-1j * t * w) * (v.conj().T @ psi))


def commuting(py, n, terms=3):
    """operator of commuting terms and its matrix: one Pauli axis per qubit"""
    axis = [py.choice("XYZ") for _ in range(n)]
    m, o, text = zero(n), 0, []
    for _ in range(py.randint(1, terms)):
        c = round(py.uniform(-1.2, 1.2), 2) or 0.5
        qs = sorted(py.sample(range(n), py.randint(1, min(n, 2))))
        t = c
        for q in qs:
            t = t * G[axis[q]](q)
        o = o + t
        m = m + c * mat(n, {q: axis[q] for q in qs})
        text.append((c, "".join(axis[q] + str(q) for q in qs)))
    if np.abs(m).max() < 1e-9:
        return commuting(py, n, terms)
    return o, m, text


SCHEDULES = {
    "linear": lambda t, T: t / T,
    "square": lambda t, T: (t / T) ** 2,
    "sine": lambda t, T: sp.sin(sp.pi / 2 * sp.sin(sp.pi * t / (2 * T)) ** 2) ** 2,
    "root": lambda t, T: (t + T) / T - 1 + (t / T) * (1 - t / T) / 2,
    "bent": lambda t, T: sp.sin(sp.pi * t / (2 * T)),
}


def schedule(py, regular=False):
    name = py.choice(["linear", "square", "root"] if regular else sorted(SCHEDULES))

    def lam():
        t, T = sp.symbols("t T", real=True)
        return SCHEDULES[name](t, T)

    return name, lam


def values(lam, N_steps, T):
    """schedule and its time derivative at the end of every step"""
    t, TT = sp.symbols("t T", real=True)
    e = lam().subs(TT, sp.Float(T, 30))
    d = sp.diff(e, t)
    ts = [(s + 1) * T / N_steps for s in range(N_steps)]
    return ts, [float(e.subs(t, x)) for x in ts], [float(d.subs(t, x)) for x in ts]


def preparation(py, n):
    if py.random() < 0.5:
        def prep(q):
            qrisp.h(q)
            qrisp.z(q)

        return "minus", prep, np.array([(-1) ** bin(k).count("1") for k in range(2**n)], dtype=complex) / math.sqrt(2**n)
    flips = [i for i in range(n) if py.random() < 0.5]
    ang = [round(py.uniform(-2, 2), 2) for _ in range(n)]

    def prep(q):
        for i in flips:
            qrisp.x(q[i])
        for i in range(n):
            qrisp.ry(ang[i], q[i])

    v = np.ones(1, dtype=complex)
    for i in range(n):
        w = np.array([0, 1] if i in flips else [1, 0], dtype=complex)
        c, s = math.cos(ang[i] / 2), math.sin(ang[i] / 2)
        v = np.kron(np.array([[c, -s], [s, c]]) @ w, v)
    return "rotated", prep, v


def gauge(py, n):
    if py.random() < 0.4:
        o, m, t = commuting(py, n)
        return o, [m], t, 1
    parts = [commuting(py, n, 2) for _ in range(py.randint(1, 3))]
    return [p[0] for p in parts], [p[1] for p in parts], [p[2] for p in parts], len(parts)


def symmetric(py, n, density=0.8, vanishing=False):
    q = np.zeros((n, n))
    for i in range(n):
        q[i, i] = round(py.uniform(-1.5, 1.5), 2) or 0.5
        if vanishing and i and py.random() < 0.2:
            q[i, i] = 0.0
        for j in range(i):
            if py.random() < density:
                q[i, j] = q[j, i] = round(py.uniform(-1.2, 1.2), 2)
    return q


def cost_of(q, key):
    """defining sum of the cost of one bitstring"""
    n = len(key)
    return sum(q[i, j] for i in range(n) for j in range(n) if key[i] == "1" and key[j] == "1")


def index_of(key):
    return sum(1 << i for i, b in enumerate(key) if b == "1")


def judge_state(ctx, qv, want, tol=2e-3):
    got = D.run(qv.qs.copy(), list(qv), None, "driven evolution")
    d = D.phase_distance(got, want)
    ctx.require(d < tol, f"deviation {d:.4f} from the prescribed evolution")


# ---------------------------------------------------------------- evolutions
def local(ctx):
    """local driving is the sequence of evolutions at the scheduled times"""
    py = ctx.py
    n = py.randint(1, 4)
    hi, mi, ti = commuting(py, n)
    hp, mp, tp = commuting(py, n)
    a, ma, ta, k = gauge(py, n)
    name, lam = schedule(py)
    steps, T = py.randint(1, 4), py.choice([1, 2, 0.5, 3.7])
    pname, prep, psi = preparation(py, n)
    w = [round(py.uniform(-1, 1), 2) for _ in range(k)]
    seen = []

    def coeffs(l):
        seen.append(float(l))
        return [w[i] + l * (i + 1) / 3 for i in range(k)]

    ctx.last = f"local driving, {n} qubits, H_init {ti}, H_prob {tp}, gauge {ta}, {name}, {steps} steps, T {T}, {pname}, {w}"
    prob = DCQOProblem(np.zeros((n, n)), hi, hp, a, coeffs, lam, qarg_prep=prep)
    qv = QuantumVariable(n)
    prob.apply_lcd_hamiltonian(qv, steps, T)
    ts, ls, ds = values(lam, steps, T)
    for s in range(steps):
        psi = evolve(mi, T / steps * (1 - ls[s]), psi)
        psi = evolve(mp, T / steps * ls[s], psi)
        for i in range(k):
            psi = evolve(ma[i], T / steps * ds[s] * (w[i] + ls[s] * (i + 1) / 3), psi)
    ctx.observe("local", ctx.last, True)
    judge_state(ctx, qv, psi)
    ctx.require(len(seen) == steps and max(abs(a - b) for a, b in zip(seen, ls)) < 1e-6, f"coefficients were asked for at {seen} instead of {ls}")


def pulses(lam, steps, T, beta):
    """control pulse and its derivative with respect to the schedule"""
    ts, ls, ds = values(lam, steps, T)
    f = [sum(b * math.sin(math.pi * (i + 1) * t / T) for i, b in enumerate(beta)) for t in ts]
    ft = [sum(b * math.pi * (i + 1) / T * math.cos(math.pi * (i + 1) * t / T) for i, b in enumerate(beta)) for t in ts]
    return ts, ls, ds, f, [a / d for a, d in zip(ft, ds)]


def controlled_setup(ctx, what):
    py = ctx.py
    n = py.randint(1, 3)
    hi, mi, ti = commuting(py, n)
    hp, mp, tp = commuting(py, n)
    hc, mc, tc = commuting(py, n)
    a, ma, ta, k = gauge(py, n)
    name, lam = schedule(py, regular=True)
    steps, T = py.randint(1, 4), py.choice([1, 2, 0.5, 3.7])
    pname, prep, psi = preparation(py, n)
    w = [round(py.uniform(-0.5, 0.5), 2) for _ in range(k)]
    seen = []

    def coeffs(l, f, fd):
        seen.append((l, f, fd))
        return [w[i] + l * (i + 1) / 3 + 0.3 * f - 0.1 * fd for i in range(k)]

    beta = [round(py.uniform(-1, 1), 2) for _ in range(py.randint(1, 3))]
    ctx.last = f"{what}, {n} qubits, H_init {ti}, H_prob {tp}, control {tc}, gauge {ta}, {name}, {steps} steps, T {T}, {pname}, {w}, parameters {beta}"
    prob = DCQOProblem(symmetric(py, n), hi, hp, a, coeffs, lam, hc, prep)
    ts, ls, ds, f, fd = pulses(lam, steps, T, beta)
    for s in range(steps):
        dt = T / steps
        psi = evolve(mi, dt * (1 - ls[s]), psi)
        psi = evolve(mp, dt * ls[s], psi)
        for i in range(k):
            psi = evolve(ma[i], dt * ds[s] * (w[i] + ls[s] * (i + 1) / 3 + 0.3 * f[s] - 0.1 * fd[s]), psi)
        psi = evolve(mc, dt * f[s], psi)
    return prob, n, steps, T, beta, seen, psi, (ls, f, fd)


def optimised(ctx):
    """optimised driving adds the control pulse, with coefficients for the pulse and its derivative"""
    prob, n, steps, T, beta, seen, psi, (ls, f, fd) = controlled_setup(ctx, "optimised driving")
    qv = QuantumVariable(n)
    prob.apply_cold_hamiltonian(qv, steps, T, beta if ctx.py.random() < 0.5 else np.array(beta))
    ctx.observe("optimised", ctx.last, True)
    ctx.require(len(seen) == steps, f"coefficients were asked for {len(seen)} times in {steps} steps")
    for s in range(steps):
        want = (ls[s], f[s], fd[s])
        d = max(abs(float(a) - b) / (1 + abs(b)) for a, b in zip(seen[s], want))
        ctx.require(d < 1e-6, f"step {s}: schedule, pulse and derivative of the pulse are {tuple(float(x) for x in seen[s])} instead of {want}")
    judge_state(ctx, qv, psi)


def compiled(ctx):
    """the compiled parametrised circuit gives the same outcomes for every parameter value (it is compiled for measuring, so phases of outcomes are free)"""
    prob, n, steps, T, beta, seen, psi, _ = controlled_setup(ctx, "compiled driving")
    qv = QuantumVariable(n)
    qc = prob.compile_U_cold(qv, len(beta), steps, T)
    ctx.require(len(qv.qs.data) == 0 or not any(getattr(i.op, "name", "") not in ("qb_alloc", "qb_dealloc") for i in qv.qs.data), "compiling left operations on the variable")
    bound = qc.bind_parameters({sp.Symbol("par_" + str(i)): b for i, b in enumerate(beta)})
    names = [q.identifier for q in bound.qubits]
    where = [names.index(q.identifier) for q in qv]
    got = D.run(bound, [bound.qubits[i] for i in where], None, "compiled driving")
    ctx.observe("compiled", ctx.last, True)
    d = float(np.abs(np.abs(got) ** 2 - np.abs(psi) ** 2).max())
    ctx.require(d < 2e-3, f"outcome probabilities of the compiled circuit deviate by {d:.4f} from the prescribed evolution")


# ---------------------------------------------------------------- coefficients
def spin_glass(h, J, lam, f=0.0, fd=0.0, sign=1):
    """driving Hamiltonian and its derivative"""
    n = len(h)
    H, dH = zero(n), zero(n)
    for i in range(n):
        H += sign * (1 - lam) * mat(n, {i: "X"}) + (lam * h[i] + f) * mat(n, {i: "Z"})
        dH += -sign * mat(n, {i: "X"}) + (h[i] + fd) * mat(n, {i: "Z"})
        for j in range(i):
            H += lam * J[i, j] * mat(n, {i: "Z", j: "Z"})
            dH += J[i, j] * mat(n, {i: "Z", j: "Z"})
    return H, dH


def action(A, H, dH):
    """residual of the gauge condition as a function of the coefficients, and its smallest value"""
    Cs = [1j * (a @ H - H @ a) for a in A]
    M = np.array([[np.trace(x @ y).real for y in Cs] for x in Cs])
    g = np.array([-np.trace(dH @ x).real for x in Cs])
    best = np.linalg.lstsq(M, g, rcond=None)[0]
    val = lambda c: float(np.linalg.norm(dH + sum(x * y for x, y in zip(c, Cs))))
    return val, val(best), best


def families_of(n, h, J):
    Ys = [mat(n, {i: "Y"}) for i in range(n)]
    pair = lambda i, j, p: mat(n, {min(i, j): p, max(i, j): "Y"})
    XY = [sum((pair(i, j, "X") for j in range(n) if j != i), zero(n)) for i in range(n)]
    ZY = [sum((pair(i, j, "Z") for j in range(n) if j != i), zero(n)) for i in range(n)]
    NC = [-2 * (h[i] * Ys[i] + sum((J[i, j] * (mat(n, {i: "Y", j: "Z"}) + mat(n, {i: "Z", j: "Y"})) for j in range(i)), zero(n))) for i in range(n)]
    return Ys, XY, ZY, NC


def coefficients(ctx):
    """gauge coefficients minimise the action"""
    py = ctx.py
    n = py.randint(1, 4)
    q = symmetric(py, n, py.choice([0.4, 0.9]))
    J, h = 0.5 * q, -0.5 * q.sum(axis=1)
    lam = round(py.uniform(0.05, 0.95), 3)
    form = py.choice(["nested", "second", "second uniform", "local", "local uniform", "local nested", "local nested uniform", "optimised", "optimised uniform"])
    f = fd = 0.0
    if form in ("nested", "second", "second uniform", "optimised", "optimised uniform") and py.random() < 0.8:
        f, fd = round(py.uniform(-1, 1), 2), round(py.uniform(-1, 1), 2)
    ctx.last = f"{form} coefficients, cost {q.tolist()}, schedule {lam}, pulse {f}, derivative {fd}"
    H, dH = spin_glass(h, J, lam, f, fd)
    Ys, XY, ZY, NC = families_of(n, h, J)
    if form == "nested":
        A, got = NC, solve_alpha(h, J, lam, f, fd)
    elif form == "second":
        A, got = Ys + XY + ZY, np.concatenate(solve_alpha_gamma_chi(h, J, lam, f, fd, uniform=False))
    elif form == "second uniform":
        parts = solve_alpha_gamma_chi(h, J, lam, f, fd, uniform=True)
        for p in parts:
            ctx.require(len(p) == n and np.ptp(p) == 0, f"uniform coefficients differ: {p}")
        A, got = [sum(Ys), sum(XY), sum(ZY)], [p[0] for p in parts]
    else:
        uniform = form.endswith("uniform")
        if form.startswith("optimised"):
            got = create_COLD_instance(q, uniform)[4](lam, f, fd)
        else:
            got = create_LCD_instance(q, "nc" if "nested" in form else "order1", uniform)[4](lam)
        A = NC if "nested" in form else Ys
        ctx.require(np.shape(got) == (n,), f"coefficients of shape {np.shape(got)} for {n} qubits")
        if uniform:
            ctx.require(np.ptp(got) < 1e-12, f"uniform coefficients differ: {got}")
            A, got = [sum(A)], [got[0]]
    val, best, ref = action(A, H, dH)
    ctx.observe("coefficients", ctx.last, best > 1e-9)
    v = val([float(x) for x in got])
    ctx.require(v <= best + 1e-6 * (1 + best), f"action of the coefficients {np.round(np.array(got, dtype=float), 5).tolist()} is {v:.5f}, the smallest possible is {best:.5f} at {np.round(ref, 5).tolist()}")


def matrix_of(op, n):
    """matrix of an operator by its action on labelled terms"""
    m = zero(n)
    for term, c in op.terms_dict.items():
        m += complex(c) * mat(n, dict(term.factor_dict))
    return m


def instances(ctx):
    """predefined instances encode the cost function and its gauge potential"""
    py = ctx.py
    n = py.randint(1, 5)
    q = symmetric(py, n, py.choice([0.4, 0.9]))
    kind = py.choice(["optimised", "local", "nested"])
    uniform = py.random() < 0.5
    ctx.last = f"{kind} instance, uniform {uniform}, cost {q.tolist()}"
    inst = create_COLD_instance(q, uniform) if kind == "optimised" else create_LCD_instance(q, "nc" if kind == "nested" else "order1", uniform)
    ctx.require(np.array_equal(inst[0], q), "the instance holds another cost matrix")
    ctx.observe("instances", ctx.last, True)
    costs = np.array([cost_of(q, "".join("1" if k >> i & 1 else "0" for i in range(n))) for k in range(2**n)])
    mp = matrix_of(inst[2], n)
    ctx.require(np.abs(mp - np.diag(np.diag(mp))).max() < 1e-9, "problem Hamiltonian is not diagonal")
    d = np.diag(mp).real - costs
    ctx.require(np.ptp(d) < 1e-6, f"problem Hamiltonian differs from the cost by values between {d.min():.4f} and {d.max():.4f}")
    mi = matrix_of(inst[1], n)
    w, v = np.linalg.eigh(mi)
    minus = np.array([(-1) ** bin(k).count("1") for k in range(2**n)], dtype=complex) / math.sqrt(2**n)
    ctx.require(abs(np.vdot(v[:, 0], minus)) > 1 - 1e-6, "the default initial state is not the ground state of the initial Hamiltonian")
    A = inst[3] if isinstance(inst[3], list) else [inst[3]]
    tot = sum((matrix_of(a, n) for a in A), zero(n))
    if kind == "nested":
        want = 1j * (mi @ mp - mp @ mi)
    else:
        want = sum((mat(n, {i: "Y"}) for i in range(n)), zero(n))
    s = np.vdot(want, tot).real
    ctx.require(abs(abs(s) - np.linalg.norm(want) * np.linalg.norm(tot)) < 1e-6 * (1 + abs(s)) and (np.linalg.norm(want) < 1e-9 or abs(s) > 1e-9), "gauge potential is not a multiple of " + ("the commutator of initial and problem Hamiltonian" if kind == "nested" else "the sum of Y operators"))
    t, T = sp.symbols("t T", real=True)
    e = inst[5]()
    ctx.require(abs(float(e.subs({t: 0, T: 2}))) < 1e-9 and abs(float(e.subs({t: 2, T: 2})) - 1) < 1e-9, "schedule does not lead from 0 to 1")


# ---------------------------------------------------------------- complete runs
def own_unitary(op, n, t):
    """the operator's own product formula for one step"""
    qv = QuantumVariable(n)
    op.trotterization()(qv, t=t)
    qc = qv.qs.copy()
    cols = []
    for k in range(2**n):
        v = np.zeros(2**n, dtype=complex)
        v[k] = 1
        cols.append(D.run(qc, list(qv), v, "product formula"))
    return np.array(cols).T


def judge_result(ctx, q, res, psi, shots):
    n = len(q)
    pr = np.abs(psi) ** 2
    ctx.require(abs(sum(v[0] for v in res.values()) - 1) < 1e-3, f"probabilities add up to {sum(v[0] for v in res.values()):.5f}")
    last = 2
    for key, (p, c) in res.items():
        ctx.require(isinstance(key, str) and len(key) == n, f"result {key!r} for {n} bits")
        ctx.require(abs(c - cost_of(q, key)) < 1e-6, f"{key} is reported with cost {c}, its cost is {cost_of(q, key)}")
        ctx.require(p <= last + 1e-9, f"results are not ordered by probability: {p} after {last}")
        last = p
    tol = 3e-3 if shots is None else 6.5 * math.sqrt(0.25 / shots) + 2e-3
    for k in range(2**n):
        key = "".join("1" if k >> i & 1 else "0" for i in range(n))
        p = res.get(key, [0])[0]
        ctx.require(abs(p - pr[k]) < tol, f"{key} has probability {p:.4f}, the driven state gives {pr[k]:.4f}")


def driven(q, inst, steps, T, coeffs, f=None):
    """state of the predefined instance after the whole sequence, from the recorded coefficients"""
    n = len(q)
    mi, mp = matrix_of(inst[1], n), matrix_of(inst[2], n)
    A = inst[3] if isinstance(inst[3], list) else [inst[3]]
    psi = np.array([(-1) ** bin(k).count("1") for k in range(2**n)], dtype=complex) / math.sqrt(2**n)
    ts, ls, ds = values(inst[5], steps, T)
    mc = sum((mat(n, {i: "Z"}) for i in range(n)), zero(n))
    for s in range(steps):
        dt = T / steps
        psi = evolve(mi, dt * (1 - ls[s]), psi)
        psi = evolve(mp, dt * ls[s], psi)
        for a, c in zip(A, coeffs[s]):
            if len(a.terms_dict):
                psi = own_unitary(a, n, dt * ds[s] * c) @ psi
        if f is not None:
            psi = evolve(mc, dt * f[s], psi)
    return psi


def solve(ctx):
    """local driving of a cost matrix reports the distribution of the driven state with true costs"""
    py = ctx.py
    n = py.randint(1, 4)
    q = symmetric(py, n, py.choice([0.2, 0.4, 0.9]), vanishing=True)
    agp = py.choice(["order1", "nc", None])
    uniform = py.random() < 0.5
    steps, T = py.randint(1, 3), py.choice([1, 2, 0.6])
    shots = py.choice([None, None, "default", 2000])
    ctx.last = f"solving {q.tolist()} by local driving, {agp}, uniform {uniform}, {steps} steps, T {T}, shots {shots}"
    pa = {"method": "LCD", "uniform": uniform}
    if agp:
        pa["agp_type"] = agp
    ra = {"N_steps": steps, "T": T}
    if shots != "default":
        ra["mes_kwargs"] = {"shots": shots}
    keep = q.copy()
    inst = create_LCD_instance(q, agp or "order1", uniform)
    ts, ls, ds = values(inst[5], steps, T)
    coeffs = [inst[4](l) for l in ls]
    if max(np.abs(np.array(c, dtype=float)).max() for c in coeffs) > 30:
        raise Skip("coefficients too large for a meaningful comparison")
    res = solve_QUBO(q, pa, ra)
    ctx.observe("solve", ctx.last, True)
    ctx.require(np.array_equal(q, keep), "the cost matrix was changed")
    judge_result(ctx, q, res, driven(q, inst, steps, T, coeffs), 5000 if shots == "default" else shots)


def solve_optimised(ctx):
    """optimised driving reports the distribution of the state driven with the pulse it chose"""
    py = ctx.py
    n = py.randint(2, 3)
    q = symmetric(py, n)
    uniform = py.random() < 0.5
    steps, T = py.randint(2, 3), py.choice([1, 2])
    nopt = py.randint(1, 2)
    objective = py.choice(["agp_coeff_magnitude", "exp_value"])
    ctx.last = f"solving {q.tolist()} by optimised driving, uniform {uniform}, {steps} steps, T {T}, {nopt} parameters, {objective}"
    inst = list(create_COLD_instance(q, uniform))
    alpha, seen = inst[4], []

    def spy(l, f, fd):
        a = alpha(l, f, fd)
        seen.append((l, f, fd, a))
        return a

    inst[4] = spy
    prob = DCQOProblem(*inst)
    qv = QuantumVariable(n)
    b = (-2, 2)
    res = prob.run(qv, N_steps=steps, T=T, method="COLD", N_opt=nopt, objective=objective, bounds=b, optimizer="COBYLA", options={"maxiter": 12}, mes_kwargs={"shots": None})
    last = seen[-steps:]
    ctx.require(all(not isinstance(x[1], sp.Expr) or x[1].is_number for x in last), "the final evolution contains open parameters")
    ctx.observe("solve_optimised", ctx.last, True)
    f = [float(x[1]) for x in last]
    ts, ls, ds = values(inst[5], steps, T)
    S = np.array([[math.sin(math.pi * (k + 1) * t / T) for k in range(nopt)] for t in ts])
    beta = np.linalg.lstsq(S, np.array(f), rcond=None)[0]
    ctx.require(np.abs(S @ beta - f).max() < 1e-6, f"the final pulse {f} is not a combination of the {nopt} basis functions")
    co = [[float(y) for y in np.atleast_1d(x[3])] for x in last]
    judge_result(ctx, q, res, driven(q, inst, steps, T, co, f), None)


def objective(ctx):
    """the optimised value is the objective at the parameters returned with it"""
    py = ctx.py
    n = py.randint(1, 3)
    q = symmetric(py, n)
    uniform = py.random() < 0.5
    kind = py.choice(["exp_value", "exp_value", "agp_coeff_magnitude"])
    steps, T, nopt = py.randint(1, 3), py.choice([1, 2, 0.7]), py.randint(1, 2)
    name, lam = schedule(py, regular=True)
    ctx.last = f"objective {kind} of {q.tolist()}, uniform {uniform}, {name}, {steps} steps, T {T}, {nopt} parameters"
    inst = list(create_COLD_instance(q, uniform))
    inst[5] = lam

    def prep(v):
        qrisp.h(v)
        qrisp.z(v)

    prob = DCQOProblem(*inst, qarg_prep=prep)
    qc = None
    qv = QuantumVariable(n)
    if kind == "exp_value":
        qc = prob.compile_U_cold(qv, nopt, steps, T)
    else:
        prob.apply_cold_hamiltonian(QuantumVariable(n), steps, T, [0.1] * nopt)
    x, val = prob.optimization_routine(QuantumVariable(n), nopt, steps, T, qc, False, "COBYLA", {"maxiter": 6}, kind, (-2, 2))
    x = np.atleast_1d(x)
    ctx.observe("objective", ctx.last, True)
    ctx.require(len(x) == nopt and np.all(np.abs(x) <= 2 + 1e-6), f"parameters {x} outside the bounds")
    ts, ls, ds, f, fd = pulses(lam, steps, T, list(x))
    if kind == "exp_value":
        co = [inst[4](a, b, c) for a, b, c in zip(ls, f, fd)]
        psi = driven(q, inst, steps, T, co, f)
        costs = np.array([cost_of(q, "".join("1" if k >> i & 1 else "0" for i in range(n))) for k in range(2**n)])
        want = float(np.sum(np.abs(psi) ** 2 * costs))
    else:
        J, h = 0.5 * q, -0.5 * q.sum(axis=1)
        Ys, XY, ZY, NC = families_of(n, h, J)
        want = 0
        for s in range(steps):
            H, dH = spin_glass(h, J, ls[s], f[s], fd[s])
            Cs = [1j * (a @ H - H @ a) for a in (sum(Ys), sum(XY), sum(ZY))]
            M = np.array([[np.trace(u @ v).real for v in Cs] for u in Cs])
            if np.linalg.matrix_rank(M, tol=1e-6) < 3:
                raise Skip("coefficients are not unique")
            want += np.abs(np.linalg.solve(M, [-np.trace(dH @ u).real for u in Cs])).sum()
    ctx.require(abs(val - want) < 5e-3 * (1 + abs(want)), f"objective {val:.5f} at {x.tolist()}, should be {want:.5f}")


def statistics(ctx):
    """figures of merit of measured results"""
    py = ctx.py
    n = py.randint(1, 4)
    q = symmetric(py, n)
    keys = py.sample(range(2**n), py.randint(1, 2**n))
    w = sorted((py.random() for _ in keys), reverse=True)
    tot = sum(w)
    res = {"".join("1" if k >> i & 1 else "0" for i in range(n)): [p / tot, 0.0] for k, p in zip(keys, w)}
    for key in res:
        res[key][1] = DCQOProblem.QUBO_cost(type("H", (), {"Q": q})(), np.array([int(b) for b in key]))
        ctx.require(abs(res[key][1] - cost_of(q, key)) < 1e-9, f"cost of {key} is {res[key][1]}, should be {cost_of(q, key)}")
    mean = sum(p * cost_of(q, k) for k, (p, _) in res.items())
    ctx.last = f"figures of merit of {res}"
    ctx.observe("statistics", ctx.last, True)
    ctx.require(abs(C.avg_qubo_cost(res) - mean) < 1e-9, "mean cost is wrong")
    allc = {"".join("1" if k >> i & 1 else "0" for i in range(n)): 0 for k in range(2**n)}
    allc = {k: cost_of(q, k) for k in allc}
    best = min(allc.values())
    sol = {k: v for k, v in allc.items() if v < best + 1e-9}
    ctx.require(abs(C.success_prob(res, sol) - sum(res[k][0] for k in sol if k in res)) < 1e-9, "success probability is wrong")
    if abs(best) > 1e-6:
        ctx.require(abs(C.approx_ratio(res, sol) - mean / best) < 1e-9, "approximation ratio is wrong")
    m = py.randint(1, len(res))
    c, p = C.most_likely_cost_and_prob(res, m)
    top = list(res)[:m]
    ctx.require(list(c) == top and list(p) == top and all(abs(c[k] - res[k][1]) < 1e-12 and abs(p[k] - res[k][0]) < 1e-12 for k in top), "most likely results are wrong")


FAMILIES = {"local": local, "optimised": optimised, "compiled": compiled, "objective": objective, "coefficients": coefficients, "instances": instances, "solve": solve, "solve_optimised": solve_optimised, "statistics": statistics}
