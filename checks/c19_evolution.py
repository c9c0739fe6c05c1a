PROPERTY = "C19"
RULE = (
    "one evaluation = one expectation value compared with the exact one of the prepared state, or the exact action (phase included) of one simulated time evolution compared with the matrix exponential within the "
    "product formula error bound; distinct = distinct (operator, settings)"
)
PLAN = {
    "quick": {"expectation": 300, "sampled": 30, "options": 100, "traced_expectation": 10, "commuting": 220, "trotter": 280, "controlled": 150, "traced": 16, "qdrift": 12, "terms": 200},
    "thorough": {"expectation": 1200, "sampled": 250, "options": 350, "traced_expectation": 60, "commuting": 700, "trotter": 1200, "controlled": 500, "traced": 150, "qdrift": 80, "terms": 700},
}
REQUIRED_MONITORS = ["expectation_exact", "expectation_sampled", "expectation_options", "expectation_traced", "evolution_exact", "evolution_bounded", "evolution_controlled", "evolution_traced", "qdrift", "term_evolution"]
ASSUMPTIONS = [
    "exact expectation values use a recording backend that returns exact probabilities",
    "sampled expectation values are judged with 8 standard deviations of the worst state the shot allocation allows",
    "product formulas are judged against the commutator bound of their terms",
]
CASE_TIMEOUT = 240
# --- end of plan ---
import math

import numpy as np
from scipy.linalg import expm
import sympy

from vlib import opref as R
from vlib import qs as Q
from vlib.harness import Skip
from checks.c18_operators import build, matrix, random_terms, random_term, coefficient, commuting_paulis, qw_family

import qrisp
from qrisp import QuantumVariable, QuantumBool, QuantumFloat, control, invert, conjugate
from qrisp.jasp import make_jaspr, jaspify
from qrisp.operators import QubitOperator, QubitTerm


def revbits(v, n):
    return int(format(v, f"0{n}b")[::-1], 2) if n else 0


class ExactBackend:
    """records every circuit it is given and returns exact probabilities"""

    def __init__(self):
        self.circuits = []
        self.shots = []

    def run(self, qc, shots=None, token=""):
        self.circuits.append(qc)
        self.shots.append(shots)
        st = Q.ref.simulate(qc, mode="definition")
        out = {}
        for c, a in zip(st.kr, st.amp):
            k = format(int(c) & ((1 << len(qc.clbits)) - 1), f"0{len(qc.clbits)}b")
            out[k] = out.get(k, 0) + float(abs(a) ** 2)
        return {k: p for k, p in out.items() if p > 1e-14}


def random_prep(py, n):
    """description of a random state preparation on n qubits"""
    gates = []
    for i in range(n):
        gates.append(("u", i, [round(py.uniform(-3, 3), 3) for _ in range(3)]))
    for _ in range(py.randint(0, 3)):
        if n > 1:
            i, j = py.sample(range(n), 2)
            gates.append(("cx", i, j))
            gates.append(("u", j, [round(py.uniform(-3, 3), 3) for _ in range(3)]))
    return gates


def apply_prep(gates, qv, subs=None):
    for g in gates:
        if g[0] == "u":
            qrisp.rz(g[2][0] if subs is None else subs, qv[g[1]])
            qrisp.ry(g[2][1], qv[g[1]])
            qrisp.rz(g[2][2], qv[g[1]])
        else:
            qrisp.cx(qv[g[1]], qv[g[2]])


def prep_state(gates, n, subs=None):
    psi = np.zeros(2**n, dtype=complex)
    psi[0] = 1
    for g in gates:
        if g[0] == "u":
            a, b, c = g[2]
            if subs is not None:
                a = subs
            m = np.diag([np.exp(-0.5j * c), np.exp(0.5j * c)]) @ np.array([[math.cos(b / 2), -math.sin(b / 2)], [math.sin(b / 2), math.cos(b / 2)]]) @ np.diag([np.exp(-0.5j * a), np.exp(0.5j * a)])
            full = np.eye(1)
            for i in range(n):
                full = np.kron(full, m if i == g[1] else np.eye(2))
            psi = full @ psi
        else:
            out = np.zeros_like(psi)
            for x in range(2**n):
                y = x ^ (((x >> (n - 1 - g[1])) & 1) << (n - 1 - g[2]))
                out[y] += psi[x]
            psi = out
    return psi


def random_hamiltonian(py, n, k=None):
    letters = py.choice([["X", "Y", "Z"], R.LETTERS, R.LETTERS, ["A", "C", "Z"], ["X", "Z", "P0", "P1"]])
    return random_terms(py, n, k or py.randint(1, 6), letters=letters, kind=py.choice(["float", "float", None]))


def expectation(ctx):
    """expectation values from exact outcome probabilities"""
    py = ctx.py
    n = py.randint(1, 4)
    extra = py.choice([0, 0, 1, 2])
    t = random_hamiltonian(py, n)
    method = py.choice(["commuting_qw", "commuting"])
    gates = random_prep(py, n + extra)
    ctx.last = f"expectation value, {method}, of {t} in {gates}"
    op = build(t)
    be = ExactBackend()

    def prep():
        qv = QuantumVariable(n + extra)
        apply_prep(gates, qv)
        return qv

    got = op.expectation_value(prep, precision=0.1, diagonalisation_method=method, backend=be)()
    psi = prep_state(gates, n + extra)
    want = float(np.real(psi.conj() @ R.herm(matrix(t, n + extra)) @ psi))
    ctx.observe("expectation_exact", (method, str(t), str(gates)), True)
    ctx.require(abs(float(np.real(got)) - want) < 1e-4 * (1 + abs(want)), f"expectation value {got}, expected {want}")


def sampled(ctx):
    """expectation values from the default simulator reach their precision"""
    py = ctx.py
    n = py.randint(1, 3)
    t = random_hamiltonian(py, n)
    method = py.choice(["commuting_qw", "commuting"])
    gates = random_prep(py, n)
    prec = py.choice([0.1, 0.05])
    ctx.last = f"sampled expectation value, {method}, precision {prec}, of {t} in {gates}"
    op = build(t)

    def prep(x):
        qv = QuantumVariable(n)
        apply_prep(gates, qv)
        qrisp.rx(x, qv[0])
        return qv

    got = op.expectation_value(prep, precision=prec, diagonalisation_method=method)(0.4)
    psi = prep_state(gates, n)
    rx = expm(-0.2j * R.string({0: "X"}, n))
    psi = rx @ psi
    h = R.herm(matrix(t, n))
    want = float(np.real(psi.conj() @ h @ psi))
    strings = sum(1 for f, c in t for _ in range(2 ** sum(v in ("A", "C", "P0", "P1") for v in f.values())))
    bound = 8 * prec * math.sqrt(strings * 1.5) + 1e-3
    ctx.observe("expectation_sampled", (method, str(t)), True)
    ctx.require(abs(float(np.real(got)) - want) < bound, f"expectation value {got}, expected {want} +- {bound:.3g}")


def options(ctx):
    """precompiled circuits, parameters and cached measurement data"""
    py = ctx.py
    n = py.randint(1, 3)
    t = random_hamiltonian(py, n)
    method = py.choice(["commuting_qw", "commuting"])
    gates = random_prep(py, n)
    op = build(t)
    mode = py.choice(["symbol", "precompiled", "uncompiled", "cached"])
    ctx.last = f"expectation value with {mode}, {method}, of {t} in {gates}"
    be = ExactBackend()
    val = None
    kw = {}
    sym = sympy.Symbol("theta")

    def prep():
        qv = QuantumVariable(n)
        apply_prep(gates, qv, sym if mode in ("symbol",) else None)
        return qv

    if mode == "symbol":
        val = round(py.uniform(-3, 3), 3)
        kw["subs_dic"] = {sym: val}
    elif mode == "precompiled":
        top = op.find_minimal_qubit_amount()
        if top != n:
            raise Skip("operator does not cover the register")
        kw["precompiled_qc"] = prep().qs.compile()
    elif mode == "uncompiled":
        kw["compile"] = False
    else:
        from qrisp.operators.qubit.measurement import QubitOperatorMeasurement

        red = op.hermitize().eliminate_ladder_conjugates().apply_threshold(0)
        if not red.terms_dict:
            raise Skip("no Hermitian part")
        kw["measurement_data"] = QubitOperatorMeasurement(red, diagonalisation_method=method)
    f = op.expectation_value(prep, precision=0.1, diagonalisation_method=method, backend=be, **kw)
    psi = prep_state(gates, n, val)
    want = float(np.real(psi.conj() @ R.herm(matrix(t, n)) @ psi))
    for _ in range(2):
        got = f()
        ctx.observe("expectation_options", (mode, str(t), str(gates)), True)
        ctx.require(abs(float(np.real(got)) - want) < 1e-4 * (1 + abs(want)), f"expectation value {got}, expected {want}")


def traced_expectation(ctx):
    """expectation values inside traced programs"""
    py = ctx.py
    n = py.randint(1, 3)
    t = random_hamiltonian(py, n, py.randint(1, 4))
    method = py.choice(["commuting_qw", "commuting"])
    gates = random_prep(py, n)
    prec = 0.1
    ctx.last = f"traced expectation value, {method}, of {t} in {gates}"
    op = build(t)

    @jaspify(terminal_sampling=True)
    def main(x):
        def prep(x):
            qv = QuantumVariable(n)
            apply_prep(gates, qv)
            qrisp.rx(x, qv[0])
            return qv

        return op.expectation_value(prep, precision=prec, diagonalisation_method=method)(x)

    got = main(0.4)
    psi = expm(-0.2j * R.string({0: "X"}, n)) @ prep_state(gates, n)
    want = float(np.real(psi.conj() @ R.herm(matrix(t, n)) @ psi))
    strings = sum(1 for f, c in t for _ in range(2 ** sum(v in ("A", "C", "P0", "P1") for v in f.values())))
    bound = 8 * prec * math.sqrt(strings * 1.5) + 1e-3
    ctx.observe("expectation_traced", (method, str(t)), True)
    ctx.require(abs(float(np.real(got)) - want) < bound, f"expectation value {got}, expected {want} +- {bound:.3g}")


def action(ctx, qc, regs, what):
    """random state on the registers before and after the circuit; factor 0 of regs[0] most significant"""
    sizes = [len(r) for r in regs]
    n = sum(sizes)
    rng = ctx.rng
    psi = rng.normal(size=2**n) + 1j * rng.normal(size=2**n)
    psi /= np.linalg.norm(psi)
    qubits = [q for r in regs for q in r]
    vals = [(v,) for v in range(2**n)]
    # value bit i <-> qubit i; reference index has qubit 0 most significant
    amps = np.array([psi[revbits(v, n)] for v in range(2**n)])
    got = Q.amplitudes(qc, [qubits], Q.rows_for(qc, [qubits], vals, amps), what=what)
    out = np.zeros(2**n, dtype=complex)
    for (v,), a in got.items():
        out[revbits(v, n)] += a
    return psi, out


def pieces(t, n):
    """Hermitian pieces a product formula may be built from"""
    out = []
    for f, c in t:
        lad = any(v in ("A", "C") for v in f.values())
        m = R.string(f, n)
        if lad:
            out.append(np.real(c) * R.herm(m))
            if np.imag(c):
                im = R.herm(1j * np.imag(c) * m)
                import itertools

                for q in itertools.product("IXYZ", repeat=n):
                    s = R.string(dict(enumerate(q)), n)
                    w = np.trace(s @ im) / 2**n
                    if abs(w) > 1e-12:
                        out.append(np.real(w) * s)
        elif abs(np.real(c)) > 0:
            out.append(np.real(c) * m)
    return out


def error_bound(ps, t, steps, order):
    com = 0.0
    for i in range(len(ps)):
        for j in range(i):
            com += R.norm(ps[i] @ ps[j] - ps[j] @ ps[i])
    if com < 1e-9:
        return 0.0
    b = t * t / (2 * steps) * com
    if order == 2:
        lam = sum(R.norm(p) for p in ps)
        b = min(b, abs(t * lam) ** 3 / (2 * steps**2))
    return b


def evolve(ctx, t, n, time, steps, iters, order, method, forward, monitor, ctrl=None, inverse=False, wrap=None):
    op = build(t)
    h = R.herm(matrix(t, n))
    if R.norm(h) < 1e-9:
        raise Skip("no Hermitian part")
    ctx.last = f"evolution {method} order {order} t {time} steps {steps} iter {iters} forward {forward} control {ctrl} inverse {inverse} of {t}"
    kw = {} if forward and ctx.py.random() < 0.5 else {"forward_evolution": forward}
    u = op.trotterization(order=order, method=method, **kw)
    qv = QuantumVariable(n)
    regs = [list(qv)]
    args = dict(t=time, steps=steps, iter=iters)
    if ctrl is None:
        if inverse:
            with invert():
                u(qv, **args)
        else:
            u(qv, **args)
    else:
        cq = QuantumVariable(len(ctrl))
        regs = [list(cq)] + regs
        with control(list(cq), ctrl_state=ctrl):
            if inverse:
                with invert():
                    u(qv, **args)
            else:
                u(qv, **args)
    qc = qv.qs.copy()
    if len(regs) > 1 or True:
        ids = {q.identifier for q in qc.qubits}
        if not all(q.identifier in ids for r in regs for q in r):
            raise Skip("registers were never used")
    psi, out = action(ctx, qc, regs, "evolution")
    sgn = (1 if forward else -1) * (-1 if inverse else 1)
    target = expm(-1j * sgn * time * iters * h)
    if ctrl is not None:
        m = len(ctrl)
        full = np.eye(2 ** (n + m), dtype=complex)
        k = int(ctrl, 2)
        full[k * 2**n : (k + 1) * 2**n, k * 2**n : (k + 1) * 2**n] = target
        target = full
    err = float(np.linalg.norm(out - target @ psi))
    bound = iters * error_bound(pieces(t, n), abs(time), steps, order)
    ctx.observe(monitor, ctx.last, True)
    ctx.require(err < bound * 1.001 + 2e-5 * (1 + len(t) * steps * iters), f"deviation {err:.5f} from the exponential, bound {bound:.5f}")


def commuting(ctx):
    """evolution under commuting terms is exact"""
    py = ctx.py
    n = py.randint(1, 4)
    method = py.choice(["commuting_qw", "commuting"])
    kind = py.randrange(4)
    if kind == 0:
        t = qw_family(py, n)
    elif kind == 1:
        t = commuting_paulis(py, n)
    elif kind == 2:
        t = random_terms(py, n, 1, kind=py.choice(["float", None]))
    else:
        k = py.randint(1, n)
        t = random_terms(py, k, py.randint(1, 3), letters=["P0", "P1", "Z"], kind="float")
        if n - k >= 1:
            f = random_term(py, n - k, ["A", "C"], 1)
            t.append(({i + k: v for i, v in f.items()}, coefficient(py, "float")))
    evolve(ctx, t, n, round(py.uniform(-2, 2), 3), py.randint(1, 3), py.randint(1, 2), py.choice([1, 2]), method, py.random() < 0.6, "evolution_exact", inverse=py.random() < 0.2)


def trotter(ctx):
    """product formulas stay within their error bound"""
    py = ctx.py
    n = py.randint(1, 4)
    t = random_hamiltonian(py, n, py.randint(2, 6))
    evolve(ctx, t, n, round(py.choice([-1, 1]) * py.uniform(0.02, 0.3), 3), py.choice([1, 2, 4, 6]), py.randint(1, 2), py.choice([1, 2]), py.choice(["commuting_qw", "commuting"]), py.random() < 0.6, "evolution_bounded", inverse=py.random() < 0.2)


def controlled(ctx):
    """controlled evolution includes the phase"""
    py = ctx.py
    n = py.randint(1, 3)
    c = "".join(py.choice("01") for _ in range(py.randint(1, 2)))
    t = py.choice([qw_family, commuting_paulis])(py, n) if py.random() < 0.5 else random_hamiltonian(py, n)
    evolve(ctx, t, n, round(py.choice([-1, 1]) * py.uniform(0.02, 0.4), 3), py.choice([1, 2]), py.randint(1, 2), py.choice([1, 1, 2]), py.choice(["commuting_qw", "commuting"]), py.random() < 0.7, "evolution_controlled", ctrl=c, inverse=py.random() < 0.2)


def traced(ctx):
    """evolution inside traced programs"""
    py = ctx.py
    n = py.randint(1, 3)
    t = random_hamiltonian(py, n, py.randint(1, 4))
    h = R.herm(matrix(t, n))
    if R.norm(h) < 1e-9:
        raise Skip("no Hermitian part")
    method, order, forward = py.choice(["commuting_qw", "commuting"]), py.choice([1, 2]), py.random() < 0.6
    time, steps, iters = round(py.uniform(-0.3, 0.3), 3), py.randint(1, 3), py.randint(1, 2)
    ctrl = py.random() < 0.4
    ctx.last = f"traced evolution {method} order {order} t {time} steps {steps} iter {iters} forward {forward} control {ctrl} of {t}"
    op = build(t)

    def main(time, steps, iters):
        u = op.trotterization(order=order, method=method, forward_evolution=forward)
        qv = QuantumVariable(n)
        if ctrl:
            c = QuantumBool()
            with control(c):
                u(qv, t=time, steps=steps, iter=iters)
            return c, qv
        u(qv, t=time, steps=steps, iter=iters)
        return qv

    out = make_jaspr(main)(0.5, 1, 1).to_qc(time, steps, iters)
    qc = out[-1]
    regs = [list(x) for x in out[:-1] if isinstance(x, (list, tuple)) and len(x) and isinstance(x[0], qrisp.Qubit)]
    psi, got = action(ctx, qc, regs, "traced evolution")
    target = expm(-1j * (1 if forward else -1) * time * iters * h)
    if ctrl:
        target = np.block([[np.eye(2**n), np.zeros((2**n, 2**n))], [np.zeros((2**n, 2**n)), target]])
    err = float(np.linalg.norm(got - target @ psi))
    bound = iters * error_bound(pieces(t, n), abs(time), steps, order)
    ctx.observe("evolution_traced", ctx.last, True)
    ctx.require(err < bound * 1.001 + 1e-4 * (1 + len(t) * steps * iters), f"deviation {err:.5f} from the exponential, bound {bound:.5f}")


def qdrift(ctx):
    """randomised evolution picks each term as often as its weight demands"""
    py = ctx.py
    n = py.randint(1, 3)
    keys = py.sample(range(1, 2**n), py.randint(1, min(3, 2**n - 1)))
    t = [({i: "Z" for i in range(n) if (k >> i) & 1}, coefficient(py, "float")) for k in keys]
    lam = sum(abs(c) for _, c in t)
    samples, iters, seed = py.randint(10, 60), py.randint(1, 2), py.randrange(1000)
    time = round(py.uniform(0.3, 2.8) / lam / iters, 4)
    forward = py.random() < 0.6
    ctx.last = f"qdrift t {time} samples {samples} iter {iters} seed {seed} forward {forward} of {t}"
    u = build(t).qdrift(forward_evolution=forward) if not forward or py.random() < 0.5 else build(t).qdrift()

    def main(time, samples, seed, iters):
        qv = QuantumVariable(n)
        u(qv, t=time, samples=samples, seed=seed, iter=iters)
        return qv

    qv = QuantumVariable(n)
    u(qv, t=time, samples=samples, seed=seed, iter=iters)
    psi, out = action(ctx, qv.qs.copy(), [list(qv)], "randomised evolution")
    ctx.observe("qdrift", ctx.last, True)
    ratio = out / psi
    ctx.require(np.max(np.abs(np.abs(ratio) - 1)) < 1e-4, "randomised evolution under diagonal terms is not diagonal")
    # angles of the terms: solve for multiples of tau
    tau = lam * time / samples
    import itertools

    total = samples * iters
    best = None
    k = len(t)
    sg = 1 if forward else -1
    diag = [np.real(np.diag(R.string(f, n))) for f, _ in t]
    for counts in itertools.product(range(total + 1), repeat=k - 1):
        last = total - sum(counts)
        if last < 0:
            continue
        cs = list(counts) + [last]
        ph = sum(-sg * np.sign(c) * tau * m * d for (f, c), m, d in zip(t, cs, diag))
        e = float(np.max(np.abs(np.exp(1j * ph) - ratio)))
        if best is None or e < best[0]:
            best = (e, cs)
    ctx.require(best[0] < 2e-3, f"evolution is not a product of {total} exponentials of the terms (closest: {best})")
    for (f, c), m in zip(t, best[1]):
        pr = abs(c) / lam
        ctx.require(abs(m - total * pr) <= 7 * math.sqrt(total * pr * (1 - pr)) + 2, f"term {f} with probability {pr:.3f} was used {m} times in {total}")


def terms(ctx):
    """exponential of a single term, also controlled"""
    py = ctx.py
    n = py.randint(1, 5)
    f = random_term(py, n, minimum=0)
    c = coefficient(py, "float")
    ctrl = py.choice([None, None, "1", "0", "11", "01"])
    ctx.last = f"exponential of {f} times {c}, control {ctrl}"
    h = c * R.herm(R.string(f, n))
    qv = QuantumVariable(n)
    regs = [list(qv)]
    term = QubitTerm(f)
    if ctrl is None:
        term.simulate(c, qv)
    else:
        cq = QuantumVariable(len(ctrl))
        regs = [list(cq)] + regs
        with control(list(cq), ctrl_state=ctrl):
            term.simulate(c, qv)
    psi, out = action(ctx, qv.qs.copy(), regs, "term evolution")
    target = expm(-1j * h)
    if ctrl is not None:
        full = np.eye(2 ** (n + len(ctrl)), dtype=complex)
        k = int(ctrl, 2)
        full[k * 2**n : (k + 1) * 2**n, k * 2**n : (k + 1) * 2**n] = target
        target = full
    ctx.observe("term_evolution", ctx.last, True)
    err = float(np.linalg.norm(out - target @ psi))
    ctx.require(err < 5e-5, f"deviation {err:.5f} from the exponential")


FAMILIES = {
    "expectation": expectation,
    "sampled": sampled,
    "options": options,
    "traced_expectation": traced_expectation,
    "commuting": commuting,
    "trotter": trotter,
    "controlled": controlled,
    "traced": traced,
    "qdrift": qdrift,
    "terms": terms,
}
