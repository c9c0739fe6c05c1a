PROPERTY = "C25"
RULE = "one evaluation = one run of an algorithmic primitive (Fourier transform, phase estimation, reflection, amplification, estimation, linear combination, Dicke or W preparation) on a generated input compared with dense linear algebra; distinct = distinct (primitive, options, input description)"
PLAN = {
    "quick": {"fourier": 160, "fourier_traced": 12, "estimation": 60, "estimation_traced": 8, "iterative_estimation": 8, "reflect": 120, "reflect_traced": 8, "amplify": 70, "amplify_traced": 8, "amplitude_estimate": 16, "iterative_amplitude": 20, "combination": 50, "combination_success": 4, "dicke": 30, "wstate": 40},
    "thorough": {"fourier": 1600, "fourier_traced": 100, "estimation": 600, "estimation_traced": 80, "iterative_estimation": 60, "reflect": 1200, "reflect_traced": 80, "amplify": 700, "amplify_traced": 80, "amplitude_estimate": 120, "iterative_amplitude": 30, "combination": 500, "combination_success": 24, "dicke": 200, "wstate": 400},
}
REQUIRED_MONITORS = ["fourier", "fourier_traced", "estimation", "estimation_traced", "iterative_estimation", "reflect", "reflect_traced", "amplify", "amplify_traced", "amplitude_estimate", "iterative_amplitude", "combination", "combination_success", "dicke", "wstate"]
ASSUMPTIONS = [
    "Fourier transforms are judged up to a global phase when compiled with adders; inverse and bit order options as documented",
    "iterative amplitude estimation is run with failure probability 1e-7",
]
CASE_TIMEOUT = 240
# --- end of plan ---
import math

import numpy as np

from vlib import dense as D
from vlib import qs as Q
from vlib.harness import Skip

import qrisp
from qrisp import QuantumVariable, QuantumFloat, QuantumBool, QuantumArray, control, invert, merge, conjugate
from qrisp import QFT, QPE, IQPE, reflection, amplitude_amplification, QAE, IQAE, LCU, inner_LCU, dicke_state
from qrisp.jasp import make_jaspr, terminal_sampling, jaspify


def regs_of(out):
    return [list(x) for x in out[:-1] if isinstance(x, (list, tuple)) and len(x) and isinstance(x[0], qrisp.Qubit)]


def dft(n, m=1):
    N = 2**n
    k = np.arange(N)
    return np.exp(2j * np.pi * m * np.outer(k, k) / N) / np.sqrt(N)


def fourier(ctx):
    """Fourier transforms with all options"""
    py = ctx.py
    n = py.randint(1, 5)
    o = {"inv": py.random() < 0.4, "exec_swap": py.random() < 0.6, "qiskit_endian": py.random() < 0.75, "inplace_mult": py.choice([1, 1, 3, 5, 7, -1, -3])}
    phase = False
    if py.random() < 0.2:
        o["use_gms"] = True
        phase = True
    elif py.random() < 0.25 and o["inplace_mult"] == 1 and n > 1:
        o["inpl_adder"] = py.choice([qrisp.cuccaro_adder, qrisp.gidney_adder, qrisp.fourier_adder, qrisp.qcla])
        phase = True
    ctrl = py.random() < 0.3 and not phase
    name = {k: getattr(v, "__name__", v) for k, v in o.items()}
    ctx.last = f"Fourier transform of {n} qubits, {name}, control {ctrl}"
    qv = QuantumVariable(n)
    qubits = list(qv)
    if ctrl:
        b = QuantumBool()
        qubits = qubits + [b[0]]
        with control(b):
            QFT(qv, **o)
    else:
        QFT(qv, **o)
    u = dft(n, o["inplace_mult"])
    if not o["exec_swap"]:
        u = D.bitrev(n) @ u
    if not o["qiskit_endian"]:
        u = D.bitrev(n) @ u @ D.bitrev(n)
    if o["inv"]:
        u = u.conj().T
    if ctrl:
        u = D.controlled(u, (1, 1), n)
    psi = D.random_state(ctx.rng, len(qubits))
    out = D.run(qv.qs.copy(), qubits, psi, "Fourier transform")
    d = D.phase_distance(out, u @ psi) if phase else float(np.linalg.norm(out - u @ psi))
    ctx.observe("fourier", ctx.last, True)
    ctx.require(d < 2e-4, f"deviation {d:.4f} from the Fourier transform")


def fourier_traced(ctx):
    """Fourier transforms of registers with dynamic size"""
    py = ctx.py
    n = py.randint(1, 5)
    inv, swap, mode = py.random() < 0.5, py.random() < 0.6, py.choice(["var", "slice"])
    ctx.last = f"traced Fourier transform of {n} qubits, inverse {inv}, swap {swap}, {mode}"

    def main(n):
        qv = QuantumFloat(n)
        if mode == "var":
            QFT(qv, inv=inv, exec_swap=swap)
        else:
            QFT(qv[:n], inv=inv, exec_swap=swap)
        return qv

    out = make_jaspr(main)(2).to_qc(n)
    qubits = regs_of(out)[0]
    u = dft(n)
    if not swap:
        u = D.bitrev(n) @ u
    if inv:
        u = u.conj().T
    psi = D.random_state(ctx.rng, n)
    got = D.run(out[-1], qubits, psi, "traced Fourier transform")
    ctx.observe("fourier_traced", ctx.last, True)
    d = float(np.linalg.norm(got - u @ psi))
    ctx.require(d < 2e-4, f"deviation {d:.4f} from the Fourier transform")


def qpe_reference(u, psi, p):
    """state after phase estimation: estimate register above the argument"""
    N = 2**p
    powers = [psi]
    for _ in range(N - 1):
        powers.append(u @ powers[-1])
    return np.concatenate([sum(np.exp(-2j * np.pi * j * k / N) * powers[j] for j in range(N)) / N for k in range(N)])


def estimation(ctx):
    """phase estimation of random unitaries on random inputs"""
    py = ctx.py
    n, p = py.randint(1, 3), py.randint(1, 4)
    gates = D.random_gates(py, n, py.randint(1, 4))
    spec, target, kw = py.random() < 0.4, py.random() < 0.4, py.random() < 0.3
    method = py.choice([None, None, "gray"])
    ctx.last = f"phase estimation of {gates} on {n} qubits with {p} digits, iteration argument {spec}, target {target}, keyword {kw}, method {method}"
    qv = QuantumVariable(n)

    def U(arg, iter=1, extra=None):
        if kw:
            assert extra == 7
        for _ in range(iter):
            D.apply(gates, list(arg))

    o = {}
    if kw:
        o["kwargs"] = {"extra": 7}
    if target:
        t = QuantumFloat(p, -p)
        res = QPE(qv, U, target=t, iter_spec=spec, ctrl_method=method, **o)
        ctx.require(res is t, "the target variable is not returned")
    else:
        res = QPE(qv, U, precision=p, iter_spec=spec, ctrl_method=method, **o)
    ctx.require(res.size == p and res.exponent == -p, f"estimate has {res.size} digits and exponent {res.exponent}")
    psi = D.random_state(ctx.rng, n)
    merge([qv, res])
    qubits = list(qv) + list(res)
    full = np.concatenate([psi, np.zeros(2 ** (n + p) - 2**n)])
    got = D.run(qv.qs.copy(), qubits, full, "phase estimation")
    ctx.observe("estimation", ctx.last, True)
    d = float(np.linalg.norm(got - qpe_reference(D.matrix(gates, n), psi, p)))
    ctx.require(d < 5e-4, f"deviation {d:.4f} from the phase estimation state")


def estimation_traced(ctx):
    """phase estimation in traced programs with dynamic precision"""
    py = ctx.py
    n, p = py.randint(1, 2), py.randint(1, 3)
    gates = D.random_gates(py, n, py.randint(1, 3))
    spec = py.random() < 0.4
    ctx.last = f"traced phase estimation of {gates} on {n} qubits with {p} digits, iteration argument {spec}"

    def U(arg, iter=None):
        if iter is None:
            D.apply(gates, arg)
        else:
            for _ in qrisp.jrange(iter):
                D.apply(gates, arg)

    def main(p):
        qv = QuantumVariable(n)
        res = QPE(qv, U, precision=p, iter_spec=spec)
        return qv, res

    out = make_jaspr(main)(2).to_qc(p)
    regs = regs_of(out)
    psi = D.random_state(ctx.rng, n)
    full = np.concatenate([psi, np.zeros(2 ** (n + p) - 2**n)])
    got = D.run(out[-1], regs[0] + regs[1], full, "phase estimation")
    ctx.observe("estimation_traced", ctx.last, True)
    d = float(np.linalg.norm(got - qpe_reference(D.matrix(gates, n), psi, p)))
    ctx.require(d < 5e-4, f"deviation {d:.4f} from the phase estimation state")


def iterative_estimation(ctx):
    """iterative phase estimation of eigenstates with exactly representable phases"""
    py = ctx.py
    p = py.randint(1, 4)
    k = py.randrange(2**p)
    phi = k / 2**p
    spec = py.random() < 0.5
    split = py.random()
    ctx.last = f"iterative phase estimation of phase {phi} with {p} digits, iteration argument {spec}"

    def U(arg, iter=None):
        if iter is None:
            qrisp.p(2 * np.pi * phi * split, arg[0])
            qrisp.p(2 * np.pi * phi * (1 - split), arg[1])
        else:
            qrisp.p(2 * np.pi * phi * split * iter, arg[0])
            qrisp.p(2 * np.pi * phi * (1 - split) * iter, arg[1])

    @jaspify
    def main():
        qv = QuantumVariable(2)
        qrisp.x(qv)
        return IQPE(qv, U, precision=p, iter_spec=spec)

    got = float(main())
    ctx.observe("iterative_estimation", ctx.last, True)
    if abs(got - phi) > 1e-6:
        ctx.require(False, f"estimated phase {got}, expected {phi}", mech="iqpe-doubled-phase" if abs(got - (2 * phi) % 1) < 1e-6 else None)


def reflector(n, idx_qubits, u, phase):
    """u((1-e^{i phase})|0><0| - 1)u^+ with the projector on some qubits"""
    proj = np.diag([1.0 if all(not (v >> q) & 1 for q in idx_qubits) else 0.0 for v in range(2**n)]).astype(complex)
    return u @ ((1 - np.exp(1j * phase)) * proj - np.eye(2**n)) @ u.conj().T


def make_args(py, total=4):
    """arguments for reflections: variables and arrays; returns objects, flattened list of qubit positions"""
    objs, spec, used = [], [], 0
    for _ in range(py.randint(1, 2)):
        left = total - used
        if left <= 0:
            break
        k = py.choice(["var", "var", "array", "array2", "bool"])
        if k == "array2" and left >= 4:
            spec.append(("array2", 1, 4))
            used += 4
        elif k in ("array", "array2") and left >= 2:
            s = py.choice([1, 1, 2]) if left >= 4 else 1
            spec.append(("array", s, 2))
            used += 2 * s
        elif k == "bool":
            spec.append(("bool", 1, 1))
            used += 1
        else:
            s = py.randint(1, min(3, left))
            spec.append(("var", s, 1))
            used += s
    return spec, used


def build_args(spec):
    objs, flat = [], []
    for k, s, m in spec:
        if k == "var":
            o = QuantumVariable(s)
            flat.append(list(o))
        elif k == "bool":
            o = QuantumBool()
            flat.append(list(o))
        else:
            o = QuantumArray(QuantumFloat(s), (2, 2) if k == "array2" else (m,))
            flat += [list(v) for v in o.flatten()]
        objs.append(o)
    return objs, flat


def flatten_args(args):
    out = []
    for a in args:
        if isinstance(a, QuantumArray):
            for v in a.flatten():
                out += list(v)
        else:
            out += list(a)
    return out


def reflect(ctx):
    """reflections about prepared states, also controlled"""
    py = ctx.py
    spec, n = make_args(py)
    gates = D.random_gates(py, n) if py.random() < 0.7 else None
    phase = np.pi if py.random() < 0.5 else round(py.uniform(-3, 3), 3)
    ctrl = py.random() < 0.5
    objs, flat = build_args(spec)
    idx = None
    if py.random() < 0.4:
        idx = sorted(py.sample(range(len(flat)), py.randint(1, len(flat))))
    extra = py.random() < 0.3 and gates
    ctx.last = f"reflection of {spec} about {gates}, phase {phase}, indices {idx}, controlled {ctrl}, extra arguments {bool(extra)}"

    def state(*a, flag=None):
        if extra:
            assert flag == 3 and a[-1] == "tag"
            a = a[:-1]
        D.apply(gates, flatten_args(a))

    o = {"phase": phase}
    if idx is not None:
        o["reflection_indices"] = idx
    if gates:
        o["state_function"] = state
        if extra:
            o["args"] = ["tag"]
            o["kwargs"] = {"flag": 3}
    arg = objs[0] if len(objs) == 1 and py.random() < 0.7 else objs
    qubits = sum(flat, [])
    if ctrl:
        b = QuantumBool()
        merge(objs + [b])
        with control(b):
            reflection(arg, **o)
    else:
        merge(objs)
        reflection(arg, **o)
    pos, where = 0, []
    for f in flat:
        where.append(list(range(pos, pos + len(f))))
        pos += len(f)
    sel = sum([where[i] for i in (idx if idx is not None else range(len(flat)))], [])
    m = reflector(n, sel, D.matrix(gates or [], n), phase)
    if ctrl:
        m = D.controlled(m, (1, 1), n)
        qubits = qubits + [b[0]]
    psi = D.random_state(ctx.rng, len(qubits))
    qs = objs[0].qs
    got = D.run(qs.copy(), qubits, psi, "reflection")
    ctx.observe("reflect", ctx.last, True)
    d = float(np.linalg.norm(got - m @ psi))
    ctx.require(d < 3e-4, f"deviation {d:.4f} from the reflection")


def reflect_traced(ctx):
    """reflections in traced programs, dynamic sizes and phases"""
    py = ctx.py
    n, m = py.randint(1, 3), py.randint(1, 2)
    two = py.random() < 0.6
    total = n + m if two else n
    angle = round(py.uniform(-3, 3), 3)
    phase = np.pi if py.random() < 0.5 else round(py.uniform(-3, 3), 3)
    use = py.choice([None, [0], [1], [1, 0]]) if two else None
    ctrl = py.random() < 0.4
    ctx.last = f"traced reflection, sizes {n} {m if two else ''}, angle {angle}, phase {phase}, indices {use}, controlled {ctrl}"

    def state(a, b=None):
        for i in qrisp.jrange(a.size):
            qrisp.ry(angle, a[i])
        if b is not None:
            qrisp.cx(a[0], b[0])
            qrisp.rz(angle, b[0])

    def main(n, m, phase):
        a = QuantumFloat(n)
        b = QuantumFloat(m)
        c = QuantumBool()
        args = [a, b] if two else [a]
        o = {"phase": phase}
        if use is not None:
            o["reflection_indices"] = use
        if ctrl:
            with control(c[0]):
                reflection(args, state, **o)
        else:
            reflection(args, state, **o)
        return a, b, c

    out = make_jaspr(main)(1, 1, 0.5).to_qc(n, m, phase)
    ra, rb, rc = regs_of(out)
    gates = [("ry", angle, [i]) for i in range(n)]
    if two:
        gates += [("cx", None, [0, n]), ("rz", angle, [n])]
    qubits = ra + (rb if two else [])
    where = [list(range(n)), list(range(n, total))]
    sel = sum([where[i] for i in (use if use is not None else range(2 if two else 1))], [])
    mm = reflector(total, sel, D.matrix(gates, total), phase)
    if ctrl:
        mm = D.controlled(mm, (1, 1), total)
        qubits = qubits + rc
    psi = D.random_state(ctx.rng, len(qubits))
    got = D.run(out[-1], qubits, psi, "reflection")
    ctx.observe("reflect_traced", ctx.last, True)
    d = float(np.linalg.norm(got - mm @ psi))
    ctx.require(d < 3e-4, f"deviation {d:.4f} from the reflection")


def amplify(ctx, monitor="amplify"):
    """amplitude amplification equals repeated oracle and reflection"""
    py = ctx.py
    spec, n = make_args(py, 3)
    gates, oracle = D.random_gates(py, n), D.random_gates(py, n, 3)
    good = sorted(py.sample(range(2**n), py.randint(1, 2**n - 1)))
    iters = py.randint(0, 4)
    ctrl = py.random() < 0.3
    kw = py.random() < 0.3
    objs, flat = build_args(spec)
    idx = None
    if py.random() < 0.3:
        idx = sorted(py.sample(range(len(flat)), py.randint(1, len(flat))))
    simple = py.random() < 0.5
    ctx.last = f"amplification of {spec} prepared by {gates}, oracle {oracle if simple else good}, {iters} iterations, indices {idx}, controlled {ctrl}, keyword {kw}"

    def state(*a):
        D.apply(gates, flatten_args(a))

    def orc(*a, flag=None):
        assert flag == (5 if kw else None)
        qb = flatten_args(a)
        if simple:
            D.apply(oracle, qb)
        else:
            for g in good:
                qrisp.mcp(np.pi, qb, ctrl_state="".join(str((g >> i) & 1) for i in range(n)))

    o = {"iter": iters}
    if kw:
        o["kwargs_oracle"] = {"flag": 5}
    if idx is not None:
        o["reflection_indices"] = idx
    arg = objs[0] if len(objs) == 1 and py.random() < 0.6 else objs
    qubits = sum(flat, [])
    if ctrl:
        b = QuantumBool()
        merge(objs + [b])
        with control(b):
            amplitude_amplification(arg, state, orc, **o)
    else:
        merge(objs)
        amplitude_amplification(arg, state, orc, **o)
    pos, where = 0, []
    for f in flat:
        where.append(list(range(pos, pos + len(f))))
        pos += len(f)
    sel = sum([where[i] for i in (idx if idx is not None else range(len(flat)))], [])
    om = D.matrix(oracle, n) if simple else np.diag([-1.0 if v in good else 1.0 for v in range(2**n)])
    m = np.linalg.matrix_power(reflector(n, sel, D.matrix(gates, n), np.pi) @ om, iters)
    if ctrl:
        m = D.controlled(m, (1, 1), n)
        qubits = qubits + [b[0]]
    psi = D.random_state(ctx.rng, len(qubits))
    got = D.run(objs[0].qs.copy(), qubits, psi, "amplification")
    ctx.observe(monitor, ctx.last, True)
    d = float(np.linalg.norm(got - m @ psi))
    ctx.require(d < 1e-3, f"deviation {d:.4f} from repeated oracle and reflection")


def amplify_traced(ctx):
    """amplification with dynamic iteration count"""
    py = ctx.py
    n = py.randint(1, 3)
    gates = D.random_gates(py, n)
    good = py.randrange(2**n)
    iters = py.randint(0, 4)
    ctx.last = f"traced amplification of {n} qubits prepared by {gates}, marked {good}, {iters} iterations"

    def state(a):
        D.apply(gates, a)

    def orc(a):
        qrisp.mcp(np.pi, [a[i] for i in range(n)], ctrl_state=good) if n > 1 else (qrisp.z(a[0]) if good else (qrisp.x(a[0]), qrisp.z(a[0]), qrisp.x(a[0])))

    def main(k):
        a = QuantumFloat(n)
        amplitude_amplification([a], state, orc, iter=k)
        return a

    out = make_jaspr(main)(1).to_qc(iters)
    om = np.diag([-1.0 if v == good else 1.0 for v in range(2**n)])
    m = np.linalg.matrix_power(reflector(n, range(n), D.matrix(gates, n), np.pi) @ om, iters)
    psi = D.random_state(ctx.rng, n)
    got = D.run(out[-1], regs_of(out)[0], psi, "amplification")
    ctx.observe("amplify_traced", ctx.last, True)
    d = float(np.linalg.norm(got - m @ psi))
    ctx.require(d < 1e-3, f"deviation {d:.4f} from repeated oracle and reflection")


def amplitude_estimate(ctx):
    """amplitude estimation produces the phase estimation state of the amplification operator"""
    py = ctx.py
    n, p = py.randint(1, 2), py.randint(1, 3)
    gates = D.random_gates(py, n)
    target = py.random() < 0.4
    ctx.last = f"amplitude estimation of {gates} on {n} qubits, {p} digits, target {target}"

    def state(a):
        D.apply(gates, list(a))

    def orc(a, q=0):
        qrisp.z(a[q])

    qv = QuantumVariable(n)
    o = {"target": QuantumFloat(p, -p)} if target else {"precision": p}
    res = QAE([qv] if py.random() < 0.5 else qv, state, orc, kwargs_oracle={"q": n - 1}, **o)
    qm = D.matrix(gates, n)
    zero = np.zeros(2**n, dtype=complex)
    zero[0] = 1
    u = reflector(n, range(n), qm, np.pi) @ np.diag([-1.0 if (v >> (n - 1)) & 1 else 1.0 for v in range(2**n)])
    got = D.run(qv.qs.copy(), list(qv) + list(res), None, "amplitude estimation")
    ctx.observe("amplitude_estimate", ctx.last, True)
    d = float(np.linalg.norm(got - qpe_reference(u, qm @ zero, p)))
    ctx.require(d < 1e-3, f"deviation {d:.4f} from the estimation state")


def iterative_amplitude(ctx):
    """iterative amplitude estimation is within the requested accuracy"""
    py = ctx.py
    theta = round(py.uniform(0.05, np.pi - 0.05), 3)
    if py.random() < 0.3:
        # probabilities next to the ends of the interval
        theta = py.choice([0.0, 0.03, 0.06, 0.1, 0.2])
        theta = theta if py.random() < 0.6 else round(np.pi - theta, 3)
    eps = py.choice([0.1, 0.05, 0.02])
    n = py.randint(1, 2)
    traced = py.random() < 0.5
    ctx.last = f"iterative amplitude estimation, angle {theta}, accuracy {eps}, {n} variables, traced {traced}"

    def state(*args):
        if n == 2:
            qrisp.h(args[0][0])
        qrisp.ry(theta, args[-1][0])

    want = math.sin(theta / 2) ** 2
    if traced:

        @jaspify(terminal_sampling=True)
        def main():
            def init():
                return [QuantumFloat(1) for _ in range(n - 1)] + [QuantumBool()]

            return IQAE(init, state, eps, 1e-7)

        got = float(main())
    else:
        got = float(IQAE([QuantumFloat(1) for _ in range(n - 1)] + [QuantumBool()], state, eps, 1e-7, **({"mes_kwargs": {}} if py.random() < 0.5 else {})))
    ctx.observe("iterative_amplitude", ctx.last, True)
    ctx.require(abs(got - want) <= eps * 1.001, f"estimate {got}, expected {want} within {eps}")


def lcu_parts(py, n, k):
    prep = D.random_gates(py, max(1, math.ceil(math.log2(k))), 4)
    us = [D.random_gates(py, n, py.randint(1, 3)) for _ in range(k)]
    return prep, us


def lcu_matrix(prep, us, n, k, oaa):
    q = max(1, math.ceil(math.log2(k)))
    sel = np.eye(2 ** (n + q), dtype=complex)
    for i, g in enumerate(us):
        sel[i * 2**n : (i + 1) * 2**n, i * 2**n : (i + 1) * 2**n] = D.matrix(g, n)
    a = np.kron(D.matrix(prep, q), np.eye(2**n))
    w = a.conj().T @ sel @ a
    tag = np.kron(np.diag([-1.0] + [1.0] * (2**q - 1)), np.eye(2**n))
    r = w @ np.kron(2 * np.diag([1.0] + [0.0] * (2**q - 1)) - np.eye(2**q), np.eye(2**n)) @ w.conj().T
    return np.linalg.matrix_power(r @ tag, oaa) @ w


def combination(ctx):
    """linear combinations of unitaries: amplitudes of the flag-zero branch and of the whole state"""
    py = ctx.py
    n, k = py.randint(1, 2), py.choice([2, 2, 3, 4, 4, 5])
    prep, us = lcu_parts(py, n, k)
    oaa = py.choice([0, 0, 1, 2])
    ind = D.random_gates(py, n, 3)
    traced = py.random() < 0.2 and k in (2, 4)
    ctx.last = f"linear combination of {us} with preparation {prep}, {oaa} amplification rounds, operand {ind}, traced {traced}"
    fs = [(lambda op, g=g: D.apply(g, op)) for g in us]

    def operand():
        qv = QuantumVariable(n)
        D.apply(ind, qv)
        return qv

    def state(c):
        D.apply(prep, c)

    q = max(1, math.ceil(math.log2(k)))
    if traced and k == 2:

        def main():
            c, o = inner_LCU(operand, state, fs, oaa_iter=oaa)
            return c, o

        out = make_jaspr(main)().to_qc()
        rc, ro = regs_of(out)
        qc = out[-1]
    else:
        c, o = inner_LCU(operand, state, fs, oaa_iter=oaa)
        rc, ro, qc = list(c), list(o), c.qs.copy()
    start = np.zeros(2 ** (n + q), dtype=complex)
    start[: 2**n] = D.matrix(ind, n)[:, 0]
    # unitaries beyond the given ones never act on the case register values above k
    want = lcu_matrix(prep, us, n, k, oaa) @ start
    got = D.run(qc, ro + rc, None, "linear combination")
    ctx.observe("combination", ctx.last, True)
    d = float(np.linalg.norm(got - want))
    ctx.require(d < 1e-3, f"deviation {d:.4f} from the linear combination")


def combination_success(ctx):
    """repeat-until-success linear combinations deliver the normalised combination"""
    py = ctx.py
    n = py.randint(1, 2)
    prep, us = lcu_parts(py, n, 2)
    ind = D.random_gates(py, n, 3)
    w = lcu_matrix(prep, us, n, 2, 0)[: 2**n, : 2**n] @ D.matrix(ind, n)[:, 0]
    if np.linalg.norm(w) < 0.4:
        raise Skip("success too rare")
    probs = np.abs(w) ** 2 / np.linalg.norm(w) ** 2
    ctx.last = f"combination of {us} until success, preparation {prep}, operand {ind}"
    fs = [(lambda op, g=g: D.apply(g, op)) for g in us]

    def operand():
        qv = QuantumFloat(n)
        D.apply(ind, qv)
        return qv

    def state(c):
        D.apply(prep, c)

    shots = 4000

    @terminal_sampling(shots=shots)
    def main():
        return LCU(operand, state, fs)

    res = main()
    tot = sum(res.values())
    ctx.observe("combination_success", ctx.last, True)
    for v in range(2**n):
        f = res.get(v, res.get(float(v), 0)) / tot
        ctx.require(abs(f - probs[v]) < 7 * math.sqrt(max(probs[v] * (1 - probs[v]), 0) / shots) + 0.005, f"frequency of {v} is {f}, expected {probs[v]}")


def dicke(ctx):
    """Dicke states"""
    py = ctx.py
    n = py.randint(2, 5)
    k = py.randint(0, n)
    traced = py.random() < 0.3
    ctx.last = f"Dicke state {n} {k} traced {traced}"
    if traced:

        def main(n, k):
            qv = QuantumFloat(n)
            for i in qrisp.jrange(k):
                qrisp.x(qv[n - 1 - i])
            dicke_state(qv, k)
            return qv

        out = make_jaspr(main)(2, 1).to_qc(n, k)
        got = D.run(out[-1], regs_of(out)[0], None, "Dicke state")
    else:
        qv = QuantumVariable(n)
        for i in range(k):
            qrisp.x(qv[n - 1 - i])
        dicke_state(qv, k)
        got = D.run(qv.qs.copy(), list(qv), None, "Dicke state")
    want = np.array([1.0 if bin(v).count("1") == k else 0.0 for v in range(2**n)])
    want = want / np.linalg.norm(want)
    ctx.observe("dicke", ctx.last, True)
    d = D.phase_distance(got, want)
    ctx.require(d < 1e-3, f"deviation {d:.4f} from the Dicke state")


def wstate(ctx):
    """W states with given amplitudes"""
    py = ctx.py
    from qrisp.alg_primitives.unbalanced_w_state import unbalanced_w_state

    n = py.randint(1, 5)
    amps = np.array([py.choice([0, 1, -1, 1j, py.gauss(0, 1) + 1j * py.gauss(0, 1)]) for _ in range(n)], dtype=complex)
    if np.linalg.norm(amps) < 1e-3:
        amps[py.randrange(n)] = 1
    traced = py.random() < 0.2
    ctx.last = f"W state {amps.tolist()} traced {traced}"
    if traced:

        def main():
            qv = QuantumFloat(n)
            unbalanced_w_state(qv, amps)
            return qv

        out = make_jaspr(main)().to_qc()
        got = D.run(out[-1], regs_of(out)[0], None, "W state")
    else:
        qv = QuantumVariable(n)
        unbalanced_w_state(qv, amps)
        got = D.run(qv.qs.copy(), list(qv), None, "W state")
    want = np.zeros(2**n, dtype=complex)
    for i in range(n):
        want[1 << i] = amps[i]
    want /= np.linalg.norm(want)
    ctx.observe("wstate", ctx.last, True)
    d = float(np.linalg.norm(got - want))
    ctx.require(d < 1e-3, f"deviation {d:.4f} from the W state")


FAMILIES = {
    "fourier": fourier,
    "fourier_traced": fourier_traced,
    "estimation": estimation,
    "estimation_traced": estimation_traced,
    "iterative_estimation": iterative_estimation,
    "reflect": reflect,
    "reflect_traced": reflect_traced,
    "amplify": amplify,
    "amplify_traced": amplify_traced,
    "amplitude_estimate": amplitude_estimate,
    "iterative_amplitude": iterative_amplitude,
    "combination": combination,
    "combination_success": combination_success,
    "dicke": dicke,
    "wstate": wstate,
}
