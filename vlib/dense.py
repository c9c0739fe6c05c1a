"""Dense little-endian linear algebra used as reference: bit i of an index belongs to qubit i."""

import numpy as np

from vlib import qs as Q

H = np.array([[1, 1], [1, -1]], dtype=complex) / np.sqrt(2)
X = np.array([[0, 1], [1, 0]], dtype=complex)


def one(g, par):
    if g == "h":
        return H
    if g == "x":
        return X
    if g == "ry":
        c, s = np.cos(par / 2), np.sin(par / 2)
        return np.array([[c, -s], [s, c]], dtype=complex)
    if g == "rz":
        return np.diag([np.exp(-0.5j * par), np.exp(0.5j * par)])
    if g == "rx":
        c, s = np.cos(par / 2), np.sin(par / 2)
        return np.array([[c, -1j * s], [-1j * s, c]])
    if g == "p":
        return np.diag([1, np.exp(1j * par)])
    raise KeyError(g)


def random_gates(py, n, k=None, real=False):
    """list of (name, parameter, qubits)"""
    out = []
    for _ in range(k if k is not None else py.randint(2, 3 + 2 * n)):
        g = py.choice(["h", "ry", "x", "cx"] if real else ["h", "ry", "rz", "p", "rx", "cx", "cp", "x"])
        if g in ("cx", "cp"):
            if n < 2:
                continue
            q = py.sample(range(n), 2)
        else:
            q = [py.randrange(n)]
        par = round(py.uniform(-3, 3), 3) if g in ("ry", "rz", "p", "rx", "cp") else None
        out.append((g, par, q))
    return out


def apply(gates, qubits):
    import qrisp

    for g, par, q in gates:
        f = getattr(qrisp, g)
        args = [qubits[i] for i in q]
        f(*args) if par is None else f(par, *args)


def lift(m, qs, n):
    """matrix m on the qubits qs (first qubit = lowest bit of m) in n qubits"""
    k = len(qs)
    out = np.zeros((2**n, 2**n), dtype=complex)
    rest = [i for i in range(n) if i not in qs]
    for r in range(2 ** len(rest)):
        base = sum(((r >> j) & 1) << q for j, q in enumerate(rest))
        idx = [base + sum(((v >> j) & 1) << q for j, q in enumerate(qs)) for v in range(2**k)]
        out[np.ix_(idx, idx)] = m
    return out


def matrix(gates, n):
    u = np.eye(2**n, dtype=complex)
    for g, par, q in gates:
        if g == "cx":
            m = np.array([[1, 0, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0], [0, 1, 0, 0]], dtype=complex)
        elif g == "cp":
            m = np.diag([1, 1, 1, np.exp(1j * par)])
        else:
            m = one(g, par)
        u = lift(m, q, n) @ u
    return u


def random_state(rng, n):
    psi = rng.normal(size=2**n) + 1j * rng.normal(size=2**n)
    return psi / np.linalg.norm(psi)


def run(qc, qubits, psi=None, what="program", clean=True, **kw):
    """dense output state on the qubits (in order, first = lowest bit) for the dense input state psi (default |0>)"""
    n = len(qubits)
    rows = None
    if psi is not None:
        keep = [v for v in range(2**n) if abs(psi[v]) > 1e-14]
        rows = Q.rows_for(qc, [qubits], [(v,) for v in keep], np.array([psi[v] for v in keep]))
    got = Q.amplitudes(qc, [qubits], rows, what=what, clean=clean, **kw)
    out = np.zeros(2**n, dtype=complex)
    for (v,), a in got.items():
        out[v] += a
    return out


def controlled(u, pattern, n):
    """u on the low n qubits applied when the following control qubits hold the pattern (value)"""

    k = max(1, pattern[1])
    full = np.eye(2 ** (n + k), dtype=complex)
    v = pattern[0]
    full[v * 2**n : (v + 1) * 2**n, v * 2**n : (v + 1) * 2**n] = u
    return full


def phase_distance(a, b):
    """distance up to a global phase"""
    w = np.vdot(b, a)
    ph = w / abs(w) if abs(w) > 1e-12 else 1
    return float(np.linalg.norm(a - ph * b))


def bitrev(n):
    r = np.zeros((2**n, 2**n))
    for v in range(2**n):
        r[int(format(v, f"0{n}b")[::-1], 2) if n else 0, v] = 1
    return r
