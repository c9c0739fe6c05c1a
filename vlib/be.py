"""Random block encodings together with the dense matrices they stand for (little-endian operand values)."""

import numpy as np

from vlib import dense as D
from vlib import opref as R
from vlib import qs as Q

import qrisp
from qrisp import QuantumBool, QuantumFloat, QuantumVariable, merge
from qrisp.block_encodings import BlockEncoding
from qrisp.operators import X, Y, Z, A, C, P0, P1, QubitOperator, QubitTerm

F = {"X": X, "Y": Y, "Z": Z, "A": A, "C": C, "P0": P0, "P1": P1}
PAULI = ["X", "Y", "Z"]


def operator(py, n, letters=PAULI, k=None, cplx=False):
    """random operator (text, object, matrix)"""
    op, m, text = 0, np.zeros((2**n, 2**n), dtype=complex), []
    for _ in range(k or py.randint(1, 3)):
        f = {i: py.choice(letters) for i in py.sample(range(n), py.randint(0, n))}
        c = round(py.uniform(-2, 2), 3) or 0.5
        if cplx:
            c = complex(c, round(py.uniform(-2, 2), 3))
        t = 1
        for i in f:
            t = t * F[f[i]](i)
        op = op + c * t
        m = m + c * R.string({n - 1 - i: s for i, s in f.items()}, n)
        text.append(f"{c}*{f}")
    if not isinstance(op, QubitOperator):
        op = QubitOperator({QubitTerm({}): op})
    return op, m, " + ".join(text)


class Node:
    """block encoding under construction: description, builder and matrix"""

    def __init__(self, text, build, m, ops=1):
        self.text, self.build, self.m, self.ops = text, build, m, ops


def leaf(py, rng, n, hermitian=False, kinds=None):
    kinds = kinds or (["operator", "array", "lcu", "projector"] if hermitian else ["operator", "operator", "array", "eye", "lcu", "lcu", "projector", "custom"])
    kind = py.choice(kinds)
    if kind == "operator":
        op, m, t = operator(py, n, *([PAULI, None, False] if py.random() < 0.6 else [R.LETTERS, 2, True]))
        m = R.herm(m)
        if np.linalg.norm(m) < 1e-3:
            return leaf(py, rng, n, hermitian, kinds)
        return Node(f"from_operator({t})", lambda: BlockEncoding.from_operator(op), m)
    if kind == "array":
        k = 2**n
        m = np.zeros((k, k), dtype=complex)
        for _ in range(py.randint(1, k + 1)):
            m[py.randrange(k), py.randrange(k)] = py.choice([1, -1, 0.5, round(py.uniform(-2, 2), 2)]) * (1 if py.random() < 0.6 else 1j)
        h = R.herm(m)
        if np.linalg.norm(h) < 1e-3:
            return leaf(py, rng, n, hermitian, kinds)
        if np.abs(m.imag).max() == 0:
            m = m.real
        form = py.choice(["dense", "dense", "csr"])
        arg = m
        if form == "csr":
            from scipy.sparse import csr_array

            arg = csr_array(m)
        return Node(f"from_array({form} {m.tolist()})", lambda: BlockEncoding.from_array(arg), h)
    if kind == "eye":
        k = py.randint(-(2**n) + 1, 2**n - 1)
        return Node(f"from_eye({k})", lambda: BlockEncoding.from_eye(k), np.eye(2**n, k=k, dtype=complex))
    if kind == "lcu":
        m = py.choice([1, 2, 2, 3, 4])
        gs = [D.random_gates(py, n, py.randint(0, 3)) for _ in range(m)]
        if hermitian:
            gs = [[(py.choice(["x", "h"]), None, [i]) for i in range(n) if py.random() < 0.6] for _ in range(m)]
        style = py.choice(["positive", "positive", "negative"] if hermitian or m == 1 else ["positive", "negative", "complex"])
        cs = [round(py.uniform(0.2, 2), 3) for _ in gs]
        if style == "negative":
            cs = [c * py.choice([1, -1]) for c in cs]
            cs[py.randrange(m)] *= -1
        if style == "complex":
            cs = [c * np.exp(1j * py.uniform(-3, 3)) for c in cs]
        mat = sum(c * D.matrix(g, n) for c, g in zip(cs, gs))
        fns = [(lambda g: (lambda qv: D.apply(g, qv)))(g) for g in gs]
        kw = {"is_hermitian": True} if hermitian and py.random() < 0.7 else {}
        return Node(f"from_lcu({np.round(cs, 3).tolist()}, {gs}, {kw})", lambda: BlockEncoding.from_lcu(np.array(cs), fns, **kw), mat)
    if kind == "projector":
        def state():
            if py.random() < 0.5:
                v = py.randrange(2**n)
                e = np.zeros(2**n, dtype=complex)
                e[v] = 1
                return v, e, str(v)
            g = D.random_gates(py, n, py.randint(1, 4))
            return (lambda qv: D.apply(g, qv)), D.matrix(g, n)[:, 0], str(g)

        l, lv, lt = state()
        form = py.choice(["kernel", "single"] if hermitian else ["kernel", "single", "pair", "pair"])
        if form == "pair":
            r, rv, rt = state()
            return Node(f"from_projector({lt}, {rt})", lambda: BlockEncoding.from_projector(l, r), np.outer(lv, rv.conj()))
        if form == "kernel":
            return Node(f"from_projector({lt}, kernel)", lambda: BlockEncoding.from_projector(l, kernel=True), np.eye(2**n) - np.outer(lv, lv.conj()))
        return Node(f"from_projector({lt})", lambda: BlockEncoding.from_projector(l), np.outer(lv, lv.conj()))
    # unitary given by the user
    k = py.randint(1, 2)
    g = D.random_gates(py, n + k, py.randint(3, 8))
    alpha = round(py.uniform(0.5, 3), 2)

    def unitary(anc, op):
        D.apply(g, [op[i] for i in range(n)] + [anc[i] for i in range(k)])

    anc = QuantumFloat(k) if k > 1 or py.random() < 0.5 else QuantumBool()
    u = D.matrix(g, n + k)
    return Node(f"custom({alpha}, {k} ancillae, {g})", lambda: BlockEncoding(alpha, [anc] if py.random() < 0.5 else [anc.template()], unitary), alpha * u[: 2**n, : 2**n])


def list_of(qv):
    return [qv[i] for i in range(qv.size)] if not isinstance(qv, list) else qv


def tree(py, rng, n, depth, hermitian=False):
    if depth == 0 or py.random() < 0.25:
        return leaf(py, rng, n, hermitian)
    op = py.choice(["add", "add", "sub", "sub", "scale", "neg", "matmul", "matmul", "dagger"] if not hermitian else ["add", "sub", "scale", "neg", "dagger"])
    a = tree(py, rng, n, depth - 1, hermitian)
    if op == "scale":
        c = py.choice([2, -1, 0.5, round(py.uniform(-2, 2), 2) or 0.3])
        if py.random() < 0.5:
            return Node(f"({a.text}) * {c}", lambda: a.build() * c, c * a.m)
        return Node(f"{c} * ({a.text})", lambda: c * a.build(), c * a.m)
    if op == "neg":
        return Node(f"-({a.text})", lambda: -a.build(), -a.m)
    if op == "dagger":
        return Node(f"({a.text}).dagger()", lambda: a.build().dagger(), a.m.conj().T)
    b = tree(py, rng, n, depth - 1, hermitian)
    if op == "add":
        return Node(f"({a.text}) + ({b.text})", lambda: a.build() + b.build(), a.m + b.m)
    if op == "sub":
        return Node(f"({a.text}) - ({b.text})", lambda: a.build() - b.build(), a.m - b.m)
    return Node(f"({a.text}) @ ({b.text})", lambda: a.build() @ b.build(), a.m @ b.m)


def apply_static(be, sizes, times=1):
    """(circuit, operand qubits, ancilla qubits) of the unitary applied to fresh registers"""
    ops = [QuantumFloat(s) for s in sizes]
    ancs = be.create_ancillas()
    for _ in range(times):
        be.unitary(*ancs, *ops)
    if len(ops + ancs) > 1:
        merge(ops + ancs)
    return ops[0].qs.copy(), [list(o) for o in ops], [list(a) for a in ancs]


def project(qc, ops, ancs, psi, what):
    """part of the output with all ancillae in |0>"""
    q = sum(ops, [])
    a = sum(ancs, [])
    full = np.zeros(2 ** (len(q) + len(a)), dtype=complex)
    full[: 2 ** len(q)] = psi
    out = D.run(qc, q + a, full, what)
    return out[: 2 ** len(q)]


def error(be, m, out, psi):
    """distance between the encoded operator and the matrix on a state, relative to the normalisation"""
    alpha = complex(be.alpha)
    return float(np.linalg.norm(alpha * out - m @ psi)) / max(1.0, abs(alpha), np.linalg.norm(m, 2))
