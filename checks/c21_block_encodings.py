PROPERTY = "C21"
RULE = "one evaluation = one block encoding (constructor, expression of block encodings, walk operator, Chebyshev operator, declared symmetry, sampled application or estimated expectation value) whose ancilla-zero block, read off the emitted circuit, is compared with dense matrices; distinct = distinct (expression, mode)"
PLAN = {
    "quick": {"constructors": 160, "expressions": 160, "products": 40, "several_operands": 40, "traced": 16, "controlled": 60, "walk": 70, "chebyshev": 50, "symmetry": 120, "application": 6, "expectation": 10, "rejections": 10, "activation": 60, "custom_activation": 40},
    "thorough": {"constructors": 1600, "expressions": 1600, "products": 400, "several_operands": 400, "traced": 100, "controlled": 500, "walk": 700, "chebyshev": 500, "symmetry": 1000, "application": 40, "expectation": 80, "rejections": 60, "activation": 500, "custom_activation": 300},
}
REQUIRED_MONITORS = ["constructor", "expression", "product", "several_operands", "traced", "controlled", "walk", "chebyshev", "symmetry", "normalisation", "application", "expectation", "rejection", "activation", "custom_activation"]
ASSUMPTIONS = [
    "matrices from arrays and operators are judged by their Hermitian part, as documented",
    "walk and Chebyshev operators are judged for Hermitian encoded operators",
    "expectation values are estimated with 40000 shots and judged within 6 standard deviations",
]
CASE_TIMEOUT = 240
# --- end of plan ---
import numpy as np

from vlib import be as B
from vlib import dense as D
from vlib import opref as R
from vlib import qs as Q
from vlib.harness import Skip

import qrisp
from qrisp import QuantumBool, QuantumFloat, QuantumVariable, control, invert, merge
from qrisp.block_encodings import BlockEncoding
from qrisp.jasp import make_jaspr, terminal_sampling

LIMIT = 11


def build(ctx, node):
    be = node.build()
    alpha = complex(be.alpha)
    ctx.observe("normalisation", ctx.last, True)
    ctx.require(abs(alpha.imag) < 1e-9 and alpha.real >= np.linalg.norm(node.m, 2) - 1e-4 * max(1, abs(alpha)), f"normalisation factor {alpha} for an operator of norm {np.linalg.norm(node.m, 2):.4f}")
    return be


def judge(ctx, monitor, be, node, sizes, what):
    qc, ops, ancs = B.apply_static(be, sizes)
    if sum(map(len, ops + ancs)) > LIMIT:
        raise Skip("too many qubits")
    psi = D.random_state(ctx.rng, sum(sizes))
    out = B.project(qc, ops, ancs, psi, what)
    ctx.observe(monitor, ctx.last, True)
    d = B.error(be, node.m, out, psi)
    ctx.require(d < 3e-4, f"encoded operator deviates by {d:.4f} (relative to the normalisation)")


def constructors(ctx):
    """operators encoded by the constructors"""
    py = ctx.py
    n = py.randint(1, 3)
    node = B.leaf(py, ctx.rng, n)
    ctx.last = f"{node.text} on {n} qubits"
    judge(ctx, "constructor", build(ctx, node), node, [n], "block encoding")


def expressions(ctx):
    """sums, differences, multiples, negatives, adjoints and products"""
    py = ctx.py
    n = py.randint(1, 2)
    node = B.tree(py, ctx.rng, n, 2)
    ctx.last = f"{node.text} on {n} qubits"
    judge(ctx, "expression", build(ctx, node), node, [n], "block encoding expression")


def products(ctx):
    """tensor products"""
    py = ctx.py
    n1, n2 = py.randint(1, 2), py.randint(1, 2)
    a, b = B.tree(py, ctx.rng, n1, 1), B.tree(py, ctx.rng, n2, 1)
    node = B.Node(f"({a.text}).kron({b.text})", lambda: a.build().kron(b.build()), np.kron(b.m, a.m), 2)
    if py.random() < 0.3:
        inner, c = node, B.leaf(py, ctx.rng, 1, kinds=["operator", "projector"])
        node = B.Node(f"({inner.text}).kron({c.text})", lambda: inner.build().kron(c.build()), np.kron(c.m, inner.m), 3)
        sizes = [n1, n2, 1]
    else:
        sizes = [n1, n2]
        if py.random() < 0.4:
            first = node
            op = py.choice(["add", "sub", "matmul"])
            l = py.randrange(2**n1), py.randrange(2**n2)
            r = py.randrange(2**n1), py.randrange(2**n2)
            m = np.zeros((2 ** (n1 + n2),) * 2, dtype=complex)
            m[l[0] + (l[1] << n1), r[0] + (r[1] << n1)] = 1
            p = lambda: BlockEncoding.from_projector(l, r)
            text = f"({first.text}) {op} from_projector({l}, {r})"
            if op == "add":
                node = B.Node(text, lambda: first.build() + p(), first.m + m, 2)
            elif op == "sub":
                node = B.Node(text, lambda: first.build() - p(), first.m - m, 2)
            else:
                node = B.Node(text, lambda: first.build() @ p(), first.m @ m, 2)
    ctx.last = f"{node.text} on {sizes} qubits"
    judge(ctx, "product", build(ctx, node), node, sizes, "tensor product of block encodings")


def several_operands(ctx):
    """constructors with several operands"""
    py = ctx.py
    sizes = [py.randint(1, 2) for _ in range(py.randint(2, 3))]
    n = sum(sizes)
    cut = np.cumsum([0] + sizes)
    kind = py.choice(["tuple", "function", "lcu", "kernel_tuple"])
    join = lambda args: sum([B.list_of(a) for a in args], [])
    if kind in ("tuple", "kernel_tuple"):
        l = tuple(py.randrange(2**s) for s in sizes)
        r = tuple(py.randrange(2**s) for s in sizes)
        val = lambda t: sum(v << int(c) for v, c in zip(t, cut))
        if kind == "tuple":
            m = np.zeros((2**n, 2**n), dtype=complex)
            m[val(l), val(r)] = 1
            node = B.Node(f"from_projector({l}, {r})", lambda: BlockEncoding.from_projector(l, r), m)
        else:
            m = np.eye(2**n, dtype=complex)
            m[val(l), val(l)] = 0
            node = B.Node(f"from_projector({l}, kernel)", lambda: BlockEncoding.from_projector(l, kernel=True), m)
    elif kind == "function":
        g, h = D.random_gates(py, n, 5), D.random_gates(py, n, 5)
        lv, rv = D.matrix(g, n)[:, 0], D.matrix(h, n)[:, 0]
        node = B.Node(f"from_projector({g}, {h})", lambda: BlockEncoding.from_projector(lambda *a: D.apply(g, join(a)), lambda *a: D.apply(h, join(a)), num_ops=len(sizes)), np.outer(lv, rv.conj()))
    else:
        m = py.randint(2, 4)
        gs = [D.random_gates(py, n, py.randint(0, 4)) for _ in range(m)]
        cs = [round(py.uniform(0.2, 2), 3) * py.choice([1, 1, -1]) for _ in gs]
        fns = [(lambda g: (lambda *a: D.apply(g, join(a))))(g) for g in gs]
        node = B.Node(f"from_lcu({cs}, {gs})", lambda: BlockEncoding.from_lcu(np.array(cs), fns, num_ops=len(sizes)), sum(c * D.matrix(g, n) for c, g in zip(cs, gs)))
    ctx.last = f"{node.text} on {sizes} qubits"
    judge(ctx, "several_operands", build(ctx, node), node, sizes, "block encoding with several operands")


def traced(ctx):
    """block encodings in traced programs"""
    py = ctx.py
    n = py.randint(1, 2)
    node = B.tree(py, ctx.rng, n, py.randint(0, 1))
    ctx.last = f"{node.text} on {n} qubits, traced"
    if py.random() < 0.4 and False:
        pass
    be = build(ctx, node)

    def main():
        op = QuantumFloat(n)
        ancs = be.apply(op)
        return tuple([op] + list(ancs))

    out = make_jaspr(main)().to_qc()
    regs = [list(x) for x in out[:-1] if isinstance(x, (list, tuple)) and len(x) and isinstance(x[0], qrisp.Qubit)]
    if sum(map(len, regs)) > LIMIT:
        raise Skip("too many qubits")
    ctx.require(len(regs) == 1 + be.num_ancs, f"{len(regs)} registers returned")
    psi = D.random_state(ctx.rng, n)
    res = B.project(out[-1], regs[:1], regs[1:], psi, "traced block encoding")
    ctx.observe("traced", ctx.last, True)
    d = B.error(be, node.m, res, psi)
    ctx.require(d < 3e-4, f"encoded operator deviates by {d:.4f} (relative to the normalisation)")


def controlled(ctx):
    """controlled application keeps the relative phase"""
    py = ctx.py
    n = py.randint(1, 2)
    node = B.tree(py, ctx.rng, n, py.randint(0, 1))
    value = py.choice([0, 1])
    inverse = py.random() < 0.3
    ctx.last = f"{node.text} on {n} qubits, controlled on {value}, inverse {inverse}"
    be = build(ctx, node)
    b = QuantumBool()
    op = QuantumFloat(n)
    ancs = be.create_ancillas()
    with control(b, ctrl_state=value):
        if inverse:
            with invert():
                be.unitary(*ancs, op)
        else:
            be.unitary(*ancs, op)
    merge([b, op] + ancs)
    if 1 + n + sum(a.size for a in ancs) > LIMIT:
        raise Skip("too many qubits")
    psi = D.random_state(ctx.rng, n + 1)
    out = B.project(op.qs.copy(), [list(op), list(b)], [list(a) for a in ancs], psi, "controlled block encoding")
    ctx.observe("controlled", ctx.last, True)
    alpha = complex(be.alpha).real
    m = node.m.conj().T if inverse else node.m
    full = D.controlled(m / alpha, (value, 1), n)
    d = float(np.linalg.norm(out - full @ psi))
    ctx.require(d < 3e-4, f"controlled encoded operator deviates by {d:.4f}")


def cheb(m, k):
    a, b = np.eye(len(m), dtype=complex), m
    for _ in range(k):
        a, b = b, 2 * m @ b - a
    return a


def hermitian_node(ctx, n, depth):
    node = B.tree(ctx.py, ctx.rng, n, depth, hermitian=True)
    if not np.allclose(node.m, node.m.conj().T) or np.linalg.norm(node.m) < 1e-3:
        raise Skip("not Hermitian")
    return node


def walk(ctx):
    """powers of the walk operator encode Chebyshev polynomials"""
    py = ctx.py
    n = py.randint(1, 2)
    node = hermitian_node(ctx, n, py.randint(0, 1))
    k = py.randint(1, 5)
    ctx.last = f"power {k} of the walk operator of {node.text} on {n} qubits"
    be = build(ctx, node)
    w = be.qubitization()
    ctx.require(abs(complex(w.alpha) - complex(be.alpha)) < 1e-9, "normalisation changed by qubitization")
    twice = py.random() < 0.3
    if twice:
        ctx.last += ", walk operator of the walk operator"
        w = w.qubitization()
    qc, ops, ancs = B.apply_static(w, [n], times=k)
    if sum(map(len, ops + ancs)) > LIMIT:
        raise Skip("too many qubits")
    psi = D.random_state(ctx.rng, n)
    out = B.project(qc, ops, ancs, psi, "walk operator")
    ctx.observe("walk", ctx.last, True)
    d = float(np.linalg.norm(out - cheb(node.m / complex(be.alpha).real, k) @ psi))
    ctx.require(d < 1e-3, f"power of the walk operator deviates by {d:.4f}")


def chebyshev(ctx):
    """Chebyshev operators"""
    py = ctx.py
    n = py.randint(1, 2)
    node = hermitian_node(ctx, n, py.randint(0, 1))
    k = py.randint(0, 5)
    ctx.last = f"({node.text}).chebyshev({k}, rescale=False) on {n} qubits"
    be = build(ctx, node)
    c = be.chebyshev(k, rescale=False)
    alpha = complex(be.alpha).real
    m = node.m if k == 1 else cheb(node.m / alpha, k)
    judge(ctx, "chebyshev", c, B.Node("", None, m), [n], "Chebyshev operator")


def symmetry(ctx):
    """a block encoding declared Hermitian has a Hermitian unitary"""
    py = ctx.py
    n = py.randint(1, 2)
    node = B.tree(py, ctx.rng, n, py.randint(0, 2), hermitian=py.random() < 0.7)
    tail = py.choice(["", "", "", ".qubitization()", ".chebyshev(2, rescale=False)", ".kron(X)"])
    ctx.last = f"declared symmetry of ({node.text}){tail} on {n} qubits"
    be = node.build()
    sizes = [n]
    if tail == ".qubitization()":
        be = be.qubitization()
    elif tail == ".chebyshev(2, rescale=False)":
        be = be.chebyshev(2, rescale=False)
    elif tail == ".kron(X)":
        be = be.kron(BlockEncoding.from_operator(B.X(0)))
        sizes = [n, 1]
    if not be.is_hermitian:
        raise Skip("nothing declared")
    qc, ops, ancs = B.apply_static(be, sizes, times=2)
    qubits = sum(ops + ancs, [])
    if len(qubits) > LIMIT:
        raise Skip("too many qubits")
    psi = D.random_state(ctx.rng, len(qubits))
    out = D.run(qc, qubits, psi, "declared Hermitian unitary")
    ctx.observe("symmetry", ctx.last, True)
    d = float(np.linalg.norm(out - psi))
    ctx.require(d < 1e-3, f"the square of the unitary declared Hermitian deviates from the identity by {d:.4f}")


def application(ctx):
    """repeat-until-success application"""
    py = ctx.py
    n = py.randint(1, 2)
    node = B.leaf(py, ctx.rng, n)
    g = D.random_gates(py, n, 4)
    v = node.m @ D.matrix(g, n)[:, 0]
    p = np.linalg.norm(v) ** 2
    ctx.last = f"repeated application of {node.text} to {g} on {n} qubits"
    be = build(ctx, node)
    if p / complex(be.alpha).real ** 2 < 0.02:
        raise Skip("success is improbable")

    def prep():
        qv = QuantumFloat(n)
        D.apply(g, [qv[i] for i in range(n)])
        return qv

    @terminal_sampling
    def main():
        return be.apply_rus(prep)()

    res = main()
    ctx.observe("application", ctx.last, True)
    want = np.abs(v) ** 2 / p
    for k in range(2**n):
        ctx.require(abs(res.get(float(k), 0) - want[k]) < 1e-3, f"probability of {k} is {res.get(float(k), 0):.5f} instead of {want[k]:.5f}")


def expectation(ctx):
    """estimated expectation values"""
    py = ctx.py
    n = py.randint(1, 2)
    node = B.tree(py, ctx.rng, n, py.randint(0, 1), hermitian=True)
    g = D.random_gates(py, n, 4)
    v = D.matrix(g, n)[:, 0]
    ctx.last = f"expectation value of {node.text} in {g} on {n} qubits"
    be = build(ctx, node)
    shots = 40000

    def prep():
        qv = QuantumFloat(n)
        D.apply(g, list(qv))
        return qv

    got = be.expectation_value(prep, shots=shots)()
    ctx.observe("expectation", ctx.last, True)
    want = np.vdot(v, node.m @ v).real
    ctx.require(abs(got - want) < 6 * complex(be.alpha).real / np.sqrt(shots) + 1e-4, f"expectation value {got} instead of {want:.5f}")


def rejections(ctx):
    """documented rejections"""
    py = ctx.py
    kind = py.choice(["shape", "size", "operands", "prep", "complex"])
    ctx.last = f"rejection {kind}"
    calls = {
        "shape": (lambda: BlockEncoding.from_array(np.ones((2, 4))), ValueError),
        "size": (lambda: BlockEncoding.from_array(np.eye(py.choice([3, 5, 6, 7]))), ValueError),
        "operands": (lambda: BlockEncoding.from_eye(1).apply(*[QuantumFloat(2) for _ in range(py.choice([2, 3]))]), ValueError),
        "prep": (lambda: BlockEncoding.from_eye(1).apply_rus(py.choice([3, None, [1]])), TypeError),
        "complex": (lambda: BlockEncoding.from_lcu(np.array([1j]), [lambda qv: None]), ValueError),
    }
    f, err = calls[kind]
    ctx.observe("rejection", ctx.last, True)
    try:
        f()
    except err:
        return
    ctx.require(False, f"{kind} was accepted")


def word(n, pauli, qubits):
    m = np.eye(1)
    for i in range(n - 1, -1, -1):
        m = np.kron(m, {"X": np.array([[0, 1], [1, 0]]), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1.0, -1.0])}[pauli] if i in qubits else np.eye(2))
    return m


def activation(ctx):
    """spin models encoded with one activation qubit per generator"""
    from qrisp.operators import X, Y, Z

    py = ctx.py
    n = py.randint(1, 3)
    letters = {"X": X, "Y": Y, "Z": Z}
    uniform = py.random() < 0.5
    cplx = py.random() < 0.2

    def coef(p):
        if py.random() > p:
            return 0
        return round(py.uniform(-1.5, 1.5), 3) * (1j if cplx and py.random() < 0.5 else 1)

    terms = {}
    for c in letters:
        if uniform:
            g, j = coef(0.6), coef(0.6)
            terms.update({(c, (i,)): g for i in range(n)})
            terms.update({(c, (i, i + 1)): j for i in range(n - 1)})
        else:
            terms.update({(c, (i,)): coef(0.5) for i in range(n)})
            terms.update({(c, (i, k)): coef(0.5) for i in range(n) for k in range(i + 1, n)})
    terms = {k: v for k, v in terms.items() if v}
    if not any(n - 1 in k[1] for k in terms):
        terms[("Z", (n - 1,))] = 0.7
    ctx.last = f"spin model {terms} on {n} qubits"
    op, m = 0, np.zeros((2**n, 2**n), dtype=complex)
    for (c, q), v in terms.items():
        w = 1
        for i in q:
            w = w * letters[c](i)
        op = op + v * w
        m = m + v * word(n, c, q)
    be = BlockEncoding.from_foqcs_lcu_operator(op)
    qc, ops, ancs = B.apply_static(be, [n])
    psi = D.random_state(ctx.rng, n)
    # operand qubit i carries the operator's index i
    out = B.project(qc, ops, ancs, psi, "spin model")
    ctx.observe("activation", ctx.last, True)
    d = B.error(be, m, out, psi)
    ctx.require(d < 3e-4, f"encoded operator deviates by {d:.4f} (relative to the normalisation)")
    if be.is_hermitian:
        a = B.project(qc, ops, ancs, np.eye(2**n)[0], "spin model")
        ctx.require(np.abs(m - m.conj().T).max() < 1e-6, "an operator that is not Hermitian is declared to be")


def custom_activation(ctx):
    """given preparations around the activation of generators"""
    py = ctx.py
    n, extra = py.randint(1, 2), py.randint(0, 2)
    k = 2 * n + extra
    right, left = D.random_gates(py, k), D.random_gates(py, k)
    norm = round(py.uniform(0.5, 3), 2)
    ctx.last = f"activation of {n} qubits with {extra} more ancillae, preparations {right} and {left}, norm {norm}"
    be = BlockEncoding.from_foqcs_lcu_prep(lambda q: D.apply(right, [q[i] for i in range(k)]), lambda q: D.apply(left, [q[i] for i in range(k)]), num_q_ops=n, norm=norm, num_q_anc=k)
    r, l = D.matrix(right, k)[:, 0], D.matrix(left, k)[:, 0]
    m = np.zeros((2**n, 2**n), dtype=complex)
    for v in range(2**k):
        a = v >> extra
        m += norm * np.conj(l[v]) * r[v] * word(n, "Z", [i for i in range(n) if (a >> (n + i)) & 1]) @ word(n, "X", [i for i in range(n) if (a >> i) & 1])
    qc, ops, ancs = B.apply_static(be, [n])
    psi = D.random_state(ctx.rng, n)
    out = B.project(qc, ops, ancs, psi, "activation")
    ctx.observe("custom_activation", ctx.last, True)
    d = B.error(be, m, out, psi)
    ctx.require(d < 3e-4, f"encoded operator deviates by {d:.4f} (relative to the normalisation)")


FAMILIES = {
    "constructors": constructors,
    "expressions": expressions,
    "products": products,
    "several_operands": several_operands,
    "traced": traced,
    "controlled": controlled,
    "walk": walk,
    "chebyshev": chebyshev,
    "symmetry": symmetry,
    "application": application,
    "expectation": expectation,
    "rejections": rejections,
    "activation": activation,
    "custom_activation": custom_activation,
}
