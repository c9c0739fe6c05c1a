PROPERTY = "C32"
RULE = "one evaluation = one run of a complete algorithm (search, counting, order finding, key recovery, integration, linear systems, imaginary time, Krylov method, backtracking) on a generated instance compared with the classical answer or the state the theory prescribes; distinct = distinct (algorithm, options, instance)"
PLAN = {
    "quick": {"search": 80, "search_traced": 12, "tagging": 80, "counting": 24, "order": 5, "keys": 2, "integration": 3, "linear": 24, "sparse_linear": 8, "imaginary": 60, "imaginary_traced": 8, "krylov": 8, "krylov_traced": 3, "krylov_algebra": 40, "walk": 60, "path": 8},
    "thorough": {"search": 800, "search_traced": 100, "tagging": 800, "counting": 200, "order": 16, "keys": 6, "integration": 24, "linear": 240, "sparse_linear": 60, "imaginary": 600, "imaginary_traced": 60, "krylov": 60, "krylov_traced": 20, "krylov_algebra": 400, "walk": 600, "path": 40},
}
REQUIRED_MONITORS = ["search", "search_traced", "tagging", "counting", "order", "keys", "integration", "linear", "sparse_linear", "imaginary", "imaginary_traced", "krylov", "krylov_traced", "krylov_algebra", "walk", "path"]
ASSUMPTIONS = [
    "algorithms that estimate from a finite number of shots are judged with tolerances of more than six standard deviations",
    "integration uses iterative amplitude estimation with the accuracy 0.01 it is documented for; three times that accuracy is tolerated",
    "searching a backtracking tree may report that its precision was insufficient; an answer it gives must be right",
]
CASE_TIMEOUT = 400
HEAVY = ["order", "keys", "integration", "krylov", "krylov_traced", "path"]
# --- end of plan ---
import math

import numpy as np

from vlib import be as B
from vlib import dense as D
from vlib import qs as Q
from vlib.harness import Skip

import qrisp
from qrisp import QuantumVariable, QuantumFloat, QuantumBool, QuantumArray, control, invert, merge, mcx
from qrisp.block_encodings import BlockEncoding
from qrisp.grover import grovers_alg, tag_state
from qrisp.jasp import make_jaspr, jaspify


def regs_of(out):
    return [list(x) for x in out[:-1] if isinstance(x, (list, tuple)) and len(x) and isinstance(x[0], qrisp.Qubit)]


# ---------------------------------------------------------------- search
def make_arg(py, total=4):
    kind = py.choice(["variable", "float", "list", "array", "mixed"])
    if kind == "variable":
        a = QuantumVariable(py.randint(1, total))
        return kind, a, [a]
    if kind == "float":
        n = py.randint(1, total - 1)
        a = QuantumFloat(n, py.randint(-2, 1), signed=py.random() < 0.5)
        return kind, a, [a]
    if kind == "array":
        a = QuantumArray(QuantumFloat(py.randint(1, 2)), shape=(2,))
        return kind, a, list(a.flatten())
    if kind == "list":
        a = [QuantumFloat(py.randint(1, 2)) for _ in range(2)]
        return kind, a, a
    a = [QuantumBool(), QuantumArray(QuantumFloat(1), shape=(2,))]
    return kind, a, [a[0]] + list(a[1].flatten())


def search(ctx):
    """search ends in the state of the requested number of iterations, or exactly in the marked states"""
    py = ctx.py
    kind, arg, parts = make_arg(py)
    qubits = sum([list(q.reg) for q in parts], [])
    n = len(qubits)
    N = 2**n
    good = sorted(py.sample(range(N), py.randint(1, max(1, N - 1 if py.random() < 0.3 else N // 2))))
    mode = py.choice(["exact", "exact", "iterations", "default", "amount"])
    kw = py.random() < 0.3
    o = {}
    if mode == "exact":
        o = {"exact": True, "winner_state_amount": len(good)}
    elif mode == "iterations":
        o = {"iterations": py.randint(0, 4)}
    elif mode == "amount":
        o = {"winner_state_amount": len(good)}
    if kw:
        o["kwargs"] = {"flag": 3}
    ctx.last = f"search of {good} over {kind} with {n} qubits, {o}"

    def oracle(a, phase=np.pi, flag=None):
        assert flag == (3 if kw else None)
        for g in good:
            spec, left = {}, g
            for q in parts:
                spec[q] = q.decoder(left & (2**q.size - 1))
                left >>= q.size
            tag_state(spec, phase=phase)

    merge(parts)
    grovers_alg(arg, oracle, **o)
    got = D.run(parts[0].qs.copy(), qubits, None, "search")
    ctx.observe("search", ctx.last, True)
    mark = np.zeros(N)
    mark[good] = 1
    if mode == "exact":
        want = (mark / math.sqrt(len(good))).astype(complex)
    else:
        k = o["iterations"] if mode == "iterations" else round(math.pi / 4 * math.sqrt(N / (len(good) if mode == "amount" else 1)))
        s = np.ones(N, dtype=complex) / math.sqrt(N)
        want = s.copy()
        for _ in range(k):
            want = want * (1 - 2 * mark)
            want = 2 * s * np.vdot(s, want) - want
    d = D.phase_distance(got, want)
    ctx.require(d < 2e-3, f"deviation {d:.4f} from the state search should end in; probability of marked states {float(np.sum(np.abs(got[good]) ** 2)):.4f}")


def search_traced(ctx):
    """the same for traced programs"""
    py = ctx.py
    sizes = py.choice([[2], [3], [4], [2, 1], [2, 2]])
    n = sum(sizes)
    N = 2**n
    good = sorted(py.sample(range(N), py.randint(1, N // 2)))
    exact = py.random() < 0.5
    k = py.randint(0, 3)
    ctx.last = f"traced search of {good} over registers {sizes}, exact {exact}, iterations {k}"

    def main(amount):
        qvs = [QuantumFloat(s) for s in sizes]

        def oracle(a, phase=np.pi):
            a = a if isinstance(a, list) else [a]
            for g in good:
                spec, left = {}, g
                for q, s in zip(a, sizes):
                    spec[q] = left & (2**s - 1)
                    left >>= s
                tag_state(spec, phase=phase)

        arg = qvs if len(qvs) > 1 else qvs[0]
        if exact:
            grovers_alg(arg, oracle, exact=True, winner_state_amount=amount)
        else:
            grovers_alg(arg, oracle, iterations=amount)
        return tuple(qvs)

    out = make_jaspr(main)(1).to_qc(len(good) if exact else k)
    got = D.run(out[-1], sum(regs_of(out), []), None, "search")
    ctx.observe("search_traced", ctx.last, True)
    mark = np.zeros(N)
    mark[good] = 1
    if exact:
        want = (mark / math.sqrt(len(good))).astype(complex)
    else:
        s = np.ones(N, dtype=complex) / math.sqrt(N)
        want = s.copy()
        for _ in range(k):
            want = want * (1 - 2 * mark)
            want = 2 * s * np.vdot(s, want) - want
    d = D.phase_distance(got, want)
    ctx.require(d < 2e-3, f"deviation {d:.4f} from the state search should end in; probability of marked states {float(np.sum(np.abs(got[good]) ** 2)):.4f}")


def tagging(ctx):
    """tagging multiplies exactly the named state with the phase"""
    py = ctx.py
    qvs = []
    for _ in range(py.randint(1, 3)):
        k = py.choice(["float", "float", "bool", "variable", "char"])
        if k == "float":
            qvs.append(QuantumFloat(py.randint(1, 3), py.randint(-2, 1), signed=py.random() < 0.5))
        elif k == "bool":
            qvs.append(QuantumBool())
        elif k == "char":
            qvs.append(qrisp.QuantumChar())
        else:
            qvs.append(QuantumVariable(py.randint(1, 3)))
    vals = [py.randrange(2**q.size) for q in qvs]
    phase = py.choice([np.pi, np.pi, round(py.uniform(-3, 3), 3), 0.0])
    binary = py.random() < 0.3
    if binary:
        spec = {q: format(v, f"0{q.size}b") for q, v in zip(qvs, vals)}
    else:
        spec = {q: q.decoder(v) for q, v in zip(qvs, vals)}
    ctrl = py.random() < 0.3
    ctx.last = f"tagging of {list(spec.values())} (binary {binary}) in {[type(q).__name__ + str(q.size) for q in qvs]} with phase {phase}, controlled {ctrl}"
    o = {} if phase == np.pi and py.random() < 0.5 else {"phase": phase}
    groups, sizes = list(qvs), [q.size for q in qvs]
    merge(qvs)
    if ctrl:
        b = QuantumBool()
        with control(b):
            tag_state(spec, binary_values=binary, **o)
        groups.append(b)
        sizes.append(1)
    else:
        tag_state(spec, binary_values=binary, **o)
    f = np.exp(1j * phase)
    target = tuple(vals) + ((1,) if ctrl else ())
    Q.judge_map(ctx, qvs[0].qs.copy(), groups, sizes, lambda *v: v, "tagging", "tagging", ph=lambda *v: f if v == target else 1, extra=[target], phase=False, tol=2e-3)


# ---------------------------------------------------------------- counting
def counting(ctx):
    """the count is the most probable estimate phase estimation of the search operator gives"""
    from qrisp import quantum_counting

    py = ctx.py
    n, p = py.randint(2, 3), py.randint(3, 5)
    N = 2**n
    good = sorted(py.sample(range(N), py.randint(0, N)))
    ctx.last = f"counting of {good} among {N} with {p} digits"

    def oracle(qv):
        for g in good:
            tag_state({qv: g})

    qv = QuantumFloat(n)
    try:
        got = float(quantum_counting(qv, oracle, p))
    except Exception as e:
        if not good:
            raise Skip("empty oracle")
        raise
    theta = math.asin(math.sqrt(len(good) / N))
    grid = np.arange(2**p) / 2**p

    def kernel(d):
        d = (d + 0.5) % 1 - 0.5
        return (np.sin(np.pi * d * 2**p) / (2**p * np.sin(np.pi * d))) ** 2 if abs(d) > 1e-12 else 1.0

    weight = np.array([(kernel(g - theta / np.pi) + kernel(g + theta / np.pi)) / 2 for g in grid])
    allowed = {round(N * math.sin(math.pi * g) ** 2, 3) for g, w in zip(grid, weight) if w > weight.max() - 0.02}
    ctx.observe("counting", ctx.last, True)
    ctx.require(any(abs(got - a) < 0.01 for a in allowed), f"reported {got:.4f}, most probable estimates are {sorted(allowed)} of {len(good)} marked states")


# ---------------------------------------------------------------- orders and keys
def order(ctx):
    """the order found is one"""
    from qrisp.algorithms.shor.shors_algorithm import find_order

    py = ctx.py
    N, a = [(7, 3), (15, 7), (7, 5), (9, 2), (15, 2), (11, 2), (13, 2), (5, 2), (15, 13), (9, 5), (7, 2), (15, 4), (13, 5), (14, 3), (11, 3), (10, 3)][(3 * ctx.seed + ctx.index) % 16]
    shots = py.choice([None, 60, 60])
    ctx.last = f"order of {a} modulo {N}, shots {shots}"
    try:
        r = int(find_order(a, N, mes_kwargs={"shots": shots}) if shots else find_order(a, N))
    except IndexError:
        if shots is None:
            raise
        raise Skip("too few shots")
    true = next(k for k in range(1, N) if pow(a, k, N) == 1)
    ctx.observe("order", ctx.last, True)
    ctx.require(r > 0 and pow(a, r, N) == 1, f"found {r}, the order is {true}")


def keys(ctx):
    """messages survive encryption and recovery through factoring"""
    from qrisp.algorithms.shor import shors_alg
    from qrisp.algorithms.shor.crypto_tools import rsa_decrypt, rsa_encrypt, rsa_encrypt_string, rsa_decrypt_string

    py = ctx.py
    N, phi = 15, 8
    e = py.choice([3, 5, 7])
    if ctx.index % 2 == 0:
        m = py.randrange(1, N)
        ctx.last = f"message {m} under key ({e}, {N})"
        c = rsa_encrypt(e, N, m)
        got = rsa_decrypt(e, N, c)
        ctx.observe("keys", ctx.last, True)
        ctx.require(c == pow(m, e, N) and got == m, f"cipher {c} (expected {pow(m, e, N)}), recovered {got}")
    else:
        m = "".join(py.choice("abcXYZ 019!") for _ in range(py.randint(1, 4)))
        ctx.last = f"message {m!r} under key ({e}, {N})"
        got = rsa_decrypt_string(e, N, rsa_encrypt_string(e, N, m))
        ctx.observe("keys", ctx.last, True)
        ctx.require(got == m, f"recovered {got!r}")
        f = shors_alg(N)
        ctx.require(N % f == 0 and 1 < f < N, f"{f} is not a proper factor of {N}")


# ---------------------------------------------------------------- integration
def integration(ctx):
    """integrals agree with the sum over the sampling points"""
    from qrisp.qmci import QMCI

    py = ctx.py
    nx = 2
    which = py.choice(["square", "double", "double"])
    ny = {"square": 2 * nx, "double": nx + 1}[which]
    weighted = py.random() < 0.5
    x, y = QuantumFloat(nx, -nx), QuantumFloat(ny, -nx if which == "double" else -2 * nx)
    ctx.last = f"integral of {which} over {2**nx} points, weighted {weighted}"

    def f(q):
        if which == "square":
            return q * q
        return q + q

    def val(v):
        return v * v if which == "square" else 2 * v

    angles = [round(py.uniform(0.3, 2.8), 2) for _ in range(nx)]

    def dist(q):
        for i in range(nx):
            qrisp.ry(angles[i], q[i])

    args = [x, y]
    got = float(QMCI(args, f, **({"distribution": dist} if weighted else {})))
    ctx.observe("integration", ctx.last, True)
    want = 0.0
    for k in range(2**nx):
        w = np.prod([math.sin(a / 2) ** 2 if (k >> i) & 1 else math.cos(a / 2) ** 2 for i, a in enumerate(angles)]) if weighted else 2.0**-nx
        want += w * val(k / 2**nx)
    vol = 2 ** (ny + y.exponent)
    ctx.require(abs(got - want) < 0.03 * vol, f"integral {got:.4f}, the sum over the sampling points is {want:.4f}")
    ctx.require(args == [x, y], "the list of variables given by the caller was changed")


# ---------------------------------------------------------------- linear systems
def linear(ctx):
    """the eigenvalue filter of a linear system solver acts on every eigenvector"""
    from qrisp.algorithms.hhl import HHL

    py = ctx.py
    n, p = py.randint(1, 2), py.randint(1, 3)
    gates = D.random_gates(py, n)
    ev = [py.randrange(2**p) for _ in range(2**n)]
    th = [round(py.uniform(-3, 3), 2) for _ in range(2**p)]
    ctx.last = f"filter {th} of eigenphases {ev}/{2**p} in the basis {gates}"

    def evolution(q):
        with invert():
            D.apply(gates, list(q))
        for v in range(2**n):
            qrisp.mcp(2 * np.pi * ev[v] / 2**p, list(q), ctrl_state=v)
        D.apply(gates, list(q))

    def inversion(res, anc):
        for v in range(2**p):
            with control(list(res), ctrl_state=v):
                qrisp.ry(th[v], anc)

    qv = QuantumVariable(n)
    start = D.random_gates(py, n)
    D.apply(start, list(qv))
    anc = HHL(qv, evolution, inversion, p)
    got = D.run(qv.qs.copy(), list(qv) + list(anc), None, "linear system")
    w, s = D.matrix(gates, n), D.matrix(start, n)[:, 0]
    c = w.conj().T @ s
    want = np.concatenate([w @ (c * [math.cos(th[e] / 2) for e in ev]), w @ (c * [math.sin(th[e] / 2) for e in ev])])
    ctx.observe("linear", ctx.last, True)
    d = float(np.linalg.norm(got - want))
    ctx.require(d < 2e-3, f"deviation {d:.4f} from the filtered state")


def sparse_linear(ctx):
    """the polynomial solver encodes the inverse up to its accuracy"""
    from qrisp.algorithms.cks import CKS

    py = ctx.py
    n = py.choice([1, 1, 2])
    kappa, eps = py.choice([(1.2, 0.2), (1.5, 0.1), (2, 0.2), (1.5, 0.05)])
    ev = np.array([py.choice([-1, 1]) * py.uniform(1 / kappa, 1) for _ in range(2**n)])
    q, _ = np.linalg.qr(ctx.rng.normal(size=(2**n, 2**n)) + 1j * ctx.rng.normal(size=(2**n, 2**n)))
    a = q @ np.diag(ev) @ q.conj().T
    scale = round(py.uniform(0.5, 2), 2)
    src = BlockEncoding.from_array(a * scale)
    real = float(src.alpha)
    k = kappa * real / scale
    ctx.last = f"solver on {np.round(a * scale, 3).tolist()}, condition {k:.3f}, accuracy {eps}"
    if k > 6:
        raise Skip("condition number too large")
    be = CKS(src, eps, k)
    qc, ops, ancs = B.apply_static(be, [n])
    if len(qc.qubits) > 60:
        qc = Q.narrowed(qc, ops + ancs)
    if sum(len(x) for x in ancs) > 26:
        raise Skip("too many ancillae")
    psi = D.random_state(ctx.rng, n)
    out = Q.amplitudes(qc, [sum(ops, []), sum(ancs, [])], Q.rows_for(qc, [sum(ops, [])], [(v,) for v in range(2**n)], psi), what="solver")
    vec = np.array([out.get((v, 0), 0) for v in range(2**n)])
    want = np.linalg.inv(a * scale) @ psi
    ctx.observe("sparse_linear", ctx.last, True)
    d = float(np.linalg.norm(float(be.alpha) * vec - want)) * real
    ctx.require(d < 2 * eps, f"deviation {d:.4f} from the inverse of the normalised operator, accuracy {eps}")


# ---------------------------------------------------------------- imaginary time
def evolution_parts(py, n):
    gates = D.random_gates(py, n, 3)
    lev = [round(py.uniform(-1.5, 1.5), 2) for _ in range(n)]
    pair = round(py.uniform(-1, 1), 2) if n > 1 else 0

    def exp_h(q, t):
        with invert():
            D.apply(gates, [q[i] for i in range(n)])
        for i in range(n):
            qrisp.rz(2 * lev[i] * t, q[i])
        if n > 1:
            qrisp.cx(q[0], q[1])
            qrisp.rz(2 * pair * t, q[1])
            qrisp.cx(q[0], q[1])
        D.apply(gates, [q[i] for i in range(n)])

    w = D.matrix(gates, n)
    z = np.array([sum(lev[i] * (1 - 2 * ((v >> i) & 1)) for i in range(n)) + (pair * (1 - 2 * ((v ^ (v >> 1)) & 1)) if n > 1 else 0) for v in range(2**n)])
    return exp_h, (lambda t: w @ np.diag(np.exp(-1j * t * z)) @ w.conj().T), f"{gates} {lev} {pair}"


def imaginary_reference(n, u0, eh, s, k, method):
    u = u0
    zero = np.zeros((2**n, 2**n))
    zero[0, 0] = 1

    def refl(u, t):
        return u @ (np.eye(2**n) + (np.exp(1j * t) - 1) * zero) @ u.conj().T

    for i in range(k):
        r = math.sqrt(s[i])
        if method == "GC":
            u = eh(-r) @ refl(u, r) @ eh(r) @ u
        else:
            f = (math.sqrt(5) - 1) / 2
            u = eh(-f * r) @ refl(u, f * r) @ eh(r) @ refl(u, -(1 + f) * r) @ eh(-(1 - f) * r) @ u
    return u


def imaginary(ctx):
    """imaginary time evolution equals its defining recursion"""
    from qrisp.qite import QITE

    py = ctx.py
    method = py.choice(["GC", "HOPF"])
    n, k = py.randint(1, 3), py.randint(0, 3 if method == "GC" else 2)
    array = n > 1 and py.random() < 0.3
    exp_h, eh, text = evolution_parts(py, n)
    start = D.random_gates(py, n)
    s = [round(py.uniform(0.01, 0.8), 3) for _ in range(k + py.randint(0, 1))]
    ctx.last = f"{method} imaginary time of {text} from {start}, times {s}, {k} steps, array {array}"

    def flat(q):
        return sum([list(v) for v in q.flatten()], []) if isinstance(q, QuantumArray) else q

    q = QuantumArray(QuantumVariable(1), shape=(n,)) if array else QuantumVariable(n)
    QITE(q, lambda a: D.apply(start, [flat(a)[i] for i in range(n)]), lambda a, t: exp_h(flat(a), float(t)), s, k, method=method)
    got = D.run(q.qs.copy(), [flat(q)[i] for i in range(n)], None, "imaginary time")
    want = imaginary_reference(n, D.matrix(start, n), eh, s, k, method)[:, 0]
    ctx.observe("imaginary", ctx.last, True)
    d = D.phase_distance(got, want)
    ctx.require(d < 3e-3, f"deviation {d:.4f} from the recursion")


def imaginary_traced(ctx):
    """the traced form equals the recursion, too"""
    import jax.numpy as jnp
    from qrisp.qite import QITE

    py = ctx.py
    method = py.choice(["GC", "HOPF"])
    n, k = py.randint(1, 2), py.randint(0, 3 if method == "GC" else 2)
    exp_h, eh, text = evolution_parts(py, n)
    start = D.random_gates(py, n)
    s = [round(py.uniform(0.01, 0.8), 3) for _ in range(max(1, k))]
    ctx.last = f"traced {method} imaginary time of {text} from {start}, times {s}, {k} steps"

    def main(k):
        q = QuantumFloat(n)
        QITE(q, lambda a: D.apply(start, [a[i] for i in range(n)]), exp_h, jnp.array(s), k, method=method)
        return q

    out = make_jaspr(main)(1).to_qc(k)
    got = D.run(out[-1], regs_of(out)[0], None, "imaginary time")
    want = imaginary_reference(n, D.matrix(start, n), eh, s, k, method)[:, 0]
    ctx.observe("imaginary_traced", ctx.last, True)
    d = D.phase_distance(got, want)
    ctx.require(d < 3e-3, f"deviation {d:.4f} from the recursion")


# ---------------------------------------------------------------- Krylov method
def chebyshev(m, psi, k):
    ev, v = np.linalg.eigh(m)
    c = np.abs(v.conj().T @ psi) ** 2
    return float(np.sum(c * np.cos(k * np.arccos(np.clip(ev, -1, 1)))))


def generalised_minimum(s, h, cutoff):
    ev, v = np.linalg.eigh(s)
    v = v[:, ev > cutoff * ev.max()]
    import scipy.linalg

    return scipy.linalg.eigh(v.T @ h @ v, v.T @ s @ v, eigvals_only=True)


def krylov(ctx):
    """Chebyshev moments and the ground state energy derived from them"""
    from qrisp.lanczos import lanczos_expvals, lanczos_alg

    py = ctx.py
    n, deg = py.randint(1, 2), py.randint(1, 3)
    op, m, text = B.operator(py, n)
    m = (m + m.conj().T) / 2
    start = D.random_gates(py, n)
    psi = D.matrix(start, n)[:, 0]
    be = BlockEncoding.from_operator(op.hermitize() if hasattr(op, "hermitize") else op)
    alpha = float(be.alpha)
    if alpha < 1e-6:
        raise Skip("vanishing operator")
    ctx.last = f"Krylov space of dimension {deg} of {text} from {start}"

    def prep():
        q = QuantumVariable(n)
        D.apply(start, list(q))
        return q

    energy, info = lanczos_alg(be, deg, prep, show_info=True)
    ctx.observe("krylov", ctx.last, True)
    got = np.array(info["Tk_expvals"])
    want = [chebyshev(m / alpha, psi, k) for k in range(2 * deg)]
    d = float(np.max(np.abs(got - want)))
    ctx.require(d < 0.03, f"moments {got.round(3).tolist()}, expected {np.round(want, 3).tolist()}")
    T = lambda k: got[abs(k)]
    S = np.array([[0.5 * (T(i + j) + T(i - j)) for j in range(deg)] for i in range(deg)])
    H = np.array([[0.25 * (T(i + j + 1) + T(i + j - 1) + T(i - j + 1) + T(i - j - 1)) for j in range(deg)] for i in range(deg)])
    ref = generalised_minimum(S, H, 1e-2)
    spectrum = np.linalg.eigvalsh(S)
    if np.min(np.abs(spectrum - 1e-2 * spectrum.max())) > 1e-4:
        e = float(energy)
        ctx.require(abs(e - min(ref.min(), 1) * alpha) < 2e-3 * max(1, alpha) / min(1, float(spectrum[spectrum > 1e-2 * spectrum.max()].min())), f"energy {e:.4f}, the reduced problem gives {ref.min() * alpha:.4f}")


def krylov_traced(ctx):
    """moments of encodings with several ancillae in traced programs"""
    from qrisp.lanczos import lanczos_expvals

    py = ctx.py
    n, deg = 1, 2
    start = D.random_gates(py, n)
    psi = D.matrix(start, n)[:, 0]
    coef = [round(py.uniform(0.2, 1), 2) for _ in range(3)]
    X, Z = np.array([[0, 1], [1, 0]]), np.diag([1.0, -1.0])
    from qrisp.operators import X as OX, Z as OZ

    a = BlockEncoding.from_operator(coef[0] * OX(0) + coef[1] * OZ(0))
    b = BlockEncoding.from_operator(coef[2] * OZ(0) + coef[0] * OX(0))
    be = a + b
    m = (2 * coef[0]) * X + (coef[1] + coef[2]) * Z
    alpha = float(be.alpha)
    ctx.last = f"traced moments of {coef}, {2 * deg} moments, from {start}"

    def prep():
        q = QuantumFloat(n)
        D.apply(start, [q[i] for i in range(n)])
        return q

    @jaspify(terminal_sampling=True)
    def main():
        return lanczos_expvals(be, deg, prep, mes_kwargs={"shots": 4000})

    got = np.array(main())
    want = [chebyshev(m / alpha, psi, k) for k in range(2 * deg)]
    ctx.observe("krylov_traced", ctx.last, True)
    ctx.require(float(np.max(np.abs(got - want))) < 0.12, f"moments {got.round(3).tolist()}, expected {np.round(want, 3).tolist()}")


def krylov_algebra(ctx):
    """matrices and generalised eigenvalue problems of the Krylov space"""
    from qrisp.algorithms.lanczos import build_S_H_from_Tk, generalized_eigh, regularize_S_H
    import scipy.linalg

    py, rng = ctx.py, ctx.rng
    deg = py.randint(1, 5)
    t = rng.uniform(-1, 1, size=2 * deg)
    t[0] = 1
    ctx.last = f"reduced problem of moments {t.round(3).tolist()}"
    s, h = (np.array(x) for x in build_S_H_from_Tk(t))
    T = lambda k: t[abs(k)]
    S = np.array([[0.5 * (T(i + j) + T(i - j)) for j in range(deg)] for i in range(deg)])
    H = np.array([[0.25 * (T(i + j + 1) + T(i + j - 1) + T(i - j + 1) + T(i - j - 1)) for j in range(deg)] for i in range(deg)])
    ctx.observe("krylov_algebra", ctx.last, True)
    ctx.require(np.allclose(s, S, atol=1e-5) and np.allclose(h, H, atol=1e-5), "overlap or Hamiltonian matrix differs from the product formula of Chebyshev polynomials")
    b = rng.normal(size=(deg, deg))
    b = b @ b.T + 0.3 * np.eye(deg)
    a = rng.normal(size=(deg, deg)) + (1j * rng.normal(size=(deg, deg)) if py.random() < 0.4 else 0)
    a = a + a.conj().T
    ev, vec = (np.array(x) for x in generalized_eigh(a, b))
    want = scipy.linalg.eigh(a, b, eigvals_only=True)
    ctx.require(np.allclose(np.sort(ev), want, atol=1e-3 * max(1, np.abs(want).max())), f"generalised eigenvalues {np.sort(ev).round(4).tolist()}, expected {want.round(4).tolist()}")
    ctx.require(np.shape(vec) == (deg, deg) and np.abs(a @ vec - b @ vec * ev).max() < 5e-3 * max(1, np.abs(want).max()), "generalised eigenvectors do not solve the problem")
    p = rng.normal(size=(deg, deg))
    p, _ = np.linalg.qr(p)
    ev = 10.0 ** rng.uniform(-4, 0, size=deg)
    S = p @ np.diag(ev) @ p.T
    H = rng.normal(size=(deg, deg))
    H = H + H.T
    cutoff = py.choice([1e-2, 0.1])
    if np.min(np.abs(ev / ev.max() - cutoff)) > 1e-4:
        sr, hr, v = (np.array(x) for x in regularize_S_H(S, H, cutoff=cutoff))
        k = int(np.sum(ev > cutoff * ev.max()))
        ref = generalised_minimum(S, H, cutoff)
        got = scipy.linalg.eigh(hr[:k, :k], sr[:k, :k], eigvals_only=True)
        ctx.require(np.allclose(got, ref, atol=5e-3 * max(1, np.abs(ref).max())), f"regularised problem has eigenvalues {got.tolist()}, expected {ref.tolist()}")


# ---------------------------------------------------------------- backtracking
def make_tree(py, depth, size, accepted, rejected, opt):
    from qrisp.quantum_backtracking import QuantumBacktrackingTree

    def predicate(nodes):
        def f(tree):
            out = QuantumBool()
            for path in nodes:
                qb = [tree.h[depth - len(path)]]
                st = "1"
                for j, v in enumerate(path):
                    e = tree.branch_qa[depth - 1 - j]
                    qb += list(e)
                    st += "".join(str((v >> i) & 1) for i in range(size))
                mcx(qb, out, ctrl_state=st)
            return out

        return f

    return QuantumBacktrackingTree(depth, QuantumFloat(size), predicate(accepted), predicate(rejected), subspace_optimization=opt)


def nodes_of(depth, d):
    layers = [[()]]
    for _ in range(depth):
        layers.append([p + (v,) for p in layers[-1] for v in range(d)])
    return layers


def make_instance(py, reject=True):
    depth, size = py.choice([(1, 1), (2, 1), (3, 1), (2, 1), (1, 2), (2, 2)])
    d = 2**size
    layers = nodes_of(depth, d)
    every = sum(layers, [])
    accepted = sorted(py.sample(every[1:], py.choice([0, 1, 1, 2 if len(every) > 2 else 1])))
    rest = [p for p in every[1:] if p not in accepted]
    rejected = sorted(py.sample(rest, min(len(rest), py.choice([0, 1, 2])))) if reject else []
    return depth, size, accepted, rejected


def walk_operator(depth, d, accepted, rejected):
    every = sum(nodes_of(depth, d), [])
    ix = {p: i for i, p in enumerate(every)}

    def part(parity):
        u = np.eye(len(every))
        for p in every:
            if len(p) % 2 != parity or p in accepted:
                continue
            psi = np.zeros(len(every))
            psi[ix[p]] = 1
            if len(p) < depth and p not in rejected:
                for v in range(d):
                    psi[ix[p + (v,)]] = math.sqrt(depth) if p == () else 1
            psi /= np.linalg.norm(psi)
            u -= 2 * np.outer(psi, psi)
        return u

    return every, ix, part(1) @ part(0)


def walk(ctx):
    """steps of the backtracking walk move amplitude along the tree as defined"""
    py = ctx.py
    depth, size, accepted, rejected = make_instance(py)
    d = 2**size
    opt = py.random() < 0.4
    steps = py.randint(0, 3)
    every, ix, w = walk_operator(depth, d, accepted, rejected)
    alive = [p for p in every if not any(p[:i] in rejected for i in range(len(p)))]
    start = py.choice(["root", "node", "phi"])
    path = list(py.choice(alive if start == "node" else [p for p in alive if len(p) > 0 or start == "root"] or [()]))
    ctx.last = f"{steps} steps in a tree of depth {depth} and degree {d} from {start} {path}, accepted {accepted}, rejected {rejected}, subspace optimization {opt}"
    tree = make_tree(py, depth, size, accepted, rejected, opt)
    psi = np.zeros(len(every), dtype=complex)
    if start == "phi":
        tree.init_phi(path)
        psi[ix[()]] = math.sqrt(depth)
        for i in range(1, len(path) + 1):
            psi[ix[tuple(path[:i])]] = (-1) ** i
        psi /= np.linalg.norm(psi)
    else:
        path = [] if start == "root" else path
        tree.init_node(path)
        psi[ix[tuple(path)]] = 1
    for _ in range(steps):
        tree.quantum_step()
    qc = tree.qs.copy()
    groups = [list(tree.h.reg)] + [list(q.reg) for q in tree.branch_qa]
    if len(qc.qubits) > 60:
        qc = Q.narrowed(qc, groups)
    got = Q.amplitudes(qc, groups, what="walk")
    psi = np.linalg.matrix_power(w, steps) @ psi
    want = {}
    for p in every:
        if abs(psi[ix[p]]) > 1e-9:
            key = [0] * depth
            for j, v in enumerate(p):
                key[depth - 1 - j] = v
            want[(1 << (depth - len(p)), *key)] = psi[ix[p]]
    ctx.observe("walk", ctx.last, True)
    diff = Q.amp_diff(got, want, phase=True)
    ctx.require(diff < 2e-3, f"deviation {diff:.4f} from the walk; got { {k: complex(np.round(v, 3)) for k, v in list(got.items())[:6]} }, expected { {k: complex(np.round(v, 3)) for k, v in list(want.items())[:6]} }")


def path(ctx):
    """paths found are accepted, and trees without accepted nodes give none"""
    py = ctx.py
    depth, size = py.choice([(1, 1), (2, 1), (2, 1)])
    every = sum(nodes_of(depth, 2**size), [])
    accepted = sorted(py.sample(every[1:], py.choice([0, 1, 1, 2])))
    rest = [p for p in every[1:] if p not in accepted]
    rejected = sorted(py.sample(rest, min(len(rest), py.choice([0, 0, 1]))))
    reach = [p for p in accepted if not any(p[:i] in rejected for i in range(len(p)))]
    ctx.last = f"search in a tree of depth {depth} and degree {2**size}, accepted {accepted}, rejected {rejected}"
    tree = make_tree(py, depth, size, accepted, rejected, py.random() < 0.3)
    o = {"cl_accept": lambda p: tuple(p) in accepted} if py.random() < 0.5 else {}
    try:
        got = tree.find_solution(4, **o)
    except Exception as e:
        if "insufficient precision" in str(e):
            raise Skip("insufficient precision")
        raise
    ctx.observe("path", ctx.last, True)
    ctx.require(got is None or tuple(int(v) for v in got) in accepted, f"path {got} is not accepted")
    ctx.require((got is None) == (not reach), f"found {got}, reachable accepted nodes are {reach}")


FAMILIES = {k: globals()[k] for k in PLAN["quick"]}
