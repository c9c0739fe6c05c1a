PROPERTY = "C29"
RULE = "one evaluation = one polynomial transformation of a block-encoded operator or unitary (signal processing, eigenvalue or singular value transformation, simulation, inversion, pseudo inversion, kernel reflection solver, convolution, Fourier series) whose ancilla-zero block, read off the emitted circuit, is compared with dense matrix functions; distinct = distinct (transformation, operator, polynomial)"
PLAN = {
    "quick": {"angles": 120, "signal": 60, "gqet": 50, "qet": 50, "qsvt": 60, "gqsvt": 60, "simulation": 24, "inversion": 14, "pseudo": 12, "kernel": 3, "convolution": 30, "series": 30, "chebyshev": 24, "traced": 6, "bases": 60},
    "thorough": {"angles": 1000, "signal": 500, "gqet": 500, "qet": 500, "qsvt": 600, "gqsvt": 600, "simulation": 200, "inversion": 80, "pseudo": 40, "kernel": 16, "convolution": 250, "series": 250, "chebyshev": 250, "traced": 40, "bases": 400},
}
REQUIRED_MONITORS = ["angles", "signal", "gqet", "qet", "qsvt", "gqsvt", "simulation", "inversion", "pseudo", "kernel", "convolution", "series", "chebyshev", "traced", "bases"]
ASSUMPTIONS = [
    "approximate inversions are judged within the requested precision plus 2e-3",
    "polynomials of degree up to 6 with coefficients of order one; inversions with condition numbers up to 4",
]
CASE_TIMEOUT = 300
# --- end of plan ---
import numpy as np
from scipy.special import jv

from vlib import be as B
from vlib import dense as D
from vlib import opref as R
from vlib import qs as Q
from vlib.harness import Skip

import qrisp
from qrisp import QuantumBool, QuantumFloat, QuantumVariable, control, invert, merge
from qrisp.block_encodings import BlockEncoding
from qrisp.gqsp import GQSP, GQET, QET, QSVT, GQSVT, convolve, fourier_series_loader, hamiltonian_simulation, inversion as invert_be
from qrisp.gqsp import gqsp_angles
from qrisp.algorithms.gqsp.gqsp_angles import qsp_angles, qsvt_angles
from qrisp.algorithms.gqsp.dalzell_inversion import dalzell_inversion
from qrisp.algorithms.gqsp.helper_functions import poly2cheb, cheb2poly
from qrisp.jasp import make_jaspr

LIMIT = 11
TOL = 2e-3


def polynomial(py, d, cplx=False, parity=None):
    c = [round(py.uniform(-1, 1), 3) + (1j * round(py.uniform(-1, 1), 3) if cplx else 0) for _ in range(d + 1)]
    if py.random() < 0.4:
        for i in range(d + 1):
            if py.random() < 0.4:
                c[i] = 0 * c[i]
    if parity is not None:
        for i in range(d + 1):
            if i % 2 != parity:
                c[i] = 0 * c[i]
    p = np.array(c)
    if np.abs(p).max() < 0.05:
        p[-1 if parity is None or d % 2 == parity else -2] = 0.7
    return p


def values(p, kind, x):
    return np.polynomial.chebyshev.chebval(x, p) if kind == "Chebyshev" else np.polynomial.polynomial.polyval(x, p)


def of_hermitian(f, m):
    w, v = np.linalg.eigh(m)
    return (v * f(w)) @ v.conj().T


def of_singular(f, m, odd):
    """U f(S) V^+ (odd) or V f(S) V^+ (even)"""
    u, s, vh = np.linalg.svd(m)
    return (u * f(s)) @ vh if odd else (vh.conj().T * f(s)) @ vh


def node_for(ctx, n, hermitian, depth=None):
    py = ctx.py
    node = B.tree(py, ctx.rng, n, py.choice([0, 0, 1]) if depth is None else depth, hermitian)
    if hermitian and not np.allclose(node.m, node.m.conj().T):
        raise Skip("not Hermitian")
    if np.linalg.norm(node.m) < 1e-3:
        raise Skip("zero operator")
    return node


def block(ctx, be, sizes, psi, what):
    qc, ops, ancs = B.apply_static(be, sizes)
    if sum(map(len, ops + ancs)) > LIMIT:
        raise Skip("too many qubits")
    if len(qc.qubits) > 60:
        qc = Q.narrowed(qc, ops + ancs)
    return B.project(qc, ops, ancs, psi, what)


def judge(ctx, monitor, be, m, n, what, tol=TOL):
    psi = D.random_state(ctx.rng, n)
    out = block(ctx, be, [n], psi, what)
    ctx.observe(monitor, ctx.last, True)
    alpha = complex(be.alpha)
    ctx.require(abs(alpha.imag) < 1e-6 and alpha.real > 0, f"normalisation factor {alpha}")
    d = float(np.linalg.norm(out * alpha.real - m @ psi)) / max(alpha.real, np.linalg.norm(m, 2))
    ctx.require(d < tol, f"transformed operator deviates by {d:.4f} (relative to the normalisation {alpha.real:.3f})")


def angles(ctx):
    """angles reproduce the polynomial on the unit circle"""
    py = ctx.py
    p = polynomial(py, py.randint(0, 12), py.random() < 0.6)
    ctx.last = f"angles of {np.round(p, 3).tolist()}"
    (theta, phi, lam), alpha = gqsp_angles(p)
    theta, phi, lam, alpha = np.asarray(theta), np.asarray(phi), float(lam), float(alpha)
    ctx.observe("angles", ctx.last, True)
    circle = np.exp(2j * np.pi * np.arange(256) / 256)
    ctx.require(alpha >= np.abs(values(p, "Polynomial", circle)).max() * (1 - 1e-3), f"scaling factor {alpha} is too small")
    X = np.array([[0, 1], [1, 0]])

    def rot(t, f, l):
        ez = lambda a: np.diag([np.exp(1j * a), np.exp(-1j * a)])
        return ez(l) @ (np.cos(f) * np.eye(2) + 1j * np.sin(f) * X) @ ez(t)

    for z in np.exp(1j * ctx.rng.uniform(0, 2 * np.pi, 4)):
        m = rot(theta[0], phi[0], lam)
        for j in range(1, len(theta)):
            m = m @ np.diag([z, 1]) @ rot(theta[j], phi[j], 0)
        want = values(p, "Polynomial", z) / alpha
        ctx.require(abs(m[0, 0] - want) < TOL, f"value {m[0, 0]:.4f} instead of {want:.4f} at {z:.3f}")


def signal(ctx):
    """Laurent polynomials of a unitary"""
    py = ctx.py
    n = py.randint(1, 2)
    g = D.random_gates(py, n, py.randint(1, 4))
    u = D.matrix(g, n)
    p = polynomial(py, py.randint(1, 6), py.random() < 0.6)
    k = py.randint(0, len(p) - 1) if py.random() < 0.6 else 0
    form = py.choice(["p", "angles"])
    ctl = py.random() < 0.25
    ctx.last = f"signal processing of {g} on {n} qubits with {np.round(p, 3).tolist()}, shift {k}, given {form}, control {ctl}"
    ang, alpha = gqsp_angles(p)
    alpha = float(alpha)
    qv, anc, b = QuantumVariable(n), QuantumBool(), QuantumBool()
    kw = {"p": p} if form == "p" else {"angles": ang}
    if py.random() < 0.3:
        f = lambda q, extra=0: D.apply(g, q) if extra == 2 else None
        kw["kwargs"] = {"extra": 2}
    else:
        f = lambda q: D.apply(g, q)
    if ctl:
        with control(b):
            GQSP(anc, qv, unitary=f, k=k, **kw)
    else:
        GQSP(anc, qv, unitary=f, k=k, **kw)
    merge([qv, anc, b])
    m = sum(c * np.linalg.matrix_power(u if j >= k else u.conj().T, abs(j - k)) for j, c in enumerate(p)) / alpha
    full = D.controlled(m, (1, 1), n) if ctl else np.kron(np.eye(2), m)
    psi = D.random_state(ctx.rng, n + 1)
    out = B.project(qv.qs.copy(), [list(qv), list(b)], [list(anc)], psi, "signal processing")
    ctx.observe("signal", ctx.last, True)
    d = float(np.linalg.norm(out - full @ psi))
    ctx.require(d < TOL, f"polynomial of the unitary deviates by {d:.4f}")


def options(py):
    return py.choice(["Polynomial", "Chebyshev"]), py.random() < 0.6


def eigen(ctx, which):
    py = ctx.py
    n = py.randint(1, 2)
    node = node_for(ctx, n, True)
    kind, rescale = options(py)
    if which == "qet":
        d = py.randint(1, 6)
        p = polynomial(py, d, parity=py.randint(0, 1))
    else:
        p = polynomial(py, py.randint(1, 5), py.random() < 0.5)
    operator = py.random() < 0.2
    method = which == "gqet" and rescale and not operator and py.random() < 0.4
    if operator:
        op, m, t = B.operator(py, n)
        node = B.Node(t, lambda: op, m)
        if np.linalg.norm(m) < 1e-2:
            raise Skip("zero operator")
    ctx.last = f"{'poly' if method else which}({node.text}, {np.round(p, 3).tolist()}, {kind}, rescale={rescale}) on {n} qubits"
    be = node.build()
    alpha = complex((BlockEncoding.from_operator(be) if operator else be).alpha).real
    if rescale and alpha > 4:
        raise Skip("large normalisation")
    if method:
        out = be.poly(list(p) if py.random() < 0.5 else p, kind=kind)
    else:
        out = {"gqet": GQET, "qet": QET}[which](be, p, kind=kind, rescale=rescale)
    scale = 1 if rescale else alpha
    judge(ctx, which, out, of_hermitian(lambda w: values(p, kind, w / scale), node.m), n, "eigenvalue transformation")


def gqet(ctx):
    """polynomials of Hermitian operators"""
    eigen(ctx, "gqet")


def qet(ctx):
    """real polynomials with fixed parity of Hermitian operators"""
    eigen(ctx, "qet")


def singular(ctx, which):
    py = ctx.py
    n = py.randint(1, 2)
    node = node_for(ctx, n, py.random() < 0.3)
    kind, rescale = options(py)
    d = py.randint(1, 6)
    p = polynomial(py, d, which == "gqsvt" and py.random() < 0.5, None if which == "qsvt" and py.random() < 0.5 else py.randint(0, 1))
    parity = None
    even, odd = p.copy(), p.copy()
    even[1::2] = 0
    odd[0::2] = 0
    parity = py.choice(["odd", "even"])
    part = odd if parity == "odd" else even
    if np.abs(part).max() < 0.05:
        parity, part = ("even", even) if parity == "odd" else ("odd", odd)
    method = which == "qsvt" and rescale and py.random() < 0.4
    ctx.last = f"{'svt' if method else which}({node.text}, {np.round(p, 3).tolist()}, {kind}, {parity}, rescale={rescale}) on {n} qubits"
    be = node.build()
    alpha = complex(be.alpha).real
    if rescale and alpha > 4:
        raise Skip("large normalisation")
    if method:
        out = be.svt(list(p) if py.random() < 0.5 else p, kind=kind, parity=parity)
    else:
        out = {"qsvt": QSVT, "gqsvt": GQSVT}[which](be, p, kind=kind, parity=parity, rescale=rescale)
    m = node.m if rescale else node.m / alpha
    f = lambda s: values(part, kind, s)
    if parity == "odd":
        want = of_singular(f, m, True) if which == "qsvt" else of_singular(f, m.conj().T, True)
    else:
        want = of_singular(f, m, False)
    judge(ctx, which, out, want, n, "singular value transformation")


def qsvt(ctx):
    """singular value transformation"""
    singular(ctx, "qsvt")


def gqsvt(ctx):
    """generalised singular value transformation"""
    singular(ctx, "gqsvt")


def simulation(ctx):
    """truncated expansion of the evolution"""
    py = ctx.py
    n = py.randint(1, 2)
    node = node_for(ctx, n, True)
    be = node.build()
    alpha = complex(be.alpha).real
    t = round(py.uniform(-1.5, 1.5), 3)
    N = py.randint(1, 7)
    ctx.last = f"simulation of {node.text} on {n} qubits for time {t}, order {N}"
    if abs(t) * alpha > 6:
        raise Skip("long time")
    out = be.sim(t, N) if py.random() < 0.5 else hamiltonian_simulation(be, t, N)
    a = node.m / alpha
    T = [np.eye(2**n), a]
    for _ in range(N):
        T.append(2 * a @ T[-1] - T[-2])
    x = t * alpha
    want = jv(0, x) * T[0] + sum(2 * (-1j) ** k * jv(k, x) * T[k] for k in range(1, N + 1))
    judge(ctx, "simulation", out, want, n, "Hamiltonian simulation")
    ctx.require(N < abs(x) + 6 or abs(complex(out.alpha) - 1) < 0.02, f"normalisation factor {complex(out.alpha)} of a converged expansion")


def conditioned(ctx, n, kappa, hermitian):
    """block encoding of a well conditioned operator"""
    py = ctx.py
    for _ in range(40):
        node = B.tree(py, ctx.rng, n, py.choice([0, 1, 1]), hermitian)
        be = node.build()
        alpha = complex(be.alpha).real
        s = np.linalg.svd(node.m, compute_uv=False)
        if s.min() / alpha >= 1 / kappa and (not hermitian or np.allclose(node.m, node.m.conj().T)) and sum(t.size if hasattr(t, "size") else 1 for t in be.create_ancillas()) < 6:
            return node, be, alpha
    raise Skip("no well conditioned operator found")


def inversion(ctx):
    """approximate inverses"""
    py = ctx.py
    n = py.randint(1, 2)
    method = py.choice(["QET", "QSVT", "QSVT", "GQSVT"])
    kappa = py.choice([2, 3, 4])
    eps = py.choice([0.1, 0.05, 0.01])
    node, be, alpha = conditioned(ctx, n, kappa, method == "QET")
    ctx.last = f"inverse of {node.text} on {n} qubits, {method}, eps {eps}, kappa {kappa}"
    out = be.inv(eps, kappa, method=method) if py.random() < 0.6 else invert_be(be, eps, kappa, method=method)
    want = np.linalg.inv(node.m)
    psi = D.random_state(ctx.rng, n)
    got = block(ctx, out, [n], psi, "inversion") * complex(out.alpha).real
    ctx.observe("inversion", ctx.last, True)
    d = float(np.linalg.norm(got - want @ psi)) * alpha
    ctx.require(d < eps * max(1, alpha) + TOL * complex(out.alpha).real * alpha, f"inverse deviates by {d:.4f} (relative to the normalisation)")


def pseudo(ctx):
    """threshold pseudo inverses"""
    py = ctx.py
    n = py.randint(1, 2)
    theta = py.choice([0.25, 0.3, 0.4])
    delta = py.choice([None, theta / 5])
    eps = py.choice([0.02, 0.01])
    gap = 0.8 * (theta - 2 * (delta or theta / 4))
    want_small = py.random() < 0.6
    for _ in range(400):
        node = B.tree(py, ctx.rng, n, py.choice([0, 0, 1]))
        be = node.build()
        alpha = complex(be.alpha).real
        s = np.linalg.svd(node.m / alpha, compute_uv=False)
        big, small = s >= theta * 1.15, s < gap
        if (big | small).all() and big.any() and (not want_small or (small & (s > gap / 3)).any()) and be.num_ancs and sum(t.size for t in be.create_ancillas()) < (4 if want_small else 6):
            break
    else:
        raise Skip("no suitable operator found")
    ctx.last = f"pseudo inverse of {node.text} on {n} qubits, eps {eps}, theta {theta}, delta {delta}, singular values {np.round(s, 3).tolist()}"
    out = be.pseudo_inv(eps, theta, delta)
    want = np.linalg.pinv(node.m / alpha, rcond=float(theta / s.max()))
    psi = D.random_state(ctx.rng, n)
    got = block(ctx, out, [n], psi, "pseudo inversion") * complex(out.alpha).real * alpha
    ctx.observe("pseudo", ctx.last, True)
    d = float(np.linalg.norm(got - want @ psi))
    # the product of the approximations of filter and reciprocal stays within a few multiples of eps
    ctx.require(d < 0.12 + TOL * complex(out.alpha).real * alpha, f"pseudo inverse deviates by {d:.4f} (relative to the normalisation)")


def kernel(ctx):
    """solution of a linear system by kernel reflection"""
    py = ctx.py
    n = 1
    kappa = py.choice([2, 3])
    node, be, alpha = conditioned(ctx, n, kappa, False)
    g = D.random_gates(py, n, 3)
    b = D.matrix(g, n)[:, 0]
    x = np.linalg.solve(node.m / alpha, b)
    t = float(np.linalg.norm(x)) * py.choice([1, 0.8, 1.2])
    eps = 0.02
    ctx.last = f"kernel reflection solver for {node.text} with {g}, t {t:.3f}, kappa {kappa}"

    def prep(*qv):
        D.apply(g, qv[0])

    out = dalzell_inversion(be, prep, t, eps, kappa)
    e = np.zeros(2**n, dtype=complex)
    e[0] = 1
    got = block(ctx, out, [n], e, "kernel reflection solver")
    ctx.observe("kernel", ctx.last, True)
    ctx.require(np.linalg.norm(got) > 0.1, f"success amplitude {np.linalg.norm(got):.4f}")
    d = D.phase_distance(got / np.linalg.norm(got), x / np.linalg.norm(x))
    ctx.require(d < 0.1, f"solution deviates by {d:.4f}")


def convolution(ctx):
    """cyclic convolution with a filter"""
    py = ctx.py
    n = py.randint(2, 4)
    d = py.randint(1, min(3, 2 ** (n - 1) - 1))
    w = polynomial(py, 2 * d, py.random() < 0.4)
    g = D.random_gates(py, n, 6)
    psi = D.matrix(g, n)[:, 0]
    ctx.last = f"convolution of {g} on {n} qubits with {np.round(w, 3).tolist()}"
    qv = QuantumFloat(n)
    D.apply(g, list(qv))
    anc = convolve(qv, w)
    merge([qv, anc])
    start = np.zeros(2**n, dtype=complex)
    start[0] = 1
    out = B.project(qv.qs.copy(), [list(qv)], [list(anc)], start, "convolution")
    N = 2**n
    want = np.array([sum(w[k + d] * psi[(m - k) % N] for k in range(-d, d + 1)) for m in range(N)])
    alpha = float(gqsp_angles(w)[1])
    ctx.observe("convolution", ctx.last, True)
    dist = float(np.linalg.norm(out - want / alpha))
    ctx.require(dist < TOL, f"convolution deviates by {dist:.4f}")


def series(ctx):
    """states given by Fourier series"""
    py = ctx.py
    n = py.randint(1, 4)
    N = 2**n
    k = py.randint(1, 3)
    form = py.choice(["signal", "mirror", "frequencies"])
    if form == "frequencies":
        K = k + py.randint(0, 2)
        c = polynomial(py, 2 * K, True)
        used = c[K - k : K + k + 1]
        kw = {"frequencies": c}
        scale = 1.0
    else:
        M = py.randint(2 * k + 1, 9)
        sig = np.array([round(py.uniform(-1, 1), 3) for _ in range(M)])
        kw = {"signal": sig, "mirror": form == "mirror"}
        full = np.fft.fft(np.concatenate([sig, sig[::-1]]) if form == "mirror" else sig)
        used = np.concatenate([full[-k:], full[: k + 1]])
        scale = 0.5 if form == "mirror" else 1.0
    if np.abs(used).max() < 0.05:
        raise Skip("zero series")
    ctx.last = f"series on {n} qubits, {form}, cutoff {k}, { {a: np.round(v, 3).tolist() for a, v in kw.items() if a != 'mirror'} }"
    qv = QuantumFloat(n)
    anc = fourier_series_loader(qv, k=k, **kw)
    merge([qv, anc])
    start = np.zeros(N, dtype=complex)
    start[0] = 1
    out = B.project(qv.qs.copy(), [list(qv)], [list(anc)], start, "Fourier series")
    want = np.array([sum(used[l + k] * np.exp(2j * np.pi * scale * l * m / N) for l in range(-k, k + 1)) for m in range(N)])
    if np.linalg.norm(want) < 0.05:
        raise Skip("zero state")
    alpha = float(gqsp_angles(used)[1])
    want = want / alpha / np.sqrt(N)
    ctx.observe("series", ctx.last, True)
    d = float(np.linalg.norm(out - want))
    ctx.require(d < TOL, f"prepared state deviates by {d:.4f}")


def chebyshev(ctx):
    """rescaled Chebyshev operators"""
    py = ctx.py
    n = py.randint(1, 2)
    node = node_for(ctx, n, True)
    k = py.randint(0, 5)
    ctx.last = f"({node.text}).chebyshev({k}) on {n} qubits"
    be = node.build()
    if complex(be.alpha).real > 4:
        raise Skip("large normalisation")
    p = np.zeros(k + 1)
    p[-1] = 1
    judge(ctx, "chebyshev", be.chebyshev(k), of_hermitian(lambda w: values(p, "Chebyshev", w), node.m), n, "Chebyshev operator")


def traced(ctx):
    """transformations in traced programs"""
    py = ctx.py
    n = py.randint(1, 2)
    which = py.choice(["poly", "svt", "sim", "qet"])
    node = node_for(ctx, n, True, 0)
    be = node.build()
    alpha = complex(be.alpha).real
    if alpha > 4:
        raise Skip("large normalisation")
    p = polynomial(py, py.randint(1, 4), which == "poly" and py.random() < 0.5, py.randint(0, 1) if which in ("qet", "svt") else None)
    par = "odd" if np.abs(p[1::2]).max() > 0.05 else "even"
    t, N = round(py.uniform(0.2, 1), 2), py.randint(2, 5)
    ctx.last = f"traced {which} of {node.text} on {n} qubits with {np.round(p, 3).tolist()} / {t, N}"
    f = {"poly": lambda b: b.poly(p), "svt": lambda b: b.svt(p, parity=par), "sim": lambda b: b.sim(t, N), "qet": lambda b: QET(b, p)}[which]

    def main():
        op = QuantumFloat(n)
        ancs = f(be).apply(op)
        return tuple([op] + list(ancs))

    out = make_jaspr(main)().to_qc()
    regs = [list(x) for x in out[:-1] if isinstance(x, (list, tuple)) and len(x) and isinstance(x[0], qrisp.Qubit)]
    if sum(map(len, regs)) > LIMIT:
        raise Skip("too many qubits")
    psi = D.random_state(ctx.rng, n)
    res = B.project(out[-1], regs[:1], regs[1:], psi, "traced transformation")
    ref = block(ctx, f(be), [n], psi, "transformation")
    ctx.observe("traced", ctx.last, True)
    d = float(np.linalg.norm(res - ref))
    ctx.require(d < TOL, f"traced transformation deviates by {d:.4f} from the immediate one")


def bases(ctx):
    """conversions between monomials and Chebyshev polynomials"""
    py = ctx.py
    p = polynomial(py, py.randint(0, 10), py.random() < 0.4)
    ctx.last = f"bases of {np.round(p, 3).tolist()}"
    c = np.asarray(poly2cheb(p))
    q = np.asarray(cheb2poly(p))
    ctx.observe("bases", ctx.last, True)
    x = np.linspace(-1, 1, 7)
    ctx.require(np.abs(values(c, "Chebyshev", x) - values(p, "Polynomial", x)).max() < 1e-3, "monomials to Chebyshev polynomials")
    ctx.require(np.abs(values(q, "Polynomial", x) - values(p, "Chebyshev", x)).max() < 5e-3, "Chebyshev polynomials to monomials")


FAMILIES = {
    "angles": angles,
    "signal": signal,
    "gqet": gqet,
    "qet": qet,
    "qsvt": qsvt,
    "gqsvt": gqsvt,
    "simulation": simulation,
    "inversion": inversion,
    "pseudo": pseudo,
    "kernel": kernel,
    "convolution": convolution,
    "series": series,
    "chebyshev": chebyshev,
    "traced": traced,
    "bases": bases,
}
