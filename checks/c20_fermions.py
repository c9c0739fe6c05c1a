PROPERTY = "C20"
RULE = (
    "one evaluation = one fermionic operator result (expression value, reduced form, mapped qubit operator, displayed text, equality verdict, energy, expectation value or time evolution) compared with dense "
    "Jordan-Wigner matrices or quantum chemistry reference values; distinct = distinct (operation, operands)"
)
PLAN = {
    "quick": {"algebra": 250, "inplace": 80, "forms": 220, "equality": 120, "expectation": 50, "evolution": 150, "controlled": 40, "traced": 8, "molecules": 10, "ansatz": 40},
    "thorough": {"algebra": 2500, "inplace": 800, "forms": 1800, "equality": 1200, "expectation": 500, "evolution": 1200, "controlled": 400, "traced": 80, "molecules": 60, "ansatz": 300},
}
REQUIRED_MONITORS = ["expression", "inplace", "reduced", "mapped", "equality", "expectation", "evolution", "evolution_controlled", "evolution_traced", "molecule", "text", "ansatz"]
ASSUMPTIONS = [
    "equality of fermionic operators identifies a term with its Hermitian conjugate, as the existing tests demand; it is judged on Hermitian parts",
    "product formulas are judged against the commutator bound of their terms",
    "chemistry reference energies come from the installed chemistry package",
]
CASE_TIMEOUT = 240
# --- end of plan ---
import itertools
import math

import numpy as np
from scipy.linalg import expm

from vlib import opref as R
from vlib import qs as Q
from vlib.harness import Skip
from checks.c18_operators import coefficient, same
from checks.c19_evolution import ExactBackend, random_prep, apply_prep, prep_state, action, error_bound

import qrisp
from qrisp import QuantumVariable, QuantumBool, control, invert
from qrisp.jasp import make_jaspr
from qrisp.operators import FermionicOperator, FermionicTerm, QubitOperator
from qrisp.operators.fermionic import a, c


def random_product(py, n, most=4):
    """list of (index, creator), leftmost factor first"""
    return [(py.randrange(n), py.random() < 0.5) for _ in range(py.randint(1, most))]


def conserving_product(py, n):
    k = py.randint(1, 2)
    if n < 2:
        k = 1
    i = [py.randrange(n) for _ in range(k)]
    j = [py.randrange(n) for _ in range(k)]
    return [(x, True) for x in i] + [(x, False) for x in j]


def prod_matrix(p, n):
    m = np.eye(2**n, dtype=complex)
    for i, cr in p:
        m = m @ R.ladder(i, cr, n)
    return m


def prod_op(p):
    t = 1
    for i, cr in p:
        t = t * (c(i) if cr else a(i))
    return t


def random_terms(py, n, k, kind=None, conserving=False):
    return [((conserving_product if conserving else random_product)(py, n), coefficient(py, kind)) for _ in range(k)]


def build(terms):
    op = 0
    for p, w in terms:
        op = op + w * prod_op(p)
    return op


def matrix(terms, n):
    m = np.zeros((2**n, 2**n), dtype=complex)
    for p, w in terms:
        m = m + w * prod_matrix(p, n)
    return m


def as_matrix(op, n):
    """matrix of a fermionic operator read from its terms"""
    m = np.zeros((2**n, 2**n), dtype=complex)
    for t, w in op.terms_dict.items():
        m = m + complex(w) * prod_matrix(t.ladder_list[::-1], n)
    return m


def mapped(op, n):
    q = op.to_qubit_operator()
    return q.to_array(n)


def tree(py, n, depth):
    if depth == 0 or py.random() < 0.2:
        t = random_terms(py, n, py.randint(1, 2))
        return str(t), build(t), matrix(t, n)
    k = py.choice(["+", "-", "*", "scalar", "rscalar", "dagger", "hermitize", "neg"])
    s, x, m = tree(py, n, depth - 1)
    eye = np.eye(2**n)
    if k in "+-*":
        s2, y, m2 = tree(py, n, depth - 1)
        if k == "+":
            return f"({s}+{s2})", x + y, m + m2
        if k == "-":
            return f"({s}-{s2})", x - y, m - m2
        return f"({s}*{s2})", x * y, m @ m2
    w = coefficient(py)
    if k in ("scalar", "rscalar"):
        op = py.choice("+-*")
        if k == "scalar":
            return f"({s}{op}{w})", (x + w if op == "+" else x - w if op == "-" else x * w), (m + w * eye if op == "+" else m - w * eye if op == "-" else m * w)
        return f"({w}{op}{s})", (w + x if op == "+" else w - x if op == "-" else w * x), (m + w * eye if op == "+" else w * eye - m if op == "-" else m * w)
    if k == "dagger":
        return f"dagger{s}", x.dagger(), m.conj().T
    if k == "hermitize":
        return f"herm{s}", x.hermitize(), R.herm(m)
    return f"-{s}", -x, -m


def algebra(ctx):
    """value of an arithmetic expression and its qubit form"""
    py = ctx.py
    n = py.randint(1, 4)
    s, op, m = tree(py, n, py.randint(1, 3))
    ctx.last = f"expression {s}"[:1500]
    ctx.observe("expression", s, True)
    same(ctx, as_matrix(op, n), m, "value of expression")
    ctx.observe("mapped", s, True)
    same(ctx, mapped(op, n), m, "Jordan-Wigner form of expression")
    if py.random() < 0.4 and len(op.terms_dict) < 30:
        ctx.observe("text", s, True)
        same(ctx, text_matrix(str(op), n), m, f"displayed form {str(op)[:200]}", tol=1e-6)


def text_matrix(s, n):
    import re

    names = {}

    def sub(mt):
        key = f"{mt.group(1)}{mt.group(2)}"
        names[key] = R.W(R.ladder(int(mt.group(2)), mt.group(1) == "c", n))
        return key

    s = re.sub(r"\b([ac])_?(\d+)", sub, s)
    s = re.sub(r"\bI\b", "1j", s)
    v = eval(s, {"__builtins__": {}}, names)
    return v.m if isinstance(v, R.W) else complex(v) * np.eye(2**n)


def inplace(ctx):
    """in-place updates"""
    py = ctx.py
    n = py.randint(1, 3)
    ta, tb = random_terms(py, n, py.randint(1, 3)), random_terms(py, n, py.randint(1, 2))
    x, y = build(ta), build(tb)
    m, mb = matrix(ta, n), matrix(tb, n)
    m0, copy = m, x + 0
    steps = []
    for _ in range(py.randint(1, 3)):
        k = py.choice("+-*")
        use = py.random() < 0.6
        o, mo = (y, mb) if use else (coefficient(py), None)
        if not use:
            mo = o * np.eye(2**n)
        steps.append((k, str(o)[:60]))
        ctx.last = f"in-place {ta} {steps}"
        if k == "+":
            x += o
            m = m + mo
        elif k == "-":
            x -= o
            m = m - mo
        else:
            x *= o
            m = m @ mo
        ctx.require(isinstance(x, FermionicOperator), f"in-place {k} turned the operator into {type(x).__name__}")
    ctx.observe("inplace", (str(ta), str(steps)), True)
    same(ctx, as_matrix(x, n), m, "operator after in-place updates")
    same(ctx, as_matrix(y, n), mb, "operand of in-place updates")
    same(ctx, as_matrix(copy, n), m0, "copy made before in-place updates")


def forms(ctx):
    """reduced forms, mapping, spectra, import"""
    py = ctx.py
    n = py.randint(1, 4)
    t = random_terms(py, n, py.randint(1, 5), kind=py.choice([None, "float"]), conserving=py.random() < 0.4)
    op, m = build(t), matrix(t, n)
    ctx.last = f"forms of {t}"
    ctx.observe("reduced", str(t), True)
    same(ctx, as_matrix(op.reduce(), n), m, "reduced operator")
    same(ctx, R.herm(as_matrix(op.hermitize().reduce(assume_hermitian=True), n)), R.herm(m), "Hermitian part of the operator reduced as Hermitian")
    same(ctx, R.herm(as_matrix(op.reduce(assume_hermitian=True), n)), R.herm(m), "Hermitian part of the operator reduced assuming it will be made Hermitian")
    same(ctx, as_matrix(op, n), m, "operator after its forms were computed")
    ctx.last = f"ground state of {t}"
    e, w = float(np.real(op.ground_state_energy())), float(np.min(np.linalg.eigvalsh(R.herm(m))))
    top = max([i for p, _ in t for i, _ in p], default=-1) + 1
    ctx.require(abs(e - w) < 1e-5 * (1 + abs(w)), f"ground state energy {e}, expected {w}")
    ctx.require(op.find_minimal_qubit_amount() == top, "minimal number of qubits")
    qtop = op.to_qubit_operator().find_minimal_qubit_amount()
    same(ctx, np.array(op.to_sparse_matrix().todense()), matrix(t, n)[:: 2 ** (n - qtop), :: 2 ** (n - qtop)], "sparse matrix")

    class Of:
        terms = {}

    for p, w in t:
        k = tuple((i, int(cr)) for i, cr in p)
        Of.terms[k] = Of.terms.get(k, 0) + w
    ctx.last = f"imported {Of.terms}"
    same(ctx, as_matrix(FermionicOperator.from_openfermion(Of), n), m, "imported operator")


def equality(ctx):
    """equality verdicts"""
    py = ctx.py
    n = py.randint(1, 4)
    t = random_terms(py, n, py.randint(1, 3), kind="int")
    x = build(t)
    kind = py.randrange(3)
    if kind == 0:
        # the same operator written in another order
        t2 = []
        for p, w in t:
            q = list(p)
            for _ in range(3):
                if len(q) < 2:
                    break
                i = py.randrange(len(q) - 1)
                if q[i][0] != q[i + 1][0]:
                    q[i], q[i + 1] = q[i + 1], q[i]
                    w = -w
            t2.append((q, w))
        py.shuffle(t2)
        y = build(t2)
        ctx.last = f"equality of {t} and {t2}"
        ctx.observe("equality", (str(t), str(t2)), True)
        ctx.require((x == y) is True, "two ways of writing the same operator are reported as different")
    else:
        t2 = random_terms(py, n, py.randint(1, 3), kind="int") if kind == 1 else [(p, w if py.random() < 0.5 else -w) for p, w in t]
        y = build(t2)
        ctx.last = f"equality of {t} and {t2}"
        ctx.observe("equality", (str(t), str(t2)), True)
        if x == y:
            ctx.require(R.norm(R.herm(matrix(t, n)) - R.herm(matrix(t2, n))) < 1e-9, "operators with different Hermitian parts are reported as equal")


def expectation(ctx):
    """expectation values of fermionic operators"""
    py = ctx.py
    n = py.randint(1, 4)
    t = random_terms(py, n, py.randint(1, 4), kind=py.choice([None, "float"]), conserving=py.random() < 0.6)
    method = py.choice(["commuting_qw", "commuting"])
    gates = random_prep(py, n)
    ctx.last = f"expectation value, {method}, of {t} in {gates}"

    def prep():
        qv = QuantumVariable(n)
        apply_prep(gates, qv)
        return qv

    got = build(t).expectation_value(prep, precision=0.1, diagonalisation_method=method, backend=ExactBackend())()
    psi = prep_state(gates, n)
    want = float(np.real(psi.conj() @ R.herm(matrix(t, n)) @ psi))
    ctx.observe("expectation", (method, str(t)), True)
    ctx.require(abs(float(np.real(got)) - want) < 1e-4 * (1 + abs(want)), f"expectation value {got}, expected {want}")


def pieces(t, n):
    return [R.herm(w * prod_matrix(p, n)) for p, w in t]


def evolve(ctx, monitor, ctrl=None, kinds=("float",)):
    py = ctx.py
    n = py.randint(1, 4)
    t = random_terms(py, n, py.randint(1, 4), kind=py.choice(kinds), conserving=py.random() < 0.6)
    h = R.herm(matrix(t, n))
    if R.norm(h) < 1e-9:
        raise Skip("no Hermitian part")
    time, steps, iters = round(py.uniform(-0.4, 0.4), 3), py.choice([1, 2, 4]), py.randint(1, 2)
    forward, inverse = py.random() < 0.6, py.random() < 0.2
    ctx.last = f"fermionic evolution t {time} steps {steps} iter {iters} forward {forward} inverse {inverse} control {ctrl} of {t}"
    u = build(t).trotterization(forward_evolution=forward) if not forward or py.random() < 0.5 else build(t).trotterization()
    qv = QuantumVariable(n)
    regs = [list(qv)]

    def run():
        if inverse:
            with invert():
                u(qv, t=time, steps=steps, iter=iters)
        else:
            u(qv, t=time, steps=steps, iter=iters)

    if ctrl is None:
        run()
    else:
        cq = QuantumVariable(len(ctrl))
        regs = [list(cq)] + regs
        with control(list(cq), ctrl_state=ctrl):
            run()
    psi, out = action(ctx, qv.qs.copy(), regs, "evolution")
    target = expm(-1j * (1 if forward else -1) * (-1 if inverse else 1) * time * iters * h)
    if ctrl is not None:
        full = np.eye(2 ** (n + len(ctrl)), dtype=complex)
        k = int(ctrl, 2)
        full[k * 2**n : (k + 1) * 2**n, k * 2**n : (k + 1) * 2**n] = target
        target = full
    err = float(np.linalg.norm(out - target @ psi))
    bound = iters * error_bound(pieces(t, n), abs(time), steps, 1)
    ctx.observe(monitor, ctx.last, True)
    ctx.require(err < bound * 1.001 + 2e-5 * (1 + len(t) * steps * iters), f"deviation {err:.5f} from the exponential, bound {bound:.5f}")


def evolution(ctx):
    """time evolution within the product formula bound"""
    evolve(ctx, "evolution", kinds=("float", "float", None))


def controlled(ctx):
    """controlled time evolution"""
    evolve(ctx, "evolution_controlled", ctrl=ctx.py.choice(["1", "0", "11", "10"]), kinds=("float", None))


def traced(ctx):
    """time evolution in traced programs"""
    py = ctx.py
    n = py.randint(1, 3)
    t = random_terms(py, n, py.randint(1, 3), kind=py.choice(["float", None]), conserving=py.random() < 0.6)
    h = R.herm(matrix(t, n))
    if R.norm(h) < 1e-9:
        raise Skip("no Hermitian part")
    time, steps, iters = round(py.uniform(-0.4, 0.4), 3), py.randint(1, 3), py.randint(1, 2)
    forward = py.random() < 0.6
    ctx.last = f"traced fermionic evolution t {time} steps {steps} iter {iters} forward {forward} of {t}"
    op = build(t)

    def main(time, steps, iters):
        u = op.trotterization(forward_evolution=forward)
        qv = QuantumVariable(n)
        u(qv, t=time, steps=steps, iter=iters)
        return qv

    out = make_jaspr(main)(0.5, 1, 1).to_qc(time, steps, iters)
    regs = [list(x) for x in out[:-1] if isinstance(x, (list, tuple)) and len(x) and isinstance(x[0], qrisp.Qubit)]
    psi, got = action(ctx, out[-1], regs, "traced evolution")
    err = float(np.linalg.norm(got - expm(-1j * (1 if forward else -1) * time * iters * h) @ psi))
    bound = iters * error_bound(pieces(t, n), abs(time), steps, 1)
    ctx.observe("evolution_traced", ctx.last, True)
    ctx.require(err < bound * 1.001 + 1e-4 * (1 + len(t) * steps * iters), f"deviation {err:.5f} from the exponential, bound {bound:.5f}")


def molecules(ctx):
    """electronic structure Hamiltonians reproduce chemistry reference energies"""
    py = ctx.py
    from pyscf import fci, gto, scf, mcscf
    from qrisp.algorithms.vqe.problems.electronic_structure import create_electronic_hamiltonian, electronic_data

    d = round(py.uniform(0.5, 2.2), 3)
    which = py.choice(["H2", "H2", "HeH", "H3", "H4", "LiH"])
    geo = {
        "H2": f"H 0 0 0; H 0 0 {d}",
        "HeH": f"He 0 0 0; H 0 0 {d}",
        "H3": f"H 0 0 0; H 0 0 {d}; H 0 {d} 0.3",
        "H4": f"H 0 0 0; H 0 0 {d}; H 0 {d} 0; H 0 {d} {d + 0.2}",
        "LiH": f"Li 0 0 0; H 0 0 {d + 0.5}",
    }[which]
    mol = gto.M(atom=geo, basis="sto-3g", charge=1 if which in ("HeH", "H3") else 0, verbose=0)
    mf = scf.RHF(mol)
    mf.verbose = 0
    mf.kernel()
    active = None
    if which == "LiH":
        active = py.choice([(4, 2), (6, 2), (6, 4)])
    elif which == "H4" and py.random() < 0.5:
        active = (4, 2)
    ctx.last = f"{which} at {d}, active space {active}"
    if active:
        cas = mcscf.CASCI(mf, active[0] // 2, active[1])
        cas.verbose = 0
        want = cas.kernel()[0] - mol.energy_nuc()
        H = create_electronic_hamiltonian(electronic_data(mol), active[0], active[1]) if py.random() < 0.5 else create_electronic_hamiltonian(mol, active[0], active[1])
        n, ne = active
    else:
        cis = fci.FCI(mf)
        cis.verbose = 0
        want = cis.kernel()[0] - mol.energy_nuc()
        H = create_electronic_hamiltonian(mol) if py.random() < 0.5 else FermionicOperator.from_pyscf(mol)
        n, ne = 2 * mf.mo_coeff.shape[0], mol.nelectron
    m = mapped(H, n)
    same(ctx, m, m.conj().T, "molecular Hamiltonian and its adjoint", tol=1e-6)
    idx = [i for i in range(2**n) if bin(i).count("1") == ne and sum((i >> (n - 1 - j)) & 1 for j in range(0, n, 2)) == ne - ne // 2]
    outside = [i for i in range(2**n) if bin(i).count("1") != ne]
    ctx.require(float(np.max(np.abs(m[np.ix_([i for i in range(2**n) if bin(i).count("1") == ne], outside)]), initial=0)) < 1e-9, "the Hamiltonian changes the number of electrons")
    e = float(np.min(np.linalg.eigvalsh(m[np.ix_(idx, idx)])))
    ctx.observe("molecule", ctx.last, True)
    ctx.require(abs(e - want) < 1e-5, f"lowest energy with {ne} electrons is {e}, chemistry reference {want}")


def ansatz(ctx):
    """occupied reference states and particle conservation of the chemistry ansatz"""
    py = ctx.py
    from qrisp.algorithms.vqe.problems.electronic_structure import create_QCCSD_ansatz, create_hartree_fock_init_function

    M = py.choice([2, 4, 4, 6])
    N = py.choice([k for k in range(0, M + 1)])
    ctx.last = f"ansatz with {M} orbitals and {N} electrons"
    qv = QuantumVariable(M)
    create_hartree_fock_init_function(M, N)(qv)
    u, k = create_QCCSD_ansatz(M, N)
    th = [round(py.uniform(-3, 3), 3) for _ in range(k)]
    u(qv, th)
    amps = Q.amplitudes(qv.qs.copy(), [list(qv)], what="ansatz")
    ctx.observe("ansatz", (M, N, str(th)), True)
    ups = sum(1 for i in range(N) if i % 2)
    for (v,), w in amps.items():
        if abs(w) > 1e-5:
            ctx.require(bin(v).count("1") == N, f"ansatz reaches {bin(v)} with {bin(v).count('1')} electrons")
            ctx.require(sum((v >> i) & 1 for i in range(1, M, 2)) == ups, f"ansatz reaches {bin(v)} with another spin")
    if not k:
        return
    # the parameters generate independent real rotations: zero parameters leave the reference state
    qv = QuantumVariable(M)
    create_hartree_fock_init_function(M, N)(qv)
    u(qv, [0.0] * k)
    amps = Q.amplitudes(qv.qs.copy(), [list(qv)], what="ansatz")
    ctx.require(abs(abs(amps.get((2**N - 1,), 0)) - 1) < 1e-4, f"ansatz with zero parameters leaves the reference state: {amps}")


FAMILIES = {
    "algebra": algebra,
    "inplace": inplace,
    "forms": forms,
    "equality": equality,
    "expectation": expectation,
    "evolution": evolution,
    "controlled": controlled,
    "traced": traced,
    "molecules": molecules,
    "ansatz": ansatz,
}
