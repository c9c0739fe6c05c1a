PROPERTY = "C18"
RULE = (
    "one evaluation = one operator result (value of an expression, converted form, grouping, displayed text, diagonalised form or block of unitaries) compared entry by entry with dense matrices; "
    "distinct = distinct (operation, operands)"
)
PLAN = {
    "quick": {"algebra": 400, "inplace": 150, "forms": 300, "matrices": 100, "groups": 200, "basis": 500, "predicates": 80, "unitaries": 60},
    "thorough": {"algebra": 2500, "inplace": 1200, "forms": 1500, "matrices": 700, "groups": 900, "basis": 1500, "predicates": 900, "unitaries": 400},
}
REQUIRED_MONITORS = ["expression", "inplace", "pauli_form", "adjoint", "hermitian_part", "commutator", "ground_state", "matrix_roundtrip", "grouping", "diagonalisation", "term_predicates", "unitaries", "text"]
ASSUMPTIONS = ["coefficients are Python or NumPy numbers", "displayed coefficients are judged to 1e-6"]
CASE_TIMEOUT = 120
# --- end of plan ---
import itertools

import numpy as np

from vlib import opref as R
from vlib.harness import Skip

import qrisp
from qrisp import QuantumVariable
from qrisp.operators import X, Y, Z, A, C, P0, P1, QubitOperator, QubitTerm

F = {"X": X, "Y": Y, "Z": Z, "A": A, "C": C, "P0": P0, "P1": P1}


def coefficient(py, kind=None):
    kind = kind or py.choice(["int", "float", "float", "complex", "imag"])
    if kind == "int":
        return py.choice([-3, -2, -1, 1, 2, 3])
    if kind == "float":
        return round(py.uniform(-2, 2), 3) or 0.5
    if kind == "imag":
        return 1j * (round(py.uniform(-2, 2), 3) or 0.5)
    return complex(round(py.uniform(-2, 2), 3), round(py.uniform(-2, 2), 3) or 0.5)


def random_term(py, n, letters=R.LETTERS, minimum=0):
    k = py.randint(minimum, n)
    return {i: py.choice(letters) for i in py.sample(range(n), k)}


def build(terms):
    """operator and matrix-ready description from a list of (factors, coefficient)"""
    op = 0
    for f, c in terms:
        t = 1
        for i in f:
            t = t * F[f[i]](i)
        op = op + c * t
    if not isinstance(op, QubitOperator):
        op = QubitOperator({QubitTerm({}): op})
    return op


def matrix(terms, n):
    m = np.zeros((2**n, 2**n), dtype=complex)
    for f, c in terms:
        m = m + c * R.string(f, n)
    return m


def random_terms(py, n, k, letters=R.LETTERS, kind=None, minimum=0):
    seen, out = set(), []
    for _ in range(k):
        f = random_term(py, n, letters, minimum)
        key = tuple(sorted(f.items()))
        if key in seen:
            continue
        seen.add(key)
        out.append((f, coefficient(py, kind)))
    return out


def same(ctx, got, want, what, tol=1e-7, n=None):
    if got.shape != want.shape:
        ctx.require(False, f"{what}: shape {got.shape}, expected {want.shape}")
    d = float(np.max(np.abs(got - want))) if got.size else 0.0
    ctx.require(d < tol * (1 + float(np.max(np.abs(want))) if want.size else 1), f"{what}: matrices differ by {d:.3g}")


def as_matrix(op, n):
    if isinstance(op, (int, float, complex, np.number)):
        return complex(op) * np.eye(2**n)
    return op.to_array(n)


def tree(py, n, depth):
    """(text, operator, matrix) of a random expression"""
    if depth == 0 or py.random() < 0.2:
        terms = random_terms(py, n, py.randint(1, 3))
        return str(terms), build(terms), matrix(terms, n)
    k = py.choice(["+", "-", "*", "*", "**", "scalar", "scalar", "rscalar", "adjoint", "pauli"])
    s, a, ma = tree(py, n, depth - 1)
    if k in "+-*" and k != "**":
        t, b, mb = tree(py, n, depth - 1)
        if k == "+":
            return f"({s}+{t})", a + b, ma + mb
        if k == "-":
            return f"({s}-{t})", a - b, ma - mb
        return f"({s}*{t})", a * b, ma @ mb
    if k == "**":
        e = py.randint(0, 3)
        return f"({s}**{e})", a**e if e else QubitOperator({QubitTerm({}): 1}) * (a**e), np.linalg.matrix_power(ma, e)
    c = coefficient(py)
    if py.random() < 0.3:
        c = np.complex128(c) if isinstance(c, complex) else np.float64(c)
    eye = np.eye(2**n)
    if k == "scalar":
        op = py.choice("+-*")
        return f"({s}{op}{c})", (a + c if op == "+" else a - c if op == "-" else a * c), (ma + c * eye if op == "+" else ma - c * eye if op == "-" else ma * c)
    if k == "rscalar":
        op = py.choice("+-*")
        return f"({c}{op}{s})", (c + a if op == "+" else c - a if op == "-" else c * a), (ma + c * eye if op == "+" else c * eye - ma if op == "-" else ma * c)
    if k == "adjoint":
        return f"adj{s}", a.adjoint(), ma.conj().T
    return f"pauli{s}", a.to_pauli(), ma


def algebra(ctx):
    """value of an arithmetic expression"""
    py = ctx.py
    n = py.randint(1, 4)
    ctx.last = "building an expression"
    s, op, m = tree(py, n, py.randint(1, 3))
    ctx.last = f"expression {s}"[:1500]
    if not isinstance(op, QubitOperator):
        ctx.require(isinstance(op, (int, float, complex)), f"expression gave a {type(op).__name__}")
    ctx.observe("expression", s, True)
    same(ctx, as_matrix(op, n), m, "value of expression")
    if isinstance(op, QubitOperator) and py.random() < 0.5 and len(op.terms_dict) < 40:
        ctx.observe("text", s, True)
        same(ctx, R.evaluate_text(str(op), n), m, f"displayed form {str(op)[:200]}", tol=1e-6)


def inplace(ctx):
    """in-place updates change the updated operator and nothing else"""
    py = ctx.py
    n = py.randint(1, 3)
    ta, tb = random_terms(py, n, py.randint(1, 4)), random_terms(py, n, py.randint(1, 3))
    a, b = build(ta), build(tb)
    alias = a
    copy = a + 0
    m, mb = matrix(ta, n), matrix(tb, n)
    m0 = m
    steps = []
    for _ in range(py.randint(1, 4)):
        k = py.choice("+-*")
        use_op = py.random() < 0.6
        o = (b if py.random() < 0.8 else None) if use_op else coefficient(py)
        if use_op and o is None:
            o, mo = a + 0, m
        elif use_op:
            mo = mb
        else:
            mo = o * np.eye(2**n)
        steps.append((k, str(o)[:80]))
        ctx.last = f"in-place {ta} {steps}"
        if k == "+":
            a += o
            m = m + mo
        elif k == "-":
            a -= o
            m = m - mo
        else:
            a *= o
            m = m @ mo
        ctx.require(isinstance(a, QubitOperator), f"in-place {k} turned the operator into {type(a).__name__}")
    ctx.observe("inplace", (str(ta), str(steps)), True)
    same(ctx, a.to_array(n), m, "operator after in-place updates")
    same(ctx, copy.to_array(n), m0, "copy made before in-place updates")
    same(ctx, b.to_array(n), mb, "operand of in-place updates")
    ctx.require(alias is a, "in-place updates made a new operator")


def forms(ctx):
    """adjoints, Hermitian parts, Pauli forms, commutators, spectra"""
    py = ctx.py
    n = py.randint(1, 4)
    t = random_terms(py, n, py.randint(1, 6), kind=py.choice([None, "float"]))
    op, m = build(t), matrix(t, n)
    ctx.last = f"forms of {t}"
    ctx.observe("adjoint", str(t), True)
    same(ctx, op.adjoint().to_array(n), m.conj().T, "adjoint")
    ctx.observe("hermitian_part", str(t), True)
    same(ctx, as_matrix(op.hermitize(), n), R.herm(m), "Hermitian part")
    el = op.hermitize().eliminate_ladder_conjugates()
    same(ctx, R.herm(as_matrix(el, n)), R.herm(m), "Hermitian part after elimination of conjugate ladder terms")
    ctx.observe("pauli_form", str(t), True)
    p = op.to_pauli()
    same(ctx, as_matrix(p, n), m, "Pauli form")
    for term in p.terms_dict:
        ctx.require(set(term.factor_dict.values()) <= {"X", "Y", "Z"}, f"Pauli form contains the factors {term.factor_dict}")
    top = max([i for f, _ in t for i in f], default=-1) + 1
    ctx.require(op.find_minimal_qubit_amount() == top, f"minimal number of qubits {op.find_minimal_qubit_amount()}, expected {top}")
    same(ctx, op.to_array(), matrix(t, top) if top else m[:1, :1], "matrix without a given number of factors")
    s2 = random_terms(py, n, py.randint(1, 4))
    o2, m2 = build(s2), matrix(s2, n)
    ctx.last = f"commutator of {t} and {s2}"
    ctx.observe("commutator", (str(t), str(s2)), True)
    same(ctx, as_matrix(op.commutator(o2), n), m @ m2 - m2 @ m, "commutator")
    ctx.last = f"ground state energy of {t}"
    ctx.observe("ground_state", str(t), True)
    e = float(np.real(op.ground_state_energy()))
    w = float(np.min(np.linalg.eigvalsh(R.herm(m))))
    ctx.require(abs(e - w) < 1e-5 * (1 + abs(w)), f"ground state energy {e}, expected {w}")
    th = py.choice([0.3, 0.8, 1.5])
    ctx.last = f"threshold {th} of {t}"
    same(ctx, as_matrix(op.apply_threshold(th), n), matrix([(f, c) for f, c in t if abs(c) > th], n), "operator without small terms")
    same(ctx, op.to_array(n), m, "operator after its forms were computed")
    v = py.randint(1, 3)
    var = sum(abs(np.trace(R.string(dict(enumerate(q)), n).conj().T @ R.herm(m)) / 2**n) ** 2 for q in itertools.product("IXYZ", repeat=n) if set(q) != {"I"})
    ctx.require(abs(op.get_operator_variance(n=v) - var * (1 - 1 / (2**v + 1))) < 1e-6 * (1 + var), "average variance")


def matrices(ctx):
    """operators of matrices and back"""
    py, rng = ctx.py, ctx.rng
    n = py.randint(1, 3)
    m = np.round(rng.normal(size=(2**n, 2**n)) + 1j * rng.normal(size=(2**n, 2**n)), 3)
    if py.random() < 0.5:
        m = m * (rng.random(m.shape) < 0.4)
    if py.random() < 0.4:
        m = m.real
    ctx.last = f"operator of the matrix {m.tolist()}"
    ctx.observe("matrix_roundtrip", str(m.tolist()), True)
    which = py.randrange(4)
    if which == 0:
        from scipy.sparse import csr_matrix

        rev = py.random() < 0.5
        op = QubitOperator.from_matrix(csr_matrix(m) if py.random() < 0.5 else m.copy(), reverse_endianness=rev)
        want = m
        if rev:
            perm = [int(format(i, f"0{n}b")[::-1], 2) for i in range(2**n)]
            want = m[np.ix_(perm, perm)]
        same(ctx, op.to_array(n), want, f"from_matrix, reversed {rev}")
    elif which == 1:
        op = QubitOperator.from_numpy_array(m)
        same(ctx, as_matrix(op, n), m, "from_numpy_array")
    elif which == 2:
        r, c = py.randint(1, 2**n), py.randint(1, 2**n)
        op = QubitOperator.from_matrix(m[:r, :c])
        w = max(int(np.ceil(np.log2(r))), int(np.ceil(np.log2(c))))
        want = np.zeros((2**w, 2**w), dtype=complex)
        want[:r, :c] = m[:r, :c]
        same(ctx, op.to_array(w) if w else op.to_array(), want, f"from_matrix with shape {(r, c)}")
    else:
        op = QubitOperator.from_matrix(m)
        same(ctx, op.to_pauli().to_array(n), m, "Pauli form of a matrix")
        e = n + py.randint(0, 2)
        same(ctx, np.array(op.to_sparse_matrix(e).todense()), np.kron(m, np.eye(2 ** (e - n))), "matrix with spare factors")


def groups(ctx):
    """groupings partition the terms into commuting sets"""
    py = ctx.py
    n = py.randint(1, 4)
    t = random_terms(py, n, py.randint(1, 9), letters=py.choice([["X", "Y", "Z"], R.LETTERS]), kind="float")
    op = build(t)
    mats = {tuple(sorted(f.items())): R.string(f, n) for f, _ in t}
    coeff = {tuple(sorted(f.items())): c for f, c in t}
    ctx.last = f"groups of {t}"
    for name, gs, qw in [
        ("commuting_groups", op.commuting_groups(), False),
        ("commuting_qw_groups", op.commuting_qw_groups(), True),
        ("commuting_qw_groups without colouring", op.commuting_qw_groups(use_graph_coloring=False), True),
        ("commuting_qw_groups with bases", op.commuting_qw_groups(show_bases=True)[0], True),
        ("group_up", op.group_up(lambda a, b: a.commute(b)), False),
    ]:
        ctx.observe("grouping", (name, str(t)), True)
        got = {}
        for g in gs:
            keys = []
            for term, c in g.terms_dict.items():
                k = tuple(sorted(term.factor_dict.items()))
                ctx.require(k in coeff and k not in got and abs(coeff[k] - c) < 1e-12, f"{name}: term {k} with coefficient {c} is not a term of the operator or appears twice")
                got[k] = c
                keys.append(k)
            for a, b in itertools.combinations(keys, 2):
                ctx.require(R.norm(mats[a] @ mats[b] - mats[b] @ mats[a]) < 1e-9, f"{name}: {a} and {b} do not commute")
                if qw:
                    da, db = dict(a), dict(b)
                    for i in set(da) & set(db):
                        ctx.require(R.norm(R.M[da[i]] @ R.M[db[i]] - R.M[db[i]] @ R.M[da[i]]) < 1e-9, f"{name}: {a} and {b} do not commute on qubit {i}")
        ctx.require(len(got) == len(coeff), f"{name}: {len(coeff) - len(got)} terms are missing")


def qw_family(py, n):
    """terms that agree qubit by qubit, ladder factors on one fixed set of qubits"""
    basis = [py.choice(["X", "Y", "Z", "P"]) for _ in range(n)]
    lad = sorted(py.sample(range(n), py.randint(0, n))) if py.random() < 0.5 else []
    seen, out = set(), []
    pol = {i: py.choice("AC") for i in lad}
    for _ in range(py.randint(1, 5)):
        f = {}
        use = bool(lad) and py.random() < 0.6
        for i in range(n):
            if i in lad:
                if use:
                    f[i] = pol[i]
                continue
            if py.random() < 0.6:
                f[i] = py.choice(["P0", "P1", "Z"]) if basis[i] == "P" else basis[i]
        k = tuple(sorted(f.items()))
        if k in seen:
            continue
        seen.add(k)
        out.append((f, coefficient(py, "float")))
    return out


def commuting_paulis(py, n):
    """random mutually commuting Pauli strings, optionally with projectors or one ladder set on further qubits"""
    out, seen = [], set()
    m = n if py.random() < 0.6 else max(1, n - 1)
    for _ in range(40):
        f = random_term(py, m, ["X", "Y", "Z"])
        k = tuple(sorted(f.items()))
        if k in seen:
            continue
        mat = R.string(f, n)
        if all(R.norm(mat @ R.string(g, n) - R.string(g, n) @ mat) < 1e-9 for g, _ in out):
            seen.add(k)
            out.append((dict(f), coefficient(py, "float")))
        if len(out) >= py.randint(1, 7):
            break
    if m < n:
        extra = py.choice(["P", "L"])
        for f, _ in out:
            if extra == "P":
                if py.random() < 0.5:
                    f[m] = py.choice(["P0", "P1"])
            elif py.random() < 0.7:
                f[m] = "A"
    return out


def basis(ctx):
    """changes of basis diagonalise the Hermitian part"""
    py = ctx.py
    n = py.randint(1, 4)
    method = py.choice(["commuting_qw", "commuting"])
    t = qw_family(py, n) if method == "commuting_qw" else commuting_paulis(py, n)
    op, m = build(t), matrix(t, n)
    ctx.last = f"change of basis {method} of {t}"
    ctx.observe("diagonalisation", (method, str(t)), True)
    if py.random() < 0.5:
        qv = QuantumVariable(n)
        d = op.change_of_basis(qv, method)
    else:
        qv = QuantumVariable(n)
        d = op.change_of_basis(qv[:] if py.random() < 0.5 else qv, method=method)
    d2 = op.change_of_basis(method=method) if py.random() < 0.3 and False else None
    for term in d.terms_dict:
        ctx.require(set(term.factor_dict.values()) <= {"Z", "P0", "P1", "I"}, f"factors {term.factor_dict} of the transformed operator are not diagonal")
    qc = qv.qs.compile()
    extra = len(qc.qubits) - n
    ctx.require(extra == 0, "change of basis used further qubits")
    u = np.array(qc.get_unitary()) if len(qc.data) else np.eye(2**n)
    same(ctx, u.conj().T @ d.to_array(n) @ u, R.herm(m), f"operator rebuilt from its diagonal form {d}", tol=2e-5)


def predicates(ctx):
    """commutation tests on terms"""
    py = ctx.py
    n = py.randint(1, 3)
    for _ in range(20):
        f, g = random_term(py, n), random_term(py, n)
        a, b = QubitTerm(f), QubitTerm(g)
        ctx.last = f"terms {f} and {g}"
        ma, mb = R.string(f, n), R.string(g, n)
        ctx.observe("term_predicates", (str(f), str(g)), True)
        com = R.norm(ma @ mb - mb @ ma) < 1e-9
        ctx.require(bool(a.commute(b)) == com, f"commute says {a.commute(b)}")
        qw = all(R.norm(R.M[f[i]] @ R.M[g[i]] - R.M[g[i]] @ R.M[f[i]]) < 1e-9 for i in set(f) & set(g))
        ctx.require(bool(a.commute_qw(b)) == qw, f"commute_qw says {a.commute_qw(b)}")
        if a.commute_pauli(b):
            ctx.require(com, "commute_pauli holds for terms that do not commute")
        elif set(f.values()) | set(g.values()) <= {"X", "Y", "Z"}:
            ctx.require(not com, "commute_pauli denies commuting Pauli strings")
        t, c = a * b
        same(ctx, c * R.string(t.factor_dict, n), ma @ mb, "product of terms")
        same(ctx, a.commutator(b).to_array(n), ma @ mb - mb @ ma, "commutator of terms")
        ctx.require(a.intersect(b) == bool(set(f) & set(g)), "intersect")


def unitaries(ctx):
    """decomposition of the Hermitian part into unitaries with non-negative weights"""
    py = ctx.py
    n = py.randint(1, 3)
    t = random_terms(py, n, py.randint(1, 5), kind=py.choice([None, "float"]))
    op, m = build(t), R.herm(matrix(t, n))
    ctx.last = f"unitaries of {t}"
    if R.norm(m) < 1e-9:
        raise Skip("no Hermitian part")
    us, cs = op.unitaries()
    ctx.observe("unitaries", str(t), True)
    ctx.require(len(us) == len(cs) and np.all(np.asarray(cs) >= 0), f"weights {cs}")
    tot = np.zeros_like(m)
    for u, c in zip(us, cs):
        qv = QuantumVariable(n)
        u(qv)
        qc = qv.qs.compile()
        tot = tot + c * (np.array(qc.get_unitary()) if len(qc.data) else np.eye(2**n))
    same(ctx, tot, m, "weighted sum of the unitaries", tol=2e-5)


FAMILIES = {"algebra": algebra, "inplace": inplace, "forms": forms, "matrices": matrices, "groups": groups, "basis": basis, "predicates": predicates, "unitaries": unitaries}
