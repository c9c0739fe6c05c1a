PROPERTY = "C30"
RULE = (
    "one evaluation = one claim of an operation (leaves a qubit's basis value alone / is classical logic) judged on its matrix or on basis states it meets in a program; "
    "distinct = distinct (operation name, claims, input); nontrivial = something is claimed"
)
PLAN = {
    "quick": {"operations": 900, "analysis": 300, "wrapped": 120, "adders": 110, "floats": 170, "modular": 110, "arrays": 120, "selection": 90, "addressing": 60, "uncomputed": 80, "types": 50, "controls": 60, "environments": 50},
    "thorough": {"operations": 9000, "analysis": 3000, "wrapped": 1200, "adders": 900, "floats": 1400, "modular": 900, "arrays": 1000, "selection": 700, "addressing": 500, "uncomputed": 700, "types": 400, "controls": 500, "environments": 500},
}
REQUIRED_MONITORS = ["operation_claims", "analysis", "program_claims"]
ASSUMPTIONS = [
    "claims of library routines are judged on the inputs the routine is specified for (valid operands, clean result registers and ancillas)",
    "a missing or negative claim is conservative and no violation, except from the analysis functions on operations nothing was declared for",
]
CASE_TIMEOUT = 120
# --- end of plan ---
import importlib

import numpy as np

from vlib import gen, qs as Q, ref
from vlib.harness import Ctx, Skip, Violation

import qrisp
import qrisp.circuit as qcirc
from qrisp import QuantumBool, QuantumCircuit, QuantumFloat, QuantumVariable, gate_wrap
from qrisp.permeability import is_permeable, is_qfree


def truths(m):
    """(qubits whose basis value is preserved, maps basis states to basis states) of a big-endian unitary"""
    n = int(round(np.log2(m.shape[0])))
    rows, cols = np.nonzero(np.abs(m) > 1e-4)
    keep = [not np.any(((rows ^ cols) >> (n - 1 - i)) & 1) for i in range(n)]
    return keep, bool(np.all(np.sum(np.abs(m) > 1e-4, axis=0) == 1))


def claims(op):
    p = getattr(op, "permeability", None) or {}
    return [i for i in range(op.num_qubits) if p.get(i) is True], getattr(op, "is_qfree", None) is True


def variants(py, op):
    """the operation and what the library derives from it"""
    out = [("itself", op)]
    if not isinstance(op, qcirc.ClControlledOperation):
        out.append(("inverse", op.inverse()))
        out.append(("copy", op.copy()))
        if op.num_qubits <= 3 and py.random() < 0.7:
            k = py.randint(1, 2)
            c = op.control(k, ctrl_state=gen.ctrl_state(py, k))
            out.append((f"controlled by {k}", c))
            if py.random() < 0.5:
                out.append((f"inverse of controlled by {k}", c.inverse()))
    return out


def operations(ctx):
    py = ctx.py
    n = py.randint(1, 3)
    r = py.random()
    if r < 0.55:
        op = gen.random_op(py, n, 1, True, True)
    elif r < 0.75:
        op = gen.composite_op(py, n, 2)
    else:
        # classical and diagonal compositions, for which claims can be made
        qc = QuantumCircuit(n)
        for _ in range(py.randint(1, 5)):
            o = gen.op1(py, pool=["x", "z", "s", "t", "p", "y", "rz", "x"]) if n == 1 or py.random() < 0.4 else gen.op2(py, pool=["cx", "cz", "cp", "swap", "rzz", "cy"])
            qc.append(o, py.sample(qc.qubits, o.num_qubits))
        op = qc.to_gate()
    if py.random() < 0.5:
        # force the analysis, which stores what it finds
        for i in range(op.num_qubits):
            is_permeable(op, [i])
        is_qfree(op)
    for how, o in variants(py, op):
        perm, qf = claims(o)
        m = matrix(o)
        keep, classical = truths(m)
        ctx.last = f"{how} of {op.name} {[str(p)[:8] for p in op.params]}"
        ctx.observe("operation_claims", (ctx.last, tuple(perm), qf), bool(perm) or qf)
        for i in perm:
            ctx.require(keep[i], f"{ctx.last}: claims to leave qubit {i} alone, which its matrix contradicts", None, op=gen.describe(qc_of(o)))
        ctx.require(not qf or classical, f"{ctx.last}: claims to be classical logic, which its matrix contradicts", None, op=gen.describe(qc_of(o)))
    ctx.sample(ctx.last)


def qc_of(op):
    qc = QuantumCircuit(op.num_qubits)
    qc.append(op, qc.qubits)
    return qc


def matrix(op):
    return ref.circuit_matrix(qc_of(op))


def analysis(ctx):
    """answers of the analysis on operations nothing is declared for are exact"""
    py = ctx.py
    n = py.randint(1, 4)
    qc = QuantumCircuit(n)
    style = py.choice(["classical", "diagonal", "mixed", "conjugated"])
    pool1 = {"classical": ["x", "z", "s", "y"], "diagonal": ["z", "s", "p", "rz", "t"], "mixed": ["h", "x", "rz", "ry", "t"], "conjugated": ["x", "z", "p"]}[style]
    pool2 = {"classical": ["cx", "swap", "cz"], "diagonal": ["cz", "cp", "rzz"], "mixed": ["cx", "cz", "rxx", "cp"], "conjugated": ["cx", "cz"]}[style]
    body = []
    for _ in range(py.randint(1, 6)):
        o = gen.op1(py, pool=pool1) if n == 1 or py.random() < 0.4 else gen.op2(py, pool=pool2)
        body.append((o, py.sample(range(n), o.num_qubits)))
    if style == "conjugated":
        w = [(gen.op1(py, pool=["h", "x", "sx"]), [py.randrange(n)]) for _ in range(2)]
        body = w + body + [(o.inverse(), q) for o, q in w[::-1]]
    for o, q in body:
        qc.append(o, [qc.qubits[i] for i in q])
    op = qc.to_gate()
    declared = any(v is not None for v in op.permeability.values()) or op.is_qfree is not None
    if declared:
        raise Skip("composition carries claims already")
    keep, classical = truths(ref.circuit_matrix(qc))
    ctx.last = gen.describe(qc)
    ctx.sample(ctx.last)
    ctx.observe("analysis", (ctx.last,), True)
    if py.random() < 0.5:
        ctx.require(bool(is_qfree(op)) == classical, f"analysis for classical logic answers {is_qfree(op)}", None, circuit=ctx.last)
    sub = py.sample(range(n), py.randint(1, n))
    # a set of qubits is left alone exactly if each of them is
    want = all(keep[i] for i in sub)
    got = bool(is_permeable(op, list(sub)))
    ctx.require(got == want, f"analysis for unchanged qubits {sub} answers {got}", None, circuit=ctx.last)
    for i in range(n):
        ctx.require(bool(is_permeable(op, [i])) == keep[i], f"analysis for unchanged qubit {i} answers {bool(is_permeable(op, [i]))} after asking for {sub}", None, circuit=ctx.last)
    ctx.require(bool(is_qfree(op)) == classical, f"analysis for classical logic answers {is_qfree(op)}", None, circuit=ctx.last)


def wrapped(ctx):
    """functions wrapped into gates: what is derived for the gate is true"""
    py = ctx.py
    n, m = py.randint(1, 3), py.randint(1, 2)
    a, b = QuantumVariable(n), QuantumVariable(m)
    script = []
    for _ in range(py.randint(1, 5)):
        nm = py.choice(["cx_ab", "cx_aa", "x_b", "cz", "p_a", "mcx", "h_b"])
        script.append((nm, py.randrange(n), py.randrange(n), py.randrange(m), py.choice([0.3, np.pi])))
    per = py.choice([None, None, "args", [0], [1]])
    qf = py.choice([None, True, False])
    ver = py.random() < 0.5

    def f(a, b):
        for nm, i, j, k, t in script:
            if nm == "cx_ab":
                qrisp.cx(a[i], b[k])
            elif nm == "cx_aa" and i != j:
                qrisp.cx(a[i], a[j])
            elif nm == "x_b":
                qrisp.x(b[k])
            elif nm == "cz":
                qrisp.cz(a[i], b[k])
            elif nm == "p_a":
                qrisp.p(t, a[i])
            elif nm == "mcx":
                qrisp.mcx(list(a), b[k])
            elif nm == "h_b":
                qrisp.h(b[k])

    kw = {}
    if per is not None:
        kw["permeability"] = per
    if qf is not None:
        kw["is_qfree"] = qf
    ctx.last = f"{script} declared {kw} verified {ver}"
    ctx.sample(ctx.last)
    ref_qc = QuantumCircuit(n + m)
    for nm, i, j, k, t in script:
        A, B = ref_qc.qubits[:n], ref_qc.qubits[n:]
        if nm == "cx_ab":
            ref_qc.cx(A[i], B[k])
        elif nm == "cx_aa" and i != j:
            ref_qc.cx(A[i], A[j])
        elif nm == "x_b":
            ref_qc.x(B[k])
        elif nm == "cz":
            ref_qc.cz(A[i], B[k])
        elif nm == "p_a":
            ref_qc.p(t, A[i])
        elif nm == "mcx":
            ref_qc.mcx(A, B[k])
        elif nm == "h_b":
            ref_qc.h(B[k])
    keep, classical = truths(ref.circuit_matrix(ref_qc))
    claimed = list(range(n + m)) if per == "args" else list(range(n)) if per == [0] else list(range(n, n + m)) if per == [1] else []
    right = all(keep[i] for i in claimed) and (qf is None or not qf or classical)
    if not ver:
        # without verification the user is trusted; only true declarations are made here
        if not right:
            raise Skip("false declaration without verification")
        gate_wrap(**kw)(f)(a, b) if kw else gate_wrap(f)(a, b)
    else:
        try:
            gate_wrap(verify=True, **kw)(f)(a, b)
            ok = True
        except Exception as ex:
            ok = False
            if type(ex) is not Exception:
                raise
        ctx.observe("wrapped", (ctx.last, ok), True)
        ctx.require(ok or not right, f"verification rejects true declarations: {ctx.last}")
        ctx.require(not ok or right, f"verification accepts false declarations: {ctx.last}")
        if not ok:
            return
    ctx.observe("wrapped", ctx.last, True)
    qubits = list(a.reg) + list(b.reg)
    for ins in a.qs.data:
        perm, q = claims(ins.op)
        if ins.op.name in ("qb_alloc", "qb_dealloc"):
            continue
        k2, c2 = truths(matrix(ins.op))
        ctx.observe("operation_claims", (ins.op.name, tuple(perm), q), bool(perm) or q)
        for i in perm:
            ctx.require(k2[i], f"wrapped function claims to leave qubit {i} alone: {ctx.last}")
        ctx.require(not q or c2, f"wrapped function claims to be classical logic: {ctx.last}")


# ------------------------------------------------------------------ programs
class Stop(BaseException):
    pass


def walk(ctx, qc, rows, what):
    """run the circuit and confront every claim with the basis states it meets"""
    st = ref.SparseState(len(qc.qubits), len(qc.clbits), max_rows=1 << 16)
    if rows is not None:
        st.set_rows(*rows)
    ix = {q: i for i, q in enumerate(qc.qubits)}
    budget = [90]

    def events_of(op, qs):
        out = []
        ref._emit(op, qs, [], None, out, "definition", "angles")
        return out

    def step(op, qs, depth):
        if op.name in ("qb_alloc", "qb_dealloc", "barrier", "measure", "reset") or op.num_clbits:
            if op.num_clbits or op.name == "reset":
                raise Skip("not unitary")
            return
        perm, qf = claims(op)
        big = op.definition is not None and len(op.definition.data) > 0
        if (perm or qf) and budget[0] > 0 and (big or ctx.py.random() < 0.25):
            budget[0] -= 1
            ev = events_of(op, qs)
            for r in ctx.py.sample(range(len(st.kq)), min(3, len(st.kq))):
                one = ref.SparseState(st.n, 0, max_rows=1 << 14)
                k0 = int(st.kq[r])
                one.set_rows([k0], [1.0])
                for e in ev:
                    one.apply(e)
                sel = np.abs(one.amp) > 1e-4
                kq = one.kq[sel]
                ctx.observe("program_claims", (op.name, tuple(perm), qf, len(kq)), True)
                for i in perm:
                    ctx.require(not np.any(((kq >> qs[i]) & 1) != (k0 >> qs[i] & 1)), f"{what}: operation {op.name!r} claims to leave its qubit {i} ({qc.qubits[qs[i]].identifier}) alone but changes it on a basis state of the program", None, op=gen.describe(op.definition) if big else op.name)
                if qf:
                    ctx.require(len(set(kq.tolist())) == 1, f"{what}: operation {op.name!r} claims to be classical logic but maps a basis state of the program to {len(kq)} basis states", None, op=gen.describe(op.definition) if big else op.name)
        plain = big and not isinstance(op, (qcirc.ControlledOperation, qcirc.ClControlledOperation)) and type(op).__name__ in ("Operation", "CustomControlOperation")
        if plain and depth < 2 and len(op.definition.data) < 400:
            inner = {q: qs[i] for i, q in enumerate(op.definition.qubits)}
            for ins in op.definition.data:
                step(ins.op, [inner[q] for q in ins.qubits], depth + 1)
        else:
            for e in events_of(op, qs):
                st.apply(e)

    for ins in qc.data:
        step(ins.op, [ix[q] for q in ins.qubits], 0)


def borrowed(source, families):
    def case(ctx):
        mod = importlib.import_module("checks." + source)
        fam = families[ctx.index % len(families)]
        inner = Ctx("C30", f"{source}:{fam}", ctx.index, ctx.seed, ctx.tier)
        seen = []
        orig = Q.amplitudes

        def spy(qc, groups, init_rows=None, *a, **kw):
            seen.append(1)
            walk(ctx, qc, init_rows, f"{fam}: {inner.last}"[:300])
            raise Stop()

        Q.amplitudes = spy
        try:
            mod.FAMILIES[fam](inner)
        except Stop:
            pass
        except Violation as v:
            if seen:
                raise
            raise Skip("program not judged here")
        except Skip:
            raise
        except Exception as ex:
            if seen or type(ex).__name__ in ("RefTooLarge", "RefUnsupported"):
                raise
            raise Skip("program not built: " + type(ex).__name__)
        finally:
            Q.amplitudes = orig
        ctx.last = f"{fam}: {inner.last}"
        ctx.sample(ctx.last)
        if not seen:
            raise Skip("no circuit to look at")

    return case


FAMILIES = {
    "operations": operations,
    "analysis": analysis,
    "wrapped": wrapped,
    "adders": borrowed("c09_adders", ["quantum", "classical", "environment", "increments"]),
    "floats": borrowed("c10_floats", ["binary", "scalar", "compare", "division", "tools", "inplace", "polynomial", "nested", "controlled"]),
    "modular": borrowed("c11_modular", ["inplace", "outofplace", "multiply", "imultiply", "compare", "functions"]),
    "arrays": borrowed("c13_arrays", ["elementwise", "inplace", "logic", "matmul", "dots"]),
    "selection": borrowed("c24_selection", ["switch", "tables", "dictionary", "switch_environment", "old_switch", "phases"]),
    "addressing": borrowed("c26_addressing", ["shift", "quantum_shift", "permute", "demux", "demux_inplace", "access", "loop"]),
    "uncomputed": borrowed("c07_uncompute", ["random", "expressions", "recompute", "functions"]),
    "types": borrowed("c12_types", ["bitwise", "copying", "injection"]),
    "controls": borrowed("c02_control", ["mcx", "mcz_mcp", "pt_pair"]),
    "environments": borrowed("c06_environments", ["nest", "functions"]),
}
