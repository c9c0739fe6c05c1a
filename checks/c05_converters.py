PROPERTY = "C05"
RULE = (
    "one evaluation = one converted circuit whose unitary (up to global phase) or exact outcome distribution, computed by the target framework or from its "
    "instruction list, is compared with the reference semantics of the source circuit; distinct = distinct (framework, behaviour) keys"
)
PLAN = {
    "quick": {"qiskit": 450, "qiskit_dynamic": 260, "qiskit_import": 300, "qiskit_import_dynamic": 160, "qasm": 220, "symbolic": 80, "cirq": 300, "cirq_import": 220, "pytket": 300, "pennylane": 300, "stim": 220},
    "thorough": {"qiskit": 4000, "qiskit_dynamic": 2500, "qiskit_import": 3000, "qiskit_import_dynamic": 1500, "qasm": 2000, "symbolic": 800, "cirq": 3000, "cirq_import": 2000, "pytket": 3000, "pennylane": 2500, "stim": 2000},
}
REQUIRED_MONITORS = ["qiskit_export", "qiskit_dynamic_export", "qiskit_import", "qiskit_dynamic_import", "qasm_round_trip", "cirq_export", "cirq_import", "pytket_export", "pennylane_export", "static"]
ASSUMPTIONS = [
    "the unitary a target framework assigns to its own gates is taken as that framework's semantics",
    "an explicit refusal (error naming the unsupported operation) is not a violation; a silently different circuit is",
]
# --- end of plan ---
import math

import numpy as np

from vlib import gen, ref
from vlib.harness import Skip, Violation

import qrisp
from qrisp import QuantumCircuit
import qrisp.circuit as qcirc

TOL = 3e-5


def ukey(m):
    return tuple(np.round(np.abs(m.flatten()[:24]), 2))


def dkey(d):
    return tuple(sorted((k, round(v, 3)) for k, v in d.items()))


def reverse_endian(m):
    n = int(round(math.log2(m.shape[0])))
    if n == 0:
        return m
    t = m.reshape([2] * 2 * n)
    p = list(range(n))[::-1]
    return np.transpose(t, p + [n + i for i in p]).reshape(2**n, 2**n)


def judge(ctx, monitor, want, got, what, extra=""):
    ctx.observe(monitor, ukey(want), want.shape[0] > 1 and not np.allclose(want, np.eye(want.shape[0])))
    ctx.require(want.shape == got.shape, f"{what}: shape {got.shape} instead of {want.shape}", None, circuit=ctx.last)
    ctx.close(ref.phase_diff(want, got), TOL, what, None, circuit=ctx.last, extra=str(extra)[:800])


# ------------------------------------------------------------------ qiskit
def qiskit_matrix(q):
    from qiskit.quantum_info import Operator

    return reverse_endian(np.array(Operator(q).data))


def src(py, n=None, depth=2, barrier=0.05, gates=None, **kw):
    n = n or py.randint(1, 4)
    return gen.random_circuit(py, n, gates or py.randint(1, 10), depth=depth, barrier=barrier, **kw)


def qiskit(ctx):
    py = ctx.py
    qc = src(py)
    ctx.last = gen.describe(qc)
    ctx.sample(ctx.last)
    before = ctx.last
    want = ref.circuit_matrix(qc)
    q = qc.to_qiskit()
    ctx.require(gen.describe(qc) == before, "export modified the circuit", None, circuit=before)
    ctx.require(q.num_qubits == len(qc.qubits), "number of qubits changed by export", None, circuit=before)
    judge(ctx, "qiskit_export", want, qiskit_matrix(q.copy() if not barrier_in(qc) else strip(q)), "unitary exported to Qiskit")
    back = QuantumCircuit.from_qiskit(q)
    judge(ctx, "qiskit_export", want, ref.circuit_matrix(back), "unitary after Qiskit round trip", gen.describe(back))
    ctx.require([b.identifier for b in back.qubits] == [b.identifier for b in qc.qubits], "qubit names lost in Qiskit round trip", None, circuit=before)


def barrier_in(qc):
    return any(i.op.name == "barrier" for i in qc.data)


def strip(q):
    from qiskit.transpiler.passes import RemoveBarriers

    return RemoveBarriers()(q)


def qiskit_events(q, qmap=None, cmap=None, cond=None, out=None):
    """instruction list of a Qiskit circuit as reference events"""
    from qiskit.circuit import ControlFlowOp, Clbit as QClbit
    from qiskit.quantum_info import Operator

    out = [] if out is None else out
    qmap = qmap or {b: i for i, b in enumerate(q.qubits)}
    cmap = cmap or {b: i for i, b in enumerate(q.clbits)}
    for ins in q.data:
        op = ins.operation
        qs = [qmap[b] for b in ins.qubits]
        cs = [cmap[b] for b in ins.clbits]
        if op.name == "barrier":
            continue
        if op.name == "measure":
            out.append(("measure", cs[0], (qs[0],), cond))
        elif op.name == "reset":
            out.append(("reset", None, (qs[0],), cond))
        elif op.name == "if_else":
            tgt, val = op.condition
            if isinstance(tgt, QClbit):
                new = ((cmap[tgt],), str(int(val)))
            else:
                bits = list(tgt)
                new = (tuple(cmap[b] for b in bits), "".join(str((int(val) >> i) & 1) for i in range(len(bits))))
            body = op.blocks[0]
            inner_c = {b: cs[i] for i, b in enumerate(body.clbits)}
            # conditions inside bodies refer to outer bits
            inner_c.update({b: v for b, v in cmap.items()})
            qiskit_events(body, {b: qs[i] for i, b in enumerate(body.qubits)}, inner_c, ref._and_cond(cond, new), out)
            if len(op.blocks) > 1 and op.blocks[1] is not None:
                raise Skip("else body")
        elif isinstance(op, ControlFlowOp):
            raise Skip("control flow " + op.name)
        else:
            try:
                m = Operator(op).data
            except Exception:
                if op.definition is None:
                    raise
                d = op.definition
                qiskit_events(d, {b: qs[i] for i, b in enumerate(d.qubits)}, {b: cs[i] for i, b in enumerate(d.clbits)}, cond, out)
                continue
            out.append(("u", reverse_endian(np.array(m)), tuple(qs), cond))
    return out


def run_events(ev, n, k):
    st = ref.SparseState(n, k)
    for e in ev:
        st.apply(e)
    return st.clbit_distribution()


def dyn(py, n, k, max_cond=1):
    qc = QuantumCircuit(n, k)
    used = []
    for _ in range(py.randint(2, 10)):
        r = py.random()
        if r < 0.25:
            c = py.randrange(k)
            qc.measure(qc.qubits[py.randrange(n)], qc.clbits[c])
            used.append(c)
        elif r < 0.32:
            qc.reset(qc.qubits[py.randrange(n)])
        elif r < 0.55 and used:
            op = gen.random_op(py, n, 1, True, True)
            m = py.randint(1, min(max_cond, k))
            cs = py.sample(range(k), m)
            st = "".join(py.choice("0111") for _ in cs)
            if py.random() < 0.5:
                st = "1" * m
            qc.append(op.c_if(m, st), py.sample(qc.qubits, op.num_qubits), [qc.clbits[c] for c in cs])
        else:
            op = gen.random_op(py, n, 1, True, True)
            qc.append(op, py.sample(qc.qubits, op.num_qubits))
    for c in range(k):
        if c not in used:
            qc.measure(qc.qubits[py.randrange(n)], qc.clbits[c])
    return qc


def qiskit_dynamic(ctx):
    py = ctx.py
    n, k = py.randint(1, 4), py.randint(1, 3)
    qc = dyn(py, n, k, max_cond=1 if py.random() < 0.6 else 3)
    ctx.last = gen.describe(qc)
    ctx.sample(ctx.last)
    want = ref.simulate(qc).clbit_distribution()
    q = qc.to_qiskit()
    got = run_events(qiskit_events(q), n, k)
    ctx.observe("qiskit_dynamic_export", dkey(want), len(want) > 1)
    ctx.close(ref.dist_diff(got, want), TOL, "outcome distribution of the circuit exported to Qiskit", None, circuit=ctx.last, got=str(got)[:300], want=str(want)[:300])
    back = QuantumCircuit.from_qiskit(q)
    got = ref.simulate(back).clbit_distribution()
    ctx.close(ref.dist_diff(got, want), TOL, "outcome distribution after Qiskit round trip", None, circuit=ctx.last, back=gen.describe(back), got=str(got)[:300], want=str(want)[:300])


def qiskit_gate(py, n):
    import qiskit.circuit.library as L

    a = lambda: gen.angle(py)
    one = [
        lambda: L.XGate(), lambda: L.YGate(), lambda: L.ZGate(), lambda: L.HGate(), lambda: L.SGate(), lambda: L.SdgGate(), lambda: L.TGate(), lambda: L.TdgGate(),
        lambda: L.SXGate(), lambda: L.SXdgGate(), lambda: L.RXGate(a()), lambda: L.RYGate(a()), lambda: L.RZGate(a()), lambda: L.PhaseGate(a()), lambda: L.UGate(a(), a(), a()),
        lambda: L.U3Gate(a(), a(), a()), lambda: L.U2Gate(a(), a()), lambda: L.U1Gate(a()), lambda: L.RGate(a(), a()), lambda: L.IGate(),
    ]
    two = [
        lambda: L.CXGate(), lambda: L.CYGate(), lambda: L.CZGate(), lambda: L.CHGate(), lambda: L.CPhaseGate(a()), lambda: L.CRXGate(a()), lambda: L.CRYGate(a()), lambda: L.CRZGate(a()),
        lambda: L.SwapGate(), lambda: L.iSwapGate(), lambda: L.RXXGate(a()), lambda: L.RYYGate(a()), lambda: L.RZZGate(a()), lambda: L.XXPlusYYGate(a(), a()), lambda: L.XXMinusYYGate(a(), a()),
        lambda: L.ECRGate(), lambda: L.DCXGate(), lambda: L.CSXGate(), lambda: L.CSGate(), lambda: L.CUGate(a(), a(), a(), a()), lambda: L.RZXGate(a()), lambda: L.CU1Gate(a()), lambda: L.CU3Gate(a(), a(), a()),
    ]
    three = [lambda: L.CCXGate(), lambda: L.CCZGate(), lambda: L.CSwapGate(), lambda: L.RCCXGate()]
    r = py.random()
    if n == 1 or r < 0.45:
        return py.choice(one)()
    if r < 0.75 or n == 2:
        g = py.choice(two)()
        if py.random() < 0.15 and hasattr(g, "ctrl_state"):
            g = g.base_gate.control(1, ctrl_state=0)
        return g
    if r < 0.82:
        return py.choice(three)()
    nc = py.randint(1, n - 1)
    return py.choice(one)().control(nc, ctrl_state=py.randrange(2**nc))


def qiskit_import(ctx):
    from qiskit import QuantumCircuit as QQC, QuantumRegister

    py = ctx.py
    n = py.randint(1, 4)
    if py.random() < 0.5:
        q = QQC(n)
    else:
        a = py.randint(1, n)
        q = QQC(*( [QuantumRegister(a, "a")] + ([QuantumRegister(n - a, "b")] if n > a else [])))
    desc = []
    for _ in range(py.randint(1, 9)):
        r = py.random()
        if r < 0.1:
            q.global_phase += gen.angle(py)
            desc.append("gphase")
            continue
        if r < 0.2:
            sub = QQC(py.randint(1, n))
            for _ in range(py.randint(1, 3)):
                g = qiskit_gate(py, sub.num_qubits)
                sub.append(g, py.sample(range(sub.num_qubits), g.num_qubits))
            sub.global_phase = gen.angle(py)
            g = sub.to_gate(label=None)
            if py.random() < 0.4 and sub.num_qubits < n:
                g = g.control(1, ctrl_state=py.randrange(2))
            elif py.random() < 0.3:
                g = g.inverse()
        else:
            g = qiskit_gate(py, n)
        q.append(g, py.sample(range(n), g.num_qubits))
        desc.append(f"{g.name}{[round(float(p), 3) for p in g.params if isinstance(p, (int, float))]}{getattr(g, 'ctrl_state', '')}")
    ctx.last = " ".join(desc)
    ctx.sample(ctx.last)
    want = qiskit_matrix(q)
    qc = QuantumCircuit.from_qiskit(q)
    judge(ctx, "qiskit_import", want, ref.circuit_matrix(qc), "unitary imported from Qiskit", gen.describe(qc))


def qiskit_import_dynamic(ctx):
    from qiskit import QuantumCircuit as QQC, QuantumRegister, ClassicalRegister

    py = ctx.py
    n, k = py.randint(1, 3), py.randint(1, 3)
    cr = ClassicalRegister(k, "c")
    q = QQC(QuantumRegister(n, "q"), cr)
    desc = []
    for _ in range(py.randint(2, 9)):
        r = py.random()
        if r < 0.3:
            a, b = py.randrange(n), py.randrange(k)
            q.measure(a, b)
            desc.append(f"m{a}->{b}")
        elif r < 0.37:
            a = py.randrange(n)
            q.reset(a)
            desc.append(f"reset{a}")
        elif r < 0.6:
            if py.random() < 0.5:
                b, v = py.randrange(k), py.randrange(2)
                cond = (q.clbits[b], v)
            else:
                b, v = "c", py.randrange(2**k)
                cond = (cr, v)
            body = QQC(n)
            names = []
            for _ in range(py.randint(1, 2)):
                g = qiskit_gate(py, n)
                qs = py.sample(range(n), g.num_qubits)
                body.append(g, qs)
                names.append(f"{g.name}{qs}")
            q.if_else(cond, body, None, list(range(n)), [])
            desc.append(f"if({b}=={v}){names}")
        else:
            g = qiskit_gate(py, n)
            qs = py.sample(range(n), g.num_qubits)
            q.append(g, qs)
            desc.append(f"{g.name}{qs}")
    for b in range(k):
        if py.random() < 0.5:
            a = py.randrange(n)
            q.measure(a, b)
            desc.append(f"m{a}->{b}")
    ctx.last = " ".join(desc)
    ctx.sample(ctx.last)
    want = run_events(qiskit_events(q), n, k)
    qc = QuantumCircuit.from_qiskit(q)
    got = ref.simulate(qc).clbit_distribution()
    ctx.observe("qiskit_dynamic_import", dkey(want), len(want) > 1)
    ctx.close(ref.dist_diff(got, want), TOL, "outcome distribution of the circuit imported from Qiskit", None, circuit=ctx.last, back=gen.describe(qc), got=str(got)[:300], want=str(want)[:300])


def qasm(ctx):
    py = ctx.py
    qc = src(py, py.randint(1, 3), gates=py.randint(1, 7), barrier=0.0)
    ctx.last = gen.describe(qc)
    ctx.sample(ctx.last)
    want = ref.circuit_matrix(qc)
    r = py.random()
    if r < 0.93:
        txt = qc.to_qasm2() if py.random() < 0.5 else qc.qasm()
        back = QuantumCircuit.from_qasm_str(txt)
        judge(ctx, "qasm_round_trip", want, ref.circuit_matrix(back), "unitary after QASM 2 round trip", txt)
    else:
        import qiskit

        txt = qc.to_qasm3()
        ctx.require("OPENQASM 3" in txt, "to_qasm3 did not produce OpenQASM 3", None, circuit=ctx.last)
        try:
            import qiskit_qasm3_import  # noqa
        except ImportError:
            raise Skip("qasm3 importer not installed")
        q = qiskit.qasm3.loads(txt)
        judge(ctx, "qasm_round_trip", want, qiskit_matrix(q), "unitary of QASM 3 export", txt)


def symbolic(ctx):
    import sympy

    py = ctx.py
    syms = [sympy.Symbol(s) for s in ("alpha", "beta", "gamma")]
    n = py.randint(1, 3)
    qc = QuantumCircuit(n)
    for _ in range(py.randint(2, 8)):
        if py.random() < 0.6:
            e = sum((py.choice([-1, 1, 2, 0.5]) * s for s in py.sample(syms, py.randint(1, 2))), 0) + py.choice([0, 0.3])
            nm = py.choice(["rx", "ry", "rz", "p"] + (["cp", "rzz", "rxx"] if n > 1 else []))
            if nm in ("cp", "rzz", "rxx"):
                getattr(qc, nm)(e, *py.sample(qc.qubits, 2))
            else:
                getattr(qc, nm)(e, py.choice(qc.qubits))
        elif py.random() < 0.5:
            k = py.randint(1, n)
            sub = QuantumCircuit(k)
            for i in range(py.randint(1, 2)):
                getattr(sub, py.choice(["rx", "ry", "rz", "p", "gphase"]))(py.choice(syms) * py.choice([1, -2]) + py.choice([0, 0.4]), sub.qubits[py.randrange(k)])
            op = sub.to_gate("sub%d" % py.randrange(1000))
            if k < n and py.random() < 0.5:
                op = op.control(1, ctrl_state=py.choice("01"))
            qc.append(op, py.sample(qc.qubits, op.num_qubits))
        else:
            op = gen.random_op(py, n, 1)
            qc.append(op, py.sample(qc.qubits, op.num_qubits))
    vals = {s: py.uniform(-3, 3) for s in syms}
    ctx.last = gen.describe(qc)
    ctx.sample(ctx.last)
    want = ref.circuit_matrix(qc.bind_parameters(vals))
    q = qc.to_qiskit()
    bound = q.assign_parameters({p: vals[sympy.Symbol(p.name)] for p in q.parameters})
    judge(ctx, "qiskit_export", want, qiskit_matrix(bound), "unitary of parametrised export after binding")
    back = QuantumCircuit.from_qiskit(q)
    names = {s.name: v for s, v in vals.items()}
    sub = {s: names[s.name] for s in back.abstract_params}
    judge(ctx, "qiskit_export", want, ref.circuit_matrix(back.bind_parameters(sub)), "unitary of parametrised round trip after binding", gen.describe(back))


# ------------------------------------------------------------------ cirq
def cirq(ctx):
    import cirq as C

    py = ctx.py
    n = py.randint(1, 4)
    ones = [g for g in gen.ONE_Q]
    qc = src(py, n, barrier=0.0)
    ctx.last = gen.describe(qc)
    ctx.sample(ctx.last)
    want = ref.circuit_matrix(qc)
    try:
        c = qc.to_cirq()
    except ValueError as e:
        if "not supported" in str(e) or "could not be decomposed" in str(e):
            ctx.observe("refused", "cirq", False)
            return
        raise
    got = np.array(C.unitary(C.Circuit([C.I(C.LineQubit(i)) for i in range(n)]) + c)) if True else None
    judge(ctx, "cirq_export", want, got, "unitary exported to Cirq", c)
    try:
        back = QuantumCircuit.from_cirq(C.Circuit([C.I(C.LineQubit(i)) for i in range(n)]) + c)
    except ValueError as e:
        ctx.observe("refused", "cirq_import", False)
        return
    judge(ctx, "cirq_export", want, ref.circuit_matrix(back), "unitary after Cirq round trip", c)


def cirq_import(ctx):
    import cirq as C

    py = ctx.py
    n = py.randint(1, 4)
    qs = [C.LineQubit(i) for i in range(n)] if py.random() < 0.7 else [C.NamedQubit(s) for s in "abcd"[:n]]
    ex = lambda: py.choice([0.5, 0.25, 1, -1, 2, 3, -0.5, -0.25, 3.5, 1.5, py.uniform(-4, 4)])
    ops = [C.I(q) for q in qs]

    def one():
        r = py.randrange(8)
        gs = py.choice([0, 0, 0, -0.5, 0.3])
        if r == 0:
            return py.choice([C.X, C.Y, C.Z, C.H, C.S, C.T])
        if r == 1:
            return C.XPowGate(exponent=ex(), global_shift=gs)
        if r == 2:
            return C.YPowGate(exponent=ex(), global_shift=gs)
        if r == 3:
            return C.ZPowGate(exponent=ex(), global_shift=gs)
        if r == 4:
            return py.choice([C.rx, C.ry, C.rz])(gen.angle(py))
        if r == 5:
            return C.HPowGate(exponent=py.choice([1, -1, 3]))
        if r == 6:
            return C.S**-1
        return C.X**0.5

    desc = []
    for _ in range(py.randint(1, 8)):
        r = py.random()
        if r < 0.08:
            op = C.GlobalPhaseGate(np.exp(1j * gen.angle(py)))()
            if py.random() < 0.4:
                op = op.controlled_by(py.choice(qs), control_values=[py.randrange(2)])
        elif r < 0.45 or n == 1:
            op = one()(py.choice(qs))
        elif r < 0.65:
            g = py.choice([C.CNOT, C.CZ, C.SWAP, C.CXPowGate(exponent=-1), C.CZPowGate(exponent=3)])
            op = g(*py.sample(qs, 2))
        else:
            nc = py.randint(1, n - 1)
            cv = [py.randrange(2) for _ in range(nc)]
            g = one()
            sel = py.sample(qs, nc + 1)
            if py.random() < 0.5:
                op = g.controlled(nc, control_values=cv)(*sel)
            else:
                op = g(sel[-1]).controlled_by(*sel[:-1], control_values=cv)
        ops.append(op)
        desc.append(str(op))
    c = C.Circuit(ops)
    ctx.last = "; ".join(desc)
    ctx.sample(ctx.last)
    want = np.array(C.unitary(c))
    try:
        qc = QuantumCircuit.from_cirq(c)
    except ValueError as e:
        ctx.observe("refused", str(e)[:30], False)
        return
    judge(ctx, "cirq_import", want, ref.circuit_matrix(qc), "unitary imported from Cirq", gen.describe(qc))


# ------------------------------------------------------------------ pytket / pennylane
def pytket(ctx):
    py = ctx.py
    qc = src(py, barrier=0.0)
    ctx.last = gen.describe(qc)
    ctx.sample(ctx.last)
    want = ref.circuit_matrix(qc)
    try:
        c = qc.to_pytket()
    except Exception as e:
        if "Could not convert" in str(e):
            ctx.observe("refused", "pytket", False)
            return
        raise
    got = np.array(c.get_unitary())
    # tket orders its qubits by name/index; the converter gives index i to qubit i
    order = sorted(range(len(c.qubits)), key=lambda i: c.qubits[i].index[0])
    n = len(qc.qubits)
    t = got.reshape([2] * 2 * n)
    got = np.transpose(t, order + [n + i for i in order]).reshape(2**n, 2**n)
    judge(ctx, "pytket_export", want, got, "unitary exported to PyTket", c)
    # measurements go to the matching classical bit
    k = py.randint(1, 3)
    for _ in range(k):
        qc.add_clbit()
    pairs = [(py.randrange(n), i) for i in py.sample(range(k), py.randint(1, k))]
    for a, b in pairs:
        qc.measure(qc.qubits[a], qc.clbits[b])
    got = [(x.qubits[0].index[0], x.bits[0].index[0]) for x in qc.to_pytket().get_commands() if x.op.type.name == "Measure"]
    ctx.require(sorted(got) == sorted(pairs), "measurements exported to PyTket", None, got=str(got), want=str(pairs))


def pennylane(ctx):
    import pennylane as qml

    py = ctx.py
    qc = src(py, barrier=0.0)
    ctx.last = gen.describe(qc)
    ctx.sample(ctx.last)
    want = ref.circuit_matrix(qc)
    n = len(qc.qubits)
    f = qc.to_pennylane()
    names = [q.identifier for q in qc.qubits]
    try:
        if py.random() < 0.5:
            with qml.queuing.AnnotatedQueue() as q:
                f()
            order = names
        else:
            w = py.sample(range(20), n)
            with qml.queuing.AnnotatedQueue() as q:
                f(wires=w)
            order = w
    except NotImplementedError as e:
        ctx.observe("refused", "pennylane", False)
        return
    tape = qml.tape.QuantumScript.from_queue(q)
    got = np.eye(2**n, dtype=complex)
    for op in tape.operations:
        got = qml.matrix(op, wire_order=order) @ got
    judge(ctx, "pennylane_export", want, got, "unitary exported to PennyLane", tape.operations)


def stim(ctx):
    from checks.c27_stabilizer import static

    static(ctx)


FAMILIES = {
    "qiskit": qiskit, "qiskit_dynamic": qiskit_dynamic, "qiskit_import": qiskit_import, "qiskit_import_dynamic": qiskit_import_dynamic, "qasm": qasm,
    "symbolic": symbolic, "cirq": cirq, "cirq_import": cirq_import, "pytket": pytket, "pennylane": pennylane, "stim": stim,
}
