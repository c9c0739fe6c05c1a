PROPERTY = "C01"
RULE = (
    "one evaluation = one matrix produced by a library transformation compared entrywise with the "
    "reference matrix; distinct = distinct rounded reference matrices (up to 3 decimals) that are not "
    "a multiple of the identity"
)
PLAN = {
    "quick": {"algebra": 900, "embed": 500, "bind": 400, "transpile": 350, "unitary_gate": 300, "primitives": 120, "metrics": 200, "functions": 120, "functions_traced": 60},
    "thorough": {"algebra": 12000, "embed": 6000, "bind": 4000, "transpile": 4000, "unitary_gate": 3000, "primitives": 600, "metrics": 3000, "functions": 1500, "functions_traced": 500},
}
REQUIRED_MONITORS = [
    "inverse", "unitary", "gate_wrap", "extend", "copy_isolation", "bind", "transpile", "statevector", "published_params", "functions", "functions_traced",
]
ASSUMPTIONS = [
    "library matrices are single precision: entrywise tolerance 2e-4 per 10 gates",
    "circuits up to 5 qubits, nesting depth up to 3",
]
# --- end of plan ---
import math

import numpy as np

from vlib import gen, ref
from vlib.harness import Skip, Violation

import qrisp
from qrisp import QuantumCircuit
import qrisp.circuit as qcirc

TOL = 6e-4


def key(m):
    return np.round(m, 3).tobytes() + bytes(str(m.shape), "ascii")


def nontriv(m):
    return not np.allclose(m, m[0, 0] * np.eye(len(m)), atol=1e-6)


def cmp(ctx, monitor, lib, want, what, phase=False, mech=None, **detail):
    ctx.observe(monitor, key(want), nontriv(want))
    d = ref.phase_diff(lib, want) if phase else ref.max_diff(lib, want)
    ctx.close(d, TOL, what, mech, circuit=ctx.last, **detail)


def build(ctx, max_n=4, max_g=7):
    py = ctx.py
    n = py.randint(1, max_n)
    qc = gen.random_circuit(py, n, py.randint(1, max_g), depth=py.choice([0, 1, 1, 2]))
    ctx.last = gen.describe(qc)
    ctx.sample(ctx.last)
    return qc


def algebra(ctx):
    qc = build(ctx)
    m = ref.circuit_matrix(qc)
    ctx.require(ref.max_diff(m @ m.conj().T, np.eye(len(m))) < 1e-9, "reference matrix not unitary")
    # published (name, params) data and the internal angles describe the same gate
    cmp(ctx, "published_params", ref.circuit_matrix(qc, one_q="named"), m, "gate name/params disagree with gate action")
    cmp(ctx, "unitary", qc.get_unitary(), m, "get_unitary of circuit")
    inv = qc.inverse()
    cmp(ctx, "inverse", ref.circuit_matrix(inv), m.conj().T, "inverse circuit")
    cmp(ctx, "inverse", ref.circuit_matrix(inv, one_q="named"), m.conj().T, "inverse circuit (published params)")
    cmp(ctx, "unitary", inv.get_unitary(), m.conj().T, "get_unitary of inverse")
    cmp(ctx, "inverse", ref.circuit_matrix(inv.inverse()), m, "double inverse")
    cmp(ctx, "unitary", qc.get_unitary(), m, "get_unitary after inversion (aliasing)")
    cmp(ctx, "inverse", ref.circuit_matrix(qc), m, "original modified by inverse()")
    sv = qc.statevector_array()
    ctx.observe("statevector", np.round(m[:, 0], 3).tobytes(), True)
    ctx.close(ref.max_diff(sv, m[:, 0]), TOL, "statevector_array", circuit=ctx.last)
    # op level
    for ins in qc.data[:3]:
        om = ref.op_matrix(ins.op)
        oi = ins.op.inverse()
        cmp(ctx, "inverse", ref.op_matrix(oi), om.conj().T, f"inverse of operation {ins.op.name}")
        cmp(ctx, "unitary", ins.op.get_unitary(), om, f"unitary of operation {ins.op.name}")
        cmp(ctx, "unitary", oi.get_unitary(), om.conj().T, f"unitary of inverse operation {ins.op.name}")
        cmp(ctx, "inverse", ref.op_matrix(ins.op.copy()), om, f"copy of operation {ins.op.name}")
    dec = ctx.py.choice([4, 5, 6])
    r1 = qc.get_unitary(decimals=dec)
    cmp(ctx, "unitary", r1, m, "get_unitary(decimals)")


def embed(ctx):
    """to_gate / append / extend / compose / copy on permuted qubits of a larger circuit"""
    py = ctx.py
    inner = build(ctx, 3, 5)
    k = len(inner.qubits)
    n = py.randint(k, 5)
    outer = gen.random_circuit(py, n, py.randint(0, 3), depth=1)
    mo = ref.circuit_matrix(outer)
    mi = ref.circuit_matrix(inner)
    pos = py.sample(range(n), k)
    want = ref.events_matrix([("u", mi, tuple(pos), None)], n) @ mo

    how = py.choice(["to_gate", "to_op", "gate_int", "extend", "compose", "compose_new", "extend_str", "append_instr"])
    ctx.last = f"{how} pos={pos} n={n} inner={gen.describe(inner)} outer={gen.describe(outer)}"
    tgt = [outer.qubits[p] for p in pos]
    if how == "to_gate":
        outer.append(inner.to_gate("g"), tgt)
        res = outer
    elif how == "to_op":
        outer.append(inner.to_op("g"), tgt)
        res = outer
    elif how == "gate_int":
        outer.append(inner.to_gate(), list(pos))
        res = outer
    elif how == "extend":
        outer.extend(inner, {inner.qubits[i]: tgt[i] for i in range(k)})
        res = outer
    elif how == "extend_str":
        outer.extend(inner, {inner.qubits[i].identifier: tgt[i] for i in range(k)})
        res = outer
    elif how == "compose":
        outer.compose(inner, tgt, [])
        res = outer
    elif how == "compose_new":
        before = ref.circuit_matrix(outer)
        res = outer.compose(inner, tgt, [], inplace=False)
        cmp(ctx, "copy_isolation", ref.circuit_matrix(outer), before, "compose(inplace=False) modified self")
    else:
        for ins in inner.data:
            qm = {q: t for q, t in zip(inner.qubits, tgt)}
            outer.append(ins.op, [qm[q] for q in ins.qubits])
        res = outer
    mon = "extend" if how.startswith("extend") or how == "append_instr" else "gate_wrap"
    cmp(ctx, mon, ref.circuit_matrix(res), want, f"embedding via {how}")
    cmp(ctx, "unitary", res.get_unitary(), want, f"get_unitary after embedding via {how}")
    cmp(ctx, "inverse", ref.circuit_matrix(res.inverse()), want.conj().T, f"inverse after embedding via {how}")
    # later changes of the pieces must not leak into what was built
    inner.x(0)
    cmp(ctx, "copy_isolation", ref.circuit_matrix(res), want, f"modifying the inner circuit after {how} changed the outer one")
    cp = res.copy()
    cp.h(0)
    cmp(ctx, "copy_isolation", ref.circuit_matrix(res), want, "modifying a copy changed the original")
    cc = res.clearcopy()
    ctx.require(len(cc.data) == 0 and len(cc.qubits) == n and len(res.data) > 0, "clearcopy")
    # broadcasting: gate on list of qubits
    bc = QuantumCircuit(n)
    sel = py.sample(range(n), py.randint(1, n))
    g = gen.op1(py)
    bc.append(g, [[bc.qubits[i] for i in sel]])
    gm = ref.op_matrix(g)
    want = ref.events_matrix([("u", gm, (i,), None) for i in sel], n)
    cmp(ctx, "gate_wrap", ref.circuit_matrix(bc), want, f"broadcast of {g.name} over {sel}")


def bind(ctx):
    """parameter binding commutes with every transformation"""
    import sympy

    py = ctx.py
    n = py.randint(1, 3)
    syms = sympy.symbols("a b c")
    vals = {s: gen.angle(py) for s in syms}
    vals2 = {s: gen.angle(py) for s in syms}

    def expr():
        r = py.random()
        s = py.choice(syms)
        if r < 0.5:
            return s
        if r < 0.75:
            return py.choice([-1, 2, 0.5]) * s + py.choice([0, 1, 0.25])
        return s + py.choice([1, -1]) * py.choice(syms)

    steps = []
    for _ in range(py.randint(1, 5)):
        nm = py.choice(["rx", "ry", "rz", "p", "u3", "gphase", "r", "u1", "cp", "rxx", "rzz", "xxyy", "crx", "fixed", "comp", "ctrl"])
        np_ = {"u3": 3, "r": 2, "xxyy": 2}.get(nm, 1)
        steps.append((nm, [expr() for _ in range(np_)], py.random(), py.randint(0, 10**6)))

    mk1 = {"rx": qcirc.RXGate, "ry": qcirc.RYGate, "rz": qcirc.RZGate, "p": qcirc.PGate, "u3": qcirc.u3Gate, "gphase": qcirc.GPhaseGate, "r": qcirc.RGate, "u1": qcirc.U1Gate}
    mk2 = {"cp": qcirc.CPGate, "rxx": qcirc.RXXGate, "rzz": qcirc.RZZGate, "xxyy": qcirc.XXYYGate, "crx": lambda t: qcirc.MCRXGate(t, 1)}

    def make(sub):
        f = (lambda e: e) if sub is None else (lambda e: float(e.subs(sub)) if hasattr(e, "subs") else e)
        qc = QuantumCircuit(n)
        for nm, pars, r, sd in steps:
            rr = __import__("random").Random(sd)
            ps = [f(p) for p in pars]
            if nm in mk1:
                op = mk1[nm](*ps)
            elif nm in mk2:
                if n < 2:
                    continue
                op = mk2[nm](*ps)
            elif nm == "fixed":
                op = gen.random_op(rr, n, 1)
            elif nm == "comp":
                q2 = QuantumCircuit(min(n, 2))
                q2.h(0)
                q2.ry(ps[0], 0)
                if n >= 2:
                    q2.cp(ps[0], 0, 1)
                    q2.rz(-ps[0], 1)
                op = q2.to_gate("comp")
            else:
                if n < 2:
                    continue
                base = mk1[rr.choice(["rx", "ry", "rz", "p", "gphase"])](ps[0])
                nc = rr.randint(1, n - 1)
                op = base.control(nc, ctrl_state="".join(rr.choice("01") for _ in range(nc)))
            if r < 0.3:
                op = op.inverse()
            qc.append(op, rr.sample(qc.qubits, op.num_qubits))
        return qc

    sym = make(None)
    ctx.last = f"{gen.describe(sym)} vals={vals}"
    ctx.sample(ctx.last)
    num = make(vals)
    num2 = make(vals2)
    m, m2 = ref.circuit_matrix(num), ref.circuit_matrix(num2)
    if sym.data and py.random() < 0.3:
        # observing the symbolic circuit first must not change later results
        for ins in sym.data[:2]:
            ins.op.get_unitary()
    pre_inv = sym.inverse() if py.random() < 0.5 else None
    b = sym.bind_parameters(vals)
    cmp(ctx, "bind", ref.circuit_matrix(b), m, "bind_parameters")
    cmp(ctx, "bind", ref.circuit_matrix(b, one_q="named"), m, "bind_parameters (published params)")
    cmp(ctx, "unitary", b.get_unitary(), m, "get_unitary of bound circuit")
    cmp(ctx, "bind", ref.circuit_matrix(b.inverse()), m.conj().T, "inverse of bound circuit")
    b2 = sym.bind_parameters(vals2)
    cmp(ctx, "bind", ref.circuit_matrix(b2), m2, "second binding with other values")
    cmp(ctx, "bind", ref.circuit_matrix(b), m, "first binding changed by second one")
    cmp(ctx, "unitary", b2.get_unitary(), m2, "get_unitary of second binding")
    pi = pre_inv if pre_inv is not None else sym.inverse()
    cmp(ctx, "bind", ref.circuit_matrix(pi.bind_parameters(vals)), m.conj().T, "binding the inverse")
    g = sym.to_gate("wrapped")
    outer = QuantumCircuit(n)
    outer.append(g, outer.qubits)
    cmp(ctx, "bind", ref.circuit_matrix(outer.bind_parameters(vals)), m, "binding a wrapped circuit")
    cmp(ctx, "bind", ref.circuit_matrix(sym.transpile().bind_parameters(vals2)), m2, "binding a transpiled circuit")


def transpile(ctx):
    qc = build(ctx, 4, 6)
    m = ref.circuit_matrix(qc)
    py = ctx.py
    for lvl in (0, 1, py.randint(2, 4), math.inf):
        t = qc.transpile(lvl)
        cmp(ctx, "transpile", ref.circuit_matrix(t), m, f"transpile level {lvl}")
        cmp(ctx, "transpile", t.get_unitary(), m, f"reported unitary after transpile level {lvl}")
        cmp(ctx, "transpile", ref.circuit_matrix(t.inverse()), m.conj().T, f"inverse after transpile level {lvl}")
        if lvl == 0:
            ctx.require([i.op.name for i in t.data] == [i.op.name for i in qc.data], "level 0 changed the circuit")
        if lvl == math.inf:
            left = [i.op.name for i in t.data if i.op.definition is not None and i.op.name not in ("swap",)]
            ctx.require(not left, f"composite gates left after full transpilation: {left}", circuit=ctx.last)
    pred = py.choice([lambda op: op.name.startswith("comp"), lambda op: op.num_qubits > 2, lambda op: False])
    t = qc.transpile(transpile_predicate=pred)
    cmp(ctx, "transpile", ref.circuit_matrix(t), m, "transpile with predicate")
    if py.random() < 0.25:
        t = qc.transpile(basis_gates=py.choice([["cx", "rz", "sx"], ["cz", "u3"], ["cx", "u3"], ["cx", "h", "p", "x"]]))
        cmp(ctx, "transpile", ref.circuit_matrix(t), m, "transpile via basis gates", phase=True)
    d = gen.describe(qc)
    ctx.require(d == ctx.last, "transpile modified its input")


def unitary_gate(ctx):
    """1-qubit unitary synthesis, incl. degenerate matrices"""
    py = ctx.py
    kind = py.choice(["haar", "diag", "anti", "pauli", "id", "small", "prod", "real"])
    if kind == "haar":
        u = gen.haar_unitary(ctx.rng, 2)
    elif kind == "diag":
        u = np.diag(np.exp(1j * np.array([gen.angle(py), gen.angle(py)])))
    elif kind == "anti":
        u = np.array([[0, np.exp(1j * gen.angle(py))], [np.exp(1j * gen.angle(py)), 0]])
    elif kind == "pauli":
        u = py.choice([ref.X, ref.Y, ref.Z, ref.H, -ref.X, 1j * ref.Z, -ref.I2])
    elif kind == "id":
        u = np.eye(2, dtype=complex)
    elif kind == "small":
        u = ref.ry_mat(1e-4 * py.random()) @ ref.rz_mat(gen.angle(py))
    elif kind == "real":
        u = ref.ry_mat(gen.angle(py))
    else:
        u = ref.op_matrix(gen.op1(py)) @ ref.op_matrix(gen.op1(py))
    n = py.randint(1, 3)
    qc = QuantumCircuit(n)
    q = py.randrange(n)
    ctx.last = f"unitary({np.round(u, 5).tolist()}) on {q}/{n}"
    ctx.sample(ctx.last)
    qc.unitary(u, [qc.qubits[q]])
    want = ref.events_matrix([("u", u, (q,), None)], n)
    cmp(ctx, "unitary_synthesis", ref.circuit_matrix(qc), want, "1-qubit unitary gate")
    cmp(ctx, "unitary_synthesis", ref.circuit_matrix(qc.inverse()), want.conj().T, "inverse of 1-qubit unitary gate")


def primitives(ctx):
    """every named gate, every angle class, each circuit method vs textbook matrices"""
    py = ctx.py
    a, b, c = (gen.angle(py) for _ in range(3))
    E = np.exp
    I = np.eye(2)
    cm = ref.controlled_matrix
    table = {
        "rx": ("rx", (a,), ref.rx_mat(a)), "ry": ("ry", (a,), ref.ry_mat(a)), "rz": ("rz", (a,), ref.rz_mat(a)),
        "p": ("p", (a,), ref.p_mat(a)), "u3": ("u3", (a, b, c), ref.u3(a, b, c)),
        "r": ("r", (a, b), np.array([[math.cos(a / 2), E(-1j * b) * math.sin(a / 2)], [-E(1j * b) * math.sin(a / 2), math.cos(a / 2)]])),
        "gphase": ("gphase", (a,), E(1j * a) * I),
        "x": ("x", (), ref.X), "y": ("y", (), ref.Y), "z": ("z", (), ref.Z), "h": ("h", (), ref.H),
        "s": ("s", (), ref.p_mat(math.pi / 2)), "s_dg": ("s_dg", (), ref.p_mat(-math.pi / 2)),
        "t": ("t", (), ref.p_mat(math.pi / 4)), "t_dg": ("t_dg", (), ref.p_mat(-math.pi / 4)),
        "id": ("id", (), I), "sx": ("sx", (), ref.rx_mat(math.pi / 2)), "sx_dg": ("sx_dg", (), ref.rx_mat(-math.pi / 2)),
        "cx": ("cx", (), cm(ref.X, 1, "1")), "cy": ("cy", (), cm(ref.Y, 1, "1")), "cz": ("cz", (), cm(ref.Z, 1, "1")),
        "cp": ("cp", (a,), cm(ref.p_mat(a), 1, "1")), "crx": ("crx", (a,), cm(ref.rx_mat(a), 1, "1")),
        "rxx": ("rxx", (a,), ref.rxx_mat(a)), "rzz": ("rzz", (a,), ref.rzz_mat(a)), "swap": ("swap", (), ref.SWAP),
    }
    # XX+YY interaction: rotation in the odd parity subspace (qiskit convention, qubit 1 carries beta)
    XX, YY = np.kron(ref.X, ref.X), np.kron(ref.Y, ref.Y)
    for name, (meth, args, m) in table.items():
        k = int(math.log2(len(m)))
        n = k + py.randint(0, 1)
        qc = QuantumCircuit(n)
        pos = py.sample(range(n), k)
        getattr(qc, meth)(*args, *[qc.qubits[p] for p in pos])
        want = ref.events_matrix([("u", m, tuple(pos), None)], n)
        ctx.last = f"{name}{args}@{pos}"
        cmp(ctx, "gate_table", ref.circuit_matrix(qc), want, f"gate {name}{args}")
        cmp(ctx, "gate_table", qc.get_unitary(), want, f"unitary of gate {name}{args}")
    ctx.sample("gate table at angles %s" % ((a, b, c),))
    # xxyy spectrum: hermitian generator with eigenphases 0,0,+-a/2
    g = qcirc.XXYYGate(a, b)
    m = ref.op_matrix(g)
    ctx.observe("gate_table", key(m), True)
    want = np.eye(4, dtype=complex)
    want[1, 1] = want[2, 2] = math.cos(a / 2)
    want[1, 2] = -1j * math.sin(a / 2) * E(-1j * b)
    want[2, 1] = -1j * math.sin(a / 2) * E(1j * b)
    alt = want.copy()
    alt[1, 2], alt[2, 1] = want[2, 1], want[1, 2]
    ctx.close(min(ref.phase_diff(m, want), ref.phase_diff(m, alt)), TOL, f"xxyy({a},{b}) is not the XX+YY rotation")


def metrics(ctx):
    """depth / cnot count / op count agree with an independent count over the flattened circuit"""
    py = ctx.py
    qc = build(ctx, 4, 8)
    t = qc.transpile()
    qi = {q: i for i, q in enumerate(t.qubits)}
    lev = [0] * len(t.qubits)
    cnt = {}
    two = 0
    for ins in t.data:
        qs = [qi[q] for q in ins.qubits]
        w = max(lev[q] for q in qs) + 1
        if ins.op.name != "barrier":
            for q in qs:
                lev[q] = w
            cnt[ins.op.name] = cnt.get(ins.op.name, 0) + 1
    ctx.observe("metrics", (tuple(sorted(cnt.items())), tuple(lev)), True)
    ctx.require(t.count_ops() == cnt, f"count_ops {t.count_ops()} != {cnt}")
    ctx.require(qc.num_qubits() == len(qc.qubits), "num_qubits")
    if not any(i.op.name == "gphase" for i in t.data):
        ctx.require(qc.depth() == max(lev + [0]), f"depth {qc.depth()} != {max(lev)}", circuit=ctx.last)
    d1 = qc.depth(depth_indicator=lambda op: 0 if op.num_qubits == 1 else 1)
    lev2 = [0] * len(t.qubits)
    for ins in t.data:
        qs = [qi[q] for q in ins.qubits]
        w = max(lev2[q] for q in qs) + (0 if ins.op.num_qubits == 1 else 1)
        for q in qs:
            lev2[q] = w
    ctx.observe("metrics", ("d2", tuple(lev2)), max(lev2) > 0)
    ctx.require(d1 == max(lev2 + [0]), f"weighted depth {d1} != {max(lev2)}", circuit=ctx.last)


def function_script(py, n, k):
    """random calls of gate functions: (function name, arguments, qubit positions or lists of positions, matrix)"""
    cm = ref.controlled_matrix
    out = []
    names = ["h", "x", "y", "z", "s", "t", "s_dg", "t_dg", "sx", "sx_dg", "p", "rx", "ry", "rz", "gphase", "u3"]
    two = ["cx", "cy", "cz", "cp", "crz", "rxx", "rzz", "swap", "xxyy"]
    for _ in range(k):
        a, b, c = gen.angle(py), gen.angle(py), gen.angle(py)
        if n > 1 and py.random() < 0.5:
            nm = py.choice(two)
            m = {
                "cx": cm(ref.X, 1, "1"), "cy": cm(ref.Y, 1, "1"), "cz": cm(ref.Z, 1, "1"), "cp": cm(ref.p_mat(a), 1, "1"), "crz": cm(ref.rz_mat(a), 1, "1"),
                "rxx": ref.rxx_mat(a), "rzz": ref.rzz_mat(a), "swap": ref.SWAP, "xxyy": None,
            }[nm]
            args = (a, b) if nm == "xxyy" else (a,) if nm in ("cp", "crz", "rxx", "rzz") else ()
            if nm == "xxyy":
                m = ref.op_matrix(qcirc.XXYYGate(a, b))
            pairs = 1 if n < 4 or py.random() < 0.6 else 2
            pos = py.sample(range(n), 2 * pairs)
            out.append((nm, args, [pos[0::2], pos[1::2]], m))
        else:
            nm = py.choice(names)
            args = (a, b, c) if nm == "u3" else (a,) if nm in ("p", "rx", "ry", "rz", "gphase") else ()
            m = {
                "h": ref.H, "x": ref.X, "y": ref.Y, "z": ref.Z, "s": ref.p_mat(math.pi / 2), "t": ref.p_mat(math.pi / 4), "s_dg": ref.p_mat(-math.pi / 2),
                "t_dg": ref.p_mat(-math.pi / 4), "sx": ref.rx_mat(math.pi / 2), "sx_dg": ref.rx_mat(-math.pi / 2), "p": ref.p_mat(a), "rx": ref.rx_mat(a),
                "ry": ref.ry_mat(a), "rz": ref.rz_mat(a), "gphase": np.exp(1j * a) * np.eye(2), "u3": ref.u3(a, b, c),
            }[nm]
            out.append((nm, args, [py.sample(range(n), py.randint(1, n))], m))
    return out


def script_matrix(script, n):
    ev = []
    for nm, args, cols, m in script:
        for tup in zip(*cols):
            ev.append(("u", m, tuple(tup), None))
    return ref.events_matrix(ev, n)


def functions(ctx):
    """gate functions on qubits, lists of qubits and variables"""
    py = ctx.py
    n = py.randint(1, 5)
    script = function_script(py, n, py.randint(3, 9))
    ctx.last = str([(nm, args, cols) for nm, args, cols, _ in script])
    ctx.sample(ctx.last)
    qv = qrisp.QuantumVariable(n)
    for nm, args, cols, _ in script:
        f = getattr(qrisp, nm)
        if len(cols) == 1 and sorted(cols[0]) == list(range(n)) and py.random() < 0.5:
            f(*args, qv)
        elif len(cols[0]) == 1 and py.random() < 0.7:
            f(*args, *[qv[c[0]] for c in cols])
        else:
            f(*args, *[[qv[i] for i in c] for c in cols])
    want = script_matrix(script, n)
    cmp(ctx, "functions", ref.circuit_matrix(qv.qs.copy()), want, "gate functions")
    cmp(ctx, "functions", qv.qs.get_unitary() if False else qv.qs.copy().get_unitary(), want, "unitary of gate functions")


def functions_traced(ctx):
    """the same functions in traced programs, angles given at run time or as constants"""
    py = ctx.py
    n = py.randint(1, 5)
    script = function_script(py, n, py.randint(3, 8))
    dyn = py.random() < 0.6
    ctx.last = str([(nm, args, cols) for nm, args, cols, _ in script]) + (" run time angles" if dyn else "")
    ctx.sample(ctx.last)
    angles = [a for _, args, _, _ in script for a in args]

    def main(*vals):
        qv = qrisp.QuantumVariable(n)
        it = iter(vals)
        for nm, args, cols, _ in script:
            use = [next(it) for _ in args] if dyn else list(args)
            f = getattr(qrisp, nm)
            if len(cols) == 1 and sorted(cols[0]) == list(range(n)):
                f(*use, qv)
            else:
                for tup in zip(*cols):
                    f(*use, *[qv[i] for i in tup])
        return qv

    given = [float(a) for a in angles] if dyn else []
    res = qrisp.make_jaspr(main)(*given).to_qc(*given)
    qubits, qc = res[0], res[-1]
    full = ref.circuit_matrix(qc)
    want = script_matrix(script, n)
    if len(qc.qubits) != n:
        raise Skip("ancilla qubits in the emitted circuit")
    perm = [qc.qubits.index(q) for q in qubits]
    ident = perm == list(range(n))
    if not ident:
        ev = []
        for nm, args, cols, m in script:
            for tup in zip(*cols):
                ev.append(("u", m, tuple(perm[i] for i in tup), None))
        want = ref.events_matrix(ev, n)
    cmp(ctx, "functions_traced", full, want, "traced gate functions")


FAMILIES = {
    "functions": functions, "functions_traced": functions_traced,
    "algebra": algebra, "embed": embed, "bind": bind, "transpile": transpile,
    "unitary_gate": unitary_gate, "primitives": primitives, "metrics": metrics,
}
