PROPERTY = "C02"
RULE = (
    "one evaluation = one controlled operation or multi-controlled synthesis whose action (full matrix, or the exact "
    "image of a random superposition incl. ancillas) was compared with the ideal controlled action; distinct = distinct "
    "ideal actions (rounded matrices / input-output pairs) that are not the identity"
)
PLAN = {
    "quick": {"op_control": 900, "nested": 500, "mcx": 420, "mcz_mcp": 360, "compiled": 160, "dynamic": 48, "pt_pair": 200},
    "thorough": {"op_control": 9000, "nested": 5000, "mcx": 5000, "mcz_mcp": 4000, "compiled": 1500, "dynamic": 400, "pt_pair": 2000},
}
REQUIRED_MONITORS = ["ctrl_unitary", "ctrl_definition", "ctrl_inverse", "nested_control", "mcx_action", "mcz_action", "mcp_action", "compiled_action", "pt_pair"]
ASSUMPTIONS = [
    "up to 4 controls for full matrices, up to 9 controls for multi-controlled X/Z/phase on random superpositions",
    "gray_pt / gidney variants are only required to be exact up to their documented phases",
]
# --- end of plan ---
import math

import numpy as np

from vlib import gen, qs as Q, ref
from vlib.harness import Skip, Violation

import qrisp
from qrisp import QuantumBool, QuantumVariable, mcx, mcz, mcp
import qrisp.circuit as qcirc

TOL = 6e-4


def key(m):
    return np.round(m, 3).tobytes()


def nontriv(m):
    return not np.allclose(m, m[0, 0] * np.eye(len(m)), atol=1e-6)


def pick_base(py, depth=1, maxq=2):
    r = py.random()
    if r < 0.5:
        return gen.op1(py)
    if r < 0.8 or maxq < 2:
        return gen.op2(py)
    return gen.composite_op(py, py.randint(1, maxq), depth)


def as_state_arg(py, st):
    """Control states may be given as string or as int (bit i <-> control i)."""
    if py.random() < 0.5:
        return st
    return sum(int(c) << i for i, c in enumerate(st))


def op_control(ctx):
    py = ctx.py
    base = pick_base(py, maxq=3)
    nc = py.randint(1, 4 if base.num_qubits == 1 else 3)
    st = gen.ctrl_state(py, nc)
    method = py.choice(["gray", "auto", None, "gray"])
    arg = as_state_arg(py, st)
    if py.random() < 0.2:
        st, arg = "1" * nc, -1
    ctx.last = f"{base.name}{base.params}.control({nc}, ctrl_state={arg!r}, method={method!r}) definition={gen.describe(base.definition) if base.definition else None}"
    ctx.sample(ctx.last)
    bm = ref.op_matrix(base)
    op = base.control(nc, ctrl_state=arg, method=method)
    want = ref.controlled_matrix(bm, nc, st)
    ctx.require(op.num_qubits == nc + base.num_qubits, "controlled operation has the wrong number of qubits")
    ctx.observe("ctrl_definition", key(want), nontriv(want))
    ctx.close(ref.max_diff(ref.op_matrix(op), want), TOL, "synthesised controlled operation", case=ctx.last)
    ctx.observe("ctrl_unitary", key(want), nontriv(want))
    ctx.close(ref.max_diff(op.get_unitary(), want), TOL, "get_unitary of controlled operation", case=ctx.last)
    if py.random() < 0.5:
        inv = op.inverse()
        ctx.observe("ctrl_inverse", key(want.conj().T), nontriv(want))
        ctx.close(ref.max_diff(ref.op_matrix(inv), want.conj().T), TOL, "inverse of controlled operation", case=ctx.last)
        ctx.close(ref.max_diff(inv.get_unitary(), want.conj().T), TOL, "get_unitary of inverse of controlled operation", case=ctx.last)
    else:
        op2 = base.inverse().control(nc, ctrl_state=arg, method=method)
        ctx.observe("ctrl_inverse", key(want.conj().T), nontriv(want))
        ctx.close(ref.max_diff(ref.op_matrix(op2), want.conj().T), TOL, "control of inverse operation", case=ctx.last)
    # base untouched
    ctx.observe("ctrl_unitary", key(bm), nontriv(bm))
    ctx.close(ref.max_diff(ref.op_matrix(base), bm), 1e-9, "base operation modified by control()", case=ctx.last)
    ctx.close(ref.max_diff(base.get_unitary(), bm), TOL, "base unitary after control()", case=ctx.last)


def nested(ctx):
    """control of control, control of a composite containing controlled operations, inside circuits"""
    py = ctx.py
    base = pick_base(py, depth=2)
    bm = ref.op_matrix(base)
    op, want, total = base, bm, 0
    desc = base.name + (f"[{gen.describe(base.definition)}]" if base.definition else str(base.params))
    for _ in range(py.randint(2, 3)):
        room = 5 - op.num_qubits
        if room < 1:
            break
        nc = py.randint(1, min(2, room))
        st = gen.ctrl_state(py, nc)
        m = py.choice(["gray", "auto", None])
        wrap = py.random()
        if wrap < 0.25:
            qc = qrisp.QuantumCircuit(op.num_qubits)
            qc.append(op, qc.qubits)
            op = qc.to_gate("wrapped")
            desc = f"wrap({desc})"
        elif wrap < 0.45:
            op = op.inverse()
            want = want.conj().T
            desc = f"inv({desc})"
        op = op.control(nc, ctrl_state=as_state_arg(py, st), method=m)
        want = ref.controlled_matrix(want, nc, st)
        desc = f"ctrl<{st}>({desc})"
    ctx.last = desc
    ctx.observe("nested_control", key(want), nontriv(want))
    ctx.close(ref.max_diff(ref.op_matrix(op), want), TOL, "nested controlled operation (definition)", case=desc)
    ctx.close(ref.max_diff(op.get_unitary(), want), TOL, "nested controlled operation (unitary)", case=desc)
    n = op.num_qubits
    qc = qrisp.QuantumCircuit(n)
    qc.append(op, qc.qubits)
    tr = qc.transpile()
    ctx.observe("nested_control", ("t", key(want)), nontriv(want))
    ctx.close(ref.max_diff(ref.circuit_matrix(tr), want), TOL, "transpiled nested controlled operation", case=desc)


MCX_METHODS = ["auto", "gray", "balauca", "khattar", "maslov", "yong", "hybrid", "amy", "jones", "balauca_dirty"]


def mcx(ctx, compiled=False):
    py = ctx.py
    method = py.choice(MCX_METHODS)
    n = py.randint(1, 9)
    if method in ("amy", "jones"):
        n = 2
    if method == "maslov":
        n = py.randint(2, 4)
    if method == "gray":
        n = py.randint(1, 6)
    if method == "khattar":
        n = py.choice([1, 2, 3, 4, 4, 5, 6, 7, 8])
    kw = {}
    if method == "hybrid":
        kw["num_ancilla"] = py.choice([0, 1, 1, 2, 3, 4, 10, np.inf])
    if method == "balauca_dirty":
        n = py.randint(3, 8)
        kw["num_ancilla"] = py.randint(1, 3)
    st = gen.ctrl_state(py, n)
    arg = as_state_arg(py, st)
    if py.random() < 0.15:
        st, arg = "1" * n, -1
    if method == "khattar" and isinstance(arg, str):
        arg = sum(int(c) << i for i, c in enumerate(st))
    ctx.last = f"mcx(method={method!r}, n={n}, ctrl_state={arg!r}, {kw})"
    ctx.sample(ctx.last)
    c = QuantumVariable(n)
    t = QuantumBool()
    if py.random() < 0.3:  # list of qubits in another order
        perm = py.sample(range(n), n)
    else:
        perm = list(range(n))
    ctrls = c if perm == list(range(n)) and py.random() < 0.5 else [c[i] for i in perm]
    qrisp.mcx(ctrls, t if py.random() < 0.5 else t[0], method=method, ctrl_state=arg, **kw)
    sv = [int(x) for x in st]

    def f(cv, tv):
        hit = all(((cv >> perm[i]) & 1) == sv[i] for i in range(n))
        return cv, tv ^ int(hit)

    check_action(ctx, [c, t], [n, 1], f, None, "mcx_action", compiled, hit=sum(sv[i] << perm[i] for i in range(n)))


def check_action(ctx, groups, sizes, f, ph, monitor, compiled, hit=None, phase=False):
    py = ctx.py
    qs = groups[0].qs
    vals, amps = Q.random_input(ctx.rng, py, sizes, 40)
    if hit is not None:  # make sure the activating state is present
        extra = [tuple([hit] + [v] * (len(sizes) - 1)) for v in ((0, 1) if len(sizes) > 1 else (0,))]
        vals = list(dict.fromkeys(list(vals) + extra))
        amps = ctx.rng.normal(size=len(vals)) + 1j * ctx.rng.normal(size=len(vals))
        amps = amps / np.linalg.norm(amps)
    want = Q.permuted(vals, amps, f, ph)
    k = (tuple(vals), ctx.last)
    qc = qs
    got = Q.amplitudes(qc, groups, Q.rows_for(qc, groups, vals, amps), what=ctx.last)
    ctx.observe(monitor, k, True)
    ctx.close(Q.amp_diff(got, want, phase=True), 1e-5, ctx.last, case=ctx.last)
    if compiled:
        qc = qs.compile(workspace=py.choice([0, 0, 1, 3]))
        got = Q.amplitudes(qc, groups, Q.rows_for(qc, groups, vals, amps), what="compiled " + ctx.last)
        ctx.observe("compiled_action", k, True)
        ctx.close(Q.amp_diff(got, want, phase=True), 1e-5, "compiled " + ctx.last, case=ctx.last)


def mcz_mcp(ctx, compiled=False):
    py = ctx.py
    kind = py.choice(["mcz", "mcp"])
    if kind == "mcz":
        method = py.choice(["auto", "gray", "balauca", "yong", "hybrid", "maslov", "khattar"])
        n = py.randint(1, 7)
        if method in ("balauca", "yong", "hybrid", "khattar"):
            n = py.randint(2, 7)
        if method == "maslov":
            n = py.randint(3, 5)
        if method == "gray":
            n = py.randint(1, 6)
    else:
        method = py.choice(["auto", "gray", "balauca", "khattar"])
        n = py.randint(2, 7)
        if method == "gray":
            n = py.randint(2, 6)
    st = gen.ctrl_state(py, n)
    arg = as_state_arg(py, st)
    if py.random() < 0.15:
        st, arg = "1" * n, -1
    if method == "khattar" and isinstance(arg, str) and kind == "mcp":
        arg = sum(int(c) << i for i, c in enumerate(st))
    phi = math.pi if kind == "mcz" else gen.angle(py)
    ctx.last = f"{kind}(phi={phi}, n={n}, method={method!r}, ctrl_state={arg!r})"
    ctx.sample(ctx.last)
    c = QuantumVariable(n)
    arg_q = c if py.random() < 0.5 else list(c)
    if kind == "mcz":
        qrisp.mcz(arg_q, method=method, ctrl_state=arg)
    else:
        qrisp.mcp(phi, arg_q, method=method, ctrl_state=arg)
    act = sum(int(x) << i for i, x in enumerate(st))
    w = np.exp(1j * phi)
    check_action(ctx, [c], [n], lambda v: (v,), lambda v: w if v == act else 1, kind + "_action", compiled, hit=act)


def compiled(ctx):
    (mcx if ctx.py.random() < 0.6 else mcz_mcp)(ctx, compiled=True)


def pt_pair(ctx):
    """Phase tolerant synthesis: right permutation, and exact once undone on the same inputs"""
    py = ctx.py
    n = py.randint(2, 6)
    kind = py.choice(["gray_pt", "gidney", "op"])
    st = gen.ctrl_state(py, n)
    c, t = QuantumVariable(n), QuantumBool()
    sv = [int(x) for x in st]
    act = sum(b << i for i, b in enumerate(sv))
    qs = c.qs
    phi = gen.angle(py)
    vals, amps = Q.random_input(ctx.rng, py, [n], 40)
    if (act,) not in vals:
        vals = list(vals) + [(act,)]
        amps = ctx.rng.normal(size=len(vals)) + 1j * ctx.rng.normal(size=len(vals))
        amps = amps / np.linalg.norm(amps)
    if kind == "gidney":
        n = 2
        c, t = QuantumVariable(2), QuantumBool()
        st = gen.ctrl_state(py, 2)
        act = sum(int(x) << i for i, x in enumerate(st))
        vals, amps = Q.random_input(ctx.rng, py, [2], 4)
        m1, m2 = "gidney", "gidney_inv"
    else:
        m1, m2 = "gray_pt", "gray_pt_inv"
    direct = py.random() < 0.5
    ctx.last = f"{kind} n={n} ctrl_state={st} phi={phi}" + (" on the session" if direct else "")

    def mcx(m):
        if direct:
            qrisp.core.merge([c, t])
            c.qs.mcx(list(c), t[0], method=m, ctrl_state=st)
        else:
            qrisp.mcx(c, t, method=m, ctrl_state=st)

    qs = c.qs
    if kind == "op":
        # compute and uncompute through inverse operations of a phase tolerant control
        op = qcirc.XGate().control(n, ctrl_state=st, method="gray_pt")
        qs_op = lambda o: qrisp.core.gate_application_functions.append_operation(o, list(c) + [t[0]]) if False else c.qs.append(o, list(c) + [t[0]])
        qrisp.core.merge([c, t])
        qs_op(op)
    else:
        mcx(m1)
    qs = c.qs
    in_vals = [(v[0], 0) for v in vals]
    got = Q.amplitudes(qs, [c, t], Q.rows_for(qs, [c, t], in_vals, amps), what=ctx.last)
    want = Q.permuted(in_vals, amps, lambda v, b: (v, b ^ int(v == act)))
    ctx.observe("pt_pair", ("perm", ctx.last), True)
    ctx.close(Q.prob_diff(got, want), 1e-5, "phase tolerant mcx permutation: " + ctx.last)
    # a diagonal operation in between, then undo: phases must cancel
    if kind == "op":
        qrisp.p(phi, t[0])
        c.qs.append(op.inverse(), list(c) + [t[0]])
    else:
        qrisp.p(phi, t[0])
        mcx(m2)
    got = Q.amplitudes(qs, [c, t], Q.rows_for(qs, [c, t], in_vals, amps), what=ctx.last)
    w = np.exp(1j * phi)
    want = Q.permuted(in_vals, amps, lambda v, b: (v, b), lambda v, b: w if v == act else 1)
    ctx.observe("pt_pair", ("pair", ctx.last), True)
    ctx.close(Q.amp_diff(got, want, phase=True), 1e-5, "phase tolerant mcx pair: " + ctx.last)


def dynamic(ctx):
    """multi-controlled gates built while tracing with run-time register sizes"""
    from qrisp.jasp import make_jaspr

    py = ctx.py
    kind = py.choice(["mcx", "mcx", "mcp", "mcz"])
    method = py.choice(["balauca", "khattar"]) if kind != "mcz" else "balauca"
    n = py.randint(2, 6)
    st = gen.ctrl_state(py, n)
    act = sum(int(x) << i for i, x in enumerate(st))
    phi = round(gen.angle(py), 4)
    dyn_state = py.random() < 0.5
    ctx.last = f"traced {kind} method={method} n={n} ctrl_state={st} dynamic_state={dyn_state} phi={phi}"

    def main(n, s, phi):
        a = QuantumVariable(n)
        b = QuantumBool()
        cs = s if dyn_state else act
        if kind == "mcx":
            qrisp.mcx(a, b[0], method=method, ctrl_state=cs)
        elif kind == "mcz":
            qrisp.mcz(a, method=method, ctrl_state=cs)
        else:
            qrisp.mcp(phi, a, method=method, ctrl_state=cs)
        return a, b

    jr = make_jaspr(main)(2, 3, 0.5)
    out = jr.to_qc(n, act, phi)
    qc = out[-1]
    a, b = out[0], out[1]
    groups = [list(a), list(b)]
    vals, amps = Q.random_input(ctx.rng, py, [n, 1], 40)
    vals = list(dict.fromkeys(list(vals) + [(act, 0), (act, 1)]))
    amps = ctx.rng.normal(size=len(vals)) + 1j * ctx.rng.normal(size=len(vals))
    amps = amps / np.linalg.norm(amps)
    w = np.exp(1j * (math.pi if kind == "mcz" else phi))
    if kind == "mcx":
        want = Q.permuted(vals, amps, lambda v, t: (v, t ^ int(v == act)))
    else:
        want = Q.permuted(vals, amps, lambda v, t: (v, t), lambda v, t: w if v == act else 1)
    got = Q.amplitudes(qc, groups, Q.rows_for(qc, groups, vals, amps), what=ctx.last)
    ctx.observe(kind + "_action", ("dyn", ctx.last), True)
    ctx.close(Q.amp_diff(got, want, phase=True), 1e-5, ctx.last)


FAMILIES = {
    "op_control": op_control,
    "nested": nested,
    "mcx": mcx,
    "mcz_mcp": mcz_mcp,
    "compiled": compiled,
    "pt_pair": pt_pair,
    "dynamic": dynamic,
}
