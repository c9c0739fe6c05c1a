"""Random generators for circuits (driven by ctx.rng / ctx.py only)."""

import math

import numpy as np

PI = math.pi

ONE_Q = ["x", "y", "z", "h", "s", "s_dg", "t", "t_dg", "sx", "sx_dg", "id", "rx", "ry", "rz", "p", "u3", "r", "gphase", "u1"]
TWO_Q = ["cx", "cy", "cz", "cp", "swap", "rxx", "rzz", "xxyy", "crx"]
SPECIAL = [0.0, PI, -PI, PI / 2, -PI / 2, PI / 4, 2 * PI, -PI / 4, 3 * PI / 2, PI / 8, 4 * PI, 1e-9]


def angle(py):
    r = py.random()
    if r < 0.45:
        return py.choice(SPECIAL)
    if r < 0.9:
        return py.uniform(-2 * PI, 2 * PI)
    return py.uniform(-15, 15)


def op1(py, name=None, pool=None):
    """An Operation object for a random single qubit gate."""
    import qrisp.circuit as c

    name = name or py.choice(pool or ONE_Q)
    a = lambda: angle(py)
    return {
        "x": lambda: c.XGate(),
        "y": lambda: c.YGate(),
        "z": lambda: c.ZGate(),
        "h": lambda: c.HGate(),
        "s": lambda: c.SGate(),
        "t": lambda: c.TGate(),
        "s_dg": lambda: c.SGate().inverse(),
        "t_dg": lambda: c.TGate().inverse(),
        "sx": lambda: c.SXGate(),
        "sx_dg": lambda: c.SXDGGate(),
        "id": lambda: c.IDGate(),
        "rx": lambda: c.RXGate(a()),
        "ry": lambda: c.RYGate(a()),
        "rz": lambda: c.RZGate(a()),
        "p": lambda: c.PGate(a()),
        "u1": lambda: c.U1Gate(a()),
        "u3": lambda: c.u3Gate(a(), a(), a()),
        "r": lambda: c.RGate(a(), a()),
        "gphase": lambda: c.GPhaseGate(a()),
    }[name]()


def op2(py, name=None, pool=None):
    import qrisp.circuit as c

    name = name or py.choice(pool or TWO_Q)
    a = lambda: angle(py)
    return {
        "cx": lambda: c.CXGate(),
        "cy": lambda: c.CYGate(),
        "cz": lambda: c.CZGate(),
        "cp": lambda: c.CPGate(a()),
        "swap": lambda: c.SwapGate(),
        "rxx": lambda: c.RXXGate(a()),
        "rzz": lambda: c.RZZGate(a()),
        "xxyy": lambda: c.XXYYGate(a(), a()),
        "crx": lambda: c.MCRXGate(a(), 1),
    }[name]()


def ctrl_state(py, n):
    r = py.random()
    if r < 0.4:
        return "1" * n
    return "".join(py.choice("01") for _ in range(n))


def random_op(py, max_q, depth=1, ctrl=True, composite=True, ones=None, twos=None, mixed_ctrl=True, phase_tolerant=False):
    """Random Operation on at most max_q qubits."""
    r = py.random()
    if r < 0.45 or max_q == 1:
        if composite and depth > 0 and py.random() < 0.08:
            return composite_op(py, 1, depth - 1, ctrl=ctrl, ones=ones, twos=twos)
        return op1(py, pool=ones)
    if r < 0.72 or (max_q == 2 and r < 0.8):
        return op2(py, pool=twos)
    if composite and depth > 0 and r < 0.85:
        n = py.randint(1, min(max_q, 3))
        return composite_op(py, n, depth - 1, ctrl=ctrl, ones=ones, twos=twos)
    if ctrl and max_q >= 2:
        nb = 1 if max_q == 2 or py.random() < 0.65 else 2
        if nb == 1:
            base = op1(py, pool=ones)
        else:
            base = op2(py, pool=twos) if py.random() < 0.6 or not (composite and depth) else composite_op(py, 2, depth - 1, ctrl=False, ones=ones, twos=twos)
        nc = py.randint(1, min(3, max_q - nb))
        st = ctrl_state(py, nc) if mixed_ctrl else "1" * nc
        return base.control(nc, ctrl_state=st)
    return op2(py, pool=twos)


def composite_op(py, n, depth, ctrl=True, ones=None, twos=None, name=None):
    qc = random_circuit(py, n, py.randint(1, 4), depth=depth, ctrl=ctrl, ones=ones, twos=twos)
    op = qc.to_gate(name or "comp%d" % py.randint(0, 999))
    if py.random() < 0.3:
        op = op.inverse()
    return op


def random_circuit(py, n, gates, depth=1, ctrl=True, composite=True, ones=None, twos=None, n_clbits=0, barrier=0.0, mixed_ctrl=True):
    from qrisp import QuantumCircuit

    qc = QuantumCircuit(n, n_clbits)
    for _ in range(gates):
        if barrier and py.random() < barrier:
            qc.barrier(py.sample(qc.qubits, py.randint(1, n)))
            continue
        op = random_op(py, n, depth, ctrl, composite, ones, twos, mixed_ctrl)
        qc.append(op, py.sample(qc.qubits, op.num_qubits))
    return qc


def describe(qc, limit=1500):
    out = []
    qi = {q: i for i, q in enumerate(qc.qubits)}
    ci = {q: i for i, q in enumerate(qc.clbits)}
    for ins in qc.data:
        st = getattr(ins.op, "ctrl_state", "")
        out.append(
            f"{ins.op.name}{[round(float(p), 4) if not hasattr(p, 'free_symbols') else str(p) for p in ins.op.params] or ''}"
            f"{'<' + str(st) + '>' if st else ''}@{[qi[q] for q in ins.qubits]}"
            + (f"->{[ci[c] for c in ins.clbits]}" if ins.clbits else "")
        )
    return "; ".join(out)[:limit]


def haar_state(rng, n):
    v = rng.normal(size=2**n) + 1j * rng.normal(size=2**n)
    return v / np.linalg.norm(v)


def haar_unitary(rng, d):
    z = rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d))
    q, r = np.linalg.qr(z)
    return q * (np.diag(r) / np.abs(np.diag(r)))
