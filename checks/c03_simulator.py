PROPERTY = "C03"
RULE = (
    "one evaluation = one simulated outcome distribution (or count dictionary, or statevector) compared with the exact Born-rule "
    "ensemble of the same instruction sequence; distinct = distinct exact distributions/statevectors (4 decimals) with more than one outcome"
)
PLAN = {
    "quick": {"terminal": 420, "dynamic": 900, "wide": 90, "shots": 160, "statevector": 220, "structured": 120, "very_wide": 60},
    "thorough": {"terminal": 5000, "dynamic": 9000, "wide": 900, "shots": 1500, "statevector": 2500, "structured": 1500, "very_wide": 500},
}
REQUIRED_MONITORS = ["distribution", "very_wide_distribution", "dynamic_distribution", "counts", "statevector", "wide_distribution"]
ASSUMPTIONS = [
    "the simulator rounds probabilities at the 5th decimal of the largest one and renormalises; tolerance 4e-4 absolute",
    "shot counts are judged with a 6.5 sigma bound per outcome plus exact support and sum",
]
# --- end of plan ---
import math

import numpy as np

from vlib import gen, ref
from vlib.harness import Skip, Violation

import qrisp
from qrisp import QuantumCircuit
import qrisp.circuit as qcirc

TOL = 4e-4


def key(d):
    return tuple(sorted((k, round(v, 4)) for k, v in d.items()))


def judge(ctx, monitor, got, want, what, tol=TOL):
    ctx.observe(monitor, key(want), len(want) > 1)
    s = sum(got.values())
    ctx.require(abs(s - 1) < 1e-5, f"{what}: probabilities sum to {s}", None, circuit=ctx.last)
    d = ref.dist_diff(got, want)
    ctx.close(d, tol, what, None, circuit=ctx.last, got=str(sorted(got.items())[:6]), want=str(sorted(want.items())[:6]))


def terminal(ctx):
    py = ctx.py
    n = py.randint(1, 9)
    qc = gen.random_circuit(py, n, py.randint(1, 45), depth=1, n_clbits=n)
    k = py.randint(1, n)
    qs = py.sample(range(n), k)
    # clbits 0..k-1 get used, in random assignment
    cl = py.sample(range(k), k)
    qc2 = QuantumCircuit(n, k)
    for ins in qc.data:
        qc2.append(ins.op, [qc2.qubits[qc.qubits.index(q)] for q in ins.qubits])
    if py.random() < 0.2:
        qc2.barrier()
    for a, b in zip(qs, cl):
        qc2.measure(qc2.qubits[a], qc2.clbits[b])
    ctx.last = gen.describe(qc2)
    ctx.sample(ctx.last)
    want = ref.simulate(qc2).clbit_distribution()
    before = gen.describe(qc2)
    got = qc2.run(shots=None)
    judge(ctx, "distribution", got, want, "outcome distribution")
    ctx.require(gen.describe(qc2) == before, "run() modified the circuit", None, circuit=before)
    if py.random() < 0.3:
        judge(ctx, "distribution", qc2.run(shots=None), want, "outcome distribution of a second run")


def dyn_circuit(py, n, k, gates, reset=True, cif=True):
    qc = QuantumCircuit(n, k)
    used = []
    for _ in range(gates):
        r = py.random()
        if r < 0.2:
            c = py.randrange(k)
            qc.measure(qc.qubits[py.randrange(n)], qc.clbits[c])
            used.append(c)
        elif r < 0.28 and reset:
            qc.reset(qc.qubits[py.randrange(n)])
        elif r < 0.45 and cif and (used or py.random() < 0.3):
            op = gen.random_op(py, n, 1, True, True)
            # now and then also bits that were never written (they read 0)
            avail = sorted(set(used)) if used and py.random() < 0.8 else list(range(k))
            m = py.randint(1, min(3, len(avail)))
            cs = py.sample(avail, m)
            st = "".join(py.choice("01") for _ in cs)
            arg = st if py.random() < 0.5 else sum(int(x) << i for i, x in enumerate(st))
            if m == 1 and py.random() < 0.5:
                st, arg = "1", -1
            qc.append(op.c_if(m, arg) if not (m == 1 and arg == -1) else op.c_if(), py.sample(qc.qubits, op.num_qubits), [qc.clbits[c] for c in cs])
        else:
            op = gen.random_op(py, n, 1, True, True)
            qc.append(op, py.sample(qc.qubits, op.num_qubits))
    for c in range(k):
        if c not in used:
            qc.measure(qc.qubits[py.randrange(n)], qc.clbits[c])
    return qc


def dynamic(ctx):
    py = ctx.py
    n = py.randint(1, 5)
    k = py.randint(1, 4)
    qc = dyn_circuit(py, n, k, py.randint(2, 14), reset=py.random() < 0.6, cif=py.random() < 0.7)
    if py.random() < 0.2:
        # wrapped into a composite operation with classical bits
        op = qc.to_op("dyn")
        qc2 = QuantumCircuit(n, k)
        pq, pc = py.sample(range(n), n), py.sample(range(k), k)
        qc2.append(op, [qc2.qubits[i] for i in pq], [qc2.clbits[i] for i in pc])
        qc = qc2
    ctx.last = gen.describe(qc)
    ctx.sample(ctx.last)
    want = ref.simulate(qc).clbit_distribution()
    got = qc.run(shots=None)
    judge(ctx, "dynamic_distribution", got, want, "outcome distribution with mid-circuit measurement/reset/conditions")


def wide(ctx):
    """many qubits, few superposed branches: exercises the sparse/factorised state representation"""
    py = ctx.py
    n = py.randint(10, 22)
    qc = QuantumCircuit(n)
    hs = py.randint(1, 7)
    for _ in range(hs):
        q = py.randrange(n)
        qc.append(gen.op1(py, pool=["h", "ry", "rx", "u3"]), [qc.qubits[q]])
    for _ in range(py.randint(10, 60)):
        r = py.random()
        if r < 0.3:
            qc.cx(*py.sample(qc.qubits, 2))
        elif r < 0.45:
            nc = py.randint(2, 4)
            op = qcirc.XGate().control(nc, ctrl_state=gen.ctrl_state(py, nc), method=py.choice(["gray", "auto"]))
            qc.append(op, py.sample(qc.qubits, nc + 1))
        elif r < 0.55:
            qc.append(gen.op1(py, pool=["x", "y", "z", "s", "t", "p", "rz"]), [py.choice(qc.qubits)])
        elif r < 0.65:
            qc.cp(gen.angle(py), *py.sample(qc.qubits, 2))
        elif r < 0.75:
            qc.swap(*py.sample(qc.qubits, 2))
        elif r < 0.78:
            qc.append(gen.op1(py, pool=["h", "ry", "rx"]), [py.choice(qc.qubits)])
        else:
            qc.cx(*py.sample(qc.qubits, 2))
    k = py.randint(1, min(n, 12))
    for q in py.sample(qc.qubits, k):
        qc.measure(q)
    ctx.last = gen.describe(qc)
    st = ref.simulate(qc, max_rows=1 << 16)
    want = st.clbit_distribution()
    got = qc.run(shots=None)
    judge(ctx, "wide_distribution", got, want, "wide circuit outcome distribution")


def very_wide(ctx):
    """more qubits than a machine word: independent blocks whose gates are interleaved"""
    py = ctx.py
    total = py.choice([46, 50, 62, 63, 64, 65, 70, 80])
    n_rand = py.randint(1, 3)
    qc = QuantumCircuit(total)
    free = py.sample(range(total), total)
    blocks = []
    streams = []
    for b in range(n_rand):
        k = py.randint(2, 5)
        pos, free = free[:k], free[k:]
        small = dyn_circuit(py, k, py.randint(1, 3), py.randint(2, 8), reset=py.random() < 0.5, cif=py.random() < 0.5)
        blocks.append((pos, small))
        base = [qc.add_clbit() for _ in small.clbits]
        streams.append([(ins.op, [qc.qubits[pos[small.qubits.index(q)]] for q in ins.qubits], [base[small.clbits.index(c)] for c in ins.clbits]) for ins in small.data])
    # deterministic rest: classical reversible gates on all remaining qubits
    val = {q: 0 for q in free}
    rest = []
    for _ in range(py.randint(10, 60)):
        r = py.random()
        if r < 0.4:
            q = py.choice(free)
            rest.append((qcirc.XGate(), [qc.qubits[q]], []))
            val[q] ^= 1
        else:
            a, b, c = py.sample(free, 3)
            if r < 0.8:
                rest.append((qcirc.CXGate(), [qc.qubits[a], qc.qubits[b]], []))
                val[b] ^= val[a]
            else:
                rest.append((qcirc.XGate().control(2, ctrl_state="01"), [qc.qubits[a], qc.qubits[b], qc.qubits[c]], []))
                val[c] ^= (1 - val[a]) & val[b]
    meas = free if py.random() < 0.4 else py.sample(free, py.randint(1, 6))
    cb = [qc.add_clbit() for _ in meas]
    for q, c in zip(meas, cb):
        rest.append((qcirc.Measurement(), [qc.qubits[q]], [c]))
    streams.append(rest)
    streams = [s for s in streams if s]
    while streams:
        s = py.choice(streams)
        qc.append(*s.pop(0))
        streams = [t for t in streams if t]
    dist = {"": 1.0}
    for pos, small in blocks:
        d = ref.simulate(small).clbit_distribution()
        dist = {k2 + k1: p1 * p2 for k1, p1 in dist.items() for k2, p2 in d.items()}
    tail = "".join(str(val[q]) for q in reversed(meas))
    dist = {tail + k: p for k, p in dist.items()}
    ctx.last = f"{total} qubits, {len(qc.clbits)} clbits: " + gen.describe(qc, 3000)
    judge(ctx, "very_wide_distribution", qc.run(shots=None), dist, f"outcome distribution of a {total} qubit circuit")


def structured(ctx):
    """algorithm-shaped circuits: phase kickback, QFT-like ladders, oracles, interference after disentangling"""
    py = ctx.py
    n = py.randint(3, 8)
    qc = QuantumCircuit(n)
    for i in range(n):
        qc.h(i)
    for _ in range(py.randint(1, 3)):
        kind = py.choice(["qft", "oracle", "ladder", "ghz"])
        if kind == "qft":
            for i in range(n):
                qc.h(i)
                for j in range(i + 1, n):
                    qc.cp(2 * math.pi / 2 ** (j - i + 1), j, i)
        elif kind == "oracle":
            nc = py.randint(1, n - 1)
            op = qcirc.ZGate().control(nc, ctrl_state=gen.ctrl_state(py, nc))
            qc.append(op, py.sample(qc.qubits, nc + 1))
            for i in range(n):
                qc.h(i)
        elif kind == "ladder":
            for i in range(n - 1):
                qc.cx(i, i + 1)
            for i in range(n):
                qc.ry(gen.angle(py), i)
        else:
            a = py.randrange(n)
            for i in range(n):
                if i != a:
                    qc.cx(a, i)
            qc.h(a)
    for q in py.sample(qc.qubits, py.randint(1, n)):
        qc.measure(q)
    ctx.last = gen.describe(qc)
    want = ref.simulate(qc).clbit_distribution()
    judge(ctx, "distribution", qc.run(shots=None), want, "structured circuit outcome distribution")


def shots(ctx):
    py = ctx.py
    n = py.randint(1, 5)
    if py.random() < 0.5:
        qc = dyn_circuit(py, n, py.randint(1, 3), py.randint(2, 8))
    else:
        qc = gen.random_circuit(py, n, py.randint(1, 10), depth=1)
        for q in py.sample(qc.qubits, py.randint(1, n)):
            qc.measure(q)
    ctx.last = gen.describe(qc)
    want = ref.simulate(qc).clbit_distribution()
    s = py.choice([1, 2, 17, 100, 1000, 10000, 100000])
    got = qc.run(shots=s)
    ctx.observe("counts", (s, key(want)), True)
    ctx.require(all(float(v) == int(v) and v > 0 for v in got.values()), f"counts are not positive integers: {got}", None, circuit=ctx.last)
    ctx.require(sum(got.values()) == s, f"counts sum to {sum(got.values())}, shots={s}", None, circuit=ctx.last)
    for k, v in got.items():
        p = want.get(k, 0.0)
        ctx.require(p > 1e-7, f"outcome {k} sampled but has probability {p}", None, circuit=ctx.last)
    for k, p in want.items():
        dev = abs(got.get(k, 0) - s * p)
        bound = 6.5 * math.sqrt(max(s * p * (1 - p), 1e-3)) + 2 + s * TOL
        ctx.require(dev <= bound, f"outcome {k}: {got.get(k, 0)} of {s} shots, expected {s*p:.1f}", None, circuit=ctx.last)


def statevector(ctx):
    py = ctx.py
    n = py.randint(1, 8)
    qc = gen.random_circuit(py, n, py.randint(0, 40), depth=2)
    ctx.last = gen.describe(qc)
    want = ref.dense_state(qc)
    got = qc.statevector_array()
    ctx.observe("statevector", np.round(want, 3).tobytes(), np.sum(np.abs(want) > 1e-6) > 1)
    ctx.close(ref.max_diff(got, want), 1e-3, "statevector", None, circuit=ctx.last)


FAMILIES = {
    "terminal": terminal,
    "dynamic": dynamic,
    "wide": wide,
    "very_wide": very_wide,
    "structured": structured,
    "shots": shots,
    "statevector": statevector,
}
