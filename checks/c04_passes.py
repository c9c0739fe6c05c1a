PROPERTY = "C04"
RULE = (
    "one evaluation = one circuit pushed through one pass or pipeline and compared (unitary, state reached from |0..0>, or exact classical outcome "
    "distribution) with the unprocessed circuit by the reference interpreter; distinct = distinct (pass, behaviour) keys where the pass changed the instruction list"
)
PLAN = {
    "quick": {"unitary": 900, "zero_state": 400, "dynamic": 900, "pipeline": 350, "swaps": 350, "manager": 120, "symbolic": 120, "pairs": 500, "wide": 50},
    "thorough": {"unitary": 9000, "zero_state": 4000, "dynamic": 8000, "pipeline": 3500, "swaps": 3500, "manager": 600, "symbolic": 1000, "pairs": 5000, "wide": 500},
}
REQUIRED_MONITORS = ["pass_pairs", "pass_wide", "pass_unitary", "pass_state", "pass_distribution", "pipeline_distribution", "pass_postcondition", "input_unmodified", "manager_order"]
ASSUMPTIONS = [
    "passes documented to exploit the |0> initial state are judged on the state reached from |0..0>; resolving swaps is judged on measurement statistics and on the permuted unitary",
    "all qubits of a generated circuit start in |0>",
]
# --- end of plan ---
import math

import numpy as np

from vlib import gen, ref
from vlib.harness import Skip, Violation

import qrisp
from qrisp import QuantumCircuit, PassManager
import qrisp.circuit as qcirc
from qrisp.circuit import pass_management as pm_mod
from qrisp import (
    arrange_swaps,
    cancel_zero_controls,
    combine_single_qubit_gates,
    commute_swaps,
    convert_to_cx,
    convert_to_cz,
    convert_to_prx,
    decompose,
    fuse_adjacents,
    gray_synth_toffoli,
    manual_layout,
    remove_barriers,
    resolve_swaps,
    reverse_parallelize,
)

UNITARY = {
    "combine_single_qubit_gates": lambda py: combine_single_qubit_gates,
    "commute_swaps": lambda py: commute_swaps,
    "convert_to_cx": lambda py: convert_to_cx(),
    "convert_to_cz": lambda py: convert_to_cz(),
    "convert_to_prx": lambda py: convert_to_prx,
    "decompose": lambda py: mk_decompose(py),
    "fuse_adjacents": lambda py: fuse_adjacents,
    "gray_synth_toffoli": lambda py: gray_synth_toffoli,
    "remove_barriers": lambda py: remove_barriers,
    "reverse_parallelize": lambda py: reverse_parallelize,
}
ZERO = {"arrange_swaps": lambda py: arrange_swaps, "cancel_zero_controls": lambda py: cancel_zero_controls}
PHASE_EXACT = {"combine_single_qubit_gates", "commute_swaps", "convert_to_cx", "convert_to_cz", "decompose", "fuse_adjacents", "remove_barriers", "convert_to_prx", "reverse_parallelize"}


def mk_decompose(py):
    r = py.random()
    if r < 0.4:
        return decompose()
    kw = {}
    if py.random() < 0.5:
        kw["level"] = py.choice([0, 1, 2, 3, np.inf])
    if py.random() < 0.5:
        kw["collect_gphases"] = py.random() < 0.5
    if py.random() < 0.3:
        m = py.randint(1, 3)
        kw["decompose_predicate"] = lambda op: op.num_qubits > m
    return decompose(**kw)


def circuit(py, n=None, barrier=0.08):
    n = n or py.randint(1, 5)
    style = py.random()
    if style < 0.35:
        return gen.random_circuit(py, n, py.randint(1, 16), depth=2, barrier=barrier)
    qc = QuantumCircuit(n)
    # structured: few distinct gates so that neighbours fuse/cancel often
    ones = py.sample(["x", "y", "z", "h", "s", "s_dg", "t", "t_dg", "rx", "ry", "rz", "p", "u3", "r", "sx", "gphase"], 4)
    twos = py.sample(gen.TWO_Q, 3) + ["swap"] * (py.random() < 0.6)
    pool = [gen.op1(py, pool=ones) for _ in range(4)] + ([gen.op2(py, pool=twos) for _ in range(4)] if n > 1 else [])
    if n > 1:
        b = gen.op1(py)
        nc = py.randint(1, min(3, n - 1))
        c = b.control(nc, ctrl_state=gen.ctrl_state(py, nc))
        pool += [c]
        if py.random() < 0.5:
            pool.append(c.inverse())
    if n > 2:
        pool.append(qcirc.XGate().control(2, ctrl_state=gen.ctrl_state(py, 2), method=py.choice(["gray", "auto", "gray_pt", "gray_pt_inv"])))
    pool += [p.inverse() for p in pool if py.random() < 0.4]
    if py.random() < 0.3:
        pool.append(gen.composite_op(py, py.randint(1, n), 1))
    last = None
    for _ in range(py.randint(2, 18)):
        if barrier and py.random() < barrier:
            qc.barrier(py.sample(qc.qubits, py.randint(1, n)))
            continue
        if last and py.random() < 0.35:
            op, qs = last
            if py.random() < 0.3:
                op = op.inverse()
            if py.random() < 0.4:
                qs = py.sample(qs, len(qs))
            if py.random() < 0.4:
                q2 = py.choice([p for p in pool if p.num_qubits == op.num_qubits] or [op])
                op = q2
        else:
            op = py.choice(pool)
            qs = py.sample(qc.qubits, op.num_qubits)
        qc.append(op, qs)
        last = (op, qs)
    return qc


def run_pass(ctx, name, p, qc):
    before = gen.describe(qc, 10**6)
    nq, nc = list(qc.qubits), list(qc.clbits)
    out = p(qc)
    ctx.observe("input_unmodified", None, True)
    ctx.require(gen.describe(qc, 10**6) == before and qc.qubits == nq and qc.clbits == nc, f"pass {name} modified its input circuit", None, circuit=before[:1500])
    ctx.require(out.clbits == nc, f"pass {name} changed the classical bits", None, circuit=before[:1500])
    return out, gen.describe(out, 10**6) != before


def aligned(qc, out, name):
    if set(map(id, out.qubits)) != set(map(id, qc.qubits)):
        if set(out.qubits) != set(qc.qubits):
            raise Violation(f"pass {name} changed the set of qubits")
    if out.qubits != qc.qubits:
        raise Violation(f"pass {name} changed the qubit order")
    return out


def ukey(m):
    return tuple(np.round(m.flatten()[:40], 2))


def names2q(qc):
    return {i.op.name for i in qc.data if i.op.num_qubits == 2}


def postcondition(ctx, name, qc, out):
    """documented post conditions of the passes, judged on the produced instruction list"""
    if name == "convert_to_cz":
        bad = [i.op.name for i in out.data if i.op.num_qubits == 2 and i.op.name in ("swap",)]
        ctx.require(not bad, "swap gates left after conversion to cz", None, circuit=gen.describe(qc))
    elif name == "convert_to_cx":
        bad = [i.op.name for i in out.data if i.op.num_qubits == 2 and i.op.name in ("swap",)]
        ctx.require(not bad, "swap gates left after conversion to cx", None, circuit=gen.describe(qc))
    elif name == "remove_barriers":
        ctx.require(not [1 for i in out.data if i.op.name == "barrier"], "barrier left", None, circuit=gen.describe(qc))
    elif name == "resolve_swaps":
        ctx.require(not [1 for i in out.data if i.op.name == "swap"], "swap left after resolving swaps", None, circuit=gen.describe(qc))
    elif name == "combine_single_qubit_gates":
        last = {}
        for i in out.data:
            one = isinstance(i.op, qcirc.U3Gate) and not i.op.abstract_params
            for q in i.qubits:
                ctx.require(not (one and last.get(q)), "two adjacent single qubit gates left after combining", None, circuit=gen.describe(qc))
                last[q] = one
    elif name == "convert_to_prx":
        bad = [i.op.name for i in out.data if type(i.op).__name__ == "U3Gate" and i.op.name not in ("gphase", "prx")]
        ctx.require(not bad, f"single qubit gates {bad} left after conversion to prx", None, circuit=gen.describe(qc))
    else:
        return
    ctx.observe("pass_postcondition", name, True)


def unitary(ctx):
    py = ctx.py
    name = py.choice(sorted(UNITARY))
    qc = circuit(py)
    ctx.last = f"{name}: {gen.describe(qc)}"
    ctx.sample(ctx.last)
    out, changed = run_pass(ctx, name, UNITARY[name](py), qc)
    aligned(qc, out, name)
    a, b = ref.circuit_matrix(qc), ref.circuit_matrix(out)
    ctx.observe("pass_unitary", (name, ukey(a)), changed)
    d = ref.max_diff(a, b) if name in PHASE_EXACT else ref.phase_diff(a, b)
    ctx.close(d, 2e-5, f"unitary after pass {name}", None, circuit=ctx.last, out=gen.describe(out))
    postcondition(ctx, name, qc, out)


def pairs(ctx):
    """two gates next to each other in every relative order of their qubits, alone or between others"""
    py = ctx.py
    n = py.randint(2, 3)
    qc = QuantumCircuit(n)
    pool2 = ["swap", "swap", "cx", "cz", "cp", "rzz", "rxx", "cy", "xxyy", "iswap"]
    pool2 = [g for g in pool2 if g in gen.TWO_Q or g == "swap"]

    def one():
        r = py.random()
        if r < 0.75:
            return gen.op2(py, pool=[py.choice(pool2)])
        b = gen.op1(py)
        return b.control(1, ctrl_state=py.choice("01"))

    qs = py.sample(qc.qubits, 2)
    if py.random() < 0.3:
        qc.append(gen.op1(py), [py.choice(qc.qubits)])
    a = one()
    qc.append(a, qs)
    for _ in range(py.choice([1, 1, 2])):
        b = py.choice([one(), one(), a.inverse(), a])
        qc.append(b, qs if py.random() < 0.5 else qs[::-1])
    if py.random() < 0.3:
        qc.append(gen.op1(py), [py.choice(qc.qubits)])
    name = py.choice(["fuse_adjacents", "fuse_adjacents", "fuse_adjacents", "commute_swaps", "convert_to_cx", "reverse_parallelize"])
    ctx.last = f"{name}: {gen.describe(qc)}"
    ctx.sample(ctx.last)
    out, changed = run_pass(ctx, name, UNITARY[name](py), qc)
    aligned(qc, out, name)
    a, b = ref.circuit_matrix(qc), ref.circuit_matrix(out)
    ctx.observe("pass_pairs", (name, ukey(a)), changed)
    ctx.close(ref.max_diff(a, b), 2e-5, f"unitary after pass {name}", None, circuit=ctx.last, out=gen.describe(out))


def dict_simulate(qc, start):
    """amplitudes {bit mask: amplitude} of circuits of any width"""
    st = {start: 1.0 + 0j}
    for kind, payload, qs, cond in ref.events(qc):
        if kind == "mcx":
            m, base, t = sum(1 << q for q in qs[:-1]), None, 1 << qs[-1]
            st = {(k ^ t if k & m == m else k): v for k, v in st.items()}
            continue
        if kind == "swap":
            a, b = qs
            st = {(k ^ (1 << a | 1 << b) if (k >> a ^ k >> b) & 1 else k): v for k, v in st.items()}
            continue
        if kind == "cu":
            mat, nc, cs = payload
            ctl, tq = list(zip(qs[:nc], cs)), qs[nc:]
        else:
            mat, ctl, tq = payload, [], qs
        mat = np.asarray(mat)
        new = {}
        for k, v in st.items():
            if any((k >> q & 1) != int(c) for q, c in ctl):
                new[k] = new.get(k, 0) + v
                continue
            col = 0
            for q in tq:
                col = col << 1 | (k >> q & 1)
            base = k
            for q in tq:
                base &= ~(1 << q)
            for row in np.nonzero(np.abs(mat[:, col]) > 1e-12)[0]:
                kk = base
                for i, q in enumerate(tq):
                    if int(row) >> (len(tq) - 1 - i) & 1:
                        kk |= 1 << q
                new[kk] = new.get(kk, 0) + v * mat[row, col]
        st = {k: v for k, v in new.items() if abs(v) > 1e-9}
    return st


def wide(ctx):
    """circuits wider than a machine word"""
    py = ctx.py
    n = py.choice([63, 64, 65, 66, 100, 127, 128, 129, 140])
    qc = QuantumCircuit(n)
    hot = py.sample(range(n), 6) + [n - 1, n - 2, 0, 63 % n, 64 % n, 62]
    hot = sorted(set(hot))
    nh = 0
    for _ in range(py.randint(15, 50)):
        pick = lambda k: py.sample(hot if py.random() < 0.7 else range(n), k)
        r = py.random()
        if r < 0.08 and nh < 5:
            qc.h(pick(1)[0])
            nh += 1
        elif r < 0.3:
            qc.append(gen.op1(py, pool=["x", "z", "s", "t", "p", "x", "y"]), [qc.qubits[pick(1)[0]]])
        else:
            op = py.choice([qcirc.CXGate(), qcirc.CXGate(), qcirc.CZGate(), qcirc.SwapGate(), qcirc.CPGate(py.choice([0.3, np.pi / 2])), qcirc.XGate().control(2), qcirc.RZZGate(0.7)])
            qc.append(op, [qc.qubits[i] for i in pick(op.num_qubits)])
    name = py.choice(["fuse_adjacents", "commute_swaps", "convert_to_cx", "reverse_parallelize", "reverse_parallelize", "reverse_parallelize", "combine_single_qubit_gates", "decompose", "convert_to_cz"])
    start = py.getrandbits(n)
    ctx.last = f"{name}: {n} qubits, {gen.describe(qc)}"
    ctx.sample(ctx.last)
    out, changed = run_pass(ctx, name, UNITARY[name](py) if name != "decompose" else decompose(), qc)
    aligned(qc, out, name)
    a, b = dict_simulate(qc, start), dict_simulate(out, start)
    ctx.observe("pass_wide", (name, n, len(qc.data)), changed)
    d = max(abs(a.get(k, 0) - b.get(k, 0)) for k in set(a) | set(b))
    ctx.close(d, 2e-5, f"state after pass {name} on {n} qubits", None, circuit=ctx.last)


def zero_state(ctx):
    py = ctx.py
    name = py.choice(["arrange_swaps", "cancel_zero_controls", "cancel_zero_controls"])
    qc = circuit(py, py.randint(2, 5))
    if py.random() < 0.2:
        base = qc
        qc = QuantumCircuit(0)
        for q in base.qubits:
            qc.add_qubit(q)
        for q in base.qubits:
            qc.append(qcirc.Operation("qb_alloc", 1) if not hasattr(qcirc, "QubitAlloc") else qcirc.QubitAlloc(), [q])
        for i in base.data:
            qc.append(i.op, i.qubits)
    ctx.last = f"{name}: {gen.describe(qc)}"
    ctx.sample(ctx.last)
    out, changed = run_pass(ctx, name, ZERO[name](py), qc)
    aligned(qc, out, name)
    a, b = ref.dense_state(qc).flatten(), ref.dense_state(out).flatten()
    ctx.observe("pass_state", (name, ukey(a)), changed)
    ctx.close(ref.max_diff(a, b), 2e-5, f"state after pass {name}", None, circuit=ctx.last, out=gen.describe(out))


def dyn(py, n, k):
    qc = QuantumCircuit(n, k)
    used = []
    base = circuit(py, n)
    ops = [(i.op, [base.qubits.index(q) for q in i.qubits]) for i in base.data]
    for op, qs in ops:
        r = py.random()
        if r < 0.18:
            c = py.randrange(k)
            qc.measure(qc.qubits[py.randrange(n)], qc.clbits[c])
            used.append(c)
        elif r < 0.25:
            qc.reset(qc.qubits[py.randrange(n)])
        elif r < 0.4 and (used or py.random() < 0.2) and op.name != "barrier":
            avail = sorted(set(used)) if used and py.random() < 0.8 else list(range(k))
            m = py.randint(1, min(2, len(avail)))
            cs = py.sample(avail, m)
            op2 = op.c_if(m, "".join(py.choice("01") for _ in cs))
            qc.append(op2, [qc.qubits[q] for q in qs], [qc.clbits[c] for c in cs])
            continue
        qc.append(op, [qc.qubits[q] for q in qs])
    for c in range(k):
        if c not in used or py.random() < 0.3:
            qc.measure(qc.qubits[py.randrange(n)], qc.clbits[c])
    return qc


def any_pass(py, n, zero=True):
    pool = dict(UNITARY)
    if zero:
        pool.update(ZERO)
    pool["resolve_swaps"] = lambda py: resolve_swaps
    pool["manual_layout"] = lambda py: manual_layout(py.sample(range(n + py.randint(0, 2)), n))
    name = py.choice(sorted(pool))
    return name, pool[name](py)


def dynamic(ctx):
    py = ctx.py
    n, k = py.randint(1, 5), py.randint(1, 3)
    qc = dyn(py, n, k)
    name, p = any_pass(py, n)
    ctx.last = f"{name}: {gen.describe(qc)}"
    ctx.sample(ctx.last)
    want = ref.simulate(qc).clbit_distribution()
    out, changed = run_pass(ctx, name, p, qc)
    got = ref.simulate(out).clbit_distribution()
    ctx.observe("pass_distribution", (name, tuple(sorted((a, round(v, 3)) for a, v in want.items()))), changed)
    ctx.close(ref.dist_diff(got, want), 2e-5, f"outcome distribution after pass {name}", None, circuit=ctx.last, out=gen.describe(out), got=str(got)[:300], want=str(want)[:300])


def swaps(ctx):
    """resolving swaps: unitary equals the original followed by one permutation of the wires; layout: wires relabelled"""
    py = ctx.py
    n = py.randint(2, 5)
    qc = circuit(py, n)
    for _ in range(py.randint(0, 3)):
        qc.swap(*py.sample(qc.qubits, 2))
    for _ in range(py.randint(0, 3)):
        op = gen.random_op(py, n, 1)
        qc.append(op, py.sample(qc.qubits, op.num_qubits))
    if py.random() < 0.5:
        ctx.last = f"resolve_swaps: {gen.describe(qc)}"
        out, changed = run_pass(ctx, "resolve_swaps", resolve_swaps, qc)
        postcondition(ctx, "resolve_swaps", qc, out)
        # final wire of every logical qubit, followed independently
        pos = {q: q for q in qc.qubits}
        for i in qc.data:
            if i.op.name == "swap":
                a, b = i.qubits
                pos[a], pos[b] = pos[b], pos[a]
        a = ref.circuit_matrix(qc)
        b = ref.circuit_matrix(out)
        T = b.reshape([2] * n + [2**n])
        ix = {q: i for i, q in enumerate(out.qubits)}
        T = np.transpose(T, [ix[pos[q]] for q in qc.qubits] + [n]).reshape(2**n, 2**n)
        ctx.observe("pass_unitary", ("resolve_swaps", ukey(a)), changed)
        ctx.close(ref.max_diff(a, T), 2e-5, "unitary after resolving swaps (wires followed)", None, circuit=ctx.last, out=gen.describe(out))
    else:
        m = py.randint(n, n + 2)
        lay = py.sample(range(m), n)
        ctx.last = f"manual_layout {lay}: {gen.describe(qc)}"
        out, changed = run_pass(ctx, "manual_layout", manual_layout(lay), qc)
        for l, ph in enumerate(lay):
            ctx.require(out.qubits[ph] is qc.qubits[l] or out.qubits[ph] == qc.qubits[l], f"logical qubit {l} is not at physical position {ph}", None, circuit=ctx.last)
        ctx.require(len(out.qubits) == max(lay) + 1, "number of physical qubits", None, circuit=ctx.last)
        a = ref.circuit_matrix(qc)
        b = ref.circuit_matrix(out)
        N = len(out.qubits)
        T = b.reshape([2] * N * 2)
        extra = [i for i in range(N) if i not in lay]
        perm = list(lay) + extra
        T = np.transpose(T, perm + [N + i for i in perm]).reshape(2**N, 2**N)
        ctx.observe("pass_unitary", ("manual_layout", ukey(a)), True)
        ctx.close(ref.max_diff(np.kron(a, np.eye(2 ** len(extra))), T), 2e-5, "unitary after manual layout", None, circuit=ctx.last, out=gen.describe(out))


def pipeline(ctx):
    py = ctx.py
    n, k = py.randint(2, 5), py.randint(1, 4)
    if py.random() < 0.5:
        qc = dyn(py, n, k)
    else:
        base = circuit(py, n)
        qc = QuantumCircuit(n, k)
        for i in base.data:
            qc.append(i.op, [qc.qubits[base.qubits.index(q)] for q in i.qubits])
        for c in range(k):
            qc.measure(py.choice(qc.qubits), qc.clbits[c])
    pm = PassManager()
    names = []
    for _ in range(py.randint(2, 6)):
        name, p = any_pass(py, n)
        if name == "manual_layout":
            if "manual_layout" in names:
                continue
            p = manual_layout(py.sample(range(n), n))
        names.append(name)
        if py.random() < 0.5:
            pm += p
        else:
            pm.add_pass(p)
    ctx.last = f"{names}: {gen.describe(qc)}"
    ctx.sample(ctx.last)
    want = ref.simulate(qc).clbit_distribution()
    out, changed = run_pass(ctx, "pipeline", pm.run, qc)
    got = ref.simulate(out).clbit_distribution()
    ctx.observe("pipeline_distribution", (tuple(names), tuple(sorted((a, round(v, 3)) for a, v in want.items()))), changed)
    ctx.close(ref.dist_diff(got, want), 3e-5, f"outcome distribution after pipeline", None, circuit=ctx.last, out=gen.describe(out), got=str(got)[:300], want=str(want)[:300])


def manager(ctx):
    """order of execution of the pass list after random edits, against a list model"""
    py = ctx.py
    log = []

    def mk(i):
        @qrisp.CircuitPass
        def f(qc):
            log.append(i)
            new = qc.copy()
            new.p(2.0**-i, 0)
            return new

        f.__name__ = f"pass{i}"
        return f

    P = [mk(i) for i in range(6)]
    pm = PassManager()
    model = []
    ops = []
    for _ in range(py.randint(1, 9)):
        r = py.random()
        if r < 0.55 or not model:
            i = py.randrange(6)
            if py.random() < 0.5:
                pm += P[i]
            else:
                pm.add_pass(P[i])
            model.append(i)
            ops.append(("add", i))
        elif r < 0.75:
            i, pos = py.randrange(6), py.randint(0, len(model))
            pm.insert_pass(pos, P[i])
            model.insert(pos, i)
            ops.append(("insert", pos, i))
        elif r < 0.95:
            pos = py.randrange(len(model))
            pm.remove_pass(pos)
            model.pop(pos)
            ops.append(("remove", pos))
        else:
            pm.clear()
            model = []
            ops.append(("clear",))
    ctx.last = str(ops)
    ctx.sample(ctx.last)
    qc = QuantumCircuit(1)
    qc.h(0)
    out = pm.run(qc)
    ctx.observe("manager_order", tuple(model), len(model) > 1)
    ctx.require(log == model, f"passes executed in order {log}, expected {model}", None, ops=ctx.last)
    ctx.require(len(out.data) == 1 + len(model), "result is not the chained output of all passes", None, ops=ctx.last)
    ctx.require(len(qc.data) == 1, "pass manager modified the input", None, ops=ctx.last)


def symbolic(ctx):
    """circuits with symbolic angles: transforming then binding equals binding then interpreting"""
    import sympy

    py = ctx.py
    a, b = sympy.Symbol("alpha"), sympy.Symbol("beta")
    n = py.randint(1, 4)
    base = circuit(py, n)
    qc = QuantumCircuit(n)
    for i in base.data:
        qs = [qc.qubits[base.qubits.index(q)] for q in i.qubits]
        r = py.random()
        if r < 0.4:
            e = py.choice([a, b, a + b, 2 * a, -a, a - b])
            nm = py.choice(["rx", "ry", "rz", "p", "cp", "rzz", "rxx"] if n > 1 else ["rx", "ry", "rz", "p"])
            if nm in ("cp", "rzz", "rxx"):
                getattr(qc, nm)(e, *py.sample(qc.qubits, 2))
            else:
                getattr(qc, nm)(e, py.choice(qc.qubits))
        else:
            qc.append(i.op, qs)
    name = py.choice(sorted(set(UNITARY) - {"convert_to_prx"}))
    vals = {a: py.uniform(-3, 3), b: py.uniform(-3, 3)}
    ctx.last = f"{name}: {gen.describe(qc)}"
    ctx.sample(ctx.last)
    want = ref.circuit_matrix(qc.bind_parameters(vals))
    out, changed = run_pass(ctx, name, UNITARY[name](py), qc)
    got = ref.circuit_matrix(out.bind_parameters(vals))
    ctx.observe("pass_unitary", ("sym", name, ukey(want)), changed)
    ctx.close(ref.phase_diff(want, got), 2e-5, f"unitary of bound circuit after pass {name}", None, circuit=ctx.last, out=gen.describe(out))


FAMILIES = {"pairs": pairs, "wide": wide, "unitary": unitary, "zero_state": zero_state, "dynamic": dynamic, "pipeline": pipeline, "swaps": swaps, "manager": manager, "symbolic": symbolic}
