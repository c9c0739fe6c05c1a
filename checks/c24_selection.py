PROPERTY = "C24"
RULE = "one evaluation = one selection structure (quantum switch, truth table synthesis, dictionary look-up) applied to a superposition of selectors and compared amplitude by amplitude with the classical table; distinct = distinct (structure, options, table)"
PLAN = {
    "quick": {"switch": 300, "switch_environment": 120, "switch_traced": 14, "classical_switch": 8, "tables": 300, "table_forms": 60, "dictionary": 80, "old_switch": 40, "phases": 300},
    "thorough": {"switch": 1600, "switch_environment": 600, "switch_traced": 120, "classical_switch": 60, "tables": 1600, "table_forms": 500, "dictionary": 800, "old_switch": 300, "phases": 1500},
}
REQUIRED_MONITORS = ["switch", "switch_environment", "switch_traced", "classical_switch", "table", "table_forms", "dictionary", "old_switch", "phases"]
ASSUMPTIONS = [
    "the phase tolerant synthesis methods may leave phases depending on the selector; only basis values are judged for them",
    "deprecated switch interface is judged with warnings silenced",
]
CASE_TIMEOUT = 240
# --- end of plan ---
import math
import warnings

import numpy as np
import sympy as sp

from vlib import dense as D
from vlib import qs as Q
from vlib.harness import Skip

import qrisp
from qrisp import QuantumVariable, QuantumFloat, QuantumBool, QuantumArray, QuantumChar, QuantumModulus, QuantumDictionary, control, invert, merge
from qrisp.jasp import make_jaspr, q_switch, jaspify
from qrisp.alg_primitives.logic_synthesis import TruthTable
from qrisp.misc import custom_qv

warnings.simplefilter("ignore", FutureWarning)


def regs_of(out):
    return [list(x) for x in out[:-1] if isinstance(x, (list, tuple)) and len(x) and isinstance(x[0], qrisp.Qubit)]


def select_matrix(us, m, n):
    """block diagonal matrix: selector (n qubits) above the operand (m qubits)"""
    s = np.eye(2 ** (n + m), dtype=complex)
    for i, g in enumerate(us):
        s[i * 2**m : (i + 1) * 2**m, i * 2**m : (i + 1) * 2**m] = D.matrix(g, m)
    return s


def scenario(py, small=False):
    n = py.randint(1, 2 if small else 3)
    amount = py.randint(1 if n == 1 else 2, 2**n)
    sizes = [1] if py.random() < 0.3 else [2] if py.random() < 0.5 else [1, 1]
    m = sum(sizes)
    us = [D.random_gates(py, m, py.randint(1, 2)) for _ in range(amount)]
    return n, amount, sizes, m, us


def flat(args):
    return [q for a in args for q in list(a)]


def apply_switch(ctx, py, n, amount, sizes, us, index, ops, method, function):
    if function:

        def f(i, *o):
            D.apply(us[i], flat(o))

        kw = {} if amount == 2**n and py.random() < 0.5 else {"branch_amount": amount}
        return lambda: q_switch(index, f, *ops, method=method, **kw)
    fs = [(lambda *o, g=g: D.apply(g, flat(o))) for g in us]
    again = py.random() < 0.3

    def run():
        k = len(fs)
        q_switch(index, fs, *ops, method=method)
        ctx.require(len(fs) == k, f"the list of branches passed by the caller grew from {k} to {len(fs)} entries")
        if again:
            with invert():
                q_switch(index, fs, *ops, method=method)
            q_switch(index, fs, *ops, method=method)

    return run


def switch(ctx, env=None, monitor="switch"):
    """quantum switch over lists and functions"""
    py = ctx.py
    n, amount, sizes, m, us = scenario(py)
    method = py.choice(["auto", "tree", "sequential", "parallel"])
    function = py.random() < 0.5
    aslist = method != "parallel" and py.random() < 0.3
    if method == "parallel":
        if len(sizes) > 1 or n > 2:
            sizes, n = [m], min(n, 2)
            us = us[: 2**n]
            amount = len(us)
    ctx.last = f"switch {method} {n} selector qubits, {amount} branches, operands {sizes}, function {function}, list of qubits {aslist}, environment {env}, branches {us}"
    index = QuantumFloat(n)
    ops = [QuantumVariable(s) for s in sizes]
    merge([index] + ops)
    run = apply_switch(ctx, py, n, amount, sizes, us, list(index) if aslist else index, ops, method, function)
    qubits = flat(ops) + list(index)
    u = select_matrix(us, m, n)
    if env is None:
        run()
    elif env == "invert":
        with invert():
            run()
        u = u.conj().T
    else:
        k = py.choice(["1", "0", "11", "01"])
        c = QuantumVariable(len(k))
        merge([index, c])
        if env == "control":
            with control(list(c), ctrl_state=k):
                run()
        else:
            with control(list(c), ctrl_state=k):
                with invert():
                    run()
            u = u.conj().T
        qubits = qubits + list(c)
        u = D.controlled(u, (int(k[::-1], 2), len(k)), n + m)
    psi = D.random_state(ctx.rng, len(qubits))
    got = D.run(index.qs.copy(), qubits, psi, "switch")
    ctx.observe(monitor, ctx.last, True)
    d = float(np.linalg.norm(got - u @ psi))
    ctx.require(d < 5e-4, f"deviation {d:.4f} from the selected branches")


def switch_environment(ctx):
    """quantum switch inside controls and inverses"""
    switch(ctx, ctx.py.choice(["control", "invert", "both"]), "switch_environment")


def switch_traced(ctx):
    """quantum switch in traced programs"""
    py = ctx.py
    n, amount, sizes, m, us = scenario(py, small=True)
    method = py.choice(["auto", "sequential", "tree"])
    function = py.random() < 0.5
    env = py.choice([None, None, "control", "invert"])
    if function:
        # branch number is a traced integer: angles depend on it
        us = [[("ry", 0.3 * (i + 1), [0]), ("p", 0.2 * i, [m - 1])] for i in range(amount)]
    ctx.last = f"traced switch {method} {n} selector qubits, {amount} branches, operands {sizes}, function {function}, environment {env}, branches {us}"

    def f(i, *o):
        fl = [o[0][0], o[-1][sizes[-1] - 1]]
        qrisp.ry(0.3 * (i + 1), fl[0])
        qrisp.p(0.2 * i, fl[1])

    def pick(o, q):
        k = 0
        while q >= sizes[k]:
            q -= sizes[k]
            k += 1
        return o[k][q]

    fs = [(lambda *o, g=g: [getattr(qrisp, name)(*(([] if par is None else [par]) + [pick(o, q) for q in qs])) for name, par, qs in g] and None) for g in us]

    def run(index, ops):
        if function:
            q_switch(index, f, *ops, method=method, **({} if amount == 2**n else {"branch_amount": amount}))
        else:
            q_switch(index, fs, *ops, method=method)

    def main():
        index = QuantumFloat(n)
        ops = [QuantumVariable(s) for s in sizes]
        c = QuantumBool()
        if env == "control":
            with control(c[0]):
                run(index, ops)
        elif env == "invert":
            with invert():
                run(index, ops)
        else:
            run(index, ops)
        return (index, c) + tuple(ops)

    out = make_jaspr(main)().to_qc()
    r = regs_of(out)
    qubits = sum(r[2:], []) + r[0]
    u = select_matrix(us, m, n)
    if env == "invert":
        u = u.conj().T
    if env == "control":
        qubits = qubits + r[1]
        u = D.controlled(u, (1, 1), n + m)
    psi = D.random_state(ctx.rng, len(qubits))
    got = D.run(out[-1], qubits, psi, "switch")
    ctx.observe("switch_traced", ctx.last, True)
    d = float(np.linalg.norm(got - u @ psi))
    ctx.require(d < 5e-4, f"deviation {d:.4f} from the selected branches")


def classical_switch(ctx):
    """switch over a classical index in traced programs (out of range indices are clamped)"""
    py = ctx.py
    k = py.randint(2, 4)
    vals = [py.randrange(8) for _ in range(k)]
    idx = py.randint(0, k - 1)
    ctx.last = f"classical switch {vals} index {idx}"
    fs = []
    for v in vals:

        def b(q, v=v):
            q[:] = v

        fs.append(b)

    @jaspify
    def main(i):
        q = QuantumFloat(3)
        q_switch(i, fs, q)
        return qrisp.measure(q)

    got = main(idx)
    ctx.observe("classical_switch", ctx.last, True)
    ctx.require(int(got) == vals[idx], f"branch {idx} gave {got}, expected {vals[idx]}")


def table(py, n, m):
    k = py.choice(["random", "sparse", "constant", "linear"])
    if k == "random":
        return [[py.randint(0, 1) for _ in range(m)] for _ in range(2**n)]
    if k == "sparse":
        t = [[0] * m for _ in range(2**n)]
        t[py.randrange(2**n)][py.randrange(m)] = 1
        return t
    if k == "constant":
        c = [py.randint(0, 1) for _ in range(m)]
        return [list(c) for _ in range(2**n)]
    masks = [py.randrange(2**n) for _ in range(m)]
    return [[bin(v & w).count("1") % 2 for w in masks] for v in range(2**n)]


def tables(ctx):
    """truth table synthesis on superpositions"""
    py = ctx.py
    n, m = py.randint(1, 4), py.randint(1, 3)
    t = table(py, n, m)
    method = py.choice(["gray", "gray_pt", "gray_pt_inv", "pprm", "pprm_pt", "best"])
    exact = method in ("gray", "pprm")
    inv = py.random() < 0.3
    ctx.last = f"table {t} with {method}, inverse {inv}"
    tt = TruthTable(np.array(t)) if py.random() < 0.5 else TruthTable(["".join(str(r[j]) for r in t) for j in range(m)])
    a, b = QuantumVariable(n), QuantumVariable(m)
    merge([a, b])
    if inv:
        with invert():
            tt.q_synth(a, b, method=method)
    else:
        tt.q_synth(a, b, method=method)
    dirty = exact and py.random() < 0.5
    vals = [(v, w) for v in range(2**n) for w in (range(2**m) if dirty else [0])]
    amps = ctx.rng.normal(size=len(vals)) + 1j * ctx.rng.normal(size=len(vals))
    amps /= np.linalg.norm(amps)
    qc = a.qs.copy()
    got = Q.amplitudes(qc, [list(a), list(b)], Q.rows_for(qc, [list(a), list(b)], vals, amps), what="table")
    out = [sum(bit << j for j, bit in enumerate(r)) for r in t]
    want = {(v, w ^ out[v]): x for (v, w), x in zip(vals, amps)}
    ctx.observe("table", ctx.last, True)
    if exact:
        ctx.close(Q.amp_diff(got, want), 5e-4, "synthesised table")
    else:
        ctx.close(max(abs(abs(got.get(k, 0)) - abs(want.get(k, 0))) for k in set(got) | set(want)), 5e-4, "synthesised table values")


def table_forms(ctx):
    """classical views of truth tables"""
    py = ctx.py
    n, m = py.randint(1, 4), py.randint(1, 3)
    t = np.array(table(py, n, m))
    tt = TruthTable(t)
    ctx.last = f"forms of table {t.tolist()}"
    ctx.observe("table_forms", ctx.last, True)
    ctx.require(tt.str_l == ["".join(str(v) for v in t[:, j]) for j in range(m)], f"string form {tt.str_l}")
    j = py.randrange(m)
    ctx.require(np.array_equal(tt.sub_table(j).n_rep, t[:, [j]]), "single column table")
    j2 = py.randrange(m)
    s = tt.swap_col(j, j2).n_rep
    w = t.copy()
    w[:, [j, j2]] = w[:, [j2, j]]
    ctx.require(np.array_equal(s, w), f"columns {j} and {j2} swapped: {s.tolist()}")
    u = np.array(table(py, n, m))
    ctx.require(np.array_equal((tt | TruthTable(u)).n_rep, t | u), "union of tables")
    if n > 1:
        i = py.randrange(n)
        c0, c1 = tt.cofactors(i)
        r0 = [k for k in range(2**n) if not (k >> (n - 1 - i)) & 1]
        r1 = [k for k in range(2**n) if (k >> (n - 1 - i)) & 1]
        ctx.require(np.array_equal(c0.n_rep, t[r0]) and np.array_equal(c1.n_rep, t[r1]), f"cofactors with respect to variable {i}")
    from qrisp.alg_primitives.logic_synthesis.truth_tables import synth_poly, rw_spectrum

    syms = list(sp.symbols(" ".join(f"y{i}" for i in range(n)))) if n > 1 else [sp.symbols("y0")]
    p = synth_poly(tt, column=j, coeff=syms)
    for v in range(2**n):
        val = sp.sympify(p).subs({syms[i]: (v >> i) & 1 for i in range(n)})
        ctx.require(int(val) % 2 == t[v, j], f"polynomial {p} at {v} is {val}, table says {t[v, j]}")
    r = rw_spectrum(t[:, j].astype(int))
    want = [sum((-1) ** bin(k & v).count("1") * int(t[v, j]) for v in range(2**n)) for k in range(2**n)]
    ctx.require(list(np.array(r).astype(int)) == want, f"spectrum {list(r)} expected {want}")
    # a table built from a polynomial
    tp = TruthTable(sp.Poly(sum((sp.Symbol(f"x{i}") for i in range(n)), sp.Integer(0))).as_expr() + 1) if py.random() < 0.5 else None
    if tp is not None:
        ctx.require([int(c) for c in tp.n_rep[:, 0]] == [(bin(v).count("1") + 1) % 2 for v in range(2**n)], f"table of a polynomial {tp.n_rep[:, 0].tolist()}")


def key_var(py):
    k = py.choice(["float", "signed", "bool", "custom", "modulus", "fraction"])
    if k == "float":
        return QuantumFloat(py.randint(1, 3))
    if k == "signed":
        return QuantumFloat(py.randint(1, 2), signed=True)
    if k == "fraction":
        return QuantumFloat(2, -1)
    if k == "bool":
        return QuantumBool()
    if k == "modulus":
        return QuantumModulus(py.choice([3, 5]))
    return custom_qv(py.choice([["hello", "world", "42", 42], ["a", "b", "c"], [(1, 2), (3, 4)]]))


def dictionary(ctx):
    """dictionary look-ups with quantum keys"""
    py = ctx.py
    keys = [key_var(py) for _ in range(py.choice([1, 1, 2]))]
    if sum(k.size for k in keys) > 5:
        keys = keys[:1]
    doms = [[(i, k.decoder(i)) for i in range(2**k.size)] for k in keys]
    doms = [[(i, lab) for i, lab in d if not (isinstance(lab, str) and "undefined" in lab) and not (isinstance(lab, float) and math.isnan(lab))] for d in doms]
    kind = py.choice(["float", "signed", "labels", "given", "existing"])
    fmt = QuantumFloat(2, -1, signed=kind == "signed")
    pool = ["x", "y", 3, "long label", 7.5] if kind == "labels" else [fmt.decoder(i) for i in range(2**fmt.size)]
    import itertools

    combos = list(itertools.product(*doms))
    chosen = py.sample(combos, py.randint(2, len(combos)))
    d = {}
    for cb in chosen:
        labs = tuple(lab for _, lab in cb)
        d[labs if len(labs) > 1 else labs[0]] = py.choice(pool)
    if kind == "labels" and len(set(map(str, d.values()))) < 2:
        raise Skip("one value only")
    method = py.choice(["gray", "pprm", "gray", "best"])
    ctx.last = f"dictionary {d} keys {[type(k).__name__ for k in keys]} result {kind} {method}"
    qd = QuantumDictionary(d, return_type=None if kind in ("labels", "existing") else fmt)
    for k, v in d.items():
        ctx.require(qd[k] == v, f"classical look-up of {k} gives {qd[k]}")
    value = None
    if kind == "existing":
        value = QuantumFloat(2, -1)
    key = keys[0] if len(keys) == 1 else tuple(keys)
    if value is not None:
        res = qd.load(key, value, synth_method=method)
        ctx.require(res is value, "the given variable is not returned")
    elif method == "gray" and py.random() < 0.5:
        res = qd[key]
    else:
        res = qd.load(key, synth_method=method)
    merge(keys + [res])
    regs = [list(k) for k in keys] + [list(res)]
    vals = [tuple(i for i, _ in cb) + (0,) for cb in chosen]
    amps = ctx.rng.normal(size=len(vals)) + 1j * ctx.rng.normal(size=len(vals))
    amps /= np.linalg.norm(amps)
    qc = res.qs.copy()
    got = Q.amplitudes(qc, regs, Q.rows_for(qc, regs, vals, amps), what="dictionary")
    ctx.observe("dictionary", ctx.last, True)
    seen = {}
    for cb, a in zip(chosen, amps):
        labs = tuple(lab for _, lab in cb)
        v = d[labs if len(labs) > 1 else labs[0]]
        hits = [(k, w) for k, w in got.items() if k[:-1] == tuple(i for i, _ in cb) and abs(w) > 1e-5]
        ctx.require(len(hits) == 1, f"key {labs} leads to {len(hits)} values")
        k, w = hits[0]
        lab = res.decoder(k[-1])
        ctx.require(lab == v and type(lab) in (type(v), int, float, np.float64, np.int64), f"key {labs} gives {lab}, expected {v}")
        if method != "best":
            ctx.require(abs(w - a) < 5e-4, f"amplitude of key {labs} changed")


def old_switch(ctx):
    """deprecated switch interface"""
    py = ctx.py
    from qrisp import qswitch

    n, amount, sizes, m, us = scenario(py)
    method = py.choice(["auto", "tree", "sequential", "parallel"])
    if method == "parallel" and n > 2:
        n, us = 2, us[:4]
        amount = len(us)
    function = py.random() < 0.5
    env = py.choice([None, "control", "invert"])
    ctx.last = f"old switch {method} {n} selector qubits, {amount} branches, function {function}, environment {env}, branches {us}"
    index, op = QuantumFloat(n), QuantumVariable(m)
    merge([index, op])

    def run():
        if function:
            qswitch(op, index, lambda i, o: D.apply(us[i], o), method=method, **({} if amount == 2**n else {"case_amount": amount}))
        else:
            fs = [(lambda o, g=g: D.apply(g, o)) for g in us]
            k = len(fs)
            qswitch(op, index, fs, method=method)
            ctx.require(len(fs) == k, f"the list of branches passed by the caller grew from {k} to {len(fs)} entries")

    u = select_matrix(us, m, n)
    qubits = list(op) + list(index)
    if env is None:
        run()
    elif env == "invert":
        with invert():
            run()
        u = u.conj().T
    else:
        c = QuantumBool()
        merge([index, c])
        with control(c):
            run()
        qubits = qubits + list(c)
        u = D.controlled(u, (1, 1), n + m)
    psi = D.random_state(ctx.rng, len(qubits))
    got = D.run(index.qs.copy(), qubits, psi, "switch")
    ctx.observe("old_switch", ctx.last, True)
    d = float(np.linalg.norm(got - u @ psi))
    ctx.require(d < 5e-4, f"deviation {d:.4f} from the selected branches")


def phase_list(py, n):
    k = py.choice(["dense", "parity", "parities", "sparse", "quarter"])
    if k == "dense":
        return [py.uniform(-3, 3) for _ in range(2**n)]
    if k == "sparse":
        p = [0.0] * 2**n
        for _ in range(py.randint(1, 2)):
            p[py.randrange(2**n)] = py.choice([np.pi, 0.7, -1.1])
        return p
    if k == "quarter":
        return [py.choice([0, np.pi / 2, np.pi]) for _ in range(2**n)]
    masks = [py.randrange(2**n) for _ in range(1 if k == "parity" else py.randint(2, 4))]
    w = [py.choice([np.pi, np.pi / 2, 0.9]) for _ in masks]
    return [sum(a * (bin(v & m).count("1") % 2) for a, m in zip(w, masks)) for v in range(2**n)]


def phases(ctx):
    """synthesis of arbitrary diagonal phases, also inverted and controlled"""
    py = ctx.py
    from qrisp.alg_primitives.logic_synthesis.gray_synthesis import GraySynthGate, gray_phase_synth

    n = py.randint(1, 5)
    ph = phase_list(py, n)
    mode = py.choice(["gate", "variable", "inverse", "control", "environment"])
    ctx.last = f"phases {ph} {mode}"
    # phases are listed with the first qubit as the leading bit
    diag = np.exp(1j * np.array([ph[int(format(v, f"0{n}b")[::-1], 2)] for v in range(2**n)]))
    ctx.observe("phases", ctx.last, True)
    if mode == "gate":
        qc = qrisp.QuantumCircuit(n)
        qc.append(GraySynthGate(ph), qc.qubits)
        qubits = qc.qubits
    elif mode in ("variable", "inverse"):
        qv = QuantumVariable(n)
        if mode == "inverse":
            with invert():
                gray_phase_synth(qv, ph)
            diag = diag.conj()
        else:
            gray_phase_synth(qv, ph)
        qc, qubits = qv.qs.copy(), list(qv)
    elif mode == "control":
        n = min(n, 3)
        ph = phase_list(py, n)
        ctx.last = f"phases {ph} {mode}"
        k = py.choice(["1", "0", "11", "10"])
        qc = qrisp.QuantumCircuit(n + len(k))
        qc.append(GraySynthGate(ph).control(len(k), ctrl_state=k), qc.qubits)
        qubits = qc.qubits
        diag = np.ones(2 ** (n + len(k)), dtype=complex)
        for v in range(2**n):
            # controls come first
            cv = sum(int(b) << i for i, b in enumerate(k))
            diag[cv + (v << len(k))] = np.exp(1j * ph[int(format(v, f"0{n}b")[::-1], 2)])
    else:
        n = min(n, 3)
        ph = phase_list(py, n)
        ph[0] = 0.0
        ctx.last = f"phases {ph} {mode}"
        qv, b = QuantumVariable(n), QuantumBool()
        merge([qv, b])
        with control(b):
            gray_phase_synth(qv, ph)
        qc, qubits = qv.qs.copy(), list(qv) + list(b)
        diag = np.ones(2 ** (n + 1), dtype=complex)
        for v in range(2**n):
            diag[v + 2**n] = np.exp(1j * ph[int(format(v, f"0{n}b")[::-1], 2)])
    psi = D.random_state(ctx.rng, len(qubits))
    got = D.run(qc, qubits, psi, "phases")
    d = D.phase_distance(got, diag * psi)
    ctx.require(d < 5e-4, f"deviation {d:.4f} from the requested phases")


FAMILIES = {
    "phases": phases,
    "switch": switch,
    "switch_environment": switch_environment,
    "switch_traced": switch_traced,
    "classical_switch": classical_switch,
    "tables": tables,
    "table_forms": table_forms,
    "dictionary": dictionary,
    "old_switch": old_switch,
}
