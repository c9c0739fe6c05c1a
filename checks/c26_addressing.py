PROPERTY = "C26"
RULE = "one evaluation = one emitted program with a shift, permutation, demultiplexing, quantum-indexed access or quantum-bounded loop, run exactly on a random superposition of all its registers; distinct = distinct (program, input)"
PLAN = {
    "quick": {"shift": 260, "quantum_shift": 120, "permute": 160, "demux": 160, "demux_inplace": 100, "access": 160, "entries": 60, "loop": 90, "shift_traced": 24, "cycles": 120},
    "thorough": {"shift": 2500, "quantum_shift": 1200, "permute": 2000, "demux": 1600, "demux_inplace": 1000, "access": 1600, "entries": 600, "loop": 900, "shift_traced": 200, "cycles": 2000},
}
REQUIRED_MONITORS = ["shift", "quantum_shift", "permute", "demux", "demux_inplace", "access", "entries", "loop", "shift_traced", "cycles"]
ASSUMPTIONS = [
    "quantum indexing is only claimed for arrays whose size is a power of two, as documented",
    "demultiplexing in place may permute the other entries; it is judged on arrays whose other entries are zero, and by its inverse on all states",
    "quantum-bounded loops follow the half open convention of classical ranges, as fixed by the existing tests",
]
CASE_TIMEOUT = 150
# --- end of plan ---
import numpy as np

from vlib import qs as Q
from vlib.harness import Skip

from qrisp import QuantumArray, QuantumBool, QuantumFloat, QuantumVariable, conjugate, control, cp, cx, cyclic_shift, demux, h, invert, merge, p, permute_iterable, qRange, x, z
from qrisp.alg_primitives.iterable_processing import q_indexing, q_swap_into, to_cycles


def container(py, nmax=9):
    """an iterable of equally sized entries: (iterable, list of registers, bits per entry)"""
    kind = py.choice(["qubits", "variable", "array", "variables", "slice", "matrix"])
    if kind in ("qubits", "variable", "slice"):
        n = py.randint(1, nmax)
        v = QuantumVariable(n + (1 if kind == "slice" else 0))
        it = list(v) if kind == "qubits" else (v if kind == "variable" else v[1:])
        regs = [[q] for q in (v.reg if kind != "slice" else v.reg[1:])]
        return kind, v, it, regs, 1
    w = py.randint(1, 2)
    n = py.randint(1, 6)
    if kind == "array":
        a = QuantumArray(QuantumFloat(w), (n,))
        return kind, a, a, [list(e) for e in a], w
    if kind == "matrix":
        n = py.choice([2, 4, 6])
        a = QuantumArray(QuantumFloat(w), (n // 2, 2)).flatten()
        return kind, a, a, [list(e) for e in a], w
    vs = [QuantumFloat(w) for _ in range(n)]
    merge(vs)
    return kind, vs[0], vs, [list(e) for e in vs], w


def case_shift(ctx):
    py = ctx.py
    kind, owner, it, regs, w = container(py)
    n = len(regs)
    s = py.randint(-2 * n - 1, 2 * n + 1)
    ctl = py.random() < 0.25
    ctx.last = dict(kind=kind, entries=n, width=w, shift=s, controlled=ctl)
    groups, sizes = list(regs), [w] * n
    if ctl:
        c = QuantumBool()
        with control(c):
            cyclic_shift(it, s)
        merge([c, owner])
        groups.append(list(c))
        sizes.append(1)
        f = lambda *v: tuple(v[(i - s) % n] for i in range(n)) + (1,) if v[-1] else v
    else:
        if s == 1 and py.random() < 0.5:
            cyclic_shift(it)
        else:
            cyclic_shift(it, s)
        f = lambda *v: tuple(v[(i - s) % n] for i in range(n))
    Q.judge_map(ctx, owner.qs.copy(), groups, sizes, f, "cyclic shift", "shift")


def case_quantum_shift(ctx):
    py = ctx.py
    kind, owner, it, regs, w = container(py, 6)
    n = len(regs)
    m, signed, exp = py.randint(1, 3), py.random() < 0.5, py.choice([0, 0, 0, 1])
    am = QuantumFloat(m, exp, signed=signed)
    ctx.last = dict(kind=kind, entries=n, width=w, amount=(m, exp, signed))
    cyclic_shift(it, am)
    merge([owner, am])

    def f(*v):
        r = v[-1]
        val = (r - 2 ** (m + 1) if signed and r >> m & 1 else r) << exp
        return tuple(v[(i - val) % n] for i in range(n)) + (r,)

    Q.judge_map(ctx, owner.qs.copy(), regs + [list(am)], [w] * n + [m + signed], f, "quantum shift", "quantum_shift")


def case_permute(ctx):
    py = ctx.py
    kind, owner, it, regs, w = container(py)
    n = len(regs)
    perm = list(range(n))
    py.shuffle(perm)
    inv = py.random() < 0.3
    ctx.last = dict(kind=kind, entries=n, perm=perm, inverted=inv)
    given = py.choice([list, tuple, np.array])(perm)
    if inv:
        with invert():
            permute_iterable(it, given)
        f = lambda *v: tuple(v[perm.index(i)] for i in range(n))
    else:
        permute_iterable(it, given)
        f = lambda *v: tuple(v[perm[i]] for i in range(n))
    ctx.require(list(given) == perm, "the given permutation was changed")
    Q.judge_map(ctx, owner.qs.copy(), regs, [w] * n, f, "permutation", "permute")


def case_cycles(ctx):
    py = ctx.py
    n = py.randint(1, 14)
    perm = list(range(n))
    py.shuffle(perm)
    ctx.last = dict(perm=perm)
    cycles = to_cycles(perm)
    ctx.require(sorted(sum([list(c) for c in cycles], [])) == list(range(n)), "the cycles of a permutation do not cover its elements once", detail=dict(cycles=str(cycles)))
    for c in cycles:
        for a, b in zip(c, list(c[1:]) + [c[0]]):
            ctx.require(perm[a] == b, "a cycle does not follow the permutation", detail=dict(cycles=str(cycles)))
    ctx.observe("cycles", key=str(perm))


def index_of(py, k):
    """a register addressing 2**k entries"""
    kind = py.choice(["float", "variable", "qubits"])
    v = QuantumFloat(k) if kind != "variable" else QuantumVariable(k)
    return kind, v, (v if kind != "qubits" else list(v))


def case_demux(ctx):
    py = ctx.py
    k = py.randint(1, 3)
    kind, iv, idx = index_of(py, k)
    source = py.choice(["qubit", "float", "bool"])
    w = 1 if source != "float" else py.randint(1, 2)
    n = 2**k
    mismatch = py.random() < 0.25
    par = py.random() < 0.3
    kw = dict(parallelize_qc=par) if par else {}
    ctx.last = dict(index=(kind, k), source=source, width=w, mismatch=mismatch, parallel=par)
    if source == "qubit":
        src = QuantumVariable(1)
        inp = src[0]
    else:
        src = QuantumFloat(w) if source == "float" else QuantumBool()
        inp = src
    if mismatch:
        # entries beyond the end do not exist: only addresses inside are judged
        n = py.randint(1, 2**k)
        out = QuantumVariable(n) if source == "qubit" else QuantumArray(src, (n,))
        kw["output"] = out
        kw["permit_mismatching_size"] = True
        ctx.last["entries"] = n
    merge([src, iv])
    res = demux(inp, idx, **kw)
    regs = [[q] for q in res] if source == "qubit" else [list(e) for e in res]
    ctx.require(len(regs) == n, "the demultiplexed object has another length")

    def f(val, i):
        return tuple(val if j == i % n else 0 for j in range(n)) + (0, i)

    vals, amps = Q.random_input(ctx.rng, py, [w, k], 24)
    if mismatch:
        vals = [(v, i) for v, i in vals if i < n]
        if not vals:
            raise Skip("no address inside")
        amps = amps[: len(vals)] / np.linalg.norm(amps[: len(vals)])
    qc = src.qs.copy()
    groups = regs + [list(src), list(iv)]
    rows = Q.rows_for(qc, groups, [(0,) * n + v for v in vals], amps)
    got = Q.amplitudes(qc, groups, rows, what="demux")
    want = Q.permuted(vals, amps, f)
    ctx.close(Q.amp_diff(got, want, phase=True), 1e-5, "demultiplexing put the value elsewhere")
    ctx.observe("demux", key=str(ctx.last) + str(vals))


def case_demux_inplace(ctx):
    py = ctx.py
    k = py.randint(1, 3)
    kind, iv, idx = index_of(py, k)
    n = 2**k
    bits = py.random() < 0.4
    w = 1 if bits else py.randint(1, 2)
    out = QuantumVariable(n) if bits else QuantumArray(QuantumFloat(w), (n,))
    regs = [[q] for q in out] if bits else [list(e) for e in out]
    par = py.random() < 0.3
    mode = py.choice(["zero", "back", "conjugate"])
    ctx.last = dict(index=(kind, k), bits=bits, width=w, parallel=par, mode=mode)
    merge([iv, out])
    groups, sizes = regs + [list(iv)], [w] * n + [k]
    if mode == "zero":
        demux(out[0], idx, out, parallelize_qc=par)
        f = lambda *v: tuple(v[0] if j == v[-1] else 0 for j in range(n)) + (v[-1],)
        dom = lambda py: (py.randrange(2**w),) + (0,) * (n - 1) + (py.randrange(n),)
        Q.judge_map(ctx, iv.qs.copy(), groups, sizes, f, "demux in place", "demux_inplace", domain=dom)
    elif mode == "back":
        demux(out[0], idx, out, parallelize_qc=par)
        with invert():
            demux(out[0], idx, out, parallelize_qc=par)
        Q.judge_map(ctx, iv.qs.copy(), groups, sizes, lambda *v: v, "demux and back", "demux_inplace")
    else:
        with invert():
            demux(out[0], idx, out, parallelize_qc=par)
        x(out[0] if not bits else out[0])
        demux(out[0], idx, out, parallelize_qc=par)
        f = lambda *v: tuple(v[j] ^ (2**w - 1) if j == v[-1] else v[j] for j in range(n)) + (v[-1],)
        Q.judge_map(ctx, iv.qs.copy(), groups, sizes, f, "entry reached by demux", "demux_inplace")


def case_access(ctx):
    py = ctx.py
    w = py.randint(1, 2)
    dims = py.choice([(2,), (4,), (8,), (2, 2), (2, 4), (4, 2), (1, 2), (2, 2, 2)])
    if int(np.prod(dims)) == 8:
        w = 1
    a = QuantumArray(QuantumFloat(w), dims)
    ks = [int(np.log2(d)) for d in dims]
    if 0 in ks:
        raise Skip("an index without qubits")
    idx = [QuantumFloat(k) for k in ks]
    key = idx[0] if len(idx) == 1 and py.random() < 0.7 else tuple(idx)
    n = int(np.prod(dims))
    regs = [list(e) for e in a.flatten()]
    op = py.choice(["x", "add", "copy", "phase", "nested", "swap"])
    ctx.last = dict(dims=dims, width=w, op=op, tuple=isinstance(key, tuple))
    extra, esz = [], []
    pos = lambda i: int(np.ravel_multi_index(i, dims))
    M = 2**w
    if op == "x":
        with a[key] as e:
            x(e)
        g = lambda ent, i, ex: ([v ^ (M - 1) if j == i else v for j, v in enumerate(ent)], ex)
        ph = None
    elif op == "add":
        t = QuantumFloat(w)
        merge([t, a])
        with a[key] as e:
            e += t
        extra, esz = [list(t)], [w]
        g = lambda ent, i, ex: ([(v + ex[0]) % M if j == i else v for j, v in enumerate(ent)], ex)
    elif op in ("copy", "nested"):
        t = QuantumFloat(w)
        c = QuantumBool()
        merge([t, a, c])
        if op == "copy":
            with a[key] as e:
                cx(e, t)
            g = lambda ent, i, ex: (ent, [ex[0] ^ ent[i], ex[1]])
        else:
            with control(c):
                with a[key] as e:
                    cx(e, t)
            g = lambda ent, i, ex: (ent, [ex[0] ^ ent[i] if ex[1] else ex[0], ex[1]])
        extra, esz = [list(t), list(c)], [w, 1]
    elif op == "swap":
        t = QuantumFloat(w)
        merge([t, a])
        from qrisp import swap

        with a[key] as e:
            swap(e, t)
        extra, esz = [list(t)], [w]
        g = lambda ent, i, ex: ([ex[0] if j == i else v for j, v in enumerate(ent)], [ent[i]])
    else:
        with a[key] as e:
            p(0.7, e[0])
        g = lambda ent, i, ex: (ent, ex)
    merge([a] + idx)

    def f(*v):
        ent, ix, ex = list(v[:n]), v[n : n + len(idx)], list(v[n + len(idx) :])
        e2, x2 = g(ent, pos(ix), ex)
        return tuple(e2) + tuple(ix) + tuple(x2)

    ph = (lambda *v: np.exp(0.7j) if v[pos(v[n : n + len(idx)])] & 1 else 1) if op == "phase" else None
    Q.judge_map(ctx, a.qs.copy(), regs + [list(i) for i in idx] + extra, [w] * n + ks + esz, f, "quantum indexed entry", "access", ph=ph)


def case_entries(ctx):
    """reading an entry into a fresh variable, and swapping an entry out"""
    py = ctx.py
    k, w = py.randint(1, 2), py.randint(1, 2)
    n = 2**k
    a = QuantumArray(QuantumFloat(w), (n,))
    idx = QuantumFloat(k)
    merge([a, idx])
    regs = [list(e) for e in a]
    op = py.choice(["read", "swap"])
    ctx.last = dict(op=op, index=k, width=w)
    if op == "read":
        r = q_indexing(a, idx)
        dom = lambda py: tuple(py.randrange(2**w) for _ in range(n)) + (py.randrange(n), 0)
        f = lambda *v: v[:n] + (v[n], v[v[n]])
    else:
        r = QuantumFloat(w)
        merge([a, r])
        q_swap_into(a, idx, r)
        dom = None
        f = lambda *v: tuple(v[-1] if j == v[n] else v[j] for j in range(n)) + (v[n], v[v[n]])
    Q.judge_map(ctx, a.qs.copy(), regs + [list(idx), list(r)], [w] * n + [k, w], f, "entry " + op, "entries", domain=dom)


def case_loop(ctx):
    py = ctx.py
    k, signed = py.randint(1, 3), py.random() < 0.3
    n = QuantumFloat(k, signed=signed)
    t = QuantumFloat(4)
    body = py.choice(["count", "sum", "flip", "phase"])
    create = py.random() < 0.5
    ctx.last = dict(bound=(k, signed), body=body, own_index=create)
    merge([n, t])
    for i in qRange(n, create_index_qf=create):
        ctx.require(i < 2**k, "a loop runs longer than its bound allows")
        if body == "count":
            t += 1
        elif body == "sum":
            t += i
        elif body == "flip":
            x(t[i % 4])
        else:
            p(0.3 * (i + 1), t[0])
    ctx.require(len(n) == k + signed and not n.is_deleted(), "a loop changed the size of its bound", detail=dict(size=len(n)))

    def value(r):
        return r - 2 ** (k + 1) if signed and r >> k & 1 else r

    def f(r, v):
        for i in range(max(value(r), 0)):
            v = (v + 1) % 16 if body == "count" else (v + i) % 16 if body == "sum" else v ^ (1 << (i % 4)) if body == "flip" else v
        return r, v

    ph = None
    if body == "phase":
        ph = lambda r, v: np.exp(1j * sum(0.3 * (i + 1) for i in range(max(value(r), 0)))) if v & 1 else 1
    # negative bounds are not claimed
    dom = (lambda py: (py.choice([r for r in range(2 ** (k + 1)) if value(r) >= 0]), py.randrange(16))) if signed else None
    Q.judge_map(ctx, n.qs.copy(), [list(n), list(t)], [k + signed, 4], f, "quantum bounded loop", "loop", ph=ph, domain=dom)


def case_shift_traced(ctx):
    from qrisp.circuit import Qubit
    from qrisp.jasp import make_jaspr

    py = ctx.py
    n, s = py.randint(2, 6), py.randint(-3, 4)
    if n < 2:
        raise Skip("short")
    ctl = py.random() < 0.3
    ctx.last = dict(entries=n, shift=s, controlled=ctl)

    def main():
        v = QuantumVariable(n)
        c = QuantumFloat(2)
        if ctl:
            with control(c[0]):
                cyclic_shift(v, s)
        else:
            cyclic_shift(v, s)
        return v, c

    out = make_jaspr(main)().to_qc()
    qc = out[-1]
    regs = [list(a) for a in out[:-1] if isinstance(a, (list, tuple)) and a and isinstance(a[0], Qubit)]

    def f(*v):
        e, c = v[:n], v[n]
        k = s if not ctl or c & 1 else 0
        return tuple(e[(i - k) % n] for i in range(n)) + (c,)

    Q.judge_map(ctx, qc, [[q] for q in regs[0]] + [regs[1]], [1] * n + [2], f, "traced shift", "shift_traced")


FAMILIES = {k[5:]: v for k, v in list(globals().items()) if k.startswith("case_")}
