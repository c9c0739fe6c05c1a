PROPERTY = "C16"
RULE = (
    "one evaluation = one random program and argument tuple whose reported gate counts, depth or qubit statistics are compared with figures counted on the circuit that the same program emits "
    "for these arguments and measurement results; distinct = distinct (figure, program, arguments)"
)
PLAN = {
    "quick": {"counts": 80, "depth": 60, "qubits": 60, "feedback": 60, "slices": 60, "simulated": 40, "kernel": 50},
    "thorough": {"counts": 900, "depth": 600, "qubits": 600, "feedback": 600, "slices": 600, "simulated": 300, "kernel": 400},
}
REQUIRED_MONITORS = ["gate_counts", "depth", "qubit_statistics", "measurement_dependence", "simulated_counts", "callback_variant", "library_counts"]
ASSUMPTIONS = ["a gate is counted as the elementary gates of its definition; measurements, resets, allocations have no duration", "allocated qubits are always fresh for the depth figure, as documented"]
CASE_TIMEOUT = 300
# --- end of plan ---
import numpy as np

from vlib import qs as Q, jprog as J, ref
from vlib.harness import Skip, Violation

import qrisp
from qrisp import QuantumVariable, QuantumFloat, QuantumBool, measure, Qubit
from qrisp.jasp import make_jaspr, count_ops, depth, num_qubits, jrange


def pick_args(py, prog):
    return [py.randrange(hi + 1) for _, hi in prog["args"]]


SILENT = ("qb_alloc", "qb_dealloc", "measure", "reset", "barrier")


def leaves(op, qubits, clbits, out):
    """elementary gates in order"""
    if op.definition is None:
        out.append((op.name, qubits, clbits))
        return
    d = op.definition
    mq, mc = dict(zip(d.qubits, qubits)), dict(zip(d.clbits, clbits))
    for i in d.data:
        leaves(i.op, [mq[q] for q in i.qubits], [mc[c] for c in i.clbits], out)


def walk(qc, b):
    """elementary gates of a circuit in which every measurement yields b"""
    cl, out = {}, []
    for i in qc.data:
        op = i.op
        if op.name == "measure":
            cl[i.clbits[0]] = b
            out.append(("measure", i.qubits, i.clbits))
            continue
        if ref.is_cl_controlled(op):
            k = len(i.clbits) - op.base_op.num_clbits
            cs = op.ctrl_state
            if isinstance(cs, int):
                cs = format(cs % 2**k, f"0{k}b")[::-1]
            if any(cl.get(c, 0) != int(v) for c, v in zip(i.clbits[:k], cs)):
                continue
            leaves(op.base_op, i.qubits, i.clbits[k:], out)
            continue
        leaves(op, i.qubits, i.clbits, out)
    return out


def figures(qc, b):
    counts, d, live, peak, al, de = {}, {}, 0, 0, 0, 0
    for name, qs, cs in walk(qc, b):
        if name == "qb_alloc":
            live += 1
            al += 1
            d[qs[0]] = 0
            peak = max(peak, live)
        elif name == "qb_dealloc":
            live -= 1
            de += 1
        else:
            if name not in ("barrier", "reset"):
                counts[name] = counts.get(name, 0) + 1
            if name in SILENT:
                continue
            t = max([d.get(q, 0) for q in qs]) + 1
            for q in qs:
                d[q] = t
    dep = 0
    # a qubit that is allocated again starts at zero: keep the running maximum instead
    e, cur = {}, 0
    for name, qs, cs in walk(qc, b):
        if name == "qb_alloc":
            e[qs[0]] = 0
        elif name not in SILENT:
            t = max([e.get(q, 0) for q in qs]) + 1
            for q in qs:
                e[q] = t
            cur = max(cur, t)
    return counts, cur, {"total_allocated": al, "total_deallocated": de, "peak_allocations": peak, "finally_allocated": al - de}


def const_lib(p, b):
    """the same program with every measurement result replaced by b"""
    import jax.numpy as jnp

    lib = J.Lib(p)
    old = lib.run

    def run(S, env):
        for s in S:
            if s[0] == "measq":
                qrisp.measure(lib.qb(env, s[2]))
                env[s[1]] = jnp.asarray(b, dtype=int)
            elif s[0] == "measr":
                qrisp.measure(env[s[2]][:])
                env[s[1]] = jnp.asarray((2 ** env.size(s[2]) - 1) * b, dtype=int)
            else:
                old([s], env)

    lib.run = run
    return lib


def main_of(lib, p):
    def main(*args):
        e = lib.main(*args)
        return tuple(e[r] for r in p["regs"])

    return main


def reported(ctx, kind, f, args, b, thr):
    kw = {} if thr == "off" else {"callback_threshold": thr}
    dec = {"counts": count_ops, "depth": depth, "qubits": num_qubits}[kind]
    mb = str(b) if ctx.py.random() < 0.8 else (lambda key: np.bool_(b)) if False else str(b)
    return dec(meas_behavior=mb, **kw)(f)(*args)


def run(ctx, kind, feedback, **kw):
    py = ctx.py
    g = J.Gen(py, meas=feedback, max_q=6, switch=feedback, extra=True, api=py.random() < 0.3, custom=py.random() < 0.3, **kw)
    p = g.program(depth=3, n=py.randint(1, 5))
    a = pick_args(py, p)
    b = py.randrange(2)
    thr = py.choice(["off", "off", None, 0, 50])
    ctx.last = f"{kind} args {a} measurement results {b} callback threshold {thr}: {J.show(p)}"
    lib = const_lib(p, b) if feedback else J.Lib(p)
    if feedback and "switch" in str(p["body"]):
        # circuits cannot be extracted from a multi-way branch: expand it on the reference side only
        p2 = expand(p)
        lib = const_lib(p2, b)
        p_ref = p2
    else:
        p_ref = p
    try:
        out = make_jaspr(main_of(lib, p_ref))(*a).to_qc(*a)
    except Exception as e:
        if "jaxlib" in str(type(e)) or "Tried to" in str(e):
            raise Skip("no circuit for this program")
        raise
    counts, dep, stats = figures(out[-1], b)
    want = {"counts": counts, "depth": dep, "qubits": stats}[kind]
    got = reported(ctx, kind, main_of(J.Lib(p), p), a, b, thr)
    name = {"counts": "gate_counts", "depth": "depth", "qubits": "qubit_statistics"}[kind]
    ctx.observe(name, (J.show(p), tuple(a), b), True)
    if feedback:
        ctx.observe("measurement_dependence", (kind, J.show(p), tuple(a), b), True)
    if thr not in ("off", None):
        ctx.observe("callback_variant", (kind, J.show(p), tuple(a), thr), True)
    if kind == "counts":
        got = {k: int(v) for k, v in got.items() if int(v)}
    ctx.require(got == want, f"reported {kind} differ from the emitted circuit", got=str(got), want=str(want))


def expand(p):
    """multi-way branches as nested two-way branches"""

    def ex(S):
        out = []
        for s in S:
            if s[0] == "switch":
                br = [ex(x) for x in s[2]]
                t = br[-1]
                for i in range(len(br) - 2, -1, -1):
                    t = [("cond", ("==", s[1], ("k", i)), br[i], t)]
                out += t
            elif s[0] == "cond":
                out.append(("cond", s[1], ex(s[2]), ex(s[3])))
            elif s[0] == "fori":
                out.append(s[:5] + (ex(s[5]), s[6]))
            elif s[0] == "while":
                out.append(s[:4] + (ex(s[4]), s[5]))
            else:
                out.append(s)
        return out

    return dict(p, body=ex(p["body"]))


def counts(ctx):
    run(ctx, "counts", False)


def depth_(ctx):
    run(ctx, "depth", False)


def qubits(ctx):
    run(ctx, "qubits", False)


def feedback(ctx):
    run(ctx, ctx.py.choice(["counts", "depth", "qubits"]), True)


def slices(ctx):
    """registers addressed through slices, concatenations and reversed or negative indices"""
    py = ctx.py
    n1, n2 = py.randint(1, 4), py.randint(1, 4)
    ops = []
    for _ in range(py.randint(1, 5)):
        kind = py.choice(["slice", "fuse", "fuse_qubit", "neg", "measure_slice", "anc", "idx", "sub"])
        ops.append((kind, py.randint(-3, 4), py.randint(-3, 5), py.randint(-3, 4), py.randint(-3, 5), py.choice(["x", "h", "t"])))
    ctx.last = f"registers {n1},{n2}: {ops}"

    def main(k1, k2):
        a, b = QuantumVariable(k1), QuantumFloat(k2)
        for kind, i, j, k, l, gname in ops:
            g = getattr(qrisp, gname)
            ii, jj = sorted((max(i, 0), max(j, 0)))
            kk, ll = sorted((max(k, 0), max(l, 0)))
            if kind == "slice":
                g(a[ii:jj])
            elif kind == "neg":
                g(a[i:j])
                qrisp.z(b[-1])
            elif kind == "idx":
                qrisp.cx(a[ii % n1], b[kk % n2])
            elif kind == "sub":
                t = b[kk:ll]
                g(t)
                for q in jrange(t.size):
                    qrisp.cx(a[0], t[q])
            elif kind == "fuse":
                t = a[ii:jj] + b[kk:ll]
                g(t)
                for q in jrange(t.size):
                    qrisp.x(t[q])
            elif kind == "fuse_qubit":
                t = (a[:] + b[0]) if i > 0 else (b[0] + a[:])
                g(t)
                qrisp.z(t[t.size - 1])
            elif kind == "measure_slice":
                qrisp.measure(a[ii:jj])
            elif kind == "anc":
                c = QuantumVariable(k1 + 1)
                g(c[ii:jj])
                g(c[ii:jj])
                if gname == "t":
                    qrisp.measure(c[0])
                c.delete()
        return a, b

    try:
        out = make_jaspr(main)(n1, n2).to_qc(n1, n2)
    except Exception as e:
        if ctx.py.random() < 2 and isinstance(e, (IndexError,)):
            raise Skip("index out of range")
        raise
    for kind, dec in (("counts", count_ops), ("depth", depth), ("qubits", num_qubits)):
        c, d, s = figures(out[-1], 0)
        want = {"counts": c, "depth": d, "qubits": s}[kind]
        got = dec(meas_behavior="0")(main)(n1, n2)
        if kind == "counts":
            got = {k: int(v) for k, v in got.items() if int(v)}
        name = {"counts": "gate_counts", "depth": "depth", "qubits": "qubit_statistics"}[kind]
        ctx.observe(name, (n1, n2, str(ops)), True)
        ctx.require(got == want, f"reported {kind} differ from the emitted circuit for sliced registers", got=str(got), want=str(want))


def simulated(ctx):
    """counts collected while simulating agree with the emitted circuit for programs without feedback"""
    py = ctx.py
    g = J.Gen(py, meas=False, max_q=5, switch=False, extra=True)
    p = g.program(depth=3, n=py.randint(1, 4))
    a = pick_args(py, p)
    ctx.last = f"simulated counts args {a}: {J.show(p)}"
    out = make_jaspr(main_of(J.Lib(p), p))(*a).to_qc(*a)
    if any(i.op.name == "measure" for i in out[-1].data):
        raise Skip("counts depend on random outcomes")
    # these counts are by emitted gate, not by its constituents
    want = {}
    for i in out[-1].data:
        if i.op.name not in ("qb_alloc", "qb_dealloc", "reset", "barrier"):
            want[i.op.name] = want.get(i.op.name, 0) + 1

    def main(*args):
        e = J.Lib(p).main(*args)
        return measure(e[p["regs"][0]])

    n = len(out[0]) if isinstance(out[0], (list, tuple)) else None
    got = count_ops(meas_behavior="sim")(main)(*a)
    got = {k: int(v) for k, v in got.items() if int(v)}
    got.pop("measure", None)
    want.pop("measure", None)
    ctx.observe("simulated_counts", (J.show(p), tuple(a)), True)
    ctx.require(got == want, "counts collected during simulation differ from the emitted circuit", got=str(got), want=str(want))


def kernel(ctx):
    """library arithmetic and primitives"""
    py = ctx.py
    n = py.randint(1, 5)
    k = py.randrange(2**n)
    what = py.choice(["add_int", "add", "sub", "cadd", "iadd_inv", "mul", "lt", "qft", "qft_inv", "mcx", "swaptest", "loop_add"])
    b = py.randrange(2)
    ctx.last = f"{what} n={n} k={k} measurement results {b}"

    def main(n, k):
        a = QuantumFloat(n)
        c = QuantumFloat(n)
        qrisp.h(a[0])
        if what == "add_int":
            a += k
        elif what == "add":
            a += c
        elif what == "sub":
            a -= c
        elif what == "cadd":
            q = QuantumBool()
            qrisp.h(q[0])
            with qrisp.control(q[0]):
                a += c
        elif what == "iadd_inv":
            with qrisp.invert():
                a += c
        elif what == "mul":
            d = a * c
            return d
        elif what == "lt":
            q = a < c
            return q
        elif what == "qft":
            qrisp.QFT(a)
        elif what == "qft_inv":
            qrisp.QFT(a, inv=True)
        elif what == "mcx":
            q = QuantumBool()
            qrisp.mcx(a, q[0], ctrl_state=k)
            return q
        elif what == "swaptest":
            q = QuantumBool()
            with qrisp.control(q[0]):
                for i in jrange(n):
                    qrisp.swap(a[i], c[i])
        elif what == "loop_add":
            for i in jrange(n):
                c += a
        return a

    out = make_jaspr(main)(n, k).to_qc(n, k)
    qc = out[-1] if isinstance(out, (tuple, list)) else out
    c, d, s = figures(qc, b)
    for kind, dec, want in (("counts", count_ops, c), ("depth", depth, d), ("qubits", num_qubits, s)):
        got = dec(meas_behavior=str(b))(main)(n, k)
        if kind == "counts":
            got = {x: int(v) for x, v in got.items() if int(v)}
        ctx.observe("library_counts", (what, n, k, b, kind), True)
        ctx.require(got == want, f"reported {kind} of {what} differ from the emitted circuit", got=str(got), want=str(want))


FAMILIES = {"counts": counts, "depth": depth_, "qubits": qubits, "feedback": feedback, "slices": slices, "simulated": simulated, "kernel": kernel}
