PROPERTY = "C33"
RULE = (
    "one evaluation = one random program exported to the intermediate representation, whose operations were executed one after the other by an own interpreter for given arguments, following every measurement outcome of nonzero probability, and "
    "whose results (outcome probabilities, amplitudes, classical values, parities) were compared with an independent interpreter of the program; distinct = distinct (route, program, arguments)"
)
PLAN = {
    "quick": {"outcomes": 56, "amplitudes": 56, "classical": 72, "arithmetic": 36, "parities": 32, "transformed": 32, "comparisons": 16, "widths": 24},
    "thorough": {"outcomes": 700, "amplitudes": 700, "classical": 900, "arithmetic": 360, "parities": 350, "transformed": 350, "comparisons": 64, "widths": 240},
}
REQUIRED_MONITORS = ["exported_distribution", "exported_state", "exported_values", "exported_arithmetic", "exported_parities", "exported_transformed", "exported_comparisons", "exported_widths", "lowered_form", "plain_form", "exported_text"]
ASSUMPTIONS = ["the operations of the stablehlo, arith, math, tensor, linalg, scf and func dialects mean what their specification says", "programs whose export contains operations the interpreter does not know are skipped"]
CASE_TIMEOUT = 200
# --- end of plan ---
import math
import re

import numpy as np

from vlib import jprog as J, mlirx as M, ref, qs as Q
from vlib.harness import Skip, Violation

import jax
import jax.numpy as jnp
import qrisp
from qrisp import QuantumVariable, QuantumFloat, QuantumBool, measure, h, x, rx, control
from qrisp.jasp import make_jaspr, jrange, q_cond, q_switch, q_while_loop, q_fori_loop, parity


def pick_args(py, prog):
    return [py.randrange(hi + 1) for _, hi in prog["args"]]


def outcome_main(lib, p):
    def main(*args):
        e = lib.main(*args)
        return tuple([measure(e[r][:]) for r in p["regs"]] + [e[c] for c in p["c"]])

    return main


GATE = re.compile(r'jasp\.quantum_gate "([^"]*)" \(([^)]*)\) , %')


def export(ctx, jaspr, low, key):
    mod = jaspr.to_mlir(lower_stablehlo=low)
    ctx.observe("lowered_form" if low else "plain_form", key, True)
    want = [(op.gate_type.data, len(op.gate_params)) for op in mod.walk() if op.name == "jasp.quantum_gate"]
    text = str(mod)
    if not low and not text.startswith('"'):
        got = [(g, len([q for q in a.split(",") if q.strip()])) for g, a in GATE.findall(text)]
        ctx.observe("exported_text", key, len(want) > 0)
        ctx.require(sorted(got) == sorted(want), "the text of the exported module does not show the gates it consists of", got=str(got[:8]), want=str(want[:8]))
    return mod


def keyed(vals):
    out = []
    for v in vals:
        v = np.asarray(v)
        out += [int(t) if v.dtype.kind in "biu" else (round(float(t), 7) + 0.0 if math.isfinite(t) else str(float(t))) for t in v.ravel()]
    return tuple(out)


def distribution(res):
    d = {}
    for pr, vals, _ in res:
        k = keyed(vals)
        d[k] = d.get(k, 0) + pr
    return d


def compare(ctx, got, want, what):
    for k in set(got) | set(want):
        ctx.require(abs(got.get(k, 0) - want.get(k, 0)) < 1e-5, f"{what}: outcome {k} has probability {got.get(k, 0):.5f}, in the program {want.get(k, 0):.5f}")


def form(low):
    return "lowered" if low else "plain"


def outcomes(ctx):
    py = ctx.py
    g = J.Gen(py, meas=True, max_q=6, clifford=py.random() < 0.3, classical=py.random() < 0.2, extra=py.random() < 0.4, api=py.random() < 0.3, intctrl=True, custom=py.random() < 0.2)
    p = g.program(depth=3)
    a0 = pick_args(py, p)
    ctx.last = J.show(p)
    jaspr = make_jaspr(outcome_main(J.Lib(p), p))(*a0)
    low = bool(ctx.index % 2)
    mod = export(ctx, jaspr, low, J.show(p))
    for _ in range(2):
        a = pick_args(py, p)
        ctx.last = f"args {a}: {J.show(p)}"
        R = J.Ref(p)
        want = R.distribution(R.main(a), p["regs"], p["c"])
        res, used = M.paths(mod, a)
        ctx.observe("exported_distribution", (low, J.show(p), tuple(a)), len(want) > 1)
        compare(ctx, distribution(res), want, f"{form(low)} export executed with arguments {a}")


def amplitudes(ctx):
    py = ctx.py
    g = J.Gen(py, max_q=6, extra=py.random() < 0.3, api=py.random() < 0.3, custom=py.random() < 0.2)
    p = g.program(depth=3)
    a0 = pick_args(py, p)
    ctx.last = J.show(p)
    lib = J.Lib(p)

    def main(*args):
        e = lib.main(*args)
        return tuple(e[r] for r in p["regs"])

    low = bool(ctx.index % 2)
    mod = export(ctx, make_jaspr(main)(*a0), low, J.show(p))
    for _ in range(2):
        a = pick_args(py, p)
        ctx.last = f"args {a}: {J.show(p)}"
        st, env = J.Ref(p).main(a)[0]
        want = J.Ref(p).amplitudes(st, [env[r] for r in p["regs"]])
        res, _ = M.paths(mod, a)
        # uncomputation by measurement leaves the same state whatever it measures
        ctx.close(abs(sum(pr for pr, _, _ in res) - 1), 1e-6, "probabilities of the executions do not sum to one")
        for pr, vals, st2 in res:
            regs = [v[1] for v in vals if isinstance(v, tuple) and v[0] == "array"]
            ctx.require([len(r) for r in regs] == [len(env[r]) for r in p["regs"]], "registers of the exported program have other sizes", got=str([len(r) for r in regs]))
            got = {k: v / math.sqrt(pr) for k, v in J.Ref(p).amplitudes(st2, regs).items()}
            ctx.observe("exported_state", (low, J.show(p), tuple(a)), True)
            ctx.close(Q.amp_diff(got, want, phase=True), 1e-6, f"{form(low)} export executed with arguments {a}: state differs from the program")


# ---------------------------------------------------------------- classical values
def int_expr(py, depth):
    """function of (module, dictionary of values)"""
    if depth == 0:
        k = py.randrange(4)
        if k == 0:
            c = py.choice([0, 1, 1, 2, 3, 5, -1, -2])
            return str(c), lambda xp, v: xp.asarray(c, dtype=xp.int64)
        n = py.choice(["k", "m", "m", "k2"])
        return n, lambda xp, v: v[n]
    k = py.randrange(9)
    if k < 4:
        sym, f = py.choice([("+", lambda a, b: a + b), ("-", lambda a, b: a - b), ("*", lambda a, b: a * b), ("^", lambda a, b: a ^ b), ("&", lambda a, b: a & b), ("|", lambda a, b: a | b)])
        (ta, a), (tb, b) = int_expr(py, depth - 1), int_expr(py, depth - 1)
        return f"({ta}{sym}{tb})", lambda xp, v: f(a(xp, v), b(xp, v))
    if k == 4:
        c = py.choice([1, 2, 3, 5])
        ta, a = int_expr(py, depth - 1)
        sym, f = py.choice([("//", lambda a: a // c), ("%", lambda a: a % c), (">>", lambda a: a >> c), ("<<", lambda a: a << c)])
        return f"({ta}{sym}{c})", lambda xp, v: f(a(xp, v))
    if k == 5:
        tb, b = bool_expr(py, depth - 1)
        (t1, e1), (t2, e2) = int_expr(py, depth - 1), int_expr(py, depth - 1)
        return f"where({tb},{t1},{t2})", lambda xp, v: xp.where(b(xp, v), e1(xp, v), e2(xp, v))
    if k == 6:
        tb, b = bool_expr(py, depth - 1)
        return f"int({tb})", lambda xp, v: b(xp, v).astype(xp.int64)
    if k == 7:
        (t1, e1), (t2, e2) = int_expr(py, depth - 1), int_expr(py, depth - 1)
        nm, f = py.choice([("max", lambda xp, a, b: xp.maximum(a, b)), ("min", lambda xp, a, b: xp.minimum(a, b))])
        return f"{nm}({t1},{t2})", lambda xp, v: f(xp, e1(xp, v), e2(xp, v))
    c = [py.randint(-4, 6) for _ in range(py.choice([3, 4]))]
    ta, a = int_expr(py, depth - 1)
    return f"{c}[{ta}]", lambda xp, v: xp.asarray(c, dtype=xp.int64)[a(xp, v) % len(c)]


CMPS = [("==", lambda a, b: a == b), ("!=", lambda a, b: a != b), ("<", lambda a, b: a < b), ("<=", lambda a, b: a <= b), (">", lambda a, b: a > b), (">=", lambda a, b: a >= b)]


def bool_expr(py, depth):
    if depth <= 0:
        n = py.choice(["b", "b2"])
        return n, lambda xp, v: v[n]
    k = py.randrange(7)
    if k < 3:
        # the numerical value of a truth value against a small constant
        tb, b = bool_expr(py, depth - 1)
        c = py.choice([0, 0, 1, 1, 2, -1])
        sym, f = py.choice(CMPS)
        ty = py.choice(["int64", "int64", "int32", "uint32", "uint8"])
        if ty.startswith("u"):
            c = abs(c)
        side = py.random() < 0.8

        def fn(xp, v):
            a = b(xp, v).astype(getattr(xp, ty))
            k = xp.asarray(c, dtype=getattr(xp, ty))
            return f(a, k) if side else f(k, a)

        return f"({ty}({tb}){sym}{c})" if side else f"({c}{sym}{ty}({tb}))", fn
    if k == 3:
        (t1, e1), (t2, e2) = int_expr(py, depth - 1), int_expr(py, depth - 1)
        sym, f = py.choice(CMPS)
        return f"({t1}{sym}{t2})", lambda xp, v: f(e1(xp, v), e2(xp, v))
    if k == 4:
        (t1, e1), (t2, e2) = bool_expr(py, depth - 1), bool_expr(py, depth - 1)
        sym, f = py.choice([("&", lambda a, b: a & b), ("|", lambda a, b: a | b), ("^", lambda a, b: a ^ b)])
        return f"({t1}{sym}{t2})", lambda xp, v: f(e1(xp, v), e2(xp, v))
    if k == 5:
        t1, e1 = bool_expr(py, depth - 1)
        return f"~{t1}", lambda xp, v: ~e1(xp, v)
    t1, e1 = float_expr(py, depth - 1)
    sym, f = py.choice(CMPS)
    c = py.choice([0.0, 0.5, 1.25, -0.75]) + 0.013
    return f"({t1}{sym}{c})", lambda xp, v: f(e1(xp, v), c)


def float_expr(py, depth):
    if depth <= 0:
        ta, a = int_expr(py, 0)
        if py.random() < 0.2:
            c = py.choice([2.0**24, 12345678.0, 2.0**40, -(2.0**33)])
            return f"({ta}*{c}*{1 / c})", lambda xp, v: a(xp, v) * c * (1 / c)
        c = py.choice([0.5, 0.25, 1.5, -0.7])
        return f"({ta}*{c})", lambda xp, v: a(xp, v) * c
    k = py.randrange(4)
    if k < 2:
        (ta, a), (tb, b) = float_expr(py, depth - 1), float_expr(py, depth - 1)
        sym, f = py.choice([("+", lambda a, b: a + b), ("-", lambda a, b: a - b), ("*", lambda a, b: a * b)])
        return f"({ta}{sym}{tb})", lambda xp, v: f(a(xp, v), b(xp, v))
    ta, a = float_expr(py, depth - 1)
    nm, f = py.choice([("sin", lambda xp, a: xp.sin(a)), ("cos", lambda xp, a: xp.cos(a)), ("neg", lambda xp, a: -a), ("abs", lambda xp, a: xp.abs(a)), ("half", lambda xp, a: a / 2)])
    return f"{nm}({ta})", lambda xp, v: f(xp, a(xp, v))


def vector(py):
    c = [py.randint(-3, 5) for _ in range(py.choice([2, 3]))]
    (ta, a), (tb, b) = int_expr(py, 1), int_expr(py, 1)
    return f"({c}*{ta}+{tb})", lambda xp, v: xp.asarray(c, dtype=xp.int64) * a(xp, v) + b(xp, v)


def classical(ctx):
    """values computed from measured bits and arguments, used as results, conditions and angles"""
    py = ctx.py
    n = 3
    mask = py.randrange(1, 8)
    flip = py.randrange(8)
    outs = []
    for _ in range(py.randint(2, 4)):
        outs.append(py.choice([lambda: int_expr(py, 2), lambda: bool_expr(py, 3), lambda: float_expr(py, 2), lambda: bool_expr(py, 2), lambda: vector(py)])())
    tc, cond = bool_expr(py, 3)
    ta, ang = float_expr(py, 1)
    tn, num = int_expr(py, 1)
    style = py.randrange(4)
    ctx.last = f"h on {mask:03b}, x on {flip:03b}, results {[t for t, _ in outs]}, condition {tc}, angle {ta}, number {tn}, style {style}"

    def none(q):
        pass

    def one(q):
        x(q[0])

    def other(q):
        x(q[1])

    def main(k, k2):
        q = QuantumVariable(n)
        r = QuantumVariable(2)
        for i in range(n):
            if mask >> i & 1:
                h(q[i])
            if flip >> i & 1:
                x(q[i])
        b = measure(q[0])
        b2 = measure(q[1])
        m = measure(q[:])
        v = {"k": k, "k2": k2, "b": b, "b2": b2, "m": m}
        c = cond(jnp, v)
        if style == 0:
            with control(c):
                x(r[0])
        elif style == 1:
            q_cond(c, one, none, r)
        elif style == 2:
            q_switch(num(jnp, v) % 3, [none, one, other], r)
        else:
            for i in jrange(num(jnp, v) % 4):
                x(r[0])
        rx(ang(jnp, v), r[1])
        return (measure(r[:]), m, b, b2) + tuple(f(jnp, v) for _, f in outs)

    low = bool(ctx.index % 2)
    mod = export(ctx, make_jaspr(main)(1, 2), low, ctx.last)
    for _ in range(2):
        k, k2 = py.randint(-3, 6), py.randint(0, 5)
        want = {}
        sup = [m for m in range(2**n) if not ((m ^ flip) & ~mask)]
        for m in sup:
            v = {"k": np.int64(k), "k2": np.int64(k2), "b": np.bool_(m & 1), "b2": np.bool_(m >> 1 & 1), "m": np.int64(m)}
            c = bool(cond(np, v))
            t = float(ang(np, v))
            num_ = int(num(np, v))
            r0, r1 = 0, 0
            if style < 2:
                r0 = int(c)
            elif style == 2:
                r0, r1 = int(num_ % 3 == 1), int(num_ % 3 == 2)
            else:
                r0 = (num_ % 4) & 1
            s = math.sin(t / 2) ** 2
            for bit, pr in ((r1, 1 - s), (1 - r1, s)):
                if pr > 1e-12:
                    key = (r0 + 2 * bit,) + keyed([v["m"], v["b"], v["b2"]] + [f(np, v) for _, f in outs])
                    want[key] = want.get(key, 0) + pr / len(sup)
        res, _ = M.paths(mod, [k, k2])
        ctx.observe("exported_values", (low, ctx.last, k, k2), True)
        compare(ctx, distribution(res), want, f"{form(low)} export executed with arguments {k}, {k2}")


# ---------------------------------------------------------------- library functions
def arithmetic(ctx):
    py = ctx.py
    na, nb = py.randint(1, 3), py.randint(1, 3)
    kind = py.choice(["iadd", "iadd_k", "isub", "add_qv", "eq", "lt", "gt_k", "mul", "mcx", "mcp", "swap", "qft", "cond_add"])
    k = py.randrange(2**na)
    sa, sb = py.random() < 0.6, py.random() < 0.6
    va, vb = py.randrange(2**na), py.randrange(2**nb)
    ctx.last = f"{kind} with sizes {na}, {nb}, constant {k}, superposed {sa} {sb}, values {va} {vb}"

    def main(va, vb):
        a, b = QuantumFloat(na), QuantumFloat(nb)
        a[:] = va
        b[:] = vb
        if sa:
            h(a[0])
        if sb:
            h(b[nb - 1])
        r = []
        if kind == "iadd":
            a += b
        elif kind == "iadd_k":
            a += k
        elif kind == "isub":
            a -= b
        elif kind == "add_qv":
            r = [a + b]
        elif kind == "eq":
            r = [a == b]
        elif kind == "lt":
            r = [a < b]
        elif kind == "gt_k":
            r = [a > k]
        elif kind == "mul":
            r = [a * b]
        elif kind == "mcx":
            t = QuantumBool()
            qrisp.mcx(list(a[i] for i in range(na)), t[0], ctrl_state=k)
            r = [t]
        elif kind == "mcp":
            t = QuantumBool()
            h(t[0])
            qrisp.mcp(math.pi, [a[i] for i in range(na)] + [t[0]])
            h(t[0])
            r = [t]
        elif kind == "swap":
            qrisp.swap(a[0], b[0])
        elif kind == "qft":
            qrisp.QFT(a)
            qrisp.QFT(a, inv=True)
        elif kind == "cond_add":
            with control(b[0]):
                a += k
        return tuple(measure(q[:]) for q in [a, b] + r)

    low = bool(ctx.index % 2)
    try:
        jaspr = make_jaspr(main)(0, 0)
    except Exception as e:
        raise Skip(f"not traced: {type(e).__name__}")
    mod = export(ctx, jaspr, low, ctx.last)
    want = {}
    xs = [va, va ^ 1] if sa else [va]
    ys = [vb, vb ^ 1 << nb - 1] if sb else [vb]
    for xx in xs:
        for yy in ys:
            A, B, r = xx, yy, ()
            N = 2**na
            if kind == "iadd":
                A = (xx + yy) % N
            elif kind == "iadd_k":
                A = (xx + k) % N
            elif kind == "isub":
                A = (xx - yy) % N
            elif kind == "add_qv":
                r = ((xx + yy) % N,)  # traced sums have the size of the first summand
            elif kind == "eq":
                r = (int(xx == yy),)
            elif kind == "lt":
                r = (int(xx < yy),)
            elif kind == "gt_k":
                r = (int(xx > k),)
            elif kind == "mul":
                r = (xx * yy,)
            elif kind == "mcx":
                r = (int(xx == k),)
            elif kind == "mcp":
                r = (int(xx == N - 1),)
            elif kind == "swap":
                A = xx & ~1 | yy & 1
                B = yy & ~1 | xx & 1
            elif kind == "cond_add" and yy & 1:
                A = (xx + k) % N
            key = (A, B) + r
            want[key] = want.get(key, 0) + 1 / len(xs) / len(ys)
    res, _ = M.paths(mod, [va, vb])
    ctx.observe("exported_arithmetic", (low, ctx.last), True)
    compare(ctx, distribution(res), want, f"{form(low)} export of {kind}")


def parities(ctx):
    py = ctx.py
    n = py.randint(2, 4)
    mask = py.randrange(1, 2**n)
    groups = []
    for _ in range(py.randint(1, 3)):
        g = py.sample(range(n), py.randint(1, n))
        groups.append((g, py.randrange(2), py.random() < 0.5))
    use = py.random() < 0.5
    ctx.last = f"{n} qubits, h on {mask:b}, parities (bits, expectation, observable) {groups}, used {use}"

    def main():
        q = QuantumVariable(n)
        for i in range(n):
            if mask >> i & 1:
                h(q[i])
        ms = [measure(q[i]) for i in range(n)]
        ps = [parity(*[ms[i] for i in g], expectation=e, observable=o) for g, e, o in groups]
        r = QuantumBool()
        if use:
            with control(ps[0]):
                x(r[0])
        return (measure(r[0]),) + tuple(ms) + tuple(ps)

    low = bool(ctx.index % 2)
    mod = export(ctx, make_jaspr(main)(), low, ctx.last)
    seen = [(len(op.measurements), int(op.expectation.value.data), int(op.observable.value.data) & 1) for op in M.main_of(mod).walk() if op.name == "jasp.parity"]
    ctx.require(seen == [(len(g), e, int(o)) for g, e, o in groups], "the parities of the export have other data", got=str(seen))
    if not low and not str(mod).startswith('"'):
        shown = re.findall(r"jasp\.parity ([^{]*)\{expectation = (-?\d+)", str(mod))
        every = [(len(op.measurements), int(op.expectation.value.data)) for op in mod.walk() if op.name == "jasp.parity"]
        ctx.require([(len(a.split(",")), int(e)) for a, e in shown] == every, "the text of the exported module shows other parities", got=str(shown))
    want = {}
    for m in range(2**n):
        if m & ~mask:
            continue
        ps = [(sum(m >> i & 1 for i in g) + e) % 2 for g, e, o in groups]
        key = (ps[0] if use else 0,) + tuple(m >> i & 1 for i in range(n)) + tuple(ps)
        want[key] = want.get(key, 0) + 1 / 2 ** bin(mask).count("1")
    res, _ = M.paths(mod, [])
    ctx.observe("exported_parities", (low, ctx.last), True)
    compare(ctx, distribution(res), want, f"{form(low)} export")


def transformed(ctx):
    """export of programs that were inverted or controlled as a whole, called by a surrounding program"""
    py = ctx.py
    g = J.Gen(py, max_q=4, nargs=py.randint(0, 1), dynamic=False, flow=False, switch=False, ancilla=py.random() < 0.3)
    p = g.program(depth=2)
    a = pick_args(py, p)
    how = py.choice(["inverse", "control", "both"])
    lib = J.Lib(p)
    ctx.last = f"{how}, args {a}: {J.show(p)}"
    st, env = J.Ref(p).main(a)[0]
    regs = [env[r] for r in p["regs"]]
    sizes = [len(r) for r in regs]

    def core(args, *qvs):
        e = J.Env({n: v for (n, _), v in zip(p["args"], args)})
        for (name, kind, size, hi), q in zip(p["decl"], qvs):
            e[name] = q
        lib.run(p["body"], e)

    def main(*args):
        qvs = [lib.make(kind, size[1] if size[0] == "k" else size) for (name, kind, size, hi) in p["decl"]]
        c = QuantumBool()
        for q in qvs:
            h(q[0])
        if how != "inverse":
            qrisp.ry(1.1, c[0])
        if how == "inverse":
            with qrisp.invert():
                core(args, *qvs)
        elif how == "control":
            with control(c[0]):
                core(args, *qvs)
        else:
            with control(c[0]):
                with qrisp.invert():
                    core(args, *qvs)
        return tuple(qvs) + (c,)

    # reference
    R = J.Ref(p)
    e = J.Env({n: v for (n, _), v in zip(p["args"], a)})
    s = J.State()
    for name, kind, size, hi in p["decl"]:
        e[name] = R.new(J.ev(size, e) if isinstance(size, tuple) else size)
        for i in e[name]:
            s.alloc(i)
    (c,) = R.new(1)
    s.alloc(c)
    order = [e[d[0]] for d in p["decl"]] + [[c]]
    for q in order[:-1]:
        s.apply(ref.H, [q[0]], [])
    if how != "inverse":
        s.apply(ref.ry_mat(1.1), [c], [])
    evs = R.flat(p["body"], e)
    if how != "control":
        evs = R.inverse(evs)
    if how != "inverse":
        evs = R.controlled(evs, [(c, 1)])
    R.apply(s, evs)
    want = R.amplitudes(s, order)
    low = bool(ctx.index % 2)
    mod = export(ctx, make_jaspr(main)(*a), low, ctx.last)
    res, _ = M.paths(mod, a)
    for pr, vals, st2 in res:
        got = {k: v / math.sqrt(pr) for k, v in R.amplitudes(st2, [v[1] for v in vals if isinstance(v, tuple) and v[0] == "array"]).items()}
        ctx.observe("exported_transformed", (low, ctx.last), True)
        ctx.close(Q.amp_diff(got, want, phase=True), 1e-6, f"{form(low)} export of a program under {how}: state differs")


TYPES = ["int64", "int32", "uint32", "uint8", "uint64", "int8"]


def comparisons(ctx):
    """every comparison of the number of a truth value with every small constant"""
    py = ctx.py
    ty = TYPES[ctx.index // 2 % len(TYPES)]
    side = ctx.index // 12 % 4 == 0 or py.random() < 0.5
    table = [(c, sym, f) for c in ([0, 1, 2] if ty[0] == "u" else [0, 1, 2, -1]) for sym, f in CMPS]
    py.shuffle(table)
    flip = py.random() < 0.5
    used = py.sample(range(len(table)), 3)
    negate = py.random() < 0.3
    ctx.last = f"{ty} of a {'negated ' if negate else ''}truth value {'against' if side else 'behind'} constants, conditions {[(table[i][1], table[i][0]) for i in used]}, flip {flip}"

    def values(xp, b):
        if negate:
            b = ~b
        a = b.astype(getattr(xp, ty))
        out = []
        for c, sym, f in table:
            k = xp.asarray(c, dtype=getattr(xp, ty))
            out.append(f(a, k) if side else f(k, a))
        return out

    def main():
        q = QuantumVariable(1)
        r = QuantumVariable(3)
        h(q[0])
        if flip:
            x(q[0])
        b = measure(q[0])
        vs = values(jnp, b)
        for j, i in enumerate(used):
            with control(vs[i]):
                x(r[j])
        return (b, measure(r[:])) + tuple(vs)

    low = bool(ctx.index % 2)
    mod = export(ctx, make_jaspr(main)(), low, ctx.last)
    want = {}
    for b in (0, 1):
        vs = [int(v) for v in values(np, np.bool_(b))]
        want[(b, sum(vs[i] << j for j, i in enumerate(used))) + tuple(vs)] = 0.5
    res, _ = M.paths(mod, [])
    ctx.observe("exported_comparisons", (low, ctx.last), True)
    compare(ctx, distribution(res), want, f"{form(low)} export")


def widths(ctx):
    """integers of every width and signedness, over their whole range"""
    py = ctx.py
    ty = py.choice(["uint8", "uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64"])
    bits = int(ty.lstrip("uint"))
    lo, hi = (0, 2**bits - 1) if ty[0] == "u" else (-(2 ** (bits - 1)), 2 ** (bits - 1) - 1)
    hi = min(hi, 2**63 - 1)
    c = py.choice([1, 2, 3, 5, hi // 2, hi // 3])
    sh = py.randrange(bits)
    two = [("max", lambda xp, a, k: xp.maximum(a, k)), ("min", lambda xp, a, k: xp.minimum(a, k)), ("//", lambda xp, a, k: a // k), ("%", lambda xp, a, k: a % k), ("+", lambda xp, a, k: a + k), ("*", lambda xp, a, k: a * k), ("-", lambda xp, a, k: a - k), ("^", lambda xp, a, k: a ^ k), ("&", lambda xp, a, k: a & k)]
    ops = py.sample(two, 4) + [(sym, (lambda f: lambda xp, a, k: f(a, k))(f)) for sym, f in py.sample(CMPS, 3)] + [(">>", lambda xp, a, k: a >> xp.asarray(sh, dtype=getattr(xp, ty))), ("float", lambda xp, a, k: a.astype(xp.float64) / 2.0**bits)]
    many = [py.choice([0.5, 3.0, -0.1, 2.0**32, 12345678.0, -(2.0**40), math.inf, -math.inf, 1 / 3, 1e300]) for _ in range(py.choice([1, 2, 3]))]
    ops.append((f"constants {many}", lambda xp, a, k: xp.asarray(many, dtype=xp.float64) * (1.0 + 0.5 * (a > k))))
    ctx.last = f"{ty} against {c}, shift {sh}: {[o[0] for o in ops]}"

    def values(xp, k):
        a = k.astype(getattr(xp, ty))
        kk = xp.asarray(c, dtype=getattr(xp, ty))
        out = []
        for _, f in ops:
            v = f(xp, a, kk)
            out.append(v if v.dtype in (bool, np.float64) else (v >> xp.asarray(1, dtype=v.dtype)).astype(xp.int64) if bits == 64 and ty[0] == "u" else v.astype(xp.int64))
        return out

    def main(k):
        q = QuantumVariable(1)
        vs = values(jnp, k)
        with control(vs[4]):
            x(q[0])
        return (measure(q[0]),) + tuple(vs)

    low = bool(ctx.index % 2)
    mod = export(ctx, make_jaspr(main)(1), low, ctx.last)
    for _ in range(4):
        k = py.choice([lo, hi, hi // 2 + 1, hi // 2, py.randint(lo, hi), py.randint(lo, hi), c, 0])
        with np.errstate(all="ignore"):
            vs = values(np, np.int64(k))
        want = {keyed([vs[4]] + vs): 1.0}
        res, _ = M.paths(mod, [k])
        ctx.observe("exported_widths", (low, ctx.last, k), True)
        compare(ctx, distribution(res), want, f"{form(low)} export executed with argument {k}")


FAMILIES = {"outcomes": outcomes, "amplitudes": amplitudes, "classical": classical, "arithmetic": arithmetic, "parities": parities, "transformed": transformed, "comparisons": comparisons, "widths": widths}
