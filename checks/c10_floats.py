PROPERTY = "C10"
RULE = (
    "one evaluation = the exact action of one arithmetic expression on a random complex superposition of fixed point operand values, compared with exact rational arithmetic in the "
    "number formats of operands and result (operands unchanged, phases kept, ancillas clean); distinct = distinct (expression, formats, input set)"
)
PLAN = {
    "quick": {"binary": 150, "scalar": 110, "compare": 170, "division": 50, "tools": 60, "inplace": 90, "polynomial": 70, "nested": 50, "traced": 40, "controlled": 110},
    "thorough": {"binary": 1500, "scalar": 1200, "compare": 1700, "division": 400, "tools": 600, "inplace": 900, "polynomial": 700, "nested": 500, "traced": 350, "controlled": 1000},
}
REQUIRED_MONITORS = ["controlled", "binary", "scalar", "comparison", "division", "tool", "inplace", "polynomial", "nested", "traced"]
ASSUMPTIONS = [
    "results of adding a classical number wrap around in the format of the result register; results of float-float operations are sized so that nothing wraps",
    "division by zero is excluded",
]
CASE_TIMEOUT = 200
# --- end of plan ---
from fractions import Fraction as Fr
import math

import numpy as np

from vlib import qs as Q
from vlib.harness import Skip, Violation

import qrisp
from qrisp import QuantumFloat, QuantumBool


def fmt(q):
    return (int(q.size), int(q.exponent), bool(q.signed))


def val(raw, f):
    n, e, s = f
    if s and raw >> (n - 1):
        raw -= 1 << n
    return Fr(raw) * Fr(2) ** e


def raw(v, f):
    """raw register content of value v; None if v is not on the grid of the format"""
    n, e, s = f
    k = v / Fr(2) ** e
    if k.denominator != 1:
        return None
    return int(k) % (1 << n)


def new(py, hi=3, signed=None, exps=(-2, -1, 0, 0, 0, 1)):
    s = py.random() < 0.4 if signed is None else signed
    return QuantumFloat(py.randint(1, hi), py.choice(exps), signed=s)


def desc(q):
    n, e, s = fmt(q) if not isinstance(q, tuple) else q
    return f"QuantumFloat({n - s},{e}{',signed' if s else ''})"


def judge(ctx, qc, ins, outs, f, monitor, what, ph=None, terms=24, domain=None, phase=True):
    """ins: registers (lists of qubits) receiving the input values, outs: registers read at the end; f(*raw inputs) -> raw outputs"""
    sizes = [len(g) for g in ins]
    if hasattr(qc, "compile"):
        merge_all([q for g in list(ins) + list(outs) for q in g])
    vals, amps = Q.random_input(ctx.rng, ctx.py, sizes, terms, domain)
    if not len(vals):
        raise Skip("no admissible input")
    exp = Q.permuted(vals, amps, f, ph)
    got = Q.amplitudes(qc, outs, Q.rows_for(qc, ins, vals, amps), what=what)
    ctx.observe(monitor, (what, tuple(vals)), True)
    d = Q.amp_diff(got, exp, phase=phase)
    if d > 1e-4:
        bad = sorted((k for k in set(got) | set(exp) if abs(abs(got.get(k, 0)) - abs(exp.get(k, 0))) > 1e-4), key=str)[:4]
        ctx.require(False, f"{what}: deviation {d:.3g}; registers (got,expected) " + ", ".join(f"{k}:({got.get(k, 0):.2f},{exp.get(k, 0):.2f})" for k in bad))


def merge_all(qubits):
    """operands that never met are still in different sessions"""
    ss = []
    for q in qubits:
        s = q.qs() if callable(q.qs) else q.qs
        if all(s is not t for t in ss):
            ss.append(s)
    if len(ss) > 1:
        qrisp.merge(ss)


def exact(ctx, v, f, what):
    r = raw(v, f)
    ctx.require(r is not None and val(r, f) == v, f"{what}: the result {v} does not fit the format (bits, exponent, signed) {f} of the result register")
    return r


def call(ctx, fn, allowed=()):
    """explicit refusals (plain Exception / ValueError raised with a message) are no results"""
    try:
        return fn()
    except Exception as ex:
        if type(ex) is Exception and any(a in str(ex) for a in allowed):
            raise Skip("refused: " + str(ex)[:50])
        raise


OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b}


def binary(ctx):
    py = ctx.py
    op = py.choice("+-*")
    a = new(py)
    same = py.random() < 0.15
    b = a if same else new(py)
    how = py.choice(["operator", "operator", "function"])
    ctx.last = f"{desc(a)} {op} {'itself' if same else desc(b)} ({how})"
    ctx.sample(ctx.last)
    fa, fb = fmt(a), fmt(b)
    if how == "operator" or same:
        r = OPS[op](a, b)
    else:
        r = {"+": qrisp.sbp_add, "-": qrisp.sbp_sub, "*": py.choice([qrisp.sbp_mult, qrisp.hybrid_mult])}[op](a, b)
    fr = fmt(r)
    ctx.require(fmt(a) == fa and fmt(b) == fb, f"{ctx.last}: operand format changed")

    def f1(x):
        return x, exact(ctx, OPS[op](val(x, fa), val(x, fa)), fr, ctx.last)

    def f2(x, y):
        return x, y, exact(ctx, OPS[op](val(x, fa), val(y, fb)), fr, ctx.last)

    if same:
        judge(ctx, a.qs, [a.reg], [a.reg, r.reg], f1, "binary", ctx.last)
    else:
        judge(ctx, a.qs, [a.reg, b.reg], [a.reg, b.reg, r.reg], f2, "binary", ctx.last)


def controlled(ctx):
    """expressions evaluated under a control: the value where it is on, zero where it is off"""
    from qrisp import QuantumBool, control, invert

    py = ctx.py
    kind = py.choice(["+", "-", "*", "mult", "hybrid", "c+", "c*", "cmp", "poly", "+=", "-=", "+=c", "nested"])
    a, b = new(py, 2), new(py, 2)
    fa, fb = fmt(a), fmt(b)
    c = py.choice([1, 2, 3, -1, 5])
    k = QuantumBool()
    st = py.choice([0, 1, 1])
    inv = py.random() < 0.2
    ctx.last = f"{kind} of {desc(a)} and {desc(b)}, constant {c}, control state {st}" + (" inverted twice" if inv else "")
    ctx.sample(ctx.last)
    if kind in ("+=", "-=", "+=c"):
        w = QuantumFloat(fa[0] + 2, min(fa[1], fb[1], 0), signed=True)
        fw = fmt(w)
        if kind == "+=c":
            c = py.choice([1, 3, -2])
        with control(k[0], ctrl_state=st):
            if kind == "+=":
                w += b
            elif kind == "-=":
                w -= b
            else:
                w += c

        def g(x, y, kv):
            if kv == st:
                d = {"+=": val(y, fb), "-=": -val(y, fb), "+=c": Fr(c)}[kind]
                x = int((val(x, fw) + d) / Fr(2) ** fw[1]) % 2 ** fw[0]
            return x, y, kv

        judge(ctx, w.qs, [w.reg, b.reg, k.reg], [w.reg, b.reg, k.reg], g, "controlled", ctx.last)
        return
    if kind in ("c+", "c*") and (fa[1] > 0 or fa[2]):
        raise Skip("constants are tested with plain formats")
    if kind == "poly" and fa[0] > 2:
        raise Skip("too wide")

    def build():
        if kind in "+-*":
            return OPS[kind](a, b)
        if kind == "mult":
            return qrisp.sbp_mult(a, b)
        if kind == "hybrid":
            return qrisp.hybrid_mult(a, b)
        if kind == "c+":
            return a + c
        if kind == "c*":
            return a * c
        if kind == "cmp":
            return a < b
        if kind == "nested":
            t = a * b
            r = t + a
            t.uncompute()
            return r
        r = QuantumFloat(6, 2 * min(fa[1], 0), signed=True)
        import sympy

        xs = sympy.Symbol("x")
        qrisp.polynomial_encoder([a], r, xs**2 + 1)
        return r

    with control(k[0], ctrl_state=st):
        if inv:
            with invert():
                with invert():
                    r = build()
        else:
            r = build()
    fr = fmt(r) if kind != "cmp" else None

    def f(x, y, kv):
        X, Y = val(x, fa), val(y, fb)
        v = {"+": X + Y, "-": X - Y, "*": X * Y, "mult": X * Y, "hybrid": X * Y, "c+": X + c, "c*": X * c, "cmp": X < Y, "nested": X * Y + X, "poly": X * X + 1}[kind]
        if kind == "cmp":
            o = int(v) if kv == st else 0
        elif kv != st:
            o = 0
        elif kind in ("c+", "c*", "poly"):
            o = raw(v, fr)
        else:
            o = exact(ctx, v, fr, ctx.last)
        return x, y, kv, o

    judge(ctx, a.qs, [a.reg, b.reg, k.reg], [a.reg, b.reg, k.reg, r.reg], f, "controlled", ctx.last, terms=10)


def power(ctx):
    py = ctx.py
    a = new(py, 2)
    k = py.choice([0, 1, 2, 2, 3])
    fa = fmt(a)
    ctx.last = f"{desc(a)} ** {k}"
    ctx.sample(ctx.last)
    r = a**k
    try:
        judge(ctx, a.qs, [a.reg], [a.reg, r.reg], lambda x: (x, exact(ctx, val(x, fa) ** k, fmt(r), ctx.last)), "scalar", ctx.last)
    except Violation as v:
        if fa[2] and k:
            v.mech = "power-of-signed"
        raise


def scalar(ctx):
    py = ctx.py
    a = new(py, 4)
    fa = fmt(a)
    op = py.choice(["a+c", "c+a", "a-c", "c-a", "a*c", "c*a", "a**c"])
    if op == "a**c":
        return power(ctx)
    lo = -(2 ** (fa[0])) if fa[2] or py.random() < 0.5 else 0
    c = py.randint(lo, 2 ** fa[0])
    if "*" in op:
        c = py.choice([c, 0, 1, -1, 2, 3, -2, 5, 6, -7])
        cv = c
    else:
        cv = c * 2.0 ** fa[1]
        if py.random() < 0.5 and cv == int(cv):
            cv = int(cv)
    ctx.last = f"{op} with a={desc(a)}, c={cv!r}"
    ctx.sample(ctx.last)
    r = {"a+c": lambda: a + cv, "c+a": lambda: cv + a, "a-c": lambda: a - cv, "c-a": lambda: cv - a, "a*c": lambda: a * cv, "c*a": lambda: cv * a}[op]()
    fr = fmt(r)
    ctx.require(fmt(a) == fa, f"{ctx.last}: operand format changed")
    C = Fr(cv)

    def f(x):
        v = val(x, fa)
        w = {"a+c": v + C, "c+a": v + C, "a-c": v - C, "c-a": C - v, "a*c": v * C, "c*a": v * C}[op]
        if "*" in op:
            return x, exact(ctx, w, fr, ctx.last)
        k = raw(w, fr)
        ctx.require(k is not None, f"{ctx.last}: result {w} is not on the grid of {fr}")
        return x, k

    judge(ctx, a.qs, [a.reg], [a.reg, r.reg], f, "scalar", ctx.last)


CMP = {"<": lambda a, b: a < b, ">": lambda a, b: a > b, "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b, "==": lambda a, b: a == b, "!=": lambda a, b: a != b}


def compare(ctx):
    py = ctx.py
    op = py.choice(list(CMP))
    a = new(py, 4)
    fa = fmt(a)
    kind = py.choice(["qq", "qq", "qc", "cq", "qbb"])
    if kind == "qbb":
        # one qubit at a time: QuantumFloat(1) operands with random formats
        a = QuantumFloat(1, py.choice([-1, 0, 1]), signed=py.random() < 0.5)
        fa = fmt(a)
        kind = "qq"
    if kind == "qq":
        b = new(py, 4)
        fb = fmt(b)
        ctx.last = f"{desc(a)} {op} {desc(b)}"
        ctx.sample(ctx.last)
        r = CMP[op](a, b)
        ctx.require(fmt(a) == fa and fmt(b) == fb, f"{ctx.last}: operand format changed")
        judge(ctx, a.qs, [a.reg, b.reg], [a.reg, b.reg, r.reg], lambda x, y: (x, y, int(CMP[op](val(x, fa), val(y, fb)))), "comparison", ctx.last, terms=40)
        return
    c = py.randint(-(2 ** fa[0]) - 1, 2 ** fa[0] + 1) * 2.0 ** (fa[1] - py.choice([0, 0, 1]))
    if py.random() < 0.6 and c == int(c):
        c = int(c)
    ctx.last = f"{desc(a)} {op} {c!r}" if kind == "qc" else f"{c!r} {op} {desc(a)}"
    ctx.sample(ctx.last)
    r = CMP[op](a, c) if kind == "qc" else CMP[op](c, a)
    C = Fr(c)
    ctx.require(fmt(a) == fa, f"{ctx.last}: operand format changed")
    judge(ctx, a.qs, [a.reg], [a.reg, r.reg], lambda x: (x, int(CMP[op](val(x, fa), C) if kind == "qc" else CMP[op](C, val(x, fa)))), "comparison", ctx.last, terms=40)


def trunc_div(n, d):
    q = abs(n) // abs(d)
    return q if (n < 0) == (d < 0) or n == 0 else -q


def division(ctx):
    py = ctx.py
    what = py.choice(["q_divmod", "q_divmod", "q_div", "//", "/", "inversion"])
    if what == "//":
        a, b = QuantumFloat(py.randint(1, 3), py.choice([0, 0, 1])), QuantumFloat(py.randint(1, 3), py.choice([0, 0, 1]))
    elif what == "inversion":
        a, b = QuantumFloat(1), QuantumFloat(py.randint(1, 2), py.choice([-2, -1, 0]), signed=py.random() < 0.3)
    else:
        sg = py.random() < 0.4
        a, b = QuantumFloat(py.randint(1, 3), py.choice([-1, 0, 0]), signed=sg), QuantumFloat(py.randint(1, 3), py.choice([-1, 0, 0]), signed=sg and py.random() < 0.5)
    fa, fb = fmt(a), fmt(b)
    prec = py.choice([0, 1, 2, 3])
    rem = None
    if what == "inversion":
        ctx.last = f"inversion of {desc(b)} prec={prec}"
        q = qrisp.qf_inversion(b, prec=prec)
    elif what == "q_divmod":
        ad = "thapliyal"
        ctx.last = f"q_divmod {desc(a)} by {desc(b)} prec={prec} {ad}"
        q, rem = qrisp.q_divmod(a, b, adder=ad, prec=prec)
    elif what == "q_div":
        ctx.last = f"q_div {desc(a)} by {desc(b)} prec={prec}"
        q = qrisp.q_div(a, b, prec=prec)
    elif what == "//":
        ctx.last = f"{desc(a)} // {desc(b)}"
        q = a // b
        prec = 0
    else:
        ctx.last = f"{desc(a)} / {desc(b)}"
        q = a / b
        prec = fb[0] - fa[1]
    ctx.sample(ctx.last)
    fq = fmt(q)
    ctx.require(fmt(a) == fa and fmt(b) == fb, f"{ctx.last}: operand format changed")
    ins = [b.reg] if what == "inversion" else [a.reg, b.reg]
    outs = ins + [q.reg] + ([rem.reg] if rem is not None else [])
    vals, amps = Q.random_input(ctx.rng, py, [len(g) for g in ins], 24, lambda p: [p.randrange(1 << len(g)) for g in ins[:-1]] + [p.randrange(1, 1 << len(ins[-1]))])
    if not len(vals):
        raise Skip("no admissible input")
    merge_all([q for g in outs for q in g])
    got = Q.amplitudes(b.qs, outs, Q.rows_for(b.qs, ins, vals, amps), what=ctx.last)
    ctx.observe("division", (ctx.last, tuple(vals)), True)
    seen = {}
    for k, amp in got.items():
        if abs(amp) < 1e-4:
            continue
        key = k[: len(ins)]
        ctx.require(key not in seen, f"{ctx.last}: two results for operands {key}")
        seen[key] = amp
        n = Fr(1) if what == "inversion" else val(k[0], fa)
        d = val(k[len(ins) - 1], fb)
        qv = val(k[len(ins)], fq)
        if what == "//":
            ctx.require(qv == (n // d), f"{ctx.last}: {n} // {d} gave {qv}")
        ctx.require(abs(qv - n / d) < Fr(1, 2**prec) if prec >= 0 else abs(qv - n / d) < 2 ** (-prec), f"{ctx.last}: {n}/{d} gave {qv} (precision {prec})")
        if rem is not None:
            rv = val(k[len(ins) + 1], fmt(rem))
            ctx.require(qv * d + rv == n, f"{ctx.last}: {n}/{d}: quotient {qv} and remainder {rv} do not satisfy q*d+r=n")
    want = dict(zip([tuple(v) for v in vals], amps))
    d = Q.amp_diff(seen, want, phase=True)
    ctx.require(d < 1e-4, f"{ctx.last}: amplitudes of the operands changed by {d:.3g}")


def tools(ctx):
    py = ctx.py
    what = py.choice(["q_max", "q_min", "q_floor", "q_ceil", "q_round", "q_fractional", "q_modf", "q_isqrt", "q_isqrt"])
    if what in ("q_max", "q_min"):
        a, b = new(py, 3), new(py, 3)
        fa, fb = fmt(a), fmt(b)
        ctx.last = f"{what} of {desc(a)} and {desc(b)}"
        ctx.sample(ctx.last)
        r = getattr(qrisp, what)(a, b)
        fr = fmt(r)
        g = max if what == "q_max" else min
        judge(ctx, a.qs, [a.reg, b.reg], [a.reg, b.reg, r.reg], lambda x, y: (x, y, exact(ctx, g(val(x, fa), val(y, fb)), fr, ctx.last)), "tool", ctx.last)
        return
    if what == "q_isqrt":
        a = QuantumFloat(py.randint(1, 5))
        old = list(a.reg)
        fa = fmt(a)
        ctx.last = f"q_isqrt of {desc(a)}"
        ctx.sample(ctx.last)
        r = qrisp.q_isqrt(a)
        judge(ctx, a.qs, [old], [a.reg, r.reg], lambda x: (exact(ctx, Fr(x - math.isqrt(x) ** 2), fmt(a), ctx.last), exact(ctx, Fr(math.isqrt(x)), fmt(r), ctx.last)), "tool", ctx.last)
        return
    a = QuantumFloat(py.randint(2, 4), py.choice([-3, -2, -1, -1, 0]), signed=py.random() < 0.4)
    fa = fmt(a)
    ctx.last = f"{what} of {desc(a)}"
    ctx.sample(ctx.last)
    if fa[1] + fa[0] <= 0:
        raise Skip("no integer digit")
    one = Fr(1)
    res = getattr(qrisp, what)(a)
    rs = list(res) if what == "q_modf" else [res]

    def f(x):
        v = val(x, fa)
        frac = v - math.floor(v) if v >= 0 or not fa[2] else v - math.ceil(v)
        w = {
            "q_floor": [Fr(math.floor(v))],
            "q_ceil": [Fr(math.ceil(v))],
            "q_round": [Fr(math.floor(v + Fr(1, 2)))],
            "q_fractional": [frac],
            "q_modf": [Fr(math.floor(v)), frac],
        }[what]
        return (x, *[raw(u, fmt(r)) for u, r in zip(w, rs)])

    judge(ctx, a.qs, [a.reg], [a.reg] + [r.reg for r in rs], f, "tool", ctx.last)


def inplace(ctx):
    py = ctx.py
    what = py.choice(["*=", "inpl_mult", "fraction", "shift", "qshift", "exp", "init_from", "+=", "-=", "+=q", "-=q", "int_mult", "inpl_int_mult", "add_sign", "negate"])
    a = new(py, 3)
    old = list(a.reg)
    fa = fmt(a)
    ins, f = [old], None
    if what in ("*=", "inpl_mult", "fraction"):
        c = py.choice([1, 2, 3, 4, 5, 6, 7, -1, -2, -3, -5]) if what != "fraction" else py.choice([0.5, 1.5, 0.25, 2.5, -0.5, -1.5])
        if c < 0 and not a.signed:
            c = -c
        to = py.random() < 0.7 or what == "*="
        ctx.last = f"{what} {desc(a)} by {c} treat_overflow={to}"
        if not to and int(c) != c:
            raise Skip("precision of a fraction needs the extension")
        if what == "*=":
            a *= c
        else:
            qrisp.inpl_mult(a, c, treat_overflow=to)
        ff = fmt(a)
        if to:
            f = lambda x: (exact(ctx, val(x, fa) * Fr(c), ff, ctx.last),)
        else:
            sh = (c & -c).bit_length() - 1
            odd = c >> sh
            if sh and fa[2]:
                raise Skip("cyclic shift of a signed number")

            def f(x):
                k = (val(x, fa) / Fr(2) ** fa[1] * odd) % (1 << fa[0])
                k = int(k)
                n = fa[0]
                s = sh % n
                return ((((k << s) | (k >> (n - s))) & ((1 << n) - 1)) if s else k,)

    elif what == "shift":
        k = py.randint(-3, 3)
        ctx.last = f"quantum_bit_shift {desc(a)} by {k}"
        if fa[2]:
            raise Skip("signed shift is part of *=")
        qrisp.quantum_bit_shift(a, k)
        f = lambda x: (exact(ctx, val(x, fa) * Fr(2) ** k, fmt(a), ctx.last),)
    elif what == "qshift":
        if fa[2]:
            raise Skip("unsigned only")
        k = QuantumFloat(py.randint(1, 2))
        ctx.last = f"quantum_bit_shift {desc(a)} by {desc(k)}"
        qrisp.quantum_bit_shift(a, k)
        ins = [old, list(k.reg)]
        f = lambda x, y: (exact(ctx, val(x, fa) * Fr(2) ** y, fmt(a), ctx.last), y)
    elif what == "exp":
        k = py.randint(0, 3)
        up = py.random() < 0.5
        ctx.last = f"{desc(a)} {'<<=' if up else '>>='} {k}"
        b = a
        if up:
            b <<= k
        else:
            b >>= k
        ctx.require(b is a, f"{ctx.last}: not in place")
        f = lambda x: (exact(ctx, val(x, fa) * Fr(2) ** (k if up else -k), fmt(a), ctx.last),)
    elif what == "init_from":
        b = QuantumFloat(fa[0] - fa[2] + py.randint(0, 2), fa[1], signed=fa[2] or py.random() < 0.3) if py.random() < 0.5 else QuantumFloat(fa[0] - fa[2], fa[1], signed=fa[2])
        ctx.last = f"{desc(b)} initialised from {desc(a)}"
        try:
            b.init_from(a)
        except Exception as ex:
            if type(ex) in (Exception, ValueError):
                raise Skip("refused: " + str(ex)[:60])
            raise
        f = lambda x: (x, exact(ctx, val(x, fa), fmt(b), ctx.last))
        judge(ctx, a.qs, [a.reg], [a.reg, b.reg], f, "inplace", ctx.last)
        return
    elif what in ("+=", "-="):
        c = py.randint(-(2 ** fa[0]) if fa[2] else 0, 2 ** fa[0]) * 2.0 ** fa[1]
        ctx.last = f"{desc(a)} {what} {c}"
        b = a
        if what == "+=":
            b += c
        else:
            b -= c
        ctx.require(b is a and fmt(a) == fa, f"{ctx.last}: not in place")
        f = lambda x: (raw(val(x, fa) + Fr(c) * (1 if what == "+=" else -1), fa),)
    elif what in ("+=q", "-=q"):
        b = new(py, 3)
        if b.signed and not a.signed or b.exponent < a.exponent:
            raise Skip("operand not addable")
        fb = fmt(b)
        ctx.last = f"{desc(a)} {what} {desc(b)}"
        if what == "+=q":
            a += b
        else:
            a -= b
        sgn = 1 if what == "+=q" else -1
        ins = [old, list(b.reg)]
        f = lambda x, y: (raw(val(x, fa) + sgn * val(y, fb), fa), y)
    elif what == "int_mult":
        a, b = QuantumFloat(py.randint(1, 3)), QuantumFloat(py.randint(1, 3))
        ad = py.choice([qrisp.fourier_adder, qrisp.gidney_adder])
        fa, fb = fmt(a), fmt(b)
        ctx.last = f"q_int_mult {desc(a)} {desc(b)} {ad.__name__ if hasattr(ad, '__name__') else ''}"
        r = qrisp.q_int_mult(a, b, inpl_adder=ad)
        judge(ctx, a.qs, [a.reg, b.reg], [a.reg, b.reg, r.reg], lambda x, y: (x, y, exact(ctx, Fr(x * y), fmt(r), ctx.last)), "inplace", ctx.last)
        return
    elif what == "inpl_int_mult":
        a = QuantumFloat(py.randint(1, 4))
        old, fa = list(a.reg), fmt(a)
        ins = [old]
        c = py.choice([1, 3, 5, 7, 9, 11])
        ctx.last = f"inpl_q_int_mult {desc(a)} by {c}"
        qrisp.inpl_q_int_mult(a, c)
        f = lambda x: (x * c % (1 << fa[0]),)
    elif what == "add_sign":
        if fa[2]:
            raise Skip("already signed")
        ctx.last = f"add_sign {desc(a)}"
        a.add_sign()
        f = lambda x: (exact(ctx, val(x, fa), fmt(a), ctx.last),)
    else:
        raise Skip("no negation operator")
    ctx.sample(ctx.last)
    judge(ctx, a.qs, ins, [a.reg] + ins[1:], f, "inplace", ctx.last)


def polynomial(ctx):
    import sympy as sp

    py = ctx.py
    k = py.randint(1, 2)
    names = py.sample(["x", "y", "u", "b"], k)
    syms = [sp.Symbol(s) for s in names]
    phase = py.random() < 0.4
    sg = py.random() < 0.5
    qfs = [QuantumFloat(py.randint(1, 3 if k == 1 else 2), py.choice([-1, 0, 0]), signed=sg and py.random() < 0.6) for _ in range(k)]
    fs = [fmt(q) for q in qfs]
    coeff, poly = [], 0
    for _ in range(py.randint(1, 3)):
        c = py.choice([1, 2, 3, 0.5, 1.5] + ([-1, -2, -0.5] if sg or phase else []))
        es = [py.randint(0, 2) for _ in range(k)]
        t = c
        for s, e in zip(syms, es):
            t = t * s**e
        poly += t
        coeff.append((Fr(c), es))
    poly = sp.sympify(poly)
    order = sorted(range(k), key=lambda i: names[i])
    given = py.random() < 0.5

    def P(vs):
        return sum((c * math.prod((v**e for v, e in zip(vs, es)), start=Fr(1)) for c, es in coeff), Fr(0))

    have = {str(s) for s in poly.free_symbols}
    if not given and have != set(names):
        raise Skip("polynomial does not contain every symbol")
    ctx.last = f"polynomial {poly} on " + ", ".join(f"{n}={desc(f)}" for n, f in zip(names, fs)) + (" (symbols given)" if given else " (alphabetical)")
    ctx.sample(ctx.last)
    lst = list(range(k)) if given else order
    if phase:
        t = py.choice([1, 0.7, -1.3])
        qrisp.app_phase_polynomial([qfs[i] for i in lst], poly, symbol_list=[syms[i] for i in lst] if given else None, t=t)
        ctx.last += f" phase t={t}"
        judge(ctx, qfs[0].qs, [q.reg for q in qfs], [q.reg for q in qfs], lambda *v: v, "polynomial", ctx.last, ph=lambda *v: np.exp(1j * t * float(P([val(x, f) for x, f in zip(v, fs)]))), phase=True)
        return
    e = py.choice([-3, -4, -2])
    out = QuantumFloat(py.randint(4, 8), e, signed=any(f[2] for f in fs) or any(c < 0 for c, _ in coeff))
    fo = fmt(out)
    grid = all(raw(P([val(v, f) for v, f in zip(vs, fs)]), fo) is not None for vs in __import__("itertools").product(*[range(1 << f[0]) for f in fs]))
    step = all((c * math.prod((Fr(2) ** (f[1] * x) for f, x in zip(fs, es)), start=Fr(1)) / Fr(2) ** e).denominator == 1 for c, es in coeff)
    if not grid or not step:
        raise Skip("result not on the output grid")
    qrisp.polynomial_encoder([qfs[i] for i in lst], out, poly, encoding_dic={qfs[i]: syms[i] for i in lst} if given else None)
    start = py.random() < 0.3
    # the output register is added to: start from a superposed value sometimes
    ins = [q.reg for q in qfs] + ([out.reg] if start and False else [])
    judge(ctx, out.qs, ins, [q.reg for q in qfs] + [out.reg], lambda *v: (*v, raw(P([val(x, f) for x, f in zip(v, fs)]), fo)), "polynomial", ctx.last)


def nested(ctx):
    """two-level expressions; the intermediate result stays allocated and is read as well"""
    py = ctx.py
    a, b, c = new(py, 2), new(py, 2), new(py, 2)
    fa, fb, fc = fmt(a), fmt(b), fmt(c)
    o1, o2 = py.choice("+-*"), py.choice(["+", "-", "*", "<", ">=", "=="])
    swap = py.random() < 0.5
    ctx.last = f"t = {desc(a)} {o1} {desc(b)}; " + (f"{desc(c)} {o2} t" if swap else f"t {o2} {desc(c)}")
    ctx.sample(ctx.last)
    t = OPS[o1](a, b)
    g2 = OPS[o2] if o2 in OPS else CMP[o2]
    r = g2(c, t) if swap else g2(t, c)
    ft = fmt(t)
    fr = fmt(r) if o2 in OPS else None

    def f(x, y, z):
        tv = OPS[o1](val(x, fa), val(y, fb))
        w = g2(val(z, fc), tv) if swap else g2(tv, val(z, fc))
        return x, y, z, exact(ctx, tv, ft, ctx.last), (exact(ctx, w, fr, ctx.last) if fr else int(w))

    judge(ctx, a.qs, [a.reg, b.reg, c.reg], [a.reg, b.reg, c.reg, t.reg, r.reg], f, "nested", ctx.last, terms=12)


def traced(ctx):
    """the same operators in traced execution (modular results in the format of the first operand)"""
    from qrisp.jasp import make_jaspr
    from qrisp import Qubit

    py = ctx.py
    op = py.choice(["+", "-", "*", "sq", "<", ">", "<=", ">=", "==", "+=", "-=", "+c", "-c", "<c", ">c", ">=c", "<=c", "+=c"])
    n, m = py.randint(1, 4), py.randint(1, 4)
    if op in ("*", "sq"):
        n, m = py.randint(1, 3), py.randint(1, 3)
    c = py.randrange(2**n)
    inpl = op in ("+=", "-=", "+=c")
    ctx.last = f"traced {op} n={n} m={m} c={c}"
    ctx.sample(ctx.last)

    def main(n, m, c):
        a = QuantumFloat(n)
        b = QuantumFloat(m)
        if op == "+=":
            a += b
            return a, b
        if op == "-=":
            a -= b
            return a, b
        if op == "+=c":
            a += c
            return a, b
        if op in OPS:
            r = OPS[op](a, b)
        elif op == "sq":
            r = a * a
        elif op in CMP:
            r = CMP[op](a, b)
        elif op == "+c":
            r = a + c
        elif op == "-c":
            r = a - c
        else:
            r = CMP[op[:-1]](a, c)
        return a, b, r

    out = make_jaspr(main)(2, 2, 1).to_qc(n, m, c)
    regs = [list(x) for x in out[:-1] if isinstance(x, (list, tuple)) and x and isinstance(x[0], Qubit)]
    qc = out[-1]
    M = 1 << n
    if inpl:
        f = {"+=": lambda x, y: ((x + y) % M, y), "-=": lambda x, y: ((x - y) % M, y), "+=c": lambda x, y: ((x + c) % M, y)}[op]
    else:
        R = 1 << len(regs[2])

        def g(x, y):
            if op in ("*", "sq"):
                w = x * (y if op == "*" else x)
                ctx.require(w < R, f"{ctx.last}: result register of {len(regs[2])} bits cannot hold {w}")
                return w
            if op in OPS:
                return OPS[op](x, y) % R
            if op in CMP:
                return int(CMP[op](x, y))
            if op in ("+c", "-c"):
                return (x + c if op == "+c" else x - c) % R
            return int(CMP[op[:-1]](x, c))

        f = lambda x, y: (x, y, g(x, y))
    ins = regs[:2]
    judge(ctx, qc, ins, regs, f, "traced", ctx.last)


FAMILIES = {"binary": binary, "scalar": scalar, "compare": compare, "division": division, "tools": tools, "inplace": inplace, "polynomial": polynomial, "nested": nested, "traced": traced, "controlled": controlled}
