PROPERTY = "C13"
RULE = (
    "one evaluation = the elements reached by a chain of array views compared with the chain applied to a classical array, or the exact state after an array operation (element-wise arithmetic, comparison, logic, "
    "reduction, in-place update, matrix product) compared with the classical array operation on every branch of a superposition; distinct = distinct (operation, shapes, formats, values)"
)
PLAN = {
    "quick": {"views": 200, "elementwise": 220, "inplace": 120, "logic": 120, "matmul": 110, "inplace_matrix": 50, "dots": 90, "measured": 80, "lifecycle": 80},
    "thorough": {"views": 2500, "elementwise": 2000, "inplace": 1200, "logic": 1200, "matmul": 1000, "inplace_matrix": 500, "dots": 500, "measured": 800, "lifecycle": 700},
}
REQUIRED_MONITORS = ["view_elements", "view_measurement", "elementwise_state", "inplace_state", "logic_state", "reduction_state", "product_state", "inplace_matrix_state", "dot_state", "array_distribution", "array_copy", "array_delete"]
ASSUMPTIONS = ["results with classical operands wrap in the number format of the array; matrix products wrap in the requested result format"]
CASE_TIMEOUT = 150
# --- end of plan ---
import contextlib
import io
import itertools

import numpy as np

from vlib import qs as Q, ref
from vlib.harness import Skip, Violation

import qrisp
from qrisp import QuantumVariable, QuantumFloat, QuantumBool, QuantumArray, QuantumModulus, QuantumChar, control, cx, x, h, ry, u3, merge, dot, tensordot, q_matmul, semi_classic_matmul, inplace_matrix_app


def names(qa):
    out = np.empty(qa.shape, dtype=object)
    for i in itertools.product(*[range(k) for k in qa.shape]):
        out[i] = qa[i].name
    return out


def views(ctx):
    py = ctx.py
    shape = py.choice([(4,), (6,), (2, 3), (3, 2), (2, 2, 2), (1, 4), (3, 1, 2), (2, 4)])
    size = int(np.prod(shape))
    nb = py.choice([1, 2])
    kind = py.choice(["f", "v", "b", "c"]) if size <= 6 else "f"
    mk = {"f": lambda: QuantumFloat(nb), "v": lambda: QuantumVariable(nb), "b": QuantumBool, "c": QuantumChar}[kind]
    qa = QuantumArray(mk(), shape if py.random() < 0.8 or len(shape) > 1 else shape[0])
    na = names(qa)
    ctx.require(len({v for v in na.ravel()}) == size, "array elements are not distinct variables")
    vals = np.empty(shape, dtype=object)
    for i in itertools.product(*[range(k) for k in shape]):
        vals[i] = {"f": lambda: py.randrange(2**nb), "v": lambda: "".join(py.choice("01") for _ in range(nb)), "b": lambda: py.random() < 0.5, "c": lambda: py.choice("abcxyz ,")}[kind]()
    qa[...] = vals if py.random() < 0.5 else vals.tolist() if kind != "v" else vals
    log = [f"array{shape}"]
    extra = []
    for _ in range(py.randint(1, 6)):
        r = py.randrange(9)
        if r == 0:
            s = [d for d in range(1, qa.size + 1) if qa.size % d == 0]
            d = py.choice(s)
            new = py.choice([(d, qa.size // d), (qa.size,), (-1, d), (1, qa.size)])
            qa, na, vals = (qa.reshape(new) if py.random() < 0.5 else qa.reshape(*new)), na.reshape(new), vals.reshape(new)
            log.append(f"reshape{new}")
        elif r == 1:
            qa, na, vals = qa.transpose(), na.transpose(), vals.transpose()
            log.append("transpose")
        elif r == 2 and qa.ndim > 1:
            ax = list(range(qa.ndim))
            py.shuffle(ax)
            qa, na, vals = qa.transpose(*ax) if py.random() < 0.5 else qa.transpose(ax), na.transpose(ax), vals.transpose(ax)
            log.append(f"transpose{ax}")
        elif r == 3 and qa.ndim > 1:
            a, b = py.sample(range(qa.ndim), 2)
            qa, na, vals = qa.swapaxes(a, b), na.swapaxes(a, b), vals.swapaxes(a, b)
            log.append(f"swapaxes({a},{b})")
        elif r == 4:
            qa, na, vals = (qa.flatten() if py.random() < 0.5 else qa.ravel()), na.ravel(), vals.ravel()
            log.append("flatten")
        elif r in (5, 6):
            key = []
            for d in qa.shape:
                c = py.randrange(5)
                if c == 0 and d > 1 and qa.ndim > 1:
                    key.append(py.randrange(d))
                elif c == 1 and d > 1:
                    a = py.randrange(d)
                    key.append(slice(a, py.randint(a + 1, d)))
                elif c == 2:
                    key.append(slice(None, None, -1))
                elif c == 3 and d > 2:
                    key.append(slice(py.randrange(2), None, 2))
                else:
                    key.append(slice(None))
            if all(isinstance(k, int) for k in key):
                key[0] = slice(None)
            if py.random() < 0.3:
                key = key[: py.randint(1, len(key))]
                if all(isinstance(k, int) for k in key) and len(key) == qa.ndim:
                    continue
            key = tuple(key)
            n2 = na[key]
            if n2.size == 0:
                continue
            qa, na, vals = qa[key], n2, vals[key]
            log.append(f"[{key}]")
        elif r == 7 and kind == "f" and qa.size <= 6:
            o = QuantumArray(mk(), qa.shape)
            ov = np.array([py.randrange(2**nb) for _ in range(o.size)], dtype=object).reshape(o.shape)
            o[...] = ov
            if py.random() < 0.4 and o.shape[0] > 1:
                # a view as the other operand
                o, ov = o[::-1], ov[::-1]
            ax = py.randrange(qa.ndim)
            on = names(o)
            if py.random() < 0.5:
                qa, na, vals = qa.concatenate(o, axis=ax), np.concatenate((na, on), axis=ax), np.concatenate((vals, ov), axis=ax)
                log.append(f"concatenate(axis={ax})")
            else:
                qa, na, vals = o.concatenate(qa, axis=ax), np.concatenate((on, na), axis=ax), np.concatenate((ov, vals), axis=ax)
                log.append(f"concatenated to(axis={ax})")
            if qa.size > 12:
                break
        elif r == 8:
            # iteration visits elements in order
            ctx.require([e.name for e in qa] == list(na.ravel()), f"iteration order after {log}")
        desc = ".".join(log)
        ctx.require(tuple(qa.shape) == na.shape and qa.size == na.size and qa.ndim == na.ndim and len(qa) == len(na), f"{desc}: shape {qa.shape}, expected {na.shape}")
        got = names(qa)
        ctx.observe("view_elements", (desc, shape), True)
        ctx.require(np.array_equal(got, na), f"{desc}: view reaches other elements")
    total = sum(len(e) for e in qa)
    if total > 24:
        return
    m = qa.get_measurement()
    ctx.observe("view_measurement", (desc, str(vals.tolist())), True)
    k = list(m)[0]
    ctx.require(len(m) == 1 and np.shape(k) == vals.shape and all(a == b for a, b in zip(np.array(k, dtype=object).ravel(), vals.ravel())), f"{desc}: holding {vals.tolist()} measured {k!r}")
    ctx.sample({"chain": desc})


class Fmt:
    def __init__(self, ctx, maxbits=3, signed=True, exps=(-1, 0, 0, 1)):
        py = ctx.py
        self.m = py.randint(1, maxbits)
        self.e = py.choice(exps)
        self.s = signed and py.random() < 0.4
        self.n = self.m + self.s

    def make(self):
        return QuantumFloat(self.m, self.e, signed=self.s)

    def val(self, c):
        return (c - 2**self.n if self.s and c >= 2 ** (self.n - 1) else c) * 2.0**self.e

    def __str__(self):
        return f"({self.m},{self.e},{'s' if self.s else 'u'})"


def value(qf, c):
    n = len(qf)
    return (c - 2**n if qf.signed and c >= 2 ** (n - 1) else c) * 2.0**qf.exponent


def code(qf, v):
    return int(round(v / 2.0**qf.exponent)) % 2 ** len(qf)


def judge(ctx, ins, outs, fun, desc, monitor, domain=None, terms=8):
    """ins/outs: lists of variables; fun maps the codes of ins (list) to (codes of ins afterwards, codes of outs)"""
    merge(list(ins) + list(outs))
    qc = (list(ins) + list(outs))[0].qs.copy()
    sizes = [len(v) for v in ins]
    vals, amps = Q.random_input(ctx.rng, ctx.py, sizes, terms, domain)
    init = Q.rows_for(qc, list(ins), vals, amps)
    want = {}
    for v, a in zip(vals, amps):
        i2, o2 = fun(list(v))
        k = tuple(i2) + tuple(o2)
        want[k] = want.get(k, 0) + a
    got = Q.amplitudes(qc, list(ins) + list(outs), init, what=desc)
    ctx.observe(monitor, (desc, tuple(vals)), True)
    d = Q.amp_diff(got, want, phase=True)
    if d > 1e-5:
        wrong = [(k, complex(np.round(got.get(k, 0), 3)), complex(np.round(want.get(k, 0), 3))) for k in sorted(set(got) | set(want)) if abs(got.get(k, 0) - want.get(k, 0)) > 1e-5][:4]
        ctx.close(d, 1e-5, desc, wrong=str(wrong))


def other_operand(ctx, shape, fa, kinds):
    """-> (operand, list of its quantum elements, reader(codes)->array of values, description)"""
    py = ctx.py
    k = py.choice(kinds)
    cnt = int(np.prod(shape))
    if k == "array":
        fb = Fmt(ctx, 2, exps=(fa.e,) if py.random() < 0.5 else (-1, 0, 1))
        b = QuantumArray(fb.make(), shape)
        if py.random() < 0.3 and len(shape) == 2:
            b = QuantumArray(fb.make(), shape[::-1]).transpose()
        el = list(b)
        return b, el, (lambda c: [fb.val(x) for x in c]), f"array of {fb}", fb
    if k == "var":
        fb = Fmt(ctx, 2)
        b = fb.make()
        return b, [b], (lambda c: [fb.val(c[0])] * cnt), f"variable {fb}", fb
    if k == "numpy":
        v = np.array([fa.val(py.randrange(2**fa.n)) for _ in range(cnt)]).reshape(shape)
        if fa.e >= 0 and py.random() < 0.5:
            v = v.astype(int)
        return v, [], (lambda c: list(v.ravel().astype(float))), f"numpy {v.tolist()}", None
    v = fa.val(py.randrange(2**fa.n))
    if fa.e >= 0:
        v = int(v)
    return v, [], (lambda c: [float(v)] * cnt), f"scalar {v}", None


def elementwise(ctx):
    py = ctx.py
    shape = py.choice([(2,), (3,), (2, 2), (1, 2), (1,)])
    cnt = int(np.prod(shape))
    fa = Fmt(ctx, 2)
    op = py.choice(["+", "-", "*", "==", "!=", "<", "<=", ">", ">="])
    a = QuantumArray(fa.make(), shape)
    if py.random() < 0.3 and len(shape) == 2:
        a = QuantumArray(fa.make(), shape[::-1]).transpose()
    elif py.random() < 0.3:
        a = a[::-1]
    kinds = ["array", "array", "var"] + (["numpy", "scalar"] if op != "*" else [])
    b, bel, rb, bd, fb = other_operand(ctx, shape, fa, kinds)
    ael = list(a)
    desc = f"array {shape} of {fa} {op} {bd}"
    f = {"+": lambda p, q: p + q, "-": lambda p, q: p - q, "*": lambda p, q: p * q, "==": lambda p, q: p == q, "!=": lambda p, q: p != q, "<": lambda p, q: p < q, "<=": lambda p, q: p <= q, ">": lambda p, q: p > q, ">=": lambda p, q: p >= q}[op]
    r = f(a, b)
    ctx.require(tuple(r.shape) == tuple(shape), f"{desc}: result shape {r.shape}")
    rel = list(r)
    arith = op in "+-*"
    if arith and fb is None:
        ctx.require(len(rel[0]) == fa.n and rel[0].exponent == fa.e and rel[0].signed == fa.s, f"{desc}: result format differs from the array's")

    def fun(c):
        av = [fa.val(x) for x in c[:cnt]]
        bv = rb(c[cnt:])
        out = []
        for i in range(cnt):
            w = f(av[i], bv[i])
            if arith:
                k = w / 2.0 ** rel[i].exponent
                if fb is not None and value(rel[i], code(rel[i], w)) != w:
                    raise Violation(f"{desc}: result {w} does not fit the format of the result ({len(rel[i])} qubits, exponent {rel[i].exponent}, signed {rel[i].signed})")
                out.append(code(rel[i], w))
            else:
                out.append(int(w))
        return c, out

    judge(ctx, ael + bel, rel, fun, desc, "elementwise_state")


def inplace(ctx):
    py = ctx.py
    shape = py.choice([(2,), (3,), (2, 2), (1, 2), (1,)])
    cnt = int(np.prod(shape))
    op = py.choice(["+=", "-=", "*="])
    if py.random() < 0.25:
        N = py.choice([5, 7, 11] if cnt <= 2 else [3, 5])
        a = QuantumArray(QuantumModulus(N), shape)
        ael = list(a)
        k = py.choice(["scalar", "numpy"])
        if op == "*=":
            cs = [c for c in range(1, N) if np.gcd(c, N) == 1]
        else:
            cs = list(range(N))
        v = py.choice(cs) if k == "scalar" else np.array([py.choice(cs) for _ in range(cnt)]).reshape(shape)
        bv = [v] * cnt if k == "scalar" else [int(x) for x in v.ravel()]
        desc = f"modular array {shape} mod {N} {op} {v if k == 'scalar' else v.tolist()}"
        if op == "+=":
            a += v
        elif op == "-=":
            a -= v
        else:
            a *= v
        f = {"+=": lambda p, q: (p + q) % N, "-=": lambda p, q: (p - q) % N, "*=": lambda p, q: p * q % N}[op]
        if sum(len(e) for e in ael) > 16:
            raise Skip("too big")
        raw = py.random() < 2
        # read through the measurement: representation shifts are internal
        vals = np.array([py.randrange(N) for _ in range(cnt)]).reshape(shape)
        b = QuantumArray(QuantumModulus(N), shape)
        b[...] = vals
        with contextlib.redirect_stdout(io.StringIO()):
            if op == "+=":
                b += v
            elif op == "-=":
                b -= v
            else:
                b *= v
        m = b.get_measurement()
        want = [f(int(p), q) for p, q in zip(vals.ravel(), bv)]
        ctx.observe("inplace_state", (desc, str(vals.tolist())), True)
        k = list(m)[0]
        ctx.require(len(m) == 1 and [int(x) for x in np.array(k).ravel()] == want, f"{desc}: on {vals.tolist()} gives {k!r}, expected {want}")
        return
    fa = Fmt(ctx, 3 if cnt < 3 else 2, exps=(-1, 0, 0, 1))
    a = QuantumArray(fa.make(), shape)
    if py.random() < 0.3 and len(shape) == 2:
        a = QuantumArray(fa.make(), shape[::-1]).transpose()
    ael = list(a)
    if op == "*=":
        cs = [c for c in range(-5 if fa.s else 1, 6) if c % 2]
        k = py.choice(["scalar", "numpy"])
        v = py.choice(cs) if k == "scalar" else np.array([py.choice(cs) for _ in range(cnt)]).reshape(shape)
        bv = [v] * cnt if k == "scalar" else [int(t) for t in v.ravel()]
        bel, rb, bd, b = [], (lambda c: bv), f"{v if k == 'scalar' else v.tolist()}", v
    else:
        kinds = ["array", "array", "var", "numpy", "scalar"]
        b, bel, rb, bd, fb = other_operand(ctx, shape, fa, kinds)
        if fb is not None and fb.e < fa.e:
            raise Skip("finer operand")
        if fb is not None and fb.s and not fa.s:
            raise Skip("signed operand added to unsigned array")
    desc = f"array {shape} of {fa} {op} {bd}"
    if op == "+=":
        a += b
    elif op == "-=":
        a -= b
    else:
        a *= b
    f = {"+=": lambda p, q: p + q, "-=": lambda p, q: p - q, "*=": lambda p, q: p * q}[op]

    def fun(c):
        av = [fa.val(t) for t in c[:cnt]]
        q = rb(c[cnt:])
        return [code(ael[i], f(av[i], q[i])) for i in range(cnt)] + c[cnt:], []

    judge(ctx, ael + bel, [], fun, desc, "inplace_state")


def logic(ctx):
    py = ctx.py
    shape = py.choice([(2,), (3,), (2, 2), (2, 3), (2, 2, 2), (1, 3), (4,)])
    cnt = int(np.prod(shape))
    a = QuantumArray(QuantumBool(), shape)
    if py.random() < 0.3 and len(shape) > 1:
        a = QuantumArray(QuantumBool(), shape[::-1]).transpose()
    ael = list(a)
    if py.random() < 0.45:
        op = py.choice(["&", "|", "^"])
        if py.random() < 0.6:
            b = QuantumArray(QuantumBool(), shape)
            bel = list(b)
        else:
            b = QuantumBool()
            bel = [b]
        f = {"&": lambda p, q: p & q, "|": lambda p, q: p | q, "^": lambda p, q: p ^ q}[op]
        r = f(a, b)
        desc = f"bool array {shape} {op} {'array' if len(bel) > 1 else 'bool'}"
        ctx.require(tuple(r.shape) == shape, f"{desc}: result shape {r.shape}")

        def fun(c):
            q = c[cnt:] if len(bel) == cnt and isinstance(b, QuantumArray) else [c[cnt]] * cnt
            return c, [f(p, s) for p, s in zip(c[:cnt], q)]

        judge(ctx, ael + bel, list(r), fun, desc, "logic_state", terms=16)
        return
    op = py.choice(["all", "any"])
    nd = len(shape)
    axis = py.choice([None] + list(range(-nd, nd)) + [tuple(py.sample(range(nd), py.randint(1, nd)))])
    r = getattr(a, op)(axis=axis) if axis is not None or py.random() < 0.5 else getattr(a, op)()
    red = np.all if op == "all" else np.any
    probe = red(np.zeros(shape, dtype=bool), axis=axis)
    desc = f"{op} of bool array {shape} over axis {axis}"
    rel = [r] if isinstance(r, QuantumBool) else list(r)
    ctx.require(len(rel) == np.size(probe) and (isinstance(r, QuantumBool) or tuple(r.shape) == np.shape(probe)), f"{desc}: wrong result shape")

    def fun(c):
        return c, [int(t) for t in np.ravel(red(np.array(c, dtype=bool).reshape(shape), axis=axis))]

    judge(ctx, ael, rel, fun, desc, "reduction_state", terms=16)


def matmul(ctx):
    py = ctx.py
    L, K, J = py.choice([(1, 1, 1), (1, 2, 1), (2, 1, 2), (1, 2, 2), (2, 2, 1), (1, 3, 1), (2, 2, 2), (1, 4, 1)])
    small = L * K + K * J > 5
    fa = Fmt(ctx, 1 if small else 2, exps=(0, 0, 0, -1, 1))
    a = QuantumArray(fa.make(), (L, K))
    mode = py.choice(["qq", "qq", "qc", "cq"])
    shapekind = py.choice(["eq", "safe", "float"])
    bel = []
    if mode == "qq":
        fb = Fmt(ctx, 1 if small else 2, exps=(0, 0, -1, 1))
        b = QuantumArray(fb.make(), (K, J))
        bel = list(b)
        rb = lambda c: np.array([fb.val(t) for t in c]).reshape(K, J)
        bd = f"array {(K, J)} of {fb}"
    else:
        v = ctx.rng.integers(-3, 4, size=(K, J) if mode == "qc" else (J, L))
        if fa.e < 0 and py.random() < 0.0:
            v = v / 2
        bd = f"classical {v.tolist()}"
        rb = lambda c: v
    how = py.randrange(2)
    kw = {}
    if shapekind == "float":
        fo = Fmt(ctx, 3, exps=(fa.e - 2,) if mode == "qq" else (fa.e,))
        if mode == "qq":
            fo.e = fa.e + fb.e
        if mode == "qc" and fa.s:
            fo.s, fo.n = True, fo.m + 1
    desc = None
    if how == 0 and shapekind == "eq":
        fn = "@"
        if mode == "qq":
            r = a @ b
        elif mode == "qc":
            r = a @ v
        else:
            r = v @ a
    else:
        if mode == "cq":
            r = semi_classic_matmul(a.transpose(), v.transpose(), **({"res_bit_shape": "eq"})).transpose()
            shapekind = "eq"
        else:
            fn = q_matmul if mode == "qq" else semi_classic_matmul
            if shapekind == "float":
                if py.random() < 0.5:
                    out = QuantumArray(fo.make(), (L, J))
                    r = fn(a, b if mode == "qq" else v, output_array=out)
                    ctx.require(r is out, "result array is not the one provided")
                else:
                    r = fn(a, b if mode == "qq" else v, res_bit_shape=fo.make())
                    shapekind = "format"
            else:
                r = fn(a, b if mode == "qq" else v, res_bit_shape=shapekind)
        fn = "matmul"
    desc = f"{fn} {mode} of array {(L, K)} of {fa} and {bd}, result {shapekind}{fo if shapekind in ('float', 'format') else ''}"
    ael = list(a)
    rel = list(r)
    want_shape = (L, J) if mode != "cq" else (J, K)
    ctx.require(tuple(r.shape) == want_shape, f"{desc}: result shape {r.shape}")
    if sum(len(t) for t in ael + bel + rel) > 22:
        raise Skip("too big")
    if rel[0].exponent > fa.e + (fb.e if mode == "qq" else 0):
        raise Skip("result finer than the format")

    def fun(c):
        av = np.array([fa.val(t) for t in c[: L * K]]).reshape(L, K)
        bv = rb(c[L * K :])
        w = (av @ bv if mode != "cq" else bv @ av).ravel()
        out = []
        for i, t in enumerate(w):
            k = t / 2.0 ** rel[i].exponent
            if shapekind == "safe" and (abs(k - round(k)) > 1e-9 or value(rel[i], code(rel[i], t)) != t):
                raise Violation(f"{desc}: entry {t} does not fit the overflow-free result format ({len(rel[i])} qubits, exponent {rel[i].exponent}, signed {rel[i].signed})")
            if abs(k - round(k)) > 1e-9:
                raise Skip("result finer than the format")
            out.append(code(rel[i], t))
        return c, out

    judge(ctx, ael + bel, rel, fun, desc, "product_state", terms=6)


def inplace_matrix(ctx):
    py = ctx.py
    n = py.choice([1, 2, 2, 3])
    bits = py.randint(1, 4) if n < 3 else py.randint(1, 3)
    for _ in range(200):
        M = ctx.rng.integers(0 if py.random() < 0.5 else -3, 4, size=(n, n))
        if int(round(np.linalg.det(M))) % 2:
            break
    else:
        raise Skip("no matrix")
    v = QuantumArray(QuantumFloat(bits), n)
    desc = f"in-place application of {M.tolist()} to {n} numbers of {bits} qubits"
    with contextlib.redirect_stdout(io.StringIO()):
        inplace_matrix_app(v, M)
    el = list(v)

    def fun(c):
        return [int(t) % 2**bits for t in M @ np.array(c)], []

    judge(ctx, el, [], fun, desc, "inplace_matrix_state")


def dots(ctx):
    py = ctx.py
    bits = py.randint(2, 3)
    s = py.random() < 0.3
    qt = lambda: QuantumFloat(bits, signed=s)
    hi = 2 ** (bits + s)
    rd = lambda c: c - hi if s and c >= hi // 2 else c
    kind = py.choice(["11", "22", "21", "12", "31", "32", "td", "td"])
    K = py.choice([1, 2, 3])
    mixed = py.choice(["qq", "qc", "cq"])
    if kind == "11":
        sa, sb, ax = (K,), (K,), None
    elif kind == "22":
        sa, sb, ax = (py.randint(1, 2), K), (K, py.randint(1, 2)), None
    elif kind == "21":
        sa, sb, ax = (py.choice([1, 2, K]), K), (K,), None
    elif kind == "31":
        sa, sb, ax = (py.choice([1, 2]), py.choice([1, 2]), K), (K,), None
    elif kind == "32":
        sa, sb, ax = (py.choice([1, 2]), py.choice([1, 2]), K), (K, py.choice([1, 2])), None
    elif kind == "12":
        sa, sb, ax = (K,), (K, py.choice([1, 2, K])), None
    else:
        c = py.randrange(4)
        if c == 0:
            sa, sb, ax = (2, K), (K, 1), 1
        elif c == 1:
            sa, sb, ax = (K, 2), (2, K), ((0, 1), (1, 0))
        elif c == 2:
            sa, sb, ax = (K, 2), (K, 1), ((0,), (0,))
        else:
            sa, sb, ax = (1, 2, 2), (2, 1), (py.choice([1, 2]), 0)
    na, nb = int(np.prod(sa)), int(np.prod(sb))
    if (na * (mixed[0] == "q") + nb * (mixed[1] == "q")) * (bits + s) > 20:
        raise Skip("too big")

    def mk(q, sh):
        vals = ctx.rng.integers(0, 3, size=sh)
        if q == "q":
            o = QuantumArray(qt(), sh)
            return o, None
        return np.array(vals), np.array(vals)

    a, av = mk(mixed[0], sa)
    b, bv = mk(mixed[1], sb)
    ael = list(a) if av is None else []
    bel = list(b) if bv is None else []
    desc = f"{'tensordot' if ax is not None else 'dot'} {mixed} of {sa} and {sb}{'' if ax is None else f' over {ax}'}, {bits} qubits{' signed' if s else ''}"
    r = dot(a, b) if ax is None else tensordot(a, b, ax)
    rel = [r] if isinstance(r, QuantumFloat) else list(r)

    def fun(c):
        A = np.array([rd(t) for t in c[: len(ael)]]).reshape(sa) if av is None else av
        B = np.array([rd(t) for t in c[len(ael) :]]).reshape(sb) if bv is None else bv
        w = np.dot(A, B) if ax is None else np.tensordot(A, B, ax)
        if np.size(w) != len(rel):
            raise Violation(f"{desc}: result has {len(rel)} entries instead of {np.size(w)}")
        # documented: the product of a vector with a matrix keeps a first axis of size one
        if (ax is not None or len(sa) > 1) and not isinstance(r, QuantumFloat) and tuple(r.shape) != np.shape(w):
            raise Violation(f"{desc}: result shape {r.shape} instead of {np.shape(w)}")
        return c, [int(t) % 2 ** len(rel[0]) for t in np.ravel(w)]

    judge(ctx, ael + bel, rel, fun, desc, "dot_state", terms=5)


def measured(ctx):
    py = ctx.py
    shape = py.choice([(2,), (3,), (2, 2), (1, 3)])
    cnt = int(np.prod(shape))
    fa = Fmt(ctx, 2)
    a = QuantumArray(fa.make(), shape)
    el = list(a)
    for e in el:
        for q in e:
            if py.random() < 0.6:
                ry(py.uniform(0.2, 2.9), q)
    for _ in range(py.randint(0, 3)):
        p, q = py.sample(range(cnt), 2)
        cx(el[p][py.randrange(fa.n)], el[q][py.randrange(fa.n)])
    amps = Q.amplitudes(a.qs.copy(), el, what="program")
    view = a
    vd = "array"
    order = np.arange(cnt).reshape(shape)
    if py.random() < 0.5:
        view, order, vd = a.transpose(), order.transpose(), "transposed array"
    if py.random() < 0.3:
        view, order, vd = view[::-1], order[::-1], vd + " reversed"
    if py.random() < 0.3 and view.shape[0] > 1:
        view, order, vd = view[1:], order[1:], vd + " tail"
    want = {}
    for c, amp in amps.items():
        k = tuple(fa.val(c[i]) for i in order.ravel())
        want[k] = want.get(k, 0) + abs(amp) ** 2
    kw = py.choice([{}, {}, {"compile": False}])
    m = view.get_measurement(**kw)
    desc = f"measurement of {vd} {shape} of {fa} {kw}"
    ctx.observe("array_distribution", (desc, len(want)), len(want) > 1)
    for k, pr in m.items():
        kk = tuple(float(t) for t in np.array(k).ravel())
        ctx.require(np.shape(k) == order.shape, f"{desc}: outcome shape {np.shape(k)}")
        w = want.pop(kk, 0)
        ctx.close(abs(pr - w), 2e-4, f"{desc}: probability of {kk}")
    ctx.require(all(w < 2e-4 for w in want.values()), f"{desc}: outcomes missing", missing=str(want)[:300])
    ml = view.most_likely()
    best = max(m.values())
    ctx.require(abs(m[ml] - best) < 1e-9, f"{desc}: most likely outcome {ml}")


def lifecycle(ctx):
    py = ctx.py
    shape = py.choice([(3,), (4,), (2, 2), (2, 3)])
    cnt = int(np.prod(shape))
    fa = Fmt(ctx, 2, exps=(0, 1, -1))
    a = QuantumArray(fa.make(), shape)
    vals = np.array([fa.val(py.randrange(2**fa.n)) for _ in range(cnt)]).reshape(shape)
    a[...] = vals
    order = np.arange(cnt).reshape(shape)
    view, vd = a, "array"
    if py.random() < 0.7:
        c = py.randrange(3)
        if c == 0:
            view, order, vd = a[1:], order[1:], "tail of the array"
        elif c == 1:
            view, order, vd = a.transpose(), order.transpose(), "transposed array"
        else:
            view, order, vd = a[::-1], order[::-1], "reversed array"
    el = list(a)
    if py.random() < 0.6:
        init = py.random() < 0.7
        d = view.duplicate(init=init)
        desc = f"duplicate(init={init}) of {vd} {shape} of {fa}"
        ctx.require(tuple(d.shape) == order.shape, f"{desc}: shape {d.shape}")
        ctx.require(not ({id(q) for e in a for q in e} & {id(q) for e in d for q in e}), f"{desc}: shares qubits with the original")
        m = d.get_measurement()
        want = vals.ravel()[order] if init else np.zeros(order.shape)
        ctx.observe("array_copy", (desc, str(vals.tolist())), True)
        ctx.require(len(m) == 1 and np.array_equal(np.array(list(m)[0], dtype=float), want), f"{desc}: holding {vals.ravel()[order].tolist()} gives {list(m)[0]!r}")
        m = a.get_measurement()
        ctx.require(len(m) == 1 and np.array_equal(np.array(list(m)[0], dtype=float), vals), f"{desc}: original changed to {list(m)[0]!r}")
    else:
        # deleting a view deletes exactly its elements
        z = QuantumArray(fa.make(), shape)
        zel = list(z)
        zv = {"array": lambda: z, "tail of the array": lambda: z[1:], "transposed array": lambda: z.transpose(), "reversed array": lambda: z[::-1]}[vd]()
        keep = [zel[i] for i in range(cnt) if i not in set(order.ravel().tolist())]
        for e in keep:
            x(e[0])
        zv.delete(verify=py.random() < 0.5)
        desc = f"deletion of {vd} {shape}"
        gone = [e.is_deleted() for e in zel]
        ctx.observe("array_delete", (desc, fa.n), True)
        ctx.require(gone == [i in set(order.ravel().tolist()) for i in range(cnt)], f"{desc}: deleted elements {[i for i, g in enumerate(gone) if g]}, expected {sorted(order.ravel().tolist())}")


FAMILIES = {f.__name__: f for f in (views, elementwise, inplace, logic, matmul, inplace_matrix, dots, measured, lifecycle)}
