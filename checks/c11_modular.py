PROPERTY = "C11"
RULE = (
    "one evaluation = the exact action of one modular operation on a random complex superposition of residues (every input decoded, every result decoded and compared with modular integer "
    "arithmetic, ancillas clean, phases kept), or one batch of wide-integer results compared with Python integers; distinct = distinct (operation, modulus, adder, inputs)"
)
PLAN = {
    "quick": {"inplace": 90, "outofplace": 90, "multiply": 50, "imultiply": 70, "compare": 40, "traced": 50, "wideint": 60, "shor_tools": 20, "functions": 80, "wide_moduli": 7},
    "thorough": {"inplace": 900, "outofplace": 900, "multiply": 400, "imultiply": 600, "compare": 400, "traced": 400, "wideint": 700, "shor_tools": 200, "functions": 1000, "wide_moduli": 100},
}
REQUIRED_MONITORS = ["inplace", "outofplace", "product", "inplace_product", "comparison", "traced", "wideint", "number_theory", "functions", "wide_moduli"]
ASSUMPTIONS = ["register contents are residues below the modulus", "factors of in-place products are coprime to the modulus", "moduli of products are odd"]
CASE_TIMEOUT = 240
# --- end of plan ---
import math
from fractions import Fraction

import numpy as np

from vlib import qs as Q
from vlib.harness import Skip, Violation

import qrisp
from qrisp import QuantumModulus, QuantumFloat, QuantumBool, control, invert

ADDERS = {"default": None, "gidney": qrisp.gidney_adder, "cuccaro": qrisp.cuccaro_adder, "fourier": qrisp.fourier_adder}


def merge_all(qubits):
    ss = []
    for q in qubits:
        s = q.qs() if callable(q.qs) else q.qs
        if all(s is not t for t in ss):
            ss.append(s)
    if len(ss) > 1:
        qrisp.merge(ss)


def judge(ctx, qc, regs, dom, f, monitor, what, decode=None, terms=16, live=True):
    """regs: registers; dom: number of allowed start values per register (1 = result register); f: decoded inputs -> decoded outputs"""
    if live:
        merge_all([q for r in regs for q in r])
    vals, amps = Q.random_input(ctx.rng, ctx.py, [len(r) for r in regs], terms, lambda p: [p.randrange(d) for d in dom])
    got = Q.amplitudes(qc, regs, Q.rows_for(qc, regs, vals, amps), what=what)
    ctx.observe(monitor, (what, tuple(vals)), True)
    exp = {}
    for v, a in zip(vals, amps):
        k = tuple(f(*v))
        exp[k] = exp.get(k, 0) + a
    dec = {}
    for k, a in got.items():
        if abs(a) < 1e-7:
            continue
        k2 = tuple(int(decode[i](x)) if decode and decode[i] and decode[i](x) == decode[i](x) else x for i, x in enumerate(k))
        dec[k2] = dec.get(k2, 0) + a
    d = Q.amp_diff(dec, exp, phase=True)
    if d > 1e-4:
        bad = sorted((k for k in set(dec) | set(exp) if abs(abs(dec.get(k, 0)) - abs(exp.get(k, 0))) > 1e-4), key=str)[:4]
        ctx.require(False, f"{what}: deviation {d:.3g}; values (got,expected) " + ", ".join(f"{k}:({dec.get(k, 0):.2f},{exp.get(k, 0):.2f})" for k in bad))


def setup(ctx, mods, hi_prob=0.0):
    py = ctx.py
    N = py.choice(mods)
    name = py.choice(["default", "default", "gidney", "cuccaro", "fourier"])
    return N, name, QuantumModulus(N, ADDERS[name]) if name != "default" else QuantumModulus(N)


SMALL = [2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 15]
ODD = [3, 5, 7, 9, 11, 13, 15]


def inplace(ctx):
    py = ctx.py
    N, name, a = setup(ctx, SMALL)
    op = py.choice(["+=", "-="])
    sg = 1 if op == "+=" else -1
    ctl = py.choice([None, None, 0, 1])
    inv = py.random() < 0.2
    cl = py.random() < 0.5
    c = py.choice([py.randrange(N), py.randrange(N), py.randint(-2 * N, 3 * N)])
    fl = not cl and py.random() < 0.2
    b = None if cl else (QuantumFloat(py.randint(1, a.size)) if fl else QuantumModulus(N))
    k = QuantumBool()
    ctx.last = f"a mod {N} {op} " + (f"{c}" if cl else ("QuantumFloat(%d)" % b.size if fl else f"b mod {N}")) + f" adder={name} control={ctl} inverted={inv}"
    ctx.sample(ctx.last)

    def go():
        nonlocal a
        if op == "+=":
            a += c if cl else b
        else:
            a -= c if cl else b

    def go2():
        if inv:
            with invert():
                go()
        else:
            go()

    if ctl is None:
        go2()
    else:
        with control(k[0], ctrl_state=ctl):
            go2()
    if inv:
        sg = -sg
    regs = [a.reg, k.reg] + ([] if cl else [b.reg])
    dom = [N, 2] + ([] if cl else [min(N, 1 << b.size)])

    def f(x, kv, *y):
        on = ctl is None or kv == ctl
        return ((x + sg * (c if cl else y[0])) % N if on else x, kv, *y)

    judge(ctx, a.qs, regs, dom, f, "inplace", ctx.last)


def outofplace(ctx):
    py = ctx.py
    N, name, a = setup(ctx, SMALL)
    op = py.choice(["a+b", "a-b", "a+c", "c+a", "a-c", "c-a"])
    b = QuantumModulus(N) if "b" in op else None
    c = py.choice([py.randrange(N), py.randint(-N, 2 * N)])
    ctx.last = f"{op} mod {N} c={c} adder={name}"
    ctx.sample(ctx.last)
    r = {"a+b": lambda: a + b, "a-b": lambda: a - b, "a+c": lambda: a + c, "c+a": lambda: c + a, "a-c": lambda: a - c, "c-a": lambda: c - a}[op]()
    regs = [a.reg] + ([b.reg] if b is not None else []) + [r.reg]

    def f(x, *y):
        v = {"a+b": lambda: x + y[0], "a-b": lambda: x - y[0], "a+c": lambda: x + c, "c+a": lambda: x + c, "a-c": lambda: x - c, "c-a": lambda: c - x}[op]() % N
        return (x, *y[:-1], v)

    ctx.require(isinstance(r, QuantumModulus) and r.modulus == N and r.m == a.m, f"{ctx.last}: result type")
    judge(ctx, a.qs, regs, [N] * (len(regs) - 1) + [1], f, "outofplace", ctx.last)


def multiply(ctx):
    py = ctx.py
    kind = py.choice(["qq", "qc", "cq", "square", "chain"])
    N, name, a = setup(ctx, [3, 5, 7] if kind in ("chain",) else ODD)
    if kind == "qq":
        b = QuantumModulus(N)
        ctx.last = f"a*b mod {N} adder={name}"
        r = a * b
        judge(ctx, a.qs, [a.reg, b.reg, r.reg], [N, N, 1], lambda x, y, z: (x, y, x * y % N), "product", ctx.last, [a.decoder, b.decoder, r.decoder], 10)
    elif kind == "square":
        ctx.last = f"a*a mod {N} adder={name}"
        r = a * a
        judge(ctx, a.qs, [a.reg, r.reg], [N, 1], lambda x, z: (x, x * x % N), "product", ctx.last, [a.decoder, r.decoder], 10)
    elif kind == "chain":
        b = QuantumModulus(N)
        r = a * b
        c = py.randrange(1, N)
        op = py.choice(["*=", "+c", "-c", "+=c", "r+r", "r-=r2"])
        ctx.last = f"r=a*b mod {N}, then {op} c={c}"
        outs = [r]
        if op == "*=":
            if math.gcd(c, N) != 1:
                raise Skip("factor not invertible")
            r *= c
            g = lambda x, y: (x * y * c % N,)
        elif op == "+c":
            s = r + c
            outs = [r, s]
            g = lambda x, y: (x * y % N, (x * y + c) % N)
        elif op == "-c":
            s = r - c
            outs = [r, s]
            g = lambda x, y: (x * y % N, (x * y - c) % N)
        elif op == "+=c":
            r += c
            g = lambda x, y: ((x * y + c) % N,)
        else:
            s = a * b if op == "r+r" else b * a
            if op == "r+r":
                t = r + s
                outs = [r, s, t]
                g = lambda x, y: (x * y % N, x * y % N, 2 * x * y % N)
            else:
                r -= s
                outs = [r, s]
                g = lambda x, y: (0, x * y % N)
        regs = [a, b] + outs
        judge(ctx, a.qs, [v.reg for v in regs], [N, N] + [1] * len(outs), lambda x, y, *z: (x, y, *g(x, y)), "product", ctx.last, [v.decoder for v in regs], 6)
    else:
        c = py.choice([py.randrange(1, N), py.randrange(0, N), py.randint(N, 3 * N)])
        ctx.last = f"{'a*c' if kind == 'qc' else 'c*a'} mod {N}, c={c} adder={name}"
        r = a * c if kind == "qc" else c * a
        judge(ctx, a.qs, [a.reg, r.reg], [N, 1], lambda x, z: (x, x * c % N), "product", ctx.last, [a.decoder, r.decoder] if hasattr(r, "decoder") else None, 10)
    ctx.sample(ctx.last)


def imultiply(ctx):
    py = ctx.py
    N, name, a = setup(ctx, ODD)
    c = py.choice([x for x in range(1, 2 * N) if math.gcd(x, N) == 1])
    ctl = py.choice([None, None, 0, 1])
    inv = py.random() < 0.25
    k = QuantumBool()
    ctx.last = f"a mod {N} *= {c} adder={name} control={ctl} inverted={inv}"
    ctx.sample(ctx.last)

    def go():
        nonlocal a
        if inv:
            with invert():
                a *= c
        else:
            a *= c

    if ctl is None:
        go()
    else:
        with control(k[0], ctrl_state=ctl):
            go()
    cc = pow(c, -1, N) if inv else c
    judge(ctx, a.qs, [a.reg, k.reg], [N, 2], lambda x, kv: (x * cc % N if ctl is None or kv == ctl else x, kv), "inplace_product", ctx.last, [a.decoder, None], 12)


CMP = {"<": lambda a, b: a < b, ">": lambda a, b: a > b, "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b, "==": lambda a, b: a == b, "!=": lambda a, b: a != b}


def compare(ctx):
    py = ctx.py
    N, name, a = setup(ctx, SMALL)
    op = py.choice(list(CMP))
    cl = py.random() < 0.5
    c = py.randrange(N)
    b = None if cl else QuantumModulus(N)
    ctx.last = f"a mod {N} {op} {c if cl else 'b'} adder={name}"
    ctx.sample(ctx.last)
    r = CMP[op](a, c if cl else b)
    regs = [a.reg] + ([] if cl else [b.reg]) + [r.reg]
    judge(ctx, a.qs, regs, [N] * (len(regs) - 1) + [1], lambda x, *y: (x, *y[:-1], int(CMP[op](x, c if cl else y[0]))), "comparison", ctx.last)


def traced(ctx):
    from qrisp.jasp import make_jaspr
    from qrisp import Qubit

    py = ctx.py
    op = py.choice(["+=c", "-=c", "*=c", "+=q", "-=q", "a+b", "a-b", "*", "c-a", "<"])
    N = py.choice(ODD)
    c = py.choice([x for x in range(1, N) if math.gcd(x, N) == 1])
    ctl = op in ("+=c", "-=c", "*=c", "+=q", "-=q") and py.random() < 0.5
    st = py.choice([0, 1])
    ctx.last = f"traced mod {N} {op} c={c} control={st if ctl else None}"
    ctx.sample(ctx.last)

    def main(N, c):
        a = QuantumModulus(N)
        b = QuantumModulus(N)
        k = QuantumBool()

        def go(a):
            if op == "+=c":
                a += c
            elif op == "-=c":
                a -= c
            elif op == "*=c":
                a *= c
            elif op == "+=q":
                a += b
            elif op == "-=q":
                a -= b

        if ctl:
            with control(k[0], ctrl_state=st):
                go(a)
            return a, b, k
        if op in ("a+b", "a-b", "*", "c-a", "<"):
            r = {"a+b": lambda: a + b, "a-b": lambda: a - b, "*": lambda: a * b, "c-a": lambda: c - a, "<": lambda: a < b}[op]()
            return a, b, k, r
        go(a)
        return a, b, k

    static_mod = py.random() < 0.5
    if static_mod:
        out = make_jaspr(lambda c: main(N, c))(1).to_qc(c)
    else:
        out = make_jaspr(main)(3, 1).to_qc(N, c)
    regs = [list(x) for x in out[:-1] if isinstance(x, (list, tuple)) and x and isinstance(x[0], Qubit)]
    qc = out[-1]

    def f(x, y, kv, *z):
        on = not ctl or kv == st
        v = {"+=c": x + c, "-=c": x - c, "*=c": x * c, "+=q": x + y, "-=q": x - y}.get(op, x) % N
        res = (v if on else x, y, kv)
        if z:
            res += ({"a+b": (x + y) % N, "a-b": (x - y) % N, "*": x * y % N, "c-a": (c - x) % N, "<": int(x < y)}[op],)
        return res

    decode = None
    if op == "*":
        # result in Montgomery form: the shift is returned with the variable
        ms = [int(x) for x in out[:-1] if not isinstance(x, (list, tuple)) and np.ndim(x) == 0]
        R = 2 ** (2 * len(regs[0]))

        # the decoded value is what the library reports; it is asked through the jdecoder of an equally shifted variable
        res_m = [m for m in ms if m not in (N,)]
        raise_if = len(regs) < 4
        v = QuantumModulus(N)
        shifts = sorted(set(res_m))
        if raise_if or not shifts:
            raise Skip("no shift information")
        v.m = ms[-1]
        decode = [None, None, None, v.decoder]
    judge(ctx, qc, regs, [N, N, 2] + [1] * (len(regs) - 3), f, "traced", ctx.last, decode, 10, live=False)


def wideint(ctx):
    from qrisp.alg_primitives.arithmetic.jasp_arithmetic.jasp_bigintiger import BigInteger

    py = ctx.py
    n = py.randint(1, 4)
    B = 1 << (32 * n)

    def pick():
        return py.choice([py.randrange(B), py.randrange(1 << py.randint(1, 32 * n)), B - 1, B - py.randint(1, 3), py.randrange(3), (1 << (32 * py.randint(0, n - 1))) * py.randrange(1, 1 << 32) % B])

    a, b = pick(), pick()
    A, Bi = BigInteger.create_static(a, n), BigInteger.create_static(b, n)
    s = py.randrange(0, 32 * n + 2)
    e = py.randrange(0, 6)
    ctx.last = f"{n} limbs a={a:#x} b={b:#x} s={s}"
    ctx.sample(ctx.last)
    res = {"value": A(), "a+b": (A + Bi)(), "a-b": (A - Bi)(), "a*b": (A * Bi)(), "a<<s": (A << s)(), "a>>s": (A >> s)(), "a&b": (A & Bi)(), "a|b": (A | Bi)(), "a^b": (A ^ Bi)(), "~a": (~A)(), "a**e": (A**e)()}
    want = {"value": a, "a+b": a + b, "a-b": a - b, "a*b": a * b, "a<<s": a << s, "a>>s": a >> s, "a&b": a & b, "a|b": a | b, "a^b": a ^ b, "~a": ~a, "a**e": a**e}
    for c in CMP:
        res["a" + c + "b"] = int(CMP[c](A, Bi))
        want["a" + c + "b"] = int(CMP[c](a, b))
    res["bits"] = int(A.bit_size())
    want["bits"] = a.bit_length()
    i = py.randrange(32 * n)
    res["bit"], want["bit"] = int(A.get_bit(i)), a >> i & 1
    res["flip"], want["flip"] = A.flip_bit(i)(), a ^ (1 << i)
    if b:
        res["a//b"], want["a//b"] = (A // Bi)(), a // b
        res["a%b"], want["a%b"] = (A % Bi)(), a % b
    ctx.observe("wideint", ctx.last, True)
    for k in want:
        ctx.require(int(res[k]) % B == want[k] % B, f"{ctx.last}: {k} gave {int(res[k]):#x}, expected {want[k] % B:#x}")
    if py.random() < 0.5 and a < 1 << 63:
        ctx.require(BigInteger.create(a, n)() == a, f"{ctx.last}: dynamic creation")


def shor_tools(ctx):
    """modular inverse, gcd, Montgomery form and continued fractions against Python integers"""
    from qrisp.alg_primitives.arithmetic.jasp_arithmetic import jasp_bigintiger as J
    from qrisp.alg_primitives.arithmetic.jasp_arithmetic import jasp_mod_tools as T

    py = ctx.py
    n = 3
    BI = lambda x: J.BigInteger.create_static(x, n)
    B = 1 << (32 * n)
    m = py.randrange(3, 1 << py.choice([4, 10, 33, 40])) | 1
    a = py.randrange(1, m)
    while math.gcd(a, m) != 1:
        a = py.randrange(1, m)
    ctx.last = f"a={a} m={m}"
    ctx.sample(ctx.last)
    ctx.observe("number_theory", ctx.last, True)
    r = J.bi_modinv(BI(a), BI(m))()
    ctx.require(r == pow(a, -1, m), f"{ctx.last}: modular inverse {r}")
    x, y = py.randrange(1, 1 << 40), py.randrange(1, 1 << 40)
    g, u, v = J.bi_extended_euclidean(BI(x), BI(y))
    ctx.require(g() == math.gcd(x, y) and (x * u() + y * v()) % B == math.gcd(x, y), f"extended gcd of {x}, {y}: {g()}, {u()}, {v()}")
    R = 1 << (m.bit_length())
    enc = J.bi_montgomery_encode(BI(a), BI(R), BI(m))()
    ctx.require(enc == a * R % m, f"{ctx.last}: Montgomery form {enc}")
    ctx.require(J.bi_montgomery_decode(BI(enc), BI(R), BI(m))() == a, f"{ctx.last}: Montgomery round trip")
    t = 2 * min(m.bit_length(), 20)
    num, den = py.randrange(1, 1 << t), 1 << t
    bound = py.randrange(1, 1 << (t // 2))
    p, q = J.bi_contfrac_best_approx(BI(num), BI(den), max_den=BI(bound))
    p, q = p(), q()
    f = Fraction(num, den)
    best = f.limit_denominator(bound)
    ctx.require(0 < q <= bound, f"continued fraction of {num}/{den} bound {bound}: denominator {q}")
    # a convergent or an intermediate convergent: at least as good as every fraction of smaller denominator from its side
    conv = list(convergents(num, den))
    ok = (p, q) in conv or any(p == (p1 * k + p0) and q == (q1 * k + q0) for (p0, q0), (p1, q1) in zip([(0, 1), (1, 0)] + conv, [(1, 0)] + conv) for k in range(0, 1 + (bound // q1 if q1 else 0)) if q1 and k < 10**4)
    ctx.require(ok or Fraction(p, q) == best, f"continued fraction of {num}/{den} bound {bound}: {p}/{q} is no (intermediate) convergent, best is {best}")
    if best == f:
        ctx.require(Fraction(p, q) == f, f"continued fraction of {num}/{den} bound {bound}: exact value missed")
    small, N = py.randrange(1, 1 << 20), py.randrange(3, 1 << 16) | 1
    ctx.require(int(T.modinv(small % N if math.gcd(small % N, N) == 1 else 1, N)) == pow(small % N if math.gcd(small % N, N) == 1 else 1, -1, N), f"modinv({small % N},{N})")
    ex = py.randrange(0, 40)
    ctx.require(int(T.pow2mod(ex, N)) == pow(2, ex, N), f"pow2mod({ex},{N}) = {int(T.pow2mod(ex, N))}")
    ctx.require(int(T.pow2_mod_N(ex, N)) == pow(2, ex, N), f"run-time pow2mod({ex},{N}) = {int(T.pow2_mod_N(ex, N))}")
    rd = 1 << py.randint(1, 12)
    e2 = int(T.montgomery_encoder(small % N, rd, N))
    ctx.require(e2 == (small % N) * rd % N and int(T.montgomery_decoder(e2, rd, N)) == small % N, f"Montgomery form of {small % N} mod {N} radix {rd}: {e2}")
    sh = py.randint(-6, 6)
    ctx.require(int(T.new_montgomery_decoder(small % N, sh, N)) == (small % N) * pow(2, -sh, N) % N, f"value of {small % N} mod {N} shifted by {sh}")
    if py.random() < 0.2:
        ctx.require(T.pow2mod(ex, BI(m))() == pow(2, ex, m), f"wide pow2mod({ex},{m}) = {T.pow2mod(ex, BI(m))()}")
        ctx.require(T.new_montgomery_decoder(BI(a), sh, BI(m))() == a * pow(2, -sh, m) % m, f"wide value of {a} mod {m} shifted by {sh}")
    ctx.require(int(T.smallest_power_of_two(small)) == max(0, (small - 1).bit_length()), f"smallest power of two of {small}")
    S, u = qrisp.cl_montgomery_reduction(y % (N << 8), N, 8)
    ctx.require(S == (y % (N << 8)) * pow(256, -1, N) % N, f"classical reduction of {y % (N << 8)} mod {N}: {S}")


def functions(ctx):
    """the building blocks offered for modular arithmetic, called directly"""
    py = ctx.py
    kind = py.choice(["cq", "cq_montgomery", "cq_into", "cq_inplace", "cq_inplace_montgomery", "qq", "reduction", "semi_inplace", "qft_semi_inplace", "semi", "mod_mul_into", "mod_adder", "beauregard", "jasp_mod_adder", "shifted_addition"])
    N, name, a = setup(ctx, ODD if kind not in ("mod_adder", "beauregard", "jasp_mod_adder") else SMALL)
    adder = ADDERS[name] or qrisp.gidney_adder
    n = a.size
    c = py.choice([x for x in range(1, N) if math.gcd(x, N) == 1])
    cc = py.choice([c, py.randrange(1, N)])
    ctl = py.choice([None, None, "env", "arg"]) if kind in ("cq_inplace", "cq_inplace_montgomery", "semi_inplace", "qft_semi_inplace", "mod_adder") else None
    if kind in ("semi_inplace", "qft_semi_inplace", "mod_adder") and ctl == "arg":
        ctl = "env"
    k = QuantumBool()
    ctx.last = f"{kind} mod {N} factor {c if 'inplace' in kind else cc} adder={name} control={ctl}"
    ctx.sample(ctx.last)

    def run(f):
        if ctl == "env":
            with control(k[0]):
                f()
        elif ctl == "arg":
            f(ctrl=k[0])
        else:
            f()

    on = lambda kv: ctl is None or kv == 1
    from qrisp.alg_primitives.arithmetic.jasp_arithmetic.jasp_mod_tools import best_montgomery_shift

    if kind in ("cq", "cq_montgomery", "cq_into"):
        m = n if kind == "cq_montgomery" else best_montgomery_shift(cc, N)
        R = 1 << m
        kw = {"x_is_montgomery": True} if kind == "cq_montgomery" else {}
        X = cc * R % N if kind == "cq_montgomery" else cc
        y = QuantumFloat(n)
        r = QuantumFloat(n) if kind == "cq_into" else None
        if r is not None:
            kw["res"] = r
        r = qrisp.cq_montgomery_multiply(X, y, N, m, adder, **kw)
        judge(ctx, y.qs, [y.reg, r.reg], [N, 1], lambda x, z: (x, x * cc % N), "functions", ctx.last, None, 10)
    elif kind in ("cq_inplace", "cq_inplace_montgomery"):
        m = n if kind == "cq_inplace_montgomery" else best_montgomery_shift(c, N)
        X = c * (1 << m) % N if kind == "cq_inplace_montgomery" else c
        y = QuantumFloat(n)
        kw = {"x_is_montgomery": True} if kind == "cq_inplace_montgomery" else {}
        if kind == "cq_inplace_montgomery" and X == 1:
            raise Skip("factor one in shifted form")
        run(lambda **o: qrisp.cq_montgomery_multiply_inplace(X, y, N, m, adder, **kw, **o))
        judge(ctx, y.qs, [y.reg, k.reg], [N, 2], lambda x, kv: (x * c % N if on(kv) else x, kv), "functions", ctx.last, None, 10)
    elif kind == "qq":
        if name == "fourier":
            raise Skip("this adder refuses summands wider than the target")
        x_, y_ = QuantumFloat(n), QuantumFloat(n)
        m = n
        r = qrisp.qq_montgomery_multiply(x_, y_, N, m, adder)
        Ri = pow(1 << m, -1, N)
        judge(ctx, x_.qs, [x_.reg, y_.reg, r.reg], [N, N, 1], lambda x, y, z: (x, y, x * y * Ri % N), "functions", ctx.last, None, 8)
    elif kind == "reduction":
        m = py.randint(1, n)
        q = QuantumFloat(n + m + 1)
        qrisp.q_montgomery_reduction(q, N, m, adder)
        Ri = pow(1 << m, -1, N)
        vals, amps = Q.random_input(ctx.rng, py, [len(q.reg)], 10, lambda p: [p.randrange(N << m)])
        got = Q.amplitudes(q.qs, [q.reg], Q.rows_for(q.qs, [q.reg], vals, amps), what=ctx.last)
        ctx.observe("functions", (ctx.last, tuple(vals)), True)
        Ni = pow(N, -1, 1 << (m + 1))
        exp = {}
        for (t,), am in zip(vals, amps):
            exp[((t * Ri % N) << (m + 1) | t * Ni % (1 << (m + 1)),)] = am
        d = Q.amp_diff({kk: v for kk, v in got.items() if abs(v) > 1e-7}, exp, phase=True)
        ctx.require(d < 1e-4, f"{ctx.last} shift {m}: deviation {d:.3g}")
    elif kind in ("semi_inplace", "qft_semi_inplace"):
        f = qrisp.semi_cl_inpl_mult if kind == "semi_inplace" else qrisp.qft_semi_cl_inpl_mult
        inv = py.random() < 0.2
        if inv:
            ctx.last += " inverted"

        def go():
            if inv:
                with invert():
                    f(a, c)
            else:
                f(a, c)

        run(go)
        e = pow(c, -1, N) if inv else c
        judge(ctx, a.qs, [a.reg, k.reg], [N, 2], lambda x, kv: (x * e % N if on(kv) else x, kv), "functions", ctx.last, [a.decoder, None], 10)
    elif kind == "semi":
        r = qrisp.montgomery_mod_semi_mul(a, cc)
        judge(ctx, a.qs, [a.reg, r.reg], [N, 1], lambda x, z: (x, x * cc % N), "functions", ctx.last, [a.decoder, r.decoder], 10)
    elif kind == "mod_mul_into":
        b = QuantumModulus(N, ADDERS[name]) if name != "default" else QuantumModulus(N)
        r = qrisp.montgomery_mod_mul(a, b)
        judge(ctx, a.qs, [a.reg, b.reg, r.reg], [N, N, 1], lambda x, y, z: (x, y, x * y % N), "functions", ctx.last, [a.decoder, b.decoder, r.decoder], 8)
    elif kind == "mod_adder":
        quantum = py.random() < 0.5
        b = QuantumModulus(N)
        run(lambda: qrisp.mod_adder(b if quantum else cc, a, adder, N))
        judge(ctx, a.qs, [a.reg, b.reg, k.reg], [N, N, 2], lambda x, y, kv: ((x + (y if quantum else cc)) % N if on(kv) else x, y, kv), "functions", ctx.last + (" quantum" if quantum else ""))
    elif kind == "beauregard":
        quantum = py.random() < 0.5
        f, g = QuantumFloat(n), QuantumFloat(n)
        qrisp.beauregard_adder(f, g if quantum else cc, N)
        judge(ctx, f.qs, [f.reg, g.reg], [N, N], lambda x, y: ((x + (y if quantum else cc)) % N, y), "functions", ctx.last + (" quantum" if quantum else ""))
    elif kind == "jasp_mod_adder":
        quantum = py.random() < 0.5
        f, g = QuantumFloat(n + 1), QuantumFloat(n)
        qrisp.jasp_mod_adder(g if quantum else cc, f, N, adder)
        judge(ctx, f.qs, [f.reg, g.reg], [N, N], lambda x, y: ((x + (y if quantum else cc)) % N, y), "functions", ctx.last + (" quantum" if quantum else ""))
    else:
        if N > 7:
            raise Skip("too wide")
        b = QuantumModulus(N)
        r = a * b
        t = QuantumModulus(N)
        t += r
        judge(ctx, a.qs, [a.reg, b.reg, r.reg, t.reg], [N, N, 1, 1], lambda x, y, z, w: (x, y, x * y % N, x * y % N), "functions", ctx.last, [a.decoder, b.decoder, r.decoder, t.decoder], 6)


def wide_moduli(ctx):
    """modular numbers whose modulus does not fit a machine word, followed on basis states by the classical simulator of traced programs"""
    from qrisp.jasp import boolean_simulation
    from qrisp import measure
    from qrisp.alg_primitives.arithmetic.jasp_arithmetic.jasp_bigintiger import BigInteger

    py = ctx.py
    limbs = py.choice([1, 2, 2, 3])
    kinds = ["*=c", "a*b", "a*c", "*=ctrl", "-=b", "+=ctrl", "-=c", "+=b", "+=c"]
    ops = [kinds[ctx.index % len(kinds)]]
    cases = []
    for _ in range(4):
        w = py.randint(2, 20) if limbs == 1 else py.randint(32 * (limbs - 1) - 3, 32 * (limbs - 1) + 4)
        N = py.randrange(1 << (w - 1), 1 << w) | 1
        if N < 3:
            N = 3
        c = py.randrange(1, N)
        while math.gcd(c, N) != 1:
            c = py.randrange(1, N)
        cases.append((N, c, py.randrange(N), py.randrange(N)))
    ctx.last = f"{limbs} limbs {ops} {cases}"
    ctx.sample(ctx.last)

    @boolean_simulation
    def main(*digits):
        N, c, v, w = [BigInteger(d) for d in digits]
        a, b = QuantumModulus(N), QuantumModulus(N)
        a[:] = v
        b[:] = w
        k, z = QuantumBool(), QuantumBool()
        k.flip()
        out = []
        for op in ops:
            if op == "+=c":
                a += c
            elif op == "-=c":
                a -= c
            elif op == "*=c":
                a *= c
            elif op == "+=b":
                a += b
            elif op == "-=b":
                a -= b
            elif op == "a*c":
                r = a * c
                out.append(measure(r))
            elif op == "a*b":
                r = a * b
                out.append(measure(r))
            elif op == "*=ctrl":
                with control(k[0]):
                    a *= c
                with control(z[0]):
                    a *= c
            else:
                with control(z[0]):
                    a += c
                with control(k[0]):
                    a += c
            out.append(measure(a))
        out.append(measure(b))
        return tuple(out)

    BI = lambda x: BigInteger.create_static(x, limbs)
    for N, c, v, w in cases:
        got = [x() for x in main(*[BI(x).digits for x in (N, c, v, w)])]
        a, want = v, []
        for op in ops:
            if op in ("+=c", "+=ctrl"):
                a = (a + c) % N
            elif op == "-=c":
                a = (a - c) % N
            elif op in ("*=c", "*=ctrl"):
                a = a * c % N
            elif op == "+=b":
                a = (a + w) % N
            elif op == "-=b":
                a = (a - w) % N
            elif op == "a*c":
                want.append(a * c % N)
            else:
                want.append(a * w % N)
            want.append(a)
        want.append(w)
        ctx.observe("wide_moduli", (ctx.last, N), True)
        ctx.require([int(x) for x in got] == want, f"{ops} with {limbs} limbs, N={N} c={c} a={v} b={w}: {[int(x) for x in got]} instead of {want}")


def convergents(a, b):
    p0, p1, q0, q1 = 0, 1, 1, 0
    while b:
        k, r = divmod(a, b)
        p0, p1 = p1, k * p1 + p0
        q0, q1 = q1, k * q1 + q0
        yield p1, q1
        a, b = b, r


FAMILIES = {"inplace": inplace, "outofplace": outofplace, "multiply": multiply, "imultiply": imultiply, "compare": compare, "traced": traced, "functions": functions, "wide_moduli": wide_moduli, "wideint": wideint, "shor_tools": shor_tools}
