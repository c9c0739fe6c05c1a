PROPERTY = "C09"
RULE = (
    "one evaluation = the exact action of one in-place adder circuit on a random complex superposition of operand values, compared with integer addition modulo the "
    "target size (other operands unchanged, carry out xored, ancillas clean); distinct = distinct (adder call, input set)"
)
PLAN = {
    "quick": {"quantum": 220, "classical": 220, "environment": 200, "increments": 120, "floats": 90, "dynamic": 90, "venting": 24},
    "thorough": {"quantum": 2500, "classical": 2500, "environment": 2200, "increments": 1200, "floats": 900, "dynamic": 600, "venting": 100},
}
REQUIRED_MONITORS = ["qq_add", "cq_add", "controlled_add", "increment", "float_add", "traced_add", "vented_add"]
ASSUMPTIONS = ["a carry-out qubit is the bit above the target: it is xored with the carry"]
CASE_TIMEOUT = 180
# --- end of plan ---
import numpy as np

from vlib import ref, qs as Q
from vlib.harness import Skip, Violation

import qrisp
from qrisp import QuantumVariable, QuantumBool, QuantumFloat, control, invert

RAW = ["gidney", "cuccaro", "fourier", "qcla"]


def size(py, hi=7):
    return py.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, hi])


def build(py, name, m, n, classical, allow_carry=True):
    """returns (call(**kw), groups, sizes, carry flags) for  b += a"""
    a = None if classical is not None else QuantumFloat(m)
    b = QuantumFloat(n)
    cin = QuantumBool() if allow_carry and name in ("gidney", "cuccaro") and py.random() < 0.4 else None
    cout = QuantumBool() if allow_carry and name in ("gidney", "cuccaro") and py.random() < 0.4 else None
    return a, b, cin, cout


def invoke(py, name, a, b, cin, cout, opts, form):
    aa = list(a) if form == "list" and not isinstance(a, (int, str)) else a
    bb = list(b) if form == "list" else b
    kw = {}
    if name in ("gidney", "cuccaro"):
        if cin is not None:
            kw["c_in"] = cin if opts["qb"] else cin[0]
        if cout is not None:
            kw["c_out"] = cout if opts["qb"] else cout[0]
        (qrisp.gidney_adder if name == "gidney" else qrisp.cuccaro_adder)(aa, bb, **kw)
    elif name == "fourier":
        qrisp.fourier_adder(aa, bb)
    elif name == "qcla":
        qrisp.qcla(aa, bb, radix_base=opts["rb"], radix_exponent=opts["re"], t_depth_reduction=opts["tdr"])
    else:
        raise ValueError(name)


def options(py):
    return {"qb": py.random() < 0.5, "rb": py.choice([2, 2, 3]), "re": py.choice([0, 1, 1, 2]), "tdr": py.random() < 0.5}


def semantics(n, kind, c, sign, has_cin, has_cout, ctrl_hit=lambda *_: True):
    """value map on the tuple (ctrl?, a?, b, cin?, cout?)"""

    def add(av, bv, cinv, coutv):
        t = bv | ((coutv << n) if has_cout else 0)
        M = 1 << (n + (1 if has_cout else 0))
        if has_cout:
            # the carry is xored into the carry-out bit
            if sign > 0:
                s = bv + (av % (1 << n)) + (cinv if has_cin else 0)
                return s % (1 << n), coutv ^ (s >> n & 1)
            nb = (bv - (av % (1 << n)) - (cinv if has_cin else 0)) % (1 << n)
            s = nb + (av % (1 << n)) + (cinv if has_cin else 0)
            return nb, coutv ^ (s >> n & 1)
        return (bv + sign * (av + (cinv if has_cin else 0))) % (1 << n), coutv

    return add


def quantum(ctx):
    py = ctx.py
    name = py.choice(RAW)
    n = size(py)
    m = size(py) if name in ("gidney", "cuccaro") else py.randint(1, n)
    if name == "qcla" and py.random() < 0.5:
        m = n
    a, b, cin, cout = build(py, name, m, n, None)
    o = options(py)
    form = "list" if name in ("gidney", "fourier", "qcla") and py.random() < 0.3 else "var"
    ctx.last = f"{name} |a|={m} |b|={n} cin={cin is not None} cout={cout is not None} form={form}" + (f" {o}" if name == "qcla" else "")
    ctx.sample(ctx.last)
    inv = py.random() < 0.25
    if inv:
        ctx.last += " inverted"
        with invert():
            invoke(py, name, a, b, cin, cout, o, form)
    else:
        invoke(py, name, a, b, cin, cout, o, form)
    run(ctx, name, a, b, cin, cout, None, None, n, m, None, -1 if inv else 1, "qq_add")


def run(ctx, name, a, b, cin, cout, ctrl, st, n, m, c, sign, monitor, qc=None):
    groups, sizes = [], []
    for g, s in ((ctrl, 0 if ctrl is None else ctrl.size), (a, m), (b, n), (cin, 1), (cout, 1)):
        if g is not None:
            groups.append(g)
            sizes.append(s)
    add = semantics(n, None, c, sign, cin is not None, cout is not None)

    def f(*v):
        v = list(v)
        cv = v.pop(0) if ctrl is not None else None
        av = v.pop(0) if a is not None else c
        bv = v.pop(0)
        ci = v.pop(0) if cin is not None else 0
        co = v.pop(0) if cout is not None else 0
        nb, nco = bv, co
        if cv is None or cv == st:
            nb, nco = add(av, bv, ci, co)
        out = []
        if cv is not None:
            out.append(cv)
        if a is not None:
            out.append(av)
        out.append(nb)
        if cin is not None:
            out.append(ci)
        if cout is not None:
            out.append(nco)
        return tuple(out)

    extra = []
    if ctrl is not None:
        for _ in range(6):
            extra.append(tuple([st] + [ctx.py.randrange(2**s) for s in sizes[1:]]))
    if qc is None:
        qc = groups[0].qs if not isinstance(groups[0], list) else groups[0][0].qs()
        if len(groups) > 1:
            qrisp.merge([g.qs for g in groups])
            qc = groups[0].qs
    Q.judge_map(ctx, qc, groups, sizes, f, ctx.last, monitor, extra=extra)


def classical(ctx):
    py = ctx.py
    name = py.choice(RAW)
    n = size(py, 8)
    lo = -(2**n) if name in ("gidney", "fourier", "cuccaro") else 0
    c = py.choice([py.randrange(2**n), py.randrange(2**n), 0, 1, 2**n - 1, 2 ** (n - 1), py.randrange(lo, 2 ** (n + 1))])
    if name == "cuccaro":
        c %= 2**n
    if name == "qcla":
        c %= 2**n
    _, b, cin, cout = build(py, name, 0, n, c)
    o = options(py)
    arg = c
    if name in ("gidney",) and 0 <= c < 2**n and py.random() < 0.15:
        arg = "".join(str((c >> i) & 1) for i in range(n))
    form = "list" if name in ("gidney", "fourier", "qcla") and py.random() < 0.3 else "var"
    ctx.last = f"{name} c={arg!r} |b|={n} cin={cin is not None} cout={cout is not None} form={form}" + (f" {o}" if name == "qcla" else "")
    ctx.sample(ctx.last)
    inv = py.random() < 0.25
    if inv:
        ctx.last += " inverted"
        with invert():
            invoke(py, name, arg, b, cin, cout, o, form)
    else:
        invoke(py, name, arg, b, cin, cout, o, form)
    run(ctx, name, None, b, cin, cout, None, None, n, 0, c, -1 if inv else 1, "cq_add")


def environment(ctx):
    """adders called inside control environments (custom controlled versions)"""
    py = ctx.py
    name = py.choice(RAW)
    n = py.choice([1, 2, 3, 3, 4, 5])
    k = py.choice([1, 1, 1, 2])
    ctrl = QuantumVariable(k)
    st = 2**k - 1 if py.random() < 0.6 else py.randrange(2**k)
    cl = py.random() < 0.5
    o = options(py)
    c = py.randrange(2**n) if cl else None
    m = 0 if cl else (py.choice([n, n, py.randint(1, 5)]) if name in ("gidney", "cuccaro") else py.randint(1, n))
    a, b, cin, cout = build(py, name, m, n, c)
    inv = py.random() < 0.25
    s = "".join(str((st >> i) & 1) for i in range(k))
    ctx.last = f"controlled({s}) {name} " + (f"c={c}" if cl else f"|a|={m}") + f" |b|={n} cin={cin is not None} cout={cout is not None} inv={inv}" + (f" {o}" if name == "qcla" else "")
    ctx.sample(ctx.last)
    qrisp.merge([ctrl.qs, b.qs] + ([a.qs] if a is not None else []))
    if inv and py.random() < 0.5:
        with control(list(ctrl), s):
            with invert():
                invoke(py, name, c if cl else a, b, cin, cout, o, "var")
    elif inv:
        with invert():
            with control(list(ctrl), s):
                invoke(py, name, c if cl else a, b, cin, cout, o, "var")
    else:
        with control(list(ctrl), s):
            invoke(py, name, c if cl else a, b, cin, cout, o, "var")
    run(ctx, name, a, b, cin, cout, ctrl, st, n, m, c, -1 if inv else 1, "controlled_add")


def increments(ctx):
    py = ctx.py
    r = py.choice(["increment", "lin", "remaud"])
    if r == "increment":
        n = py.randint(2, 6)
        e = py.choice([0, 0, -1, -2, 1])
        signed = py.random() < 0.3
        qf = QuantumFloat(n, e, signed=signed)
        tot = qf.size
        k = py.randrange(1, 2**n)
        if signed and py.random() < 0.5:
            pass
        neg = py.random() < 0.4
        amount = (-k if neg else k) * 2.0**e
        if e >= 0:
            amount = int(amount)
        ctx.last = f"increment QuantumFloat({n},{e},signed={signed}) by {amount}"
        ctx.sample(ctx.last)
        from qrisp.alg_primitives.arithmetic.adders.incrementation import increment

        increment(qf, amount)
        d = -k if neg else k
        Q.judge_map(ctx, qf.qs, [qf], [tot], lambda v: ((v + d) % 2**tot,), ctx.last, "increment")
    elif r == "lin":
        n = py.randint(1, 6)
        a = QuantumVariable(n)
        ci = QuantumBool()
        co = QuantumBool() if py.random() < 0.5 else None
        ctx.last = f"lin_incr n={n} c_out={co is not None}"
        from qrisp.alg_primitives.arithmetic.adders.incrementation import lin_incr

        lin_incr(list(a), c_in=ci[0], c_out=None if co is None else co[0])
        qrisp.merge([a.qs, ci.qs] + ([co.qs] if co is not None else []))
        if co is None:
            Q.judge_map(ctx, a.qs, [a, ci], [n, 1], lambda v, c: ((v + c) % 2**n, c), ctx.last, "increment")
        else:
            Q.judge_map(ctx, a.qs, [a, ci, co], [n, 1, 1], lambda v, c, z: ((v + c) % 2**n, c, z ^ ((v + c) >> n)), ctx.last, "increment")
    else:
        n = py.randint(2, 7)
        a, b, z = QuantumFloat(n), QuantumFloat(n), QuantumFloat(1)
        ctx.last = f"remaud_adder n={n}"
        try:
            qrisp.remaud_adder(a, b, z)
        except TypeError:
            if n < 4:
                raise Skip("refused: the ladder construction needs at least 4 qubits")
            raise
        Q.judge_map(ctx, a.qs, [a, b, z], [n, n, 1], lambda x, y, c: (x, (x + y) % 2**n, c ^ ((x + y) >> n)), ctx.last, "increment")


def floats(ctx):
    """inpl_add: adds one fixed point number onto another"""
    py = ctx.py
    e1 = py.choice([0, -1, -2])
    e2 = py.randint(e1, e1 + 2)
    n1, n2 = py.randint(2, 5), py.randint(1, 5)
    s1 = py.random() < 0.6
    s2 = s1 and py.random() < 0.6
    a = QuantumFloat(n1, e1, signed=s1)
    b = QuantumFloat(n2, e2, signed=s2)
    if a.mshape[1] < b.mshape[1]:
        raise Skip("second operand does not fit")
    if e2 > e1 + n1 - 1:
        raise Skip("operands do not overlap")
    if not s1 and a.mshape[1] == b.mshape[1] and n1 < 2:
        raise Skip("too small")
    ctx.last = f"inpl_add QuantumFloat({n1},{e1},signed={s1}) += QuantumFloat({n2},{e2},signed={s2})"
    ctx.sample(ctx.last)
    try:
        qrisp.inpl_add(a, b)
    except Exception as ex:
        if type(ex) is Exception:
            raise Skip("refused: " + str(ex)[:60])
        raise
    t1, t2 = a.size, b.size

    def f(x, y):
        yv = y - (1 << t2) if s2 and y >> (t2 - 1) else y
        return (x + (yv << (e2 - e1))) % (1 << t1), y

    Q.judge_map(ctx, a.qs, [a, b], [t1, t2], f, ctx.last, "float_add")


def dynamic(ctx):
    from qrisp.jasp import make_jaspr

    py = ctx.py
    name = py.choice(["gidney", "gidney", "cuccaro", "fourier", "qcla"])
    n = py.choice([1, 2, 3, 4, 5])
    m = n if name != "gidney" and name != "cuccaro" else py.randint(1, 5)
    cl = py.random() < 0.5
    c = py.randrange(2**n)
    ctl = py.random() < 0.4
    st = py.choice([0, 1, 1])
    use_cin = name in ("gidney", "cuccaro") and py.random() < 0.4
    use_cout = name in ("gidney", "cuccaro") and py.random() < 0.4
    if name == "qcla":
        raise Skip("only static")
    inv = py.random() < 0.25
    ctx.last = f"traced {name} " + (f"c={c}" if cl else f"|a|={m}") + f" |b|={n} ctrl={st if ctl else None} cin={use_cin} cout={use_cout} inv={inv}"
    ctx.sample(ctx.last)

    def call(a, b, cin, cout):
        if name == "gidney":
            qrisp.gidney_adder(a, b, c_in=cin, c_out=cout)
        elif name == "cuccaro":
            qrisp.cuccaro_adder(a, b, c_in=cin, c_out=cout)
        else:
            from qrisp.alg_primitives.arithmetic.jasp_arithmetic.jasp_fourier_adder import jasp_fourier_adder

            jasp_fourier_adder(a, b)

    def main(n, m, c):
        a = QuantumFloat(m)
        b = QuantumFloat(n)
        k = QuantumBool()
        cin = QuantumBool()
        cout = QuantumBool()
        args = (c if cl else a, b, cin if use_cin else None, cout if use_cout else None)

        def go():
            if inv:
                with invert():
                    call(*args)
            else:
                call(*args)

        if ctl:
            with control(k[0], ctrl_state=st):
                go()
        else:
            go()
        return a, b, k, cin, cout

    out = make_jaspr(main)(2, 2, 1).to_qc(n, m, c)
    qc = out[-1]
    from qrisp import Qubit

    regs = [list(x) for x in out[:-1] if isinstance(x, (list, tuple)) and x and isinstance(x[0], Qubit)]
    a, b, k, cin, cout = regs
    add = semantics(n, None, c, -1 if inv else 1, use_cin, use_cout)

    def f(av, bv, kv, ci, co):
        if ctl and kv != st:
            return av, bv, kv, ci, co
        nb, nco = add(c if cl else av, bv, ci, co)
        return av, nb, kv, ci, nco

    Q.judge_map(ctx, qc, [a, b, k, cin, cout], [m, n, 1, 1, 1], f, ctx.last, "traced_add", extra=[(py.randrange(2**m), py.randrange(2**n), st, py.randrange(2), py.randrange(2)) for _ in range(8)])


def venting(ctx):
    """measurement based adder: acts as a permutation of basis states for every measurement outcome; phases are tested by uncomputing a superposition"""
    from qrisp.jasp import terminal_sampling, jaspify
    from qrisp import measure, h, gidney_cq_venting_adder, reset

    py = ctx.py
    n = py.choice([1, 2, 4, 5, 6, 7, 8, 9])
    d = py.choice([py.randrange(2**n), py.randrange(2**n), 0, 1, 2**n - 1])
    cinv = py.choice([None, 0, 1])
    cout = py.random() < 0.4
    ctl = py.choice([None, 0, 1])
    start = py.randrange(2**n)
    ctx.last = f"venting adder n={n} d={d} b={start} c_in={cinv} c_out={cout} ctrl={ctl}"
    ctx.sample(ctx.last)

    mode = py.choice(["basis", "phase"])

    def main():
        t = QuantumFloat(n)
        k = QuantumBool()
        ci = QuantumBool()
        co = QuantumBool()
        if mode == "basis":
            t[:] = start
        else:
            h(t)
        if cinv == 1:
            qrisp.x(ci[0])
        if ctl == 1:
            qrisp.x(k[0])
        kw = {}
        if cinv is not None:
            kw["c_in"] = ci
        if cout and mode == "basis":
            kw["c_out"] = co
        if ctl is None:
            gidney_cq_venting_adder(d, t, **kw)
        else:
            with control(k[0]):
                gidney_cq_venting_adder(d, t, **kw)
        if mode == "phase":
            h(t)
        return measure(t), measure(ci), measure(co), measure(k)

    res = jaspify(main)()
    tv, civ, cov, kv = [int(x) for x in res]
    on = ctl is None or ctl == 1
    s = start + d + (cinv or 0)
    if mode == "basis":
        want = s % 2**n if on else start
        wco = (s >> n) & 1 if on and cout else 0
    else:
        want, wco = 0, 0
    ctx.observe("vented_add", (ctx.last, mode), True)
    mech = None
    if n >= 6 and civ == (cinv or 0) and kv == (ctl or 0):
        if mode == "basis" and tv == want and cout:
            mech = "vented-carry-out"
        if mode == "phase" and ctl == 0 and cinv is None and cov == wco:
            mech = "vented-control-off-phase"
    ctx.require(tv == want and civ == (cinv or 0) and cov == wco and kv == (ctl or 0), f"{ctx.last} ({mode}): got target={tv} c_in={civ} c_out={cov} ctrl={kv}, expected target={want} c_out={wco}", mech=mech)


FAMILIES = {"quantum": quantum, "classical": classical, "environment": environment, "increments": increments, "floats": floats, "dynamic": dynamic, "venting": venting}
