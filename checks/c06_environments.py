PROPERTY = "C06"
RULE = (
    "one evaluation = the exact joint state of all program variables after a generated nest of quantum environments, compared with the direct denotation of "
    "the nest (projector on the condition, adjoint, conjugation, repetition); distinct = distinct final states"
)
PLAN = {
    "quick": {"nest": 900, "compiled": 160, "functions": 160, "loops": 60},
    "thorough": {"nest": 9000, "compiled": 1600, "functions": 1500, "loops": 500},
}
REQUIRED_MONITORS = ["control", "condition", "invert", "conjugate", "wrap", "iterate", "custom_control", "custom_inversion", "ancilla", "state"]
ASSUMPTIONS = ["bodies only act diagonally on the qubits their own condition reads, as the documentation of the environments demands"]
# --- end of plan ---
import numpy as np

from vlib import gen, ref, qs as Q
from vlib.harness import Skip, Violation

import qrisp
from qrisp import (
    QuantumVariable, QuantumBool, QuantumFloat, control, invert, conjugate, IterationEnvironment, GateWrapEnvironment, QuantumEnvironment, custom_control, custom_inversion,
    quantum_condition, gate_wrap, merge, auto_uncompute,
)

TOL = 2e-4


# --------------------------------------------------------------- reference
class Den:
    """dense state of the named qubits (qubit i = axis i)"""

    def __init__(self, n, vec):
        self.n, self.v = n, vec.reshape([2] * n)

    def copy(self):
        return Den(self.n, self.v.copy())


def apply_u(v, m, qs):
    k = len(qs)
    n = v.ndim
    t = m.reshape([2] * 2 * k)
    v = np.tensordot(t, v, axes=(list(range(k, 2 * k)), qs))
    return np.moveaxis(v, list(range(k)), qs)


def val(bits, idx):
    return sum(bits[i] << j for j, i in enumerate(idx))


def mask(pred, qs, n):
    """boolean array over the axes qs (broadcastable to the state)"""
    shape = [1] * n
    for q in qs:
        shape[q] = 2
    out = np.zeros([2] * len(qs), dtype=bool)
    for ix in np.ndindex(*out.shape):
        out[ix] = pred(ix)
    order = np.argsort(qs)
    return np.transpose(out, order).reshape(shape)


def den(tree, v, inv=False):
    items = tree if not inv else tree[::-1]
    for it in items:
        k = it[0]
        if k == "g":
            m = it[1]
            v = apply_u(v, m.conj().T if inv else m, it[2])
        elif k == "cond":
            mk = mask(it[1], it[2], v.ndim)
            v = np.where(mk, den(it[3], np.where(mk, v, 0), inv), 0) + np.where(mk, 0, v)
        elif k == "inv":
            v = den(it[1], v, not inv)
        elif k == "conj":
            v = den(it[1], v, False)
            v = den(it[2], v, inv)
            v = den(it[1], v, True)
        elif k == "rep":
            for _ in range(it[1]):
                v = den(it[2], v, inv)
        elif k == "seq":
            v = den(it[1], v, inv)
    return v


# --------------------------------------------------------------- program generator
class Prog:
    def __init__(self, ctx):
        self.ctx, self.py = ctx, ctx.py
        py = ctx.py
        self.t = QuantumVariable(py.randint(1, 2))
        self.b = [QuantumBool() for _ in range(py.randint(1, 2))]
        self.f = QuantumFloat(2, py.choice([0, 0, -1, 1]), signed=py.random() < 0.3)
        self.g = QuantumFloat(py.choice([1, 2]), self.f.exponent, signed=self.f.signed and py.random() < 0.8) if py.random() < 0.6 else None
        self.vars = [self.t] + self.b + [self.f] + ([self.g] if self.g is not None else [])
        self.qubits = [q for v in self.vars for q in v.reg]
        self.ix = {id(q): i for i, q in enumerate(self.qubits)}
        self.n = len(self.qubits)
        self.log = ctx.last = []
        self.forbid = set()  # truth values of enclosing single-qubit controls
        self.locked = set()  # operands of enclosing comparisons, which a nested comparison may not touch
        self.noalloc = False

    def at(self, qb):
        return self.ix[id(qb)]

    def gate(self, avail, diag):
        """emit one gate on qubits outside `diag` (or a diagonal one anywhere)"""
        py = self.py
        free = [q for q in range(self.n) if q not in diag and q not in self.forbid]
        r = py.random()
        avail = [q for q in avail if q not in self.forbid]
        free = [q for q in free if q not in self.forbid]
        if not free or (r < 0.15 and avail):
            pool = avail
            nm = py.choice(["p", "rz", "z", "s", "t"] + (["cz", "cp"] if len(pool) > 1 else []))
        else:
            pool = free
            nm = py.choice(["x", "y", "h", "rx", "ry", "p", "rz", "sx", "t", "gphase"] + (["cx", "cp", "swap", "rzz", "cx", "cx"] if len(pool) > 1 else []) + (["mcx"] if len(pool) > 2 else []))
        if not pool:
            return ("seq", [])
        a = gen.angle(py)
        if nm in ("cz", "cp", "cx", "swap", "rzz"):
            qs = py.sample(pool, 2)
        elif nm == "mcx":
            qs = py.sample(pool, 3)
        else:
            qs = [py.choice(pool)]
        qb = [self.qubits[i] for i in qs]
        if nm == "mcx":
            st = "".join(py.choice("01") for _ in qs[:-1])
            qrisp.mcx(qb[:-1], qb[-1], ctrl_state=st)
            m = ref.controlled_matrix(np.array([[0, 1], [1, 0]]), len(qs) - 1, st)
        elif nm in ("p", "rx", "ry", "rz", "cp", "rzz", "gphase"):
            getattr(qrisp, nm)(a, *qb)
            m = self.matrix(nm, a, len(qb))
        else:
            getattr(qrisp, nm)(*qb)
            m = self.matrix(nm, None, len(qb))
        self.log.append(f"{nm}{[round(a, 3)] if nm in ('p', 'rx', 'ry', 'rz', 'cp', 'rzz', 'gphase') else ''}{qs}")
        return ("g", m, qs)

    def matrix(self, nm, a, n):
        from qrisp import QuantumCircuit

        qc = QuantumCircuit(n)
        if a is None:
            getattr(qc, nm)(*qc.qubits)
        else:
            getattr(qc, nm)(a, *qc.qubits)
        return ref.circuit_matrix(qc)

    def body(self, diag, depth, size=None):
        py = self.py
        out = []
        for _ in range(size or py.randint(1, 3)):
            if depth <= 0 or py.random() < 0.5:
                out.append(self.gate(list(range(self.n)), diag))
            else:
                out.append(self.env(diag, depth - 1))
        return out

    def env(self, diag, depth):
        py = self.py
        kinds = ["control", "control", "cond", "cond", "invert", "conj", "wrap", "iter", "custom", "custom_inv", "plain"]
        k = py.choice(kinds if not self.noalloc else ["invert", "plain", "conj", "custom_inv"])
        self.ctx.observe({"cond": "condition", "conj": "conjugate", "iter": "iterate", "custom": "custom_control", "custom_inv": "custom_inversion"}.get(k, k), None, False)
        return getattr(self, "e_" + k)(diag, depth)

    def e_plain(self, diag, depth):
        self.log.append("env{")
        with QuantumEnvironment():
            b = self.body(diag, depth)
        self.log.append("}")
        return ("seq", b)

    def e_control(self, diag, depth):
        py = self.py
        k = py.randint(1, min(4 if py.random() < 0.2 else 2, self.n - 1))
        qs = py.sample(range(self.n), k)
        if all(q in diag or q in qs for q in range(self.n)) or (self.forbid & set(qs)):
            return self.gate(list(range(self.n)), diag)
        st = "".join(py.choice("0111") for _ in qs)
        arg = st if py.random() < 0.7 else sum(int(c) << i for i, c in enumerate(st))
        self.log.append(f"control{qs}={arg!r}{{")
        qb = [self.qubits[i] for i in qs]
        if k == 1 and py.random() < 0.5:
            qb = qb[0]
            if isinstance(arg, int):
                arg = st
        kw = {}
        neg = py.random() < 0.2
        if neg:
            kw["invert"] = True
            self.log.append("[inverted]")
        if st == "1" * k and py.random() < 0.4:
            with control(qb, **kw):
                b = self.guarded(diag, qs, depth, k == 1)
        else:
            with control(qb, arg, **kw):
                b = self.guarded(diag, qs, depth, k == 1)
        self.log.append("}")
        return ("cond", lambda bits, st=st, neg=neg: all(bits[i] == int(st[i]) for i in range(len(st))) != neg, qs, b)

    def guarded(self, diag, qs, depth, single=False):
        # a single control qubit is itself the truth value: only other qubits may be touched
        old = self.forbid
        if single:
            self.forbid = self.forbid | set(qs)
        b = self.under(diag | set(qs), qs, depth)
        self.forbid = old
        return b

    def e_cond(self, diag, depth):
        py = self.py
        r = py.choice(["const", "const", "qq", "qbool", "bools"])
        fq = [self.at(q) for q in self.f.reg]
        dec = {i: self.f.decoder(i) for i in range(2**self.f.size)}
        if r == "qq" and (self.g is None or self.g.size != self.f.size or self.g.signed != self.f.signed):
            r = "const"
        if r == "qbool":
            qbl = py.choice(self.b)
            q = [self.at(qbl[0])]
            if self.all_blocked(diag, q):
                return self.gate(list(range(self.n)), diag)
            self.log.append(f"if qbool{q}{{")
            with qbl:
                b = self.guarded(diag, q, depth, True)
            self.log.append("}")
            return ("cond", lambda bits: bits[0] == 1, q, b)
        if r == "bools":
            b1, b2 = (self.b * 2)[:2]
            if b1 is b2:
                return self.gate(list(range(self.n)), diag)
            q = [self.at(b1[0]), self.at(b2[0])]
            if self.all_blocked(diag, q):
                return self.gate(list(range(self.n)), diag)
            o = py.choice(["and", "or", "xor"])
            self.log.append(f"if {o}{q}{{")
            if o == "and":
                cond = lambda: b1 & b2
                pred = lambda bits: bool(bits[0] & bits[1])
            elif o == "or":
                cond = lambda: b1 | b2
                pred = lambda bits: bool(bits[0] | bits[1])
            else:
                cond = lambda: b1 ^ b2
                pred = lambda bits: bool(bits[0] ^ bits[1])

            @quantum_condition
            @auto_uncompute
            def f(x, y):
                return cond()

            with f(b1, b2):
                b = self.under(diag | set(q), q, depth)
            self.log.append("}")
            return ("cond", pred, q, b)
        if r == "const":
            if self.all_blocked(diag, fq):
                return self.gate(list(range(self.n)), diag)
            c = py.choice(list(dec.values()))
            o = py.choice(["==", "!=", "<", ">", "<=", ">="])
            self.log.append(f"if f {o} {c}{{")
            pred = lambda bits, o=o, c=c: cmp(o, dec[val(bits, range(len(bits)))], c)
            dd = diag | set(fq)
            if o == "==":
                with self.f == c:
                    b = self.under(dd, fq, depth)
            elif o == "!=":
                with self.f != c:
                    b = self.under(dd, fq, depth)
            elif o == "<":
                with self.f < c:
                    b = self.under(dd, fq, depth)
            elif o == ">":
                with self.f > c:
                    b = self.under(dd, fq, depth)
            elif o == "<=":
                with self.f <= c:
                    b = self.under(dd, fq, depth)
            else:
                with self.f >= c:
                    b = self.under(dd, fq, depth)
            self.log.append("}")
            return ("cond", pred, fq, b)
        gq = [self.at(q) for q in self.g.reg]
        if self.all_blocked(diag, fq + gq):
            return self.gate(list(range(self.n)), diag)
        dg = {i: self.g.decoder(i) for i in range(2**self.g.size)}
        o = py.choice(["==", "!=", "<", ">", "<=", ">="])
        nf = len(fq)
        pred = lambda bits: cmp(o, dec[val(bits, range(nf))], dg[val(bits, range(nf, nf + len(gq)))])
        self.log.append(f"if f {o} g{{")
        dd = diag | set(fq + gq)
        if o == "==":
            with self.f == self.g:
                b = self.under(dd, fq + gq, depth)
        elif o == "!=":
            with self.f != self.g:
                b = self.under(dd, fq + gq, depth)
        elif o == "<":
            with self.f < self.g:
                b = self.under(dd, fq + gq, depth)
        elif o == ">":
            with self.f > self.g:
                b = self.under(dd, fq + gq, depth)
        elif o == "<=":
            with self.f <= self.g:
                b = self.under(dd, fq + gq, depth)
        else:
            with self.f >= self.g:
                b = self.under(dd, fq + gq, depth)
        self.log.append("}")
        return ("cond", pred, fq + gq, b)

    def under(self, dd, qs, depth):
        old = self.locked
        self.locked = self.locked | set(qs)
        b = self.body(dd, depth)
        self.locked = old
        return b

    def all_blocked(self, diag, qs):
        """nothing left to act on, or the condition would be evaluated on qubits an enclosing condition protects"""
        return all(q in diag or q in qs for q in range(self.n)) or bool(self.locked & set(qs))

    def e_invert(self, diag, depth):
        self.log.append("invert{")
        with invert():
            b = self.body(diag, depth)
        self.log.append("}")
        return ("inv", b)

    def e_conj(self, diag, depth):
        box = {}
        self.log.append("conj(")

        def f(_):
            box["b"] = self.body(diag, 0)

        env = conjugate(f)(self.t)
        with env:
            self.log.append("){")
            b = self.body(diag, depth)
        self.log.append("}")
        # the conjugator is traced when the environment is entered
        return ("conj", box["b"], b)

    def e_wrap(self, diag, depth):
        self.log.append("wrap{")
        with GateWrapEnvironment("w%d" % self.py.randrange(100)):
            b = self.body(diag, depth)
        self.log.append("}")
        self.ctx.observe("wrap", None, False)
        return ("seq", b)

    def e_iter(self, diag, depth):
        n = self.py.randint(1, 3)
        self.log.append(f"iter{n}{{")
        merge(self.vars)
        old, self.noalloc = self.noalloc, True
        with IterationEnvironment(self.t.qs, n, precompile=self.py.random() < 0.4):
            b = self.body(diag, depth)
        self.noalloc = old
        self.log.append("}")
        return ("rep", n, b)

    def e_custom(self, diag, depth):
        """custom_control function: R = h-like conjugation whose controlled version controls only the core"""
        py = self.py
        free = [q for q in range(self.n) if q not in diag and q not in self.forbid]
        if len(free) < 2:
            return self.gate(list(range(self.n)), diag)
        a, b = py.sample(free, 2)
        qa, qb = self.qubits[a], self.qubits[b]
        phi = gen.angle(py)
        self.log.append(f"custom[{phi:.3f}]{[a, b]}")

        @custom_control
        def f(u, v, ctrl=None):
            qrisp.h(u)
            qrisp.cx(u, v)
            if ctrl is None:
                qrisp.rz(phi, v)
            else:
                with control(ctrl):
                    qrisp.rz(phi, v)
            qrisp.cx(u, v)
            qrisp.h(u)

        f(qa, qb)
        return ("seq", [("g", self.matrix("h", None, 1), [a]), ("g", self.matrix("cx", None, 2), [a, b]), ("g", self.matrix("rz", phi, 1), [b]), ("g", self.matrix("cx", None, 2), [a, b]), ("g", self.matrix("h", None, 1), [a])])

    def e_custom_inv(self, diag, depth):
        py = self.py
        free = [q for q in range(self.n) if q not in diag and q not in self.forbid]
        if not free:
            return self.gate(list(range(self.n)), diag)
        a = py.choice(free)
        phi = gen.angle(py)
        self.log.append(f"custom_inv[{phi:.3f}]{[a]}")

        @custom_inversion
        def f(u, inv=False):
            if inv:
                qrisp.p(-phi, u)
                qrisp.sx_dg(u)
            else:
                qrisp.sx(u)
                qrisp.p(phi, u)

        f(self.qubits[a])
        return ("seq", [("g", self.matrix("sx", None, 1), [a]), ("g", self.matrix("p", phi, 1), [a])])


def cmp(o, a, b):
    return {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[o]


def prep(P, rng):
    """random product-of-rotations start so every branch carries weight"""
    tree = []
    for i, q in enumerate(P.qubits):
        a, b = rng.uniform(0.4, 2.7), rng.uniform(-3, 3)
        qrisp.ry(a, q)
        qrisp.p(b, q)
        tree += [("g", P.matrix("ry", a, 1), [i]), ("g", P.matrix("p", b, 1), [i])]
    return tree


def judge(ctx, P, tree, qc, what, mech=None):
    v = np.zeros([2] * P.n, dtype=complex)
    v[(0,) * P.n] = 1
    want = den(tree, v)
    amps = Q.amplitudes(qc, [[q] for q in P.qubits], what=what, mech=mech, tol=1e-5)
    ctx.observe("ancilla", len(qc.qubits) - P.n, len(qc.qubits) > P.n)
    got = np.zeros([2] * P.n, dtype=complex)
    for k, a in amps.items():
        got[k] = a
    ctx.observe("state", tuple(np.round(np.abs(want.flatten()[:32]), 2)), True)
    ctx.close(ref.phase_diff(want.flatten(), got.flatten()) if False else float(np.max(np.abs(phase_align(want, got) - want))), TOL, what, mech, program=" ".join(P.log)[:1500])


def phase_align(want, got):
    ov = np.vdot(want, got)
    return got * (np.conj(ov) / abs(ov)) if abs(ov) > 1e-9 else got


def nest(ctx):
    P = Prog(ctx)
    tree = prep(P, ctx.rng)
    tree += P.body(set(), ctx.py.choice([1, 2, 2, 3]), ctx.py.randint(1, 3))
    prog = " ".join(P.log)
    ctx.last = prog
    ctx.sample(prog)
    merge(P.vars)
    judge(ctx, P, tree, P.t.qs.copy(), "state after environments")


def compiled(ctx):
    P = Prog(ctx)
    tree = prep(P, ctx.rng)
    tree += P.body(set(), ctx.py.choice([1, 2]), ctx.py.randint(1, 2))
    ctx.last = " ".join(P.log)
    ctx.sample(ctx.last)
    merge(P.vars)
    py = ctx.py
    qc = P.t.qs.compile(workspace=py.choice([0, 0, 1, 3]), compile_mcm=False, gate_speed=None, intended_measurements=[])
    judge(ctx, P, tree, qc, "compiled state after environments")


def functions(ctx):
    """decorated functions used inside environments: gate_wrap, nested custom_control and custom_inversion, flip of the truth value"""
    py = ctx.py
    P = Prog(ctx)
    tree = prep(P, ctx.rng)
    r = py.choice(["wrapfn", "flip", "both", "while_inv"])
    diag = set()
    if r == "wrapfn":
        box = {}

        @gate_wrap
        def f(*args):
            box["b"] = P.body(set(), 1)

        k = py.randrange(P.n)
        if py.random() < 0.5:
            f(*P.vars)
            tree.append(("seq", box["b"]))
        else:
            with invert():
                f(*P.vars)
            tree.append(("inv", box["b"]))
    elif r == "flip":
        fq = [P.at(q) for q in P.f.reg]
        dec = {i: P.f.decoder(i) for i in range(2**P.f.size)}
        c = py.choice(list(dec.values()))
        phi = gen.angle(py)
        with P.f == c as cond:
            b1 = P.under(set(fq), fq, 1)
            cond.flip()
            b2 = P.under(set(fq), fq, 1)
            qrisp.p(phi, cond)
        P.log.append(f"[if f=={c} .. flip .. p({phi:.3f})]")
        ph = np.diag([np.exp(1j * phi)] * 2)
        tree.append(("cond", lambda bits: dec[val(bits, range(len(bits)))] == c, fq, b1))
        tree.append(("cond", lambda bits: dec[val(bits, range(len(bits)))] != c, fq, b2 + [("g", ph, [P.at(P.t[0])])]))
    else:
        free = list(range(P.n))
        a, b, c = py.sample(free, 3) if P.n >= 3 else (0, 1, None)
        if c is None:
            raise Skip("too few qubits")
        phi = gen.angle(py)
        Qb = P.qubits

        @custom_control
        def core(u, ctrl=None):
            if ctrl is None:
                qrisp.p(phi, u)
            else:
                qrisp.cp(phi, ctrl, u)

        @custom_inversion
        def outer(u, v, inv=False):
            if inv:
                with invert():
                    core(u)
                qrisp.cx(v, u)
            else:
                qrisp.cx(v, u)
                core(u)

        base = [("g", P.matrix("cx", None, 2), [b, a]), ("g", P.matrix("p", phi, 1), [a])]
        st = py.choice("01")
        P.log.append(f"custom_control within custom_inversion a={a} b={b} ctrl={c}:{st} phi={phi:.3f} {r}")
        if r == "both":
            with control(Qb[c], st):
                with invert():
                    outer(Qb[a], Qb[b])
            tree.append(("cond", lambda bits: bits[0] == int(st), [c], [("inv", base)]))
        else:
            with invert():
                with control(Qb[c], st):
                    outer(Qb[a], Qb[b])
            tree.append(("inv", [("cond", lambda bits: bits[0] == int(st), [c], base)]))
    ctx.last = " ".join(P.log)
    ctx.sample(ctx.last)
    merge(P.vars)
    judge(ctx, P, tree, P.t.qs.copy(), f"state after decorated functions ({r})")


def loops(ctx):
    """quantum ranges: the loop body runs as often as the quantum bound says, per branch"""
    from qrisp import qRange

    py = ctx.py
    nb = py.randint(1, 2)
    n = QuantumFloat(nb)
    t = QuantumVariable(2)
    th = [ctx.rng.uniform(0.3, 2.8) for _ in range(nb)]
    for q, a in zip(n.reg, th):
        qrisp.ry(a, q)
    ang = gen.angle(py)
    seen = []
    for i in qRange(n):
        seen.append(i)
        qrisp.ry(ang, t[0])
        qrisp.cx(t[0], t[1])
        qrisp.p(0.3, t[1])
    merge([n, t])
    qc = n.qs.copy()
    amps = Q.amplitudes(qc, [n, t], what="quantum loop", tol=1e-5)
    from qrisp import QuantumCircuit

    one = QuantumCircuit(2)
    one.ry(ang, 0)
    one.cx(0, 1)
    one.p(0.3, 1)
    u = ref.circuit_matrix(one)
    want = {}
    for k in range(2**nb):
        a = np.prod([np.sin(th[j] / 2) if (k >> j) & 1 else np.cos(th[j] / 2) for j in range(nb)])
        v = np.array([1, 0, 0, 0], dtype=complex)
        # inclusive bound, as in the documented Gauss sum example
        for _ in range(k):
            v = u @ v
        for x in range(4):
            want[(k, ((x >> 1) & 1) | ((x & 1) << 1))] = a * v[x]
    d1 = Q.amp_diff(amps, want, phase=True)
    ctx.observe("state", tuple(sorted((k, round(abs(x), 2)) for k, x in want.items())), True)
    ctx.sample(f"qRange over {nb} qubits")
    ctx.close(d1, TOL, "quantum loop", None, nb=nb, angle=ang)


FAMILIES = {"nest": nest, "compiled": compiled, "functions": functions, "loops": loops}
