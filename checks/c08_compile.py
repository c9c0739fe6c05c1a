PROPERTY = "C08"
RULE = (
    "one evaluation = the exact action of the compiled session (amplitudes of the live variables, or the joint distribution of the intended measurements, or the reported measurement result) compared with the exact "
    "action of the uncompiled program; distinct = distinct (program, compile options)"
)
PLAN = {
    "quick": {"options": 320, "wide_controls": 120, "mid_circuit": 70, "intended": 160, "measured": 160, "parameters": 60, "fourier": 60},
    "thorough": {"options": 3000, "wide_controls": 1200, "mid_circuit": 700, "intended": 1500, "measured": 1600, "parameters": 600, "fourier": 600},
}
REQUIRED_MONITORS = ["compiled_state", "wide_control_state", "mid_circuit_state", "intended_distribution", "measured_distribution", "joint_distribution", "bound_distribution", "fourier_state", "qubit_bound"]
ASSUMPTIONS = ["the uncompiled session circuit is the meaning of the program (judged on its own by the other properties)", "deleted variables are |0> when they are deleted"]
CASE_TIMEOUT = 150
# --- end of plan ---
import numpy as np
import sympy as sp

from vlib import qs as Q, ref
from vlib.harness import Skip, Violation

import qrisp
from qrisp import QuantumVariable, QuantumFloat, QuantumBool, QFT, control, conjugate, cx, cp, cz, mcp, mcx, x, y, z, h, p, rz, ry, rx, u3, swap, s, t, rzz, gate_wrap, merge, multi_measurement, invert


def depth_speed(op):
    return 1 if op.num_qubits > 1 else 0.1


class Prog:
    def __init__(self, ctx, total=6, kinds="vfb"):
        self.ctx, self.py = ctx, ctx.py
        self.vars = []
        self.log = []
        n = 0
        total = max(total, 3)
        while n < total - 1 and (n < 2 or self.py.random() < 0.8):
            k = self.py.choice(kinds)
            m = 1 if k == "b" else self.py.randint(1, min(3, total - n))
            self.vars.append(QuantumBool() if k == "b" else (QuantumVariable(m) if k == "v" else QuantumFloat(m, signed=False)))
            n += m
        self.n = n
        for v in self.vars:
            if self.py.random() < 0.8:
                for q in v:
                    u3(self.py.uniform(0.3, 2.8), self.py.uniform(0, 6), self.py.uniform(0, 6), q)
        merge(self.vars)
        self.syms = []

    @property
    def qs(self):
        return self.vars[0].qs

    def qubits(self):
        return [q for v in self.vars for q in v]

    def pick(self, k):
        qb = self.qubits()
        if len(qb) < k:
            return None
        return self.py.sample(qb, k)

    def ang(self):
        if self.syms and self.py.random() < 0.6:
            return self.py.choice(self.syms) * self.py.choice([1, 2, -1]) + self.py.choice([0, 0.3])
        return self.py.uniform(0.2, 3)

    def simple(self, qb):
        py = self.py
        qb = list(qb)
        py.shuffle(qb)
        k = len(qb)
        r = py.choice(["1", "1", "cx", "cx", "mcx", "mcx", "mcp", "swap", "rzz", "cz", "y"])
        if r == "1" or k == 1:
            g = py.choice([h, x, z, s, t])
            if py.random() < 0.5:
                py.choice([rx, ry, rz, p])(self.ang(), qb[0])
            else:
                g(qb[0])
        elif r == "cx":
            cx(qb[0], qb[1])
        elif r == "cz":
            cz(qb[0], qb[1])
        elif r == "y":
            y(qb[0])
        elif r == "swap":
            swap(qb[0], qb[1])
        elif r == "rzz":
            rzz(self.ang(), qb[0], qb[1])
        elif r == "mcp":
            mcp(self.ang(), qb[: py.randint(1, min(4, k))])
        else:
            c = qb[: py.randint(1, min(5, k - 1))]
            tq = next(q for q in qb if q not in c)
            st = "".join(py.choice("011") for _ in c)
            kw = {}
            if py.random() < 0.3:
                kw["method"] = py.choice(["gray", "balauca", "auto", "jones", "hybrid"] if len(c) == 2 else ["gray", "balauca", "auto"])
                if kw["method"] == "hybrid":
                    kw = {}
            mcx(c, tq, ctrl_state=st, **kw)

    def step(self, depth=0):
        py = self.py
        r = py.random()
        self.log.append(round(r, 2))
        if r < 0.45:
            self.simple(self.qubits())
        elif r < 0.62:
            # temporary value, used and removed
            qb = self.pick(min(self.n, py.randint(2, 5)))
            if qb is None:
                return
            tmp = QuantumVariable(py.choice([1, 1, 2]))
            st = "".join(py.choice("01") for _ in qb[:-1])

            def fwd():
                mcx(qb[:-1], tmp[0], ctrl_state=st)
                if tmp.size == 2:
                    cx(tmp[0], tmp[1])
                    cx(qb[0], tmp[1])

            self.log.append((str(qb), st, tmp.size))
            how = py.choice(["uncompute", "conjugate", "mirror"])
            self.log.append(how)
            self.ctx.last = self.log
            if how == "conjugate":
                with conjugate(fwd)():
                    p(0.7, tmp[0])
                    cx(tmp[-1], qb[-1])
                tmp.delete()
            elif how == "mirror":
                fwd()
                cx(tmp[-1], qb[-1])
                with invert():
                    fwd()
                tmp.delete()
            else:
                fwd()
                p(0.9, tmp[-1])
                cx(tmp[-1], qb[-1])
                tmp.uncompute()
        elif r < 0.72:
            fl = [v for v in self.vars if isinstance(v, QuantumFloat)]
            bl = [v for v in self.vars if not isinstance(v, QuantumFloat)]
            if not fl:
                return self.simple(self.qubits())
            a = py.choice(fl)
            k = py.randrange(2**a.size)
            if len(fl) > 1 and py.random() < 0.5:
                b = py.choice([f for f in fl if f is not a])
                if py.random() < 0.5 or not bl:
                    a += b
                else:
                    with a < b:
                        x(py.choice(bl)[0])
            elif py.random() < 0.4 or not bl:
                a += k
            elif py.random() < 0.5:
                with a == k:
                    x(py.choice(bl)[0])
            else:
                with a < k:
                    ry(0.6, py.choice(bl)[0])
        elif r < 0.82 and depth == 0:
            qb = self.pick(min(self.n, py.randint(2, 4)))
            n = py.randint(1, 4)

            def inner(*qb):
                for _ in range(n):
                    self.simple(qb)

            gate_wrap(inner)(*qb)
        elif r < 0.9 and depth < 2:
            qb = self.pick(self.n)
            c, rest = qb[: py.randint(1, min(2, self.n - 1))], None
            rest = [q for q in qb if q not in c]
            with control(c, ctrl_state="".join(py.choice("01") for _ in c)):
                for _ in range(py.randint(1, 2)):
                    self.simple(rest)
        else:
            v = py.choice(self.vars)
            QFT(v, inv=py.random() < 0.5, exec_swap=py.random() < 0.5) if py.random() < 0.6 else QFT(v)


def options(py):
    kw = {"workspace": py.choice([0, 0, 1, 2, 4])}
    if py.random() < 0.3:
        kw["cancel_qfts"] = py.random() < 0.5
    if py.random() < 0.4:
        kw["gate_speed"] = py.choice([None, depth_speed, qrisp.t_depth_indicator and (lambda op: qrisp.t_depth_indicator(op, 2**-10))])
    return kw


def optkey(kw):
    return str(sorted((k, "f" if callable(v) else v) for k, v in kw.items() if k != "intended_measurements"))


def settle(P):
    merge(P.vars)


def raw_state(P):
    settle(P)
    return Q.amplitudes(P.qs.copy(), P.vars, what="uncompiled program", tol=1e-5)


def judge_state(ctx, P, kw, monitor, phase=True):
    want = raw_state(P)
    data = len(P.qs.data)
    qc = P.qs.compile(**kw)
    ctx.last = (P.log, optkey(kw))
    ctx.require(len(P.qs.data) == data, "compiling changed the session")
    got = Q.amplitudes(qc, P.vars, what=f"compiled program {optkey(kw)}", tol=1e-5)
    ctx.observe(monitor, (P.log, optkey(kw), round(abs(next(iter(want.values()))), 6)), True)
    ctx.close(Q.amp_diff(got, want, phase=phase), 1e-5, f"state of compiled program {optkey(kw)}")
    alive = sum(v.size for v in P.qs.qv_list)
    ctx.observe("qubit_bound", (P.log, len(qc.qubits)), True)
    total = len(P.qs.qubits) + kw.get("workspace", 0)
    ctx.require(alive <= len(qc.qubits) <= total, f"compiled circuit has {len(qc.qubits)} qubits for {alive} live ones ({total} allowed)")


def compile_options(ctx):
    py = ctx.py
    P = Prog(ctx, py.randint(2, 7))
    for _ in range(py.randint(2, 9)):
        P.step()
    judge_state(ctx, P, options(py), "compiled_state")


def wide_controls(ctx):
    py = ctx.py
    P = Prog(ctx, py.randint(6, 10), kinds="v")
    for _ in range(py.randint(1, 3)):
        qb = P.qubits()
        py.shuffle(qb)
        k = py.randint(3, max(3, len(qb) - 1))
        if k > len(qb) - 1:
            raise Skip("few qubits")
        if py.random() < 0.3:
            # some idle, deallocated qubits become available as ancillas
            tmp = QuantumVariable(2)
            cx(qb[0], tmp[0])
            cx(qb[0], tmp[0])
            tmp.delete()
        mcx(qb[:k], qb[k], ctrl_state="".join(py.choice("01") for _ in range(k)))
        P.log.append(k)
        if py.random() < 0.5:
            P.simple(qb)
    kw = options(py)
    kw["workspace"] = py.choice([0, 1, 2, 3, 5])
    judge_state(ctx, P, kw, "wide_control_state")


def mid_circuit(ctx):
    """compilation with mid-circuit measurements: same state whatever the outcomes are"""
    py = ctx.py
    P = Prog(ctx, py.randint(3, 6), kinds="vf")
    if P.n < 3:
        raise Skip("few qubits")
    for _ in range(py.randint(1, 3)):
        qb = P.qubits()
        py.shuffle(qb)
        if py.random() < 0.4:
            tmp = QuantumBool()
            mcx(qb[:2], tmp, method="gidney")
            cx(tmp, qb[2])
            p(0.4, tmp[0])
            with invert():
                mcx(qb[:2], tmp, method="gidney")
            tmp.delete()
        elif py.random() < 0.5:
            mcx(qb[:2], qb[2], method="jones")
        elif len(qb) > 4:
            mcx(qb[:4], qb[4])
        else:
            P.simple(qb)
    kw = {"workspace": py.choice([0, 1, 3]), "compile_mcm": py.random() < 0.8}
    judge_state(ctx, P, kw, "mid_circuit_state")


def marginal(amps, sizes, pick):
    """distribution over the chosen (group, bit) pairs"""
    out = {}
    for k, a in amps.items():
        key = "".join(str((k[g] >> b) & 1) for g, b in pick)
        out[key] = out.get(key, 0) + abs(a) ** 2
    return out


def intended(ctx):
    py = ctx.py
    P = Prog(ctx, py.randint(3, 7))
    for _ in range(py.randint(2, 8)):
        P.step()
    amps = raw_state(P)
    pairs = [(g, b) for g, v in enumerate(P.vars) for b in range(v.size)]
    py.shuffle(pairs)
    pick = pairs[: py.randint(1, min(3, len(pairs)))]
    qb = [P.vars[g][b] for g, b in pick]
    kw = options(py)
    kw["intended_measurements"] = list(qb)
    qc = P.qs.compile(**kw)
    ctx.last = (P.log, optkey(kw), str(qb))
    want = marginal(amps, None, pick)
    st = ref.simulate(qc)
    ix = Q.qubit_index(qc)
    ctx.require(all(q in ix for q in qb), "an intended measurement qubit is missing in the compiled circuit")
    got = {}
    for kq, a in zip(st.kq, st.amp):
        key = "".join(str((int(kq) >> ix[q]) & 1) for q in qb)
        got[key] = got.get(key, 0) + abs(a) ** 2
    ctx.observe("intended_distribution", (P.log, optkey(kw), len(pick)), True)
    d = max(abs(got.get(k, 0) - want.get(k, 0)) for k in set(got) | set(want))
    ctx.close(d, 1e-5, "distribution of intended measurements after light cone reduction")


def decoded(v, k):
    return v.decoder(k)


def measured(ctx):
    py = ctx.py
    P = Prog(ctx, py.randint(2, 7))
    for _ in range(py.randint(1, 7)):
        P.step()
    amps = raw_state(P)
    data = len(P.qs.data)
    if py.random() < 0.5:
        g = py.randrange(len(P.vars))
        v = P.vars[g]
        want = {}
        for k, a in amps.items():
            key = decoded(v, k[g])
            want[key] = want.get(key, 0) + abs(a) ** 2
        kw = {}
        if py.random() < 0.4:
            kw["compile"] = py.random() < 0.5
        if kw.get("compile", True) and py.random() < 0.4:
            kw["compilation_kwargs"] = {"workspace": py.choice([0, 2]), "cancel_qfts": py.random() < 0.5}
        if py.random() < 0.2:
            kw = {"precompiled_qc": P.qs.compile()}
        got = v.get_measurement(**kw)
        ctx.observe("measured_distribution", (P.log, str(sorted(kw))), True)
        what = f"measurement result of {type(v).__name__} {sorted(kw)}"
    else:
        gs = py.sample(range(len(P.vars)), py.randint(1, min(3, len(P.vars))))
        want = {}
        for k, a in amps.items():
            key = tuple(decoded(P.vars[g], k[g]) for g in gs)
            want[key] = want.get(key, 0) + abs(a) ** 2
        got = multi_measurement([P.vars[g] for g in gs])
        ctx.observe("joint_distribution", (P.log, tuple(gs)), True)
        what = "joint measurement result"
    ctx.last = (P.log, what)
    ctx.require(len(P.qs.data) == data, "measuring changed the session")
    d = max(abs(got.get(k, 0) - want.get(k, 0)) for k in set(got) | set(want))
    ctx.close(d, 3e-4, what)


def parameters(ctx):
    """symbolic angles bound at measurement time"""
    py = ctx.py
    P = Prog(ctx, py.randint(2, 5))
    P.syms = [sp.Symbol(f"th{i}") for i in range(py.randint(1, 3))]
    for _ in range(py.randint(2, 6)):
        P.step() if py.random() < 0.3 else P.simple(P.qubits())
    py.choice([rx, ry])(P.ang() if py.random() < 0.5 else P.syms[0], P.qubits()[0])
    sub = {q: py.uniform(-3, 3) for q in P.syms}
    settle(P)
    g = py.randrange(len(P.vars))
    v = P.vars[g]
    try:
        qc = P.qs.copy().bind_parameters(sub)
        amps = Q.amplitudes(qc, P.vars, what="bound program", tol=1e-5)
    except ref.RefUnsupported:
        raise Skip("unsupported")
    want = {}
    for k, a in amps.items():
        key = decoded(v, k[g])
        want[key] = want.get(key, 0) + abs(a) ** 2
    kw = {"subs_dic": sub}
    if py.random() < 0.3:
        kw["precompiled_qc"] = P.qs.compile()
    got = v.get_measurement(**kw)
    ctx.observe("bound_distribution", (P.log, str(sub)), True)
    ctx.last = (P.log, sub)
    d = max(abs(got.get(k, 0) - want.get(k, 0)) for k in set(got) | set(want))
    ctx.close(d, 3e-4, "measurement result with bound parameters")


def fourier(ctx):
    """Fourier transforms on fresh, live and dying registers"""
    py = ctx.py
    P = Prog(ctx, py.randint(2, 6), kinds="vf")
    regs = list(P.vars)
    for _ in range(py.randint(2, 5)):
        r = py.random()
        v = py.choice(regs)
        kw = {"inv": py.random() < 0.5, "exec_swap": py.random() < 0.6}
        if r < 0.35:
            QFT(v, **kw)
        elif r < 0.6:
            QFT(v, **kw)
            if py.random() < 0.5:
                P.simple(P.qubits())
            QFT(v, inv=not kw["inv"], exec_swap=kw["exec_swap"])
        elif r < 0.85:
            w = QuantumVariable(py.randint(1, 3))
            n = w.size
            QFT(w, **kw)
            q = py.choice(P.qubits())
            for i in range(n):
                cp(py.choice([np.pi, np.pi / 2]), q, w[i])
                cp(-py.choice([0, np.pi]), q, w[i])
            regs.append(w)
            P.vars.append(w)
        else:
            P.simple(P.qubits())
        P.log.append((round(r, 2), str(kw)))
    merge(P.vars)
    if py.random() < 0.5:
        w = QuantumFloat(py.randint(1, 3))
        q = py.choice(P.qubits())
        with conjugate(QFT)(w):
            for i in range(w.size):
                cp(np.pi * 2.0**-i, q, w[i])
        with control(q):
            with invert():
                with conjugate(QFT)(w):
                    for i in range(w.size):
                        p(np.pi * 2.0**-i, w[i])
        w.delete()
    kw = options(py)
    judge_state(ctx, P, kw, "fourier_state")


FAMILIES = {"options": compile_options, "wide_controls": wide_controls, "mid_circuit": mid_circuit, "intended": intended, "measured": measured, "parameters": parameters, "fourier": fourier}
