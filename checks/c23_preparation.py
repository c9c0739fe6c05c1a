PROPERTY = "C23"
RULE = "one evaluation = one prepared state (all amplitudes, global phase included) compared with the requested normalised amplitudes; distinct = distinct (type, size, amplitudes, method, environment)"
PLAN = {
    "quick": {"arrays": 140, "labels": 140, "controlled": 60, "traced": 18, "traced_input": 6, "registers": 40, "rejections": 24},
    "thorough": {"arrays": 1400, "labels": 1400, "controlled": 600, "traced": 240, "traced_input": 60, "registers": 400, "rejections": 100},
}
REQUIRED_MONITORS = ["array", "labels", "controlled", "traced", "traced_input", "register", "rejection"]
ASSUMPTIONS = ["amplitudes are compared with tolerance 2e-3 (the array methods work in single precision in places)"]
CASE_TIMEOUT = 240
# --- end of plan ---
import numpy as np

from vlib import dense as D
from vlib import qs as Q
from vlib.harness import Skip

import qrisp
from qrisp import QuantumVariable, QuantumFloat, QuantumBool, QuantumChar, QuantumModulus, QuantumArray, QuantumString, control, invert, prepare
from qrisp.jasp import make_jaspr
from qrisp.misc import custom_qv


def regs_of(out):
    return [list(x) for x in out[:-1] if isinstance(x, (list, tuple)) and len(x) and isinstance(x[0], qrisp.Qubit)]


def vector(py, rng, n):
    """unnormalised amplitude vectors with many special structures"""
    N = 2**n
    k = py.choice(["dense", "real", "sparse", "basis", "negative", "half", "phases", "uniform", "tiny"])
    if k == "dense":
        v = rng.normal(size=N) + 1j * rng.normal(size=N)
    elif k == "real":
        v = rng.normal(size=N)
    elif k == "sparse":
        v = np.zeros(N, dtype=complex)
        for i in py.sample(range(N), py.randint(1, max(1, N // 2))):
            v[i] = py.choice([1, -1, 1j, -1j, py.gauss(0, 1), py.gauss(0, 1) + 1j * py.gauss(0, 1)])
    elif k == "basis":
        v = np.zeros(N, dtype=complex)
        v[py.randrange(N)] = py.choice([1, -1, 1j, -2, 0.3j])
    elif k == "negative":
        v = -np.abs(rng.normal(size=N))
    elif k == "half":
        v = rng.normal(size=N) + 0j
        if py.random() < 0.5:
            v[: N // 2] = 0
        else:
            v[N // 2 :] = 0
    elif k == "phases":
        v = np.exp(2j * np.pi * rng.random(N))
    elif k == "uniform":
        v = np.ones(N)
    else:
        v = (rng.normal(size=N) + 1j * rng.normal(size=N)) * 10.0 ** py.choice([-4, -2, 3])
    if np.linalg.norm(v) == 0:
        v[0] = 1
    return np.asarray(v)


def judge(ctx, got, want, what):
    want = want / np.linalg.norm(want)
    d = float(np.linalg.norm(got - want))
    ctx.require(d < 2e-3, f"{what}: prepared state deviates by {d:.4f} (up to phase {D.phase_distance(got, want):.4f})")


def arrays(ctx):
    """amplitude vectors on fresh variables"""
    py = ctx.py
    n = py.randint(1, 4)
    v = vector(py, ctx.rng, n)
    method = py.choice(["auto", "qiskit", "qswitch"])
    how = py.choice(["init_state", "prepare", "reversed"])
    ctx.last = f"{how} {method} {np.round(v, 4).tolist()}"
    qv = py.choice([QuantumVariable, QuantumFloat])(n)
    if how == "init_state":
        qv.init_state(v if py.random() < 0.7 else list(v), method=method)
    elif how == "prepare":
        prepare(qv, v, method=method)
    else:
        prepare(qv, v, reversed=True, method=method)
    got = D.run(qv.qs.copy(), list(qv), None, "state preparation")
    want = D.bitrev(n) @ v if how == "reversed" else v
    ctx.observe("array", ctx.last, True)
    judge(ctx, got, want, how)


def typed(py):
    k = py.choice(["float", "signed", "fraction", "modulus", "bool", "char", "custom"])
    if k == "float":
        q = QuantumFloat(py.randint(1, 4))
    elif k == "signed":
        q = QuantumFloat(py.randint(1, 3), signed=True)
    elif k == "fraction":
        q = QuantumFloat(py.randint(1, 3), -py.randint(1, 3), signed=py.random() < 0.5)
    elif k == "modulus":
        q = QuantumModulus(py.choice([3, 5, 7, 11]))
    elif k == "bool":
        q = QuantumBool()
    elif k == "char":
        q = QuantumChar()
    else:
        q = custom_qv(py.choice([["red", "green", "blue"], [(1, 2), (3, 4)], [0.5, 7, -3, "x", None]]))
    return k, q


def labels(ctx):
    """superpositions given by labels"""
    py = ctx.py
    k, q = typed(py)
    n = q.size
    dom = []
    for i in range(2**n):
        try:
            lab = q.decoder(i)
        except Exception:
            continue
        if k == "modulus" and (not isinstance(lab, (int, np.integer)) or lab >= q.modulus):
            continue
        dom.append((i, lab))
    if k == "custom":
        dom = [(i, lab) for i, lab in dom if not (isinstance(lab, str) and lab.startswith("undefined"))]
    pick = py.sample(dom, py.randint(1, min(len(dom), 6)))
    amps = [py.choice([1, -1, 1j, py.gauss(0, 1) + 1j * py.gauss(0, 1), 0.5]) for _ in pick]
    d = {lab: a for (_, lab), a in zip(pick, amps)}
    ctx.last = f"{k} {n} qubits {d}"
    if py.random() < 0.5:
        q[:] = d
    else:
        q.init_state(d, method=py.choice(["auto", "qswitch", "qiskit"]))
    want = np.zeros(2**n, dtype=complex)
    for (i, _), a in zip(pick, amps):
        want[i] = a
    got = D.run(q.qs.copy(), list(q), None, "state preparation")
    ctx.observe("labels", ctx.last, True)
    judge(ctx, got, want, "labelled state")
    if py.random() < 0.3:
        m = q.get_measurement()
        w = np.abs(want) ** 2 / np.linalg.norm(want) ** 2
        for (i, lab), _ in zip(pick, amps):
            ctx.require(abs(m.get(lab, 0) - w[i]) < 1e-3, f"measurement of {lab}: {m.get(lab, 0)} expected {w[i]}")


def controlled(ctx):
    """preparation under controls, inverses and after a round trip"""
    py = ctx.py
    n = py.randint(1, 3)
    v = vector(py, ctx.rng, n)
    method = py.choice(["auto", "qiskit", "qswitch"])
    kind = py.choice(["control", "control0", "inverse", "roundtrip"])
    ctx.last = f"{kind} {method} {np.round(v, 4).tolist()}"
    qv = QuantumVariable(n)
    want = v / np.linalg.norm(v)
    ctx.observe("controlled", ctx.last, True)
    if kind.startswith("control"):
        b = QuantumBool()
        qrisp.merge([b, qv])
        with control(b, ctrl_state="0" if kind == "control0" else "1"):
            prepare(qv, v, method=method)
        a0, a1 = 0.6, 0.8j
        full = np.zeros(2 ** (n + 1), dtype=complex)
        full[0], full[2**n] = a0, a1
        got = D.run(qv.qs.copy(), list(qv) + [b[0]], full, "state preparation")
        ref = np.zeros(2 ** (n + 1), dtype=complex)
        if kind == "control":
            ref[0] = a0
            ref[2**n :] = a1 * want
        else:
            ref[: 2**n] = a0 * want
            ref[2**n] = a1
        judge(ctx, got, ref, kind)
    else:
        if kind == "roundtrip":
            prepare(qv, v, method=method)
            with invert():
                prepare(qv, v, method=method)
            got = D.run(qv.qs.copy(), list(qv), None, "state preparation")
        else:
            with invert():
                prepare(qv, v, method=method)
            got = D.run(qv.qs.copy(), list(qv), want, "state preparation")
        ref = np.zeros(2**n, dtype=complex)
        ref[0] = 1
        judge(ctx, got, ref, kind)


def traced(ctx):
    """traced programs with given vectors"""
    py = ctx.py
    n = py.randint(1, 3)
    v = vector(py, ctx.rng, n)
    how = py.choice(["init_state", "prepare", "reversed"])
    method = py.choice(["auto", "qswitch"])
    ctx.last = f"traced {how} {method} {np.round(v, 4).tolist()}"

    def main():
        qv = QuantumFloat(n)
        if how == "init_state":
            qv.init_state(v, method=method)
        else:
            prepare(qv, v, reversed=how == "reversed", method=method)
        return qv

    out = make_jaspr(main)().to_qc()
    got = D.run(out[-1], regs_of(out)[0], None, "state preparation")
    ctx.observe("traced", ctx.last, True)
    judge(ctx, got, D.bitrev(n) @ v if how == "reversed" else v, f"traced {how}")


def traced_input(ctx):
    """traced programs whose vector is an argument, one compiled program for several vectors"""
    py = ctx.py
    n = py.randint(1, 3)
    vs = [vector(py, ctx.rng, n) for _ in range(3)]
    rev = py.random() < 0.3
    ctx.last = f"vectors as arguments, {n} qubits, reversed {rev}, {[np.round(v, 4).tolist() for v in vs]}"

    def main(v):
        qv = QuantumFloat(n)
        prepare(qv, v, reversed=rev)
        return qv

    j = make_jaspr(main)(np.ones(2**n, dtype=complex))
    for v in vs:
        out = j.to_qc(v.astype(complex))
        got = D.run(out[-1], regs_of(out)[0], None, "state preparation")
        ctx.observe("traced_input", (n, rev, str(v)), True)
        judge(ctx, got, D.bitrev(n) @ v if rev else v, f"vector {np.round(v, 4).tolist()}")


def registers(ctx):
    """encodings of arrays, strings and copies of prepared variables"""
    py = ctx.py
    kind = py.choice(["array", "string", "copy"])
    if kind == "array":
        shape = py.choice([(2,), (3,), (2, 2)])
        qa = QuantumArray(QuantumFloat(2, signed=py.random() < 0.5), shape)
        lo = -4 if qa.qtype.signed else 0
        vals = np.array([py.randint(lo, lo + 2**qa.qtype.size - 1) for _ in range(int(np.prod(shape)))]).reshape(shape)
        ctx.last = f"array {vals.tolist()}"
        if py.random() < 0.5:
            qa[:] = vals
        else:
            qa.encode(vals)
        regs = [list(q) for q in qa.flatten()]
        got = Q.amplitudes(qa.qs.copy(), regs, what="array encoding")
        want = tuple(int(v) % 2**qa.qtype.size for v in vals.flatten())
        ctx.observe("register", ctx.last, True)
        ctx.require(abs(abs(got.get(want, 0)) - 1) < 1e-4, f"array encoded as {got}, expected {want}")
    elif kind == "string":
        s = "".join(py.choice("abcxyz .!") for _ in range(py.randint(1, 3)))
        q = QuantumString(size=len(s))
        ctx.last = f"string {s!r}"
        q[:] = s
        ctx.observe("register", ctx.last, True)
        m = q.get_measurement()
        ctx.require(m == {s: 1.0}, f"string measured as {m}")
    else:
        n = py.randint(1, 3)
        v = vector(py, ctx.rng, n)
        a = QuantumFloat(n)
        a.init_state(v)
        b = QuantumFloat(n)
        ctx.last = f"copy of {np.round(v, 4).tolist()}"
        b.init_from(a)
        v = v / np.linalg.norm(v)
        got = Q.amplitudes(a.qs.copy(), [list(a), list(b)], what="copy")
        ctx.observe("register", ctx.last, True)
        ctx.close(Q.amp_diff(got, {(i, i): v[i] for i in range(2**n)}), 2e-3, "state after copying the basis values")


def rejections(ctx):
    """invalid requests are refused and leave the variable untouched"""
    py = ctx.py
    n = py.randint(1, 3)
    qv = QuantumFloat(n)
    k = py.choice(["length", "zero", "method", "label", "dirty"])
    ctx.last = f"rejection {k} {n} qubits"
    bad = None
    try:
        if k == "length":
            qv.init_state(np.ones(2**n + py.choice([-1, 1, 2**n])))
        elif k == "zero":
            qv.init_state(np.zeros(2**n))
        elif k == "method":
            qv.init_state(np.ones(2**n), method="fast")
        elif k == "label":
            qv[:] = 2**n + 1
        else:
            qrisp.x(qv[0])
            qv[:] = 1
        bad = "accepted"
    except Exception as e:
        bad = None
    ctx.observe("rejection", ctx.last, True)
    ctx.require(bad is None, f"request is accepted: {k}")
    if k != "dirty":
        got = D.run(qv.qs.copy(), list(qv), None, "state preparation")
        ctx.require(abs(got[0] - 1) < 1e-6, "a refused request changed the variable")


FAMILIES = {"arrays": arrays, "labels": labels, "controlled": controlled, "traced": traced, "traced_input": traced_input, "registers": registers, "rejections": rejections}
