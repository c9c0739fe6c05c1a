"""Observation helpers for programs built from quantum variables: exact joint
amplitudes of groups of qubits, with everything else required to be |0>."""

import numpy as np

from vlib import ref
from vlib.harness import Violation


def qubit_index(qc):
    return {q: i for i, q in enumerate(qc.qubits)}


def reg(qv):
    """Qubits of a variable / qubit / list, least significant first."""
    if hasattr(qv, "reg"):
        r = qv.reg
        return list(r)
    if isinstance(qv, (list, tuple)):
        out = []
        for x in qv:
            out += reg(x)
        return out
    return [qv]


def rows_for(qc, groups, values, amps):
    """init_rows for ref.simulate placing integer ``values[k][g]`` in group g."""
    ix = qubit_index(qc)
    pos = [[ix[q] for q in reg(g)] for g in groups]
    kq = []
    for vals in values:
        k = 0
        for p, v in zip(pos, vals):
            for j, q in enumerate(p):
                if (int(v) >> j) & 1:
                    k |= 1 << q
        kq.append(k)
    return kq, amps


def amplitudes(qc, groups, init_rows=None, mode="definition", clean=True, what="program", mech=None, max_rows=1 << 20, tol=1e-6):
    """Run ``qc`` exactly.  Returns {tuple of ints per group: amplitude}.

    ``clean``: every other qubit must end in |0>, and any measurement outcome must
    be independent of the groups (else Violation)."""
    st = ref.simulate(qc, mode=mode, init_rows=init_rows, max_rows=max_rows)
    return state_amplitudes(qc, st, groups, clean, what, mech, tol)


def narrowed(qc, groups):
    """The same circuit on fewer qubits: a qubit that was deallocated lends its place to later ones.

    Qubits of ``groups`` keep their identity; a place that is not returned in |0>
    disturbs its next user or shows up as an unclean qubit at the end."""
    from qrisp import QuantumCircuit, Qubit
    from qrisp.circuit import Instruction

    keep = {q for g in groups for q in reg(g)}
    out = QuantumCircuit()
    out.qubits.extend(q for q in qc.qubits if q in keep)
    out.clbits.extend(qc.clbits)
    place, free, count = {q: q for q in keep}, [], 0
    for ins in qc.data:
        if ins.op.name == "qb_alloc":
            continue
        if ins.op.name == "qb_dealloc":
            if ins.qubits[0] not in keep and ins.qubits[0] in place:
                free.append(place.pop(ins.qubits[0]))
            continue
        for q in ins.qubits:
            if q not in place:
                if not free:
                    free.append(Qubit(f"place_{count}"))
                    out.qubits.append(free[0])
                    count += 1
                place[q] = free.pop()
        out.data.append(Instruction(ins.op, [place[q] for q in ins.qubits], ins.clbits))
    return out


def state_amplitudes(qc, st, groups, clean=True, what="program", mech=None, tol=1e-6):
    ix = qubit_index(qc)
    pos = [[ix[q] for q in reg(g)] for g in groups]
    used = 0
    for p in pos:
        for q in p:
            used |= 1 << q
    rest = st.kq & ~np.int64(used)
    if clean:
        w = float(np.sum(np.abs(st.amp[rest != 0]) ** 2))
        if w > tol:
            bad = int(rest[rest != 0][0])
            names = [qc.qubits[i].identifier for i in range(len(qc.qubits)) if (bad >> i) & 1]
            raise Violation(f"{what}: qubits {names[:6]} not returned to |0> (weight {w:.3g})", mech)
    env = {}
    vals = []
    for p in pos:
        v = np.zeros(len(st.kq), dtype=np.int64)
        for j, q in enumerate(p):
            v |= ((st.kq >> q) & 1) << j
        vals.append(v)
    for i in range(len(st.kq)):
        if rest[i] != 0:
            continue
        env.setdefault(int(st.kr[i]), {})[tuple(int(v[i]) for v in vals)] = complex(st.amp[i])
    if len(env) <= 1:
        return next(iter(env.values())) if env else {}
    # several measurement records: the groups must factor out
    out = None
    for k in sorted(env):
        d = env[k]
        n = np.sqrt(sum(abs(a) ** 2 for a in d.values()))
        if n < 1e-7:
            continue
        d = {x: a / n for x, a in d.items()}
        if out is None:
            out = d
            continue
        ov = sum(np.conj(a) * d.get(x, 0) for x, a in out.items())
        if clean and abs(abs(ov) - 1) > max(tol, 1e-6):
            raise Violation(f"{what}: result depends on a discarded measurement outcome (overlap {abs(ov):.4f})", mech)
    return out


def amp_diff(a, b, phase=False):
    """max deviation of two amplitude dictionaries (optionally up to a global phase)."""
    if phase:
        ov = sum(np.conj(b[k]) * a[k] for k in b if k in a)
        if abs(ov) > 1e-9:
            f = ov / abs(ov)
            b = {k: v * f for k, v in b.items()}
    ks = set(a) | set(b)
    return max((abs(a.get(k, 0) - b.get(k, 0)) for k in ks), default=0.0)


def prob_diff(a, b):
    ks = set(a) | set(b)
    return max((abs(abs(a.get(k, 0)) ** 2 - abs(b.get(k, 0)) ** 2) for k in ks), default=0.0)


def random_input(rng, py, sizes, max_terms=24, domain=None):
    """Random superposition over tuples of ints (one int per group size)."""
    total = sum(sizes)
    n = min(max_terms, 2**total) if total < 20 else max_terms
    n = py.randint(1, n) if py.random() < 0.3 else n
    seen = {}
    for _ in range(n * 4):
        if domain is not None:
            t = tuple(domain(py))
        else:
            t = tuple(py.randrange(2**s) for s in sizes)
        seen[t] = 1
        if len(seen) >= n:
            break
    vals = list(seen)
    a = rng.normal(size=len(vals)) + 1j * rng.normal(size=len(vals))
    a = a / np.linalg.norm(a)
    return vals, a


def permuted(vals, amps, f, phase=None):
    out = {}
    for v, a in zip(vals, amps):
        k = tuple(f(*v))
        out[k] = out.get(k, 0) + a * (1 if phase is None else phase(*v))
    return out


def judge_map(ctx, qc, groups, sizes, f, what, monitor, ph=None, extra=(), domain=None, terms=40, phase=True, tol=1e-5, mech=None, clean=True):
    """Run ``qc`` exactly on a random superposition of basis values and require that it acts as
    |v> -> ph(v)|f(v)> on the groups, leaving everything else in |0>."""
    vals, amps = random_input(ctx.rng, ctx.py, sizes, terms, domain)
    if extra:
        vals = list(dict.fromkeys(list(vals) + [tuple(e) for e in extra]))
        amps = ctx.rng.normal(size=len(vals)) + 1j * ctx.rng.normal(size=len(vals))
        amps = amps / np.linalg.norm(amps)
    want = permuted(vals, amps, f, ph)
    got = amplitudes(qc, groups, rows_for(qc, groups, vals, amps), what=what, mech=mech, clean=clean)
    ctx.observe(monitor, (what, tuple(vals)), True)
    d = amp_diff(got, want, phase=phase)
    if not d <= tol:
        wrong = [(k, complex(np.round(got.get(k, 0), 4)), complex(np.round(want.get(k, 0), 4))) for k in sorted(set(got) | set(want)) if abs(got.get(k, 0) - want.get(k, 0)) > tol][:4]
        ctx.close(d, tol, what, mech, wrong=str(wrong))
    return vals, amps
