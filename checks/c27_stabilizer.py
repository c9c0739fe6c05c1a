PROPERTY = "C27"
RULE = "one evaluation = one stabilizer program with noise, parities and handles, exported and enumerated branch by branch; distinct = distinct (program, distribution); nontrivial = more than one outcome or a parity involved"
PLAN = {
    "quick": {"static": 420, "extract": 110, "arrays": 90, "executed": 30, "detectors": 60, "permute": 160},
    "thorough": {"static": 5000, "extract": 900, "arrays": 800, "executed": 250, "detectors": 500, "permute": 2500},
}
REQUIRED_MONITORS = ["static", "extract", "arrays", "executed", "detectors", "permute"]
ASSUMPTIONS = [
    "detectors and observables are judged by the parity of the measurement results they list; the expectation is not part of the exchange format",
    "automatically found detectors are judged for functions applied to freshly allocated arrays, without classical feedback, as documented",
    "distributions are enumerated on dense states of up to 6 qubits; every noise channel is enumerated with its probabilities",
]
CASE_TIMEOUT = 150
# --- end of plan ---
import numpy as np
import stim
import jax.numpy as jnp

from vlib import stimref as R
from vlib.harness import Skip, Violation

from qrisp import (
    Clbit, QuantumArray, QuantumBool, QuantumCircuit, QuantumVariable, barrier, control, cx, cy, cz, h, id, measure, reset, s, s_dg, swap, sx, sx_dg, x, y, z,
)
from qrisp.circuit import Measurement, Reset, standard_operations as ops
from qrisp.jasp import jaspify, jrange, make_jaspr, parity
from qrisp.jasp.evaluation_tools.stim_extraction import (
    StimDetectorHandles, StimMeasurementHandles, StimObservableHandles, StimQubitIndices, extract_stim,
)
from qrisp.misc.stim_tools import StimNoiseGate, permute_detectors, stim_noise
from qrisp.misc.stim_tools.find_detectors import find_detectors

ONE = ["h", "x", "y", "z", "s", "s_dg", "sx", "sx_dg", "id"]
TWO = ["cx", "cy", "cz", "swap"]
FUNC = dict(h=h, x=x, y=y, z=z, s=s, s_dg=s_dg, sx=sx, sx_dg=sx_dg, id=id, cx=cx, cy=cy, cz=cz, swap=swap)


def random_noise(py, n):
    kind = py.choice(["X_ERROR", "Y_ERROR", "Z_ERROR", "X_ERROR", "DEPOLARIZE1", "PAULI_CHANNEL_1", "E", "DEPOLARIZE2", "PAULI_CHANNEL_2"])
    if kind in ("DEPOLARIZE2", "PAULI_CHANNEL_2") and n < 2:
        kind = "X_ERROR"
    if kind == "E":
        k = py.randint(1, min(3, n))
        w = "".join(py.choice("XYZXYZI") for _ in range(k))
        if set(w) == {"I"}:
            w = "X" + w[1:]
        name = py.choice(["E", "CORRELATED_ERROR"])
        return ("noise", name, (py.choice([1.0, 0.25, 0.5]),), tuple(py.sample(range(n), k)), w)
    if kind in ("X_ERROR", "Y_ERROR", "Z_ERROR"):
        return ("noise", kind, (py.choice([1.0, 1.0, 0.25, 0.1]),), (py.randrange(n),), None)
    if kind == "DEPOLARIZE1":
        return ("noise", kind, (0.3,), (py.randrange(n),), None)
    if kind == "PAULI_CHANNEL_1":
        return ("noise", kind, (0.1, 0.2, 0.3), (py.randrange(n),), None)
    if kind == "DEPOLARIZE2":
        return ("noise", kind, (0.15,), tuple(py.sample(range(n), 2)), None)
    a = [0.0] * 15
    for i in py.sample(range(15), 3):
        a[i] = py.choice([0.05, 0.2, 0.1])
    return ("noise", kind, tuple(a), tuple(py.sample(range(n), 2)), None)


def random_script(py, n, length, meas_max=6, noise_max=2, feedback=True, resets=True):
    """list of events on qubits 0..n-1; measurements are numbered in order"""
    ev, m, k = [], 0, 0
    for _ in range(length):
        r = py.random()
        if r < 0.25 and m < meas_max:
            ev.append(("measure", py.randrange(n)))
            m += 1
        elif r < 0.33 and resets:
            ev.append(("reset", py.randrange(n)))
        elif r < 0.45 and k < noise_max:
            e = random_noise(py, n)
            ev.append(e)
            k += 1
            if e[1] in ("E", "CORRELATED_ERROR") and py.random() < 0.5:
                g = random_noise(py, n)
                while g[1] not in ("E", "CORRELATED_ERROR"):
                    g = random_noise(py, n)
                ev.append(("noise", "ELSE_CORRELATED_ERROR") + g[2:])
        elif r < 0.55 and m and feedback:
            ev.append(("if", py.randrange(m), py.choice("xyz"), py.randrange(n)))
        elif r < 0.6:
            ev.append(("barrier",))
        elif r < 0.8 or n < 2:
            ev.append(("gate", py.choice(ONE), (py.randrange(n),)))
        else:
            ev.append(("gate", py.choice(TWO), tuple(py.sample(range(n), 2))))
    return ev, m


def enumerate_script(ev, n):
    b = R.Branches(n)
    for e in ev:
        if e[0] == "gate":
            b.gate(R.GATES[e[1]], list(e[2]))
        elif e[0] == "measure":
            b.measure(e[1])
        elif e[0] == "reset":
            b.reset(e[1])
        elif e[0] == "noise":
            b.noise(e[1], e[2], list(e[3]), e[4])
        elif e[0] == "if":
            b.gate(R.GATES[e[2]], [e[3]], lambda r, i=e[1], v=(e[4] if len(e) > 4 else 1): r[i] == v)
    return b


def key(d):
    return tuple(sorted((str(k), round(v, 4)) for k, v in d.items()))


GATE_OPS = dict(
    h=ops.HGate, x=ops.XGate, y=ops.YGate, z=ops.ZGate, s=ops.SGate, s_dg=lambda: ops.SGate().inverse(), sx=ops.SXGate,
    sx_dg=lambda: ops.SXGate().inverse(), id=ops.IDGate, cx=ops.CXGate, cy=ops.CYGate, cz=ops.CZGate, swap=ops.SwapGate,
)


def static(ctx):
    """circuits with parities, conditioned gates and noise, exported directly"""
    py = ctx.py
    n = py.randint(1, 5)
    ev, m = random_script(py, n, py.randint(4, 16))
    k = m + py.randint(0, 2)
    cl = list(range(k))
    py.shuffle(cl)
    qc = QuantumCircuit(n, k)
    latest = []  # record position -> clbit
    owner = {}
    handles = []
    wrapped = 0
    out = []
    pos = 0
    for e in ev:
        if e[0] == "gate":
            g = GATE_OPS[e[1]]()
            if py.random() < 0.2:
                sub = QuantumCircuit(len(e[2]))
                sub.append(g, sub.qubits)
                if py.random() < 0.4:
                    sub.h(0)
                    sub.h(0)
                g = sub.to_gate()
                wrapped += 1
            qc.append(g, [qc.qubits[q] for q in e[2]])
            out.append(e)
        elif e[0] == "measure":
            # results may go to a bit that already holds one, unless a parity uses it
            free = [c for c in owner if not any(c in hh[2] for hh in handles)]
            c = py.choice(free) if free and py.random() < 0.2 else cl.pop()
            qc.measure(qc.qubits[e[1]], qc.clbits[c])
            owner[c] = pos
            latest.append(c)
            pos += 1
            out.append(e)
            if py.random() < 0.4:
                bits = py.sample(sorted(owner), py.randint(1, len(owner)))
                exp, obs = py.randint(0, 1), py.random() < 0.3
                hd = qc.parity([qc.clbits[b] for b in bits], expectation=exp, observable=obs)
                if any(set(bits) == hh[2] and exp == hh[4] and obs == hh[1] for hh in handles):
                    # equal handles are the same key
                    pass
                handles.append((hd, obs, set(bits), frozenset(owner[b] for b in bits), exp))
        elif e[0] == "reset":
            qc.reset(qc.qubits[e[1]])
            out.append(e)
        elif e[0] == "barrier":
            qc.barrier(qc.qubits)
        elif e[0] == "noise":
            qc.append(StimNoiseGate(e[1], *e[2], pauli_string=e[4]), [qc.qubits[q] for q in e[3]])
            out.append(e)
        elif e[0] == "if":
            c = py.choice(sorted(owner))
            v = py.choice([1, 1, 0])
            g = GATE_OPS[e[2]]()
            op = g.c_if() if v == 1 and py.random() < 0.5 else g.c_if(1, py.choice([v, str(v)]))
            qc.append(op, [qc.qubits[e[3]]], [qc.clbits[c]])
            out.append(("if", owner[c], e[2], e[3], v))
    bad = None
    if py.random() < 0.12:
        bad = py.choice(["t", "rz", "p", "c_if_h", "two_bits", "ccx", "gphase"])
        if bad == "t":
            qc.t(0)
        elif bad == "rz":
            qc.rz(0.3, 0)
        elif bad == "p":
            qc.p(0.4, 0)
        elif bad == "gphase":
            qc.gphase(0.4, 0)
        elif bad == "ccx":
            if n < 3:
                bad = None
            else:
                qc.mcx([0, 1], 2)
        elif not owner or (bad == "two_bits" and len(owner) < 2):
            bad = None
        elif bad == "c_if_h":
            qc.append(ops.HGate().c_if(), [qc.qubits[0]], [qc.clbits[sorted(owner)[0]]])
        else:
            qc.append(ops.XGate().c_if(2), [qc.qubits[0]], [qc.clbits[b] for b in sorted(owner)[:2]])
    before = [(i.op.name, tuple(i.qubits), tuple(i.clbits)) for i in qc.data]
    ctx.last = dict(qubits=n, script=str(out), parities=[(hh[1], sorted(hh[3]), hh[4]) for hh in handles], extra=bad)
    ctx.sample(ctx.last)
    try:
        circ, mmap, dmap, omap = qc.to_stim(return_measurement_map=True, return_detector_map=True, return_observable_map=True)
    except (NotImplementedError, ValueError, Exception) as err:
        ctx.observe("refusal", (bad, type(err).__name__), True)
        ctx.require(bad is not None, f"export refused: {type(err).__name__}: {err}")
        return
    ctx.require(bad in (None, "gphase"), f"a circuit with {bad} was exported although the target format cannot hold it")
    try:
        want = enumerate_script(out, n)
        got, dets, _, obs, count = R.run_stim(circ, n)
    except R.TooMany:
        raise Skip("too many branches")
    a = want.distribution(lambda r: r, tuple(range(n)))
    b = got.distribution(lambda r: r, tuple(range(n)))
    ctx.observe("static", key(a), len(a) > 1 or bool(handles))
    ctx.close(R.dist_diff(a, b), 1e-6, "distribution of records and final qubits of the exported circuit", circuit=str(circ))
    ctx.require(count == pos, f"{count} records instead of {pos}")
    for c, p_ in owner.items():
        ctx.require(mmap.get(qc.clbits[c]) == p_, f"record position of bit {c} is {mmap.get(qc.clbits[c])}, last written at {p_}")
    nd = sum(not hh[1] for hh in handles)
    ctx.require(len(dets) == nd, f"{len(dets)} detectors instead of {nd}")
    ctx.require([frozenset(d) for d in dets] == [hh[3] for hh in handles if not hh[1]], f"detectors {[sorted(d) for d in dets]} are not the requested parities", circuit=str(circ))
    for hd, ob, _, rec, _ in handles:
        if ob:
            ctx.require(obs.get(omap[hd], frozenset()) == rec, f"observable {omap[hd]} lists {sorted(obs.get(omap[hd], ()))} instead of {sorted(rec)}")
        else:
            ctx.require(dets[dmap[hd]] == rec, f"detector {dmap[hd]} lists {sorted(dets[dmap[hd]])} instead of {sorted(rec)}")
    ctx.require([(i.op.name, tuple(i.qubits), tuple(i.clbits)) for i in qc.data] == before, "the export changed the circuit")


# ---------------------------------------------------------------- traced programs


class Builder:
    """runs an event script inside a traced function and keeps the traced bits"""

    def __init__(self, lookup):
        self.q = lookup
        self.bits = []

    def run(self, ev, probs=None):
        for e in ev:
            if e[0] == "gate":
                FUNC[e[1]](*[self.q(i) for i in e[2]])
            elif e[0] == "measure":
                self.bits.append(measure(self.q(e[1])))
            elif e[0] == "reset":
                reset(self.q(e[1]))
            elif e[0] == "barrier":
                pass
            elif e[0] == "noise":
                args = e[2] if probs is None else tuple(a * probs for a in e[2])
                stim_noise(e[1], *args, *[self.q(i) for i in e[3]], pauli_string=e[4])
            elif e[0] == "if":
                with control(self.bits[e[1]]):
                    FUNC[e[2]](self.q(e[3]))


def registers(py, n):
    """split n qubits into registers: list of (kind, size)"""
    regs, left = [], n
    while left:
        k = py.randint(1, left)
        regs.append((py.choice(["variable", "array", "variable"]), k))
        left -= k
    return regs


def make_registers(regs):
    objs, look = [], []
    for kind, k in regs:
        if kind == "variable":
            v = QuantumVariable(k)
            objs.append(v)
            look += [(len(objs) - 1, i) for i in range(k)]
        else:
            a = QuantumArray(qtype=QuantumBool(), shape=(k,))
            objs.append(a)
            look += [(len(objs) - 1, i) for i in range(k)]

    def q(i):
        o, j = look[i]
        return objs[o][j] if isinstance(objs[o], QuantumVariable) else objs[o][j][0]

    return objs, q


def flat_values(v):
    """(kind, indices) of a returned handle"""
    if isinstance(v, StimDetectorHandles):
        k = "d"
    elif isinstance(v, StimObservableHandles):
        k = "o"
    elif isinstance(v, StimMeasurementHandles):
        k = "m"
    elif isinstance(v, StimQubitIndices):
        k = "q"
    else:
        k = None
    return k, v


def judge_extract(ctx, monitor, circ, returned, expected, n, branches, qubits_expected=None):
    """returned: list of handle arrays; expected: list of (kind, nested array of record position sets)"""
    got, dets, _, obs, count = R.run_stim(circ, n)
    final_got, final_want = [], []
    fg, fw = [], []
    for val, (kind, want) in zip(returned, expected):
        k, v = flat_values(val)
        ctx.require(k == kind, f"a value of kind {kind} was returned as {type(val).__name__}: {val}", circuit=str(circ))
        arr = np.asarray(v)
        w = np.array(want, dtype=object) if kind == "q" else want
        ctx.require(tuple(arr.shape) == tuple(w.shape), f"handles of shape {arr.shape} instead of {w.shape}")
        for i, t in zip(arr.reshape(-1), w.reshape(-1)):
            i = int(i)
            if kind == "q":
                ctx.require(0 <= i < max(n, circ.num_qubits), f"qubit index {i} out of range")
                final_got.append(i)
                final_want.append(int(t))
            else:
                if kind == "m":
                    ctx.require(0 <= i < count, f"record index {i} out of range")
                    fg.append(frozenset([i]))
                elif kind == "d":
                    ctx.require(0 <= i < len(dets), f"detector index {i} out of range", circuit=str(circ))
                    fg.append(dets[i])
                else:
                    ctx.require(i in obs or not t, f"observable index {i} does not exist", circuit=str(circ))
                    fg.append(obs.get(i, frozenset()))
                fw.append(t)
    ctx.require(len(set(final_got)) == len(final_got), f"returned qubit indices are not distinct: {final_got}")
    a = branches.distribution(lambda r: tuple(R.parity_of(r, t) for t in fw), tuple(final_want))
    b = got.distribution(lambda r: tuple(R.parity_of(r, t) for t in fg), tuple(final_got))
    ctx.observe(monitor, (key(a), str(ctx.last)[:200]), len(a) > 1 or bool(dets))
    ctx.close(R.dist_diff(a, b), 1e-6, "joint distribution of the returned values", None, circuit=str(circ), got=str(b)[:400], want=str(a)[:400])
    return dets, obs, count


def sets(*pos):
    a = np.empty(len(pos), dtype=object)
    for i, p_ in enumerate(pos):
        a[i] = frozenset([p_]) if isinstance(p_, (int, np.integer)) else frozenset(p_)
    return a


def scalar(fs):
    a = np.empty((), dtype=object)
    a[()] = frozenset(fs)
    return a


def xor(fs):
    out = set()
    for f in fs:
        out ^= set(f)
    return frozenset(out)


def extract(ctx):
    """traced programs with parities of parities, noise, feedback and returned handles"""
    py = ctx.py
    n = py.randint(1, 5)
    parts = []
    m_total = 0
    values = []  # positions sets of parities
    plan = []
    for _ in range(py.randint(1, 3)):
        ev, m = random_script(py, n, py.randint(2, 8), meas_max=3, noise_max=1, feedback=True)
        ev = [(e[0], e[1] + m_total, e[2], e[3]) if e[0] == "if" else e for e in ev]
        m_total += m
        plan.append(("ev", ev))
        for _ in range(py.randint(0, 2)):
            if m_total:
                srcs = [("m", i) for i in range(m_total)] + [("p", i) for i in range(len(values))]
                pick = [py.choice(srcs) for _ in range(py.randint(1, min(4, len(srcs))))]
                if py.random() < 0.8:
                    pick = list(dict.fromkeys(pick))
                rec = xor([[i] if kk == "m" else values[i] for kk, i in pick])
                plan.append(("parity", pick, py.randint(0, 1), py.random() < 0.3))
                values.append(rec)
    # a repeated round inside a classical loop
    loop = None
    if py.random() < 0.35:
        ev, m = random_script(py, n, py.randint(2, 5), meas_max=0, noise_max=0, feedback=False)
        loop = (ev, py.randint(0, 3))
    obs_flags = [p_[3] for p_ in plan if p_[0] == "parity"]
    regs = registers(py, n)
    ret = []
    for i in range(m_total):
        if py.random() < 0.7:
            ret.append(("m", i))
    for i in range(len(values)):
        if py.random() < 0.85:
            ret.append(("p", i))
    if py.random() < 0.3:
        ret.append(("const", py.randint(2, 9)))
    order = "chronological"
    qret = py.random() < 0.5
    py.shuffle(ret)
    keys = [(values[i], obs_flags[i], [p_[2] for p_ in plan if p_[0] == "parity"][i]) for i in range(len(values))]
    all_returned = all(("p", i) in ret for i in range(len(values)) if not obs_flags[i])
    if py.random() < 0.4 and all_returned and len(set(keys)) == len(keys) and not all(obs_flags):
        order = "return_order"
    dyn = py.choice([None, 0.5, 1.0])
    ctx.last = dict(qubits=n, registers=regs, plan=str(plan), loop=str(loop), returned=ret, qubits_returned=qret, order=order, dynamic_probability=dyn)
    ctx.sample(ctx.last)

    def main(*dargs):
        objs, q = make_registers(regs)
        b = Builder(q)
        par = []
        if loop:
            lev, reps = loop
            # the loop bound is a run time number
            bound = dargs[-1]
            for _ in jrange(bound):
                Builder(q).run(lev)
        for st in plan:
            if st[0] == "ev":
                b.run(st[1], dargs[0] if dyn is not None else None)
            else:
                par.append(parity(*[b.bits[i] if kk == "m" else par[i] for kk, i in st[1]], expectation=st[2], observable=st[3]))
        out = []
        for kk, i in ret:
            out.append(b.bits[i] if kk == "m" else par[i] if kk == "p" else i)
        if qret:
            out += [o for o in objs if isinstance(o, QuantumVariable)]
        return tuple(out)

    args = ([dyn] if dyn is not None else []) + ([loop[1]] if loop else [])
    f = extract_stim(main) if order == "chronological" and py.random() < 0.5 else extract_stim(detector_order=order)(main)
    scale = 1.0 if dyn is None else dyn
    script = []
    for _ in range(loop[1] if loop else 0):
        script += loop[0]
    for st in plan:
        if st[0] == "ev":
            script += [("noise", e[1], tuple(a * scale for a in e[2]), e[3], e[4]) if e[0] == "noise" else e for e in st[1]]
    try:
        br = enumerate_script(script, n)
    except R.TooMany:
        raise Skip("too many branches")
    res = f(*args)
    expected, vals = [], []
    returned = []
    qn = [k for kind, k in regs if kind == "variable"] if qret else []
    total = len(ret) + len(qn)
    if total == 0:
        circ = res if isinstance(res, stim.Circuit) else res[-1]
        res = ()
    else:
        ctx.require(len(res) == total + 1, f"{len(res)} returned values instead of {total + 1}")
        circ, res = res[-1], res[:-1]
    for (kk, i), v in zip(ret, res):
        if kk == "const":
            ctx.require(int(v) == i, f"constant {i} came back as {v}")
            continue
        returned.append(v)
        expected.append(("m", scalar([i])) if kk == "m" else ("o" if obs_flags[i] else "d", scalar(values[i])))
    start, qi = 0, 0
    for kind, k in regs:
        if kind == "variable" and qret:
            returned.append(res[len(ret) + qi])
            expected.append(("q", list(range(start, start + k))))
            qi += 1
        start += k
    try:
        dets, obs, count = judge_extract(ctx, "extract", circ, returned, expected, n, br)
    except R.TooMany:
        raise Skip("too many branches")
    ctx.require(count == m_total, f"{count} records instead of {m_total}")
    nd = obs_flags.count(False)
    ctx.require(len(dets) == nd, f"{len(dets)} detectors for {nd} parities", circuit=str(circ))
    if order == "return_order":
        seq = [v for v in returned if isinstance(v, StimDetectorHandles)]
        flat = [int(i) for v in seq for i in np.asarray(v).reshape(-1)]
        ctx.require(flat == list(range(len(flat))), f"detectors are not in the order of the return values: {flat}")


def arrays(ctx):
    """arrays of results: slices, reversals, reshapes, element updates and element-wise parities"""
    py = ctx.py
    n = py.randint(2, 4)
    ev, m = random_script(py, n, py.randint(3, 8), meas_max=0, noise_max=1, feedback=False)
    k = py.choice([2, 3, 4, 4, 6])
    sites = [py.randrange(n) for _ in range(k)]
    between = [random_script(py, n, py.randint(0, 2), meas_max=0, noise_max=0, feedback=False)[0] for _ in range(k)]
    script = list(ev)
    for i in range(k):
        script += [("measure", sites[i])] + between[i]
    steps = []
    for _ in range(py.randint(1, 4)):
        steps.append(py.choice(["rev", "stride", "slice", "reshape", "transpose", "concat", "index", "dynindex", "set", "parity", "split", "row", "roll", "stack", "where", "loopset"]))
    seeds = [py.randrange(1000) for _ in steps]
    obs = py.random() < 0.3
    exp = py.randint(0, 1)
    ctx.last = dict(qubits=n, script=str(script), steps=steps, choices=seeds, observable=obs)
    ctx.sample(ctx.last)
    trace = {"kinds": []}

    def transform(arr, np_mode, dyn_i):
        """the same operations on traced arrays and on arrays of record sets"""
        xp = np if np_mode else jnp
        cur = arr
        outs = []
        kind = "m"
        for st, sd in zip(steps, seeds):
            sh = cur.shape
            if len(sh) == 0:
                break
            if st == "rev":
                cur = cur[::-1]
            elif st == "stride":
                cur = cur[sd % 2 :: 2] if sh[0] > 1 else cur
            elif st == "slice":
                lo = sd % sh[0]
                cur = cur[lo : max(lo + 1, sh[0] - sd % 2)]
            elif st == "reshape":
                size = int(np.prod(sh))
                if size % 2 == 0:
                    cur = cur.reshape((2, size // 2) if sd % 2 else (size // 2, 2))
                else:
                    cur = cur.reshape(-1)
            elif st == "transpose":
                cur = cur.T
            elif st == "concat":
                cur = xp.concatenate([cur, cur[: 1 + sd % sh[0]]])
            elif st == "index":
                cur = cur[sd % sh[0]]
                if isinstance(cur, frozenset):
                    cur = scalar(cur)
            elif st == "dynindex":
                if len(sh) == 1:
                    i = (dyn_i + sd) % sh[0]
                    outs.append((kind, cur[i]))
            elif st == "row":
                if len(sh) == 2:
                    i = (dyn_i + sd) % sh[0]
                    cur = cur[i]
            elif st == "set":
                if len(sh) == 1:
                    i, j = sd % sh[0], (sd // 7) % sh[0]
                    if np_mode:
                        c = cur.copy()
                        c[i] = cur[j]
                        cur = c
                    else:
                        cur = cur.at[i].set(cur[j])
            elif st == "parity":
                if len(sh) == 1:
                    o = cur[::-1]
                    q = cur if sd % 3 else xp.concatenate([cur[1:], cur[:1]])
                    if np_mode:
                        c = np.empty(sh, dtype=object)
                        for i in range(sh[0]):
                            c[i] = frozenset(set(o[i]) ^ set(q[i]))
                        cur = c
                    else:
                        cur = parity(o, q, expectation=exp, observable=obs)
                    kind = "o" if obs else "d"
            elif st == "split":
                if sh[0] > 1:
                    cur = xp.split(cur, [1 + sd % (sh[0] - 1)])[sd % 2]
            elif st == "roll":
                cur = xp.roll(cur, sd % 3, axis=0)
            elif st == "stack":
                if len(sh) == 1:
                    cur = xp.stack([cur, cur[::-1]])
            elif st == "where":
                if len(sh) == 1:
                    mask = np.array([(sd >> i) & 1 for i in range(sh[0])], dtype=bool)
                    cur = xp.where(mask, cur, cur[::-1])
            elif st == "loopset":
                # collect entries in a fresh array
                if len(sh) == 1:
                    if np_mode:
                        c = np.empty(sh, dtype=object)
                        for i in range(sh[0]):
                            c[i] = cur[sh[0] - 1 - i]
                        cur = c
                    else:
                        c = jnp.zeros(sh[0], dtype=bool)
                        for i in range(sh[0]):
                            c = c.at[i].set(cur[sh[0] - 1 - i])
                        cur = c
        outs.append((kind, cur))
        return outs

    def main(dyn_i):
        qv = QuantumVariable(n)
        b = Builder(lambda i: qv[i])
        b.run(script)
        outs = transform(jnp.array(b.bits), False, dyn_i)
        return tuple(v for _, v in outs)

    di = py.randrange(4)
    base = sets(*range(k))
    want = transform(base, True, di)
    try:
        br = enumerate_script(script, n)
    except R.TooMany:
        raise Skip("too many branches")
    res = extract_stim(main)(di)
    circ, res = res[-1], res[:-1]
    expected = []
    for kind, w in want:
        if isinstance(w, (frozenset, set)):
            w = scalar(w)
        expected.append((kind, w))
    try:
        judge_extract(ctx, "arrays", circ, list(res), expected, n, br)
    except R.TooMany:
        raise Skip("too many branches")


def executed(ctx):
    """parities in executed programs: value and verification of the expectation"""
    py = ctx.py
    n = py.randint(2, 4)
    ev, m = random_script(py, n, py.randint(3, 9), meas_max=3, noise_max=0, feedback=False)
    if not m:
        ev.append(("measure", 0))
        m = 1
    br = enumerate_script(ev, n)
    pick = py.sample(range(m), py.randint(1, m))
    exp = py.randint(0, 1)
    vals = {R.parity_of(r, pick) for _, _, r, _ in br.b}
    obs = len(vals) > 1 or py.random() < 0.3
    arr = py.random() < 0.4
    ctx.last = dict(qubits=n, script=str(ev), parity=pick, expectation=exp, observable=obs, array=arr)
    ctx.sample(ctx.last)

    def main():
        qv = QuantumVariable(n)
        b = Builder(lambda i: qv[i])
        b.run(ev)
        if arr:
            z_ = jnp.array(b.bits)
            return tuple(b.bits) + (parity(*[jnp.array([b.bits[i], b.bits[i]]) for i in pick], expectation=exp, observable=obs),)
        return tuple(b.bits) + (parity(*[b.bits[i] for i in pick], expectation=exp, observable=obs),)

    ctx.observe("executed", (str(ctx.last), exp), True)
    should_fail = not obs and vals != {exp}
    try:
        res = jaspify(main)()
    except Exception as err:
        ctx.require(should_fail, f"execution failed: {type(err).__name__}: {err}")
        return
    ctx.require(not should_fail, f"parity {vals} deviates from the expectation {exp} but the execution did not report it")
    bits = tuple(int(v) for v in res[:-1])
    ctx.require(bits in {tuple(r) for _, _, r, _ in br.b}, f"impossible outcome {bits}")
    w = (R.parity_of(bits, pick) + exp) % 2
    for g in np.asarray(res[-1]).reshape(-1):
        ctx.require(int(g) == w, f"parity reported {int(g)} instead of {w} for outcome {bits}")


def detectors(ctx):
    """automatically found detectors are deterministic with the recorded expectation"""
    py = ctx.py
    n = py.randint(2, 5)
    rounds = py.randint(1, 3)
    anc = py.sample(range(n), py.randint(1, max(1, n // 2)))
    data = [q for q in range(n) if q not in anc]
    style = py.choice(["rounds", "rounds", "free"])
    ev, m = [], 0
    for r in range(rounds):
        if style == "rounds":
            for a in anc:
                ev.append(("reset", a))
            for _ in range(py.randint(1, 5)):
                if data and py.random() < 0.75:
                    a, d = py.choice(anc), py.choice(data)
                    ev.append(("gate", py.choice(["cx", "cx", "cz"]), (d, a) if py.random() < 0.8 else (a, d)))
                else:
                    ev.append(("gate", py.choice(["h", "x", "z", "s"]), (py.randrange(n),)))
            for a in anc:
                if m < 6:
                    ev.append(("measure", a))
                    m += 1
        else:
            e, k = random_script(py, n, py.randint(3, 7), meas_max=2, noise_max=0, feedback=False)
            if py.random() < 0.6:
                # qubits that are used, discarded and used again
                q = py.randrange(n)
                at = py.randint(0, len(e))
                e[at:at] = [("gate", "x", (q,)), ("reset", q)]
            if not k:
                e.append(("measure", py.randrange(n)))
                k = 1
            ev += e
            m += k
    if style == "rounds" and data and py.random() < 0.5 and m + len(data) <= 8:
        for d in data:
            ev.append(("measure", d))
            m += 1
    ev = [e for e in ev if e[0] != "barrier"]
    split = py.randint(1, n - 1) if py.random() < 0.3 else None
    drop = py.random() < 0.3
    keep = [i for i in range(m) if not drop or py.random() < 0.7] or [0]
    extra = py.choice([None, 3])
    ctx.last = dict(qubits=n, style=style, script=str(ev), arrays=split, returned=keep)
    ctx.sample(ctx.last)

    def body(*args):
        a = list(args)
        if extra is not None:
            a = a[:-1]
        look = (lambda i: a[0][i][0]) if split is None else (lambda i: a[0][i][0] if i < split else a[1][i - split][0])
        b = Builder(look)
        b.run(ev)
        return tuple(b.bits[i] for i in keep)

    wrapped = find_detectors(body)
    count = []

    def main():
        if split is None:
            qs = (QuantumArray(qtype=QuantumBool(), shape=(n,)),)
        else:
            qs = (QuantumArray(qtype=QuantumBool(), shape=(split,)), QuantumArray(qtype=QuantumBool(), shape=(n - split,)))
        out = wrapped(*qs, *([extra] if extra is not None else []))
        count.append(len(out[0]))
        return tuple(out[0]) + tuple(out[1:])

    try:
        res = extract_stim(main)()
    except Exception as err:
        if "tqecd" in str(type(err).__module__):
            raise Skip(f"analysis refused: {type(err).__name__}")
        raise
    circ, res = res[-1], res[:-1]
    k = count[-1]
    br = enumerate_script(ev, n)
    ctx.require(len(res) == k + len(keep), f"{len(res)} values for {k} detectors and {len(keep)} results")
    got, dets, _, obs, cnt = R.run_stim(circ, n)
    ctx.observe("detectors", (str(ev), k), k > 0)
    ctx.require(len(dets) == k, f"{len(dets)} detectors in the circuit, {k} reported")
    for i, v in zip(keep, res[k:]):
        ctx.require(int(v) == i, f"result {i} reported as record {int(v)}")
    # recorded finding: detectors of every round but the last are attached to the
    # records that lie as far before the end of the program as they should lie
    # before the end of their round
    ends, pos, seen = [], 0, set()
    for e, nxt in zip(ev, ev[1:] + [("end",)]):
        if e[0] == "measure":
            pos += 1
            seen.add(e[1])
            if nxt[0] != "measure" or nxt[1] in seen:
                ends.append(pos)
                seen = set()

    def misplaced(rec, want=None):
        for end in ends[:-1]:
            moved = {i - (m - end) for i in rec}
            if min(moved, default=0) >= 0:
                vals = {R.parity_of(r, moved) for _, _, r, _ in br.b}
                if len(vals) == 1 and want in (None, *vals):
                    return "detectors-several-rounds"
        return None

    for j, v in enumerate(res[:k]):
        rec = dets[int(v)]
        ctx.require(rec <= set(keep), "a detector uses results that were not returned")
        vals = {R.parity_of(r, rec) for _, _, r, _ in br.b}
        ctx.require(len(vals) == 1, f"detector {sorted(rec)} is not deterministic", circuit=str(circ), mech=misplaced(rec))
    # the expectations recorded in the emitted circuit
    hs = make_jaspr(main)().to_qc()[:k] if k else []
    for j, (v, hd) in enumerate(zip(res[:k], hs)):
        vals = {R.parity_of(r, dets[int(v)]) for _, _, r, _ in br.b}
        ctx.require({int(hd.expectation)} == vals, f"detector {sorted(dets[int(v)])} has parity {vals} but expectation {hd.expectation}", circuit=str(circ), mech=misplaced(dets[int(v)], int(hd.expectation)))
    if k and py.random() < 0.2:
        # the expectation handed to the parity is verified by the execution
        try:
            jaspify(main)()
        except Exception as err:
            raise Violation(f"execution of the annotated program failed: {type(err).__name__}: {err}")


def permute(ctx):
    """reordering the detectors of an exported circuit"""
    py = ctx.py
    n = py.randint(1, 4)
    ev, m = random_script(py, n, py.randint(3, 12), meas_max=5, noise_max=1)
    c = stim.Circuit()
    pos, nd, no = 0, 0, 0
    shift = np.zeros(3)
    shifts = py.random() < 0.5
    dim = py.randint(0, 3)
    for e in ev:
        if e[0] == "gate":
            c.append({"s_dg": "S_DAG", "sx": "SQRT_X", "sx_dg": "SQRT_X_DAG", "id": "I"}.get(e[1], e[1].upper()), list(e[2]))
        elif e[0] == "measure":
            c.append("M", [e[1]])
            pos += 1
        elif e[0] == "reset":
            c.append("R", [e[1]])
        elif e[0] == "noise":
            if e[4] is None:
                c.append(e[1], list(e[3]), list(e[2]))
            else:
                c.append(e[1], [getattr(stim, "target_" + ch.lower())(q) for ch, q in zip(e[4], e[3]) if ch != "I"], list(e[2]))
        elif e[0] == "if":
            c.append("C" + e[2].upper(), [stim.target_rec(e[1] - pos), e[3]])
        elif e[0] == "barrier":
            c.append("TICK")
        while pos and py.random() < 0.35:
            t = [stim.target_rec(-i) for i in py.sample(range(1, pos + 1), py.randint(1, min(3, pos)))]
            if py.random() < 0.75:
                c.append("DETECTOR", t, [float(py.randint(0, 4)) for _ in range(dim)])
                nd += 1
            else:
                c.append("OBSERVABLE_INCLUDE", t, [no])
                no += 1
        if shifts and dim and py.random() < 0.2:
            c.append("SHIFT_COORDS", [], [float(py.randint(0, 3)) for _ in range(py.randint(1, dim))])
    if not nd:
        raise Skip("no detectors")
    perm = list(range(nd))
    py.shuffle(perm)
    text = str(c)
    ctx.last = dict(circuit=text, permutation=perm)
    ctx.sample(ctx.last)
    arg = py.choice([list, tuple, np.array])(perm)
    out = permute_detectors(c, arg)
    ctx.require(str(c) == text, "the given circuit was modified")
    try:
        b0, d0, _, o0, k0 = R.run_stim(c)
        b1, d1, _, o1, k1 = R.run_stim(out)
    except R.TooMany:
        raise Skip("too many branches")
    ctx.observe("permute", (text, tuple(perm)), True)
    qs_ = tuple(range(b0.n))
    ctx.close(R.dist_diff(b0.distribution(lambda r: r, qs_), b1.distribution(lambda r: r, qs_)), 1e-9, "distribution of the circuit with reordered detectors", circuit=str(out))
    ctx.require([d0[i] for i in perm] == d1, f"detectors {[sorted(d) for d in d1]} after permutation {perm} of {[sorted(d) for d in d0]}")
    ctx.require(o0 == o1, "observables changed")
    c0, c1 = c.get_detector_coordinates(), out.get_detector_coordinates()
    for j, i in enumerate(perm):
        a, b = list(c0[i]), list(c1[j])
        b = b[: len(a)] if all(abs(v) < 1e-12 for v in b[len(a) :]) else b
        ctx.require(np.allclose(a, b) if len(a) == len(b) else False, f"coordinates {b} of detector {j} instead of {a}", circuit=str(out))
    for wrong in (perm[:-1], perm[:-1] + [nd], [perm[0]] * nd if nd > 1 else [1]):
        try:
            permute_detectors(c, wrong)
        except ValueError:
            continue
        raise Violation(f"invalid permutation {wrong} accepted")


FAMILIES = dict(static=static, extract=extract, arrays=arrays, executed=executed, detectors=detectors, permute=permute)
