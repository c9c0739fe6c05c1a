"""Branch enumeration of stabilizer circuits with measurements, resets, feedback
and noise on dense states; runs scripts of plain events and stim circuits alike."""
import numpy as np
import stim

PAULI = {
    "I": np.eye(2, dtype=complex),
    "X": np.array([[0, 1], [1, 0]], dtype=complex),
    "Y": np.array([[0, -1j], [1j, 0]], dtype=complex),
    "Z": np.diag([1, -1]).astype(complex),
}
_S = np.diag([1, 1j]).astype(complex)
_SX = np.array([[1 + 1j, 1 - 1j], [1 - 1j, 1 + 1j]]) / 2


def _ctl(u):
    m = np.eye(4, dtype=complex)
    m[2:, 2:] = u
    return m


# first qubit is the most significant index bit
GATES = {
    "h": np.array([[1, 1], [1, -1]], dtype=complex) / np.sqrt(2),
    "x": PAULI["X"], "y": PAULI["Y"], "z": PAULI["Z"], "s": _S, "s_dg": _S.conj(), "sx": _SX, "sx_dg": _SX.conj().T,
    "id": PAULI["I"], "cx": _ctl(PAULI["X"]), "cy": _ctl(PAULI["Y"]), "cz": _ctl(PAULI["Z"]),
    "swap": np.eye(4, dtype=complex)[[0, 2, 1, 3]],
}
PAIRS = [a + b for a in "IXYZ" for b in "IXYZ"][1:]


class TooMany(Exception):
    pass


class Branches:
    """mixture of (probability, state, recorded bits, flag of the last correlated error)"""

    def __init__(self, n, limit=4096):
        self.n, self.limit = n, limit
        psi = np.zeros(2**n, dtype=complex)
        psi[0] = 1
        self.b = [(1.0, psi, (), False)]

    def _apply(self, psi, m, qs):
        n = self.n
        t = psi.reshape([2] * n)
        k = len(qs)
        t = np.tensordot(m.reshape([2] * (2 * k)), t, axes=(list(range(k, 2 * k)), list(qs)))
        return np.moveaxis(t, list(range(k)), list(qs)).reshape(-1)

    def _check(self):
        if len(self.b) > self.limit:
            raise TooMany()

    def gate(self, m, qs, cond=None):
        self.b = [(p, self._apply(s, m, qs) if cond is None or cond(r) else s, r, f) for p, s, r, f in self.b]

    def _split(self, psi, q):
        t = psi.reshape([2] * self.n)
        out = []
        for v in (0, 1):
            u = np.zeros_like(t)
            ix = [slice(None)] * self.n
            ix[q] = v
            u[tuple(ix)] = t[tuple(ix)]
            w = float(np.vdot(u, u).real)
            if w > 1e-9:
                out.append((v, w, u.reshape(-1) / np.sqrt(w)))
        return out

    def measure(self, q):
        self.b = [(p * w, u, r + (v,), f) for p, s, r, f in self.b for v, w, u in self._split(s, q)]
        self._check()

    def reset(self, q):
        self.b = [(p * w, self._apply(u, PAULI["X"], [q]) if v else u, r, f) for p, s, r, f in self.b for v, w, u in self._split(s, q)]
        self._check()

    def noise(self, name, args, qs, pauli=None):
        name = name.upper()
        if name in ("E", "CORRELATED_ERROR", "ELSE_CORRELATED_ERROR"):
            out = []
            for p, s, r, f in self.b:
                prev = f if name == "ELSE_CORRELATED_ERROR" else False
                if prev:
                    out.append((p, s, r, True))
                    continue
                a = args[0]
                if a > 0:
                    u = s
                    for c, q in zip(pauli, qs):
                        u = self._apply(u, PAULI[c], [q])
                    out.append((p * a, u, r, True))
                if a < 1:
                    out.append((p * (1 - a), s, r, False))
            self.b = out
            self._check()
            return
        if name in ("X_ERROR", "Y_ERROR", "Z_ERROR"):
            terms = [(name[0], args[0])]
        elif name == "DEPOLARIZE1":
            terms = [(c, args[0] / 3) for c in "XYZ"]
        elif name == "PAULI_CHANNEL_1":
            terms = list(zip("XYZ", args))
        elif name == "DEPOLARIZE2":
            terms = [(c, args[0] / 15) for c in PAIRS]
        elif name == "PAULI_CHANNEL_2":
            terms = list(zip(PAIRS, args))
        else:
            raise ValueError("noise " + name)
        rest = 1 - sum(a for _, a in terms)
        out = []
        for p, s, r, f in self.b:
            if rest > 1e-12:
                out.append((p * rest, s, r, f))
            for w, a in terms:
                if a > 0:
                    u = s
                    for c, q in zip(w, qs):
                        u = self._apply(u, PAULI[c], [q])
                    out.append((p * a, u, r, f))
        self.b = out
        self._check()

    def distribution(self, value, final=()):
        """distribution of value(record) together with a measurement of the listed qubits"""
        d = {}
        for p, s, r, _ in self.b:
            if final:
                t = np.abs(s.reshape([2] * self.n)) ** 2
                rest = tuple(i for i in range(self.n) if i not in final)
                t = t.sum(axis=rest)
                order = sorted(final)
                t = np.transpose(t, [order.index(q) for q in final])
                for idx in np.argwhere(t > 1e-9):
                    k = (value(r), tuple(int(x) for x in idx))
                    d[k] = d.get(k, 0.0) + p * float(t[tuple(idx)])
            else:
                k = (value(r), ())
                d[k] = d.get(k, 0.0) + p
        return {k: v for k, v in d.items() if v > 1e-9}


def run_stim(circ, n=None):
    """returns the branches and the detectors and observables as sets of record positions"""
    n = max(circ.num_qubits, n or 1, 1)
    br = Branches(n)
    count = 0
    dets, coords, obs = [], [], {}
    shift = []
    for ins in circ.flattened():
        name = ins.name
        tg = ins.targets_copy()
        args = ins.gate_args_copy()
        if name in ("TICK", "QUBIT_COORDS"):
            continue
        if name == "DETECTOR":
            s = set()
            for t in tg:
                s ^= {count + t.value}
            dets.append(frozenset(s))
            coords.append(tuple(args))
        elif name == "OBSERVABLE_INCLUDE":
            s = set(obs.get(int(args[0]), frozenset()))
            for t in tg:
                s ^= {count + t.value}
            obs[int(args[0])] = frozenset(s)
        elif name in ("M", "MZ"):
            for t in tg:
                br.measure(t.value)
                count += 1
        elif name in ("R", "RZ"):
            for t in tg:
                br.reset(t.value)
        elif name in ("E", "CORRELATED_ERROR", "ELSE_CORRELATED_ERROR"):
            br.noise(name, args, [t.value for t in tg], "".join(t.pauli_type for t in tg))
        else:
            gd = stim.gate_data(name)
            k = 1 if gd.is_single_qubit_gate else 2
            for i in range(0, len(tg), k):
                part = tg[i : i + k]
                if any(t.is_measurement_record_target for t in part):
                    a, b = part
                    if b.is_measurement_record_target:
                        a, b = b, a
                    pos = count + a.value
                    br.gate(PAULI[name.replace("Z", "", 1) if name in ("XCZ", "YCZ") else name[-1]], [b.value], lambda r, pos=pos: r[pos])
                elif gd.is_noisy_gate:
                    br.noise(name, args, [t.value for t in part])
                else:
                    m = np.array(gd.unitary_matrix, dtype=complex)
                    if k == 2:  # stim lists matrices little endian
                        m = m.reshape(2, 2, 2, 2).transpose(1, 0, 3, 2).reshape(4, 4)
                    br.gate(m, [t.value for t in part])
    return br, dets, coords, obs, count


def parity_of(r, positions):
    return sum(r[i] for i in positions) % 2


def dist_diff(p, q):
    return max([abs(p.get(k, 0.0) - q.get(k, 0.0)) for k in set(p) | set(q)] or [0.0])
