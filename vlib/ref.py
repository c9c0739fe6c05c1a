"""Independent reference semantics for Qrisp circuits.

The reference interprets a ``QuantumCircuit`` object structurally (instruction by
instruction, recursing through definitions) with gate matrices written down here
from their textbook definitions.  None of Qrisp's matrix, unitary or simulator code
is called.

A (mixed) state is a sparse list of ``(qubit key, record key, amplitude)`` rows.
``record key`` holds the current classical bits followed by one "environment" bit
per measurement / reset event, so that outcomes never interfere with each other:
the record makes the ensemble of measurement branches exact.
"""

import cmath
import math

import numpy as np

SQ2 = 1 / math.sqrt(2)


class RefUnsupported(Exception):
    """The circuit contains something the reference cannot interpret."""


class RefTooLarge(Exception):
    pass


def u3(theta, phi, lam, gph=0.0):
    c, s = math.cos(theta / 2), math.sin(theta / 2)
    return cmath.exp(1j * gph) * np.array(
        [
            [c, -cmath.exp(1j * lam) * s],
            [cmath.exp(1j * phi) * s, cmath.exp(1j * (phi + lam)) * c],
        ],
        dtype=complex,
    )


def p_mat(phi):
    return np.array([[1, 0], [0, cmath.exp(1j * phi)]], dtype=complex)


def rx_mat(t):
    c, s = math.cos(t / 2), math.sin(t / 2)
    return np.array([[c, -1j * s], [-1j * s, c]], dtype=complex)


def ry_mat(t):
    c, s = math.cos(t / 2), math.sin(t / 2)
    return np.array([[c, -s], [s, c]], dtype=complex)


def rz_mat(t):
    return np.array([[cmath.exp(-0.5j * t), 0], [0, cmath.exp(0.5j * t)]], dtype=complex)


X = np.array([[0, 1], [1, 0]], dtype=complex)
Y = np.array([[0, -1j], [1j, 0]], dtype=complex)
Z = np.diag([1, -1]).astype(complex)
I2 = np.eye(2, dtype=complex)
H = np.array([[SQ2, SQ2], [SQ2, -SQ2]], dtype=complex)
SX = rx_mat(math.pi / 2)  # Qrisp's sx is RX(pi/2)


BAD = np.full((2, 2), np.inf, dtype=complex)  # malformed published data: never equal


def named_1q(name, params):
    """Matrix of a single qubit gate from its *published* data (name, params)."""
    base = name[:-3] if name.endswith("_dg") else name
    pr = [float(p) for p in params]
    if base == "x":
        m = X
    elif base == "y":
        m = Y
    elif base == "z":
        m = Z
    elif base == "h":
        m = H
    elif base == "id":
        m = I2
    elif base == "s":
        m = p_mat(math.pi / 2)
    elif base == "t":
        m = p_mat(math.pi / 4)
    elif base == "sx":
        m = SX
    elif base == "p":
        if len(pr) != 1:
            return BAD
        m = p_mat(pr[0])
    elif base == "r":
        if len(pr) != 2:
            return BAD if base == name else None
        m = u3(-pr[0], pr[1], -pr[1])
    elif base == "rx":
        m = rx_mat(pr[0])
    elif base == "ry":
        m = ry_mat(pr[0])
    elif base in ("rz", "u1"):  # Qrisp documents u1 as rz
        if len(pr) != 1:
            return BAD if base == name else None
        m = rz_mat(pr[0])
    elif base == "gphase":
        m = cmath.exp(1j * pr[0]) * I2
    elif base == "u3" and len(pr) == 3:
        m = u3(*pr)
    else:
        return None
    if name.endswith("_dg"):
        m = m.conj().T
    return m


def angles_1q(op):
    """Matrix from the Euler angle attributes (what Qrisp's own simulator reads)."""
    if op.name == "x":
        return X
    if op.name == "y":
        return Y
    if op.name == "z":
        return Z
    return u3(float(op.theta), float(op.phi), float(op.lam), float(op.global_phase))


def rxx_mat(t):
    XX = np.kron(X, X)
    return math.cos(t / 2) * np.eye(4) - 1j * math.sin(t / 2) * XX


def rzz_mat(t):
    ZZ = np.kron(Z, Z)
    return math.cos(t / 2) * np.eye(4) - 1j * math.sin(t / 2) * ZZ


SWAP = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]], dtype=complex)


def controlled_matrix(u, n_ctrl, ctrl_state):
    """ctrl_state: string, character i belongs to control i; controls come first and
    are the most significant qubits."""
    d = u.shape[0]
    N = 2**n_ctrl * d
    res = np.eye(N, dtype=complex)
    idx = int(ctrl_state, 2) if n_ctrl else 0
    res[idx * d : (idx + 1) * d, idx * d : (idx + 1) * d] = u
    return res


def is_cl_controlled(op):
    return hasattr(op, "base_op") and op.name.startswith("c_if_")


def is_exact_controlled(op):
    return type(op).__name__ == "ControlledOperation"


IGNORED = ("barrier", "qb_alloc", "qb_dealloc", "disentangle")


def events(qc, mode="definition", one_q="angles"):
    """Flatten to primitive events: (kind, payload, qubit indices, condition)
    kind in {"u", "x", "measure", "reset"}; condition None or (clbits, ctrl_state)."""
    qi = {qb: i for i, qb in enumerate(qc.qubits)}
    ci = {cb: i for i, cb in enumerate(qc.clbits)}
    out = []
    for ins in qc.data:
        _emit(ins.op, [qi[q] for q in ins.qubits], [ci[c] for c in ins.clbits], None, out, mode, one_q)
    return out


def _emit(op, qs, cs, cond, out, mode, one_q):
    name = op.name
    if name in IGNORED:
        return
    if is_cl_controlled(op):
        k = op.num_control
        st = op.ctrl_state
        newc = (tuple(cs[:k]), st)
        _emit(op.base_op, qs, cs[k:], _and_cond(cond, newc), out, mode, one_q)
        return
    if name == "measure":
        out.append(("measure", cs[0], (qs[0],), cond))
        return
    if name == "reset":
        out.append(("reset", None, (qs[0],), cond))
        return
    if name == "cx" and op.definition is None:
        out.append(("mcx", 1, tuple(qs), cond))
        return
    if name == "cy" and op.definition is None:
        out.append(("u", controlled_matrix(Y, 1, "1"), tuple(qs), cond))
        return
    if name == "cz" and op.definition is None:
        out.append(("u", controlled_matrix(Z, 1, "1"), tuple(qs), cond))
        return
    if name == "swap":
        out.append(("swap", None, tuple(qs), cond))
        return
    if mode == "spec" and is_exact_controlled(op):
        nc = len(op.controls)
        st = op.ctrl_state
        base = op.base_operation
        bm = op_matrix(base, mode, one_q)
        out.append(("cu", (bm, nc, st), tuple(qs), cond))
        return
    if op.definition is not None:
        d = op.definition
        mq = {qb: qs[i] for i, qb in enumerate(d.qubits)}
        mc = {cb: cs[i] for i, cb in enumerate(d.clbits)}
        for ins in d.data:
            _emit(
                ins.op,
                [mq[q] for q in ins.qubits],
                [mc[c] for c in ins.clbits],
                cond,
                out,
                mode,
                one_q,
            )
        return
    if hasattr(op, "theta") and hasattr(op, "lam"):
        if one_q == "angles":
            m = angles_1q(op)
        else:
            m = named_1q(name, op.params)
            if m is None:
                m = angles_1q(op)
        out.append(("u", m, tuple(qs), cond))
        return
    if op.num_qubits == 0:
        return
    raise RefUnsupported(name)


def _and_cond(a, b):
    if a is None:
        return b
    return (a[0] + b[0], a[1] + b[1])


def op_matrix(op, mode="definition", one_q="angles"):
    """Dense matrix of an operation, big endian (qubit 0 most significant)."""
    ev = []
    _emit(op, list(range(op.num_qubits)), [], None, ev, mode, one_q)
    return events_matrix(ev, op.num_qubits)


def circuit_matrix(qc, mode="definition", one_q="angles"):
    return events_matrix(events(qc, mode, one_q), len(qc.qubits))


def events_matrix(ev, n):
    d = 2**n
    # columns simulated all at once: tensor of shape (2,)*n + (d,)
    T = np.eye(d, dtype=complex).reshape((2,) * n + (d,))
    for kind, payload, qs, cond in ev:
        if cond is not None or kind in ("measure", "reset"):
            raise RefUnsupported("non unitary")
        T = dense_apply(T, kind, payload, qs, n)
    return T.reshape(d, d)


def dense_apply(T, kind, payload, qs, n):
    if kind == "mcx":
        m = controlled_matrix(X, payload, "1" * payload)
    elif kind == "swap":
        m = SWAP
    elif kind == "cu":
        m = controlled_matrix(*payload)
    else:
        m = payload
    k = len(qs)
    m = m.reshape((2,) * (2 * k))
    T = np.tensordot(m, T, axes=(list(range(k, 2 * k)), list(qs)))
    return np.moveaxis(T, list(range(k)), list(qs))


def dense_state(qc, mode="definition", one_q="angles", init=None):
    n = len(qc.qubits)
    d = 2**n
    if init is None:
        T = np.zeros(d, dtype=complex)
        T[0] = 1
    else:
        T = np.array(init, dtype=complex)
    T = T.reshape((2,) * n + (1,))
    for kind, payload, qs, cond in events(qc, mode, one_q):
        if cond is not None or kind in ("measure", "reset"):
            raise RefUnsupported("non unitary")
        T = dense_apply(T, kind, payload, qs, n)
    return T.reshape(d)


# ----------------------------------------------------------------------------
# Sparse exact ensemble simulation
# ----------------------------------------------------------------------------


class SparseState:
    """Qubit i <-> bit i of kq; clbit j <-> bit j of kr; then environment bits."""

    def __init__(self, n_qubits, n_clbits, max_rows=1 << 21):
        if n_qubits > 62:
            raise RefTooLarge("qubits")
        self.n = n_qubits
        self.nc = n_clbits
        self.kq = np.zeros(1, dtype=np.int64)
        self.kr = np.zeros(1, dtype=np.int64)
        self.amp = np.ones(1, dtype=complex)
        self.env = n_clbits
        self.max_rows = max_rows

    def set_rows(self, kq, amp):
        self.kq = np.array(kq, dtype=np.int64)
        self.amp = np.array(amp, dtype=complex)
        self.kr = np.zeros(len(self.kq), dtype=np.int64)

    def bit(self, q):
        return (self.kq >> q) & 1

    def _mask(self, cond):
        if cond is None:
            return None
        m = np.ones(len(self.kq), dtype=bool)
        for c, s in zip(*cond):
            m &= ((self.kr >> c) & 1) == int(s)
        return m

    def _merge(self):
        o = np.lexsort((self.kq, self.kr))
        kq, kr, a = self.kq[o], self.kr[o], self.amp[o]
        new = np.ones(len(kq), dtype=bool)
        new[1:] = (kq[1:] != kq[:-1]) | (kr[1:] != kr[:-1])
        idx = np.cumsum(new) - 1
        out = np.zeros(idx[-1] + 1, dtype=complex)
        np.add.at(out, idx, a)
        kq, kr = kq[new], kr[new]
        keep = np.abs(out) > 1e-13
        self.kq, self.kr, self.amp = kq[keep], kr[keep], out[keep]
        if len(self.kq) > self.max_rows:
            raise RefTooLarge("rows")

    def apply(self, ev):
        kind, payload, qs, cond = ev
        mask = self._mask(cond)
        if mask is not None and not mask.any():
            return
        if kind == "mcx":
            m = np.ones(len(self.kq), dtype=bool) if mask is None else mask.copy()
            for q in qs[:-1]:
                m &= self.bit(q) == 1
            self.kq[m] ^= 1 << qs[-1]
        elif kind == "swap":
            a, b = qs
            d = (self.bit(a) ^ self.bit(b)) == 1
            if mask is not None:
                d &= mask
            self.kq[d] ^= (1 << a) | (1 << b)
        elif kind == "u":
            self._matrix(payload, qs, mask)
        elif kind == "cu":
            bm, nc, st = payload
            m = np.ones(len(self.kq), dtype=bool) if mask is None else mask.copy()
            for i in range(nc):
                m &= self.bit(qs[i]) == int(st[i])
            if m.any():
                self._matrix(bm, qs[nc:], m)
        elif kind == "measure":
            c = payload
            b = self.bit(qs[0])
            self._record(b, mask)
            if mask is None:
                self.kr = (self.kr & ~np.int64(1 << c)) | (b << c)
            else:
                self.kr[mask] = (self.kr[mask] & ~np.int64(1 << c)) | (b[mask] << c)
        elif kind == "reset":
            b = self.bit(qs[0])
            self._record(b, mask)
            if mask is None:
                self.kq &= ~np.int64(1 << qs[0])
            else:
                self.kq[mask] &= ~np.int64(1 << qs[0])
        else:
            raise RefUnsupported(kind)

    def _record(self, b, mask):
        if self.env >= 62:
            raise RefTooLarge("records")
        # only spend an environment bit if the event is not deterministic
        bb = b if mask is None else np.where(mask, b, 0)
        if bb.min() == bb.max():
            return
        self.kr = self.kr | (bb << self.env)
        self.env += 1

    def _matrix(self, m, qs, mask):
        k = len(qs)
        d = 1 << k
        # local index: qs[0] most significant
        if mask is None:
            kq, kr, amp = self.kq, self.kr, self.amp
        else:
            kq, kr, amp = self.kq[mask], self.kr[mask], self.amp[mask]
        loc = np.zeros(len(kq), dtype=np.int64)
        clear = np.int64(0)
        for j, q in enumerate(qs):
            loc |= ((kq >> q) & 1) << (k - 1 - j)
            clear |= np.int64(1 << q)
        spread = np.zeros(d, dtype=np.int64)
        for v in range(d):
            for j, q in enumerate(qs):
                if (v >> (k - 1 - j)) & 1:
                    spread[v] |= 1 << q
        nz = np.abs(m) > 1e-14
        if np.all(nz.sum(axis=0) == 1):
            row = np.argmax(nz, axis=0)
            val = m[row, np.arange(d)]
            nkq = (kq & ~clear) | spread[row[loc]]
            namp = amp * val[loc]
            if mask is None:
                self.kq, self.amp = nkq, namp
            else:
                self.kq = self.kq.copy()
                self.amp = self.amp.copy()
                self.kq[mask] = nkq
                self.amp[mask] = namp
            return
        base = kq & ~clear
        parts_q, parts_r, parts_a = [], [], []
        for r in range(d):
            w = m[r, loc] * amp
            keep = np.abs(w) > 1e-14
            parts_q.append(base[keep] | spread[r])
            parts_r.append(kr[keep])
            parts_a.append(w[keep])
        if mask is not None:
            inv = ~mask
            parts_q.append(self.kq[inv])
            parts_r.append(self.kr[inv])
            parts_a.append(self.amp[inv])
        self.kq = np.concatenate(parts_q)
        self.kr = np.concatenate(parts_r)
        self.amp = np.concatenate(parts_a)
        self._merge()

    # ---- observations -------------------------------------------------
    def clbit_distribution(self):
        """dict: bitstring with clbit 0 rightmost -> probability."""
        key = self.kr & np.int64((1 << self.nc) - 1)
        p = np.abs(self.amp) ** 2
        u, inv = np.unique(key, return_inverse=True)
        w = np.bincount(inv, weights=p)
        return {
            (format(int(k), f"0{self.nc}b") if self.nc else ""): float(x)
            for k, x in zip(u, w)
            if x > 1e-12
        }

    def norm(self):
        return float(np.sum(np.abs(self.amp) ** 2))

    def qubit_distribution(self, qubits):
        """dict: int with qubits[0] least significant -> probability."""
        key = np.zeros(len(self.kq), dtype=np.int64)
        for j, q in enumerate(qubits):
            key |= self.bit(q) << j
        p = np.abs(self.amp) ** 2
        u, inv = np.unique(key, return_inverse=True)
        w = np.bincount(inv, weights=p)
        return {int(k): float(x) for k, x in zip(u, w) if x > 1e-12}

    def to_dict(self):
        return {(int(q), int(r)): complex(a) for q, r, a in zip(self.kq, self.kr, self.amp)}


def simulate(qc, mode="definition", one_q="angles", init_rows=None, max_rows=1 << 20):
    st = SparseState(len(qc.qubits), len(qc.clbits), max_rows=max_rows)
    if init_rows is not None:
        st.set_rows(*init_rows)
    for ev in events(qc, mode, one_q):
        st.apply(ev)
    return st


# ----------------------------------------------------------------------------
# Comparisons
# ----------------------------------------------------------------------------


def max_diff(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return float("inf")
    if a.size == 0:
        return 0.0
    d = np.max(np.abs(a - b))
    return float("inf") if not np.isfinite(d) else float(d)


def phase_diff(a, b):
    """max |a - e^{i phi} b| minimised over a global phase."""
    a, b = np.asarray(a, dtype=complex), np.asarray(b, dtype=complex)
    if a.shape != b.shape:
        return float("inf")
    ov = np.vdot(b.ravel(), a.ravel())
    if abs(ov) < 1e-9:
        return max_diff(a, b)
    return max_diff(a, b * (ov / abs(ov)))


def dist_diff(p, q):
    keys = set(p) | set(q)
    if not keys:
        return 0.0
    return max(abs(p.get(k, 0.0) - q.get(k, 0.0)) for k in keys)
