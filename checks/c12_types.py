PROPERTY = "C12"
RULE = (
    "one evaluation = one encoded value, prepared superposition, phase function, bit operation, duplication, resizing, injection or measurement of typed quantum variables, judged by the exact amplitudes of the session "
    "or by the reported distribution; distinct = distinct (types, operation, values)"
)
PLAN = {
    "quick": {"roundtrip": 160, "superposition": 160, "joint": 180, "phases": 110, "bitwise": 100, "copying": 140, "injection": 90, "statevectors": 90, "sampled": 60, "strings": 50},
    "thorough": {"roundtrip": 1500, "superposition": 1600, "joint": 1800, "phases": 1000, "bitwise": 900, "copying": 1400, "injection": 900, "statevectors": 900, "sampled": 500, "strings": 400},
}
REQUIRED_MONITORS = ["code_roundtrip", "encoded_state", "rejected_value", "prepared_state", "distribution", "joint_distribution", "phase_function", "bit_operation", "copied_state", "resized_state", "rejected_copy", "injected_state", "statevector_function", "statevector_expression", "sampled_counts", "string_value"]
ASSUMPTIONS = ["preparation of a superposition fixes the state up to a global phase", "probabilities are reported with about five decimals"]
CASE_TIMEOUT = 150
# --- end of plan ---
import numpy as np

from vlib import qs as Q, ref
from vlib.harness import Skip, Violation

import qrisp
from qrisp import QuantumVariable, QuantumFloat, QuantumBool, QuantumChar, QuantumString, QuantumArray, QuantumModulus, as_hamiltonian, app_phase_function, control, cx, cp, mcx, x, y, z, h, p, rz, ry, u3, merge, multi_measurement


class TwoBit(QuantumVariable):
    """user defined type whose codes carry names"""

    def __init__(self, names, qs=None, name=None):
        self.names = list(names)
        super().__init__(2, qs=qs, name=name)

    def decoder(self, i):
        return self.names[i]


class T:
    """A quantum type together with the independent meaning of its codes."""

    def __init__(self, ctx, kinds="vfbcmuwd", size=None):
        py = self.py = ctx.py
        k = self.kind = py.choice(kinds)
        if k == "v":
            n = size or py.randint(1, 3)
            self.make = lambda: QuantumVariable(n)
            self.labels = [format(i, f"0{n}b")[::-1] for i in range(2**n)]
            self.desc = f"variable({n})"
        elif k == "f":
            m, e, s = py.randint(1, 3), py.randint(-3, 2), py.random() < 0.5
            if size:
                s = s and size > 1
                m = size - s
            n = m + s
            self.make = lambda: QuantumFloat(m, e, signed=s)
            self.labels = [(i - 2**n if s and i >= 2 ** (n - 1) else i) * 2.0**e for i in range(2**n)]
            self.desc = f"float({m},{e},{'signed' if s else 'unsigned'})"
        elif k == "b":
            self.make = QuantumBool
            self.labels = [False, True]
            self.desc = "bool"
        elif k == "c":
            self.make = QuantumChar
            self.labels = list("abcdefghijklmnopqrstuvwxyz .!?:,")
            self.desc = "char"
        elif k == "C":
            self.make = lambda: QuantumChar(nisq_char=False)
            self.labels = [chr(i) for i in range(256)]
            self.desc = "long char"
        elif k == "m":
            N = py.choice([3, 5, 6, 7, 8])
            self.make = lambda: QuantumModulus(N)
            n = int(np.ceil(np.log2(N)))
            self.labels = list(range(N)) + [None] * (2**n - N)
            self.desc = f"modulus({N})"
        elif k == "u":
            L = py.randint(1, 7)
            pool = ["red", "green", 7, 2.5, (1, 2), True, "x", "blue", -3]
            py.shuffle(pool)
            lab = pool[:L]
            n = max(1, int(np.ceil(np.log2(L))))
            self.make = lambda: QuantumVariable.custom(lab)
            self.labels = lab + [None] * (2**n - L)
            self.desc = f"custom({lab})"
        elif k == "w":
            names = ["n0", "n1", "n2", "n3"]
            py.shuffle(names)
            self.make = lambda: TwoBit(names)
            self.labels = list(names)
            self.desc = f"named({names})"
        elif k == "d":
            # several codes share a label: only meaningful when measured
            names = [py.choice(["lo", "hi"]) for _ in range(4)]
            self.make = lambda: QuantumVariable.custom([0, 1, 2, 3], decoder=lambda i: names[i])
            self.labels = list(names)
            self.desc = f"grouped({names})"
        self.codes = [i for i, l in enumerate(self.labels) if l is not None]
        self.n = int(np.log2(len(self.labels)))
        self.distinct = len({str(l) for l in self.labels if l is not None}) == len(self.codes)

    def pick(self):
        return self.py.choice(self.codes)


def label_eq(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)) and bool(a) == bool(b)
    if isinstance(a, str) or isinstance(b, str) or isinstance(a, tuple) or isinstance(b, tuple):
        return type(a) == type(b) and a == b
    return a == b


def roundtrip(ctx):
    t = T(ctx, "vfbcCmuw")
    v = t.make()
    ctx.require(v.size == t.n and len(v) == t.n and len(list(v)) == t.n, f"{t.desc}: size {v.size}, expected {t.n}")
    for c in t.codes if len(t.codes) <= 32 else ctx.py.sample(t.codes, 16):
        lab = v.decoder(c)
        ctx.observe("code_roundtrip", (t.desc, c), True)
        ctx.require(label_eq(lab, t.labels[c]), f"{t.desc}: code {c} decodes to {lab!r} instead of {t.labels[c]!r}")
        back = v.encoder(t.labels[c])
        ctx.require(int(back) == c, f"{t.desc}: value {t.labels[c]!r} encodes to {back} instead of {c}")
    c = t.pick()
    if ctx.py.random() < 0.5:
        v[:] = t.labels[c]
    else:
        v.encode(t.labels[c])
    a = Q.amplitudes(v.qs.copy(), [v], what=f"encoding {t.labels[c]!r} in {t.desc}")
    ctx.observe("encoded_state", (t.desc, c), c != 0)
    ctx.close(Q.amp_diff(a, {(c,): 1.0}), 1e-6, f"encoding {t.labels[c]!r} in {t.desc}", got=str(a))
    m = v.get_measurement()
    ctx.require(len(m) == 1 and label_eq(list(m)[0], t.labels[c]) and abs(list(m.values())[0] - 1) < 1e-4, f"{t.desc} holding {t.labels[c]!r} measured {dict(m)}")
    ctx.require(label_eq(v.most_likely(), t.labels[c]), f"{t.desc} holding {t.labels[c]!r}: most likely value {v.most_likely()!r}")
    # values outside the type are refused rather than silently replaced
    bad = None
    if t.kind == "f":
        lo, hi = min(t.labels), max(t.labels)
        step = 2.0 ** t.make().exponent
        bad = ctx.py.choice([hi + step, hi + 4 * step, lo - step, lo - 3 * step])
    elif t.kind == "v":
        bad = ctx.py.choice(["2" * t.n, "0" * (t.n + 1), 2**t.n])
    elif t.kind == "c":
        bad = ctx.py.choice(["A", "#", "ab"])
    elif t.kind == "u":
        bad = "no such label"
    elif t.kind == "w":
        bad = "n9"
    elif t.kind == "m":
        bad = "a"
    if bad is not None:
        w = t.make()
        try:
            w[:] = bad
        except Exception:
            ctx.observe("rejected_value", (t.desc, str(bad)), True)
        else:
            a = Q.amplitudes(w.qs.copy(), [w], what="x")
            raise Violation(f"{t.desc}: value {bad!r} is not representable but was stored as {a}")
    # a used variable is not silently re-initialised
    w = t.make()
    ctx.py.choice([x, h, z])(w[ctx.py.randrange(t.n)])
    try:
        w[:] = t.labels[t.pick()]
    except Exception:
        ctx.observe("rejected_value", (t.desc, "dirty"), True)
    else:
        raise Violation(f"{t.desc}: encoding into a used variable was accepted")


def prepared(ctx, t, v, maxterms=5):
    """puts v into a random superposition of labels; returns {code: amplitude} (normalised)"""
    codes = t.codes
    k = ctx.py.randint(1, min(maxterms, len(codes)))
    cs = ctx.py.sample(codes, k)
    a = ctx.rng.normal(size=k) + 1j * ctx.rng.normal(size=k)
    if ctx.py.random() < 0.3:
        a = a.real.astype(complex)
    a = a / np.linalg.norm(a)
    how = ctx.py.randrange(3) if t.distinct else 2
    if how == 0:
        v[:] = {t.labels[c]: complex(x) for c, x in zip(cs, a)}
    elif how == 1:
        v.init_state({t.labels[c]: complex(x) for c, x in zip(cs, a)})
    else:
        full = np.zeros(2**t.n, dtype=complex)
        full[cs] = a
        v.init_state(full)
    return {(int(c),): complex(x) for c, x in zip(cs, a)}, how


def expected_dist(t, amps):
    d = {}
    for (c,), a in amps.items():
        k = t.labels[c]
        d[k] = d.get(k, 0) + abs(a) ** 2
    return d


def cmp_dist(ctx, got, want, what, tol=2e-4):
    got = dict(got)
    ks = list(want)
    for k in got:
        ok = any(label_eq(k, w) if not isinstance(w, tuple) or not isinstance(k, tuple) else len(k) == len(w) and all(_eq(a, b) for a, b in zip(k, w)) for w in ks)
        if not ok and got[k] > tol:
            raise Violation(f"{what}: impossible value {k!r} reported with probability {got[k]}")
    for w, pr in want.items():
        g = sum(v for k, v in got.items() if (label_eq(k, w) if not isinstance(w, tuple) or not isinstance(k, tuple) else len(k) == len(w) and all(_eq(a, b) for a, b in zip(k, w))))
        ctx.close(abs(g - pr), tol, f"{what}: probability of {w!r}", got=g, want=pr)
    s = list(got.values())
    ctx.require(all(a >= b - 1e-9 for a, b in zip(s, s[1:])), f"{what}: result not sorted by probability")


def _eq(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.array(a), np.array(b)
        return a.shape == b.shape and all(label_eq(p.item() if hasattr(p, "item") else p, q.item() if hasattr(q, "item") else q) for p, q in zip(a.ravel(), b.ravel()))
    return label_eq(a, b)


def superposition(ctx):
    t = T(ctx)
    v = t.make()
    want, how = prepared(ctx, t, v)
    got = Q.amplitudes(v.qs.copy(), [v], what=f"superposition in {t.desc}")
    ctx.observe("prepared_state", (t.desc, tuple(want), how), len(want) > 1)
    ctx.close(Q.amp_diff(got, want, phase=True), 1e-5, f"superposition prepared in {t.desc}", got=str(got), want=str(want))
    if t.kind in "um" and None in t.labels:
        pass
    m = v.get_measurement()
    ctx.observe("distribution", (t.desc, tuple(want)), len(want) > 1)
    cmp_dist(ctx, m, expected_dist(t, want), f"measurement of {t.desc}")
    ml = v.most_likely()
    e = expected_dist(t, want)
    best = max(e.values())
    ctx.require(any(label_eq(ml, k) and pr > best - 1e-4 for k, pr in e.items()), f"{t.desc}: most likely value {ml!r} of {e}")
    m2 = v.get_measurement()
    cmp_dist(ctx, m2, e, f"second measurement of {t.desc}")


def joint(ctx):
    py = ctx.py
    n = py.randint(2, 4)
    ts, vs = [], []
    total = 0
    while len(ts) < n:
        if py.random() < 0.25:
            sub = T(ctx, "fbv", size=None)
            shape = py.choice([(2,), (1, 2), (3,), (2, 1)])
            cnt = int(np.prod(shape))
            if total + cnt * sub.n > 9:
                break
            vs.append(QuantumArray(sub.make(), shape))
            ts.append((sub, shape))
            total += cnt * sub.n
        else:
            sub = T(ctx, "vfbcmuwd")
            if total + sub.n > 9:
                break
            vs.append(sub.make())
            ts.append((sub, None))
            total += sub.n
    if not vs:
        raise Skip("too big")
    flat = []
    for v, (t, sh) in zip(vs, ts):
        flat += [(e, t) for e in (v.flatten() if sh else [v])]
    if len(flat) < 2:
        flat = flat
    for e, t in flat:
        if t.kind in "um":
            # keep to codes that have a label
            prepared(ctx, t, e, 3)
        elif py.random() < 0.7:
            for q in e:
                u3(py.uniform(0.2, 2.9), py.uniform(0, 6), py.uniform(0, 6), q)
    ok = [(e, t) for e, t in flat if t.kind not in "um"]
    for _ in range(py.randint(0, 4)):
        if len(ok) >= 2:
            (a, _), (b, _) = py.sample(ok, 2)
            cx(a[py.randrange(len(a))], b[py.randrange(len(b))])
    merge([e for e, _ in flat])
    amps = Q.amplitudes(flat[0][0].qs.copy(), [e for e, _ in flat], what="program", clean=False)
    order = list(range(len(vs)))
    py.shuffle(order)
    if py.random() < 0.3 and len(order) > 1:
        order = order[: py.randint(1, len(order) - 1)]
    want = {}
    keyed = {}
    for codes, a in amps.items():
        pos = 0
        labs = []
        for v, (t, sh) in zip(vs, ts):
            if sh:
                c = int(np.prod(sh))
                arr = np.empty(c, dtype=object)
                for i in range(c):
                    arr[i] = t.labels[codes[pos + i]]
                pos += c
                labs.append(arr.reshape(sh))
            else:
                labs.append(t.labels[codes[pos]])
                pos += 1
        lab = tuple(labs[i] for i in order)
        k = repr([(type(l).__name__ if not isinstance(l, np.ndarray) else "arr", l.tolist() if isinstance(l, np.ndarray) else l) for l in lab])
        keyed[k] = lab
        want[k] = want.get(k, 0) + abs(a) ** 2
    m = multi_measurement([vs[i] for i in order])
    what = f"joint measurement of {[ts[i][0].desc + (str(ts[i][1]) if ts[i][1] else '') for i in order]}"
    ctx.observe("joint_distribution", (what, len(want)), len(want) > 1)
    left = dict(want)
    tot = 0
    for lab, pr in m.items():
        tot += pr
        hit = [k for k, w in keyed.items() if len(w) == len(lab) and all(_eq(a, b) for a, b in zip(lab, w))]
        if not hit:
            if pr > 2e-4:
                raise Violation(f"{what}: impossible value {lab!r}")
            continue
        ctx.close(abs(pr - left.pop(hit[0])), 2e-4, f"{what}: probability of {lab!r}", got=pr, want=want[hit[0]])
    ctx.require(all(v < 2e-4 for v in left.values()), f"{what}: values missing from the result", missing=str(left)[:400])
    ctx.close(abs(tot - 1), 1e-3, f"{what}: sum of probabilities")
    ctx.sample({"what": what, "values": len(want)})
    # a single variable of the same program
    i = py.choice(order)
    t, sh = ts[i]
    got = vs[i].get_measurement()
    single = {}
    pos = sum(int(np.prod(s)) if s else 1 for _, s in ts[:i])
    labs = {}
    for codes, a in amps.items():
        if sh:
            c = int(np.prod(sh))
            l = np.empty(c, dtype=object)
            for j in range(c):
                l[j] = t.labels[codes[pos + j]]
            l = l.reshape(sh)
            k = repr(l.tolist())
        else:
            l = t.labels[codes[pos]]
            k = repr(l)
        labs[k] = l
        single[k] = single.get(k, 0) + abs(a) ** 2
    for lab, pr in got.items():
        hit = [k for k, w in labs.items() if _eq(lab, w)]
        if not hit:
            if pr > 2e-4:
                raise Violation(f"measurement of {t.desc}{sh or ''}: impossible value {lab!r}")
            continue
        ctx.close(abs(pr - single.pop(hit[0])), 2e-4, f"measurement of {t.desc}{sh or ''}: probability of {lab!r}")
    ctx.require(all(v < 2e-4 for v in single.values()), f"measurement of {t.desc}{sh or ''}: values missing", missing=str(single)[:300])


def phases(ctx):
    py = ctx.py
    n = py.randint(1, 3)
    ts = []
    total = 0
    while len(ts) < n:
        t = T(ctx, "vfbwc" if not ts else "vfbw")
        if total + t.n > 7:
            break
        ts.append(t)
        total += t.n
    vs = [t.make() for t in ts]
    for v in vs:
        h(v)
    merge(vs)
    tab = {}

    def fun(*labs, scale=1.0):
        k = repr(labs)
        if k not in tab:
            tab[k] = py.choice([py.uniform(-7, 7), py.choice([0, 1, -1, 2]) * np.pi / 2, 0.0])
        return tab[k] * scale

    tt = py.choice([1, 1, 0.5, -2, 3.1])
    sc = py.choice([1.0, 1.0, 0.25])
    mode = py.randrange(4)
    kw = {} if sc == 1.0 else {"scale": sc}
    desc = f"phase function of {[t.desc for t in ts]}, t={tt}, mode {mode}"
    ctrl = None
    if mode == 0 and len(ts) == 1 and sc == 1.0:
        vs[0].app_phase_function(fun)
        tt = 1
    elif mode == 1:
        app_phase_function(vs, fun, t=tt, **kw)
    elif mode == 2:
        ctrl = QuantumBool()
        ry(py.uniform(0.3, 2.8), ctrl)
        with control(ctrl):
            as_hamiltonian(fun)(*vs, t=tt, **kw)
    else:
        as_hamiltonian(fun)(*vs, t=tt, **kw)
    if mode == 0 and not (len(ts) == 1 and sc == 1.0):
        as_hamiltonian
        desc += "*"
    groups = vs + ([ctrl] if ctrl is not None else [])
    got = Q.amplitudes(vs[0].qs.copy(), groups, what=desc)
    base = {}
    norm = 2 ** (-total / 2)
    cw = {None: 1.0}
    if ctrl is not None:
        c2 = QuantumBool()
        cw = {}
        for k, a in got.items():
            cw[k[-1]] = cw.get(k[-1], 0) + abs(a) ** 2
        cw = {k: np.sqrt(v) for k, v in cw.items()}
    import itertools

    for codes in itertools.product(*[range(2**t.n) for t in ts]):
        ph = fun(*[t.labels[c] if t.kind != "f" else v.decoder(c) for t, c, v in zip(ts, codes, vs)], scale=sc) * tt
        if ctrl is None:
            base[codes] = norm * np.exp(1j * ph)
        else:
            for b in (0, 1):
                base[codes + (b,)] = norm * cw.get(b, 0) * np.exp(1j * ph * b)
    ctx.observe("phase_function", (desc, len(tab)), True)
    ctx.close(Q.amp_diff(got, base, phase=True), 1e-5, desc)


def bitwise(ctx):
    py = ctx.py
    kind = py.choice(["v", "v", "b"])
    if kind == "b":
        a, b = QuantumBool(), QuantumBool()
        na = nb = 1
    else:
        na, nb = py.randint(1, 4), py.randint(1, 4)
        a, b = QuantumVariable(na), QuantumVariable(nb)
    op = py.choice(["and", "or", "xor"] + (["not"] if kind == "b" else []))
    pre = QuantumVariable(0) if False else None
    desc = f"{op} of {'bools' if kind == 'b' else f'variables of {na} and {nb} qubits'}"
    if op == "and":
        r = a & b
    elif op == "or":
        r = a | b
    elif op == "xor":
        r = a ^ b
    else:
        r = ~a
    nr = max(na, nb)
    ctx.require(len(r) == nr, f"{desc}: result has {len(r)} qubits")
    merge([a, b, r])
    f = {"and": lambda p, q: p & q, "or": lambda p, q: p | q, "xor": lambda p, q: p ^ q, "not": lambda p, q: 1 - p}[op]
    Q.judge_map(ctx, r.qs.copy(), [a, b, r], [na, nb, 0], lambda p, q, _: (p, q, f(p, q)), desc, "bit_operation", phase=False)
    if kind == "b" and py.random() < 0.6:
        c = QuantumBool()
        r2 = (a | c) & b if py.random() < 0.5 else (a ^ c) | b
        f2 = (lambda p, q, s: (p | s) & q) if False else None
        merge([a, b, c, r2])


def copying(ctx):
    py = ctx.py
    t = T(ctx, "vfbmuw")
    v = t.make()
    want, how = prepared(ctx, t, v, 4)
    mode = py.randrange(5)
    if mode == 0:
        w = v.duplicate(init=True)
        desc = f"duplicate with content of {t.desc}"
    elif mode == 1:
        w = v.duplicate()
        ctx.require(type(w) is type(v) and len(w) == t.n, f"duplicate of {t.desc} has another type or size")
        w[:] = v
        desc = f"assignment between {t.desc}"
    elif mode == 2:
        w = t.make() if t.kind != "u" else v.duplicate()
        w.init_from(v)
        desc = f"init_from of {t.desc}"
    if mode <= 2:
        for c in t.codes:
            ctx.require(label_eq(w.decoder(c), t.labels[c]), f"{desc}: code {c} decodes differently")
        got = Q.amplitudes(v.qs.copy(), [v, w], what=desc)
        ctx.observe("copied_state", (desc, tuple(want)), len(want) > 1)
        ctx.close(Q.amp_diff(got, {k * 2: a for k, a in want.items()}, phase=True), 1e-5, desc, got=str(got))
        # the copy does not share qubits with the original
        ctx.require(not ({id(q) for q in v} & {id(q) for q in w}), f"{desc}: shares qubits")
        m = multi_measurement([v, w])
        ctx.require(all(label_eq(a, b) for (a, b), pr in m.items() if pr > 2e-4), f"{desc}: copy and original disagree in {dict(m)}")
        # another type is refused
        other = QuantumChar()
        try:
            other.init_from(v)
        except Exception:
            ctx.observe("rejected_copy", (desc,), True)
        else:
            raise Violation(f"a character was initialised from {t.desc}")
        return
    # resizing: qubits are inserted at, or removed from, the stated position
    v = QuantumVariable(t.n) if t.kind != "f" else v
    if t.kind != "f":
        want, how = prepared(ctx, type("V", (), dict(codes=list(range(2**t.n)), n=t.n, distinct=False, labels=[None] * 2**t.n))(), v, 4)
    old = list(v)
    if mode == 3:
        k = py.randint(1, 2)
        pos = py.choice([-1, 0, t.n] + list(range(t.n)))
        v.extend(k, pos) if pos != -1 or py.random() < 0.5 else v.extend(k)
        ip = t.n if pos == -1 else pos
        desc = f"extension of {t.n} qubits by {k} at {pos}"
        ctx.require(len(v) == t.n + k, f"{desc}: {len(v)} qubits")
        exp = {}
        for (c,), a in want.items():
            exp[((c & ((1 << ip) - 1)) | ((c >> ip) << (ip + k)),)] = a
        got = Q.amplitudes(v.qs.copy(), [v], what=desc)
    else:
        if t.n < 2:
            raise Skip("too small")
        # clear one qubit first
        i = py.randrange(t.n)
        v = QuantumVariable(t.n)
        codes = [c for c in range(2**t.n) if not (c >> i) & 1]
        want, how = prepared(ctx, type("V", (), dict(codes=codes, n=t.n, distinct=False, labels=[None] * 2**t.n))(), v, 4)
        v.reduce(v[i], verify=py.random() < 0.5) if py.random() < 0.5 else v.reduce([v[i]])
        desc = f"reduction of {t.n} qubits by number {i}"
        ctx.require(len(v) == t.n - 1, f"{desc}: {len(v)} qubits")
        exp = {}
        for (c,), a in want.items():
            exp[((c & ((1 << i) - 1)) | ((c >> (i + 1)) << i),)] = a
        got = Q.amplitudes(v.qs.copy(), [v], what=desc)
    ctx.observe("resized_state", (desc, tuple(want)), len(want) > 1)
    ctx.close(Q.amp_diff(got, exp, phase=True), 1e-5, desc, got=str(got), want=str(exp))
    dist = {format(k[0], f"0{len(v)}b")[::-1]: abs(a) ** 2 for k, a in exp.items()}
    if isinstance(v, QuantumFloat):
        m = v.get_measurement()
        n = len(v)
        dist = {(k[0] - 2**n if v.signed and k[0] >= 2 ** (n - 1) else k[0]) * 2.0**v.exponent: abs(a) ** 2 for k, a in exp.items()}
    else:
        m = v.get_measurement()
    cmp_dist(ctx, m, dist, f"{desc}, measured")


def injection(ctx):
    py = ctx.py
    kind = py.randrange(4)
    na = py.randint(1, 3)
    a, b = QuantumFloat(na), QuantumFloat(py.randint(1, 2))
    nb = len(b)
    if kind == 0:
        fun, f, size = (lambda a, b: a + b), (lambda p, q: p + q), max(na, nb) + 1
        target = QuantumFloat(size)
        name = "sum"
    elif kind == 1:
        fun, f, size = (lambda a, b: a * b), (lambda p, q: p * q), na + nb
        target = QuantumFloat(size)
        name = "product"
    elif kind == 2:
        fun, f, size = (lambda a, b: a == b), (lambda p, q: int(p == q)), 1
        target = QuantumBool()
        name = "equality"
    else:

        def fun(a, b):
            r = QuantumFloat(na + 1)
            cx(a, r[:na])
            mcx([a[0], b[0]], r[na])
            return r

        f, size = (lambda p, q: p | ((p & q & 1) << na)), na + 1
        target = QuantumFloat(size)
        name = "custom function"
    try:
        probe = fun(a, b)
        if len(probe) != size:
            size = len(probe)
            target = QuantumFloat(size) if size > 1 else QuantumBool()
    except Exception:
        raise Skip("function")
    a, b = QuantumFloat(na), QuantumFloat(nb)
    dirty = py.random() < 0.3 and kind == 3
    (target << fun)(a, b)
    desc = f"{name} injected into a variable of {size} qubits"
    merge([a, b, target])
    Q.judge_map(ctx, target.qs.copy(), [a, b, target], [na, nb, 0], lambda p, q, _: (p, q, f(p, q) % 2**size), desc, "injected_state", phase=False)
    ctx.require(all(q.allocated for q in target), f"{desc}: target deleted")
    m = target.get_measurement()
    ctx.require(len(m) == 1, f"{desc}: {dict(m)}")


def statevectors(ctx):
    py = ctx.py
    n = py.randint(1, 3)
    ts, total = [], 0
    while len(ts) < n:
        t = T(ctx, "vfbw")
        if total + t.n > 5:
            break
        ts.append(t)
        total += t.n
    vs = [t.make() for t in ts]
    nice = py.random() < 0.4
    qb = [q for v in vs for q in v]
    merge(vs)
    for _ in range(py.randint(1, 7)):
        q = py.choice(qb)
        if nice:
            py.choice([h, x, z, qrisp.s, qrisp.t, qrisp.y])(q)
        else:
            py.choice([lambda q: ry(py.uniform(-3, 3), q), lambda q: p(py.uniform(-3, 3), q), h, x])(q)
        if len(qb) > 1 and py.random() < 0.5:
            r = py.choice([k for k in qb if k is not q])
            py.choice([cx, lambda u, w: cp(0.7 if not nice else np.pi / 4, u, w)])(q, r)
    amps = Q.amplitudes(vs[0].qs.copy(), vs, what="program")
    desc = f"session holding {[t.desc for t in ts]}"
    f = vs[0].qs.statevector("function")
    import itertools

    allc = list(itertools.product(*[range(2**t.n) for t in ts]))
    probe = list(amps)[:12] + py.sample(allc, min(4, len(allc)))
    for codes in probe:
        g = f({v: t.labels[c] if t.kind != "f" else v.decoder(c) for v, t, c in zip(vs, ts, codes)})
        ctx.observe("statevector_function", (desc, codes), True)
        ctx.close(abs(complex(g) - amps.get(codes, 0)), 2e-5, f"{desc}: amplitude function at {codes}", got=str(g), want=str(amps.get(codes, 0)))
    arr = vs[0].qs.statevector("array")
    ctx.close(abs(np.linalg.norm(arr) - 1), 1e-4, f"{desc}: norm of the statevector array")
    # symbolic expression
    import sympy as sp
    from sympy.physics.quantum import OrthogonalKet

    dec = py.choice([None, None, 4])
    expr = vs[0].qs.statevector(decimals=dec)
    order = list(vs[0].qs.qv_list)
    idx = [next(i for i, v in enumerate(vs) if v is o) for o in order]
    e = sp.expand(expr)
    got = {}
    for term in sp.Add.make_args(e):
        kets = []
        coeff = 1
        for fac in sp.Mul.make_args(term):
            if isinstance(fac, OrthogonalKet):
                kets.append(fac)
            elif isinstance(fac, sp.Pow) and isinstance(fac.base, OrthogonalKet):
                kets += [fac.base] * int(fac.exp)
            else:
                coeff = coeff * fac
        if len(kets) != len(vs):
            ctx.report(f"{desc}: term {term} of the state expression names {len(kets)} of {len(vs)} variables")
            return
        k = tuple(str(kk.args[0]) for kk in kets)
        got[k] = got.get(k, 0) + complex(sp.N(coeff))
    want = {}
    for codes, a in amps.items():
        k = tuple(str(sp.sympify(vs[i].decoder(codes[i])) if not isinstance(vs[i].decoder(codes[i]), str) else OrthogonalKet(vs[i].decoder(codes[i])).args[0]) for i in idx)
        want[k] = want.get(k, 0) + a

    def norm(k):
        out = []
        for j, s in enumerate(k):
            s = {"true": "True", "false": "False"}.get(s, s)
            try:
                s = float(sp.Rational(s)) if ts[idx[j]].kind == "f" else s
            except Exception:
                pass
            out.append(str(s))
        return tuple(out)

    got = {norm(k): v for k, v in got.items()}
    want = {norm(k): v for k, v in want.items()}
    ctx.observe("statevector_expression", (desc, dec, len(want)), len(want) > 1)
    ctx.close(Q.amp_diff(got, want), 1e-2, f"{desc}: state expression", expr=str(expr)[:300], want=str({k: np.round(v, 4) for k, v in want.items()})[:300])


def sampled(ctx):
    py = ctx.py
    t = T(ctx, "vfbmuwd")
    v = t.make()
    want, _ = prepared(ctx, t, v, 4)
    shots = py.choice([1, 7, 100, 1000])
    m = v.get_measurement(shots=shots)
    e = expected_dist(t, want)
    desc = f"{shots} shots of {t.desc}"
    ctx.observe("sampled_counts", (desc, tuple(want)), len(want) > 1)
    ctx.close(abs(sum(m.values()) - 1), 1e-6, f"{desc}: sum of frequencies")
    for k, pr in m.items():
        ctx.require(abs(pr * shots - round(pr * shots)) < 1e-6, f"{desc}: frequency {pr} is no multiple of 1/{shots}")
        hit = [q for w, q in e.items() if label_eq(w, k)]
        ctx.require(hit and hit[0] > 1e-9, f"{desc}: impossible outcome {k!r}")
        if shots == 1000:
            sd = np.sqrt(max(hit[0] * (1 - hit[0]), 1e-3) / shots)
            ctx.require(abs(pr - hit[0]) < 7 * sd, f"{desc}: frequency {pr} of {k!r} with probability {hit[0]}")
    if shots == 1000:
        for w, q in e.items():
            ctx.require(q < 0.03 or any(label_eq(w, k) for k in m), f"{desc}: outcome {w!r} of probability {q:.3f} never seen")


def strings(ctx):
    py = ctx.py
    al = "abcdefghijklmnopqrstuvwxyz .!?:,"
    n = py.randint(1, 4)
    s1 = "".join(py.choice(al) for _ in range(n))
    s2 = "".join(py.choice(al) for _ in range(py.randint(1, 3)))
    long = py.random() < 0.2
    a = QuantumString(size=n, nisq_char=not long)
    a[:] = s1
    ctx.observe("string_value", (s1,), True)
    m = a.get_measurement()
    ctx.require(list(m) == [s1], f"string {s1!r} measured {dict(m)}")
    if long:
        return
    b = QuantumString(size=len(s2))
    b[:] = s2
    k = py.randrange(3)
    if k == 0:
        c = a + b
        want = s1 + s2
    elif k == 1:
        c = a
        c += b
        want = s1 + s2
    else:
        c = a
        c += s2
        want = s1 + s2
    m = c.get_measurement()
    ctx.observe("string_value", (s1, s2, k), True)
    ctx.require(list(m) == [want], f"{s1!r} + {s2!r} measured {dict(m)}")
    # characters in superposition
    i = py.randrange(n)
    bit = py.randrange(5)
    h(c[i][bit])
    m = c.get_measurement()
    alt = want[:i] + al[al.index(want[i]) ^ (1 << bit)] + want[i + 1 :]
    ctx.require(set(m) == {want, alt} and all(abs(v - 0.5) < 1e-3 for v in m.values()), f"{want!r} with bit {bit} of character {i} in superposition measured {dict(m)}")


FAMILIES = {f.__name__: f for f in (roundtrip, superposition, joint, phases, bitwise, copying, injection, statevectors, sampled, strings)}
