PROPERTY = "C07"
RULE = (
    "one evaluation = the exact state after automatic uncomputation (raw or compiled session), compared with the coherent sum over the values of the removed variables of the reference state, with the removed "
    "qubits required to be |0>; or one delete-with-verification / claim verification decision compared with the truth; distinct = distinct (program, final state)"
)
PLAN = {
    "quick": {"random": 420, "expressions": 160, "recompute": 120, "functions": 120, "verified_delete": 120, "claims": 120},
    "thorough": {"random": 5000, "expressions": 1600, "recompute": 1400, "functions": 1200, "verified_delete": 1200, "claims": 1200},
}
REQUIRED_MONITORS = ["uncomputed_state", "compiled_state", "must_succeed", "expression", "recomputed", "function", "verified_delete", "claim_check"]
ASSUMPTIONS = [
    "operations changing a variable that is uncomputed later carry no phases of their own that depend on the state (phases put on other variables are kept)",
    "uncomputation may be refused with an error; programs for which it can not be refused are judged separately",
]
CASE_TIMEOUT = 120
# --- end of plan ---
import numpy as np

from vlib import qs as Q, ref
from vlib.harness import Skip, Violation

import qrisp
from qrisp import QuantumVariable, QuantumFloat, QuantumBool, auto_uncompute, control, invert, conjugate, cx, cp, cz, mcp, mcx, x, y, z, h, p, rz, ry, u3, swap, s, t, rzz, gate_wrap, lifted, merge


class Refused(Exception):
    pass


class Shadow:
    """Dense reference state; qubit 0 is the least significant bit of the index."""

    def __init__(self):
        self.n = 0
        self.a = np.ones(1, dtype=complex)

    def add(self, k):
        self.n += k
        if self.n > 11:
            raise Skip("too many qubits")
        a = np.zeros(2**self.n, dtype=complex)
        a[: len(self.a)] = self.a
        self.a = a
        return list(range(self.n - k, self.n))

    def bits(self, q):
        return (np.arange(2**self.n) >> q) & 1

    def on(self, ctrls):
        m = np.ones(2**self.n, dtype=bool)
        for q, v in ctrls:
            m &= self.bits(q) == v
        return m

    def flip(self, q, ctrls=()):
        ix = np.arange(2**self.n)
        src = np.where(self.on(ctrls), ix ^ (1 << q), ix)
        self.a = self.a[src]

    def flip_where(self, q, mask):
        ix = np.arange(2**self.n)
        self.a = self.a[np.where(mask, ix ^ (1 << q), ix)]

    def u(self, q, m, ctrls=()):
        ix = np.arange(2**self.n)
        o = ix ^ (1 << q)
        b = self.bits(q)
        new = np.where(b == 0, m[0, 0] * self.a + m[0, 1] * self.a[o], m[1, 1] * self.a + m[1, 0] * self.a[o])
        self.a = np.where(self.on(ctrls), new, self.a)

    def phase(self, ang, ctrls):
        self.a = np.where(self.on(ctrls), self.a * np.exp(1j * ang), self.a)

    def swap(self, q, r, ctrls=()):
        ix = np.arange(2**self.n)
        bq, br = self.bits(q), self.bits(r)
        src = ix ^ ((bq ^ br) << q) ^ ((bq ^ br) << r)
        self.a = self.a[np.where(self.on(ctrls), src, ix)]

    def value(self, qs):
        return sum(self.bits(q) << i for i, q in enumerate(qs))


class Prog:
    def __init__(self, ctx):
        self.ctx, self.py, self.sh = ctx, ctx.py, Shadow()
        self.vars = []          # (variable, shadow qubits)
        self.gone = []
        self.removable = set()  # variables that are uncomputed at some point
        self.dirty = set()      # ids of variables changed by something that is not a plain permutation
        self.log = []
        self.in_wrap = False

    def new(self, kind, n=1, name=None):
        qv = {"v": lambda: QuantumVariable(n), "f": lambda: QuantumFloat(n), "b": lambda: QuantumBool()}[kind]()
        self.vars.append((qv, self.sh.add(n if kind != "b" else 1)))
        return len(self.vars) - 1

    def adopt(self, qv):
        self.vars.append((qv, self.sh.add(qv.size)))
        return len(self.vars) - 1

    def live(self):
        return [i for i in range(len(self.vars)) if i not in self.gone]

    def q(self, vi, k):
        return self.vars[vi][0][k], self.vars[vi][1][k]

    def some(self, k, among=None, avoid=()):
        pool = [(i, j) for i in (among if among is not None else self.live()) for j in range(len(self.vars[i][1]))]
        pool = [c for c in pool if c not in avoid]
        if len(pool) < k:
            raise Skip("not enough qubits")
        return self.py.sample(pool, k)

    def generic(self, vi):
        for j in range(len(self.vars[vi][1])):
            self.rot(vi, j)

    def rot(self, vi, j, ctrls=()):
        a = [self.py.uniform(0.2, 3) for _ in range(3)]
        qb, sq = self.q(vi, j)
        u3(*a, qb)
        self.sh.u(sq, ref.u3(*a), ctrls)
        self.dirty.add(vi)
        self.log.append(("u3", vi, j))

    # classical (permutation) step with target in `targets`, any live controls
    def permute(self, targets, ctrls=(), controls=None):
        py = self.py
        ti, tj = py.choice([(i, j) for i in targets for j in range(len(self.vars[i][1]))])
        qb, sq = self.q(ti, tj)
        r = py.choice(["x", "y", "cx", "mcx", "mcx", "mcx", "swap", "xs"])
        if r == "y" and self.in_wrap:
            r = "x"  # x and y together are diagonal and stay
        pool = [(i, j) for i in (controls if controls is not None else self.live()) for j in range(len(self.vars[i][1])) if (i, j) != (ti, tj)]
        if r == "swap":
            oth = [(ti, j) for j in range(len(self.vars[ti][1])) if j != tj]
            if oth:
                o = py.choice(oth)
                swap(qb, self.q(*o)[0])
                self.sh.swap(sq, self.q(*o)[1], ctrls)
                self.log.append(("swap", ti, tj, o))
                return
            r = "x"
        if r in ("x", "xs") or not pool:
            x(qb)
            self.sh.flip(sq, ctrls)
            self.log.append(("x", ti, tj))
        elif r == "y":
            # on variables that are removed later the phase of the gate vanishes together with the gate
            y(qb)
            if ti in self.removable:
                self.sh.flip(sq, ctrls)
            else:
                self.sh.u(sq, ref.named_1q("y", []), ctrls)
            self.log.append(("y", ti, tj))
        elif r == "cx":
            c = py.choice(pool)
            cx(self.q(*c)[0], qb)
            self.sh.flip(sq, list(ctrls) + [(self.q(*c)[1], 1)])
            self.log.append(("cx", c, (ti, tj)))
        else:
            k = py.randint(1, min(4, len(pool)))
            cs = py.sample(pool, k)
            st = "".join(py.choice("01") for _ in cs) if py.random() < 0.5 else "1" * k
            kw = {"method": py.choice(["gray", "auto", "balauca", "gray_pt"])} if py.random() < 0.4 and not ctrls else {}
            if kw.get("method") == "gray_pt":
                kw = {}
            mcx([self.q(*c)[0] for c in cs], qb, ctrl_state=st, **kw)
            self.sh.flip(sq, list(ctrls) + [(self.q(*c)[1], int(v)) for c, v in zip(cs, st)])
            self.log.append(("mcx", cs, st, (ti, tj), str(kw)))

    def diagonal(self, ctrls=(), among=None):
        py = self.py
        ang = py.uniform(0.2, 3)
        k = py.choice([1, 2, 2, 3])
        pool = [(i, j) for i in (among if among is not None else self.live()) for j in range(len(self.vars[i][1]))]
        cs = py.sample(pool, min(k, len(pool)))
        qb = [self.q(*c)[0] for c in cs]
        sq = [self.q(*c)[1] for c in cs]
        self.log.append(("diag", cs))
        if len(cs) == 1:
            if py.random() < 0.4:
                rz(ang, qb[0])
                self.sh.phase(-ang / 2, list(ctrls) + [(sq[0], 0)])
                self.sh.phase(ang / 2, list(ctrls) + [(sq[0], 1)])
            else:
                p(ang, qb[0])
                self.sh.phase(ang, list(ctrls) + [(sq[0], 1)])
        elif len(cs) == 2:
            r = py.choice(["cp", "cz", "rzz"])
            if r == "cp":
                cp(ang, *qb)
                self.sh.phase(ang, list(ctrls) + [(c, 1) for c in sq])
            elif r == "cz":
                cz(*qb)
                self.sh.phase(np.pi, list(ctrls) + [(c, 1) for c in sq])
            else:
                rzz(ang, *qb)
                m = self.sh.on(ctrls)
                par = self.sh.bits(sq[0]) ^ self.sh.bits(sq[1])
                self.sh.a = np.where(m, self.sh.a * np.exp(1j * ang / 2 * (2 * par - 1)), self.sh.a)
        else:
            mcp(ang, qb)
            self.sh.phase(ang, list(ctrls) + [(c, 1) for c in sq])

    def uncompute(self, vi, must=False, **kw):
        qv = self.vars[vi][0]
        self.log.append(("uncompute", vi))
        self.ctx.last = self.log
        try:
            qv.uncompute(**kw)
        except Exception as e:
            if type(e) is not Exception:
                raise
            if must:
                raise Violation(f"uncomputation refused although every control is unchanged: {str(e)[:150]}")
            raise Refused(str(e))
        self.gone.append(vi)

    def expected(self):
        """coherent sum over the values of the removed variables"""
        sh = self.sh
        live = [self.vars[i][1] for i in self.live()]
        out = np.zeros(2 ** sum(map(len, live)), dtype=complex)
        pos = [q for g in live for q in g]
        idx = sh.value(pos) if pos else np.zeros(2**sh.n, dtype=int)
        np.add.at(out, idx, sh.a)
        res = {}
        for k in np.nonzero(np.abs(out) > 1e-12)[0]:
            v, sh_ = [], int(k)
            for g in live:
                v.append(sh_ & ((1 << len(g)) - 1))
                sh_ >>= len(g)
            res[tuple(v)] = out[k]
        return res

    def judge(self, monitor, compiled=False):
        live = [self.vars[i][0] for i in self.live()]
        allv = [v for v, _ in self.vars]
        if not live:
            raise Skip("nothing left")
        if len({id(v.qs) for v in live}) > 1:
            merge(live)
        exp = self.expected()
        norm = sum(abs(a) ** 2 for a in exp.values())
        self.ctx.last = self.log
        if abs(norm - 1) > 1e-6:
            raise Violation(f"uncomputation accepted although the variable is not a function of the others (norm {norm:.3f})")
        qc = live[0].qs.copy()
        got = Q.amplitudes(qc, live, what="state after uncomputation", tol=1e-5)
        d = Q.amp_diff(got, exp, phase=True)
        self.ctx.observe(monitor, (str(self.log), round(float(abs(next(iter(exp.values())))), 6)), True)
        self.ctx.close(d, 1e-5, "state of the remaining variables after uncomputation")
        if compiled:
            qc = live[0].qs.compile(workspace=self.py.choice([0, 0, 1, 2]), compile_mcm=False, gate_speed=None, intended_measurements=[])
            got = Q.amplitudes(qc, live, what="compiled state after uncomputation", tol=1e-5)
            d = Q.amp_diff(got, exp, phase=True)
            self.ctx.observe("compiled_state", str(self.log), True)
            self.ctx.close(d, 1e-5, "compiled state of the remaining variables after uncomputation")


def body(P, steps, targets, rest, depth=0, ctrls=()):
    """random steps: permutations on the variables to be removed (targets), anything on the others"""
    py = P.py
    for _ in range(steps):
        r = py.random()
        if r < 0.45:
            P.permute(targets, ctrls)
        elif r < 0.6:
            # values of removed variables used by others
            P.permute(rest, ctrls, controls=P.live())
        elif r < 0.75:
            P.diagonal(ctrls)
        elif r < 0.83 and not ctrls:
            vi = py.choice(rest)
            P.rot(vi, py.randrange(len(P.vars[vi][1])))
        elif depth < 2 and r < 0.93:
            # control environment
            k = py.randint(1, 2)
            cs = P.some(k, avoid=())
            used = {c for c in cs}
            st = "".join(py.choice("01") for _ in cs)
            tg = [i for i in targets if not any(c[0] == i for c in used)]
            rs = [i for i in rest if not any(c[0] == i for c in used)]
            if not tg or not rs:
                continue
            P.log.append(("control", cs, st))
            with control([P.q(*c)[0] for c in cs], ctrl_state=st):
                body2(P, py.randint(1, 2), tg, rs, depth + 1, list(ctrls) + [(P.q(*c)[1], int(v)) for c, v in zip(cs, st)], used)
        elif not ctrls and py.random() < 0.5:
            wrapped(P, targets, rest)


def body2(P, steps, targets, rest, depth, ctrls, used):
    py = P.py
    pool = [i for i in P.live() if not any(c[0] == i for c in used)]
    for _ in range(steps):
        if py.random() < 0.6:
            P.permute(targets, ctrls, controls=pool)
        elif py.random() < 0.5:
            P.permute(rest, ctrls, controls=pool)
        else:
            P.diagonal(ctrls, among=pool)


def wrapped(P, targets, rest):
    """the same kind of steps inside a wrapped gate (permeability found by the library)"""
    py = P.py
    P.log.append(("wrap",))
    merge([v for i, (v, _) in enumerate(P.vars) if i not in P.gone])

    def inner(*args):
        for _ in range(py.randint(1, 3)):
            P.permute(targets)

    P.in_wrap = True
    gate_wrap(inner)(*[P.vars[i][0] for i in P.live()])
    P.in_wrap = False
    P.log.append(("endwrap",))


def setup(P, py, nrest=None):
    rest = [P.new(py.choice("vf"), py.randint(1, 3))]
    if py.random() < 0.6:
        rest.append(P.new(py.choice("vfb"), py.randint(1, 2)))
    for i in rest:
        if py.random() < 0.85:
            P.generic(i)
    return rest


def random_programs(ctx):
    py = ctx.py
    P = Prog(ctx)
    rest = setup(P, py)
    targets = [P.new(py.choice("vb"), py.randint(1, 2)) for _ in range(py.choice([1, 1, 2]))]
    P.removable = set(targets)
    if py.random() < 0.06:
        P.rot(targets[0], 0)
    try:
        body(P, py.randint(1, 6), targets, rest)
        order = list(targets)
        py.shuffle(order)
        for vi in order:
            P.uncompute(vi)
            rs = [i for i in rest if i not in P.gone]
            left = [i for i in order if i not in P.gone]
            if py.random() < 0.4:
                body(P, py.randint(1, 2), left or rs, rs)
        P.judge("uncomputed_state", compiled=py.random() < 0.5)
    except Refused as e:
        raise Skip("refused")


def expressions(ctx):
    """values computed by library expressions from unchanged operands: uncomputation can not be refused"""
    py = ctx.py
    P = Prog(ctx)
    sh = P.sh
    a = P.new("f", py.randint(1, 3))
    b = P.new("f", py.randint(1, 2))
    out = P.new("v", 1)
    for i in (a, b):
        P.generic(i)
    if py.random() < 0.5:
        P.generic(out)
    A, B = P.vars[a][0], P.vars[b][0]
    va, vb = lambda: sh.value(P.vars[a][1]), lambda: sh.value(P.vars[b][1])
    made = []

    def boolean():
        k = py.randrange(2 ** len(P.vars[a][1]))
        r = py.choice(["<", "==", "!=", ">", "<=", ">=", "a<b", "a==b"])
        f = {
            "<": (lambda: A < k, lambda: va() < k), "==": (lambda: A == k, lambda: va() == k), "!=": (lambda: A != k, lambda: va() != k),
            ">": (lambda: A > k, lambda: va() > k), "<=": (lambda: A <= k, lambda: va() <= k), ">=": (lambda: A >= k, lambda: va() >= k),
            "a<b": (lambda: A < B, lambda: va() < vb()), "a==b": (lambda: A == B, lambda: va() == vb()),
        }[r]
        qv = f[0]()
        vi = P.adopt(qv)
        mask = np.asarray(f[1]())
        sh.flip_where(P.vars[vi][1][0], mask)
        P.log.append((r, k, vi))
        return vi

    for _ in range(py.randint(1, 2)):
        made.append(boolean())
    if len(made) == 2 and py.random() < 0.7:
        u, v = P.vars[made[0]], P.vars[made[1]]
        r = py.choice("&|^")
        qv = {"&": lambda: u[0] & v[0], "|": lambda: u[0] | v[0], "^": lambda: u[0] ^ v[0]}[r]()
        vi = P.adopt(qv)
        bu, bv = sh.bits(u[1][0]), sh.bits(v[1][0])
        sh.flip_where(P.vars[vi][1][0], {"&": bu & bv, "|": bu | bv, "^": bu ^ bv}[r].astype(bool))
        P.log.append((r, vi))
        made.append(vi)
    # use
    for _ in range(py.randint(1, 2)):
        c = py.choice(made)
        if py.random() < 0.5:
            cx(P.vars[c][0], P.vars[out][0])
            sh.flip(P.vars[out][1][0], [(P.vars[c][1][0], 1)])
        else:
            ang = py.uniform(0.3, 3)
            with control(P.vars[c][0]):
                p(ang, P.vars[out][0])
            sh.phase(ang, [(P.vars[c][1][0], 1), (P.vars[out][1][0], 1)])
    for vi in reversed(made):
        P.uncompute(vi, must=True)
        ctx.observe("must_succeed", (str(P.log), vi), True)
    P.judge("expression", compiled=py.random() < 0.4)


def recompute(ctx):
    """a variable is removed first, another one that depends on it afterwards (the first is computed again)"""
    py = ctx.py
    P = Prog(ctx)
    rest = [P.new("v", py.randint(2, 3)), P.new("v", 1)]
    P.generic(rest[0])
    P.generic(rest[1])
    b, c = P.new(py.choice("vb"), py.randint(1, 2)), P.new("v", py.randint(1, 2))
    P.removable = {b, c}
    for _ in range(py.randint(1, 3)):
        P.permute([b], controls=[rest[0], b])
    for _ in range(py.randint(1, 3)):
        P.permute([c], controls=[rest[0], b, c])
    for _ in range(py.randint(1, 2)):
        P.permute([rest[1]], controls=[b, c])
        P.diagonal()
    try:
        P.uncompute(b, recompute=True)
        if py.random() < 0.5:
            P.permute([rest[1]], controls=[c, rest[0]])
        if py.random() < 0.3:
            P.rot(rest[1], 0)
        if py.random() < 0.5:
            P.diagonal()
        if py.random() < 0.25 and not any(s[0] == "y" for s in P.log):
            P.judge("recomputed")
        P.uncompute(c)
        P.judge("recomputed", compiled=py.random() < 0.4)
    except Refused:
        raise Skip("refused")


def functions(ctx):
    """automatically uncomputed functions: locals vanish, result stays"""
    py = ctx.py
    P = Prog(ctx)
    sh = P.sh
    a = P.new("f", py.randint(1, 3))
    ext = P.new("v", 2)
    P.generic(a)
    P.generic(ext)
    A = P.vars[a][0]
    n = len(P.vars[a][1])
    k1, k2 = py.randrange(2**n), py.randrange(2**n)
    kind = py.choice(["and", "or", "nested", "array", "inplace"])
    rec = py.random() < 0.3
    deco = auto_uncompute(recompute=True) if rec else auto_uncompute

    @auto_uncompute
    def inner(A):
        u = A < k1
        v = A == k2
        r = QuantumBool()
        mcx([u, v], r, ctrl_state="10")
        return r

    @deco
    def fn(A, E):
        if kind == "and":
            u, v = A < k1, A >= k2
            return u & v
        if kind == "or":
            u, v = A == k1, A == k2
            w = u | v
            r = QuantumBool()
            cx(w, r)
            return r
        if kind == "nested":
            u = inner(A)
            r = QuantumBool()
            mcx([u, E[0]], r)
            return r
        if kind == "array":
            t = [QuantumBool() for _ in range(2)]
            cx(A[0], t[0])
            mcx([E[1], t[0]], t[1])
            r = QuantumVariable(2)
            cx(t[0], r[0])
            cx(t[1], r[1])
            return r
        u = A < k1
        with control(u):
            p(0.7, E[0])
        cx(u, E[1])
        return None

    va = sh.value(P.vars[a][1])
    res = fn(A, P.vars[ext][0])
    P.log.append((kind, n, k1, k2, rec))
    if kind == "inplace":
        sh.a = np.where((va < k1) & (sh.bits(P.vars[ext][1][0]) == 1), sh.a * np.exp(0.7j), sh.a)
        sh.flip_where(P.vars[ext][1][1], va < k1)
    else:
        ri = P.adopt(res)
        va = sh.value(P.vars[a][1])
        R, X = P.vars[ri][1], P.vars[ext][1]
        if kind == "and":
            sh.flip_where(R[0], (va < k1) & (va >= k2))
        elif kind == "or":
            sh.flip_where(R[0], (va == k1) | (va == k2))
        elif kind == "nested":
            sh.flip_where(R[0], (va < k1) & (va != k2) & (sh.bits(X[0]) == 1))
        else:
            sh.flip_where(R[0], (va & 1) == 1)
            sh.flip_where(R[1], ((va & 1) == 1) & (sh.bits(X[1]) == 1))
        if py.random() < 0.5:
            try:
                P.uncompute(ri)
            except Refused:
                raise Skip("refused")
    P.judge("function", compiled=py.random() < 0.4)


def verified_delete(ctx):
    py = ctx.py
    P = Prog(ctx)
    rest = [P.new("v", py.randint(1, 2))]
    P.generic(rest[0])
    b = P.new(py.choice("vb"), py.randint(1, 3))
    mode = py.choice(["permute", "rot", "none", "undone", "undone", "tiny"])
    B = P.vars[b][0]
    if mode in ("permute", "undone"):
        k = py.randint(1, 3)
        for _ in range(k):
            P.permute([b])
        if mode == "undone":
            # run the inverse instructions by hand
            qs = B.qs
            if any(i.op.name == "qb_dealloc" for i in qs.data):
                raise Skip("ancillas used")
            instr = [i for i in list(qs.data) if getattr(i, "op", None) is not None and set(i.qubits) & set(B.reg) and i.op.name != "qb_alloc"]
            for i in reversed(instr):
                qs.append(i.op.inverse(), i.qubits)
            # the reference state: remove the value of b coherently
            P.sh.a = np.array(P.sh.a)
    elif mode == "rot":
        P.rot(b, 0)
    elif mode == "tiny":
        ang = py.choice([0.3, 0.6])
        j = py.randrange(len(P.vars[b][1]))
        ry(ang, B[j])
        P.sh.u(P.vars[b][1][j], ref.ry_mat(ang))
    if mode == "undone":
        clean = True
    else:
        w = np.sum(np.abs(P.sh.a[P.sh.value(P.vars[b][1]) != 0]) ** 2)
        clean = w < 1e-9
        if not clean and w < 2e-2:
            raise Skip("undecided")
    n0 = len(B.qs.qv_list)
    try:
        B.delete(verify=True)
        raised = False
    except Exception as e:
        if "not in |0>" not in str(e):
            raise
        raised = True
    ctx.observe("verified_delete", (mode, clean, str(P.log)), True)
    ctx.last = P.log
    ctx.require(raised != clean, f"verified deletion {'raised' if raised else 'accepted'} a variable that is {'clean' if clean else 'not clean'} ({mode})")
    if not raised:
        ctx.require(B.is_deleted(), "deleted variable reports that it is not deleted")
        ctx.require(all(v is not B for v in P.vars[rest[0]][0].qs.qv_list), "deleted variable still listed in its session")
        try:
            x(B)
            ok = False
        except Exception:
            ok = True
        ctx.require(ok, "an operation on a deleted variable was accepted")


def claims(ctx):
    """verification of user supplied claims about wrapped functions"""
    py = ctx.py
    na, nb = py.randint(1, 2), 1
    steps = []
    for _ in range(py.randint(1, 3)):
        steps.append((py.choice(["cx", "mcx", "cz", "h_a", "x_a", "h_r", "ry_r", "p_a", "undo_h"]), py.randrange(na), py.uniform(0.3, 1.2)))

    def fn(a):
        r = QuantumVariable(1, qs=a.qs)
        for op, j, ang in steps:
            if op == "cx":
                cx(a[j], r)
            elif op == "mcx":
                mcx(a.reg, r[0])
            elif op == "cz":
                cz(a[j], r)
            elif op == "h_a":
                h(a[j])
            elif op == "x_a":
                x(a[j])
            elif op == "h_r":
                h(r)
            elif op == "ry_r":
                ry(ang, r)
                cx(a[j], r)
                ry(-ang, r)
            elif op == "p_a":
                p(ang, a[j])
            elif op == "undo_h":
                h(a[j])
                z(a[j])
                h(a[j])
        return r

    # the truth
    sh = Shadow()
    n = na + 1
    U = np.zeros((2**n, 2**n), dtype=complex)
    for col in range(2**n):
        s_ = Shadow()
        s_.add(n)
        s_.a = np.zeros(2**n, dtype=complex)
        s_.a[col] = 1
        for op, j, ang in steps:
            if op == "cx":
                s_.flip(na, [(j, 1)])
            elif op == "mcx":
                s_.flip(na, [(q, 1) for q in range(na)])
            elif op == "cz":
                s_.phase(np.pi, [(j, 1), (na, 1)])
            elif op == "h_a":
                s_.u(j, ref.named_1q("h", []))
            elif op == "x_a":
                s_.flip(j)
            elif op == "h_r":
                s_.u(na, ref.named_1q("h", []))
            elif op == "ry_r":
                s_.u(na, ref.ry_mat(ang))
                s_.flip(na, [(j, 1)])
                s_.u(na, ref.ry_mat(-ang))
            elif op == "p_a":
                s_.phase(ang, [(j, 1)])
            elif op == "undo_h":
                s_.flip(j)
        U[:, col] = s_.a
    ix = np.arange(2**n)
    perm = all(np.max(np.abs(U[np.ix_(((ix >> q) & 1) == 1, ((ix >> q) & 1) == 0)])) < 1e-6 for q in range(na))
    qfree = bool(np.all(np.sum(np.abs(U) > 1e-6, axis=0) == 1))
    what = py.choice(["lifted", "qfree", "perm"])
    a = QuantumVariable(na)
    try:
        if what == "lifted":
            truth = perm and qfree
            lifted(verify=True)(fn)(a)
        elif what == "qfree":
            truth = qfree
            gate_wrap(is_qfree=True, verify=True)(fn)(a)
        else:
            truth = perm
            gate_wrap(permeability="args", verify=True)(fn)(a)
        ok = True
    except Exception as e:
        if type(e) is not Exception:
            raise
        ok = False
    ctx.observe("claim_check", (what, str(steps)), True)
    ctx.last = (what, steps, perm, qfree)
    ctx.require(ok == truth, f"claim '{what}' was {'accepted' if ok else 'rejected'} although it is {truth} (permeable={perm}, qfree={qfree})")


FAMILIES = {"random": random_programs, "expressions": expressions, "recompute": recompute, "functions": functions, "verified_delete": verified_delete, "claims": claims}
