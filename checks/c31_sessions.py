PROPERTY = "C31"
RULE = "one evaluation = one history of creating, connecting, extending, reducing, duplicating, deleting and dropping variables inside and outside environments, with the state, the names and the session membership compared with a model along the way; distinct = distinct histories"
PLAN = {
    "quick": {"history": 420, "collected": 160, "names": 160, "scopes": 120},
    "thorough": {"history": 6000, "collected": 2500, "names": 2000, "scopes": 1500},
}
REQUIRED_MONITORS = ["history", "collected", "names", "scopes"]
ASSUMPTIONS = [
    "garbage collections are forced at every call and return inside the package for the collected schedules",
    "control qubits of an open environment are not acted on inside it",
]
CASE_TIMEOUT = 120
# --- end of plan ---
import gc
import math
import sys

import numpy as np

from vlib import qs as Q
from vlib.harness import Skip

import qrisp
from qrisp import QuantumArray, QuantumBool, QuantumFloat, QuantumVariable, auto_uncompute, conjugate, control, cx, h, invert, mcx, merge, p, ry, x, z
from qrisp.core import QuantumSession

MAXQ = 13


# --- the model: amplitudes over numbered bits -------------------------------------------


def step(state, gate):
    name, par, t, ctl = gate
    out = {}
    if name in ("z", "p"):
        ph = -1 if name == "z" else complex(math.cos(par), math.sin(par))
        for k, a in state.items():
            on = k >> t & 1 and all((k >> c & 1) == v for c, v in ctl)
            out[k] = a * ph if on else a
        return out
    if name == "x":
        return {(k ^ (1 << t) if all((k >> c & 1) == v for c, v in ctl) else k): a for k, a in state.items()}
    if name == "h":
        s = 1 / math.sqrt(2)
        m = [[s, s], [s, -s]]
    else:
        c, s = math.cos(par / 2), math.sin(par / 2)
        m = [[c, -s], [s, c]]
    for k, a in state.items():
        if not all((k >> c & 1) == v for c, v in ctl):
            out[k] = out.get(k, 0) + a
            continue
        b = k >> t & 1
        for nb in (0, 1):
            w = m[nb][b] * a
            if w:
                kk = (k & ~(1 << t)) | (nb << t)
                out[kk] = out.get(kk, 0) + w
    return {k: a for k, a in out.items() if abs(a) > 1e-12}


def inverted(gates):
    return [(n, -q if q is not None else None, t, c) for n, q, t, c in reversed(gates)]


def controlled(gates, ctl):
    return [(n, q, t, tuple(c) + tuple(ctl)) for n, q, t, c in gates]


class Handle:
    """what the generator knows about one variable"""

    def __init__(self, var, bits, kind, name=None):
        self.var, self.bits, self.kind, self.name = var, bits, kind, name
        self.alive = True

    @property
    def qubits(self):
        return self.var.reg


class World:
    def __init__(self, ctx, names=False, dropping=True):
        self.ctx, self.py = ctx, ctx.py
        self.state = {0: 1.0 + 0j}
        self.nbits = 0
        self.handles = []
        self.qubit_of = {}  # bit -> Qubit object (kept although the variable may be gone)
        self.gone = set()  # deallocated bits
        self.frames = [[]]
        self.banned = set()
        self.log = []
        self.names = names
        self.user_names = set()
        self.parent = {}
        self.made = []

    # union find over bits that interacted
    def root(self, b):
        while self.parent.setdefault(b, b) != b:
            b = self.parent[b]
        return b

    def join(self, bits):
        bits = list(bits)
        for b in bits[1:]:
            self.parent[self.root(b)] = self.root(bits[0])

    def emit(self, *gates):
        self.frames[-1].extend(gates)
        for _, _, t, ctl in gates:
            self.join([t] + [c for c, _ in ctl])
        if len(self.frames) == 1:
            for g in self.frames[0]:
                self.state = step(self.state, g)
            self.frames[0] = []

    def fresh(self, qubits):
        bits = []
        for q in qubits:
            b = self.nbits
            self.nbits += 1
            self.qubit_of[b] = q
            bits.append(b)
        self.join(bits)
        return bits

    def room(self, n):
        return self.nbits - len(self.gone) + n <= MAXQ and self.nbits + n <= 30

    # --- actions ------------------------------------------------------------------------
    def new(self, kind=None, n=None):
        py = self.py
        kind = kind or py.choice(["var", "float", "bool"])
        n = 1 if kind == "bool" else (n or py.randint(1, 2))
        if not self.room(n):
            return None
        kw = {}
        name = None
        if self.names and py.random() < 0.6:
            name = py.choice(["v", "v_0", "v_1", "v_2", "w", "v_dupl", "v_1_1"])
            if name in self.user_names:
                name = name + "*"
            else:
                self.user_names.add(name)
            kw["name"] = name
        other = None
        if self.handles and py.random() < 0.2:
            other = py.choice(self.handles)
            kw["qs"] = other.var.qs
        self.log.append(("new", kind, n, name, self.handles.index(other) if other else None))
        self.ctx.last = dict(log=self.log)
        try:
            if kind == "var":
                v = QuantumVariable(n, **kw)
            elif kind == "float":
                v = QuantumFloat(n, **kw)
            else:
                v = QuantumBool(**kw)
        except RuntimeError:
            taken = other is not None and name in [q.name for q in other.var.qs.qv_list + other.var.qs.deleted_qv_list]
            self.ctx.require(taken, "a free name was rejected", detail=dict(name=name))
            return None
        hd = Handle(v, self.fresh(v.reg), kind, name if name and not name.endswith("*") else None)
        if other:
            self.join([other.bits[0], hd.bits[0]])
        self.handles.append(hd)
        return hd

    def free(self):
        return [(hd, i) for hd in self.handles for i, b in enumerate(hd.bits) if b not in self.banned]

    def gate(self):
        py = self.py
        spots = self.free()
        if not spots:
            return
        k = py.choice([1, 1, 2, 2, 3])
        spots = py.sample(spots, min(k, len(spots)))
        qs = [hd.qubits[i] for hd, i in spots]
        bs = [hd.bits[i] for hd, i in spots]
        self.log.append(("gate", [(self.handles.index(hd), i) for hd, i in spots]))
        self.ctx.last = dict(log=self.log)
        if len(spots) == 1:
            g = py.choice(["x", "h", "ry", "p", "z"])
            par = round(py.uniform(0.2, 2.9), 2) if g in ("ry", "p") else None
            (getattr(qrisp, g)(par, qs[0]) if par is not None else getattr(qrisp, g)(qs[0]))
            self.emit((g, par, bs[0], ()))
        elif len(spots) == 2:
            cx(qs[0], qs[1])
            self.emit(("x", None, bs[1], ((bs[0], 1),)))
        else:
            cs = py.randrange(4)
            mcx(qs[:2], qs[2], ctrl_state=format(cs, "02b")[::-1])
            self.emit(("x", None, bs[2], ((bs[0], cs & 1), (bs[1], cs >> 1))))

    def temporary(self, src):
        """a predicate computed by a function that keeps no other reference"""
        b = QuantumBool()
        q = b[0]
        cx(src[0].qubits[src[1]], q)
        x(q)
        bits = self.fresh([q])
        self.emit(("x", None, bits[0], ((src[0].bits[src[1]], 1),)), ("x", None, bits[0], ()))
        return b

    def environment(self, depth):
        py = self.py
        spots = self.free()
        if len(spots) < 2 or depth > 2:
            return
        kind = py.choice(["control", "control", "temp", "invert", "conjugate", "compare", "bool"])
        if self.inside("invert") and kind == "temp":
            kind = "control"
        hd, i = py.choice(spots)
        self.log.append(("env", kind, (self.handles.index(hd), i)))
        self.ctx.last = dict(log=self.log)
        old = set(self.banned)
        self.kinds.append(kind)
        try:
            if kind == "invert":
                self.frames.append([])
                with invert():
                    self.body(depth, create=False)
                gates = inverted(self.frames.pop())
            elif kind == "conjugate":
                other = [s for s in spots if s != (hd, i)]
                h2, j = py.choice(other)

                def pre(a, b):
                    h(a)
                    cx(a, b)

                g0 = [("h", None, hd.bits[i], ()), ("x", None, h2.bits[j], ((hd.bits[i], 1),))]
                self.join([hd.bits[i], h2.bits[j]])
                self.banned |= {hd.bits[i], h2.bits[j]}
                self.frames.append([])
                with conjugate(pre)(hd.qubits[i], h2.qubits[j]):
                    z(h2.qubits[j])
                    self.emit(("z", None, h2.bits[j], ()))
                    self.body(depth, create=False)
                gates = g0 + self.frames.pop() + inverted(g0)
            elif kind == "compare" and hd.kind == "float" and not self.banned & set(hd.bits):
                val = py.randrange(2 ** len(hd.bits))
                self.banned |= set(hd.bits)
                self.frames.append([])
                with hd.var == val:
                    self.body(depth)
                gates = controlled(self.frames.pop(), [(b, val >> j & 1) for j, b in enumerate(hd.bits)])
            elif kind == "temp":
                n0 = self.nbits
                self.frames.append([])
                if not self.room(1):
                    self.frames.pop()
                    return
                # the truth value is only referenced by the environment
                self.frames.pop()
                env = control(self.temporary((hd, i)))
                tb = n0
                self.frames.append([])
                self.banned |= {tb}
                with env:
                    self.body(depth)
                gates = controlled(self.frames.pop(), [(tb, 1)])
            else:
                others = [s for s in spots if s != (hd, i)]
                ctl = [(hd, i)] + (py.sample(others, 1) if len(others) > 1 and py.random() < 0.4 else [])
                cs = [py.randrange(2) for _ in ctl]
                bits = [a.bits[b] for a, b in ctl]
                self.banned |= set(bits)
                self.frames.append([])
                self.join(bits)
                if kind == "bool" and hd.kind == "bool" and len(ctl) == 1:
                    cs = [1]
                    with hd.var:
                        self.body(depth)
                else:
                    with control([a.qubits[b] for a, b in ctl], ctrl_state="".join(map(str, cs))):
                        self.body(depth)
                gates = controlled(self.frames.pop(), list(zip(bits, cs)))
        finally:
            self.kinds.pop()
        self.banned = old
        self.emit(*gates)

    kinds = None

    def inside(self, kind):
        return kind in self.kinds or "conjugate" in self.kinds

    def body(self, depth, create=True):
        py = self.py
        create = create and not self.inside("invert")
        for _ in range(py.randint(1, 3)):
            act = py.choice(["gate", "gate", "new", "env", "scratch"])
            if act == "gate":
                self.gate()
            elif act == "env":
                self.environment(depth + 1)
            elif create and act == "new":
                # documented: sessions created inside an environment only take part in it
                # once they are connected to a session that existed before
                old = self.free()
                hd = self.new()
                if hd is None:
                    continue
                if old:
                    a, i = py.choice(old)
                    cx(a.qubits[i], hd.qubits[0])
                    self.emit(("x", None, hd.bits[0], ((a.bits[i], 1),)))
                else:
                    self.handles.remove(hd)
            elif create and act == "scratch":
                self.scratch()

    def scratch(self, verify=False):
        """compute into a scratch variable, use it, uncompute it and delete it"""
        py = self.py
        spots = self.free()
        if len(spots) < 2 or not self.room(1):
            return
        (a, i), (c, j) = py.sample(spots, 2)
        self.log.append(("scratch", (self.handles.index(a), i), (self.handles.index(c), j), verify))
        self.ctx.last = dict(log=self.log)
        t = QuantumBool()
        tb = self.fresh([t[0]])[0]
        cx(a.qubits[i], t[0])
        cx(t[0], c.qubits[j])
        cx(a.qubits[i], t[0])
        self.emit(("x", None, tb, ((a.bits[i], 1),)), ("x", None, c.bits[j], ((tb, 1),)), ("x", None, tb, ((a.bits[i], 1),)))
        t.delete(verify=verify)
        self.ctx.require(t.is_deleted(), "a deleted variable is still reported as live")
        self.gone.add(tb)
        if py.random() < 0.3:
            try:
                x(t[0])
                self.ctx.require(False, "a gate on a deleted variable was accepted")
            except Exception as e:
                if type(e).__name__ == "Violation":
                    raise

    def automatic(self):
        """an automatically uncomputed function: its local variables vanish, nothing else does"""
        py = self.py
        spots = self.free()
        if len(spots) < 2 or not self.room(2):
            return
        (a, i), (c, j) = py.sample(spots, 2)
        before = [hd for hd in self.handles]
        self.log.append(("auto", (self.handles.index(a), i), (self.handles.index(c), j)))
        self.ctx.last = dict(log=self.log)
        n = [0]

        @auto_uncompute
        def f(var, tgt):
            t = QuantumBool()
            n[0] = t[0]
            cx(var.reg[i], t[0])
            x(t[0])
            z(t[0])
            cx(t[0], tgt.reg[j])

        try:
            f(a.var, c.var)
        except Exception as e:
            if "uncomput" in str(e):
                raise Skip("this history can not be uncomputed")
            raise
        tb = self.fresh([n[0]])[0]
        ab, cb = a.bits[i], c.bits[j]
        up = [("x", None, tb, ((ab, 1),)), ("x", None, tb, ())]
        self.emit(*up, ("z", None, tb, ()), ("x", None, cb, ((tb, 1),)), *inverted(up))
        self.gone.add(tb)
        for hd in before:
            self.ctx.require(not hd.var.is_deleted(), "automatic uncomputation removed a variable it did not create", detail=dict(name=hd.var.name))

    def extend(self):
        py = self.py
        c = [hd for hd in self.handles if hd.kind == "var"]
        if not c or not self.room(2):
            return
        hd = py.choice(c)
        k, pos = py.randint(1, 2), py.choice([-1, 0, py.randint(0, len(hd.bits))])
        self.log.append(("extend", self.handles.index(hd), k, pos))
        self.ctx.last = dict(log=self.log)
        old = list(hd.var.reg)
        hd.var.extend(k, pos)
        at = len(hd.bits) if pos == -1 else pos
        new = self.fresh(hd.var.reg[at : at + k])
        hd.bits[at:at] = new
        self.join([hd.bits[0], *hd.bits])
        self.ctx.require(len(hd.var) == len(hd.bits) and all(self.qubit_of[b] is q for b, q in zip(hd.bits, hd.var.reg)), "extending put the qubits in other places")

    def reduce(self):
        py = self.py
        c = [(hd, i) for hd in self.handles if hd.kind == "var" and len(hd.bits) > 1 for i, b in enumerate(hd.bits) if all(not k >> b & 1 for k in self.state)]
        if not c:
            return
        hd, i = py.choice(c)
        self.log.append(("reduce", self.handles.index(hd), i))
        self.ctx.last = dict(log=self.log)
        hd.var.reduce(hd.var.reg[i] if py.random() < 0.5 else [hd.var.reg[i]], verify=py.random() < 0.3)
        self.gone.add(hd.bits.pop(i))
        self.ctx.require(len(hd.var) == len(hd.bits) and all(self.qubit_of[b] is q for b, q in zip(hd.bits, hd.var.reg)), "reducing removed other qubits")

    def duplicate(self):
        py = self.py
        if not self.handles:
            return
        hd = py.choice(self.handles)
        if not self.room(len(hd.bits)):
            return
        init = py.random() < 0.5
        self.log.append(("duplicate", self.handles.index(hd), init))
        self.ctx.last = dict(log=self.log)
        if self.names and hd.name and py.random() < 0.3:
            d = hd.var.duplicate(name="w*" if py.random() < 0.5 else None, init=init)
        else:
            d = hd.var.duplicate(init=init)
        bits = self.fresh(d.reg)
        self.ctx.require(type(d) is type(hd.var) and len(d) == len(hd.bits), "a duplicate has another type or size")
        self.handles.append(Handle(d, bits, hd.kind))
        if init:
            self.emit(*[("x", None, t, ((s, 1),)) for s, t in zip(hd.bits, bits)])

    def delete(self):
        py = self.py
        c = [hd for hd in self.handles if len(self.handles) > 2 and all(not k >> b & 1 for b in hd.bits for k in self.state)]
        if not c:
            return
        hd = py.choice(c)
        self.log.append(("delete", self.handles.index(hd)))
        self.ctx.last = dict(log=self.log)
        hd.var.delete(verify=py.random() < 0.4)
        self.ctx.require(hd.var.is_deleted(), "a deleted variable is still reported as live")
        hd.var.delete()  # deleting twice does nothing
        try:
            hd.var.get_measurement()
            self.ctx.require(False, "a deleted variable could be measured")
        except Exception as e:
            if type(e).__name__ == "Violation":
                raise
        self.gone |= set(hd.bits)
        self.handles.remove(hd)

    def refuse(self):
        """a verified delete of a variable that is not |0> must fail and change nothing"""
        py = self.py
        c = [hd for hd in self.handles if sum(abs(a) ** 2 for k, a in self.state.items() if any(k >> b & 1 for b in hd.bits)) > 0.3]
        if not c:
            return
        hd = py.choice(c)
        self.log.append(("refuse", self.handles.index(hd)))
        self.ctx.last = dict(log=self.log)
        try:
            hd.var.delete(verify=True)
        except Exception:
            self.ctx.require(not hd.var.is_deleted() and any(q is hd.var for q in hd.var.qs.qv_list), "a refused delete removed the variable")
            return
        self.ctx.require(False, "a variable that is not in the zero state passed the verification")

    def drop(self):
        py = self.py
        c = [hd for hd in self.handles if any(o is not hd and self.root(o.bits[0]) == self.root(hd.bits[0]) for o in self.handles)]
        if len(self.handles) < 3 or not c:
            return
        hd = py.choice(c)
        self.log.append(("drop", self.handles.index(hd)))
        self.handles.remove(hd)

    def merge(self):
        py = self.py
        if len(self.handles) < 2:
            return
        c = py.sample(self.handles, min(len(self.handles), py.randint(2, 3)))
        self.log.append(("merge", [self.handles.index(a) for a in c]))
        self.ctx.last = dict(log=self.log)
        args = [a.var if py.random() < 0.6 else (a.var.qs if py.random() < 0.5 else [a.var]) for a in c]
        merge(*args)
        self.join([a.bits[0] for a in c])

    def measure(self):
        if not self.handles:
            return
        hd = self.py.choice(self.handles)
        self.log.append(("measure", self.handles.index(hd)))
        self.ctx.last = dict(log=self.log)
        ref = {}
        for k, a in self.state.items():
            r = sum((k >> b & 1) << j for j, b in enumerate(hd.bits))
            ref[r] = ref.get(r, 0) + abs(a) ** 2
        got = {}
        for lab, pr in dict(hd.var.get_measurement()).items():
            r = int(lab[::-1], 2) if hd.kind == "var" else int(lab)
            got[r] = got.get(r, 0) + pr
        ok = all(abs(got.get(r, 0) - ref.get(r, 0)) < 2e-4 for r in set(got) | set(ref))
        self.ctx.require(ok, "a measured distribution differs from the history", detail=dict(got=str(got), expected=str(ref)))

    # --- invariants ---------------------------------------------------------------------
    def invariants(self):
        req = self.ctx.require
        for hd in self.handles:
            v = hd.var
            req(not v.is_deleted(), "a live variable is reported as deleted", detail=dict(name=v.name))
            req(len(v) == len(hd.bits), "the size of a variable changed")
            qs = v.qs
            req(sum(1 for q in qs.qv_list if q is v) == 1, "a live variable is not listed exactly once in its session", detail=dict(name=v.name))
            have = set(id(q) for q in qs.qubits)
            req(all(id(q) in have for q in v.reg), "the session of a variable does not hold its qubits", detail=dict(name=v.name))
            req(all(q.qs() is not None and q.qs() == qs for q in v.reg), "a qubit belongs to another session than its variable", detail=dict(name=v.name))
            if hd.name is not None:
                req(v.name == hd.name, "a name given by the user was changed", detail=dict(got=v.name, expected=hd.name))
            names = [q.name for q in qs.qv_list]
            req(len(set(names)) == len(names), "two live variables of a session share a name", detail=dict(names=str(names)))
            ids = [q.identifier for q in qs.qubits]
            req(len(set(ids)) == len(ids), "two qubits of a session share a name", detail=dict(names=str(ids)))
        for a in self.handles:
            for b in self.handles:
                if self.root(a.bits[0]) == self.root(b.bits[0]):
                    req(a.var.qs == b.var.qs, "variables that interacted are in different sessions", detail=dict(names=(a.var.name, b.var.name)))
                    req(a.var.qs.data is b.var.qs.data and len(a.var.qs.qubits) == len(b.var.qs.qubits), "handles of one session disagree")

    def final(self):
        if not self.handles:
            return
        merge([hd.var for hd in self.handles])
        qs = self.handles[0].var.qs
        here = set(id(q) for q in qs.qubits)
        bits = [b for b in range(self.nbits) if b not in self.gone and id(self.qubit_of[b]) in here]
        lost = [b for b in range(self.nbits) if b not in self.gone and b not in bits]
        req = self.ctx.require
        for b in lost:
            req(all(self.root(b) != self.root(hd.bits[0]) for hd in self.handles), "a qubit that interacted with a live variable left the session")
        if lost:
            raise Skip("a whole session was dropped")
        for b in self.gone:
            req(all(not k >> b & 1 for k in self.state), "internal: a scratch bit is not clean")
        qc = qs.compile() if self.py.random() < 0.5 else qs.copy()
        got = Q.amplitudes(qc, [[self.qubit_of[b]] for b in bits], what="history")
        ref = {}
        for k, a in self.state.items():
            kk = tuple(k >> b & 1 for b in bits)
            ref[kk] = ref.get(kk, 0) + a
        d = Q.amp_diff(got, ref, phase=True)
        req(d < 1e-5, "the state differs from the history", detail=dict(difference=d))


def history(ctx, world, steps, acts):
    py = ctx.py
    world.kinds = []
    for _ in range(py.randint(1, 3)):
        world.new()
    for _ in range(steps):
        act = py.choice(acts)
        if act == "environment":
            world.environment(0)
        elif act == "scratch":
            world.scratch(verify=py.random() < 0.3)
        else:
            getattr(world, act)()
        world.invariants()
    world.final()
    if len(world.log) < 4:
        raise Skip("short history")


ACTS = ["new", "new", "gate", "gate", "gate", "gate", "environment", "environment", "scratch", "extend", "reduce", "duplicate", "delete", "refuse", "drop", "merge", "measure"]


def case_history(ctx):
    w = World(ctx)
    history(ctx, w, ctx.py.randint(4, 12), ACTS)
    ctx.observe("history", key=str(w.log))


def case_names(ctx):
    w = World(ctx, names=True)
    history(ctx, w, ctx.py.randint(4, 10), ["new", "new", "gate", "gate", "merge", "duplicate", "extend", "delete", "measure", "environment"])
    ctx.observe("names", key=str(w.log))


def case_scopes(ctx):
    w = World(ctx, names=ctx.py.random() < 0.3)
    history(ctx, w, ctx.py.randint(4, 9), ["new", "gate", "gate", "automatic", "automatic", "delete", "drop", "duplicate"])
    ctx.observe("scopes", key=str(w.log))


def case_collected(ctx):
    """the same with a garbage collection at every call and return inside the package"""
    w = World(ctx)
    hits = [0]

    def prof(frame, event, arg):
        if event in ("call", "return") and "/qrisp/" in frame.f_code.co_filename:
            hits[0] += 1
            if hits[0] % stride == 0:
                gc.collect()

    stride = ctx.py.choice([1, 1, 3, 7])
    gc.collect()
    gc.freeze()
    sys.setprofile(prof)
    try:
        history(ctx, w, ctx.py.randint(2, 6), ["new", "gate", "gate", "environment", "environment", "scratch", "duplicate", "drop", "merge", "automatic"])
    finally:
        sys.setprofile(None)
        gc.unfreeze()
    ctx.require(hits[0] > 0, "internal: the schedule was not applied")
    ctx.observe("collected", key=str(w.log))


FAMILIES = {k[5:]: v for k, v in list(globals().items()) if k.startswith("case_")}
