"""Random programs with classical control flow: one syntax tree, executed by the library (traced or not)
and by an independent reference interpreter on exact statevectors."""
import numpy as np

from . import ref
from .harness import Skip

# ---------------------------------------------------------------- classical expressions
def ev(e, env):
    k = e[0]
    if k == "k":
        return e[1]
    if k == "v":
        return env[e[1]]
    if k == "sz":
        return env.size(e[1])
    a, b = ev(e[1], env), ev(e[2], env)
    if k == "+":
        return a + b
    if k == "-":
        return a - b
    if k == "*":
        return a * b
    if k == "%":
        return a % b
    if k == "^":
        return a ^ b
    if k == "&":
        return a & b
    if k == "==":
        return a == b
    if k == "<":
        return a < b
    if k == ">":
        return a > b
    if k == "!=":
        return a != b
    raise KeyError(k)


class Env(dict):
    """name -> classical value or register"""

    def __init__(self, *a, sizes=None, **k):
        super().__init__(*a, **k)
        self.sizes = {} if sizes is None else dict(sizes)

    def copy(self):
        e = Env(self)
        e.sizes = dict(self.sizes)
        return e

    def size(self, name):
        r = self[name]
        return r.size if hasattr(r, "size") and not isinstance(r, list) else len(r)


# ---------------------------------------------------------------- generator
ONE = ["x", "y", "z", "h", "s", "t", "s_dg", "t_dg", "sx"]
ROT = ["rx", "ry", "rz", "p"]
TWO = ["cx", "cz", "cy", "swap"]
CLASSICAL = ["x", "cx", "swap", "mcx", "z", "s", "t"]
INV = {"s": "s_dg", "s_dg": "s", "t": "t_dg", "t_dg": "t"}


class Gen:
    def __init__(self, py, meas=False, classical=False, clifford=False, max_q=6, envs=True, funcs=True, flow=True, ancilla=True, arith=False, dynamic=True, angle_args=True, mid=True, kinds=("qv", "qf", "qb"), rots=True, nargs=None, conj=True, inv=True, cctrl=True, ctrl=True, switch=True, reset=True, api=False, custom=False, extra=False, intctrl=False):
        self.api, self.custom, self.extra, self.intctrl = api, custom, extra, intctrl
        self.py, self.meas, self.classical, self.clifford = py, meas, classical, clifford
        self.envs, self.funcs, self.flow, self.ancilla, self.arith, self.dynamic = envs, funcs, flow, ancilla, arith, dynamic
        self.rots, self.angle_args, self.mid = rots, angle_args, mid
        self.conj_ok, self.inv_ok, self.cctrl_ok, self.ctrl_ok, self.switch_ok, self.reset_ok = conj, inv, cctrl, ctrl, switch, reset
        self.max_q = max_q
        self.n = 0
        n_args = py.randint(1, 3) if nargs is None else nargs
        self.args = [(f"a{i}", py.randint(1, 6)) for i in range(n_args)]  # (name, max value)
        self.fn = []
        self.regs = []
        self.decl = []
        total = 0
        for i in range(py.randint(1, 3)):
            kind = py.choice(kinds)
            room = max_q - total
            if room < 1:
                break
            if kind == "qb":
                size, hi = ("k", 1), 1
            elif self.dynamic and self.args and room >= 3 and py.random() < 0.3:
                a = py.choice(self.args)[0]
                size, hi = ("+", ("k", 1), ("%", ("v", a), ("k", 3 if room >= 3 else 2))), 3
            else:
                s = py.randint(1, min(3, room))
                size, hi = ("k", s), s
            total += hi
            self.decl.append((f"r{i}", kind, size, hi))
        self.total = total

    def fresh(self, p):
        self.n += 1
        return f"{p}{self.n}"

    # -- expressions with non-negative small values
    def expr(self, cvars, depth=1):
        py = self.py
        r = py.random()
        if depth == 0 or r < 0.5 or not cvars:
            return ("v", py.choice(cvars)) if cvars and py.random() < 0.7 else ("k", py.randrange(5))
        return (py.choice(["+", "+", "*", "^", "&"]), self.expr(cvars, depth - 1), self.expr(cvars, depth - 1))

    def cond(self, cvars):
        py = self.py
        c = py.randrange(4)
        if c == 0:
            return ("==", ("%", self.expr(cvars), ("k", 2)), ("k", py.randrange(2)))
        if c == 1:
            return ("<", self.expr(cvars, 0), ("k", py.randint(1, 4)))
        if c == 2:
            return (">", self.expr(cvars, 0), self.expr(cvars, 0))
        return ("!=", self.expr(cvars, 0), ("k", py.randrange(4)))

    def idx(self, reg, cvars):
        """index expression valid for the register"""
        py = self.py
        if py.random() < 0.45 or not self.dynamic:
            return ("%", ("k", py.randrange(3)), ("sz", reg))
        return ("%", self.expr(cvars, 1), ("sz", reg))

    def qubits(self, sc, k):
        """k distinct qubits (register, index expression)"""
        py = self.py
        regs = dict(sc["regs"])
        for _ in range(30):
            out, used, first = [], {}, {}
            for _ in range(k):
                r = py.choice(list(regs))
                used.setdefault(r, 0)
                used[r] += 1
                if used[r] > regs[r][0]:  # guaranteed minimal size
                    break
                if used[r] == 1:
                    e = self.idx(r, sc["c"])
                    first[r] = e
                    out.append((r, e))
                else:
                    out.append((r, ("%", ("+", first[r], ("k", used[r] - 1)), ("sz", r))))
            if len(out) == k:
                return out
        return None

    def gate(self, sc):
        py = self.py
        if self.classical:
            name = py.choice(CLASSICAL)
        elif self.clifford:
            name = py.choice(["x", "y", "z", "h", "s", "s_dg", "cx", "cz", "cy", "swap", "h"])
        else:
            name = py.choice(ONE + (ROT * 2 if self.rots else []) + TWO + ["cx", "mcx", "h", "cp", "mcx"])
            if self.extra and py.random() < 0.25:
                name = py.choice(["u3", "rxx", "rzz", "gphase", "addc", "mcp", "mcz"])
                if name == "addc":
                    regs = [r for r, t in sc["regs"].items() if t[1] == "qf"]
                    if regs:
                        return ("addc", py.choice(regs), py.choice([1, 1, -1]), ("%", self.expr(sc["c"]), ("k", 8)))
                    name = "gphase"
                if name in ("mcp", "mcz"):
                    q = self.qubits(sc, py.randint(2, 3))
                    if q is not None:
                        cs = "".join(py.choice("01") for _ in range(len(q))) if py.random() < 0.6 else None
                        if cs is not None and py.random() < 0.4:
                            cs = int(cs[::-1], 2)
                        return ("g", name, (round(py.uniform(-3, 3), 3), None) if name == "mcp" else None, q, cs)
                    name = "u3"
                q = self.qubits(sc, 2 if name in ("rxx", "rzz") else 1)
                if q is not None:
                    ang = [round(py.uniform(-3, 3), 3) for _ in range(3 if name == "u3" else 1)]
                    e = self.expr(sc["c"]) if py.random() < 0.3 else None
                    return ("ge", name, ang, e, q)
                name = "h"
        if name in ("cx", "cz", "cy", "swap", "cp"):
            q = self.qubits(sc, 2)
        elif name == "mcx":
            q = self.qubits(sc, py.randint(2, 4))
        else:
            q = self.qubits(sc, 1)
        if q is None:
            q = self.qubits(sc, 1)
            name = "x"
        par = None
        if name in ROT + ["cp"]:
            par = (round(py.uniform(-3, 3), 3), self.expr(sc["c"]) if self.angle_args and py.random() < 0.4 else None)
        cs = None
        if name == "mcx" and py.random() < 0.4:
            cs = "".join(py.choice("01") for _ in range(len(q) - 1))
            if py.random() < 0.4:
                cs = int(cs[::-1], 2)
        return ("g", name, par, q, cs)

    def block(self, sc, depth, n, unitary):
        out = []
        for _ in range(n):
            s = self.stmt(sc, depth, unitary)
            if s is not None:
                out.append(s)
        return out

    def sub(self, sc):
        return {"regs": dict(sc["regs"]), "c": list(sc["c"]), "fn": sc["fn"], "forbid": set(sc.get("forbid", ()))}

    def stmt(self, sc, depth, unitary):
        py = self.py
        r = py.random()
        if depth <= 0 or r < 0.5:
            return self.gate(sc)
        kinds = []
        if self.envs:
            kinds += (["ctrl"] * 2 if self.ctrl_ok else []) + (["inv"] if self.inv_ok else []) + (["conj"] if self.conj_ok else []) + (["cctrl"] if self.cctrl_ok else [])
        if self.flow:
            kinds += ["for", "for"]
            if not unitary:
                kinds += ["cond", "fori", "while"] + (["switch"] if self.switch_ok else [])
        if self.funcs and sc["fn"]:
            kinds += ["call", "call"]
        if self.ancilla:
            kinds += ["anc"]
        if self.meas and not unitary and self.mid:
            kinds += ["meas", "meas", "let"] + (["reset"] if self.reset_ok else [])
        if not kinds:
            return self.gate(sc)
        k = py.choice(kinds)
        if k == "ctrl":
            q = self.qubits(sc, py.randint(1, 2))
            if q is None or sum(a for a, _ in sc["regs"].values()) <= len(q):
                return self.gate(sc)
            # controlled registers are removed from the body's scope
            s2 = self.sub(sc)
            for rr, _ in q:
                s2["regs"].pop(rr, None)
            if not s2["regs"]:
                return self.gate(sc)
            cs = None
            if py.random() < 0.5:
                cs = "".join(py.choice("01") for _ in q)
                if self.intctrl and py.random() < 0.4:
                    cs = int(cs[::-1], 2)
            return ("ctrl", q, cs, self.block(s2, depth - 1, py.randint(1, 3), True))
        if k == "inv":
            return ("inv", self.block(self.sub(sc), depth - 1, py.randint(1, 3), True))
        if k == "conj":
            s2 = self.sub(sc)
            return ("conj", self.block(self.sub(sc), depth - 1, py.randint(1, 2), True), self.block(s2, depth - 1, py.randint(1, 2), True))
        if k == "cctrl":
            if not sc["c"]:
                return self.gate(sc)
            return ("cctrl", self.cond(sc["c"]), self.block(self.sub(sc), depth - 1, py.randint(1, 2), True))
        if k == "for":
            v = self.fresh("i")
            s2 = self.sub(sc)
            s2["c"] = s2["c"] + [v]
            lo = None
            n = ("%", self.expr(sc["c"]), ("k", 4)) if self.dynamic else ("k", py.randrange(4))
            if py.random() < 0.3:
                lo = ("%", self.expr(sc["c"], 0), ("k", 3))
                n = ("+", lo, n)
            return ("for", v, lo, n, None, self.block(s2, depth - 1, py.randint(1, 2), True))
        if k == "cond":
            return ("cond", self.cond(sc["c"]), self.block(self.sub(sc), depth - 1, py.randint(1, 2), unitary), self.block(self.sub(sc), depth - 1, py.randint(0, 2), unitary))
        if k == "switch":
            m = py.randint(2, 3)
            return ("switch", ("%", self.expr(sc["c"]), ("k", m)), [self.block(self.sub(sc), depth - 1, py.randint(0, 2), unitary) for _ in range(m)])
        if k == "fori":
            v = self.fresh("i")
            acc = self.fresh("c")
            s2 = self.sub(sc)
            s2["c"] = s2["c"] + [v, acc]
            st = ("fori", v, ("%", self.expr(sc["c"]), ("k", 4)), acc, self.expr(sc["c"], 0), self.block(s2, depth - 1, py.randint(1, 2), unitary), ("%", self.expr(s2["c"]), ("k", 7)))
            sc["c"].append(acc)
            return st
        if k == "while":
            acc = self.fresh("c")
            s2 = self.sub(sc)
            s2["c"] = s2["c"] + [acc]
            # step 1 only: the XLA compiler gets the trip count of some constant
            # loops with larger steps wrong, independently of Qrisp
            st = ("while", acc, ("%", self.expr(sc["c"], 0), ("k", 3)), ("k", py.randint(1, 5)), self.block(s2, depth - 1, py.randint(1, 2), unitary), ("+", ("v", acc), ("k", 1)))
            sc["c"].append(acc)
            return st
        if k == "call":
            f = py.choice(sc["fn"])
            spec = self.fn[f]
            regs = list(sc["regs"])
            py.shuffle(regs)
            pick = []
            for need, hi, kind in spec["regs"]:
                for rr in regs:
                    if rr not in pick and sc["regs"][rr][0] >= need and (kind is None or sc["regs"][rr][1] == kind):
                        pick.append(rr)
                        break
            if len(pick) < len(spec["regs"]):
                return self.gate(sc)
            ints = [self.expr(sc["c"]) for _ in range(spec["nc"])]
            if self.api and py.random() < 0.5:
                chain, free = [], {r: v for r, v in sc["regs"].items() if r not in pick}
                for _ in range(py.randint(1, 3)):
                    if py.random() < 0.4 or not free:
                        chain.append(("inv",))
                        continue
                    qs = []
                    for _ in range(py.randint(1, 2)):
                        if free:
                            rr = py.choice(list(free))
                            free.pop(rr)
                            qs.append((rr, self.idx(rr, sc["c"])))
                    cs = "".join(py.choice("01") for _ in qs) if py.random() < 0.6 else None
                    if cs is not None and py.random() < 0.4:
                        cs = int(cs[::-1], 2)
                    chain.append(("ctl", qs, cs))
                return ("api", f, pick, ints, chain)
            return ("call", f, pick, ints)
        if k == "anc":
            if self.anc_budget <= 0:
                return self.gate(sc)
            self.anc_budget -= 1
            v = self.fresh("q")
            s2 = self.sub(sc)
            # compute: classical logic from existing qubits onto the ancilla
            comp = []
            for _ in range(py.randint(1, 2)):
                q = self.qubits(sc, py.randint(1, 2))
                if q is None:
                    q = self.qubits(sc, 1)
                comp.append(("g", "mcx" if len(q) > 1 else "cx", None, q + [(v, ("k", 0))], None))
            return ("anc", v, comp, [("g", py.choice(["z", "t", "s"]) if not self.clifford else "z", None, [(v, ("k", 0))], None)])
        if k == "meas":
            v = self.fresh("m")
            if py.random() < 0.5:
                q = self.qubits(sc, 1)[0]
                st = ("measq", v, q)
            else:
                st = ("measr", v, py.choice(list(sc["regs"])))
            sc["c"].append(v)
            return st
        if k == "let":
            v = self.fresh("c")
            e = ("%", self.expr(sc["c"], 2), ("k", 8))
            sc["c"].append(v)
            return ("let", v, e)
        if k == "reset":
            return ("reset", py.choice(list(sc["regs"])))
        raise KeyError(k)

    def program(self, depth=2, n=None):
        py = self.py
        self.anc_budget = 2
        # helper functions taking registers and ints
        if self.funcs:
            for k in range(py.randint(1, 2)):
                specs = [(py.choice([1, 1, 2]), None, None) for _ in range(py.randint(1, 2))]
                nc = py.randint(0, 2)
                sc = {"regs": {f"p{i}": (s[0], None) for i, s in enumerate(specs)}, "c": [f"n{i}" for i in range(nc)], "fn": list(range(k)) if py.random() < 0.6 else []}
                ret = None
                if self.custom and py.random() < 0.6:
                    a = self.block(sc, min(depth - 1, 1), py.randint(0, 2), True)
                    b = self.block(sc, depth - 1, py.randint(1, 2), True)
                    dec = py.choice(["cusc", "cusi", "cusci", "cusic"])
                    self.fn.append({"regs": specs, "nc": nc, "body": a + b + [("inv", a)], "a": a, "b": b, "dec": dec, "qache": dec})
                    continue
                body = self.block(sc, depth - 1, py.randint(1, 3), True)
                self.fn.append({"regs": specs, "nc": nc, "body": body, "qache": py.random() < 0.7})
        sc = {"regs": {}, "c": [a for a, _ in self.args], "fn": list(range(len(self.fn)))}
        for name, kind, size, hi in self.decl:
            sc["regs"][name] = ((size[1] if size[0] == "k" else 1), kind)
        body = self.block(sc, depth, n or py.randint(2, 6), not self.meas and False)
        outs = list(sc["regs"])
        return {"args": self.args, "decl": self.decl, "fn": self.fn, "body": body, "c": sc["c"], "regs": outs}


def show(p):
    return f"decl={[(d[0], d[1], d[2]) for d in p['decl']]} fn={[(f['regs'], f['nc'], f['qache'], f['body']) for f in p['fn']]} body={p['body']}"


# ---------------------------------------------------------------- execution by the library
class Lib:
    def __init__(self, prog):
        import qrisp
        from qrisp.jasp import qache, jrange, q_cond, q_fori_loop, q_while_loop, q_switch

        self.q, self.p = qrisp, prog
        self.jrange, self.q_cond, self.q_fori_loop, self.q_while_loop, self.q_switch = jrange, q_cond, q_fori_loop, q_while_loop, q_switch
        self.fns = []
        for f in prog["fn"]:
            self.fns.append(self._fn(f, qache))

    def _fn(self, f, qache):
        nreg = len(f["regs"])
        if f.get("dec"):
            return self._custom(f, nreg)

        def fn(*args):
            env = Env({f"p{i}": a for i, a in enumerate(args[:nreg])})
            env.update({f"n{i}": a for i, a in enumerate(args[nreg:])})
            self.run(f["body"], env)

        return qache(fn) if f["qache"] else fn

    def _custom(self, f, nreg):
        q = self.q

        def core(args, inv, ctrl):
            env = Env({f"p{i}": a for i, a in enumerate(args[:nreg])})
            env.update({f"n{i}": a for i, a in enumerate(args[nreg:])})
            self.run(f["a"], env.copy())
            if ctrl is None and not inv:
                self.run(f["b"], env.copy())
            elif ctrl is None:
                with q.invert():
                    self.run(f["b"], env.copy())
            elif not inv:
                with q.control(ctrl):
                    self.run(f["b"], env.copy())
            else:
                with q.control(ctrl):
                    with q.invert():
                        self.run(f["b"], env.copy())
            if f["a"]:
                with q.invert():
                    self.run(f["a"], env.copy())

        if f["dec"] == "cusc":

            @q.custom_control
            def fn(*args, ctrl=None):
                core(args, False, ctrl)

        elif f["dec"] == "cusi":

            @q.custom_inversion
            def fn(*args, inv=False):
                core(args, inv, None)

        elif f["dec"] == "cusic":

            @q.custom_control
            @q.custom_inversion
            def fn(*args, inv=False, ctrl=None):
                core(args, inv, ctrl)

        else:

            @q.custom_inversion
            @q.custom_control
            def fn(*args, inv=False, ctrl=None):
                core(args, inv, ctrl)

        return fn

    def api(self, s, env):
        """a call with inversion and control requested explicitly"""
        q = self.q
        from qrisp.jasp import check_for_tracing_mode, make_jaspr

        _, f, regs, ints, chain = s
        args = [env[r] for r in regs] + [ev(e, env) for e in ints]
        if check_for_tracing_mode():
            import jax

            jp = make_jaspr(self.fns[f])(*args)
            ctrls = []
            for c in chain:
                if c[0] == "inv":
                    jp = jp.inverse()
                else:
                    jp = jp.control(len(c[1]), **({} if c[2] is None else {"ctrl_state": c[2]}))
                    ctrls = [self.qb(env, t) for t in c[1]] + ctrls
            jp.embedd(*ctrls, *jax.tree_util.tree_flatten(args)[0])
            return

        def nest(rest):
            if not rest:
                self.fns[f](*args)
            elif rest[0][0] == "inv":
                with q.invert():
                    nest(rest[1:])
            else:
                with q.control([self.qb(env, t) for t in rest[0][1]], **({} if rest[0][2] is None else {"ctrl_state": rest[0][2]})):
                    nest(rest[1:])

        nest(chain[::-1])

    def make(self, kind, size):
        q = self.q
        if kind == "qb":
            return q.QuantumBool()
        return q.QuantumVariable(size) if kind == "qv" else q.QuantumFloat(size)

    def main(self, *args, measure_out=False, outs=None):
        env = Env({n: a for (n, _), a in zip(self.p["args"], args)})
        for name, kind, size, hi in self.p["decl"]:
            env[name] = self.make(kind, ev(size, env))
        self.run(self.p["body"], env)
        return env

    def qb(self, env, q):
        return env[q[0]][ev(q[1], env)]

    def pack(self, env):
        return tuple(env.keys()), tuple(env.values())

    def run(self, S, env):
        q = self.q
        for s in S:
            k = s[0]
            if k == "g":
                _, name, par, qs, cs = s
                qb = [self.qb(env, t) for t in qs]
                if name in ("mcp", "mcz"):
                    kw = {} if cs is None else {"ctrl_state": cs}
                    q.mcp(par[0], qb, **kw) if name == "mcp" else q.mcz(qb, **kw)
                elif name == "mcx":
                    q.mcx(qb[:-1], qb[-1], **({} if cs is None else {"ctrl_state": cs}))
                elif par is not None:
                    a = par[0] if par[1] is None else par[0] * ev(par[1], env)
                    getattr(q, name)(a, *qb)
                else:
                    getattr(q, name)(*qb)
            elif k == "ge":
                _, name, ang, e, qs = s
                a = list(ang)
                if e is not None:
                    a[0] = a[0] * ev(e, env)
                getattr(q, name)(*a, *[self.qb(env, t) for t in qs])
            elif k == "addc":
                if s[2] > 0:
                    env[s[1]] += ev(s[3], env)
                else:
                    env[s[1]] -= ev(s[3], env)
            elif k == "api":
                self.api(s, env)
            elif k == "for":
                _, v, lo, n, step, body = s
                r = [ev(n, env)] if lo is None else [ev(lo, env), ev(n, env)]
                if step is not None:
                    r.append(step)
                for i in self.jrange(*r):
                    e2 = env.copy()
                    e2[v] = i
                    self.run(body, e2)
            elif k == "ctrl":
                qb = [self.qb(env, t) for t in s[1]]
                kw = {} if s[2] is None else {"ctrl_state": s[2]}
                with q.control(qb if len(qb) > 1 else qb[0], **kw):
                    self.run(s[3], env.copy())
            elif k == "cctrl":
                with q.control(ev(s[1], env)):
                    self.run(s[2], env.copy())
            elif k == "inv":
                with q.invert():
                    self.run(s[1], env.copy())
            elif k == "conj":
                names, vals = self.pack(env)
                regs = [i for i, n in enumerate(names) if isinstance(vals[i], q.QuantumVariable)]

                def outer(*rv):
                    e2 = env.copy()
                    for i, r in zip(regs, rv):
                        e2[names[i]] = r
                    self.run(s[1], e2)

                with q.conjugate(outer)(*[vals[i] for i in regs]):
                    self.run(s[2], env.copy())
            elif k == "call":
                self.fns[s[1]](*[env[r] for r in s[2]], *[ev(e, env) for e in s[3]])
            elif k == "anc":
                _, v, comp, body = s
                anc = q.QuantumBool()
                e2 = env.copy()
                e2[v] = anc
                self.run(comp, e2)
                self.run(body, e2)
                for t in comp[::-1]:
                    self.run([t], e2)
                anc.delete()
            elif k in ("cond", "switch"):
                names, vals = self.pack(env)

                def branch(body):
                    def f(*v):
                        e2 = Env(zip(names, v))
                        self.run(body, e2)
                        return tuple(e2[n] for n in names)

                    return f

                if k == "cond":
                    res = self.q_cond(ev(s[1], env), branch(s[2]), branch(s[3]), *vals)
                else:
                    res = self.q_switch(ev(s[1], env), [branch(b) for b in s[2]], *vals)
                env.update(zip(names, res))
            elif k == "fori":
                _, v, n, acc, init, body, upd = s
                env[acc] = ev(init, env)
                names, vals = self.pack(env)

                def fbody(i, val):
                    e2 = Env(zip(names, val))
                    e2[v] = i
                    self.run(body, e2)
                    e2[acc] = ev(upd, e2)
                    return tuple(e2[nm] for nm in names)

                env.update(zip(names, self.q_fori_loop(0, ev(n, env), fbody, vals)))
            elif k == "while":
                _, acc, init, lim, body, upd = s
                env[acc] = ev(init, env)
                names, vals = self.pack(env)
                ia = names.index(acc)
                limit = ev(lim, env)

                def wbody(val):
                    e2 = Env(zip(names, val))
                    self.run(body, e2)
                    e2[acc] = ev(upd, e2)
                    return tuple(e2[nm] for nm in names)

                env.update(zip(names, self.q_while_loop(lambda val: val[ia] < limit, wbody, vals)))
            elif k == "measq":
                m = q.measure(self.qb(env, s[2]))
                env[s[1]] = self.to_int(m)
            elif k == "measr":
                m = q.measure(env[s[2]][:])
                env[s[1]] = self.to_int(m)
            elif k == "let":
                env[s[1]] = ev(s[2], env)
            elif k == "reset":
                q.reset(env[s[1]])
            else:
                raise KeyError(k)

    def to_int(self, m):
        import jax.numpy as jnp

        return jnp.asarray(m, dtype=int)


# ---------------------------------------------------------------- reference interpreter
MATS = {"x": ref.X, "y": ref.Y, "z": ref.Z, "h": ref.H, "s": np.diag([1, 1j]), "s_dg": np.diag([1, -1j]), "t": np.diag([1, np.exp(1j * np.pi / 4)]), "t_dg": np.diag([1, np.exp(-1j * np.pi / 4)]), "sx": ref.SX}
PAR = {"rx": ref.rx_mat, "ry": ref.ry_mat, "rz": ref.rz_mat, "p": ref.p_mat}


class State:
    """dense state over an ordered list of qubit ids"""

    def __init__(self):
        self.ids, self.T = [], np.ones((), dtype=complex)

    def copy(self):
        s = State()
        s.ids, s.T = list(self.ids), self.T
        return s

    def alloc(self, i):
        self.ids.append(i)
        if len(self.ids) > 14:
            raise Skip("too many qubits")
        self.T = np.stack([self.T, np.zeros_like(self.T)], axis=-1)

    def free(self, i):
        a = self.ids.index(i)
        if np.abs(np.take(self.T, 1, axis=a)).max() > 1e-7:
            raise Skip("program deletes a qubit that is not in |0>")
        self.T = np.take(self.T, 0, axis=a)
        self.ids.pop(a)

    def apply(self, U, targets, ctrls):
        T = self.T.copy()
        sl = [slice(None)] * len(self.ids)
        for q, v in ctrls:
            sl[self.ids.index(q)] = slice(v, v + 1)
        sub = T[tuple(sl)]
        ax = [self.ids.index(t) for t in targets]
        k = len(ax)
        m = np.moveaxis(sub, ax, range(k))
        sh = m.shape
        m = (U @ m.reshape(2**k, -1)).reshape(sh)
        T[tuple(sl)] = np.moveaxis(m, range(k), ax)
        self.T = T


class Ref:
    def __init__(self, prog):
        self.p = prog
        self.n = 0

    def new(self, k):
        self.n += k
        return list(range(self.n - k, self.n))

    # unitary statements -> flat event list
    def flat(self, S, env):
        out = []
        for s in S:
            k = s[0]
            if k == "g":
                _, name, par, qs, cs = s
                q = [env[r][ev(e, env)] for r, e in qs]
                if len(set(q)) < len(q):
                    raise Skip("qubit used twice in a gate")
                if name in ("mcp", "mcz"):
                    bits = [1] * len(q) if cs is None else [int(c) for c in cs] if isinstance(cs, str) else [(cs >> i) & 1 for i in range(len(q))]
                    ph = np.exp(1j * par[0]) if par is not None else -1
                    out.append(("u", np.diag([1, ph] if bits[-1] else [ph, 1]).astype(complex), [q[-1]], list(zip(q[:-1], bits))))
                elif name == "mcx":
                    n = len(q) - 1
                    if cs is None:
                        bits = [1] * n
                    elif isinstance(cs, str):
                        bits = [int(c) for c in cs]
                    else:
                        bits = [(cs >> i) & 1 for i in range(n)]
                    out.append(("u", ref.X, [q[-1]], list(zip(q[:-1], bits))))
                elif name in ("cx", "cy", "cz"):
                    out.append(("u", MATS[name[1]], [q[1]], [(q[0], 1)]))
                elif name == "swap":
                    out.append(("u", ref.SWAP, q, []))
                elif par is not None:
                    a = par[0] if par[1] is None else par[0] * ev(par[1], env)
                    if name == "cp":
                        out.append(("u", ref.p_mat(a), [q[1]], [(q[0], 1)]))
                    else:
                        out.append(("u", PAR[name](a), q, []))
                else:
                    out.append(("u", MATS[name], q, []))
            elif k == "ge":
                _, name, ang, e, qs = s
                q = [env[r][ev(x, env)] for r, x in qs]
                if len(set(q)) < len(q):
                    raise Skip("qubit used twice in a gate")
                a = list(ang)
                if e is not None:
                    a[0] = a[0] * ev(e, env)
                m = {"u3": ref.u3, "rxx": ref.rxx_mat, "rzz": ref.rzz_mat, "gphase": lambda t: np.exp(1j * t) * np.eye(2)}[name](*a)
                out.append(("u", m, q, []))
            elif k == "addc":
                q = env[s[1]]
                n, kk = 2 ** len(q), s[2] * ev(s[3], env)
                m = np.zeros((n, n), dtype=complex)
                for x in range(n):
                    m[(x + kk) % n, x] = 1
                out.append(("u", m, q[::-1], []))
            elif k == "api":
                _, f, regs, ints, chain = s
                evs = self.flat([("call", f, regs, ints)], env)
                for c in chain:
                    if c[0] == "inv":
                        evs = self.inverse(evs)
                    else:
                        q = [env[r][ev(e, env)] for r, e in c[1]]
                        cs = c[2]
                        bits = [1] * len(q) if cs is None else [int(x) for x in cs] if isinstance(cs, str) else [(cs >> i) & 1 for i in range(len(q))]
                        evs = self.controlled(evs, list(zip(q, bits)))
                out += evs
            elif k == "for":
                _, v, lo, n, step, body = s
                for i in range(0 if lo is None else ev(lo, env), ev(n, env), step or 1):
                    e2 = env.copy()
                    e2[v] = i
                    out += self.flat(body, e2)
            elif k == "ctrl":
                q = [env[r][ev(e, env)] for r, e in s[1]]
                if len(set(q)) < len(q):
                    raise Skip("qubit used twice in a condition")
                cs = s[2]
                bits = [1] * len(q) if cs is None else [int(c) for c in cs] if isinstance(cs, str) else [(cs >> i) & 1 for i in range(len(q))]
                c = list(zip(q, bits))
                out += self.controlled(self.flat(s[3], env.copy()), c)
            elif k == "cctrl":
                if ev(s[1], env):
                    out += self.flat(s[2], env.copy())
            elif k == "inv":
                out += self.inverse(self.flat(s[1], env.copy()))
            elif k == "conj":
                a = self.flat(s[1], env.copy())
                out += a + self.flat(s[2], env.copy()) + self.inverse(a)
            elif k == "call":
                f = self.p["fn"][s[1]]
                e2 = Env({f"p{i}": env[r] for i, r in enumerate(s[2])})
                e2.update({f"n{i}": ev(e, env) for i, e in enumerate(s[3])})
                out += self.flat(f["body"], e2)
            elif k == "anc":
                _, v, comp, body = s
                q = self.new(1)
                e2 = env.copy()
                e2[v] = q
                c = self.flat(comp, e2)
                out += [("alloc", q[0])] + c + self.flat(body, e2) + c[::-1] + [("free", q[0])]
            else:
                raise KeyError(k)
        return out

    def inverse(self, evs):
        # ancillas: a body containing alloc .. free reverses into alloc .. free
        out = []
        for e in evs[::-1]:
            if e[0] == "u":
                out.append(("u", e[1].conj().T, e[2], e[3]))
            else:
                out.append(("free" if e[0] == "alloc" else "alloc", e[1]))
        return out

    def controlled(self, evs, c):
        cs = {q for q, _ in c}
        for e in evs:
            if e[0] == "u" and cs & (set(e[2]) | {q for q, _ in e[3]}):
                raise Skip("gate on a qubit of the condition")
        return [("u", e[1], e[2], e[3] + c) if e[0] == "u" else e for e in evs]

    def apply(self, st, evs):
        for e in evs:
            if e[0] == "u":
                st.apply(e[1], e[2], e[3])
            elif e[0] == "alloc":
                st.alloc(e[1])
            else:
                st.free(e[1])

    def main(self, args, init=None):
        """-> list of (unnormalised State, env)"""
        env = Env({n: a for (n, _), a in zip(self.p["args"], args)})
        st = State()
        for name, kind, size, hi in self.p["decl"]:
            env[name] = self.new(ev(size, env))
            for i in env[name]:
                st.alloc(i)
        return self.run(self.p["body"], [(st, env)])

    def run(self, S, br):
        for s in S:
            nb = []
            for st, env in br:
                nb += self.step(s, st, env)
            br = nb
            if len(br) > 256:
                raise Skip("too many branches")
        return br

    def step(self, s, st, env):
        k = s[0]
        if k == "cond":
            keep = list(env)
            r = self.run(s[2] if ev(s[1], env) else s[3], [(st, env.copy())])
            return [(t, self.only(e, keep)) for t, e in r]
        if k == "switch":
            keep = list(env)
            r = self.run(s[2][ev(s[1], env)], [(st, env.copy())])
            return [(t, self.only(e, keep)) for t, e in r]
        if k == "fori":
            _, v, n, acc, init, body, upd = s
            env = env.copy()
            env[acc] = ev(init, env)
            keep = list(env)
            br = [(st, env)]
            for i in range(ev(n, env)):
                nb = []
                for t, e in br:
                    e = e.copy()
                    e[v] = i
                    for t2, e2 in self.run(body, [(t, e)]):
                        e2[acc] = ev(upd, e2)
                        nb.append((t2, self.only(e2, keep)))
                br = nb
            return br
        if k == "while":
            _, acc, init, lim, body, upd = s
            env = env.copy()
            env[acc] = ev(init, env)
            keep = list(env)
            limit = ev(lim, env)
            done, br = [], [(st, env)]
            while br:
                nb = []
                for t, e in br:
                    if not e[acc] < limit:
                        done.append((t, e))
                        continue
                    for t2, e2 in self.run(body, [(t, e.copy())]):
                        e2[acc] = ev(upd, e2)
                        nb.append((t2, self.only(e2, keep)))
                br = nb
            return done
        if k in ("measq", "measr"):
            qs = [env[s[2][0]][ev(s[2][1], env)]] if k == "measq" else env[s[2]]
            out = []
            for v, t in self.split(st, qs):
                e = env.copy()
                e[s[1]] = v
                out.append((t, e))
            return out
        if k == "let":
            env = env.copy()
            env[s[1]] = ev(s[2], env)
            return [(st, env)]
        if k == "reset":
            out = []
            for v, t in self.split(st, env[s[1]]):
                for i, q in enumerate(env[s[1]]):
                    if v >> i & 1:
                        t.apply(ref.X, [q], [])
                out.append((t, env.copy()))
            return out
        st = st.copy()
        self.apply(st, self.flat([s], env))
        return [(st, env)]

    def only(self, e, keep):
        r = Env({k: e[k] for k in keep})
        return r

    def split(self, st, qs):
        out = []
        ax = [st.ids.index(q) for q in qs]
        for v in range(2 ** len(qs)):
            sl = [slice(None)] * len(st.ids)
            T = np.zeros_like(st.T)
            for i, a in enumerate(ax):
                b = v >> i & 1
                sl[a] = slice(b, b + 1)
            T[tuple(sl)] = st.T[tuple(sl)]
            if np.vdot(T, T).real > 1e-12:
                t = st.copy()
                t.T = T
                out.append((v, t))
        return out

    def amplitudes(self, st, regs):
        """{tuple of register values: amplitude} of a pure final state"""
        out = {}
        idx = np.argwhere(np.abs(st.T) > 1e-9)
        pos = [[st.ids.index(q) for q in r] for r in regs]
        for ix in idx:
            key = tuple(sum(int(ix[a]) << i for i, a in enumerate(p)) for p in pos)
            out[key] = out.get(key, 0) + st.T[tuple(ix)]
        return out

    def distribution(self, br, regs, cl):
        """{(register values, classical values): probability}"""
        out = {}
        for st, env in br:
            pos = [[st.ids.index(q) for q in env[r]] for r in regs]
            cv = tuple(int(env[c]) for c in cl)
            for ix in np.argwhere(np.abs(st.T) > 1e-9):
                key = tuple(sum(int(ix[a]) << i for i, a in enumerate(p)) for p in pos) + cv
                out[key] = out.get(key, 0) + abs(st.T[tuple(ix)]) ** 2
        return out
