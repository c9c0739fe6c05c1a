PROPERTY = "C17"
RULE = (
    "one evaluation = one random program whose outcomes were obtained through one route (compiled executable, recorded measurement bits followed by the extracted classical part, repeat-until-success, samples with a user function) and compared "
    "with an independent interpreter of the same program; distinct = distinct (route, program, arguments)"
)
PLAN = {
    "quick": {"compiled": 50, "recorded": 90, "separated": 90, "repeated": 40, "plain": 50, "rewritten": 25, "captured": 60},
    "thorough": {"compiled": 450, "recorded": 900, "separated": 900, "repeated": 350, "plain": 500, "rewritten": 250, "captured": 600},
}
REQUIRED_MONITORS = ["compiled_outcome", "compiled_distribution", "record_values", "separated_distribution", "repeated_distribution", "repeated_condition", "plain_samples", "record_as_text", "captured_values"]
ASSUMPTIONS = ["statistical comparisons use a threshold of about 7 standard deviations"]
CASE_TIMEOUT = 200
# --- end of plan ---
import math

import numpy as np

from vlib import qs as Q, jprog as J
from vlib.harness import Skip, Violation

import jax
import jax.numpy as jnp
import qrisp
from qrisp import QuantumVariable, QuantumFloat, QuantumBool, measure, Qubit, reset
from qrisp.jasp import make_jaspr, jaspify, sample, RUS, terminal_sampling, q_while_loop, q_fori_loop, q_cond, jrange, qache, boolean_simulation
from qrisp.jasp import qjit as library_qjit


def qjit(f):
    g = library_qjit(f)

    def run(*a):
        try:
            return g(*a)
        except Exception as e:
            if type(e).__name__ == "CompileError" and "GradientLoweringStage" in str(e):
                # the compiler itself gives up on measurements below four or more nested functions
                raise Skip("outside of what the Catalyst compiler supports")
            raise

    return run


def pick_args(py, prog):
    return [py.randrange(hi + 1) for _, hi in prog["args"]]


def stat(ctx, got, dist, shots, what):
    tot = sum(got.values())
    ctx.require(abs(tot - shots) < 1e-6, f"{what}: {tot} outcomes for {shots} executions")
    for k, v in got.items():
        f = v / tot
        pr = dist.get(k, 0)
        ctx.require(pr > 1e-7, f"{what}: impossible outcome {k}", possible=str(list(dist.items())[:6]))
        ctx.require(abs(f - pr) < 7 * math.sqrt(max(pr * (1 - pr), 0) / shots) + 8.0 / shots, f"{what}: outcome {k} has frequency {f:.4f} in {shots} executions, probability {pr:.4f}")
    for k, pr in dist.items():
        if k not in got:
            ctx.require(pr < 25.0 / shots, f"{what}: outcome {k} of probability {pr:.4f} never seen in {shots} executions")


class Recorder(J.Ref):
    """keeps the measured bits, in the order of execution, beside every branch"""

    def step(self, s, st, env):
        if s[0] in ("measq", "measr"):
            n = 1 if s[0] == "measq" else len(env[s[2]])
            r = super().step(s, st, env)
            for t, e in r:
                t.rec = st.rec + [e[s[1]] >> i & 1 for i in range(n)]
            return r
        return super().step(s, st, env)


# the record travels with the state
class RState(J.State):
    rec = []

    def copy(self):
        s = RState()
        s.ids, s.T, s.rec = list(self.ids), self.T, list(self.rec)
        return s


def record_branches(p, a):
    R = Recorder(p)
    env = J.Env({n: x for (n, _), x in zip(p["args"], a)})
    st = RState()
    for name, kind, size, hi in p["decl"]:
        env[name] = R.new(J.ev(size, env))
        for i in env[name]:
            st.alloc(i)
    out = []
    for t, e in R.run(p["body"], [(st, env)]):
        regs = [e[r] for r in p["regs"]]
        flat = [q for r in regs for q in r]
        for v, t2 in R.split(t, flat):
            rec = t.rec + [v >> i & 1 for i in range(len(flat))]
            vals, o = [], 0
            for r in regs:
                vals.append(v >> o & (2 ** len(r) - 1))
                o += len(r)
            out.append((tuple(rec), tuple(vals) + tuple(int(e[c]) for c in p["c"]), np.vdot(t2.T, t2.T).real))
    return out


def outcome_main(lib, p):
    def main(*args):
        e = lib.main(*args)
        return tuple([measure(e[r][:]) for r in p["regs"]] + [e[c] for c in p["c"]])

    return main


def compiled(ctx):
    py = ctx.py
    style = py.randrange(3)
    g = J.Gen(py, meas=style > 0, max_q=6, clifford=style == 1 and py.random() < 0.5, classical=style == 2 and py.random() < 0.5, extra=py.random() < 0.4, api=py.random() < 0.3, intctrl=True, switch=False)  # more than two branches cannot be compiled, by documentation
    p = g.program(depth=3)
    f = None
    for _ in range(2):
        a = pick_args(py, p)
        ctx.last = f"args {a}: {J.show(p)}"
        R = J.Ref(p)
        dist = R.distribution(R.main(a), p["regs"], p["c"])
        if f is None:
            f = qjit(outcome_main(J.Lib(p), p))
        shots = 1 if len(dist) == 1 else 60
        got = {}
        for _ in range(shots):
            k = tuple(int(x) for x in f(*a))
            got[k] = got.get(k, 0) + 1
        ctx.observe("compiled_outcome", (J.show(p), tuple(a)), True)
        if shots > 1:
            ctx.observe("compiled_distribution", (J.show(p), tuple(a)), True)
        stat(ctx, got, dist, shots, f"compiled program with arguments {a}")


def rewritten(ctx):
    """the classical outcomes are right as well if the gates are inverted or controlled as a whole, when compiled"""
    py = ctx.py
    g = J.Gen(py, max_q=4, ancilla=py.random() < 0.5, switch=False)
    p = g.program(depth=2)
    a = pick_args(py, p)
    ctx.last = f"args {a}: {J.show(p)}"
    R = J.Ref(p)
    st, env = R.main(a)[0]
    lib = J.Lib(p)
    n = sum(len(env[r]) for r in p["regs"])
    T = R.amplitudes(st, [env[r] for r in p["regs"]])
    vec = np.zeros(2**n, dtype=complex)
    for k, v in T.items():
        i, o = 0, 0
        for r, x in zip(p["regs"], k):
            i |= x << o
            o += len(env[r])
        vec[i] += v

    # the prepared state is mapped back to |0> by an independently prepared state
    def main(*args):
        e = lib.main(*args)
        qv = QuantumVariable(n)
        o = 0
        for r in p["regs"]:
            for i in range(len(env[r])):
                qrisp.swap(e[r][i], qv[o])
                o += 1
        with qrisp.invert():
            qrisp.prepare(qv, vec)
        return measure(qv[:])

    f = qjit(main)
    for _ in range(3):
        m = int(f(*a))
        ctx.observe("compiled_outcome", ("state", J.show(p), tuple(a)), True)
        ctx.require(m == 0, "state prepared by the compiled program differs from the program", measured=m)


def recorded(ctx):
    py = ctx.py
    # (some multi-controlled gates measure ancillas themselves, these would be part of the record)
    g = J.Gen(py, meas=True, max_q=5, clifford=py.random() < 0.3)
    p = g.program(depth=3)
    a0, a = pick_args(py, p), pick_args(py, p)
    ctx.last = f"args {a} traced with {a0}: {J.show(p)}"
    br = record_branches(p, a)
    lib = J.Lib(p)
    jaspr = make_jaspr(outcome_main(lib, p))(*a0)
    f = jaspr.extract_post_processing(*a)
    fj = None
    if py.random() < 0.25:
        fj = jax.jit(f)
    py.shuffle(br)
    for rec, want, pr in br[:6]:
        pad = py.choice([0, 0, 3])  # unused bits at the end do not matter
        bits = list(rec) + [py.randrange(2) for _ in range(pad)]
        if py.random() < 0.5:
            res = f("".join("01"[b] for b in bits))
            ctx.observe("record_as_text", (J.show(p), tuple(a), rec), True)
        else:
            res = (fj or f)(jnp.array(bits, dtype=bool))
        res = tuple(int(x) for x in (res if isinstance(res, tuple) else (res,)))
        ctx.observe("record_values", (J.show(p), tuple(a), rec), len(rec) > 0)
        ctx.require(res == want, f"measured bits {rec} are processed to {res}, expected {want}", arguments=str(a))


# ------------------------------------------------------------------ circuit and classical part separately
def separated(ctx):
    py = ctx.py
    g = J.Gen(py, max_q=5, switch=False, funcs=py.random() < 0.5)
    p = g.program(depth=2)
    a0, a = pick_args(py, p), pick_args(py, p)
    lib = J.Lib(p)
    R = J.Ref(p)
    st, env = R.main(a)[0]
    st.rec = []
    regs = p["regs"]
    if any(len(env[r]) == 0 for r in regs):
        raise Skip("empty register")
    # measurements of registers, slices, fused registers and qubits, with gates in between
    steps = []
    kinds = {d[0]: d[1] for d in p["decl"]}
    qf = {}
    for r in regs:
        qf[r] = py.choice([0, 0, -1, -2, 1]) if kinds[r] == "qf" else 0
    for _ in range(py.randint(1, 4)):
        r = py.choice(regs)
        n = len(env[r])
        c = py.choice(["all", "slice", "qubit", "fuse", "var", "gate", "neg", "over"])
        if c == "slice":
            lo = py.randrange(n)
            steps.append((c, r, lo, py.randint(lo + 1, n)))
        elif c == "neg":
            steps.append((c, r, -py.randint(1, n), None))
        elif c == "over":
            steps.append((c, r, py.randrange(n), n + py.randint(1, 3)))
        elif c == "qubit":
            steps.append((c, r, py.randrange(-n, n), None))
        elif c == "fuse":
            r2 = py.choice(regs)
            if r2 == r:
                steps.append(("all", r, None, None))
            else:
                steps.append((c, r, r2, None))
        else:
            steps.append((c, r, py.randrange(n), py.choice(["h", "x", "s"])))
    if not any(s[0] != "gate" for s in steps):
        steps.append(("all", regs[0], None, None))
    vn = sum(1 for s in steps if s[0] != "gate")
    exprs = []
    for _ in range(py.randint(1, 3)):
        exprs.append((py.choice(["id", "sum", "gt", "mul", "where", "xor", "inc", "mod"]), py.randrange(vn), py.randrange(vn), py.randint(1, 5)))
    hide = py.random() < 0.5  # classical part inside jitted functions
    loop = py.random() < 0.3
    ctx.last = f"args {a} traced with {a0}: {J.show(p)} steps {steps} expressions {exprs} jitted {hide} loop {loop} {qf}"

    def one(e, v, np_):
        k, i, j, c = e
        x, y = v[i], v[j]
        if k == "id":
            return x
        if k == "sum":
            return x + y * c
        if k == "gt":
            return x > y
        if k == "mul":
            return x * y
        if k == "where":
            return np_.where(x > c, x, y + c)
        if k == "xor":
            return x != y
        if k == "inc":
            return x + c
        return (x * 3 + c) % 5

    def classical(*v):
        out = tuple(one(e, v, jnp) for e in exprs)
        if loop:
            out += (jax.lax.fori_loop(0, 4, lambda i, acc: acc * 2 + v[0], 1.0 * v[0]),)
            out += (jax.lax.cond(v[0] > 1, lambda t: t + 1, lambda t: t * 3, 1.0 * v[-1]),)
        return out

    def want_of(v):
        out = tuple(one(e, v, np) for e in exprs)
        if loop:
            acc = 1.0 * v[0]
            for _ in range(4):
                acc = acc * 2 + v[0]
            out += (acc, v[-1] + 1.0 if v[0] > 1 else v[-1] * 3.0)
        return tuple(round(float(x), 6) for x in out)

    cls = jax.jit(classical) if hide else classical

    def make(kind, size, name):
        if kind == "qf":
            return QuantumFloat(size, qf[name])
        return QuantumBool() if kind == "qb" else QuantumVariable(size)

    class L(J.Lib):
        def main(self, *args):
            env = J.Env({n: x for (n, _), x in zip(self.p["args"], args)})
            for name, kind, size, hi in self.p["decl"]:
                env[name] = make(kind, J.ev(size, env), name)
            self.run(self.p["body"], env)
            return env

    lib = L(p)

    def main(*args):
        e = lib.main(*args)
        v = []
        for c, r, x, y in steps:
            if c == "all":
                v.append(measure(e[r][:]))
            elif c == "var":
                v.append(measure(e[r]))
            elif c in ("slice", "over"):
                v.append(measure(e[r][x:y]))
            elif c == "neg":
                v.append(measure(e[r][x:]))
            elif c == "qubit":
                v.append(measure(e[r][x]))
            elif c == "fuse":
                v.append(measure(e[r].reg + e[x].reg))
            else:
                getattr(qrisp, y)(e[r][x])
        v = [1 * t for t in v]
        return cls(*v)

    br = [(st, (), ())]
    for c, r, x, y in steps:
        q = env[r]
        if c == "gate":
            for t, _, _ in br:
                t.apply(J.MATS[y], [q[x]], [])
            continue
        qs = {"all": q, "var": q, "slice": q[x:y] if c == "slice" else None, "over": q[x:y] if c == "over" else None, "neg": q[x:] if c == "neg" else None, "qubit": [q[x]] if c == "qubit" else None, "fuse": q + env[x] if c == "fuse" else None}[c]
        nb = []
        for t, rec, v in br:
            for m, t2 in R.split(t, qs):
                nb.append((t2, rec + tuple(m >> i & 1 for i in range(len(qs))), v + (m * 2.0 ** qf[r] if c == "var" else m,)))
        br = nb
        if len(br) > 300:
            raise Skip("too many branches")
    dist = {}
    for t, rec, v in br:
        k = want_of(v)
        dist[k] = dist.get(k, 0) + np.vdot(t.T, t.T).real
    jaspr = make_jaspr(main)(*a0)
    f = jaspr.extract_post_processing(*a)

    def norm(res):
        return tuple(round(float(x), 6) for x in (res if isinstance(res, tuple) else (res,)))

    sub = list(br)
    py.shuffle(sub)
    for t, rec, v in sub[:4]:
        res = norm(f("".join("01"[b] for b in rec)))
        ctx.observe("record_values", (J.show(p), tuple(a), rec), True)
        ctx.require(res == want_of(v), f"measured bits {rec} are processed to {res}, expected {want_of(v)}", arguments=str(a))
    if loop:
        return
    # the extracted circuit together with the extracted classical part
    qc = jaspr.to_qc(*a)[-1]
    got = {}
    cache = {}
    run = qc.run()
    if len(run) > 40:
        raise Skip("many outcomes")
    for s, pr in run.items():
        k = norm(f(s))
        got[k] = got.get(k, 0) + float(pr)
    ctx.observe("separated_distribution", (J.show(p), tuple(a)), len(dist) > 1)
    for k in set(got) | set(dist):
        ctx.close(abs(got.get(k, 0) - dist.get(k, 0)), 5e-4, f"probability of {k}: circuit and classical part give {got.get(k, 0):.5f}, expected {dist.get(k, 0):.5f}")


# ------------------------------------------------------------------ repeat until success
def repeated(ctx):
    py = ctx.py
    g = J.Gen(py, meas=py.random() < 0.4, max_q=4, flow=py.random() < 0.5, ancilla=False, extra=py.random() < 0.3, clifford=py.random() < 0.3, switch=False)
    p = g.program(depth=2)
    a = pick_args(py, p)
    ctx.last = f"args {a}: {J.show(p)}"
    R = J.Ref(p)
    br = R.main(a)
    flagreg = py.choice(p["regs"])
    c = py.randrange(3)
    keep = [r for r in p["regs"] if py.random() < 0.7] or [p["regs"][0]]
    thr = py.randint(0, 2)
    with_cl = py.random() < 0.5
    outs_cl = p["c"][len(p["args"]):][:2] if with_cl else []
    dist, tot = {}, 0.0
    for st, env in br:
        for v, t in R.split(st, env[flagreg]):
            ok = (v & 1) == 1 if c == 0 else v == thr if c == 1 else v <= thr
            if ok:
                for k, w in R.distribution([(t, env)], keep, outs_cl).items():
                    k = k[: len(keep)] + (v,) * with_cl + k[len(keep) :]
                    dist[k] = dist.get(k, 0) + w
                    tot += w
    if tot < 0.08:
        raise Skip("success is too unlikely")
    dist = {k: v / tot for k, v in dist.items()}
    lib = J.Lib(p)
    static = py.random() < 0.4
    named = py.random() < 0.5
    ctx.last += f" flag {flagreg} condition {c},{thr} returns {keep} classical {with_cl} static {static}"

    def trial(scale, *args):
        e = lib.main(*args)
        m = measure(e[flagreg][:])
        ok = (m & 1) == 1 if c == 0 else m == thr if c == 1 else m <= thr
        for r in p["regs"]:
            if r not in keep:
                reset(e[r])
                e[r].delete()
        res = tuple(e[r] for r in keep)
        if with_cl:
            res += (m * scale,) + tuple(e[x] * scale for x in outs_cl)
        return (ok,) + res

    if static:
        rus = RUS(trial, static_argnums=0) if not named else RUS(trial, static_argnames=["scale"])
    else:
        rus = RUS(trial)
    sc = 1 if static else py.choice([1, 2])

    def main(*args):
        res = rus(sc, *args)
        if not isinstance(res, tuple):
            res = (res,)
        return tuple(measure(x[:]) if i < len(keep) else x for i, x in enumerate(res))

    engine = py.choice(["simulated", "compiled"])
    f = jaspify(main) if engine == "simulated" else qjit(main)
    shots = 30 if engine == "compiled" else 12
    if len(dist) == 1:
        shots = 4
    got = {}
    for _ in range(shots):
        k = tuple(int(x) if i < len(keep) else int(x) // sc for i, x in enumerate(np.atleast_1d(f(*a)) if not isinstance(f, tuple) else ()))
        got[k] = got.get(k, 0) + 1
    ctx.observe("repeated_condition", (J.show(p), tuple(a)), tot < 0.95)
    ctx.observe("repeated_distribution", (J.show(p), tuple(a)), len(dist) > 1)
    stat(ctx, got, dist, shots, f"repeated until success ({engine})")


def plain(ctx):
    """samples drawn outside of a traced program"""
    py = ctx.py
    g = J.Gen(py, max_q=5, extra=py.random() < 0.3)
    p = g.program(depth=2)
    a = pick_args(py, p)
    R = J.Ref(p)
    br = R.main(a)
    outs = py.sample(p["regs"], py.randint(1, len(p["regs"])))
    dist = R.distribution(br, outs, [])
    lib = J.Lib(p)
    post = py.choice([None, "scalar", "scalar", "tuple"])
    shots = py.choice([20, 200, 1000])
    deco = py.random() < 0.4
    ctx.last = f"args {a}: {J.show(p)} returns {outs} post processing {post} shots {shots} decorator {deco}"

    def inner(*args):
        e = lib.main(*args)
        r = tuple(e[x] for x in outs)
        return r if len(r) > 1 else r[0]

    def scalar(*v):
        s = 0
        for t in v:
            s = s * 8 + t
        return s + 1

    def tup(*v):
        return (scalar(*v) % 3, v[0] + 1)

    pp = {None: None, "scalar": scalar, "tuple": tup}[post]
    kw = {} if pp is None else {"post_processor": pp}
    traced = py.random() < 0.3
    if traced:
        shots = py.choice([20, 40])

        term = py.random() < 0.5

        @jaspify(terminal_sampling=term)
        def main(*args):
            return sample(inner, shots, **kw)(*args)

        ctx.last += f" traced, terminal sampling {term}"
        res = np.array(main(*a))
        ctx.require(res.shape[0] == shots, f"{res.shape[0]} samples instead of {shots}")
        got = {}
        for row in res:
            k = tuple(int(round(float(x))) for x in np.atleast_1d(row))
            got[k] = got.get(k, 0) + 1
    else:
        f = sample(shots=shots, **kw)(inner) if deco else sample(inner, shots, **kw)
        res = f(*a)
        got = {}
        for k, v in res.items():
            k = tuple(int(round(float(x))) for x in (k if isinstance(k, tuple) else (k,)))
            got[k] = got.get(k, 0) + v
    if pp is not None:
        d2 = {}
        for k, v in dist.items():
            kk = pp(*k)
            kk = tuple(int(x) for x in (kk if isinstance(kk, tuple) else (kk,)))
            d2[kk] = d2.get(kk, 0) + v
        dist = d2
    ctx.observe("plain_samples", (J.show(p), tuple(a), tuple(outs), post, shots), len(dist) > 1)
    stat(ctx, got, dist, shots, f"samples of {outs}{' with ' + post + ' post processing' if post else ''}{' (traced)' if traced else ''}")


# ------------------------------------------------------------------ values captured from the surrounding function
def captured(ctx):
    """loops and branches whose bodies use registers and numbers of the surrounding function"""
    py = ctx.py
    nr = py.randint(1, 3)
    sizes = [py.randint(1, 4) for _ in range(nr)]
    vals = [py.randrange(2**n) for n in sizes]
    nargs = 3
    a = [py.randrange(4) for _ in range(nargs)]

    def small():
        """number: constant, argument, loop variable, register size"""
        return py.choice([("k", py.randrange(4)), ("a", py.randrange(nargs)), ("a", py.randrange(nargs)), ("v",), ("s", py.randrange(nr)), ("t", py.randrange(2))])

    def gate():
        q = []
        for _ in range(py.randint(1, 2)):
            r = py.randrange(nr)
            if r not in [x for x, _ in q]:
                q.append((r, small()))
        return ("g", q)

    def body(depth):
        out = []
        for _ in range(py.randint(1, 2)):
            k = py.choice(["g", "g", "while", "fori", "jrange", "cond", "cctrl", "qf"]) if depth else "g"
            if k == "g":
                out.append(gate())
            elif k in ("cond", "cctrl"):
                out.append((k, small(), py.randrange(3), body(depth - 1), body(depth - 1)))
            elif k == "qf":
                out.append((k, py.randrange(nr), small()))
            else:
                out.append((k, small(), py.randrange(2), body(depth - 1), py.choice(["arg", "size", "both"])))
        return out

    prog = body(2) + body(2)
    ctx.last = f"registers {sizes} values {vals} arguments {a}: {prog}"

    class Run:
        def __init__(self, lib, regs, args):
            self.lib, self.regs, self.args = lib, regs, args
            self.t = [args[0] + 1, args[1] * args[2] % 3]

        def num(self, e, v):
            if e[0] == "k":
                return e[1]
            if e[0] == "a":
                return self.args[e[1]]
            if e[0] == "v":
                return v
            if e[0] == "t":
                return self.t[e[1]]
            return self.regs[e[1]].size if self.lib else sizes[e[1]]

        def go(self, B, v):
            for s in B:
                getattr(self, ("l_" if self.lib else "r_") + s[0])(s, v)

        # library
        def l_g(self, s, v):
            qs = [self.regs[r][self.num(e, v) % sizes[r]] for r, e in s[1]]
            qrisp.x(qs[0]) if len(qs) == 1 else qrisp.mcx(qs[:-1], qs[-1])

        def l_while(self, s, v):
            n = self.num(s[1], v)

            def cond(x):
                return (x < n) & (x < self.args[0] + 3) if s[4] != "size" else (x < n)

            def bd(x):
                self.go(s[3], x)
                return x + 1

            q_while_loop(cond, bd, s[2] + 0 * n)

        def l_fori(self, s, v):
            n = self.num(s[1], v)

            def bd(i, x):
                self.go(s[3], i)
                return x + n

            q_fori_loop(s[2], n, bd, 0)

        def l_jrange(self, s, v):
            for i in jrange(s[2], self.num(s[1], v)):
                self.go(s[3], i)

        def l_cond(self, s, v):
            q_cond(self.num(s[1], v) > s[2], lambda: self.go(s[3], v), lambda: self.go(s[4], v))

        def l_cctrl(self, s, v):
            with qrisp.control(self.num(s[1], v) > s[2]):
                self.go(s[3], v)

        def l_qf(self, s, v):
            self.f(self.regs[s[1]], self.num(s[2], v) + 0 * self.args[0])

        # reference
        def r_g(self, s, v):
            q = [(r, self.num(e, v) % sizes[r]) for r, e in s[1]]
            if all(self.regs[r] >> i & 1 for r, i in q[:-1]):
                self.regs[q[-1][0]] ^= 1 << q[-1][1]

        def r_while(self, s, v):
            n = self.num(s[1], v)
            x = s[2]
            while x < n and (s[4] == "size" or x < self.args[0] + 3):
                self.go(s[3], x)
                x += 1

        def r_fori(self, s, v):
            for i in range(s[2], self.num(s[1], v)):
                self.go(s[3], i)

        r_jrange = r_fori

        def r_cond(self, s, v):
            self.go(s[3] if self.num(s[1], v) > s[2] else s[4], v)

        def r_cctrl(self, s, v):
            if self.num(s[1], v) > s[2]:
                self.go(s[3], v)

        def r_qf(self, s, v):
            n = sizes[s[1]]
            self.regs[s[1]] ^= 1 << self.num(s[2], v) % n

    ref = Run(False, list(vals), a)
    ref.go(prog, 0)

    def main(*args):
        regs = [QuantumFloat(n) for n in sizes]
        for r, v in zip(regs, vals):
            r[:] = v
        run = Run(True, regs, args)

        @qache
        def f(q, i):
            qrisp.x(q[i % q.size])

        run.f = f
        run.go(prog, 0)
        return tuple(measure(r) for r in regs)

    def check(eng, res):
        got = [int(x) for x in res]
        ctx.observe("captured_values", (eng, str(prog), tuple(a), tuple(vals), tuple(sizes)), True)
        ctx.require(got == ref.regs, f"{eng} program gives {got}, expected {ref.regs}")

    try:
        make_jaspr(main)(*a)
    except Exception as e:
        if "implicit variable import" in str(e):
            raise Skip("documented: branches may not import variables")
        raise
    check("simulated", jaspify(main)(*a))
    check("compiled", qjit(main)(*a))
    check("classically simulated", boolean_simulation(main)(*a))


FAMILIES = {f.__name__: f for f in (compiled, recorded, separated, repeated, plain, rewritten, captured)}
