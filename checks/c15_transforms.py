PROPERTY = "C15"
RULE = (
    "one evaluation = one random program with nested inversion, control (environments and explicit transformations), cached calls, custom controlled/inverted functions and loops, "
    "compared as an exact state with an independent interpreter; distinct = distinct (route, program, arguments)"
)
PLAN = {
    "quick": {"nested": 170, "explicit": 150, "custom": 150, "untraced": 110, "roundtrip": 60, "multi": 120, "towers": 130},
    "thorough": {"nested": 1500, "explicit": 1500, "custom": 1500, "untraced": 1000, "roundtrip": 600, "multi": 1000, "towers": 1200},
}
REQUIRED_MONITORS = ["nested_state", "explicit_state", "custom_state", "untraced_state", "roundtrip_identity", "multi_controlled_state", "tower_state"]
ASSUMPTIONS = []
CASE_TIMEOUT = 200
# --- end of plan ---
import numpy as np

from vlib import qs as Q, jprog as J
from vlib.harness import Skip, Violation

from qrisp import Qubit, h, ry, rz, cx, invert, QuantumVariable
from qrisp.jasp import make_jaspr


def pick_args(py, prog):
    return [py.randrange(hi + 1) for _, hi in prog["args"]]


def regs_of(out):
    return [list(x) for x in out if isinstance(x, (list, tuple)) and x and isinstance(x[0], Qubit)]


def prep(py, p):
    """gates that give every register a generic state, placed before the program"""
    out = []
    for name, kind, size, hi in p["decl"]:
        for i in range(hi):
            ix = ("%", ("k", i), ("sz", name))
            out.append(("g", "ry", (round(py.uniform(-3, 3), 3), None), [(name, ix)], None))
            if py.random() < 0.5:
                out.append(("g", "p", (round(py.uniform(-3, 3), 3), None), [(name, ix)], None))
    return out


def judge(ctx, p, a1, qc, regs, monitor):
    st, env = J.Ref(p).main(a1)[0]
    sizes = [len(env[r]) for r in p["regs"]]
    ctx.require([len(list(r)) for r in regs] == sizes, f"registers have sizes {[len(r) for r in regs]}, expected {sizes}")
    want = J.Ref(p).amplitudes(st, [env[r] for r in p["regs"]])
    got = Q.amplitudes(qc, regs, what="circuit of the program")
    ctx.observe(monitor, (J.show(p), tuple(a1)), True)
    d = Q.amp_diff(got, want, phase=True)
    ctx.close(d, 2e-5, "state differs from the program", got=str({k: np.round(v, 3) for k, v in list(got.items())[:6]}), want=str({k: np.round(v, 3) for k, v in list(want.items())[:6]}))


def traced(ctx, monitor, **kw):
    py = ctx.py
    g = J.Gen(py, max_q=6, switch=False, extra=True, intctrl=True, **kw)
    p = g.program(depth=py.choice([3, 3, 4]), n=py.randint(1, 4))
    p["body"] = prep(py, p) + p["body"]
    a0, a1 = pick_args(py, p), pick_args(py, p)
    ctx.last = f"args {a1} traced with {a0}: {J.show(p)}"
    J.Ref(p).main(a1)
    lib = J.Lib(p)

    def main(*args):
        e = lib.main(*args)
        return tuple(e[r] for r in p["regs"])

    out = make_jaspr(main)(*a0).to_qc(*a1)
    judge(ctx, p, a1, out[-1], regs_of(out[:-1]), monitor)


def nested(ctx):
    traced(ctx, "nested_state", flow=ctx.py.random() < 0.7)


def explicit(ctx):
    traced(ctx, "explicit_state", api=True)


def custom(ctx):
    traced(ctx, "custom_state", api=ctx.py.random() < 0.5, custom=True)


def untraced(ctx):
    py = ctx.py
    g = J.Gen(py, max_q=6, switch=False, extra=True, intctrl=True, api=True, custom=py.random() < 0.7)
    p = g.program(depth=3, n=py.randint(1, 4))
    p["body"] = prep(py, p) + p["body"]
    a1 = pick_args(py, p)
    ctx.last = f"args {a1} untraced: {J.show(p)}"
    J.Ref(p).main(a1)
    lib = J.Lib(p)
    env = lib.main(*a1)
    from qrisp import merge

    regs = [env[r] for r in p["regs"]]
    merge(regs)
    qs = regs[0].qs
    qc = qs.copy()
    judge(ctx, p, a1, qc, regs, "untraced_state")


def roundtrip(ctx):
    """a traced function followed by its inverse, and inverse of inverse"""
    py = ctx.py
    g = J.Gen(py, max_q=6, switch=False, extra=True, intctrl=True, api=True, custom=py.random() < 0.5)
    p = g.program(depth=3, n=py.randint(1, 3))
    unit = [s for s in p["body"] if s[0] not in ("cond", "fori", "while", "switch", "let")]
    used = set(map(str, range(0)))
    p["c"] = [a for a, _ in p["args"]]
    txt = str([s for s in p["body"] if s[0] in ("fori", "while")])
    if "'c" in str(unit) and any(f"'{s[3] if s[0] == 'fori' else s[1]}'" in str(unit) for s in p["body"] if s[0] in ("fori", "while")):
        raise Skip("statement depends on a dropped loop")
    p["body"] = unit
    a0, a1 = pick_args(py, p), pick_args(py, p)
    ctx.last = f"args {a1} traced with {a0}: {J.show(p)}"
    pre = prep(py, p)
    mode = py.choice(["f finv", "finv f", "f = finvinv"])
    lib = J.Lib(p)
    J.Ref(dict(p, body=pre + unit)).main(a1)

    def main(*args):
        env = J.Env({n: a for (n, _), a in zip(p["args"], args)})
        for name, kind, size, hi in p["decl"]:
            env[name] = lib.make(kind, J.ev(size, env))
        lib.run(pre, env)

        names = list(env)

        def f(*vals):
            lib.run(unit, J.Env(zip(names, vals)))

        import jax

        vals = [env[n] for n in names]
        jp = make_jaspr(f)(*vals)
        flat = jax.tree_util.tree_flatten(vals)[0]
        seq = {"f finv": [jp, jp.inverse()], "finv f": [jp.inverse(), jp], "f = finvinv": [jp.inverse().inverse()]}[mode]
        for j in seq:
            j.embedd(*flat)
        return tuple(env[r] for r in p["regs"])

    out = make_jaspr(main)(*a0).to_qc(*a1)
    q = dict(p, body=pre + (unit if mode == "f = finvinv" else []))
    judge(ctx, q, a1, out[-1], regs_of(out[:-1]), "roundtrip_identity")


def multi(ctx):
    """multi-controlled gates of every method in traced programs, control given as list, register or slice"""
    import qrisp

    py = ctx.py
    gate = py.choice(["mcx", "mcx", "mcp", "mcz"])
    n = py.randint(1, 5)
    how = py.choice(["list", "list", "variable", "slice"])
    kinds = {"mcx": ["auto", "gray", "balauca", "khattar"], "mcp": ["auto", "balauca", "khattar"], "mcz": ["auto", "balauca"]}[gate]
    if gate == "mcx" and how == "list":
        kinds = kinds + ["gray_pt", "gidney"] if n == 2 else kinds
    method = py.choice(kinds)
    cs = py.choice([None, "s", "i"])
    if cs is not None:
        cs = "".join(py.choice("01") for _ in range(n))
        if py.random() < 0.5:
            cs = int(cs[::-1], 2)
    kw = {} if method == "auto" and py.random() < 0.5 else {"method": method}
    if cs is not None:
        kw["ctrl_state"] = cs
    env = py.choice([None, None, "invert", "control", "both", "loop"])
    phi = round(py.uniform(-3, 3), 3)
    ctx.last = f"{gate} with {n} controls as {how} {kw} in environment {env}"
    clean_target = method == "gidney"
    undo = method in ("gray_pt", "gidney")
    if undo and env in ("both", "loop"):
        env = None
    a = [round(py.uniform(-3, 3), 3) for _ in range(n + 2)]

    def apply(c, t):
        if gate == "mcx":
            qrisp.mcx(c, t, **kw)
        elif gate == "mcp":
            qrisp.mcp(phi, c, **kw)
        else:
            qrisp.mcz(c, **kw)

    def main(k):
        c, t, e = QuantumVariable(k + 1), QuantumVariable(1), QuantumVariable(1)
        for i in range(n):
            ry(a[i], c[i])
            rz(a[i], c[i])
        if not clean_target:
            ry(a[n], t[0])
        ry(a[n + 1], e[0])
        qs = [c[i] for i in range(n)] if how == "list" else c[0:k] if how == "slice" else c
        if how == "variable":
            c2 = QuantumVariable(k)
            for i in range(n):
                qrisp.swap(c[i], c2[i])
            qs = c2
        if env is None:
            apply(qs, t[0])
            if undo:
                qrisp.z(t[0])
                with invert():
                    apply(qs, t[0])
        elif env == "invert":
            with invert():
                apply(qs, t[0])
                if undo:
                    qrisp.z(t[0])
                    qrisp.mcx(qs, t[0], **dict(kw, method=method + "_inv"))
        elif env == "control":
            with qrisp.control(e[0]):
                apply(qs, t[0])
                if undo:
                    qrisp.z(t[0])
                    with invert():
                        apply(qs, t[0])
        elif env == "both":
            with qrisp.control(e[0], ctrl_state="0"):
                with invert():
                    apply(qs, t[0])
        else:
            from qrisp.jasp import jrange

            for _ in jrange(k - k + 3):
                apply(qs, t[0])
        if how == "variable":
            for i in range(n):
                qrisp.swap(c[i], c2[i])
            c2.delete()
        return c, t, e

    out = make_jaspr(main)(n).to_qc(n)
    qc, regs = out[-1], regs_of(out[:-1])
    ctrl = [1] * n if cs is None else [int(x) for x in cs] if isinstance(cs, str) else [(cs >> i) & 1 for i in range(n)]
    st = J.State()
    for i in range(n + 3):
        st.alloc(i)
    from vlib import ref

    for i in range(n):
        st.apply(ref.ry_mat(a[i]), [i], [])
        st.apply(ref.rz_mat(a[i]), [i], [])
    T, E = n + 1, n + 2
    if not clean_target:
        st.apply(ref.ry_mat(a[n]), [T], [])
    st.apply(ref.ry_mat(a[n + 1]), [E], [])
    conds = list(zip(range(n), ctrl)) + ([(E, 1)] if env == "control" else [(E, 0)] if env == "both" else [])
    sign = -1 if env in ("invert", "both") else 1
    reps = 3 if env == "loop" else 1
    for _ in range(reps):
        if gate == "mcx":
            st.apply(ref.X, [T], conds)
            if undo:
                st.apply(ref.Z, [T], [(E, 1)] if env == "control" else [])
                st.apply(ref.X, [T], conds)
        else:
            ph = np.exp(1j * sign * phi) if gate == "mcp" else -1
            st.apply(ph * np.eye(2), [T], conds)
    want = J.Ref(None).amplitudes(st, [list(range(n + 1)), [T], [E]])
    got = Q.amplitudes(qc, regs, what="multi-controlled gate")
    ctx.observe("multi_controlled_state", (gate, n, how, str(kw), env), True)
    ctx.close(Q.amp_diff(got, want, phase=True), 2e-5, f"traced {gate} ({method}, controls as {how}) is not the multi-controlled gate")


def towers(ctx):
    """several levels of control with their own states around functions, loops and gates, by environments and by explicit requests"""
    py = ctx.py
    nc = py.randint(2, 4)
    decl = [("c", "qv", ("k", nc), nc), ("t", "qv", ("k", 2), 2)]

    def gates(reg, k):
        out = []
        for _ in range(k):
            name = py.choice(["x", "h", "ry", "p", "cx", "rz", "s", "z"])
            if name == "cx":
                a = py.randrange(2)
                out.append(("g", "cx", None, [(reg, ("k", a)), (reg, ("k", 1 - a))], None))
            else:
                par = (round(py.uniform(-3, 3), 3), None) if name in ("ry", "p", "rz") else None
                out.append(("g", name, par, [(reg, ("k", py.randrange(2)))], None))
        return out

    fns = [{"regs": [(2, None, None)], "nc": 0, "body": gates("p0", py.randint(1, 3)), "qache": py.random() < 0.7}]
    if py.random() < 0.5:
        fns.append({"regs": [(2, None, None)], "nc": 0, "body": gates("p0", 1) + [("call", 0, ["p0"], [])] + gates("p0", py.randint(0, 1)), "qache": py.random() < 0.7})
    free = list(range(nc))
    py.shuffle(free)

    def level():
        k = min(len(free), py.choice([1, 1, 2]))
        qs = [("c", ("k", free.pop())) for _ in range(k)]
        return qs, py.choice([None, "".join(py.choice("01") for _ in range(k)), "".join(py.choice("01") for _ in range(k))])

    style = py.choice(["environments", "environments", "explicit", "mixed"])
    f = len(fns) - 1
    if style == "environments":
        body = [("call", f, ["t"], [])] if py.random() < 0.75 else gates("t", py.randint(1, 3))
    else:
        chain = []
        keep = 1 if style == "mixed" else 0
        while len(free) > keep and (len(chain) < 2 or py.random() < 0.6):
            if py.random() < 0.3:
                chain.append(("inv",))
            else:
                chain.append(("ctrl", *level()))
        body = [("api", f, ["t"], [], chain)]
    while free and (style != "explicit") and (len(free) == nc or py.random() < 0.85):
        w = py.random()
        if w < 0.2:
            body = [("inv", body)]
        elif w < 0.3:
            body = [("for", "i9", None, ("k", py.randint(1, 2)), None, body)]
        elif w < 0.4:
            body = body + gates("t", 1)
        else:
            body = [("ctrl", *level(), body)]
    p = {"args": [], "decl": decl, "fn": fns, "body": body, "c": [], "regs": ["c", "t"]}
    p["body"] = prep(py, p) + p["body"]
    ctx.last = J.show(p)
    J.Ref(p).main([])
    lib = J.Lib(p)

    def main():
        e = lib.main()
        return tuple(e[r] for r in p["regs"])

    if py.random() < 0.75:
        out = make_jaspr(main)().to_qc()
        judge(ctx, p, [], out[-1], regs_of(out[:-1]), "tower_state")
    else:
        from qrisp import merge

        regs = main()
        merge(regs)
        judge(ctx, p, [], regs[0].qs.copy(), regs, "tower_state")


FAMILIES = {"multi": multi, "towers": towers, "nested": nested, "explicit": explicit, "custom": custom, "untraced": untraced, "roundtrip": roundtrip}
