PROPERTY = "C14"
RULE = (
    "one evaluation = one random program with classical control flow executed through one route (extracted circuit, simulator, classical-logic simulator, distribution, samples, mean values, without tracing) and compared with "
    "an independent interpreter of the same program; distinct = distinct (route, program, arguments)"
)
PLAN = {
    "quick": {"circuit": 150, "simulated": 110, "boolean": 60, "terminal": 70, "sampled": 40, "mean": 40, "untraced": 110},
    "thorough": {"circuit": 1500, "simulated": 1000, "boolean": 500, "terminal": 700, "sampled": 300, "mean": 300, "untraced": 1000},
}
REQUIRED_MONITORS = ["extracted_state", "simulated_outcome", "boolean_result", "terminal_distribution", "sampled_support", "mean_value", "untraced_state", "deterministic_outcome"]
ASSUMPTIONS = ["statistical comparisons use a threshold of about 7 standard deviations"]
CASE_TIMEOUT = 200
# --- end of plan ---
import math

import numpy as np

from vlib import qs as Q, jprog as J
from vlib.harness import Skip, Violation

import jax.numpy as jnp
import qrisp
from qrisp import QuantumVariable, QuantumFloat, QuantumBool, measure, Qubit
from qrisp.jasp import make_jaspr, jaspify, boolean_simulation, terminal_sampling, sample, expectation_value


def pick_args(py, prog):
    return [py.randrange(hi + 1) for _, hi in prog["args"]]


def regs_of(out):
    return [list(x) for x in out if isinstance(x, (list, tuple)) and x and isinstance(x[0], Qubit)]


def circuit(ctx):
    py = ctx.py
    g = J.Gen(py, max_q=6, switch=False)
    p = g.program(depth=3)
    a0, a1 = pick_args(py, p), pick_args(py, p)
    ctx.last = f"args {a1} traced with {a0}: {J.show(p)}"
    br = J.Ref(p).main(a1)
    st, env = br[0]
    lib = J.Lib(p)

    def main(*args):
        e = lib.main(*args)
        return tuple(e[r] for r in p["regs"])

    out = make_jaspr(main)(*a0).to_qc(*a1)
    qc = out[-1]
    regs = regs_of(out[:-1])
    sizes = [len(env[r]) for r in p["regs"]]
    ctx.require([len(r) for r in regs] == sizes, f"extracted registers have sizes {[len(r) for r in regs]}, expected {sizes}")
    want = J.Ref(p).amplitudes(st, [env[r] for r in p["regs"]])
    got = Q.amplitudes(qc, regs, what="extracted circuit")
    ctx.observe("extracted_state", (J.show(p), tuple(a1)), len(want) > 1 or True)
    d = Q.amp_diff(got, want, phase=True)
    ctx.close(d, 2e-5, "state of the extracted circuit differs from the program", got=str({k: np.round(v, 3) for k, v in list(got.items())[:6]}), want=str({k: np.round(v, 3) for k, v in list(want.items())[:6]}))


def untraced(ctx):
    py = ctx.py
    g = J.Gen(py, max_q=6)
    p = g.program(depth=3)
    a = pick_args(py, p)
    ctx.last = f"args {a}: {J.show(p)}"
    st, env = J.Ref(p).main(a)[0]
    lib = J.Lib(p)
    e = lib.main(*a)
    regs = [e[r] for r in p["regs"]]
    qrisp.merge(regs)
    want = J.Ref(p).amplitudes(st, [env[r] for r in p["regs"]])
    got = Q.amplitudes(regs[0].qs.copy(), regs, what="program")
    ctx.observe("untraced_state", (J.show(p), tuple(a)), True)
    ctx.close(Q.amp_diff(got, want, phase=True), 2e-5, "state without tracing differs from the program")


def outcome_main(lib, p):
    def main(*args):
        e = lib.main(*args)
        return tuple([measure(e[r][:]) for r in p["regs"]] + [e[c] for c in p["c"]])

    return main


def simulated(ctx):
    py = ctx.py
    g = J.Gen(py, meas=True, max_q=6, clifford=py.random() < 0.4)
    p = g.program(depth=3)
    lib = J.Lib(p)
    main = outcome_main(lib, p)
    for _ in range(2):
        a = pick_args(py, p)
        ctx.last = f"args {a}: {J.show(p)}"
        R = J.Ref(p)
        dist = R.distribution(R.main(a), p["regs"], p["c"])
        res = tuple(int(x) for x in jaspify(main)(*a))
        ctx.observe("simulated_outcome", (J.show(p), tuple(a)), True)
        if len(dist) == 1:
            ctx.observe("deterministic_outcome", (J.show(p), tuple(a)), True)
        ctx.require(dist.get(res, 0) > 1e-7, f"simulated outcome {res} is impossible", possible=str(list(dist.items())[:6]))


def boolean(ctx):
    py = ctx.py
    g = J.Gen(py, meas=True, classical=True, max_q=6)
    p = g.program(depth=3)
    lib = J.Lib(p)
    main = outcome_main(lib, p)
    f = boolean_simulation(main)
    for _ in range(2):
        a = pick_args(py, p)
        ctx.last = f"args {a}: {J.show(p)}"
        R = J.Ref(p)
        dist = R.distribution(R.main(a), p["regs"], p["c"])
        ctx.require(len(dist) == 1, "reference is not deterministic")
        res = tuple(int(x) for x in f(*a))
        ctx.observe("boolean_result", (J.show(p), tuple(a)), True)
        ctx.require(res in dist, f"classical simulation gives {res}, expected {list(dist)[0]}")
    res = tuple(int(x) for x in jaspify(main)(*a))
    ctx.observe("simulated_outcome", ("bool", J.show(p), tuple(a)), True)
    ctx.observe("deterministic_outcome", (J.show(p), tuple(a)), True)
    ctx.require(res in dist, f"simulation gives {res}, expected {list(dist)[0]}")


def decode(p, key):
    return key


def norm_key(k):
    if not isinstance(k, tuple):
        k = (k,)
    return tuple(int(round(float(x))) for x in k)


def terminal(ctx):
    py = ctx.py
    g = J.Gen(py, max_q=6, clifford=py.random() < 0.3)
    p = g.program(depth=3)
    a = pick_args(py, p)
    ctx.last = f"args {a}: {J.show(p)}"
    R = J.Ref(p)
    br = R.main(a)
    outs = py.sample(p["regs"], py.randint(1, len(p["regs"])))
    dist = R.distribution(br, outs, [])
    lib = J.Lib(p)

    def main(*args):
        e = lib.main(*args)
        r = tuple(e[x] for x in outs)
        return r if len(r) > 1 else r[0]

    if py.random() < 0.7:
        got = terminal_sampling(main)(*a)
        exact = True
    else:
        shots = py.choice([1, 50, 1000])
        got = terminal_sampling(main, shots=shots)(*a) if py.random() < 0.5 else sample(main, shots)(*a)
        exact = False
    ctx.observe("terminal_distribution", (J.show(p), tuple(a), tuple(outs)), len(dist) > 1)
    g2 = {}
    for k, v in got.items():
        g2[norm_key(k)] = g2.get(norm_key(k), 0) + float(v)
    if exact:
        for k in set(g2) | set(dist):
            ctx.close(abs(g2.get(k, 0) - dist.get(k, 0)), 2e-4, f"probability of {outs} = {k}: got {g2.get(k, 0):.5f}, expected {dist.get(k, 0):.5f}")
    else:
        stat(ctx, g2, dist, shots, f"sampled {outs}", normalised=abs(sum(g2.values()) - 1) < 1e-6 and shots != 1)


def stat(ctx, got, dist, shots, what, normalised=False):
    tot = sum(got.values())
    if not normalised:
        ctx.require(abs(tot - shots) < 1e-6 or abs(tot - 1) < 1e-6, f"{what}: counts add up to {tot}, expected {shots}")
    for k, v in got.items():
        f = v / tot
        pr = dist.get(k, 0)
        ctx.require(pr > 1e-7, f"{what}: impossible outcome {k}", possible=str(list(dist.items())[:6]))
        ctx.require(abs(f - pr) < 7 * math.sqrt(max(pr * (1 - pr), 0) / shots) + 8.0 / shots, f"{what}: outcome {k} has frequency {f:.4f} in {shots} shots, probability {pr:.4f}")
    for k, pr in dist.items():
        if k not in got:
            ctx.require(pr < 25.0 / shots, f"{what}: outcome {k} of probability {pr:.4f} never seen in {shots} shots")


def sampled(ctx):
    py = ctx.py
    g = J.Gen(py, meas=True, max_q=5, clifford=py.random() < 0.5, flow=py.random() < 0.5, reset=True)
    p = g.program(depth=2)
    a = pick_args(py, p)
    ctx.last = f"args {a}: {J.show(p)}"
    R = J.Ref(p)
    br = R.main(a)
    outs = py.sample(p["regs"], py.randint(1, len(p["regs"])))
    dist = R.distribution(br, outs, [])
    lib = J.Lib(p)
    shots = py.choice([30, 60, 120])
    post = py.random() < 0.4

    def inner(*args):
        e = lib.main(*args)
        r = tuple(e[x] for x in outs)
        return r if len(r) > 1 else r[0]

    def pp(*v):
        s = 0
        for i, t in enumerate(v):
            s = s * 8 + t
        return s

    @jaspify
    def main(*args):
        return sample(inner, shots, post_processor=pp if post else None)(*args)

    res = np.array(main(*a))
    ctx.observe("sampled_support", (J.show(p), tuple(a), tuple(outs)), len(dist) > 1)
    ctx.require(res.shape[0] == shots, f"{res.shape[0]} samples instead of {shots}")
    got = {}
    for row in res:
        k = norm_key(tuple(np.atleast_1d(row)))
        got[k] = got.get(k, 0) + 1
    if post:
        d2 = {}
        for k, v in dist.items():
            kk = (int(pp(*k)),)
            d2[kk] = d2.get(kk, 0) + v
        dist = d2
    stat(ctx, got, dist, shots, f"sampled {outs}{' with post processing' if post else ''}")


def mean(ctx):
    py = ctx.py
    g = J.Gen(py, max_q=5, meas=False)
    p = g.program(depth=2)
    a = pick_args(py, p)
    ctx.last = f"args {a}: {J.show(p)}"
    R = J.Ref(p)
    br = R.main(a)
    outs = py.sample(p["regs"], py.randint(1, len(p["regs"])))
    dist = R.distribution(br, outs, [])
    lib = J.Lib(p)
    post = py.random() < 0.5

    def inner(*args):
        e = lib.main(*args)
        r = tuple(e[x] for x in outs)
        return r if len(r) > 1 else r[0]

    def pp(*v):
        s = 1.0
        for i, t in enumerate(v):
            s = s * 2 + t * (i + 1)
        return s

    exact = py.random() < 0.7
    shots = 0 if exact else 200

    def main(*args):
        return expectation_value(inner, shots if not exact else py_shots, post_processor=pp if post else None)(*args)

    py_shots = 100000
    if exact:
        res = jaspify(main, terminal_sampling=True)(*a)
    else:
        res = jaspify(main)(*a)
    res = np.atleast_1d(np.array(res, dtype=float))
    cols = [[pp(*k) for k in dist]] if post else [[k[i] for k in dist] for i in range(len(outs))]
    pr = list(dist.values())
    ctx.observe("mean_value", (J.show(p), tuple(a), tuple(outs)), len(dist) > 1)
    ctx.require(len(res) == len(cols), f"{len(res)} mean values for {len(cols)} quantities")
    for r, c in zip(res, cols):
        mu = sum(x * q for x, q in zip(c, pr))
        sd = math.sqrt(max(sum(x * x * q for x, q in zip(c, pr)) - mu * mu, 0))
        n = py_shots if exact else shots
        ctx.require(abs(r - mu) < 7 * sd / math.sqrt(n) + (max(c) - min(c) + 1e-9) * 8.0 / n + 1e-6, f"mean value {r:.5f}, expected {mu:.5f} (standard deviation {sd:.3f}, {n} shots, terminal sampling {exact})")


FAMILIES = {f.__name__: f for f in (circuit, simulated, boolean, terminal, sampled, mean, untraced)}
