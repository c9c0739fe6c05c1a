PROPERTY = "C22"
RULE = "one evaluation = one history of submissions, reads, further operations, faults and dispatches on a backend, checked step by step against a model of what every handle must show; distinct = distinct (backend, history)"
PLAN = {
    "quick": {"batched": 110, "frozen": 120, "faults": 200, "jobs": 80, "scripted": 260, "qiskit": 40, "options": 60, "lazy": 80, "virtual": 40},
    "thorough": {"batched": 1000, "frozen": 1200, "faults": 2000, "jobs": 800, "scripted": 2500, "qiskit": 300, "options": 500, "lazy": 800, "virtual": 300},
}
REQUIRED_MONITORS = ["batched", "frozen", "faults", "jobs", "scripted", "qiskit", "options", "lazy", "virtual"]
ASSUMPTIONS = [
    "remote services are replaced by scripted stand-ins that go through every documented status sequence",
    "sampled counts are judged within six standard deviations",
    "batched backends are used from one thread, as documented",
]
CASE_TIMEOUT = 200
# --- end of plan ---
import itertools
import math
import warnings

import numpy as np

from vlib import dense as D
from vlib import gen as G
from vlib import qs as Q
from vlib.harness import Skip

import qrisp
from qrisp import QuantumArray, QuantumBool, QuantumChar, QuantumCircuit, QuantumFloat, QuantumString, QuantumVariable, cx, h, multi_measurement, ry, x
from qrisp.interface import Backend
from qrisp.interface.batched_backend import BatchedBackend
from qrisp.interface.job import Job, JobCancelledError, JobFailureError, JobResult, JobStatus
from qrisp.interface.measurement_result import DecodedMeasurementResult, MeasurementResult
from qrisp.interface.simulators.qrisp_simulator_backend import QrispSimulatorBackend
from qrisp.interface.simulators.stim_backend import StimBackend
from qrisp.interface.virtual_backend import VirtualBackend

TOL = 2e-4


def same(got, ref, tol=TOL):
    got, ref = dict(got), dict(ref)
    keys = set(got) | set(ref)
    return all(abs(got.get(k, 0) - ref.get(k, 0)) < tol for k in keys)


# --- typed variables with known distributions ----------------------------------------


class Var:
    """a variable holding a product of single qubit rotations, with the value of every raw pattern computed here"""

    def __init__(self, py):
        kind = py.choice(["float", "signed", "bool", "char", "var", "array", "exp", "string"])
        self.kind = kind
        if kind == "float":
            self.v = QuantumFloat(py.randint(1, 3))
            self.value = lambda r: r
        elif kind == "signed":
            n, e = py.randint(1, 3), py.randint(-2, 1)
            self.v = QuantumFloat(n, e, signed=True)
            self.value = lambda r: (r - 2 ** (n + 1) if r >> n & 1 else r) * 2.0**e
        elif kind == "exp":
            n, e = py.randint(1, 3), py.randint(-2, 2)
            self.v = QuantumFloat(n, e)
            self.value = lambda r: r * 2.0**e
        elif kind == "bool":
            self.v = QuantumBool()
            self.value = lambda r: bool(r)
        elif kind == "char":
            self.v = QuantumChar()
            table = [self.v.decoder(i) for i in range(32)]
            self.value = lambda r: table[r]
        elif kind == "var":
            n = py.randint(1, 3)
            self.v = QuantumVariable(n)
            self.value = lambda r: format(r, f"0{n}b")[::-1]
        elif kind == "string":
            m = py.randint(1, 2)
            self.v = QuantumString(m)
            table = [self.v[0].decoder(i) for i in range(32)]
            self.value = lambda r: "".join(table[(r >> (5 * i)) & 31] for i in range(m))
        else:
            m, n = py.randint(1, 2), py.randint(1, 2)
            self.v = QuantumArray(qtype=QuantumFloat(n), shape=(m,))
            self.value = lambda r: tuple((r >> (i * n)) & (2**n - 1) for i in range(m))
        self.qubits = sum([list(a) for a in self.v.flatten()], []) if kind in ("array", "string") else list(self.v)
        self.state = {0: 1.0 + 0j}

    def rotate(self, py):
        i = py.randrange(len(self.qubits))
        if py.random() < 0.5:
            x(self.qubits[i])
            self.state = {r ^ (1 << i): a for r, a in self.state.items()}
        else:
            t = round(py.uniform(0.3, 2.8), 3)
            ry(t, self.qubits[i])
            out = {}
            for r, a in self.state.items():
                b = r >> i & 1
                c, s = math.cos(t / 2), math.sin(t / 2)
                out[r] = out.get(r, 0) + c * a
                out[r ^ (1 << i)] = out.get(r ^ (1 << i), 0) + (s if b == 0 else -s) * a
            self.state = out

    def distribution(self):
        out = {}
        for r, a in self.state.items():
            k = self.value(r)
            out[k] = out.get(k, 0) + abs(a) ** 2
        return {k: p for k, p in out.items() if p > 1e-9}

    def read(self, res):
        d = {}
        for k, p in dict(res).items():
            k = tuple(int(a) for a in np.array(k).flatten()) if self.kind == "array" else k
            d[k] = d.get(k, 0) + p
        return d


def alter(py, var):
    """operations applied after a measurement was requested; the requested result must not notice"""
    v = var.v
    op = py.choice(["rotate", "rotate", "shift", "extend", "sign", "delete"])
    if op == "shift" and var.kind in ("float", "signed", "exp"):
        k = py.choice([1, -1, 2])
        v.exp_shift(k)
        return f"exp_shift {k}"
    if op == "extend" and var.kind in ("float", "signed", "exp", "var"):
        v.extend(1, py.choice([0, v.size]) if var.kind == "var" else v.size)
        return "extend"
    if op == "sign" and var.kind in ("float", "exp"):
        v.add_sign()
        return "add_sign"
    if op == "delete" and var.kind not in ("array", "string"):
        v.delete()
        return "delete"
    return None


def case_frozen(ctx):
    """results belong to the moment at which they were requested"""
    py = ctx.py
    var = Var(py)
    for _ in range(py.randint(1, 4)):
        var.rotate(py)
    ref = var.distribution()
    batched = py.random() < 0.5
    back = QrispSimulatorBackend()
    bb = back.batched()
    ctx.last = dict(kind=var.kind, batched=batched)
    res = var.v.get_measurement(backend=bb if batched else back)
    early = py.random() < 0.3
    log = []
    if early:
        if batched:
            bb.dispatch()
        if py.random() < 0.5:
            dict(res)
            log.append("read")
    for _ in range(py.randint(1, 3)):
        what = alter(py, var)
        if what is None:
            var.rotate(py)
            what = "rotate"
        log.append(what)
        if what in ("delete", "extend", "add_sign"):
            break
    ctx.last["log"] = log
    if batched and not early:
        bb.dispatch()
    got = var.read(res)
    ctx.require(same(got, ref), "a requested result changed with operations applied afterwards", detail=dict(got=str(got), expected=str(ref)))
    ctx.observe("frozen", key=str(ctx.last) + str(ref))


def case_batched(ctx):
    py = ctx.py
    back = QrispSimulatorBackend()
    bb = back.batched()
    variables = []
    pending, done = [], []
    log = []
    multi = []
    for _ in range(py.randint(4, 14)):
        act = py.choice(["new", "rotate", "measure", "measure", "dispatch", "peek", "clear", "multi", "shots"])
        if act == "new" or not variables:
            variables.append(Var(py))
            log.append(f"new {variables[-1].kind}")
            continue
        i = py.randrange(len(variables))
        var = variables[i]
        log.append(f"{act} {i}")
        if act == "rotate":
            var.rotate(py)
        elif act == "measure":
            r = var.v.get_measurement(backend=bb)
            pending.append((var, r, var.distribution(), TOL))
            ctx.last = dict(log=list(log))
        elif act == "shots":
            s = py.choice([200, 1000])
            r = var.v.get_measurement(backend=bb, shots=s)
            pending.append((var, r, var.distribution(), 6 * 0.5 / math.sqrt(s) + 1e-3))
        elif act == "multi" and len(variables) > 1:
            j = py.choice([k for k in range(len(variables)) if k != i])
            other = variables[j]
            ctx.last = dict(log=list(log))
            r = multi_measurement([var.v, other.v], backend=bb)
            dist = {(a, b): p * q for a, p in var.distribution().items() for b, q in other.distribution().items()}
            multi.append((var, other, r, dist))
        elif act == "dispatch":
            bb.dispatch()
            done += pending
            pending = []
            for a, b, r, dist in multi:
                got = {}
                for (k, l), p in dict(r).items():
                    k = tuple(int(t) for t in np.array(k).flatten()) if a.kind == "array" else k
                    l = tuple(int(t) for t in np.array(l).flatten()) if b.kind == "array" else l
                    got[(k, l)] = got.get((k, l), 0) + p
                ctx.require(same(got, dist), "a joint result of a batch differs from the state at the time of the request", detail=dict(got=str(got)[:300], expected=str(dist)[:300]))
            multi = []
        elif act == "peek" and pending:
            _, r, _, _ = py.choice(pending)
            try:
                dict(r)
                ctx.require(False, "a pending result could be read before dispatch")
            except RuntimeError:
                pass
        elif act == "clear" and py.random() < 0.3:
            bb.clear()
            pending, multi = [], []
        ctx.last = dict(log=list(log))
        ctx.require(bb.pending_count == len(pending) + len(multi), "the number of pending circuits is wrong", detail=dict(got=bb.pending_count, expected=len(pending) + len(multi)))
        for v, r, ref, tol in done:
            ctx.require(same(v.read(r), ref, tol), "a batched result differs from the state at the time of the request", detail=dict(got=str(v.read(r))[:300], expected=str(ref)[:300]))
    if not done:
        raise Skip("nothing dispatched")
    ctx.observe("batched", key=str(log))


# --- scripted backends -----------------------------------------------------------------


class ScriptJob(Job):
    def __init__(self, backend, circuits, shots, plan):
        super().__init__(backend)
        self.circuits, self.shots, self.plan = circuits, shots, plan

    def result(self, timeout=None):
        self.timeout = timeout
        if self.plan == "result-error":
            raise JobFailureError("scripted failure")
        if self.plan == "timeout":
            raise TimeoutError("scripted timeout")
        if self.plan == "odd-error":
            raise KeyError("scripted odd error")
        n = len(self.circuits)
        counts = [dict(c.tagged, shots=self.shots[i] if isinstance(self.shots, list) else self.shots) for i, c in enumerate(self.circuits)]
        if self.plan == "short":
            counts = counts[:-1] or [{"lost": 1}, {"lost": 1}]
        if self.plan == "long":
            counts = counts + [{"extra": 1}]
        return JobResult(counts)

    def cancel(self):
        return False

    def status(self):
        return JobStatus.DONE


class ScriptBackend(Backend):
    def __init__(self, plans, limit, options=None):
        super().__init__(name="script", options=options)
        self.plans, self.limit, self.calls = list(plans), limit, []

    @property
    def max_circuits(self):
        return self.limit

    def run_async(self, circuits, shots=None):
        self.calls.append((list(circuits) if not isinstance(circuits, QuantumCircuit) else [circuits], shots))
        plan = self.plans.pop(0) if self.plans else "ok"
        if plan == "submit-error":
            raise ValueError("scripted submission failure")
        cs = [circuits] if isinstance(circuits, QuantumCircuit) else list(circuits)
        return ScriptJob(self, cs, shots, plan)


def tagged(tag):
    qc = QuantumCircuit(1, 1)
    qc.tagged = {"tag": tag}
    return qc


FAULTS = ["ok", "ok", "ok", "submit-error", "result-error", "timeout", "odd-error", "short", "long"]


def case_faults(ctx):
    py = ctx.py
    limit = py.choice([None, 1, 2, 3])
    plans = [py.choice(FAULTS) for _ in range(8)]
    default = py.choice([5, 1024])
    back = ScriptBackend(plans, limit, {"shots": default})
    bb = BatchedBackend(back)
    tag = 0
    log = []
    handles = []  # (handle, tag, shots, state)
    used = 0
    for _ in range(py.randint(2, 5)):
        batch = []
        for _ in range(py.randint(0, 4)):
            s = py.choice([None, None, 7, 9])
            if py.random() < 0.3:
                k = py.randint(0, 3)
                cs = [tagged(tag + i) for i in range(k)]
                rs = bb.run(cs, shots=s)
                ctx.require(isinstance(rs, list) and len(rs) == k, "a batch of circuits does not give one handle per circuit")
                for i, r in enumerate(rs):
                    batch.append([r, tag + i, s or default])
                tag += k
            else:
                batch.append([bb.run(tagged(tag), shots=s), tag, s or default])
                tag += 1
        n = len(batch)
        chunk = limit or max(n, 1)
        chunks = [batch[i : i + chunk] for i in range(0, n, chunk)]
        failed = None
        expect = []
        for c in chunks:
            if failed is None:
                plan = plans[used] if used < len(plans) else "ok"
                used += 1
                # a wrong number of results can not be assigned to circuits
                if plan == "ok":
                    expect += ["ok"] * len(c)
                    continue
                failed = plan
            expect += ["error"] * len(c)
        log.append((n, [str(e) for e in expect], failed))
        ctx.last = dict(limit=limit, plans=plans, log=log)
        raised = None
        calls0 = len(back.calls)
        with warnings.catch_warnings(record=True) as warned:
            warnings.simplefilter("always")
            try:
                bb.dispatch(timeout=3)
            except Exception as e:
                raised = e
        ctx.require((raised is None) == (failed is None), "a failing batch was reported as a success or the other way round", detail=dict(failed=failed, raised=repr(raised)))
        if failed == "timeout":
            ctx.require(isinstance(raised, TimeoutError), "the timeout of a batch was replaced by another error", detail=dict(raised=repr(raised)))
        ctx.require((limit is not None and n > limit) == any(issubclass(w.category, UserWarning) and "limit" in str(w.message) for w in warned), "splitting a batch was not announced as documented")
        ctx.require(bb.pending_count == 0, "circuits stay queued after dispatch")
        for (r, t, s), e in zip(batch, expect):
            handles.append((r, t, s, e))
        for r, t, s, e in handles:
            if e == "ok":
                ctx.require(dict(r) == {"tag": t, "shots": s}, "a result was delivered to the wrong circuit or with other shots", detail=dict(got=str(dict(r)), expected=(t, s)))
            else:
                try:
                    d = dict(r)
                    ctx.require(False, "the result of a failed batch can be read", detail=dict(got=str(d)))
                except RuntimeError as exc:
                    ctx.require("not yet" not in str(exc), "the result of a failed batch claims to be pending", detail=dict(message=str(exc)))
                except (ValueError, KeyError, TimeoutError):
                    pass
        for cs, s in back.calls[calls0:]:
            ctx.require(limit is None or len(cs) <= limit, "a job exceeds the circuit limit of the backend")
    ctx.observe("faults", key=str(ctx.last))


# --- jobs of the built-in backends ---------------------------------------------------------


def measured_circuit(py, clifford=False):
    n = py.randint(1, 3)
    qc = QuantumCircuit(n, n)
    for _ in range(py.randint(1, 6)):
        g = py.choice(["h", "x", "cx", "s"] if clifford else ["h", "x", "cx", "ry", "s"])
        if g == "cx":
            if n > 1:
                a, b = py.sample(range(n), 2)
                qc.cx(a, b)
        elif g == "ry":
            qc.ry(round(py.uniform(0, 3), 3), py.randrange(n))
        else:
            getattr(qc, g)(py.randrange(n))
    order = list(range(n))
    py.shuffle(order)
    for i in range(n):
        qc.measure(order[i], i)
    return qc


def born(qc):
    """distribution over bit strings of a circuit with terminal measurements, by dense linear algebra"""
    n = len(qc.qubits)
    psi = np.zeros(2**n, dtype=complex)
    psi[0] = 1
    target = {}
    for ins in qc.data:
        if ins.op.name == "measure":
            target[qc.clbits.index(ins.clbits[0])] = qc.qubits.index(ins.qubits[0])
            continue
        qs = [qc.qubits.index(q) for q in ins.qubits]
        name = ins.op.name
        if name == "cx":
            m = np.array([[1, 0, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0], [0, 1, 0, 0]], dtype=complex)
        elif name == "s":
            m = np.diag([1, 1j])
        else:
            m = D.one(name, float(ins.op.params[0]) if ins.op.params else None)
        psi = D.lift(m, qs, n) @ psi
    out = {}
    for v, a in enumerate(psi):
        key = "".join(str(v >> target[c] & 1) if c in target else "0" for c in reversed(range(len(qc.clbits))))
        out[key] = out.get(key, 0) + abs(a) ** 2
    return {k: p for k, p in out.items() if p > 1e-12}


def judge_counts(ctx, counts, qc, shots, what, **detail):
    ref = born(qc)
    total = sum(counts.values())
    if shots is None:
        ctx.require(same(counts, ref), f"{what}: exact probabilities differ from the circuit", detail=dict(got=str(counts), expected=str(ref), **detail))
        return
    ctx.require(abs(total - shots) < 1e-6 or abs(total - 1) < 1e-6, f"{what}: the counts do not add up to the shots", detail=dict(total=total, shots=shots, **detail))
    for k in set(ref) | set(counts):
        p = ref.get(k, 0)
        f = counts.get(k, 0) / total
        ctx.require(abs(f - p) <= 6 * math.sqrt(p * (1 - p) / shots) + 1e-4, f"{what}: frequencies differ from the circuit", detail=dict(outcome=k, got=f, expected=p, **detail))


def case_jobs(ctx):
    py = ctx.py
    kind = py.choice(["simulator", "simulator", "stim", "virtual"])
    k = py.randint(1, 3)
    circuits = [measured_circuit(py, clifford=kind == "stim") for _ in range(k)]
    if kind == "simulator":
        back = QrispSimulatorBackend()
    elif kind == "stim":
        back = StimBackend()
    else:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            back = VirtualBackend(lambda qasm, shots, token="": dict(QuantumCircuit.from_qasm_str(qasm).run(shots=shots)))
    style = py.choice(["none", "int", "list"])
    shots = {"none": None, "int": 400, "list": [py.choice([100, 300, 500]) for _ in range(k)]}[style]
    single = k == 1 and style != "list" and py.random() < 0.5
    ctx.last = dict(kind=kind, circuits=k, shots=shots, single=single)
    if style == "list" and py.random() < 0.3:
        try:
            back.run_async(circuits, shots + [5])
            ctx.require(False, "a shot list of the wrong length was accepted")
        except ValueError:
            pass
    job = back.run_async(circuits[0] if single else circuits, shots)
    first = None
    finished = False
    seen = []
    for _ in range(py.randint(1, 6)):
        act = py.choice(["result", "status", "done", "cancel", "final", "refresh"])
        seen.append(act)
        if act == "result":
            r = job.result()
            if first is None:
                first = [dict(c) for c in r.all_counts]
            ctx.require([dict(c) for c in r.all_counts] == first, "reading a job twice gives different results", detail=dict(actions=seen))
        elif act == "cancel":
            ctx.require(job.cancel() is False, "a finished job claims to have been cancelled", detail=dict(actions=seen))
        else:
            st = job.status()
            if finished:
                ctx.require(st == JobStatus.DONE, "a finished job changed its status", detail=dict(actions=seen, status=str(st)))
            finished = st == JobStatus.DONE
            ctx.require(job.done() == finished and job.in_final_state() == finished and job.last_known_status == st, "the status queries of a job contradict each other", detail=dict(actions=seen))
    r = job.result()
    ctx.require(r.num_circuits == k, "the number of results differs from the number of circuits", detail=dict(got=r.num_circuits))
    for i in range(k):
        s = shots[i] if isinstance(shots, list) else shots
        if s is None and kind == "stim":
            s = 10000
        judge_counts(ctx, r.get_counts(i), circuits[i], s, kind, index=i)
    if style != "list":
        res = back.run(circuits[0] if single else circuits, shots)
        res = [res] if single else res
        ctx.require(len(res) == k, "running a batch does not give one result per circuit")
        for i in range(k):
            judge_counts(ctx, dict(res[i]), circuits[i], 10000 if shots is None and kind == "stim" else shots, kind + " run", index=i)
    ctx.observe("jobs", key=str(ctx.last) + str([c.qasm() for c in circuits]))


# --- scripted remote jobs ---------------------------------------------------------------------


class Named:
    def __init__(self, name):
        self.name = name


class FakeQiskitJob:
    """moves through a script of statuses, one step per live query"""

    def __init__(self, script, counts):
        self.script, self.pos, self.counts, self.cancelled = script, 0, counts, False

    def job_id(self):
        return "q-1"

    def _now(self):
        return "CANCELLED" if self.cancelled else self.script[min(self.pos, len(self.script) - 1)]

    def status(self):
        s = self._now()
        self.pos += 1
        return Named(s)

    def result(self, timeout=None):
        final = "CANCELLED" if self.cancelled else self.script[-1]
        if timeout is not None and self._now() not in ("DONE", "ERROR", "CANCELLED"):
            raise TimeoutError("scripted")
        self.pos = len(self.script)
        if final != "DONE":
            raise RuntimeError("scripted " + final)

        class Reg:
            def __init__(self, c):
                self.c = c

            def get_counts(self):
                return dict(self.c)

        class Data(dict):
            pass

        class Pub:
            pass

        out = []
        for c in self.counts:
            p = Pub()

            class DataBin:
                def __iter__(s):
                    return iter(["c"])

            p.data = DataBin()
            p.data.c = Reg(c)
            out.append(p)
        return out

    def cancel(self):
        if self._now() in ("DONE", "ERROR", "CANCELLED"):
            raise RuntimeError("too late")
        self.cancelled = True


class FakeIQMJob:
    def __init__(self, script):
        self.job_id = "i-1"
        self.script, self.pos, self.cancelled = script, 0, False

    @property
    def status(self):
        class V:
            value = "cancelled" if self.cancelled else self.script[min(self.pos, len(self.script) - 1)]

        return V()

    def update(self):
        if self.pos < len(self.script) - 1:
            self.pos += 1

    def wait_for_completion(self):
        from iqm.iqm_client.iqm_client import JobStatus as S

        self.pos = len(self.script) - 1
        return S("cancelled" if self.cancelled else self.script[-1])

    def cancel(self):
        if self.script[min(self.pos, len(self.script) - 1)] in ("completed", "failed", "cancelled"):
            raise RuntimeError("too late")
        self.cancelled = True


class FakeIQMClient:
    def __init__(self, counts):
        self.counts = counts

    def get_job_measurement_counts(self, job_id):
        class C:
            pass

        out = []
        for c in self.counts:
            o = C()
            o.counts = {k[::-1]: v for k, v in c.items()}
            out.append(o)
        return out


class FakeAQTJob:
    def __init__(self, script, counts):
        self.script, self.pos, self.counts = script, 0, counts

    def status(self):
        s = self.script[min(self.pos, len(self.script) - 1)]
        self.pos += 1
        return Named(s)

    def result(self):
        self.pos = len(self.script)
        if self.script[-1] != "DONE":
            raise RuntimeError("scripted " + self.script[-1])

        class Res:
            pass

        r = Res()
        r.quasi_dists = [{int(k, 2): v for k, v in c.items()} for c in self.counts]
        return r


def case_scripted(ctx):
    py = ctx.py
    kind = py.choice(["qiskit", "iqm", "aqt"])
    final = py.choice(["DONE", "DONE", "ERROR", "CANCELLED"])
    script = ["QUEUED"] * py.randint(0, 2) + ["RUNNING"] * py.randint(0, 2) + [final]
    n = py.randint(1, 3)
    counts = [{format(v, "03b"): py.randint(1, 50) for v in py.sample(range(8), py.randint(1, 4))} for _ in range(n)]
    if kind == "qiskit":
        from qrisp.interface.provider_backends.qiskit_backend import QiskitJob

        remote = FakeQiskitJob(script, counts)
        job = QiskitJob(None, remote, n)
    elif kind == "iqm":
        from qrisp.interface.provider_backends.iqm_backend import IQMJob

        names = {"QUEUED": "waiting", "RUNNING": "processing", "DONE": "completed", "ERROR": "failed", "CANCELLED": "cancelled"}
        remote = FakeIQMJob([names[s] for s in script])
        job = IQMJob(None, remote, [1] * n, FakeIQMClient(counts))
    else:
        from qrisp.interface.provider_backends.aqt_backend import AQTJob

        remote = FakeAQTJob(script, counts)
        job = AQTJob(None, remote, [3] * n)
    job.submit()
    acts = []
    ended = None
    for _ in range(py.randint(1, 6)):
        act = py.choice(["status", "result", "result", "done", "cancel", "timeout", "queries"])
        acts.append(act)
        ctx.last = dict(kind=kind, script=script, actions=list(acts))
        want = "CANCELLED" if getattr(remote, "cancelled", False) else final
        if act in ("status", "done"):
            st = job.status() if act == "status" else (job.done(), job.last_known_status)[1]
            if ended is not None:
                ctx.require(st.name == ended, "a job left its final status", detail=dict(got=st.name, expected=ended))
            if st in JobStatus.final_states():
                ctx.require(st.name == want, "a job reports a wrong final status", detail=dict(got=st.name, expected=want))
                ended = st.name
        elif act == "queries":
            for q, name in ((job.done, "DONE"), (job.cancelled, "CANCELLED"), (job.running, "RUNNING"), (job.queued, "QUEUED")):
                said = q()
                ctx.require(said is (job.last_known_status.name == name), "a status query of a job contradicts its status", detail=dict(query=name, said=said, status=job.last_known_status.name))
            said = job.in_final_state()
            ctx.require(said is (job.last_known_status.name in ("DONE", "CANCELLED", "ERROR")), "a status query of a job contradicts its status", detail=dict(query="final", said=said, status=job.last_known_status.name))
        elif act == "cancel":
            before = getattr(remote, "cancelled", False)
            ok = job.cancel()
            ctx.require(ok is False or remote.cancelled, "a job claims to be cancelled but was not")
            ctx.require(not (ok and ended is not None), "a finished job claims to have been cancelled", detail=dict(ended=ended))
        else:
            try:
                r = job.result(timeout=0.01) if act == "timeout" else job.result()
                ctx.require(want == "DONE", "a failed or cancelled job returned a result", detail=dict(final=want))
                ctx.require(r is not None, "a finished job returned no result")
                ctx.require([dict(c) for c in r.all_counts] == counts, "the result of a job differs from what the service delivered", detail=dict(got=str(r.all_counts), expected=str(counts)))
                ended = "DONE"
                ctx.require(job.last_known_status == JobStatus.DONE, "a job that delivered its result is not reported as done")
            except JobCancelledError:
                ctx.require(want == "CANCELLED", "a job that was not cancelled claims to be", detail=dict(final=want))
                ended = "CANCELLED"
            except JobFailureError:
                ctx.require(want == "ERROR", "a job that did not fail claims to have failed", detail=dict(final=want))
                ended = "ERROR"
            except TimeoutError:
                ctx.require(act == "timeout" and ended is None, "a timeout without a reason")
    ctx.observe("scripted", key=str(ctx.last))


# --- circuits on qiskit -----------------------------------------------------------------------


def case_qiskit(ctx):
    from qrisp.interface.provider_backends.qiskit_backend import QiskitBackend

    py = ctx.py
    back = QiskitBackend()
    k = py.randint(1, 3)
    circuits = [measured_circuit(py) for _ in range(k)]
    shots = py.choice([300, 1000])
    poll = py.random() < 0.5
    ctx.last = dict(circuits=[c.qasm() for c in circuits], shots=shots, poll=poll)
    job = back.run_async(circuits, shots)
    if poll:
        import time

        for _ in range(2000):
            if job.in_final_state():
                break
            time.sleep(0.01)
        else:
            raise Skip("the simulator did not finish")
        ctx.require(job.done(), "the job failed", detail=dict(status=str(job.status())))
    r = job.result()
    ctx.require(r is not None, "a finished job returned no result")
    ctx.require(r.num_circuits == k, "the number of results differs from the number of circuits")
    for i in range(k):
        judge_counts(ctx, r.get_counts(i), circuits[i], shots, "qiskit", index=i)
    if py.random() < 0.4:
        var = Var(py)
        for _ in range(py.randint(1, 3)):
            var.rotate(py)
        bb = back.batched()
        res = [var.v.get_measurement(backend=bb, shots=1000) for _ in range(2)]
        bb.dispatch()
        for r in res:
            ctx.require(same(var.read(r), var.distribution(), 0.1), "a measurement through another framework differs", detail=dict(got=str(var.read(r)), expected=str(var.distribution())))
    ctx.observe("qiskit", key=str(ctx.last))


def case_options(ctx):
    py = ctx.py
    kind = py.choice(["script", "simulator", "batched", "stim"])
    given = {"shots": py.choice([None, 10, 50]), "mode": "a"}
    back = ScriptBackend([], None, given) if kind in ("script", "batched") else (QrispSimulatorBackend() if kind == "simulator" else StimBackend())
    front = back.batched() if kind == "batched" else back
    model = dict(back.options)
    log = []
    for _ in range(py.randint(1, 8)):
        act = py.choice(["shots", "bad-shots", "unknown", "mode", "run", "write", "both"])
        log.append(act)
        ctx.last = dict(kind=kind, log=log)
        if act == "shots":
            s = py.choice([1, 20, None])
            front.update_options(shots=s)
            model["shots"] = s
        elif act in ("bad-shots", "unknown", "both"):
            kw = {"bad-shots": {"shots": py.choice([0, -3, 1.5, True, "7"])}, "unknown": {"nonsense": 1}, "both": {"shots": 33, "nonsense": 1}}[act]
            try:
                front.update_options(**kw)
                ctx.require(False, "an invalid option was accepted", detail=dict(options=str(kw)))
            except (TypeError, ValueError, AttributeError):
                pass
        elif act == "mode" and "mode" in model:
            front.update_options(mode="b")
            model["mode"] = "b"
        elif act == "write":
            try:
                front.options["shots"] = 3
                ctx.require(False, "the options can be changed through the read-only view")
            except TypeError:
                pass
        elif act == "run" and kind in ("script", "batched"):
            s = py.choice([None, 3, 0, -1, 2.5, True])
            bad = s is not None and (isinstance(s, bool) or not isinstance(s, int) or s <= 0)
            try:
                r = front.run(tagged(1), shots=s)
                if kind == "batched":
                    front.dispatch()
                ctx.require(not bad, "an invalid number of shots was accepted", detail=dict(shots=str(s)))
                ctx.require(r["shots"] == (s if s is not None else model["shots"]), "a circuit ran with other shots than requested", detail=dict(got=str(r["shots"]), requested=str(s), default=str(model["shots"])))
            except (TypeError, ValueError):
                ctx.require(bad, "a valid number of shots was rejected", detail=dict(shots=str(s)))
        ctx.require(dict(front.options) == model and dict(back.options) == model, "the options differ from those that were set", detail=dict(got=str(dict(front.options)), expected=str(model)))
    if kind in ("script", "batched"):
        ctx.require(given["mode"] == "a", "the options of the caller were changed")
    ctx.observe("options", key=str(ctx.last) + str(model))


def case_lazy(ctx):
    py = ctx.py
    n = py.randint(1, 4)
    raw = MeasurementResult()
    data = {v: py.randint(1, 9) / 10 for v in py.sample(range(2**n), py.randint(1, min(5, 2**n)))}
    calls = []
    mod = py.choice([None, 2, 3])

    def decoder(i):
        calls.append(i)
        return i if mod is None else i % mod

    res = DecodedMeasurementResult(raw, decoder)
    ref = {}
    for k, v in sorted(data.items()):
        kk = k if mod is None else k % mod
        ref[kk] = ref.get(kk, 0) + v
    state = "pending"
    log = []
    for _ in range(py.randint(2, 8)):
        act = py.choice(["inject", "error", "get", "len", "iter", "eq", "repr", "in", "values"])
        log.append(act)
        ctx.last = dict(data=str(data), mod=mod, log=log)
        if act == "inject" and state in ("pending",):
            raw._inject(dict(data))
            state = "ready"
            continue
        if act == "error" and state == "pending" and py.random() < 0.4:
            raw._inject_error(ValueError("scripted"))
            state = "error"
            continue
        if act in ("inject", "error"):
            continue
        ops = {
            "get": lambda: res[next(iter(ref))],
            "len": lambda: len(res),
            "iter": lambda: list(res),
            "eq": lambda: res == ref,
            "repr": lambda: repr(res),
            "in": lambda: next(iter(ref)) in res,
            "values": lambda: sum(res.values()),
        }
        try:
            got = ops[act]()
        except (RuntimeError, ValueError) as e:
            ctx.require(state != "ready", "a delivered result can not be read", detail=dict(error=repr(e), act=act))
            ctx.require(isinstance(e, ValueError) == (state == "error"), "reading shows the wrong error", detail=dict(error=repr(e), state=state))
            continue
        if state != "ready":
            ctx.require(act == "repr" and "pending" in got, "a result that was not delivered can be read", detail=dict(act=act, got=str(got)))
            continue
        order = [k for k, _ in sorted(ref.items(), key=lambda t: -t[1])]
        want = {"get": lambda: ref[next(iter(ref))], "len": lambda: len(ref), "eq": lambda: True, "in": lambda: True, "values": lambda: sum(ref.values()), "iter": lambda: order, "repr": lambda: repr({k: ref[k] for k in order})}[act]()
        ok = abs(got - want) < 1e-9 if act in ("get", "values") else got == want
        ctx.require(ok, "a delivered result is not the decoded mapping", detail=dict(act=act, got=str(got), expected=str(want)))
    ctx.require(len(calls) <= len(data), "decoding happened more than once per outcome")
    ctx.observe("lazy", key=str(ctx.last))


def case_virtual(ctx):
    """backends given as a function of the OpenQASM text, and measurement keywords that pass through"""
    py = ctx.py
    seen = []

    def run(qasm, shots, token=""):
        seen.append((shots, token))
        if fail:
            raise ValueError("scripted")
        return dict(QuantumCircuit.from_qasm_str(qasm).run(shots=shots))

    fail = False
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        back = VirtualBackend(run)
    var = Var(py)
    for _ in range(py.randint(1, 4)):
        var.rotate(py)
    ctx.last = dict(kind=var.kind)
    got = var.read(var.v.get_measurement(backend=back))
    ref = var.distribution()
    ctx.require(same(got, ref), "a measurement through a function backend differs", detail=dict(got=str(got), expected=str(ref)))
    back.update_options(token="secret")
    s = py.choice([100, 200])
    var.v.get_measurement(backend=back, shots=s)
    ctx.require(seen[-1] == (s, "secret"), "shots or token did not reach the backend", detail=dict(got=str(seen[-1])))
    if var.kind not in ("array", "string"):
        top = sorted(ref.values())
        if len(top) == 1 or top[-1] - top[-2] > 0.01:
            calls = len(seen)
            m = var.v.most_likely(backend=back)
            ctx.require(m == max(ref, key=ref.get), "the most likely outcome is another one", detail=dict(got=str(m)))
            ctx.require(len(seen) == calls + 1, "the most likely outcome was not taken from the given backend")
    fail = True
    try:
        dict(var.v.get_measurement(backend=back))
        ctx.require(False, "a failing backend gave a result")
    except (JobFailureError, ValueError):
        pass
    ctx.observe("virtual", key=str(ctx.last) + str(ref))


FAMILIES = {k[5:]: v for k, v in list(globals().items()) if k.startswith("case_")}
