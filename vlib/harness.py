"""Check runner: generates cases, runs them in worker processes with monitors
attached, collects verdicts and writes evidence."""

import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import tempfile
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = "/repo/src"


class Violation(Exception):
    """The observed execution contradicts the property."""

    def __init__(self, msg, mech=None, detail=None):
        super().__init__(msg)
        self.msg = msg
        self.mech = mech
        self.detail = detail


class Skip(Exception):
    """The generated case is outside the property's domain (counted, no verdict)."""


class CaseTimeout(BaseException):
    pass


def stable_seed(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


class Ctx:
    """Passed to every case: randomness, monitor counters, verdict helpers."""

    def __init__(self, prop, family, index, seed, tier):
        import numpy as np

        self.prop, self.family, self.index, self.seed, self.tier = prop, family, index, seed, tier
        s = stable_seed(prop, family, index, seed)
        self.rng = np.random.default_rng(s)
        self.py = random.Random(s)
        self.counts = {}
        self.keys = {}
        self.samples = []
        self.soft = []
        self.last = None

    # -- monitor book keeping
    def observe(self, monitor, key=None, nontrivial=True):
        """One evaluation of a deciding monitor. ``key`` identifies the observed
        state/behaviour so that distinct observations can be counted."""
        self.counts[monitor] = self.counts.get(monitor, 0) + 1
        if key is not None and nontrivial:
            k = zlib.crc32(repr(key).encode()) ^ (zlib.adler32(repr(key).encode()) << 32)
            self.keys.setdefault(monitor, set()).add(k)

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(str(obj)[:300])

    def require(self, cond, msg, mech=None, **detail):
        if not cond:
            raise Violation(msg, mech, detail)

    def report(self, msg, mech=None, **detail):
        """Record a violation but keep going with the case."""
        self.soft.append(Violation(msg, mech, detail))

    def close(self, diff, tol, what, mech=None, **detail):
        if not (diff <= tol):
            raise Violation(f"{what}: deviation {diff:.3g} > {tol:g}", mech, detail)


def _alarm(signum, frame):
    raise CaseTimeout()


def reset_library():
    """Drops library level bookkeeping that an aborted case left behind; a convenience, so its absence is no error."""
    import qrisp

    for path, act in (
        ("core.quantum_session.QuantumSession.qs_tracker", lambda o: o.clear()),
        ("core.quantum_variable.QuantumVariable.live_qvs", lambda o: o.clear()),
        ("environments.quantum_environments.QuantumEnvironment.deepest_environment", lambda o: o.__setitem__(0, None)),
    ):
        try:
            obj = qrisp
            for name in path.split("."):
                obj = getattr(obj, name)
            act(obj)
        except Exception:
            pass


def run_case(mod, family, index, seed, tier, timeout):
    ctx = Ctx(mod.PROPERTY, family, index, seed, tier)
    out = {"family": family, "index": index, "status": "ok", "viol": []}
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(timeout))
    try:
        import numpy as np

        np.random.seed(stable_seed("np", mod.PROPERTY, family, index, seed) % (2**32))
        random.seed(stable_seed("py", mod.PROPERTY, family, index, seed))
        try:
            mod.FAMILIES[family](ctx)
        except Violation as v:
            out["viol"].append(v)
        except Skip as s:
            out["status"] = "skip"
            out["why"] = str(s)
        except CaseTimeout:
            out["status"] = "timeout"
        except Exception as e:  # library refused or crashed on an admissible input
            if type(e).__name__ in ("RefTooLarge", "RefUnsupported"):
                out["status"] = "skip"
                out["why"] = repr(e)
            else:
                tb = traceback.format_exc(limit=-6)
                mech = None
                if hasattr(mod, "classify_exception"):
                    mech = mod.classify_exception(ctx, e, tb)
                out["viol"].append(
                    Violation(f"unexpected {type(e).__name__}: {str(e)[:300]}", mech, {"traceback": tb})
                )
    finally:
        signal.alarm(0)
    out["viol"] = [
        {"msg": v.msg, "mech": v.mech, "detail": _short(v.detail)} for v in list(ctx.soft) + out["viol"]
    ]
    if out["viol"]:
        out["status"] = "violation"
        out["last"] = str(ctx.last)[:2000]
        try:
            if hasattr(mod, "cleanup"):
                mod.cleanup()
            reset_library()
        except Exception:
            pass
    out["counts"] = ctx.counts
    out["keys"] = {k: list(v) for k, v in ctx.keys.items()}
    out["samples"] = ctx.samples
    out["t"] = time.time() - t0
    return out


def _short(d):
    if not d:
        return None
    return {k: str(v)[:1500] for k, v in d.items()}


_MOD = None


def _worker_init(modname, numba_dir, quiet):
    global _MOD
    os.environ["NUMBA_CACHE_DIR"] = numba_dir
    if quiet:
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
    sys.path.insert(0, VERIF)
    import warnings

    warnings.filterwarnings("ignore")
    _MOD = importlib.import_module(modname)


def _worker_run(args):
    family, index, seed, tier, timeout = args
    return run_case(_MOD, family, index, seed, tier, timeout)


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        return json.load(f)["findings"]


def main(modname, argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--family")
    ap.add_argument("--index", type=int)
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args(argv)
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")

    scratch = tempfile.mkdtemp(prefix="verif-run-")
    try:
        numba_dir = os.environ.get("VERIF_NUMBA_CACHE") or os.path.join(scratch, "numba")
        os.makedirs(numba_dir, exist_ok=True)
        os.environ["NUMBA_CACHE_DIR"] = numba_dir
        os.environ["VERIF_SCRATCH"] = scratch
        # temporary files of compilers go where they are removed
        os.environ["TMPDIR"] = os.path.join(scratch, "tmp")
        os.makedirs(os.environ["TMPDIR"], exist_ok=True)
        # the evidence of this run must never be a leftover of an earlier one
        prop_id = modname.rsplit(".", 1)[-1].split("_")[0].upper()
        if not (a.replay or a.family):
            try:
                os.unlink(os.path.join(VERIF, "evidence", f"{prop_id}.json"))
            except FileNotFoundError:
                pass
        if a.replay:
            with open(a.replay) as f:
                r = json.load(f)
            _worker_init(modname, numba_dir, False)
            for c in r["cases"]:
                out = run_case(_MOD, c["family"], c["index"], r["seed"], r["tier"], 800)
                print(json.dumps({k: v for k, v in out.items() if k != "keys"}, indent=1, default=str))
            return 1 if out["status"] == "violation" else 0
        if a.family is not None and a.index is not None:
            _worker_init(modname, numba_dir, False)
            out = run_case(_MOD, a.family, a.index, seed, a.tier, 800)
            print(json.dumps({k: v for k, v in out.items() if k != "keys"}, indent=1, default=str))
            return 1 if out["status"] == "violation" else 0
        return _campaign(modname, a, seed, numba_dir)
    finally:
        import shutil

        shutil.rmtree(scratch, ignore_errors=True)


def _campaign(modname, a, seed, numba_dir):
    t0 = time.time()
    # plan is a plain dict in the check module; read it without importing qrisp
    plan_mod = _load_plan(modname)
    prop = plan_mod["PROPERTY"]
    plan = plan_mod["PLAN"][a.tier]
    timeout = plan_mod.get("CASE_TIMEOUT", 240)
    tasks = []
    fams = {f: n for f, n in plan.items() if a.family is None or f == a.family}
    for f, n in fams.items():
        n = max(1, int(round(n * a.scale)))
        for i in range(n):
            tasks.append((f, i, seed, a.tier, timeout))
    # interleave families deterministically so that workers are balanced
    random.Random(stable_seed("order", prop, seed)).shuffle(tasks)
    heavy = set(plan_mod.get("HEAVY", ()))
    tasks.sort(key=lambda t: t[0] not in heavy)

    ctxm = mp.get_context("spawn")
    results = []
    errors = []
    budget = plan_mod.get("BUDGET", {"quick": 700, "thorough": 5400})[a.tier]
    workers = max(1, min(a.workers, len(tasks)))
    pool = ctxm.Pool(workers, initializer=_worker_init, initargs=(modname, numba_dir, not a.verbose))
    unfinished = 0
    try:
        it = pool.imap_unordered(_worker_run, tasks, chunksize=1)
        for k in range(len(tasks)):
            left = budget - (time.time() - t0)
            try:
                results.append(it.next(timeout=max(1, left)))
            except mp.TimeoutError:
                unfinished = len(tasks) - k
                errors.append(f"watchdog: {unfinished} cases unfinished after {budget}s")
                break
    finally:
        pool.terminate()
        pool.join()

    known = {k["mech"]: k for k in load_known() if k["property"] == prop and k["kind"] == "known"}
    counts, keys, samples, skips = {}, {}, [], {}
    viols, known_hits, timeouts = [], {}, []
    per_family = {}
    slow = []
    results.sort(key=lambda r: (r["family"], r["index"]))
    for r in results:
        pf = per_family.setdefault(r["family"], {"run": 0, "skipped": 0})
        pf["run"] += 1
        slow.append((r["t"], r["family"], r["index"]))
        for m, c in r["counts"].items():
            counts[m] = counts.get(m, 0) + c
        for m, ks in r["keys"].items():
            keys.setdefault(m, set()).update(ks)
        if r["samples"] and len([s for s in samples if s.startswith(r["family"] + "#")]) < 2:
            samples.append(f"{r['family']}#{r['index']}: {r['samples'][0]}")
        if r["status"] == "skip":
            pf["skipped"] += 1
            skips[r["why"][:80]] = skips.get(r["why"][:80], 0) + 1
        elif r["status"] == "timeout":
            timeouts.append(f"{r['family']}#{r['index']}")
        elif r["status"] == "violation":
            for v in r["viol"]:
                if v["mech"] in known:
                    known_hits.setdefault(v["mech"], []).append((r, v))
                else:
                    viols.append((r, v))
    slow.sort(reverse=True)
    distinct = sum(len(v) for v in keys.values())
    evals = sum(counts.values())
    if timeouts:
        errors.append("cases timed out: " + ", ".join(timeouts[:10]))
    for m in plan_mod.get("REQUIRED_MONITORS", []):
        if a.family is None and not counts.get(m) and not viols:
            errors.append(f"monitor {m} was never reached")
    if evals == 0 and not viols:
        errors.append("no monitor evaluation happened")

    code = 0
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    for mech, k in sorted(known.items()):
        print(f"KNOWN-FINDING: property={prop} {k['what']} (seen {len(known_hits.get(mech, []))}x in this run)")
    replay = os.path.join(VERIF, "evidence", "replay", f"{prop}-{a.tier}-{seed}.json")
    if os.path.exists(replay):
        os.remove(replay)
    if viols:
        with open(replay, "w") as f:
            json.dump(
                {
                    "property": prop,
                    "seed": seed,
                    "tier": a.tier,
                    "how": f"python run_check.py {modname} --replay {replay}",
                    "cases": [
                        {
                            "family": r["family"],
                            "index": r["index"],
                            "message": v["msg"],
                            "mech": v["mech"],
                            "detail": v["detail"],
                            "last": r.get("last"),
                        }
                        for r, v in viols[:200]
                    ],
                },
                f,
                indent=1,
            )
        for r, v in viols[:5]:
            print(f"  {r['family']}#{r['index']}: {v['msg'][:300]}")
        print(f"VIOLATION property={prop} replay={replay}")
        code = 1
    elif errors:
        code = 2

    ev = {
        "property": prop,
        "tier": a.tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": distinct,
            "rule": plan_mod["RULE"],
            "samples": samples[:20],
            "monitors": {m: {"evaluations": c, "distinct": len(keys.get(m, ()))} for m, c in sorted(counts.items())},
            "cases": per_family,
            "skipped": skips,
            "known_findings_seen": {m: len(h) for m, h in known_hits.items()},
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": plan_mod.get("ASSUMPTIONS", []),
        "violations": [f"{r['family']}#{r['index']}: {v['msg'][:300]}" for r, v in viols[:20]],
    }
    if errors:
        ev["errors"] = errors
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for e in errors:
        print("ERROR:", e)
    print(
        f"{prop} tier={a.tier} seed={seed}: {len(results)} cases, {evals} monitor evaluations, "
        f"{distinct} distinct, {len(viols)} violations, {sum(skips.values())} skipped, {ev['wall_s']}s -> exit {code}"
    )
    if os.environ.get("VERIF_DEBUG"):
        print("slowest:", [(round(t, 1), f, i) for t, f, i in slow[:8]])
        print("skips:", skips)
        tot = {}
        for t, f, i in slow:
            tot[f] = tot.get(f, 0) + t
        print("time per family:", {f: round(t, 1) for f, t in tot.items()})
        print("monitors:", ev["coverage"]["monitors"])
    return code


def _load_plan(modname):
    """Evaluate only the leading plan constants of the check module (importing the
    module itself would import the library into the parent process)."""
    path = os.path.join(VERIF, *modname.split(".")) + ".py"
    src = open(path).read()
    head = src.split("# --- end of plan ---")[0]
    ns = {}
    exec(compile(head, path, "exec"), ns)
    return ns
