#!/opt/venv/bin/python
"""run_check.py <ID or module> [--tier quick|thorough] [--family F [--index K]] [--replay FILE]"""
import glob
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))

FIXED = {
    "HOME": "/root",
    "MPLBACKEND": "Agg",
    "JAX_PLATFORMS": "cpu",
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "TF_CPP_MIN_LOG_LEVEL": "3",
}

if __name__ == "__main__":
    if any(os.environ.get(k) != v for k, v in FIXED.items()) or os.environ.get("PYTHONPATH") != "/repo/src":
        os.environ.update(FIXED)
        os.environ["PYTHONPATH"] = "/repo/src"
        os.environ.setdefault("MPLCONFIGDIR", "/opt/qrisp-cache/mpl")
        os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", os.path.abspath(__file__)] + sys.argv[1:])
    os.chdir(HERE)
    sys.path.insert(0, HERE)
    name = sys.argv[1]
    if name == "--setup":
        import qrisp

        print("qrisp imported from", os.path.dirname(qrisp.__file__))
        sys.exit(0 if qrisp.__file__.startswith("/repo/src/") else 3)
    if not name.startswith("checks."):
        hits = glob.glob(os.path.join(HERE, "checks", name.lower() + "_*.py"))
        if len(hits) != 1:
            print("unknown check", name)
            sys.exit(3)
        name = "checks." + os.path.basename(hits[0])[:-3]
    from vlib.harness import main

    sys.exit(main(name, sys.argv[2:]))
