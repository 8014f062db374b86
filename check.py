#!/opt/venv/bin/python
"""check.py <property> [quick|thorough] [case,case]"""
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
ENV = {
    "PYTHONHASHSEED": "0",
    "NUMBA_DISABLE_JIT": "1",
    "MPLBACKEND": "Agg",
    "PYTHONDONTWRITEBYTECODE": "1",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
}
if any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV)
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, ROOT)
if sys.argv[1:] == ["--selftest"]:
    from engine.selftest import main  # noqa: E402
else:
    from engine.run import main  # noqa: E402

if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
