"""Make the pre-installed z3 bindings importable from the interpreter that runs
the code under test (the bindings are pure ctypes)."""
import glob
import importlib.util
import os
import sys


def load():
    if "z3" in sys.modules:
        return sys.modules["z3"]
    cands = [os.environ.get("VERIF_Z3", "")]
    cands += glob.glob(
        "/opt/veriftools/pyvenv/lib/python3*/site-packages/z3/__init__.py"
    )
    for init in cands:
        if init and os.path.exists(init):
            spec = importlib.util.spec_from_file_location(
                "z3", init, submodule_search_locations=[os.path.dirname(init)]
            )
            mod = importlib.util.module_from_spec(spec)
            sys.modules["z3"] = mod
            spec.loader.exec_module(mod)
            return mod
    import z3  # noqa: F401  (last resort: whatever the interpreter has)

    return sys.modules["z3"]


z3 = load()
