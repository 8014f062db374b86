"""Checks that the solver and the code under test load (setup command)."""
import contextlib
import io
import os


def main():
    from . import loader
    from .z3load import z3

    x = z3.Real("x")
    s = z3.Solver()
    s.add(x * x == 2, x > 0)
    assert s.check() == z3.sat
    s.add(x > 2)
    assert s.check() == z3.unsat
    loader.install()
    with contextlib.redirect_stdout(io.StringIO()):
        import py_fatigue
    root = os.environ.get("VERIF_REPO", "/repo")
    assert py_fatigue.__file__.startswith(root), py_fatigue.__file__
    print("z3", z3.get_version_string(), "py_fatigue", py_fatigue.__file__)
    return 0
