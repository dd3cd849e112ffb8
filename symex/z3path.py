"""Expose only the `z3` package of the tooling venv to the interpreter that runs beep."""
import importlib.util
import os
import sys

Z3_DIR = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"


def load():
    if "z3" in sys.modules:
        return sys.modules["z3"]
    spec = importlib.util.spec_from_file_location(
        "z3", os.path.join(Z3_DIR, "__init__.py"), submodule_search_locations=[Z3_DIR])
    mod = importlib.util.module_from_spec(spec)
    sys.modules["z3"] = mod
    spec.loader.exec_module(mod)
    return mod
