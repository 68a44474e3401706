#!/opt/venv/bin/python
"""Entry point: run.py <property> [--tier quick|thorough] [--slice NAME] [--replay FILE]"""
import os
import sys

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.setrecursionlimit(100000)


def props(pid):
    import importlib
    import pkgutil
    import checks

    for m in sorted(x.name for x in pkgutil.iter_modules(checks.__path__)):
        if m.startswith("c_"):
            mod = importlib.import_module("checks." + m)
            p = mod.PROPS.get(pid)
            if p is not None:
                return p() if callable(p) else p
    raise SystemExit("unknown property " + pid)


if __name__ == "__main__":
    from engine import runner

    sys.exit(runner.main(props))
