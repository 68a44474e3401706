"""Smoke test of the tool chain: everything is rebuilt by each check."""
import os, subprocess, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(V, "evidence", "replays"), exist_ok=True)
sys.path.insert(0, V)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3
print("z3", z3.get_version_string())
print(subprocess.check_output(["clang", "--version"], text=True).splitlines()[0])
