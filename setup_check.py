"""sanity of the tools the checks use; builds nothing"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
import z3
s = z3.Solver()
x = z3.Int("x")
s.add(x * x == 2)
assert s.check() == z3.unsat
from pyvc.spec_keccak import keccak256
assert keccak256(b"").hex().startswith("c5d2460186f7233c")
print("ok")
