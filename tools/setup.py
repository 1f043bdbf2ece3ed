"""setup: everything is interpreted; only check that the tools are there"""
import os, shutil, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
for t in ("clang++", "g++", "z3-new", "cvc5"):
    if not shutil.which(t):
        sys.exit("missing " + t)
import z3
print("ok", z3.get_version_string())
