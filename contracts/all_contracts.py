import importlib, os, sys, glob
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.path.insert(0, os.path.join(here, "..", "ltv"))
REGISTRY = []
for f in sorted(glob.glob(os.path.join(here, "*.py"))):
    m = os.path.basename(f)[:-3]
    if m in ("all_contracts", "speclib"):
        continue
    REGISTRY += importlib.import_module(m).CONTRACTS
