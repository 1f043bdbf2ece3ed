"""verify one contract against the current source"""
import sys, os, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
import z3
import cxxast, engine, solve
from engine import Engine, Contract, Loop
from values import Unsupported


class Result:
    def __init__(self, c):
        self.c = c
        self.status = "error"      # proved / failed / out-of-reach
        self.obls, self.res, self.texts = [], [], []
        self.reason = ""
        self.assumed, self.inlined, self.called = set(), set(), set()
        self.secs = 0.0
        self.vacuous = False
        self.kf = []


def find_function(c, tus):
    import re
    cands = []
    for tu in tus:
        for q, fs in tu.funcs.items():
            if q == c.key or re.sub(r"<.*>", "", q) == c.key:
                for f in fs:
                    sig = f["type"]["qualType"]
                    if c.sig is None or sig == c.sig:
                        cands.append(f)
        if not cands and c.sig:
            for q, fs in tu.funcs.items():
                if q == c.key or re.sub(r"<.*>", "", q) == c.key:
                    for f in fs:
                        if c.sig in f["type"]["qualType"]:
                            cands.append(f)
    return cands


def verify(c, registry, tmo=10, workers=8, verbose=False, retry=None):
    r = Result(c)
    t0 = time.time()
    if c.lemma:
        for nm, g in c.fn():
            r.obls.append(engine.Obl(nm, "lemma", [], g, c.name))
        r.res, r.texts = solve.decide_all(r.obls, c.timeout or tmo, workers, retry)
        r.bad = [i for i, x in enumerate(r.res) if x[0] != "unsat"]
        r.status = "failed" if r.bad or not r.obls else "proved"
        r.covers = []
        r.secs = time.time() - t0
        return r
    try:
        names = c.tu if isinstance(c.tu, (list, tuple)) else [c.tu]
        tus = [cxxast.tu(x) for x in names]
        fs = find_function(c, tus)
        if not fs:
            raise Unsupported("function %s not found in %s" % (c.name, c.tu))
        eng = Engine(c, [x for x in registry if x is not c or True], tus)
        # a function's own body is verified, recursive calls use the contract
        eng.verify(fs[0])
        r.obls = eng.obls
        r.assumed, r.inlined, r.called = eng.assumed, eng.inlined, eng.called
        r.gen = time.time() - t0
        if not eng.obls:
            raise Unsupported("no obligation generated")
        r.res, r.texts = solve.decide_all(eng.obls, c.timeout or tmo, workers, retry)
        bad = [i for i, x in enumerate(r.res) if x[0] != "unsat"]
        r.bad = bad
        # vacuity: at least one path to the end must not be refutable
        r.covers = []
        for pc in eng.exitpcs:
            o, _ = solve.run([solve.Z3BIN, "-T:2"], solve.to_smt2(engine.Obl("cover", "cover", list(pc), z3.BoolVal(False), c.name)), 2)
            l = o.splitlines()[0] if o else ""
            r.covers.append(l if l in ("sat", "unsat") else "unknown")
        if r.covers and all(x != "sat" for x in r.covers):
            # no model found quickly: try hard to refute reachability with every solver configuration
            for k, pc in enumerate(eng.exitpcs[:4]):
                if r.covers[k] == "unknown":
                    v = solve.decide(solve.to_smt2(engine.Obl("cover", "cover", list(pc), z3.BoolVal(False), c.name)), 4)
                    if v[0] == "unsat":
                        r.covers[k] = "unsat"
        r.vacuous = bool(r.covers) and all(x == "unsat" for x in r.covers)
        if not r.covers and c.exits is None:
            r.vacuous = True
        if bad:
            r.status = "failed"
        elif r.vacuous:
            r.status = "vacuous"
        else:
            r.status = "proved"
    except (Unsupported, cxxast.ExtractError) as e:
        r.status = "out-of-reach"
        r.reason = str(e)
        if verbose:
            (traceback.print_exc() if os.environ.get('TB') else None)
    except Exception as e:
        r.status = "out-of-reach"
        r.reason = "generator: %s: %s" % (type(e).__name__, e)
        if verbose:
            (traceback.print_exc() if os.environ.get('TB') else None)
    r.secs = time.time() - t0
    return r


def show(r, full=False):
    print("%-60s %-12s obls=%d %.1fs covers=%s %s" % (r.c.name, r.status, len(r.obls), r.secs, getattr(r, "covers", ""), r.reason))
    for o, x in zip(r.obls, r.res):
        if full or x[0] != "unsat":
            print("    [%s] line %s %s: %s  %s %.2fs" % (o.kind, o.line, o.name, x[0], x[1], x[2]))


if __name__ == "__main__":
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "contracts"))
    import importlib
    reg = importlib.import_module("all_contracts").REGISTRY
    pat = sys.argv[1:] or [""]
    for c in reg:
        if c.trusted:
            continue
        if any(p in c.name for p in pat):
            show(verify(c, reg, verbose=True), full=os.environ.get("FULL"))
