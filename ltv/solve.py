"""Discharge: every obligation is a standalone SMT-LIB file, decided by z3 and, when z3 does not
answer `unsat`, by cvc5."""
import os, subprocess, tempfile, time, hashlib
from concurrent.futures import ThreadPoolExecutor
import z3

SEM = None      # bounds the number of solver processes over all generator processes
Z3BIN = os.environ.get("LTV_Z3", "z3-new")


def to_smt2(obl, neg=True):
    s = z3.Solver()
    for h in obl.hyps:
        s.add(h)
    s.add(z3.Not(obl.goal) if neg else obl.goal)
    return s.to_smt2()


def run(cmd, text, tmo):
    if SEM is not None:
        with SEM:
            return run1(cmd, text, tmo)
    return run1(cmd, text, tmo)


def run1(cmd, text, tmo):
    t = time.time()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(text)
    try:
        p = subprocess.run(cmd + [f.name], capture_output=True, text=True, timeout=tmo + 5)
        o = p.stdout.strip()
    except subprocess.TimeoutExpired:
        o = "timeout"
    finally:
        os.unlink(f.name)
    return o, time.time() - t


CONFIGS = [("z3", ["smt.mbqi=false"]), ("z3(auto_config=false)", ["auto_config=false", "smt.mbqi=false", "smt.case_split=3", "smt.relevancy=0"]),
           ("z3(seed 7)", ["smt.random_seed=7", "smt.arith.solver=2"]), ("z3(mbqi)", ["smt.random_seed=3"])]


def race(text, tmo):
    """several solver configurations at once; the first definite answer wins"""
    t = time.time()
    files, ps = [], []
    try:
        for nm, opts in CONFIGS + [("cvc5", None)]:
            f = tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False)
            files.append(f.name)
            f.write(text if opts is not None else "(set-logic ALL)\n" + text)
            f.close()
            cmd = [Z3BIN, "-T:%d" % tmo] + opts + [f.name] if opts is not None else \
                ["cvc5", "--tlimit=%d" % (tmo * 1000), "--full-saturate-quant", "--lang=smt2", f.name]
            ps.append((nm, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
        last, hint = "", None
        live = list(ps)
        while live and time.time() - t < tmo + 6:
            for nm, p in list(live):
                if p.poll() is not None:
                    live.remove((nm, p))
                    o = p.stdout.read().strip()
                    l = o.splitlines()[0] if o else ""
                    if l == "unsat" or l == "sat" and nm != "cvc5":
                        return l, nm, time.time() - t, o
                    if l == "sat":      # cvc5 1.1.2 answers sat wrongly on floats under uninterpreted functions: only if nobody objects
                        hint = (l, nm, time.time() - t, o)
                        continue
                    last = last or o
            time.sleep(0.02)
        if hint:
            return hint
        return "unknown", "z3+cvc5", time.time() - t, last
    finally:
        for nm, p in ps:
            if p.poll() is None:
                p.kill()
            p.wait()
        for f in files:
            os.unlink(f)


def decide(text, tmo=10, cvc=True):
    """-> (verdict, backend, seconds, raw)  verdict: unsat / sat / unknown"""
    o, dt = run([Z3BIN, "-T:3"], text, 3)
    l = o.splitlines()[0] if o else ""
    if l in ("unsat", "sat"):
        return l, "z3", dt, o
    if SEM is not None:
        with SEM:
            r = race(text, tmo)
    else:
        r = race(text, tmo)
    return r[0], r[1], r[2] + dt, r[3]


def decide_all(obls, tmo=10, workers=8, retry=None):
    texts = []
    for o in obls:
        if z3.is_true(o.goal):
            texts.append(None)
        else:
            texts.append(to_smt2(o))
    seen = {}
    with ThreadPoolExecutor(workers) as ex:
        futs = []
        for t in texts:
            if t is None:
                futs.append(None)
                continue
            h = hashlib.sha1(t.encode()).hexdigest()
            if h not in seen:
                seen[h] = ex.submit(decide, t, tmo)
            futs.append(seen[h])
        res = []
        for f in futs:
            res.append(("unsat", "simplifier", 0.0, "") if f is None else f.result())
        if retry:      # undecided within the first limit: once more with a larger one
            again = {}
            for k, r in enumerate(res):
                if r[0] == "unknown":
                    again[k] = ex.submit(decide, texts[k], retry)
            for k, f in again.items():
                res[k] = f.result()
    return res, texts
