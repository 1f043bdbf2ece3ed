#!/usr/bin/env python3-vt
"""check.py <property> [--thorough]

Decides one property on /repo's current working tree.
  1. every contract and lemma of the property: obligations generated from clang's AST of the current
     source, discharged by z3 / cvc5;
  2. the concrete harness (real compiled code, the contract as run-time oracle) runs alongside: it is
     the replay for failed obligations and the labelled-bounded stand-in for code out of reach.
Exit 0 / exit 1 + VIOLATION line."""
import sys, os, json, time, subprocess, tempfile, shutil, threading, multiprocessing as mp, re, resource
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "ltv"))
sys.path.insert(0, os.path.join(HERE, "contracts"))
sys.setrecursionlimit(200000)
import cxxast

REPO = cxxast.REPO
NCPU = os.cpu_count() or 8
NOTLIB = {"check-cstdint.cc"}


# ------------------------------------------------------------------ concrete harness
def lib_sources():
    d = os.path.join(REPO, "lttoolbox")
    out = []
    for f in sorted(os.listdir(d)):
        if f.endswith(".cc") and f not in NOTLIB and (not f.startswith("lt_") or f == "lt_locale.cc"):
            out.append(os.path.join(d, f))
    return out


FLAGS = ["-std=c++23", "-O1", "-w", "-D_GLIBCXX_ASSERTIONS"] + [d for d in cxxast.DEFS if d != "-DNDEBUG"] + cxxast.INCS
LIBS = ["-lxml2", "-licuio", "-licui18n", "-licuuc", "-licudata"]


class Harness(threading.Thread):
    def __init__(self, pid, tmp, seed, budget, thorough, runs):
        super().__init__()
        self.pid, self.tmp, self.seed, self.budget, self.thorough, self.runs = pid, tmp, seed, budget, thorough, runs
        self.built, self.err = False, ""
        self.fails, self.stats, self.samples, self.secs = [], {"evaluations": 0, "distinct": 0}, [], 0.0
        self.exe = None

    def cc(self, src, obj, extra=()):
        return subprocess.Popen(["g++"] + FLAGS + list(extra) + ["-c", src, "-o", obj],
                                stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)

    def build(self):
        main = os.path.join(HERE, "harness", self.pid + ".cc")
        if not os.path.exists(main):
            self.err = "no harness"
            return False
        head = open(main).read(4000)
        extra = re.findall(r"//\s*FLAGS:\s*(.*)", head)
        self.flags = extra[0].split() if extra else []
        self.tools = (re.findall(r"//\s*TOOLS:\s*(.*)", head) or [""])[0].split()
        jobs, objs = [], []
        todo = [(main, os.path.join(self.tmp, "main.o"))]
        for s in lib_sources():
            todo.append((s, os.path.join(self.tmp, os.path.basename(s) + ".o")))
        for t in self.tools:
            todo.append((os.path.join(REPO, "lttoolbox", t + ".cc"), os.path.join(self.tmp, "T_" + t + ".o")))
        todo.sort(key=lambda x: -os.path.getsize(x[0]) if os.path.exists(x[0]) else 0)
        running, errs = [], []
        while todo or running:
            while todo and len(running) < NCPU:
                s, o = todo.pop(0)
                running.append((self.cc(s, o, self.flags + ["-I" + os.path.join(HERE, "harness")]), s))
            p, s = running.pop(0)
            e = p.communicate()[1]
            if p.returncode:
                errs.append((s, e[-1500:]))
        if errs:
            self.err = "does not compile: %s: %s" % errs[0]
            return False
        lib = [os.path.join(self.tmp, os.path.basename(s) + ".o") for s in lib_sources()]
        self.exe = os.path.join(self.tmp, "harness")
        links = [([os.path.join(self.tmp, "main.o")], self.exe)]
        for t in self.tools:
            links.append(([os.path.join(self.tmp, "T_" + t + ".o")], os.path.join(self.tmp, t.replace("_", "-"))))
        for o, x in links:
            r = subprocess.run(["g++"] + self.flags + o + lib + LIBS + ["-o", x], capture_output=True, text=True)
            if r.returncode:
                self.err = "does not link: " + r.stderr[-1500:]
                return False
        return True

    def once(self, seed, budget):
        cmd = [self.exe, "--seed", str(seed), "--budget", str(budget)] + (["--thorough"] if self.thorough else [])
        env = dict(os.environ, HTMP=self.tmp, LC_ALL="C.UTF-8", UBSAN_OPTIONS="halt_on_error=1", ASAN_OPTIONS="detect_leaks=0:handle_abort=0")
        mem = None if "-fsanitize=address" in " ".join(self.flags) else (6 << 30)

        def lim():
            if mem:
                resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
        wd = tempfile.mkdtemp(dir=self.tmp)
        return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, preexec_fn=lim,
                                text=True, errors="replace", cwd=wd)

    def go(self, seeds, budget):
        ps = [self.once(s, budget) for s in seeds]
        for p in ps:
            try:
                out, _ = p.communicate(timeout=budget + 240)
            except subprocess.TimeoutExpired:
                p.kill()
                out, _ = p.communicate()
                out += "\nNOTE harness run cut off\n"
            got = False
            for l in out.splitlines():
                if l.startswith("FAIL "):
                    self.fails.append(l[5:].strip())
                    got = True
                elif l.startswith("STATS "):
                    for k, v in re.findall(r"(\w+)=([\d.]+)", l):
                        if k in ("evaluations", "distinct"):
                            self.stats[k] += int(v)
                elif l.startswith("SAMPLE ") and len(self.samples) < 6:
                    self.samples.append(l[7:])
            if p.returncode and not got:
                self.fails.append("crash | (harness process) | exit status %s" % p.returncode)

    def run(self):
        t = time.time()
        try:
            self.built = self.build()
            if self.built:
                self.go([self.seed * 1000 + i for i in range(self.runs)], self.budget)
        except Exception as e:
            self.err = "%s: %s" % (type(e).__name__, e)
        self.secs = time.time() - t


# ------------------------------------------------------------------ proofs
def prove_group(names, idxs, q, retry):
    """one process per group of contracts that share translation units"""
    import all_contracts, driver, solve
    reg = all_contracts.REGISTRY
    for nm in names:
        try:
            cxxast.tu(nm)
        except cxxast.ExtractError:
            pass
    procs = []
    for i in idxs:
        p = mp.Process(target=prove_one, args=(i, q, retry))
        p.start()
        procs.append(p)
    for p, i in zip(procs, idxs):
        p.join()
        if p.exitcode:
            q.put(dict(i=i, name=reg[i].name, status="out-of-reach", reason="generator process ended with %s" % p.exitcode,
                       obls=[], assumed=[], inlined=[], called=[], secs=0, covers=[]))


def prove_one(i, q, retry):
    import all_contracts, driver, solve, engine
    reg = all_contracts.REGISTRY
    c = reg[i]
    import threading
    w = threading.Timer(560, os._exit, (9,))      # a hung generator does not hold up the others
    w.daemon = True
    w.start()
    r = driver.verify(c, reg, retry=retry)
    obls = []
    for k, (o, x) in enumerate(zip(r.obls, r.res)):
        d = dict(name=o.name, kind=o.kind, line=o.line, verdict=x[0], backend=x[1], secs=round(x[2], 3))
        if x[0] != "unsat":
            d["raw"] = x[3][:4000]
            d["smt2"] = (r.texts[k] or "")[:200000]
        obls.append(d)
    q.put(dict(i=i, name=c.name, status=r.status, reason=r.reason, obls=obls, assumed=sorted(map(str, r.assumed)),
               inlined=sorted(map(str, r.inlined)), called=sorted(map(str, r.called)), secs=round(r.secs, 2),
               covers=getattr(r, "covers", []), lemma=bool(c.lemma)))


def prove(pid, retry):
    import all_contracts, solve
    solve.SEM = mp.Semaphore(NCPU)
    reg = all_contracts.REGISTRY
    mine = [i for i, c in enumerate(reg) if pid in c.props and not c.trusted]
    groups = {}
    for i in mine:
        c = reg[i]
        names = () if c.lemma else (tuple(c.tu) if isinstance(c.tu, (list, tuple)) else (c.tu,))
        groups.setdefault(names, []).append(i)
    q = mp.Queue()
    ps = [mp.Process(target=prove_group, args=(n, g, q, retry)) for n, g in groups.items()]
    for p in ps:
        p.start()
    out = []
    deadline = time.time() + 780
    while len(out) < len(mine) and time.time() < deadline:
        try:
            out.append(q.get(timeout=5))
        except Exception:
            if not any(p.is_alive() for p in ps) and q.empty():
                break
    got = {r["i"] for r in out}
    for i in mine:
        if i not in got:
            out.append(dict(i=i, name=reg[i].name, status="out-of-reach", reason="no result within the time limit", obls=[],
                            assumed=[], inlined=[], called=[], secs=0, covers=[], lemma=bool(reg[i].lemma)))
    for p in ps:
        if p.is_alive():
            p.kill()
    out.sort(key=lambda r: r["i"])
    return out


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def main():
    pid = sys.argv[1]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    noproof = "--no-proof" in sys.argv
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rp = os.path.join(HERE, "evidence", "replay_%s.json" % pid)
    ev = os.path.join(HERE, "evidence", pid + ".json")
    for f in (rp, ev):
        if os.path.exists(f):
            os.unlink(f)
    tmp = tempfile.mkdtemp(prefix="ltv_%s_" % pid)
    code = 0
    try:
        h = Harness(pid, tmp, seed, 120 if thorough else 12, thorough, 8 if thorough else 3)
        h.start()
        res = [] if noproof else prove(pid, 120 if thorough else 40)
        h.join()
        failed = [r for r in res if r["status"] in ("failed", "vacuous")]
        reach = [r for r in res if r["status"] == "out-of-reach"]
        if (failed or reach) and h.built and not h.fails:
            h.go([seed * 1000 + 100 + i for i in range(8)], 60 if failed else 30)
        kf = [k for k in known_findings() if k["property"] == pid and k.get("status") != "fixed"]
        fails, hit = [], set()
        for f in h.fails:
            m = [k for k in kf if re.search(k["match"], f)]
            if m:
                hit.add(m[0]["id"])
            else:
                fails.append(f)
        for r in failed:
            bad = [o for o in r["obls"] if o["verdict"] != "unsat"]
            keep = []
            for o in bad:
                nm = "%s: %s" % (r["name"], o["name"])
                m = [k for k in kf if k.get("obligation") and re.search(k["obligation"], nm)]
                if m:
                    hit.add(m[0]["id"])
                else:
                    keep.append(o)
            r["new"] = keep
        failed = [r for r in failed if r["new"] or r["status"] == "vacuous"]
        for k in kf:
            if k["id"] in hit:
                print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        nob = sum(len(r["obls"]) for r in res)
        ndis = sum(1 for r in res for o in r["obls"] if o["verdict"] == "unsat")
        for r in res:
            print("%-12s %3d obligations %6.1fs  %s %s" % (r["status"], len(r["obls"]), r["secs"], r["name"], r["reason"]))
            for o in r["obls"]:
                if o["verdict"] != "unsat":
                    print("      not discharged: [%s] line %s %s (%s)" % (o["kind"], o["line"], o["name"], o["verdict"]))
        print("harness: built=%s %s evaluations=%d failures=%d %.1fs" % (h.built, h.err.splitlines()[0][:300] if h.err else "", h.stats["evaluations"], len(h.fails), h.secs))
        for f in fails[:5]:
            print("  failing input: " + f[:600])
        viol = bool(failed or fails)
        if viol:
            json.dump(dict(property=pid, failing_inputs=fails[:40], seed=seed,
                           replay="python3-vt check.py %s --no-proof   (VERIF_SEED=%d); each failing input is clause | input | observed" % (pid, seed),
                           failed_obligations=[dict(function=r["name"], status=r["status"], obligations=r["new"] if r["new"] else "vacuous precondition") for r in failed]),
                      open(rp, "w"), indent=1)
            code = 1
        be = {}
        for r in res:
            for o in r["obls"]:
                if o["verdict"] == "unsat":
                    be[o["backend"]] = be.get(o["backend"], 0) + 1
        assumed = sorted({a for r in res for a in r["assumed"]})
        import all_contracts
        trusted = [c.name + ": " + str(c.trusted) for c in all_contracts.REGISTRY if c.trusted and pid in c.props]
        json.dump(dict(
            property=pid, tier="thorough" if thorough else "quick", seed=seed, level="proof" if nob else "exploration",
            coverage=dict(
                **({} if nob else dict(evaluations=h.stats["evaluations"], distinct_nontrivial=h.stats["distinct"], samples=h.samples,
                    rule="bounded stand-in: inputs generated from VERIF_SEED by harness/%s.cc, the contract evaluated at run time on the real code; non-trivial as counted there, distinct by the text of the input" % pid)),
                obligations=nob, discharged=ndis,
                checker_cmd="z3-new -T:<t> f.smt2 ; cvc5 --full-saturate-quant f.smt2 (one SMT-LIB file per obligation, generated by /verif/ltv from clang's AST of /repo)",
                trusted_base=["clang 18 AST", "LTV generator (/verif/ltv)", "z3 5.3.2 / cvc5 1.1.2", "models of the standard library in /verif/ltv/stl.py"] + trusted,
                functions_under_contract=[dict(function=r["name"], status=r["status"], obligations=len(r["obls"]), seconds=r["secs"], inlined=r["inlined"], contracts_used=r["called"], reason=r["reason"]) for r in res if not r.get("lemma")],
                lemmas=[dict(lemma=r["name"], status=r["status"], obligations=len(r["obls"]), seconds=r["secs"]) for r in res if r.get("lemma")],
                backends=be, solver_seconds=round(sum(o["secs"] for r in res for o in r["obls"]), 2),
                vacuity_covers=sum(len(r["covers"]) for r in res),
                bounded_stand_in=dict(what="concrete harness harness/%s.cc over the compiled code; bounded, not counted as proved" % pid,
                                      built=h.built, evaluations=h.stats["evaluations"], distinct_nontrivial=h.stats["distinct"], samples=h.samples, note=h.err)),
            assumptions=assumed + ["mathematical integers with an overflow obligation on every signed operation (int mode) or bit-vectors (bv mode)",
                                   "distinct reference parameters do not alias; allocation does not fail; termination is not proved"],
            wall_s=round(time.time() - t0, 1), violations=len(fails) + len(failed)), open(ev, "w"), indent=1)
        if viol:
            print("VIOLATION property=%s replay=%s%s" % (pid, rp, "" if fails else " no-failing-input-found"))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


if __name__ == "__main__":
    mp.set_start_method("fork")
    main()
