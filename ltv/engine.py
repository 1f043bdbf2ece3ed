"""VC generator: symbolic execution of clang's AST of the real functions against contracts.

  * a call to a function that has a contract is checked against the contract (requires is an
    obligation, ensures is assumed, everything in `modifies` is forgotten);
  * a call to a /repo function without a contract is inlined;
  * a call into the standard library uses the trusted models in stl.py;
  * loops are cut at their invariants (no bound); a loop without invariant must be fully
    unrolled, with the unwinding condition proved infeasible;
  * anything else raises Unsupported: the function is then reported out of reach, never proved.
"""
import sys, itertools, re
import z3
from ctypes_ import T, I, USTR, parse
from values import Sorts, View, wrap, raw, sel, proj, And, Unsupported
import cxxast, ctypes_
from cxxast import inner

INT = I(32, True)
SZ = I(64, False)


class LV:
    __slots__ = ("root", "steps", "t")

    def __init__(self, root, steps, t):
        self.root, self.steps, self.t = root, tuple(steps), t.deref()

    def __repr__(self):
        return "LV(%s%s)" % (self.root, "".join("." + str(s) for s in self.steps))


class Iter:
    """iterator into container `lv`.  vec: idx;  map/set/mmap: key (elem), end, seen"""

    def __init__(self, kind, lv, **kw):
        self.kind, self.lv = kind, lv
        self.idx = kw.get("idx"); self.key = kw.get("key"); self.end = kw.get("end")
        self.seen = kw.get("seen"); self.rk = kw.get("rk"); self.rev = kw.get("rev", False)
        self.isend = kw.get("isend", False)

    def __repr__(self):
        return "Iter(%s,%s)" % (self.kind, self.lv)


class PyPair:
    def __init__(self, first, second):
        self.first, self.second = first, second


class Addr:
    def __init__(self, lv, off=None):
        self.lv = lv


class Lambda:
    def __init__(self, node, frame):
        self.node, self.frame = node, frame


class Ignored:
    """value with no modelled content (stderr/stdout streams)"""


IGN = Ignored()


class Frame:
    def __init__(self, uid, this, fn):
        self.uid, self.this, self.fn = uid, this, fn
        self.env, self.names = {}, {}

    def copy(self):
        f = Frame(self.uid, self.this, self.fn)
        f.env, f.names = dict(self.env), dict(self.names)
        return f


class St:
    def __init__(self):
        self.store, self.pc, self.frames = {}, [], []

    def copy(self):
        s = St()
        s.store, s.pc = dict(self.store), list(self.pc)
        s.frames = [f.copy() for f in self.frames]
        return s

    @property
    def fr(self):
        return self.frames[-1]


class Obl:
    def __init__(self, name, kind, hyps, goal, fn, line=None):
        self.name, self.kind, self.hyps, self.goal, self.fn, self.line = name, kind, hyps, goal, fn, line


def walk(n):
    yield n
    for c in inner(n):
        yield from walk(c)


NORM, BRK, CONT, EXIT, THROW = ("norm",), ("brk",), ("cont",), ("exit",), ("throw",)


class Loop:
    def __init__(self, inv=None, unroll=None, history=None):
        """history: L -> {name: value}; a history variable is the sequence of the values an expression has at the head
        of the loop, by number of the iteration (L.iters, L.hist(name)); not for loops inside loops"""
        self.inv, self.unroll, self.history = inv, unroll, history


class Contract:
    """key: 'Class::name' plus optional signature substring (as clang prints the type)"""

    def __init__(self, key, tu=None, sig=None, requires=None, ensures=None, modifies=(), loops=(),
                 mode="int", strings="opaque", tokens=False, ordered=False, exits=None, inlined_only=False, trusted=None,
                 const=None, props=(), safety=True, client=None, pure=False, note="", opaque=(), timeout=None,
                 axioms=None, unroll=12, rec=None, alias=None, defines=None, svec=True, throws=None,
                 arrays=(), inline=False, assumes=None, sizecap=None, heaps=(), elemptr=None):
        self.heaps, self.elemptr = heaps, elemptr
        self.arrays, self.inline, self.assumes, self.sizecap = arrays, inline, assumes, sizecap
        self.key, self.tu, self.sig = key, tu, sig
        self.requires, self.ensures, self.modifies = requires, ensures, tuple(modifies)
        self.loops, self.mode, self.strings, self.tokens = list(loops), mode, strings, tokens
        self.ordered = ordered      # use that multimaps iterate in key order
        self.exits, self.trusted, self.props, self.safety = exits, trusted, props, safety
        self.client, self.note, self.const = client, note, const
        self.opaque, self.timeout, self.axioms, self.unroll = opaque, timeout, axioms, unroll
        self.alias, self.defines, self.svec, self.throws = alias, defines, svec, throws

    lemma = None

    @property
    def name(self):
        return self.key + ("(" + self.sig + ")" if self.sig else "")


class Lemma:
    """a closed formula over spec functions / contracts; `fn()` -> list of (name, goal)"""

    def __init__(self, key, fn, props=(), timeout=None):
        self.key, self.fn, self.props, self.timeout = key, fn, props, timeout
        self.trusted = None
        self.lemma = True
        self.sig = None

    @property
    def name(self):
        return "lemma " + self.key


class Ctx:
    """what a contract sees"""

    def __init__(self, eng, old, new, this, args, ret, ret_t):
        self.eng, self.S = eng, eng.S
        self._old, self._new, self._this, self._args, self._ret, self._rt = old, new, this, args, ret, ret_t

    def _read(self, st, a):
        e = self.eng
        if isinstance(a, LV):
            return wrap(self.S, a.t, e.read(st, a))
        if isinstance(a, tuple):           # by-value snapshot (type, value)
            t, v = a
            if isinstance(v, LV):
                return wrap(self.S, v.t, e.read(st, v))
            if isinstance(v, (Iter, PyPair, Addr, Ignored)):
                if isinstance(v, Addr):
                    return wrap(self.S, v.lv.t, e.read(st, v.lv))
                return v
            return wrap(self.S, t, v)
        return a

    @property
    def this(self):
        return self._read(self._new, self._this)

    @property
    def this0(self):
        return self._read(self._old, self._this)

    def arg(self, i):
        return self._read(self._new, self._args[i])

    def arg0(self, i):
        return self._read(self._old, self._args[i])

    @property
    def ret(self):
        r = self._ret
        if isinstance(r, LV):
            return wrap(self.S, r.t, self.eng.read(self._new, r))
        if isinstance(r, (Iter, PyPair)):
            return r
        return wrap(self.S, self._rt, r)

    def fresh(self, t, hint="g"):
        return self.S.fresh(parse(t) if isinstance(t, str) else t, hint)

    def sort(self, t):
        return self.S.sort(parse(t) if isinstance(t, str) else t)

    def witness(self, name, ty=None):
        """a local of the function at its return, as witness of an existential postcondition; at call sites some value"""
        if getattr(self, "at_call", False):
            if not hasattr(self, "_wit"):
                self._wit = {}
            if name not in self._wit:
                t = parse(ty)
                v = self.S.fresh(t, "wit_" + name)
                for g in self.S.wf(t, v):
                    self.eng.assume(self._new, g)
                self._wit[name] = wrap(self.S, t, v)
            return self._wit[name]
        for fr in self._new.frames:
            lv = fr.names.get(name)
            if lv is not None and lv.root in self._new.store:
                return wrap(self.S, lv.t, self.eng.read(self._new, lv))
        if ty is not None and self.eng.declares(self.eng.fnode, name):
            t = self.eng.canon(parse(ty), self.eng.tus[0])      # a return before its declaration: any value
            return wrap(self.S, t, self.S.fresh(t, "wit_" + name))
        raise Unsupported("no local %s at the return" % name)

    def _heap(self, st, t, kind="heap"):
        e = self.eng
        t = parse(t, e.tus[0].aliases)
        key = (kind, repr(t))
        if key not in st.store:
            e.heap_lv_init(st, t)
        return wrap(self.S, e.rt[key], st.store[key])

    def heap(self, t):
        """every object of type t, by address"""
        return self._heap(self._new, t)

    def heap0(self, t):
        return self._heap(self._old, t)

    def alive(self, t):
        """the addresses at which an object of type t lives (contracts with heaps=)"""
        return self._heap(self._new, t, "alive").arr

    def alive0(self, t):
        return self._heap(self._old, t, "alive").arr

    def ghost(self, name, sort):
        """uninterpreted ghost constant, the same one in requires, ensures and invariants"""
        return z3.Const("ghost_" + name, sort)


    def hist(self, name, sort=None, no=0):
        """history variable `name` of loop `no`; at call sites some sequence"""
        if sort is None:
            sort = z3.IntSort()
        if getattr(self, "at_call", False):
            if not hasattr(self, "_wit"):
                self._wit = {}
            k = "hist_" + name
            if k not in self._wit:
                self._wit[k] = self.S.fresh_sort(z3.ArraySort(z3.IntSort(), sort), k)
            return self._wit[k]
        return z3.Const("hist_%d_%s" % (no, name), z3.ArraySort(z3.IntSort(), sort))


class LoopCtx(Ctx):
    def __init__(self, eng, st, entry, ctx, it):
        Ctx.__init__(self, eng, ctx._old, st, ctx._this, ctx._args, None, None)
        self.st, self.entry_st, self.it, self.ctx = st, entry, it, ctx

    def _find(self, st, name, ty):
        for fr in reversed(st.frames):
            if name in fr.names:
                lv = fr.names[name]
                if lv.root in st.store and (ty is None or repr(lv.t) == repr(parse(ty))):
                    return lv
        if ty is not None:
            c = []
            for fr in reversed(st.frames):
                for n, lv in fr.names.items():
                    if repr(lv.t) == repr(parse(ty)) and lv.root in st.store and lv.root[0] != "arg" and not n.startswith("__"):
                        c.append(lv)
            if len(c) == 1:
                return c[0]
        raise Unsupported("invariant names local %r, which the code no longer has" % name)

    def v(self, name, ty=None):
        lv = self._find(self.st, name, ty)
        x = self.eng.read(self.st, lv)
        return x if isinstance(x, (Iter, PyPair)) else wrap(self.S, lv.t, x)

    def v0(self, name, ty=None):
        lv = self._find(self.entry_st, name, ty)
        x = self.eng.read(self.entry_st, lv)
        return x if isinstance(x, (Iter, PyPair)) else wrap(self.S, lv.t, x)

    @property
    def this_entry(self):
        return self._read(self.entry_st, self._this)

    def arg_entry(self, i):
        return self._read(self.entry_st, self._args[i])

    @property
    def iters(self):
        """how many iterations of this loop (one with history) are complete"""
        return self.st.store[("hist",)]

    @property
    def seen(self):
        if self.it is None or self.it.seen is None:
            raise Unsupported("loop no longer iterates over a container")
        return self.it.seen

    @property
    def nseen(self):
        """how many elements the loop has passed"""
        if self.it is None or getattr(self.it, "n", None) is None:
            raise Unsupported("loop no longer iterates over a container")
        return self.it.n

    def outer(self, no):
        """iterator of the enclosing loop number `no`"""
        r = self.eng.loopiter.get(no)
        if r is None or r not in self.st.store:
            raise Unsupported("no enclosing container loop %d" % no)
        v = self.st.store[r]
        return v.first if isinstance(v, PyPair) else v

    def outer_key(self, no):
        return self.outer(no).key

    def outer_seen(self, no):
        return self.outer(no).seen

    def outer_nseen(self, no):
        return self.outer(no).n

    @property
    def idx(self):
        if self.it is not None and self.it.idx is not None:
            return self.it.idx
        raise Unsupported("loop has no index")


class Engine:
    def __init__(self, contract, registry, tus):
        self.c = contract
        self.inloop = 0
        ctypes_.SVEC = contract.svec
        self.reg = registry
        self.tus = tus
        self.S = Sorts(contract.mode, contract.strings, self.record_fields, contract.tokens)
        self.rt = {}
        self.obls = []
        self.dry = 0
        self.wlog = None
        self.n = itertools.count(1)
        self.assumed = set()       # trusted models / contracts used
        self.inlined = set()
        self.called = set()
        self.loopno = {}
        self.loopiter = {}
        self.loopseq = []
        self.sorts = []            # (permutation, inverse, sorted array, original, lo, hi) of every std::sort met
        self.depth = 0
        self.reached = 0
        self.axioms = []
        self.npaths = 0
        self.termcheck = []
        self.line = None
        import stl
        self.stl = stl.Models(self)

    # ---------------------------------------------------------------- records
    def record_fields(self, name):
        for tu in self.tus:
            r = self.find_record(tu, name)
            if r is None:
                continue
            out = []
            for b in r.get("bases", []):
                bt = self.ty({"type": b["type"]}, tu)
                bf = self.record_fields(bt.name) if bt.k == "rec" else None
                if bf:
                    out += bf
            for i in inner(r):
                if i.get("kind") == "FieldDecl":
                    t = self.ty(i, tu)
                    if t.k == "ref":
                        t = T("ptr", args=t.args)
                    if t.k == "ptr" and re.sub(r"<.*>", "", name) + "::" + i["name"] in self.c.arrays:
                        t = T("vec", "own", t.args)      # array owned by this pointer: new T[n] ... delete[]
                    out.append((i["name"], t))
            skip = self.c.opaque
            out = [(n, t) for n, t in out if n not in skip and name + "::" + n not in skip]
            return out
        return None

    def find_record(self, tu, name):
        nm = name.replace("const ", "").strip()
        if nm in tu.records:
            return tu.records[nm]
        def norm(x):
            x = re.sub(r"\b(std::|__cxx11::)", "", x).replace(" ", "")
            return re.sub(r",less<[^<>]*>|,allocator<[^<>]*>", "", x)
        for k, r in tu.records.items():
            if k.split("::")[-1] == nm or norm(k) == norm(nm):
                return r
        return None

    # ---------------------------------------------------------------- types
    def ty(self, n, tu=None):
        t = n["type"]
        q = t.get("desugaredQualType") or t["qualType"]
        al = (tu or self.tus[0]).aliases
        r = parse(q, al)
        if r.k == "rec" and t.get("desugaredQualType") and parse(t["qualType"], al).k != "rec":
            return self.canon(parse(t["qualType"], al), tu or self.tus[0])
        return self.canon(r, tu or self.tus[0])

    def canon(self, t, tu):
        """a nested record written by its short name (inside its class) is the same type"""
        if t.k == "rec" and t.name and "::" not in t.name and "<" not in t.name and t.name not in tu.records:
            m = tu.short.get(t.name)
            if m:
                return T("rec", m, t.args)
        if not t.args:
            return t
        a = tuple(self.canon(x, tu) if isinstance(x, T) else x for x in t.args)
        return t if all(x is y for x, y in zip(a, t.args)) else T(t.k, t.name, a)

    # ---------------------------------------------------------------- store
    def newroot(self, st, kind, t, v, name=None):
        r = (kind, next(self.n)) + ((name,) if name else ())
        st.store[r] = v
        self.rt[r] = t.deref()
        return LV(r, (), t)

    def read(self, st, lv):
        if lv.root not in st.store:
            raise Unsupported("read of dead object %r" % (lv,))
        e = st.store[lv.root]
        t = self.rt[lv.root]
        for s in lv.steps:
            if isinstance(e, PyPair):
                e = getattr(e, s[1]); t = None
                continue
            e, t = self.step(e, t, s)
        if isinstance(e, z3.ExprRef) and t is not None and lv.steps:
            for f in self.S.wf(t, e) if t.k in ("int", "vec", "map", "set", "mmap", "pair") else ():
                self.assume(st, f)
        return e

    def step(self, e, t, s):
        k = s[0]
        if k == "f":
            d = self.S.dt(t)
            if s[1] not in d.idx:
                raise Unsupported("field %s of %s not modelled" % (s[1], t))
            return d.get(e, s[1]), d.ftypes[d.idx[s[1]]]
        if k == "i":
            if t == USTR and self.S.strings == "opaque":
                return self.stl.schar(e, s[1]), t.args[0]
            d = self.S.dt(t)
            return sel(d.get(e, "arr"), s[1]), t.args[0]
        if k == "m":
            d = self.S.dt(t)
            return sel(d.get(e, "val"), s[1]), t.args[1]
        raise Unsupported("step " + str(s))

    def write(self, st, lv, v):
        if self.wlog is not None:
            p = []
            for s in lv.steps:
                if s[0] != "f":
                    break
                p.append(s[1])
            self.wlog.add((lv.root, tuple(p)))
        if not lv.steps:
            st.store[lv.root] = v
            return
        if lv.root not in st.store:
            raise Unsupported("write to dead object")
        e = st.store[lv.root]
        st.store[lv.root] = self.upd(e, self.rt[lv.root], lv.steps, v)

    def upd(self, e, t, steps, v):
        if not steps:
            return v
        s = steps[0]
        if isinstance(e, PyPair):
            p = PyPair(e.first, e.second)
            setattr(p, s[1], self.upd(getattr(e, s[1]), None, steps[1:], v))
            return p
        d = self.S.dt(t) if not (t == USTR and self.S.strings == "opaque") else None
        if d is None:
            raise Unsupported("write into opaque string")
        sub, st_ = self.step(e, t, s)
        nv = self.upd(sub, st_, steps[1:], v)
        if s[0] == "f":
            return d.set(e, s[1], nv)
        if s[0] == "i":
            return d.set(e, "arr", z3.Store(d.get(e, "arr"), s[1], nv))
        if s[0] == "m":
            return d.set(e, "val", z3.Store(d.get(e, "val"), s[1], nv))

    def assume(self, st, f):
        if isinstance(f, bool):
            if not f:
                st.pc.append(z3.BoolVal(False))
            return
        if z3.is_true(f):
            return
        for g in st.pc[-12:]:
            if g.eq(f):
                return
        st.pc.append(f)

    def tmp(self, st, t, v):
        return self.newroot(st, "tmp", t, v)

    def rv(self, st, x):
        return self.read(st, x) if isinstance(x, LV) and x.t.k != "stream" else x

    def rvp(self, st, x):
        """value of x; engine-level objects (iterators, pairs of iterators) come out as such"""
        if not isinstance(x, LV):
            return x
        p = self.peek(st, x)
        if p is not None and not isinstance(p, z3.ExprRef):
            return p
        return self.read(st, x)

    def as_lv(self, st, x, t):
        return x if isinstance(x, LV) else self.tmp(st, t, x)

    # ---------------------------------------------------------------- obligations
    def oblige(self, st, kind, name, goal):
        if self.dry:
            return
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if kind in ("bounds", "overflow") and not self.c.safety:
            return
        g = z3.simplify(goal) if kind in ("bounds", "overflow") else goal
        if z3.is_true(g):
            self.obls.append(Obl(name, kind, [], z3.BoolVal(True), self.c.name, self.line))
            return
        self.obls.append(Obl(name, kind, list(st.pc), goal, self.c.name, self.line))

    def qfree(self, f):
        if not hasattr(self, "_qf"):
            self._qf = {}
        k = f.get_id()
        if k in self._qf:
            return self._qf[k][1]
        seen, todo, r = set(), [f], True
        while todo:
            x = todo.pop()
            if z3.is_quantifier(x):
                r = False
                break
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            todo.extend(x.children())
        self._qf[k] = (f, r)
        return r

    def feasible(self, st):
        for f in st.pc[-3:]:
            if z3.is_false(z3.simplify(f)):
                return False
        s = z3.Solver()
        s.set("timeout", 300)
        for f in st.pc:
            if self.qfree(f):
                s.add(f)
        return s.check() != z3.unsat

    def fork(self, st, cond):
        """-> (st_true|None, st_false|None)"""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return st, None
        if z3.is_false(c):
            return None, st
        a, b = st.copy(), st
        self.assume(a, cond)
        self.assume(b, z3.Not(cond))
        fa = self.feasible(a)
        fb = self.feasible(b) if fa else True
        return (a if fa else None), (b if fb else None)

    # ---------------------------------------------------------------- conversion helpers
    def tobool(self, st, v, t=None):
        v = self.rv(st, v)
        if isinstance(v, Addr):
            return z3.BoolVal(True)
        if isinstance(v, Ignored):
            return z3.BoolVal(True)
        if z3.is_bool(v):
            return v
        if z3.is_bv(v):
            return v != 0
        if z3.is_int(v):
            return v != 0
        raise Unsupported("bool conversion")

    def cast(self, st, v, a, b):
        """C++ arithmetic conversion of rvalue v from type a to type b"""
        S = self.S
        if b.k == "bool":
            if a.k == "double":
                return z3.Not(self.stl.deq(v, S.dblval("0")))
            return self.tobool(st, v)
        if a.k == "bool":
            if b.k == "int":
                return z3.If(v, S.intval(1, b), S.intval(0, b))
            if b.k == "double":
                return z3.If(v, S.dblval("1"), S.dblval("0"))
        if a.k == "int" and b.k == "int":
            if S.mode == "int":
                la, ha = a.rng
                lb, hb = b.rng
                if lb <= la and ha <= hb:
                    return v
                if z3.is_int_value(v):
                    return S.intval(v.as_long(), b)
                m = 1 << b.bits
                w = v % m
                if b.signed:
                    w = z3.If(w > hb, w - m, w)
                # sign change at equal or larger width of a value known to fit is the identity
                return z3.If(z3.And(v >= lb, v <= hb), v, w)
            if b.bits == a.bits:
                return v
            if b.bits < a.bits:
                return z3.Extract(b.bits - 1, 0, v)
            return z3.SignExt(b.bits - a.bits, v) if a.signed else z3.ZeroExt(b.bits - a.bits, v)
        if a.k == "int" and b.k == "double":
            return self.stl.int2dbl(v, a)
        if a.k == "double" and b.k == "int":
            return self.stl.dbl2int(v, b)
        if a.k == "double" and b.k == "double":
            return v
        raise Unsupported("cast %s -> %s" % (a, b))

    def arith(self, st, op, a, b, t, ta):
        S = self.S
        if t.k == "double" or ta.k == "double":
            return self.stl.darith(st, op, a, b)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            if S.mode == "bv" and z3.is_bv(a):
                sg = ta.signed
                r = {"==": lambda: a == b, "!=": lambda: a != b,
                     "<": lambda: (a < b) if sg else z3.ULT(a, b), ">": lambda: (a > b) if sg else z3.UGT(a, b),
                     "<=": lambda: (a <= b) if sg else z3.ULE(a, b), ">=": lambda: (a >= b) if sg else z3.UGE(a, b)}[op]()
                return r
            if z3.is_bool(a) and op not in ("==", "!="):
                a, b = z3.If(a, 1, 0), z3.If(b, 1, 0)
            return {"==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, ">": lambda: a > b,
                    "<=": lambda: a <= b, ">=": lambda: a >= b}[op]()
        if S.mode == "bv":
            sg = t.signed
            if op in ("<<", ">>"):
                if b.size() < a.size():
                    b = z3.ZeroExt(a.size() - b.size(), b)
                elif b.size() > a.size():
                    b = z3.Extract(a.size() - 1, 0, b)
                self.oblige(st, "overflow", "shift amount in range", z3.ULT(b, a.size()))
            if op in ("+", "-", "*") and sg and self.c.safety:
                f = {"+": lambda: z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b)),
                     "-": lambda: z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True)),
                     "*": lambda: z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b))}[op]()
                self.oblige(st, "overflow", "signed %s does not overflow" % op, f)
            if op in ("/", "%"):
                self.oblige(st, "overflow", "division by zero", b != 0)
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b,
                    "/": lambda: (a / b) if sg else z3.UDiv(a, b), "%": lambda: z3.SRem(a, b) if sg else z3.URem(a, b),
                    "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b, "<<": lambda: a << b,
                    ">>": lambda: (a >> b) if sg else z3.LShR(a, b)}[op]()
        lo, hi = t.rng
        if op in ("+", "-", "*"):
            r = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b}[op]()
            if t.signed:
                self.oblige(st, "overflow", "signed %s does not overflow" % op, z3.And(r >= lo, r <= hi))
                return r
            if z3.is_int_value(z3.simplify(r)):
                return S.intval(z3.simplify(r).as_long(), t)
            m = 1 << t.bits
            if op == "+":
                return z3.If(r < m, r, r - m)
            if op == "-":
                return z3.If(r >= 0, r, r + m)
            return z3.If(r < m, r, r % m)
        if op in ("/", "%"):
            self.oblige(st, "overflow", "division by zero", b != 0)
            if t.signed:
                q = z3.If(a >= 0, z3.If(b > 0, a / b, -(a / (-b))), z3.If(b > 0, -((-a) / b), (-a) / (-b)))
                if op == "%" and not z3.is_int_value(z3.simplify(b)):
                    return z3.If(z3.And(a >= 0, b > 0), z3.If(a < b, a, z3.If(a - b < b, a - b, a % b)), a - q * b)
                return q if op == "/" else a - q * b
            if op == "%" and not z3.is_int_value(z3.simplify(b)):
                return z3.If(a < b, a, z3.If(a - b < b, a - b, a % b))
            return a / b if op == "/" else a % b
        if op in ("<<", ">>", "&", "|", "^"):
            bs = z3.simplify(b)
            as_ = z3.simplify(a)
            if op in ("&", "|") and z3.is_int_value(as_) and not z3.is_int_value(bs):
                a, b, as_, bs = b, a, bs, as_
            if not z3.is_int_value(bs):
                raise Unsupported("bit operation on variables in integer mode")
            c = bs.as_long()
            if z3.is_int_value(as_):
                x = as_.as_long()
                return S.intval({"<<": x << c, ">>": x >> c, "&": x & c, "|": x | c, "^": x ^ c}[op], t)
            if op == "<<":
                return self.cast(st, a * (1 << c), I(64, True), t) if not t.signed else a * (1 << c)
            if op == ">>":
                return a / (1 << c)
            if c < 0:
                raise Unsupported("negative mask")
            if op == "&" and (c & (c + 1)) == 0:
                return a % (c + 1)
            bits = [i for i in range(c.bit_length()) if c >> i & 1]
            bit = lambda i: (a / (1 << i)) % 2
            if op == "&":
                return z3.Sum(*[bit(i) * (1 << i) for i in bits]) if len(bits) > 1 else bit(bits[0]) * (1 << bits[0])
            if op == "|":
                return a + z3.Sum(*[(1 - bit(i)) * (1 << i) for i in bits]) if bits else a
        raise Unsupported("operator " + op)

    # ---------------------------------------------------------------- expressions
    def ev(self, n, st):
        k = n["kind"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Unsupported("expression kind " + k)
        return m(n, st)

    def ev1(self, n, st):
        r = self.ev(n, st)
        if len(r) != 1:
            raise Unsupported("branching where a single path is needed")
        return r[0]

    def evs(self, ns, st):
        """evaluate a list of expressions left to right"""
        acc = [(st, [])]
        for x in ns:
            nxt = []
            for s, vs in acc:
                for s2, v in self.ev(x, s):
                    nxt.append((s2, vs + [v]))
            acc = nxt
        return acc

    def rvs(self, ns, st):
        return [(s, [self.rv(s, v) for v in vs]) for s, vs in self.evs(ns, st)]

    def pass1(self, n, st):
        return self.ev(inner(n)[0], st)

    e_ParenExpr = e_ExprWithCleanups = e_CXXBindTemporaryExpr = e_ConstantExpr = pass1
    e_SubstNonTypeTemplateParmExpr = e_CXXRewrittenBinaryOperator = pass1
    e_CXXStdInitializerListExpr = pass1

    def e_FullExpr(self, n, st):
        return self.pass1(n, st)

    def e_MaterializeTemporaryExpr(self, n, st):
        t = self.ty(n)
        out = []
        for s, v in self.ev(inner(n)[0], st):
            if isinstance(v, LV) or isinstance(v, (Iter, PyPair, Ignored)):
                out.append((s, v))
            else:
                out.append((s, self.tmp(s, t, v)))
        return out

    def e_IntegerLiteral(self, n, st):
        return [(st, self.S.intval(int(n["value"]), self.ty(n)))]

    def e_CharacterLiteral(self, n, st):
        t = self.ty(n)
        return [(st, self.S.intval(int(n["value"]), t if t.k == "int" else INT))]

    def e_FloatingLiteral(self, n, st):
        return [(st, self.S.dblval(n["value"]))]

    def e_CXXBoolLiteralExpr(self, n, st):
        return [(st, z3.BoolVal(bool(n["value"])))]

    def e_CXXNullPtrLiteralExpr(self, n, st):
        return [(st, z3.IntVal(0))]

    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_StringLiteral(self, n, st):
        return [(st, ("strlit", n["value"]))]

    def e_UserDefinedLiteral(self, n, st):
        todo = list(inner(n))[1:]
        while todo:
            x = todo.pop(0)
            if x["kind"] == "StringLiteral":
                self.assumed.add('operator ""_u / ""_uv yields the literal')
                return [(st, self.stl.strlit(x["value"], USTR))]
            todo += inner(x)
        raise Unsupported("user-defined literal")

    def e_CXXThisExpr(self, n, st):
        return [(st, Addr(st.fr.this))]

    def e_CXXDefaultArgExpr(self, n, st):
        if inner(n):
            return self.pass1(n, st)
        return [(st, ("defaultarg",))]

    def e_CXXDefaultInitExpr(self, n, st):
        return self.pass1(n, st)

    def e_CXXScalarValueInitExpr(self, n, st):
        return [(st, self.S.default(self.ty(n)))]

    def e_ImplicitValueInitExpr(self, n, st):
        return [(st, self.S.default(self.ty(n)))]

    def e_UnaryExprOrTypeTraitExpr(self, n, st):
        if n.get("name") == "sizeof":
            t = None
            if "argType" in n:
                t = parse(n["argType"].get("desugaredQualType") or n["argType"]["qualType"])
            elif inner(n):
                t = self.ty(inner(n)[0])
            if t is not None:
                b = {"int": t.bits // 8 if t.k == "int" else 0, "bool": 1, "double": 8, "ptr": 8}.get(t.k)
                if b:
                    return [(st, self.S.intval(b, SZ))]
        raise Unsupported("sizeof")

    def e_DeclRefExpr(self, n, st):
        d = n["referencedDecl"]
        k = d["kind"]
        if k in ("VarDecl", "ParmVarDecl", "BindingDecl"):
            for fr in (st.fr,):
                if d["id"] in fr.env:
                    return [(st, fr.env[d["id"]])]
            nm = d.get("name")
            if nm in ("cerr", "cout", "clog", "wcerr", "stderr", "stdout"):
                return [(st, IGN)]
            return self.global_var(d, st, n)
        if k == "EnumConstantDecl":
            for tu in self.tus:
                if d["id"] in tu.enums:
                    return [(st, self.S.intval(tu.enums[d["id"]], INT))]
            raise Unsupported("enum constant " + d.get("name", ""))
        if k in ("FunctionDecl", "CXXMethodDecl"):
            return [(st, ("fun", d))]
        raise Unsupported("reference to " + k)

    def global_var(self, d, st, n=None):
        nm = d.get("name")
        for tu in self.tus:
            g = tu.byid.get(d["id"])
            if g is None:
                for q, x in tu.globals.items():
                    if q.split("::")[-1] == nm:
                        g = x
            if g is None:
                # static const members
                for r in tu.records.values():
                    for i in inner(r):
                        if i.get("kind") == "VarDecl" and i.get("name") == nm:
                            g = i
            if g is not None:
                init = [i for i in inner(g) if i.get("kind") not in ("FullComment",) and "Attr" not in i.get("kind", "")]
                key = ("glob", nm)
                if key not in st.store:
                    t = self.ty(g, tu)
                    if init:
                        s, v = self.ev1(init[0], st)
                        st.store[key] = self.rv(s, v)
                    else:
                        if nm in (self.c.const or {}):
                            st.store[key] = self.S.intval(self.c.const[nm], t)
                        else:
                            raise Unsupported("global %s without initialiser" % nm)
                    self.rt[key] = t
                return [(st, LV(key, (), self.rt[key]))]
        v = self.stl.global_const(d, cxxast.text(st.fr.fn, n) if n is not None and st.fr.fn and st.fr.fn.get("_file") else "")
        if v is not None:
            return [(st, v)]
        raise Unsupported("global variable " + str(nm))

    def e_MemberExpr(self, n, st):
        out = []
        nm = n.get("name")
        if nm and n["type"]["qualType"] == "<bound member function type>":
            for s, b in self.ev(inner(n)[0], st):
                if n.get("isArrow"):
                    b = self.deref(s, b, self.ty(inner(n)[0]))
                out.append((s, ("method", b, nm, n.get("referencedMemberDecl"), self.ty(inner(n)[0]))))
            return out
        for s, b in self.ev(inner(n)[0], st):
            bt = self.ty(inner(n)[0])
            if n.get("isArrow"):
                b = self.deref(s, b, bt)
            if isinstance(b, ("".__class__,)):
                raise Unsupported("member of string")
            if isinstance(b, tuple) and b and b[0] == "elemref":
                out.append((s, self.elem_field(s, b, nm)))
                continue
            if isinstance(b, PyPair):
                out.append((s, getattr(b, nm)))
                continue
            if isinstance(b, LV):
                pk = self.peek(s, b)
                if isinstance(pk, tuple) and pk and pk[0] == "elemref":
                    out.append((s, self.elem_field(s, pk, nm)))
                    continue
                if isinstance(pk, PyPair):
                    out.append((s, LV(b.root, b.steps + (("f", nm),), T("iter"))))
                    continue
                if b.t.k in ("rec", "pair", "tuple"):
                    d = self.S.dt(b.t)
                    if nm not in d.idx:
                        # static member?
                        out.append((s, self.global_var({"name": nm, "id": n.get("referencedMemberDecl")}, s)[0][1]))
                        continue
                    out.append((s, LV(b.root, b.steps + (("f", nm),), d.ftypes[d.idx[nm]])))
                    continue
            if isinstance(b, z3.ExprRef):
                t = bt.args[0] if bt.k == "ptr" else bt
                d = self.S.dt(t)
                out.append((s, LV(self.tmp(s, t, b).root, (("f", nm),), d.ftypes[d.idx[nm]])))
                continue
            raise Unsupported("member %s of %r" % (nm, b))
        return out

    def peek(self, st, lv):
        e = st.store.get(lv.root)
        for s in lv.steps:
            if isinstance(e, PyPair) and s[0] == "f":
                e = getattr(e, s[1])
            else:
                return None
        return e

    def elem_field(self, st, b, nm):
        _, it = b
        ct = it.lv.t
        if it.kind == "map":
            if nm == "first":
                return it.key
            if nm == "second":
                return LV(it.lv.root, it.lv.steps + (("m", it.key),), ct.args[1])
        if it.kind == "mmap":
            d = self.S.dt(T("pair", "", ct.args))
            v = d.get(it.key, nm)
            t = ct.args[0 if nm == "first" else 1]
            for f in self.S.wf(t, v):
                self.assume(st, f)
            lv = self.tmp(st, t, v)
            return lv
        raise Unsupported("element field")

    def deref(self, st, p, pt):
        """object designated by a pointer / iterator value"""
        if isinstance(p, LV):
            q = self.peek(st, p)
            if isinstance(q, (Iter, Addr)):
                p = q
            else:
                p = self.read(st, p)
        if isinstance(p, Addr):
            return p.lv
        if isinstance(p, Iter):
            return self.it_deref(st, p)
        if isinstance(p, tuple) and p[0] == "elemref":
            return p
        if isinstance(p, z3.ExprRef) and pt.k == "ptr":
            return self.heap_lv(st, p, pt.args[0])
        if isinstance(p, Ignored):
            return p
        raise Unsupported("dereference of %r" % (p,))

    def heap_lv(self, st, p, t):
        if t.k == "stream":
            raise Unsupported("stream through heap pointer")
        key = ("heap", repr(t))
        hv = T("vec", "heap", (t,))
        if key not in st.store:
            st.store[key] = z3.Const("heap_" + re.sub(r"\W+", "_", repr(t)), self.S.dt(hv).sort)
            self.rt[key] = hv
        self.oblige(st, "bounds", "pointer is not null", p != 0)
        al = ("alive", repr(t))
        if al in st.store:
            self.oblige(st, "bounds", "object is alive", sel(self.S.dt(self.rt[al]).get(st.store[al], "arr"), p))
        return LV(key, (("i", p),), t)

    def it_deref(self, st, it):
        if it.kind == "unset":
            raise Unsupported("loop moves a looked-up iterator")
        if it.kind == "vec":
            v = self.read(st, it.lv)
            ln = self.stl.vlen(it.lv.t, v)
            self.oblige(st, "bounds", "iterator dereference in range", z3.And(it.idx >= 0, it.idx < ln))
            return LV(it.lv.root, it.lv.steps + (("i", it.idx),), it.lv.t.args[0])
        self.oblige(st, "bounds", "iterator dereference not at end", z3.Not(it.end))
        if it.kind == "set":
            return self.tmp(st, it.lv.t.args[0], it.key)
        return ("elemref", it)

    def e_ImplicitCastExpr(self, n, st):
        ck = n.get("castKind")
        sub = inner(n)[0]
        if ck in ("FunctionToPointerDecay", "NoOp", "ArrayToPointerDecay", "UncheckedDerivedToBase", "DerivedToBase",
                  "BuiltinFnToFnPtr"):
            return self.ev(sub, st)
        if ck in ("ConstructorConversion", "UserDefinedConversion"):
            return self.ev(sub, st)
        t = self.ty(n)
        out = []
        for s, v in self.ev(sub, st):
            if ck == "LValueToRValue":
                if isinstance(v, LV) and v.t.k != "stream":
                    v = self.read(s, v)
                out.append((s, v))
            elif ck in ("IntegralCast", "IntegralToBoolean", "IntegralToFloating", "FloatingToIntegral",
                        "FloatingToBoolean", "FloatingCast"):
                a = self.ty(sub)
                if a.k == "rec":
                    a = INT   # enum
                if t.k == "rec":
                    t = INT
                out.append((s, self.cast(s, self.rv(s, v), a, t)))
            elif ck == "PointerToBoolean":
                v = self.rv(s, v)
                out.append((s, z3.BoolVal(True) if isinstance(v, (Addr, LV, Ignored)) else v != 0))
            elif ck == "NullToPointer":
                out.append((s, z3.IntVal(0)))
            elif ck in ("BitCast",):
                out.append((s, v))
            elif ck == "ToVoid":
                out.append((s, None))
            else:
                raise Unsupported("cast kind " + str(ck))
        return out

    e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CXXConstCastExpr = e_ImplicitCastExpr
    e_CXXReinterpretCastExpr = e_ImplicitCastExpr

    def e_UnaryOperator(self, n, st):
        op = n["opcode"]
        sub = inner(n)[0]
        t = self.ty(n)
        out = []
        for s, v in self.ev(sub, st):
            if op == "!":
                out.append((s, z3.Not(self.tobool(s, v))))
            elif op == "-":
                x = self.rv(s, v)
                if t.k == "double":
                    out.append((s, self.stl.dneg(x)))
                elif self.S.mode == "bv":
                    if t.signed:
                        self.oblige(s, "overflow", "negation does not overflow", x != z3.BitVecVal(1 << (t.bits - 1), t.bits))
                    out.append((s, -x))
                elif z3.is_int_value(x):
                    out.append((s, self.S.intval(-x.as_long(), t)))
                else:
                    if t.signed:
                        self.oblige(s, "overflow", "negation does not overflow", x > t.rng[0])
                        out.append((s, -x))
                    else:
                        out.append((s, z3.If(x == 0, x, (1 << t.bits) - x)))
            elif op == "+":
                out.append((s, self.rv(s, v)))
            elif op == "~" and self.S.mode == "bv":
                out.append((s, ~self.rv(s, v)))
            elif op == "*":
                out.append((s, self.deref(s, v, self.ty(sub))))
            elif op == "&":
                if isinstance(v, LV) and self.c.elemptr and v.t.k == "rec" and v.steps and v.steps[-1][0] == "i":
                    out.append((s, self.elem_addr(s, v)))
                elif isinstance(v, LV):
                    out.append((s, Addr(v)))
                else:
                    raise Unsupported("address of rvalue")
            elif op in ("++", "--"):
                if not isinstance(v, LV):
                    raise Unsupported("++ on non-lvalue")
                x = self.read(s, v)
                if isinstance(x, Iter):
                    raise Unsupported("builtin ++ on iterator")
                if v.t.k == "ptr":
                    raise Unsupported("pointer arithmetic")
                one = self.S.intval(1, t)
                y = self.arith(s, "+" if op == "++" else "-", x, one, t, t)
                self.write(s, v, y)
                out.append((s, x if n.get("isPostfix") else v))
            else:
                raise Unsupported("unary " + op)
        return out

    def bool_merge(self, n, st, conj):
        """&& and ||: right operand evaluated only under the left one"""
        l, r = inner(n)
        out = []
        for s, lv in self.ev(l, st):
            c = self.tobool(s, lv)
            cs = z3.simplify(c)
            if z3.is_true(cs) if conj else z3.is_false(cs):
                out += [(s2, self.tobool(s2, v)) for s2, v in self.ev(r, s)]
                continue
            if z3.is_false(cs) if conj else z3.is_true(cs):
                out.append((s, c))
                continue
            g = c if conj else z3.Not(c)
            s1 = s.copy()
            n0 = len(s1.pc)
            s1.pc.append(g)
            if not self.feasible(s1):
                out.append((s, c))
                continue
            base = dict(s1.store)
            res = self.ev(r, s1)
            if len(res) == 1 and all(res[0][0].store.get(k) is v for k, v in base.items()):
                s2, v = res[0]
                b = self.tobool(s2, v)
                extra = [f for f in s2.pc[n0:] if not f.eq(g)]
                for f in extra:
                    s.pc.append(z3.Implies(g, f))
                for k, v2 in s2.store.items():
                    if k not in s.store:
                        s.store[k] = v2
                out.append((s, z3.And(c, b) if conj else z3.Or(c, b)))
            else:
                for s2, v in res:
                    out.append((s2, self.tobool(s2, v)))
                self.assume(s, z3.Not(g))
                if self.feasible(s):
                    out.append((s, z3.BoolVal(not conj)))
        return out

    def e_BinaryOperator(self, n, st):
        op = n["opcode"]
        l, r = inner(n)
        if op == "&&":
            return self.bool_merge(n, st, True)
        if op == "||":
            return self.bool_merge(n, st, False)
        if op == ",":
            out = []
            for s, _ in self.ev(l, st):
                out += self.ev(r, s)
            return out
        if op == "=":
            out = []
            for s, v in self.ev(r, st):
                v = self.rv(s, v)
                for s2, lv in self.ev(l, s):
                    if isinstance(lv, LV) and lv.t.k == "vec" and lv.t.name == "own" and z3.is_int_value(v) and v.as_long() == 0:
                        d = self.S.dt(lv.t)        # null: no element may be accessed any more
                        self.write(s2, lv, d.mk(d.get(self.read(s2, lv), "arr"), z3.IntVal(0)))
                        out.append((s2, lv))
                        continue
                    if isinstance(lv, LV) and lv.t.k == "vec" and lv.t.name == "own" and not self.is_new(r):
                        src = self.own_lv(r, s2)
                        if src is not None and not src.steps and src.root != lv.root and src.t == lv.t and src.root[0] == "loc":
                            # the array changes owner: from here on it is not accessed through the old pointer
                            self.write(s2, lv, v)
                            d = self.S.dt(lv.t)
                            self.write(s2, src, d.mk(d.get(v, "arr"), z3.IntVal(0)))
                            out.append((s2, lv))
                            continue
                        raise Unsupported("owned array assigned from something other than new[]")
                    self.assign(s2, lv, v)
                    out.append((s2, lv))
            return out
        out = []
        t, ta, tb = self.ty(n), self.ty(l), self.ty(r)
        for s, (a, b) in self.rvs([l, r], st):
            if isinstance(a, (Iter, Addr)) or isinstance(b, (Iter, Addr)):
                out.append((s, self.ptr_cmp(s, op, a, b)))
                continue
            if op in ("==", "!=") and ta.k == "ptr":
                for nd, p, z in ((l, a, b), (r, b, a)):
                    ow = self.own_lv(nd, s) if isinstance(p, z3.ExprRef) and z3.is_int_value(z) and z.as_long() == 0 else None
                    if ow is not None:
                        e0 = self.S.dt(ow.t).get(self.read(s, ow), "len") == 0      # null (or no elements)
                        out.append((s, e0 if op == "==" else z3.Not(e0)))
                        break
                else:
                    ow = None
                if ow is not None:
                    continue
            if ta.k == "ptr" and op in ("+", "-", "<", ">"):
                raise Unsupported("pointer arithmetic")
            if op in ("==", "!="):
                if z3.is_bool(a) != z3.is_bool(b):
                    raise Unsupported("mixed comparison")
            out.append((s, self.arith(s, op, a, b, t, ta if ta.k != "rec" else INT)))
        return out

    def ptr_cmp(self, st, op, a, b):
        if isinstance(a, Addr) and isinstance(b, Addr):
            same = a.lv.root == b.lv.root and a.lv.steps == b.lv.steps
            if not same and a.lv.root == b.lv.root:
                raise Unsupported("pointer comparison")
            return z3.BoolVal(same if op == "==" else not same)
        if isinstance(a, Addr) and z3.is_int_value(b) or isinstance(b, Addr) and z3.is_int_value(a):
            return z3.BoolVal(op == "!=")
        raise Unsupported("pointer comparison")

    def assign(self, st, lv, v):
        if isinstance(lv, tuple) and lv and lv[0] == "elemref":
            raise Unsupported("assignment through pair reference")
        if not isinstance(lv, LV):
            raise Unsupported("assignment to non-lvalue")
        self.write(st, lv, v)

    def is_new(self, n):
        while n["kind"] in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups"):
            n = inner(n)[0]
        return n["kind"] == "CXXNewExpr"

    def elem_addr(self, s, v):
        """address of an element of a vector as a value: addresses of one vector, taken while it has its final length"""
        path = (v.root, tuple(x for x in v.steps[:-1]))
        if getattr(self, "elem_path", path) != path:
            raise Unsupported("addresses of elements of several vectors")
        self.elem_path = path
        vec = LV(v.root, v.steps[:-1], T("vec", "", (v.t,)))
        self.oblige(s, "bounds", "addresses of elements are taken when the vector has its final length", self.S.dt(vec.t).get(self.read(s, vec), "len") == self.c.elemptr(self.ctx_for(s, None)))
        return z3.Function("address_of_element", z3.IntSort(), z3.IntSort())(v.steps[-1][1])

    def own_lv(self, n, s):
        """lvalue of the owning pointer field that expression n reads"""
        while n["kind"] in ("ImplicitCastExpr", "ParenExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXReinterpretCastExpr"):
            n = inner(n)[0]
        if n["kind"] not in ("MemberExpr", "DeclRefExpr"):
            return None
        r = self.ev(n, s)
        if len(r) == 1 and isinstance(r[0][1], LV) and r[0][1].t.k == "vec" and r[0][1].t.name == "own":
            return r[0][1]
        return None

    def e_CompoundAssignOperator(self, n, st):
        op = n["opcode"][:-1]
        l, r = inner(n)
        t = self.ty(n)
        ct = parse(n["computeResultType"].get("desugaredQualType") or n["computeResultType"]["qualType"], self.tus[0].aliases)
        out = []
        for s, (b,) in self.rvs([r], st):
            for s2, lv in self.ev(l, s):
                a = self.read(s2, lv)
                x = self.cast(s2, a, t, ct) if t != ct else a
                y = b
                tb = self.ty(r)
                if op not in ("<<", ">>") and tb != ct and tb.k in ("int", "bool") and ct.k == "int":
                    y = self.cast(s2, b, tb, ct)
                v = self.arith(s2, op, x, y, ct, ct)
                v = self.cast(s2, v, ct, t) if t != ct else v
                self.write(s2, lv, v)
                out.append((s2, lv))
        return out

    def e_ConditionalOperator(self, n, st):
        c, a, b = inner(n)
        out = []
        for s, cv in self.ev(c, st):
            cond = self.tobool(s, cv)
            t, f = self.fork(s, cond)
            res = []
            if t is not None:
                res += self.ev(a, t)
            if f is not None:
                res += self.ev(b, f)
            out += res
        return out

    def e_ArraySubscriptExpr(self, n, st):
        a, i = inner(n)
        out = []
        for s, (x, y) in self.evs([a, i], st):
            y = self.rv(s, y)
            if isinstance(x, Addr):
                raise Unsupported("subscript of address")
            if isinstance(x, LV) and x.t.k == "vec":
                ln = self.stl.vlen(x.t, self.read(s, x))
                yi = self.idx(y)
                self.oblige(s, "bounds", "array index in range", z3.And(yi >= 0, yi < ln))
                out.append((s, LV(x.root, x.steps + (("i", yi),), x.t.args[0])))
                continue
            if isinstance(x, LV) and x.t.k == "ptr":
                x = LV(x.root, x.steps, x.t)
                arr = self.stl.ptr_array(s, x)
                out.append((s, arr(self.idx(y))))
                continue
            ow = self.own_lv(a, s)
            if ow is not None:
                ln = self.stl.vlen(ow.t, self.read(s, ow))
                yi = self.idx(y)
                self.oblige(s, "bounds", "owned array index in range", z3.And(yi >= 0, yi < ln))
                out.append((s, LV(ow.root, ow.steps + (("i", yi),), ow.t.args[0])))
                continue
            if isinstance(x, z3.ExprRef) and self.ty(a).k == "ptr":
                src = inner(a)[0] if inner(a) else None
                if src is not None and a["kind"] == "ImplicitCastExpr":
                    rr = self.ev(src, s)
                    if len(rr) == 1 and isinstance(rr[0][1], LV):
                        arr = self.stl.ptr_array(s, rr[0][1])
                        out.append((s, arr(self.idx(y))))
                        continue
            raise Unsupported("array subscript")
        return out

    def idx(self, v):
        return v if z3.is_int(v) else z3.BV2Int(v)

    def e_InitListExpr(self, n, st):
        t = self.ty(n)
        out = []
        for s, vs in self.rvs(inner(n), st):
            if t.k == "vec":
                d = self.S.dt(t)
                a = z3.K(z3.IntSort(), self.S.default(t.args[0]))
                for i, v in enumerate(vs):
                    a = z3.Store(a, i, v)
                out.append((s, d.mk(a, z3.IntVal(len(vs)))))
            elif t.k in ("pair", "rec", "tuple"):
                d = self.S.dt(t)
                while len(vs) < len(d.fields):
                    vs = vs + [self.S.default(d.ftypes[len(vs)])]
                out.append((s, d.mk(*vs)))
            elif len(vs) == 1:
                out.append((s, vs[0]))
            elif not vs:
                out.append((s, self.S.default(t)))
            else:
                raise Unsupported("init list of " + repr(t))
        return out

    def e_LambdaExpr(self, n, st):
        return [(st, Lambda(n, st.fr))]

    def e_CXXThrowExpr(self, n, st):
        raise ThrowNow(st)

    def e_CXXNewExpr(self, n, st):
        return self.stl.new_expr(n, st)

    def e_CXXDeleteExpr(self, n, st):
        return self.stl.delete_expr(n, st)

    # ---------------------------------------------------------------- calls
    def find_def(self, did, qname=None, sig=None):
        for tu in self.tus:
            for fs in tu.funcs.values():
                for f in fs:
                    if f["id"] == did or f.get("previousDecl") == did:
                        return f
        return None

    def defindex(self):
        if not hasattr(self, "_di"):
            self._di = {}
            for tu in self.tus:
                for fs in tu.funcs.values():
                    for f in fs:
                        self._di[f["id"]] = f
                        if f.get("previousDecl"):
                            self._di[f["previousDecl"]] = f
        return self._di

    def lookup(self, did):
        """definition node, or declaration node, for a decl id"""
        d = self.defindex().get(did)
        if d is not None:
            return d
        for tu in self.tus:
            if did in tu.byid:
                x = tu.byid[did]
                # other TU with the same qualified name and type
                q = x.get("_qname")
                if q:
                    for tu2 in self.tus:
                        for f in tu2.funcs.get(q, []):
                            if f["type"]["qualType"] == x["type"]["qualType"]:
                                return f
                return x
        return None

    def contract_for(self, f):
        q, sig = f.get("_qname"), f["type"]["qualType"]
        for c in self.reg:
            if c.lemma:
                continue
            ck = c.key
            if ck == q or (q and re.sub(r"<.*>", "", q) == ck and "<" in q):
                if c.sig is None or c.sig == sig or sig.startswith(c.sig) or ("~" + sig).find("~" + c.sig) >= 0 or c.sig in sig:
                    return c
        return None

    def e_CallExpr(self, n, st):
        ch = inner(n)
        out = []
        for s, fv in self.ev(ch[0], st):
            if isinstance(fv, LV):
                pk = self.peek(s, fv)
                fv = pk if pk is not None and not isinstance(pk, z3.ExprRef) else fv
            if isinstance(fv, tuple) and fv[0] == "fun":
                out += self.call_named(n, s, fv[1], None, None, ch[1:])
            elif isinstance(fv, Lambda):
                out += self.call_lambda(n, s, fv, ch[1:])
            else:
                raise Unsupported("indirect call")
        return out

    def e_CXXMemberCallExpr(self, n, st):
        ch = inner(n)
        me = ch[0]
        while me["kind"] == "ParenExpr":
            me = inner(me)[0]
        out = []
        for s, m in self.ev(me, st):
            _, base, nm, did, bt = m
            out += self.method_call(n, s, base, nm, did, bt, ch[1:])
        return out

    def method_call(self, n, st, base, nm, did, bt, args):
        f = self.lookup(did) if did else None
        if f is not None and self.c.svec and f.get("_class", "").startswith("sorted_vector"):
            self.assumed.add("sorted_vector<T> meets its contracts (proved as property S12): a set iterated in increasing order")
            return self.stl.method(n, st, base, nm, args, bt)
        if f is not None and f.get("kind", "").startswith(("CXXMethod", "CXXConv")):
            if not isinstance(base, LV):
                base = self.tmp(st, bt.args[0] if bt.k == "ptr" else bt, self.rv(st, base))
            return self.call_user(n, st, f, base, args)
        return self.stl.method(n, st, base, nm, args, bt)

    def e_CXXOperatorCallExpr(self, n, st):
        ch = inner(n)
        fn = ch[0]
        while fn["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            fn = inner(fn)[0]
        d = fn["referencedDecl"]
        op = d["name"][len("operator"):].strip()
        f = self.lookup(d["id"])
        if f is not None and self.c.svec and f.get("_class", "").startswith("sorted_vector"):
            f = None
        if f is not None and f.get("_qname"):
            if f["kind"] == "CXXMethodDecl":
                out = []
                for s, b in self.ev(ch[1], st):
                    if not isinstance(b, LV):
                        b = self.tmp(s, self.ty(ch[1]), self.rv(s, b))
                    out += self.call_user(n, s, f, b, ch[2:])
                return out
            return self.call_user(n, st, f, None, ch[1:])
        return self.stl.operator(n, st, op, ch[1:])

    def call_named(self, n, st, d, base, nm, args):
        f = self.lookup(d["id"])
        if f is None and d.get("name"):
            # static member / free function of another TU: resolve by name + type
            for tu in self.tus:
                for q, fs in tu.funcs.items():
                    if q.split("::")[-1] == d["name"]:
                        for g in fs:
                            if g["type"]["qualType"] == d["type"]["qualType"]:
                                f = g
        if self.c.tokens and d.get("name") in self.stl.TOKIO:
            r = self.stl.tokio(n, st, d["name"], args)
            if r is not None:
                return r
        if f is not None and f.get("_qname"):
            return self.call_user(n, st, f, None, args)
        return self.stl.function(n, st, d["name"], args, d)

    def params(self, f):
        return [p for p in inner(f) if p.get("kind") == "ParmVarDecl"]

    def call_user(self, n, st, f, this, args):
        ps = self.params(f)
        args = list(args)
        # default arguments
        out = []
        for s, vs in self.evs(args, st):
            vals = []
            for i, p in enumerate(ps):
                if i < len(vs) and not (isinstance(vs[i], tuple) and vs[i] and vs[i][0] == "defaultarg"):
                    v = vs[i]
                else:
                    dn = None
                    for cand in self.decl_chain(f):
                        q = self.params(cand)[i]
                        ii = [x for x in inner(q) if "Comment" not in x.get("kind", "") and "Attr" not in x.get("kind", "")]
                        if ii:
                            dn = ii[0]
                    if dn is None:
                        raise Unsupported("missing default argument")
                    _, v = self.ev1(dn, s)
                pt = self.ty(p)
                if pt.k == "ref":
                    if isinstance(v, (Ignored, Iter, PyPair, Lambda)) or isinstance(v, tuple):
                        vals.append(v)
                    else:
                        vals.append(v if isinstance(v, LV) else self.tmp(s, pt.args[0], v))
                elif pt.k == "ptr":
                    v = self.rv(s, v) if isinstance(v, LV) and v.t.k == "ptr" else v
                    if isinstance(v, LV) and v.t.k == "stream":
                        v = Addr(v)
                    vals.append(v)
                else:
                    vals.append(self.rv(s, v))
            out += self.apply(n, s, f, this, vals)
        return out

    def decl_chain(self, f):
        r = [f]
        pv = f.get("previousDecl")
        for tu in self.tus:
            if pv and pv in tu.byid:
                r.append(tu.byid[pv])
        return r

    def apply(self, n, st, f, this, vals):
        c = self.contract_for(f)
        if c is not None and not (c is self.c and self.depth == 0 and False):
            if c.trusted != "inline" and not c.inline:
                return self.apply_contract(n, st, f, c, this, vals)
        if not any(i.get("kind") == "CompoundStmt" for i in inner(f)):
            m = self.stl.user_extern(n, st, f, this, vals)
            if m is not None:
                return m
            raise Unsupported("no body and no contract for " + f.get("_qname", "?"))
        return self.inline(n, st, f, this, vals)

    def ret_type(self, f):
        q = f["type"]["qualType"]
        # 'R (args) const'
        d, i = 0, len(q) - 1
        j = q.rfind(")")
        d = 0
        for i in range(j, -1, -1):
            if q[i] == ")":
                d += 1
            elif q[i] == "(":
                d -= 1
                if d == 0:
                    break
        r = q[:i].strip()
        al = f["_tu"].aliases if "_tu" in f else self.tus[0].aliases
        t = parse(r, al)
        return t

    def apply_contract(self, n, st, f, c, this, vals):
        ps = self.params(f)
        al = []
        for p, v in zip(ps, vals):
            al.append((self.ty(p).deref(), v))
        self.called.add(c.name)
        rt = self.ret_type(f)
        if n is not None and rt.k in ("rec", "iter", "other") and "type" in n:
            rt2 = self.ty(n)
            rt = rt2
        old = st.copy()
        ctx0 = Ctx(self, old, st, this, al, None, None)
        ctx0.at_call = True
        client = (c.client or {}) if self.c.tokens else {}
        req = client.get("requires", c.requires)
        ens = client.get("ensures", c.ensures)
        if c.mode != self.c.mode and not client:
            raise Unsupported("contract of %s is in another arithmetic mode" % c.key)
        if req is not None:
            for nm, g in self.named(req(ctx0)):
                self.oblige(st, "pre", "call %s: requires %s" % (c.name, nm), g)
        exits = client.get("exits", c.exits)
        res = []
        if exits is not None:
            cond = exits(ctx0)
            ex, st = self.fork(st, cond)
            if ex is not None:
                res.append((ex, EXIT))
            if st is None:
                raise ExitNow(ex)
            if ex is not None and not hasattr(self, "exitstates"):
                self.exitstates = []
            if ex is not None:
                self.exitstates.append(ex)
            old = st.copy()
        throws = client.get("throws", c.throws)
        if throws is not None:
            cond = z3.FreshConst(z3.BoolSort(), "throws") if throws == "any" else throws(ctx0)
            ex, st = self.fork(st, cond)
            if ex is not None:
                for m in c.modifies:
                    self.havoc_path(ex, m, this, al)
            if st is None:
                raise ThrowNow(ex)
            if ex is not None:
                if not hasattr(self, "throwstates"):
                    self.throwstates = []
                self.throwstates.append(ex)
            old = st.copy()
        # frame: forget what the callee may modify
        for m in c.modifies:
            self.havoc_path(st, m, this, al)
        ret = None
        if rt.k == "ref" and c.key.endswith("::operator=") and isinstance(this, LV):
            rt = T("void")
            ret = this
        if rt.k == "ref":
            raise Unsupported("contract call returning a reference: " + c.key)
        if rt.k == "iter" or (rt.k == "pair" and "iter" in repr(rt)):
            raise Unsupported("contract call returning an iterator: " + c.key)
        if rt.k != "void":
            ret = self.S.fresh(rt, "ret_" + c.key.split("::")[-1])
            for g in self.S.wf(rt, ret):
                self.assume(st, g)
        ctx = Ctx(self, old, st, this, al, ret, rt)
        ctx.at_call = True
        if ens is not None:
            try:
                facts = self.named(ens(ctx))
            except AttributeError:
                if c.strings == self.c.strings:
                    raise
                facts = []           # the contract speaks about characters, which are opaque here: nothing is known
            for nm, g in facts:
                self.assume(st, g)
        return [(st, ret)]

    def named(self, r):
        if r is None:
            return []
        if isinstance(r, dict):
            r = list(r.items())
        if not isinstance(r, (list, tuple)):
            r = [("", r)]
        out = []
        for i, x in enumerate(r):
            if isinstance(x, tuple):
                g = x[1]
                out.append((x[0], z3.BoolVal(g) if isinstance(g, bool) else g))
            else:
                out.append(("#%d" % i, z3.BoolVal(x) if isinstance(x, bool) else x))
        return out

    def path_lv(self, st, path, this, al):
        parts = path.split(".")
        if parts[0] == "this":
            lv = this
        elif parts[0].startswith("arg"):
            t, v = al[int(parts[0][3:])]
            if isinstance(v, Addr):
                v = v.lv
            if isinstance(v, Ignored):
                return None
            if not isinstance(v, LV):
                return None
            lv = v
        elif parts[0] in ("heap", "alive"):
            t = parse(parts[1], self.tus[0].aliases)
            key = (parts[0], repr(t))
            if key not in st.store:
                self.heap_lv_init(st, t, parts[0] == "alive")
            return LV(key, (), self.rt[key])
        else:
            raise Unsupported("bad modifies path " + path)
        for p in parts[1:]:
            d = self.S.dt(lv.t)
            if p not in d.idx:
                raise Unsupported("contract frame names field %s, which the code no longer has" % p)
            lv = LV(lv.root, lv.steps + (("f", p),), d.ftypes[d.idx[p]])
        return lv

    def heap_lv_init(self, st, t, alive=False):
        key = ("heap", repr(t))
        hv = T("vec", "heap", (t,))
        if key not in st.store:
            st.store[key] = z3.Const("heap_" + re.sub(r"\W+", "_", repr(t)), self.S.dt(hv).sort)
            self.rt[key] = hv
        if alive:
            key = ("alive", repr(t))
            hv = T("vec", "alive", (T("bool"),))
            st.store[key] = z3.Const("alive_" + re.sub(r"\W+", "_", repr(t)), self.S.dt(hv).sort)
            self.rt[key] = hv

    def havoc_path(self, st, path, this, al):
        lv = self.path_lv(st, path, this, al)
        if lv is None:
            return
        v = self.S.fresh(lv.t, "hv_" + path.replace(".", "_"))
        self.write(st, lv, v)
        for g in self.S.wf(lv.t, v):
            self.assume(st, g)

    def inline(self, n, st, f, this, vals):
        self.inlined.add(f["_qname"])
        if self.depth > 12:
            raise Unsupported("inlining too deep (recursion without contract): " + f["_qname"])
        fr = Frame(next(self.n), this, f)
        for p, v in zip(self.params(f), vals):
            t = self.ty(p, f.get("_tu"))
            if t.k == "ref":
                if isinstance(v, LV):
                    lv = v
                else:
                    lv = self.newroot(st, "loc", T("iter"), v)
            elif isinstance(v, Addr) and t.k == "ptr" and t.args[0].k == "stream":
                lv = v.lv
            else:
                lv = self.newroot(st, "loc", t, v, p.get("name", ""))
            fr.env[p["id"]] = lv
            if p.get("name"):
                fr.names[p["name"]] = lv
        st.frames.append(fr)
        self.depth += 1
        try:
            body = [i for i in inner(f) if i.get("kind") == "CompoundStmt"][0]
            rt = self.ret_type(f)
            out = []
            pre = [(st, NORM)]
            if f["kind"] == "CXXConstructorDecl":
                pre = self.ctor_inits(f, st, this)
            for s0, _ in pre:
                for s, o in self.ex(body, s0):
                    s.frames.pop()
                    if o[0] == "norm":
                        out.append((s, None))
                    elif o[0] == "ret":
                        v = o[1]
                        if rt.k != "ref":
                            v = self.rv(s, v) if v is not None else None
                        out.append((s, v))
                    elif o[0] == "exit":
                        self.exits_seen(s)
                    elif o[0] == "throw":
                        self.throws_seen(s)
                    else:
                        raise Unsupported("outcome " + o[0])
            return out
        finally:
            self.depth -= 1

    def ctor_inits(self, f, st, this):
        sts = [st]
        for i in inner(f):
            if i.get("kind") == "CXXCtorInitializer":
                ai = i.get("anyInit")
                if not ai or not inner(i):
                    raise Unsupported("constructor initialiser")
                nxt = []
                for s in sts:
                    for s2, v in self.ev(inner(i)[0], s):
                        d = self.S.dt(this.t)
                        if ai["name"] in d.idx:
                            ft = d.ftypes[d.idx[ai["name"]]]
                            if ft.k == "vec" and ft.name == "own" and not self.is_new(inner(i)[0]):
                                raise Unsupported("owned array initialised from something other than new[]")
                            lv = LV(this.root, this.steps + (("f", ai["name"]),), d.ftypes[d.idx[ai["name"]]])
                            self.write(s2, lv, self.rv(s2, v))
                        nxt.append(s2)
                sts = nxt
        return [(s, NORM) for s in sts]

    def exits_seen(self, st):
        self.exit_obl(st)

    def exit_obl(self, st):
        """program exit reached: allowed only where the contract says so"""
        c = self.c
        if c.exits is None:
            self.oblige(st, "exit", "the failing exit is unreachable", z3.BoolVal(False))
        elif c.exits == "any":
            pass
        else:
            self.oblige(st, "exit", "exit only in the documented case", c.exits(self.ctx_for(st, None)))

    def throws_seen(self, st):
        if self.c.throws == "any":
            return
        if self.c.throws is not None:
            self.oblige(st, "exit", "throws only in the documented case", self.c.throws(self.ctx_for(st, None)))
            return
        self.oblige(st, "exit", "no exception escapes", z3.BoolVal(False))

    def call_lambda(self, n, st, lam, args):
        """body inlined in the environment where the lambda was written (captures by reference or none)"""
        out = []
        for s, vs in self.evs(args, st):
            out += self.lambda_apply(n, s, lam, vs)
        return out

    def lambda_apply(self, n, st, lam, vs):
        rec = [x for x in inner(lam.node) if x["kind"] == "CXXRecordDecl"]
        body = [x for x in inner(lam.node) if x["kind"] == "CompoundStmt"]
        if len(rec) != 1 or len(body) != 1:
            raise Unsupported("lambda")
        for x in inner(rec[0]):
            if x["kind"] == "FieldDecl" and self.ty(x).k != "ref" and "this" not in str(x.get("type")):
                raise Unsupported("lambda capturing by value")
        op = [x for x in inner(rec[0]) if x["kind"] == "CXXMethodDecl" and x.get("name") == "operator()"]
        if len(op) != 1 or self.depth > 12:
            raise Unsupported("lambda")
        fr = Frame(next(self.n), lam.frame.this, lam.frame.fn)
        fr.env, fr.names = dict(lam.frame.env), dict(lam.frame.names)
        for p, v in zip(self.params(op[0]), vs):
            t = self.ty(p)
            if t.k == "ref" and isinstance(v, LV):
                lv = v
            else:
                v = self.rvp(st, v)
                lv = self.newroot(st, "loc", t.deref() if isinstance(v, z3.ExprRef) else T("iter"), v, p.get("name", ""))
            fr.env[p["id"]] = lv
            if p.get("name"):
                fr.names[p["name"]] = lv
        st.frames.append(fr)
        self.depth += 1
        try:
            out = []
            for s, o in self.ex(body[0], st):
                s.frames.pop()
                if o[0] == "norm":
                    out.append((s, None))
                elif o[0] == "ret":
                    out.append((s, self.rvp(s, o[1]) if o[1] is not None else None))
                else:
                    raise Unsupported("lambda leaves abruptly")
            return out
        finally:
            self.depth -= 1

    # ---------------------------------------------------------------- construction
    def e_CXXConstructExpr(self, n, st):
        t = self.ty(n)
        args = [a for a in inner(n) if a.get("kind") != "CXXDefaultArgExpr" or t.k == "rec"]
        return self.construct(n, st, t, args)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def construct(self, n, st, t, args):
        if t.k == "rec" and self.record_fields(t.name) is not None:
            # copy / move
            if len(args) == 1 and self.ty(args[0]).deref() == t:
                return [(s, self.rv(s, v)) for s, v in self.ev(args[0], st)]
            ctor = self.find_ctor(t, n, args)
            if ctor is None:
                if not args:
                    return [(st, self.default_init(st, t))]
                raise Unsupported("constructor of " + repr(t))
            lv = self.tmp(st, t, self.default_init(st, t))
            out = []
            for s, _ in self.call_user(n, st, ctor, lv, args):
                out.append((s, self.read(s, lv)))
            return out
        return self.stl.construct(n, st, t, args)

    def find_ctor(self, t, n, args):
        want = n.get("ctorType", {}).get("qualType")
        cands = []
        for tu in self.tus:
            for q, fs in tu.funcs.items():
                for f in fs:
                    if f["kind"] == "CXXConstructorDecl" and f["_class"].split("::")[-1] == t.name.split("::")[-1]:
                        if want is None or f["type"]["qualType"].split(" noexcept")[0] == want.split(" noexcept")[0]:
                            cands.append(f)
        if not cands:
            # declared but defined elsewhere: contract by name
            return None
        return cands[0]

    def default_init(self, st, t):
        """default-initialised record: scalars indeterminate, members with in-class initialiser set"""
        d = self.S.dt(t)
        vals = []
        inits = self.field_inits(t)
        for f, ft in zip(d.fields, d.ftypes):
            if f in inits:
                s, v = self.ev1(inits[f], st)
                v = self.rv(s, v)
                if isinstance(v, Iter):
                    v = z3.IntVal(0)
                vals.append(v)
            elif ft.k in ("int", "bool", "double", "ptr"):
                x = self.S.fresh(ft, "uninit_" + f)
                for g in self.S.wf(ft, x):
                    self.assume(st, g)
                vals.append(x)
            elif ft.k == "rec":
                vals.append(self.default_init(st, ft))
            elif ft.k == "stream":
                vals.append(self.S.fresh(ft))
            else:
                vals.append(self.S.default(ft))
        return d.mk(*vals)

    def field_inits(self, t):
        for tu in self.tus:
            r = self.find_record(tu, t.name)
            if r is None:
                continue
            out = {}
            for i in inner(r):
                if i.get("kind") == "FieldDecl" and i.get("hasInClassInitializer"):
                    ii = [x for x in inner(i) if "Comment" not in x.get("kind", "")]
                    if ii:
                        out[i["name"]] = ii[-1]
            return out
        return {}

    # ---------------------------------------------------------------- statements
    def ex(self, n, st):
        """-> list of (state, outcome)"""
        ln = n.get("range", {}).get("begin", {}).get("line")
        if ln:
            self.line = ln
        k = n["kind"]
        m = getattr(self, "s_" + k, None)
        if m is None:
            try:
                return [(s, NORM) for s, _ in self.ev(n, st)] + self.pop_exits()
            except ExitNow as e:
                return [(e.st, EXIT)]
            except ThrowNow as e:
                return [(e.st, THROW)]
        return m(n, st)

    def pop_exits(self):
        r = [(s, EXIT) for s in getattr(self, "exitstates", [])] + [(s, THROW) for s in getattr(self, "throwstates", [])]
        self.exitstates = []
        self.throwstates = []
        return r

    def evx(self, n, st):
        """evaluate in statement position: (list of (st,v), list of abrupt outcomes)"""
        try:
            r = self.ev(n, st)
            return r, self.pop_exits()
        except ExitNow as e:
            return [], [(e.st, EXIT)] + self.pop_exits()
        except ThrowNow as e:
            return [], [(e.st, THROW)] + self.pop_exits()

    def s_CompoundStmt(self, n, st):
        return self.seq(inner(n), st)

    def seq(self, stmts, st):
        cur, done = [st], []
        for x in stmts:
            nxt = []
            for s in cur:
                for s2, o in self.ex(x, s):
                    (nxt if o[0] == "norm" else done).append(s2 if o[0] == "norm" else (s2, o))
            cur = nxt
            if len(cur) + len(done) > 400:
                raise Unsupported("too many paths")
            if not cur:
                break
        return [(s, NORM) for s in cur] + done

    def s_NullStmt(self, n, st):
        return [(st, NORM)]

    def s_AttributedStmt(self, n, st):
        return self.ex(inner(n)[-1], st)

    def s_BreakStmt(self, n, st):
        return [(st, BRK)]

    def s_ContinueStmt(self, n, st):
        return [(st, CONT)]

    def s_ReturnStmt(self, n, st):
        if not inner(n):
            return [(st, ("ret", None))]
        r, ab = self.evx(inner(n)[0], st)
        return [(s, ("ret", v)) for s, v in r] + ab

    def s_DeclStmt(self, n, st):
        cur = [st]
        ab = []
        for d in inner(n):
            nxt = []
            for s in cur:
                a, b = self.decl(d, s)
                nxt += a
                ab += b
            cur = nxt
        return [(s, NORM) for s in cur] + ab

    def bind(self, st, d, lv):
        st.fr.env[d["id"]] = lv
        if d.get("name"):
            st.fr.names[d["name"]] = lv

    def decl(self, d, st):
        k = d["kind"]
        if k in ("StaticAssertDecl", "UsingDecl", "TypedefDecl", "TypeAliasDecl", "UsingDirectiveDecl", "CXXRecordDecl", "EmptyDecl"):
            return [st], []
        if k == "DecompositionDecl":
            return self.decomp(d, st)
        if k != "VarDecl":
            raise Unsupported("declaration " + k)
        t = self.ty(d)
        init = [i for i in inner(d) if "Comment" not in i.get("kind", "") and "Attr" not in i.get("kind", "")]
        if d.get("storageClass") == "static":
            if "const" in d["type"]["qualType"]:
                raise Unsupported("static const local")
            init = []      # whatever an earlier call left in it
        if self.c.tokens and d["type"]["qualType"] == "fpos_t":
            self.bind(st, d, self.newroot(st, "loc", I(64, True), self.S.fresh(I(64, True), "uninit_pos"), d.get("name", "")))
            return [st], []
        if self.c.tokens and re.match(r"^(const )?char ?\[\d+\]$", d["type"]["qualType"]):
            self.bind(st, d, self.newroot(st, "loc", T("iter"), ("magic", self.S.fresh_sort(z3.IntSort(), "bytes"), int(re.search(r"\d+", d["type"]["qualType"]).group())), d.get("name", "")))
            return [st], []
        if not init:
            v = self.S.fresh(t, "uninit_" + d.get("name", ""))
            for g in self.S.wf(t, v):
                self.assume(st, g)
            self.bind(st, d, self.newroot(st, "loc", t, v, d.get("name", "")))
            return [st], []
        r, ab = self.evx(init[0], st)
        out = []
        for s, v in r:
            if t.k == "ref":
                if isinstance(v, LV):
                    lv = v
                elif isinstance(v, tuple) or isinstance(v, (Iter, PyPair, Ignored)):
                    lv = self.newroot(s, "loc", T("iter"), v, d.get("name", ""))
                else:
                    lv = self.newroot(s, "loc", t.args[0], v, d.get("name", ""))
            else:
                x = self.rv(s, v)
                if isinstance(x, tuple) and x and x[0] == "elemref":
                    x = self.stl.elem_value(s, x[1])
                if isinstance(x, tuple) and x and x[0] == "strlit" and t.k == "vec":
                    x = self.stl.strlit(x[1], t)
                tt = T("iter") if isinstance(x, (Iter, PyPair, Addr, Lambda, tuple)) else t
                if t.k == "ptr" and isinstance(x, z3.DatatypeRef):
                    if not self.is_new(init[0]):
                        raise Unsupported("another pointer to an owned array")
                    tt = T("vec", "own", t.args)
                lv = self.newroot(s, "loc", tt, x, d.get("name", ""))
            self.bind(s, d, lv)
            out.append(s)
        return out, ab

    def decomp(self, d, st):
        init = [i for i in inner(d) if i["kind"] != "BindingDecl"]
        binds = [i for i in inner(d) if i["kind"] == "BindingDecl"]
        r, ab = self.evx(init[0], st)
        out = []
        byref = self.ty(d).k == "ref"
        for s, v in r:
            for i, b in enumerate(binds):
                nm = ["first", "second"][i] if i < 2 else None
                if isinstance(v, tuple) and v[0] == "elemref":
                    x = self.elem_field(s, v, nm)
                elif isinstance(v, LV) and v.t.k in ("pair", "rec", "tuple"):
                    dt = self.S.dt(v.t)
                    fn = dt.fields[i]
                    x = LV(v.root, v.steps + (("f", fn),), dt.ftypes[i])
                elif isinstance(v, PyPair):
                    x = getattr(v, nm)
                elif isinstance(v, z3.ExprRef):
                    tt = self.ty(d).deref()
                    dt = self.S.dt(tt)
                    x = self.tmp(s, dt.ftypes[i], dt.get(v, dt.fields[i]))
                else:
                    raise Unsupported("structured binding")
                if not byref:
                    xv = self.rv(s, x)
                    x = self.newroot(s, "loc", x.t if isinstance(x, LV) else T("iter") if not isinstance(xv, z3.ExprRef) else self.bty(v, i), xv, b.get("name", ""))
                elif not isinstance(x, LV):
                    x = self.newroot(s, "loc", self.bty(v, i), x, b.get("name", ""))
                self.bind(s, b, x)
            out.append(s)
        return out, ab

    def bty(self, v, i):
        if isinstance(v, tuple) and v[0] == "elemref":
            return v[1].lv.t.args[i]
        if isinstance(v, LV):
            return self.S.dt(v.t).ftypes[i]
        return T("iter")

    def s_IfStmt(self, n, st):
        ch = list(inner(n))
        pre = []
        if n.get("hasInit"):
            pre.append(ch.pop(0))
        if n.get("hasVar"):
            pre.append(ch.pop(0))
        cond, then = ch[0], ch[1]
        els = ch[2] if len(ch) > 2 else None
        out = []
        for s0, o in self.seq(pre, st):
            if o[0] != "norm":
                out.append((s0, o))
                continue
            r, ab = self.evx(cond, s0)
            out += ab
            for s, cv in r:
                a, b = self.fork(s, self.tobool(s, cv))
                if a is not None:
                    out += self.ex(then, a)
                if b is not None:
                    out += self.ex(els, b) if els is not None else [(b, NORM)]
        return self.merge(out)

    def merge(self, outs):
        return outs

    def s_SwitchStmt(self, n, st):
        ch = inner(n)
        cond, body = ch[-2], ch[-1]
        r, out = self.evx(cond, st)
        t = self.ty(cond)
        # flatten
        items = []   # (labels, stmt)
        def flat(x):
            if x["kind"] == "CaseStmt":
                c = inner(x)
                items.append(("case", c[0]))
                flat(c[-1])
            elif x["kind"] == "DefaultStmt":
                items.append(("default", None))
                flat(inner(x)[-1])
            else:
                items.append(("stmt", x))
        for x in inner(body):
            flat(x)
        for s, v in r:
            v = self.rv(s, v)
            cur = s
            starts = []
            neg = []
            dflt = None
            for i, (k, c) in enumerate(items):
                if k == "case":
                    _, cv = self.ev1(c, s)
                    cv = self.rv(s, cv)
                    s1 = s.copy()
                    for g in neg:
                        self.assume(s1, g)
                    self.assume(s1, v == cv)
                    neg.append(v != cv)
                    if self.feasible(s1):
                        starts.append((s1, i))
                elif k == "default":
                    dflt = i
            s1 = s.copy()
            for g in neg:
                self.assume(s1, g)
            if self.feasible(s1):
                starts.append((s1, dflt))
            for s1, i in starts:
                if i is None:
                    out.append((s1, NORM))
                    continue
                res = self.seq([x for k, x in items[i:] if k == "stmt"], s1)
                for s2, o in res:
                    out.append((s2, NORM if o[0] == "brk" else o))
        return out

    def s_CXXTryStmt(self, n, st):
        ch = inner(n)
        out = []
        for s, o in self.ex(ch[0], st):
            if o[0] == "throw":
                h = ch[1]
                body = inner(h)[-1]
                last = inner(body)[-1] if inner(body) else {}
                while last.get("kind") == "ExprWithCleanups":
                    last = inner(last)[0]
                if last.get("kind") == "CXXThrowExpr" and not any(x.get("kind") in ("ReturnStmt", "GotoStmt", "BreakStmt", "ContinueStmt") for x in walk(body)):
                    # the handler only rewords the message and throws again
                    out.append((s, o))
                    continue
                out += self.ex(body, s)
            else:
                out.append((s, o))
        return out

    # ---------------------------------------------------------------- loops
    def s_WhileStmt(self, n, st):
        ch = [c for c in inner(n)]
        return self.loop(n, st, ch[-2], None, ch[-1])

    def s_DoStmt(self, n, st):
        body, cond = inner(n)
        # do { } while (0) and similar
        c = cond
        while c["kind"] in ("ImplicitCastExpr", "ParenExpr", "ConstantExpr"):
            c = inner(c)[0]
        if (c["kind"] == "IntegerLiteral" and int(c["value"]) == 0) or (c["kind"] == "CXXBoolLiteralExpr" and not c["value"]):
            return [(s, NORM if o[0] in ("brk", "cont") else o) for s, o in self.ex(body, st)]
        # body; while(cond) body
        out = []
        for s, o in self.ex(body, st):
            if o[0] in ("norm", "cont"):
                out += self.loop(n, s, cond, None, body)
            else:
                out.append((s, NORM if o[0] == "brk" else o))
        return out

    def s_ForStmt(self, n, st):
        init, cvar, cond, inc, body = inner(n)
        out = []
        start = [(st, NORM)] if not init or "kind" not in init else self.ex(init, st)
        for s, o in start:
            if o[0] != "norm":
                out.append((s, o))
                continue
            out += self.loop(n, s, cond if cond and "kind" in cond else None, inc if inc and "kind" in inc else None, body)
        return out

    def s_CXXForRangeStmt(self, n, st):
        ch = inner(n)
        # [init], range, begin, end, cond, inc, var, body
        rng, beg, end, cond, inc, var, body = ch[-7:]
        rd = inner(rng)[0]
        out = []
        pre, ab = self.decl(rd, st)
        out += ab
        for s in pre:
            lv = s.fr.env[rd["id"]]
            if not isinstance(lv, LV):
                raise Unsupported("range-for")
            q = self.peek(s, lv)
            if isinstance(q, (Iter, PyPair, tuple)):
                raise Unsupported("range-for over non-container")
            if lv.t.k not in ("vec", "map", "set", "mmap"):
                # user container with begin()/end()
                b = self.stl.user_range(s, lv)
                if b is None:
                    raise Unsupported("range-for over " + repr(lv.t))
                lv = b
            it = self.stl.begin(s, lv)
            itl = self.newroot(s, "loc", T("iter"), it, "__it")
            self.bind(s, {"id": "it" + n["id"], "name": "__range_it"}, itl)
            out += self.loop(n, s, None, None, body, rangefor=(itl, var))
        return out

    def loop_spec(self, n):
        f_in = None
        key = n["id"]
        if key not in self.loopno:
            self.loopno[key] = len(self.loopno)
        i = self.loopno[key]
        if i < len(self.c.loops):
            return self.c.loops[i]
        return None

    def loop_iter(self, n, st, cond, inc, body, rangefor):
        """one turn of the loop from state st.
        -> (list of exit states, list of back-edge states, list of (state,outcome) leaving)"""
        exits, backs, leaves = [], [], []
        enter = []
        if rangefor:
            itl, var = rangefor
            it = self.read(st, itl)
            a, b = self.fork(st, z3.Not(self.stl.at_end(st, it)))
            if b is not None:
                exits.append(b)
            if a is not None:
                it = self.read(a, itl)
                self.stl.in_range(a, it)
                el = self.it_deref(a, it)
                vd = inner(var)[0]
                t = self.ty(vd)
                if vd["kind"] == "DecompositionDecl":
                    fake = dict(vd)
                    out, ab = self.decomp_val(fake, a, el)
                    enter += out
                else:
                    if t.k == "ref" or (isinstance(el, tuple)):
                        if isinstance(el, LV):
                            lv = el
                        else:
                            lv = self.newroot(a, "loc", T("iter"), el, vd.get("name", ""))
                    else:
                        lv = self.newroot(a, "loc", t, self.rv(a, el), vd.get("name", ""))
                    self.bind(a, vd, lv)
                    enter.append(a)
        elif cond is None:
            enter.append(st)
        else:
            r, ab = self.evx(cond, st)
            leaves += ab
            for s, cv in r:
                a, b = self.fork(s, self.tobool(s, cv))
                if a is not None:
                    enter.append(a)
                if b is not None:
                    exits.append(b)
        for s in enter:
            for s2, o in self.ex(body, s):
                if o[0] in ("norm", "cont"):
                    if rangefor:
                        itl = rangefor[0]
                        self.write(s2, itl, self.stl.advance(s2, self.read(s2, itl)))
                        backs.append(s2)
                    elif inc is not None:
                        r, ab = self.evx(inc, s2)
                        leaves += ab
                        backs += [s3 for s3, _ in r]
                    else:
                        backs.append(s2)
                elif o[0] == "brk":
                    exits.append(s2)
                else:
                    leaves.append((s2, o))
        return exits, backs, leaves

    def decomp_val(self, d, st, v):
        binds = [i for i in inner(d) if i["kind"] == "BindingDecl"]
        byref = self.ty(d).k == "ref"
        for i, b in enumerate(binds):
            nm = ["first", "second"][i]
            if isinstance(v, tuple) and v[0] == "elemref":
                x = self.elem_field(st, v, nm)
            elif isinstance(v, LV):
                dt = self.S.dt(v.t)
                x = LV(v.root, v.steps + (("f", dt.fields[i]),), dt.ftypes[i])
            else:
                raise Unsupported("structured binding")
            if not isinstance(x, LV):
                x = self.newroot(st, "loc", self.bty(v, i), x, b.get("name", ""))
            elif not byref:
                x = self.newroot(st, "loc", x.t, self.read(st, x), b.get("name", ""))
            self.bind(st, b, x)
        return [st], []

    def loop(self, n, st, cond, inc, body, rangefor=None):
        spec = self.loop_spec(n)
        if spec is None or spec.inv is None:
            # complete unrolling with an unwinding obligation
            limit = (spec.unroll if spec and spec.unroll else self.c.unroll)
            out, cur = [], [st]
            for _ in range(limit + 1):
                nxt = []
                for s in cur:
                    e, b, l = self.loop_iter(n, s, cond, inc, body, rangefor)
                    out += [(x, NORM) for x in e] + l
                    nxt += [x for x in b if self.feasible(x)]
                cur = nxt
                if not cur:
                    return out
                if len(cur) > 64:
                    break
            raise Unsupported("loop #%d has no invariant and does not unroll completely" % self.loopno[n["id"]])
        no = self.loopno[n["id"]]
        if rangefor:
            self.loopiter[no] = rangefor[0].root
        elif no not in self.loopiter:      # first guess for the dry run; settled below
            its = [r for r, v in st.store.items() if isinstance(v, Iter) and not v.isend and v.seen is not None]
            if its:
                self.loopiter[no] = its[-1]
        entry = st.copy()
        fctx = self.fctx
        # ---- what does the loop write?
        W = set()
        base_loopno = dict(self.loopno)
        for _ in range(8):
            s = st.copy()
            self.havoc_writes(s, W, entry)
            if spec.history:
                s.store[("hist",)] = self.S.fresh_sort(z3.IntSort(), "iters")
            self.dry += 1
            save, self.wlog = self.wlog, set()
            try:
                self.assume_inv(spec, s, entry, rangefor)
                try:
                    e, b, l = self.loop_iter(n, s, cond, inc, body, rangefor)
                finally:
                    new, self.wlog = self.wlog, save
            finally:
                self.dry -= 1
            new = set((r, p) for r, p in new if r in entry.store)
            grown = W | new
            # keep maximal paths only
            grown = set((r, p) for r, p in grown if not any((r, p[:i]) in grown for i in range(len(p))))
            if grown == W:
                break
            W = grown
        else:
            raise Unsupported("loop write set does not stabilise")
        if self.wlog is not None:
            self.wlog |= W
        if not rangefor:
            its = [r for r, p in W if isinstance(st.store.get(r), (Iter, PyPair))]
            if len(its) == 1:
                self.loopiter[no] = its[0]
        # ---- invariant holds on entry
        def past(x, it):
            if spec.history:
                x.store[("hist",)] = it
                L = LoopCtx(self, x, entry, fctx, self.loop_it(x, rangefor, W, entry))
                for nm, v in spec.history(L).items():
                    v = raw(v)
                    x.pc.append(z3.Select(L.hist(nm, v.sort(), no), it) == v)
        if spec.history and (self.inloop or ("hist",) in st.store):
            raise Unsupported("history of a loop that may run more than once")
        past(st, z3.IntVal(0))
        L = LoopCtx(self, st, entry, fctx, self.loop_it(st, rangefor, W, entry))
        for nm, g in self.named(spec.inv(L)):
            self.oblige(st, "inv-init", "loop %d invariant %s holds on entry" % (no, nm), g)
        # ---- arbitrary iteration
        s = st.copy()
        self.havoc_writes(s, W, entry)
        it = None
        if spec.history:
            it = self.S.fresh_sort(z3.IntSort(), "iters")
            s.pc.append(it >= 0)
        past(s, it)
        self.assume_inv(spec, s, entry, rangefor, W)
        self.inloop += 1
        exits, backs, leaves = self.loop_iter(n, s, cond, inc, body, rangefor)
        self.inloop -= 1
        for b in backs:
            past(b, it + 1 if it is not None else None)
            L = LoopCtx(self, b, entry, fctx, self.loop_it(b, rangefor, W, entry))
            for nm, g in self.named(spec.inv(L)):
                self.oblige(b, "inv-step", "loop %d invariant %s preserved" % (no, nm), g)
        return [(x, NORM) for x in exits] + leaves

    def loop_it(self, st, rangefor, W, entry):
        if rangefor:
            return self.read(st, rangefor[0])
        its = []
        for (r, p) in W:
            v = st.store.get(r)
            if isinstance(v, PyPair):
                v = v.first
            if isinstance(v, Iter):
                its.append(v)
        if len(its) == 1:
            return its[0]
        # index loop: the one integer written by `inc`
        return None

    def assume_inv(self, spec, st, entry, rangefor, W=None):
        L = LoopCtx(self, st, entry, self.fctx, self.loop_it(st, rangefor, W or set(), entry))
        if W is None and not rangefor:
            # dry run: iterator not yet known to be written; look for one in the store
            its = [v for v in st.store.values() if isinstance(v, Iter)]
            its += [v.first for v in st.store.values() if isinstance(v, PyPair)]
            L.it = its[-1] if its else None
        if W is None:
            try:
                fs = self.named(spec.inv(L))
            except Unsupported:
                fs = []
        else:
            fs = self.named(spec.inv(L))
        for nm, g in fs:
            self.assume(st, g)
        if rangefor:
            self.stl.iter_facts(st, self.read(st, rangefor[0]))

    def havoc_writes(self, st, W, entry):
        for (r, p) in sorted(W, key=str):
            v = st.store[r]
            if isinstance(v, Iter):
                st.store[r] = self.stl.havoc_iter(st, v)
                continue
            if isinstance(v, PyPair):
                q = PyPair(v.first, v.second)
                fs = [p[0]] if p else ["first", "second"]
                for f in fs:
                    x = getattr(v, f)
                    setattr(q, f, self.stl.havoc_iter(st, x) if isinstance(x, Iter) else x)
                st.store[r] = q
                continue
            if isinstance(v, (Addr, Ignored, tuple, Lambda)):
                raise Unsupported("loop rebinds a pointer")
            t = self.rt[r]
            steps = tuple(("f", x) for x in p)
            for x in p:
                d = self.S.dt(t)
                t = d.ftypes[d.idx[x]]
            f = self.S.fresh(t, "lp_" + str(r[-1]) + "_" + "_".join(p))
            lv = LV(r, steps, t)
            sv, self.wlog = self.wlog, None
            self.write(st, lv, f)
            self.wlog = sv
            for g in self.S.wf(t, f):
                self.assume(st, g)

    # ---------------------------------------------------------------- top level
    def ctx_for(self, st, ret):
        return Ctx(self, self.st0, st, self.this, self.args, ret, self.rtype)

    def declares(self, n, name):
        return (n.get("kind") == "VarDecl" and n.get("name") == name) or any(self.declares(x, name) for x in inner(n))

    def verify(self, f):
        """generate every obligation of function node f against self.c"""
        c = self.c
        self.fnode = f
        st = St()
        this = None
        if f["kind"] in ("CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl") and \
                f.get("storageClass") != "static" and not self.is_static(f):
            cls = f["_class"]
            t = T("rec", cls)
            v = self.S.fresh(t, "this") if f["kind"] != "CXXConstructorDecl" else self.default_init(st, t)
            this = LV(("this",), (), t)
            st.store[("this",)] = v
            self.rt[("this",)] = t
            for g in self.S.wf(t, v):
                self.assume(st, g)
        fr = Frame(0, this, f)
        self.this = this
        self.args = []
        for i, p in enumerate(self.params(f)):
            pt = self.ty(p, f.get("_tu"))
            isref = pt.k == "ref"
            t = pt.deref()
            if t.k == "ptr" and t.args[0].k == "stream":
                t = t.args[0]
                isref = True
            elif t.k == "ptr" and not isref and t.args[0].k in ("rec", "vec", "map", "set", "mmap") and (c.alias or {}).get(i) == "object":
                t2 = t.args[0]
                root = ("arg", i, p.get("name", ""))
                st.store[root] = self.S.fresh(t2, "arg%d" % i)
                self.rt[root] = t2
                for g in self.S.wf(t2, st.store[root]):
                    self.assume(st, g)
                lv0 = LV(root, (), t2)
                lv = self.newroot(st, "loc", T("iter"), Addr(lv0), p.get("name", ""))
                fr.env[p["id"]] = lv
                fr.names[p.get("name", "")] = lv
                self.args.append(lv0)
                continue
            al = (c.alias or {}).get(i)
            if isinstance(al, tuple) and al[0] == "range":
                # iterator into a vector object `al[1]` of its own
                rt = parse(al[2])
                root = ("argrange", al[1])
                if root not in st.store:
                    st.store[root] = self.S.fresh(rt, "range_" + al[1])
                    self.rt[root] = rt
                    for g in self.S.wf(rt, st.store[root]):
                        self.assume(st, g)
                it = Iter("vec", LV(root, (), rt), idx=self.S.fresh_sort(z3.IntSort(), "it%d" % i))
                lv = self.newroot(st, "loc", T("iter"), it, p.get("name", ""))
                fr.env[p["id"]] = lv
                fr.names[p.get("name", "")] = lv
                self.args.append((T("iter"), it))
                continue
            v = self.S.fresh(t, "arg%d_%s" % (i, p.get("name", "")))
            root = ("arg", i, p.get("name", ""))
            if (c.alias or {}).get(i) == "this":
                lv = this
            else:
                st.store[root] = v
                self.rt[root] = t
                for g in self.S.wf(t, v):
                    self.assume(st, g)
                lv = LV(root, (), t)
            fr.env[p["id"]] = lv
            if p.get("name"):
                fr.names[p["name"]] = lv
            self.args.append(lv if isref else (t, v))
        st.frames.append(fr)
        for h in c.heaps:
            t = parse(h, self.tus[0].aliases)
            self.heap_lv_init(st, t, True)
            for g in self.S.wf(self.rt[("heap", repr(t))], st.store[("heap", repr(t))]):
                self.assume(st, g)
        self.rtype = self.ret_type(f)
        self.fctx = None
        self.st0 = st.copy()
        ctx = self.ctx_for(st, None)
        self.fctx = ctx
        if c.axioms:
            for nm, g in self.named(c.axioms(ctx)):
                self.assume(st, g)
        if c.requires is not None:
            for nm, g in self.named(c.requires(ctx)):
                self.assume(st, g)
        if c.assumes is not None:      # capacity limits: assumed here, not asked of callers, listed in the evidence
            for nm, g in self.named(c.assumes(ctx)):
                self.assume(st, g)
                self.assumed.add("capacity: " + nm)
        self.st0 = st.copy()
        self.fctx = self.ctx_for(st, None)
        self.fctx._old = self.st0
        self.pre_pc = list(st.pc)
        body = [i for i in inner(f) if i.get("kind") == "CompoundStmt"][0]
        pre = [(st, NORM)]
        if f["kind"] == "CXXConstructorDecl":
            pre = self.ctor_inits(f, st, this)
        outs = []
        for s0, _ in pre:
            outs += self.ex(body, s0)
        self.npaths = len(outs)
        self.exitpcs = []
        for s, o in outs:
            if o[0] == "exit":
                self.exit_obl(s)
                continue
            if o[0] == "throw":
                self.throws_seen(s)
                continue
            ret = o[1] if o[0] == "ret" else None
            if ret is not None and self.rtype.k != "ref":
                ret = self.rv(s, ret)
            if isinstance(ret, tuple) and ret and ret[0] == "elemref":
                ret = self.stl.elem_value(s, ret[1])
            cx = self.ctx_for(s, ret)
            self.line = None
            if c.exits is not None and c.exits != "any":
                self.oblige(s, "exit", "returns only outside the documented exit case", z3.Not(c.exits(cx)))
            if c.throws is not None and c.throws != "any":
                self.oblige(s, "exit", "returns only outside the documented exception case", z3.Not(c.throws(cx)))
            if c.ensures is not None:
                for nm, g in self.named(c.ensures(cx)):
                    self.oblige(s, "post", "ensures " + nm, g)
            self.frame_check(s)
            self.exitpcs.append(list(s.pc))
        return self.obls

    def is_static(self, f):
        for d in self.decl_chain(f):
            if d.get("storageClass") == "static":
                return True
        return False

    def frame_check(self, s):
        allowed = set()
        for m in self.c.modifies:
            if m.startswith(("heap.", "alive.")):
                k, t = m.split(".", 1)
                m = k + "." + repr(parse(t, self.tus[0].aliases))
            allowed.add(m)
        def covered(path):
            return any(path == a or path.startswith(a + ".") for a in allowed)
        roots = []
        if self.this is not None and self.this.root == ("this",):
            roots.append(("this", self.this))
        for i, a in enumerate(self.args):
            if isinstance(a, LV) and a.root[0] == "arg":
                roots.append(("arg%d" % i, a))
        for k in list(self.st0.store):
            if k[0] in ("heap", "alive"):
                roots.append((k[0] + "." + k[1], LV(k, (), self.rt[k])))
        for nm, lv in roots:
            if covered(nm):
                continue
            if lv.root not in s.store:
                continue      # never touched on this path
            old, new = self.st0.store[lv.root], s.store[lv.root]
            if old is new or (isinstance(old, z3.ExprRef) and old.eq(new)):
                continue
            if lv.t.k == "rec":
                d = self.S.dt(lv.t)
                for f in d.fields:
                    if covered(nm + "." + f):
                        continue
                    a, b = d.get(old, f), d.get(new, f)
                    if not a.eq(b):
                        self.oblige(s, "frame", "frame: %s.%s unchanged" % (nm, f), a == b)
            else:
                self.oblige(s, "frame", "frame: %s unchanged" % nm, old == new)


class ExitNow(Exception):
    def __init__(self, st):
        self.st = st


class ThrowNow(Exception):
    def __init__(self, st):
        self.st = st
