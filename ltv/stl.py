"""Trusted models of the standard library / C library operations the verified functions use.
Every model used in a run is recorded in engine.assumed and reported in the evidence."""
import re
import z3
from ctypes_ import T, I, USTR, parse
from values import okpat, mkpat, View, wrap, raw, sel, Unsupported
import engine as E
from engine import LV, Iter, PyPair, Addr, Ignored, IGN, Lambda
from cxxast import inner

SZ = I(64, False)
INT = I(32, True)
CH8 = T("vec", args=(I(8, True),))


def All(vs, body, *pats):
    if not isinstance(vs, (list, tuple)):
        vs = [vs]
    if pats and all(okpat(p, vs) for p in pats):
        return z3.ForAll(list(vs), body, patterns=[mkpat(p) for p in pats])
    return z3.ForAll(list(vs), body)


class Models:
    def __init__(self, eng):
        self.e = eng
        self.S = eng.S

    def use(self, what):
        self.e.assumed.add(what)

    # ------------------------------------------------------------ strings
    def slen(self, s):
        return z3.Function("slen", self.S.Str, z3.IntSort())(s)

    def schar(self, s, i):
        return z3.Function("schar", self.S.Str, z3.IntSort(), z3.IntSort())(s, i)

    def is_ostr(self, t):
        return t == USTR and self.S.strings == "opaque"

    def vlen(self, t, v):
        if self.is_ostr(t):
            return self.slen(v)
        return self.S.dt(t).get(v, "len")

    def strlit(self, lit, t):
        import json
        m = re.match(r'^(?:u8|u|L|U)?"(.*)"$', lit, re.S)
        body = m.group(1)
        if self.is_ostr(t):
            return z3.Const("strlit_" + "".join("%02x" % ord(c) for c in body) if body else "str_empty", self.S.Str)
        s = body.encode("latin1", "backslashreplace").decode("unicode_escape")
        d = self.S.dt(t)
        a = z3.K(z3.IntSort(), self.S.default(t.args[0]))
        for i, c in enumerate(s):
            a = z3.Store(a, i, self.S.intval(ord(c), t.args[0]))
        return d.mk(a, z3.IntVal(len(s)))

    # ------------------------------------------------------------ doubles
    def dfun(self, n, *args, ret=None):
        self.use("double arithmetic is uninterpreted (opaque sort) in integer mode" if self.S.mode == "int" else "IEEE-754 binary64")
        return z3.Function("dbl_" + n, *[a.sort() for a in args], ret if ret is not None else self.S.Dbl)(*args)

    def deq(self, a, b):
        if self.S.mode == "bv":
            return z3.fpEQ(a, b)
        return a == b

    def dneg(self, a):
        return z3.fpNeg(a) if self.S.mode == "bv" else self.dfun("neg", a)

    def darith(self, st, op, a, b):
        if self.S.mode == "bv":
            rm = z3.RNE()
            r = {"+": lambda: z3.fpAdd(rm, a, b), "-": lambda: z3.fpSub(rm, a, b), "*": lambda: z3.fpMul(rm, a, b),
                 "/": lambda: z3.fpDiv(rm, a, b), "<": lambda: z3.fpLT(a, b), ">": lambda: z3.fpGT(a, b),
                 "<=": lambda: z3.fpLEQ(a, b), ">=": lambda: z3.fpGEQ(a, b), "==": lambda: z3.fpEQ(a, b),
                 "!=": lambda: z3.Not(z3.fpEQ(a, b))}
            return r[op]()
        if op == "==":
            self.use("weights compare equal only when identical (no NaN, no -0.0)")
            return a == b
        if op == "!=":
            self.use("weights compare equal only when identical (no NaN, no -0.0)")
            return a != b
        if op in ("<", ">", "<=", ">="):
            if op in (">", ">="):
                a, b = b, a
            return self.dfun("lt" if op in ("<", ">") else "le", a, b, ret=z3.BoolSort())
        return self.dfun({"+": "add", "-": "sub", "*": "mul", "/": "div"}[op], a, b)

    def int2dbl(self, v, t):
        if self.S.mode == "bv":
            return z3.fpSignedToFP(z3.RNE(), v, z3.Float64()) if t.signed else z3.fpUnsignedToFP(z3.RNE(), v, z3.Float64())
        if z3.is_int_value(v):
            return self.S.dblval(str(v.as_long()))
        return self.dfun("ofint", v)

    def dbl2int(self, v, t):
        if self.S.mode == "bv":
            self.use("double-to-int conversion of an out-of-range value is an arbitrary int")
            return z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(t.bits)) if t.signed else z3.fpToUBV(z3.RTZ(), v, z3.BitVecSort(t.bits))
        return self.dfun("toint", v, ret=z3.IntSort())

    # ------------------------------------------------------------ globals
    def global_const(self, d, text=""):
        nm = d.get("name")
        m = re.match(r"^(?:std::)?numeric_limits\s*<([\w\s]+)>::digits$", text.strip())
        if m:
            t = parse(m.group(1).strip())
            if t.k == "int":
                return self.S.intval(t.bits - (1 if t.signed else 0), INT)
        if nm == "npos":
            return self.S.intval((1 << 64) - 1, SZ)
        return None

    # ------------------------------------------------------------ iterators
    def begin(self, st, lv, rev=False):
        t = lv.t
        if t.k == "vec":
            if rev:
                raise Unsupported("reverse iterator of a vector")
            return Iter("vec", lv, idx=z3.IntVal(0))
        if t.k in ("map", "set", "mmap"):
            it = self.fresh_iter(st, lv, self.empty_seen(t), z3.IntVal(0), rev=rev)
            if t.k != "mmap":
                k = z3.Const("k", self.ksort(t))
                self.e.assume(st, z3.Implies(it.sz == 1, All(k, sel(it.dom, k) == (k == it.key))))
            return it
        raise Unsupported("begin() of " + repr(t))

    def endit(self, st, lv, rev=False):
        if lv.t.k == "vec":
            if rev:
                raise Unsupported("reverse iterator of a vector")
            return Iter("vec", lv, idx=self.vlen(lv.t, self.e.read(st, lv)), isend=True)
        return Iter(lv.t.k, lv, end=z3.BoolVal(True), isend=True, rev=rev)

    def ksort(self, t):
        if t.k == "mmap":
            return self.S.sort(T("pair", "", t.args))
        return self.S.sort(t.args[0])

    def empty_seen(self, t):
        return z3.K(self.ksort(t), z3.IntVal(0) if t.k == "mmap" else z3.BoolVal(False))

    def struct(self, st, lv):
        v = self.e.read(st, lv)
        d = self.S.dt(lv.t)
        return d.get(v, {"map": "dom", "set": "mem", "mmap": "cnt"}[lv.t.k])

    def fresh_iter(self, st, lv, seen, n, rk=None, rev=False):
        t = lv.t
        it = Iter(t.k, lv, seen=seen, rk=rk, rev=rev)
        it.n = n
        it.key = self.S.fresh_sort(self.ksort(t), "itk")
        it.end = self.S.fresh_sort(z3.BoolSort(), "itend")
        it.dom = self.struct(st, lv)
        it.sz = self.S.dt(t).get(self.e.read(st, lv), "sz")
        self.iter_facts(st, it)
        return it

    def inrng(self, it, k):
        if it.rk is None:
            return z3.BoolVal(True)
        d = self.S.dt(T("pair", "", it.lv.t.args))
        return d.get(k, "first") == it.rk

    def iter_facts(self, st, it):
        if it.kind == "vec":
            return
        k = z3.Const("k", self.ksort(it.lv.t))
        if it.kind == "mmap":
            d = self.S.dt(T("pair", "", it.lv.t.args))
            rng = self.inrng(it, k)
            self.e.assume(st, All(k, z3.And(sel(it.seen, k) >= 0, sel(it.seen, k) <= sel(it.dom, k))))
            self.e.assume(st, z3.Implies(it.end, All(k, z3.Implies(rng, sel(it.seen, k) == sel(it.dom, k)))))
            if it.rk is not None:
                self.e.assume(st, All(k, z3.Implies(z3.Not(rng), sel(it.seen, k) == 0)))
            self.e.assume(st, z3.Implies(z3.Not(it.end), z3.And(sel(it.seen, it.key) >= 0, sel(it.seen, it.key) < sel(it.dom, it.key), self.inrng(it, it.key))))
            for ft, f in zip(it.lv.t.args, ("first", "second")):
                for g in self.S.wf(ft, d.get(it.key, f)):
                    self.e.assume(st, g)
            if self.e.c.ordered and not it.rev and self.S.sort(it.lv.t.args[0]) == z3.IntSort():
                f = lambda x: d.get(x, "first")
                self.e.assume(st, z3.Implies(z3.Not(it.end), All(k, z3.And(z3.Implies(sel(it.seen, k) > 0, f(k) <= f(it.key)), z3.Implies(sel(it.seen, k) < sel(it.dom, k), f(k) >= f(it.key))))))
        else:
            self.e.assume(st, All(k, z3.Implies(sel(it.seen, k), sel(it.dom, k))))
            self.e.assume(st, z3.Implies(it.end, All(k, z3.Implies(sel(it.dom, k), sel(it.seen, k)))))
            self.e.assume(st, z3.Implies(z3.Not(it.end), z3.And(sel(it.dom, it.key), z3.Not(sel(it.seen, it.key)))))
            for g in self.S.wf(it.lv.t.args[0], it.key):
                self.e.assume(st, g)
            if self.S.sort(it.lv.t.args[0]) == z3.IntSort():
                # std::map / std::set iterate in increasing key order
                self.e.assume(st, z3.Implies(z3.Not(it.end), All(k, z3.And(
                    z3.Implies(sel(it.seen, k), k < it.key if not it.rev else k > it.key),
                    z3.Implies(z3.And(sel(it.dom, k), z3.Not(sel(it.seen, k))), k >= it.key if not it.rev else k <= it.key)))))
        if it.rk is None:
            if self.e.c.ordered:
                self.e.assume(st, z3.Implies(it.end, it.seen == it.dom))
            self.e.assume(st, z3.And(it.n >= 0, it.n <= it.sz))
            self.e.assume(st, z3.Implies(it.end, it.n == it.sz))
            self.e.assume(st, z3.Implies(z3.Not(it.end), it.n < it.sz))

    def same_struct(self, st, it):
        cur = self.struct(st, it.lv)
        if it.rk is not None and not cur.eq(it.dom):      # equal_range: only that key's elements matter
            k = z3.Const("k", self.ksort(it.lv.t))
            self.e.oblige(st, "bounds", "the key's elements are not changed while they are iterated", All(k, z3.Implies(self.inrng(it, k), sel(cur, k) == sel(it.dom, k))))
        elif not cur.eq(it.dom):
            self.e.oblige(st, "bounds", "container is not restructured while it is iterated", cur == it.dom)

    def at_end(self, st, it):
        if it.kind == "vec":
            return it.idx >= self.vlen(it.lv.t, self.e.read(st, it.lv))
        return it.end

    def in_range(self, st, it):
        if it.kind == "vec":
            self.e.assume(st, it.idx >= 0)

    def advance(self, st, it):
        if it.kind == "unset":
            raise Unsupported("loop moves a looked-up iterator")
        if it.kind == "vec":
            return Iter("vec", it.lv, idx=it.idx + (-1 if it.rev else 1), rev=it.rev)
        if it.seen is None:
            raise Unsupported("increment of a looked-up iterator")
        self.e.oblige(st, "bounds", "iterator incremented before the end", z3.Not(it.end))
        self.same_struct(st, it)
        if it.kind == "mmap":
            seen = z3.Store(it.seen, it.key, sel(it.seen, it.key) + 1)
        else:
            seen = z3.Store(it.seen, it.key, z3.BoolVal(True))
        return self.next_iter(st, it, seen, it.n + 1)

    def next_iter(self, st, it, seen, n):
        r = Iter(it.kind, it.lv, seen=seen, rk=it.rk, rev=it.rev)
        r.n, r.dom, r.sz = n, it.dom, it.sz
        r.key = self.S.fresh_sort(self.ksort(it.lv.t), "itk")
        r.end = self.S.fresh_sort(z3.BoolSort(), "itend")
        self.iter_facts(st, r)
        return r

    def havoc_iter(self, st, it):
        if it.kind == "vec":
            i = self.S.fresh_sort(z3.IntSort(), "iti")
            self.e.assume(st, i >= 0 if not it.rev else i >= -1)
            self.e.assume(st, i <= self.vlen(it.lv.t, self.e.read(st, it.lv)))
            return Iter("vec", it.lv, idx=i, rev=it.rev)
        if it.seen is None:
            return Iter("unset", it.lv)      # any use before it is assigned again is refused
        seen = self.S.fresh_sort(it.seen.sort(), "seen")
        n = self.S.fresh_sort(z3.IntSort(), "nseen")
        return self.next_iter(st, it, seen, n)

    def elem_value(self, st, it):
        t = it.lv.t
        d = self.S.dt(T("pair", "", t.args))
        if it.kind == "map":
            v = self.e.read(st, it.lv)
            return d.mk(it.key, sel(self.S.dt(t).get(v, "val"), it.key))
        return it.key

    # ------------------------------------------------------------ comparison of iterators
    def it_eq(self, st, a, b):
        if "unset" in (a.kind, b.kind):
            raise Unsupported("loop moves a looked-up iterator")
        if a.lv.root != b.lv.root or len(a.lv.steps) != len(b.lv.steps):
            raise Unsupported("comparison of iterators of different containers")
        if a.rev != b.rev:
            raise Unsupported("comparison of iterators of different direction")
        if a.kind == "vec":
            return a.idx == b.idx
        if a.isend:
            return b.end
        if b.isend:
            return a.end
        return z3.Or(z3.And(a.end, b.end), z3.And(z3.Not(a.end), z3.Not(b.end), a.key == b.key))

    # ------------------------------------------------------------ operators
    def operator(self, n, st, op, args):
        e = self.e
        out = []
        for s, vs in e.evs(args, st):
            ty = [e.ty(a).deref() for a in args]
            a = vs[0]
            pa = e.peek(s, a) if isinstance(a, LV) else a
            if isinstance(pa, Ignored):
                if op == "<<":
                    out.append((s, IGN))
                    continue
                raise Unsupported("operator on diagnostics stream")
            if isinstance(pa, Addr) and op in ("*", "->"):
                out.append((s, pa.lv))
                continue
            if isinstance(pa, Iter):
                out += self.it_op(n, s, op, a, pa, vs, args)
                continue
            if isinstance(pa, PyPair) and op == "=":
                e.write(s, a, e.peek(s, vs[1]) if isinstance(vs[1], LV) else vs[1])
                out.append((s, a))
                continue
            if isinstance(a, LV) and a.t.k == "iter" and op == "=":
                v = vs[1]
                e.write(s, a, e.rvp(s, v))
                out.append((s, a))
                continue
            t = a.t if isinstance(a, LV) else ty[0]
            if t.k == "less" and op == "()" and len(vs) == 3:
                if t.args[0].k != "int":
                    raise Unsupported("std::less on non-integers")
                self.use("std::less<int> compares with <")
                out.append((s, e.arith(s, "<", e.rv(s, vs[1]), e.rv(s, vs[2]), t.args[0], t.args[0])))
                continue
            out += self.cont_op(n, s, op, a, t, vs, args, ty)
        return out

    def it_op(self, n, st, op, lv, it, vs, args):
        e = self.e
        if op in ("==", "!="):
            b = vs[1]
            b = e.rvp(st, b)
            r = self.it_eq(st, it, b)
            return [(st, r if op == "==" else z3.Not(r))]
        if op == "*" or op == "->":
            r = e.it_deref(st, it)
            return [(st, Addr(r) if op == "->" and isinstance(r, LV) else r)]
        if op == "=":
            v = vs[1]
            v = e.rvp(st, v)
            e.write(st, lv, v)
            return [(st, lv)]
        if op == "++":
            nx = self.advance(st, it)
            e.write(st, lv, nx)
            return [(st, it if len(args) > 1 else lv)]
        if op == "--" and it.kind == "vec":
            nx = Iter("vec", it.lv, idx=it.idx - 1)
            e.write(st, lv, nx)
            return [(st, it if len(args) > 1 else lv)]
        if op in ("+", "-", "+=", "-=") and it.kind == "vec":
            b = vs[1]
            pb = e.rvp(st, b)
            if isinstance(pb, Iter):
                return [(st, it.idx - pb.idx)]
            x = it.idx + pb if op[0] == "+" else it.idx - pb
            r = Iter("vec", it.lv, idx=x)
            if op.endswith("="):
                e.write(st, lv, r)
                return [(st, lv)]
            return [(st, r)]
        if op in ("<", ">", "<=", ">=") and it.kind == "vec":
            b = vs[1]
            pb = e.rvp(st, b)
            return [(st, {"<": it.idx < pb.idx, ">": it.idx > pb.idx, "<=": it.idx <= pb.idx, ">=": it.idx >= pb.idx}[op])]
        raise Unsupported("iterator operator " + op)

    def cont_op(self, n, s, op, a, t, vs, args, ty):
        e, S = self.e, self.S
        if op == "[]":
            if not isinstance(a, LV):
                a = e.tmp(s, t, e.rv(s, a))
            k = e.rv(s, vs[1])
            if t.k == "map":
                self.map_touch(s, a, k)
                return [(s, LV(a.root, a.steps + (("m", k),), t.args[1]))]
            if t.k == "vec":
                ki = e.idx(k)
                ln = self.vlen(t, e.read(s, a))
                # std::basic_string allows reading the terminator at size()
                lim = ki < ln if t.name != "ustr" and not self.is_str(args[0]) else ki <= ln
                e.oblige(s, "bounds", "index in range", z3.And(ki >= 0, lim))
                return [(s, LV(a.root, a.steps + (("i", ki),), t.args[0]))]
        if op == "=":
            v = vs[1]
            if isinstance(v, tuple) and v and v[0] == "elemref":
                v = self.elem_value(s, v[1])
            v = e.rv(s, v)
            if isinstance(v, tuple) and v and v[0] == "strlit":
                v = self.strlit(v[1], t)
            if t.k == "vec" and t == USTR and isinstance(v, z3.ExprRef) and v.sort() != S.sort(t):
                raise Unsupported("string assignment")
            e.assign(s, a, v)
            return [(s, a)]
        if op in ("==", "!="):
            x, y = e.rv(s, vs[0]), e.rv(s, vs[1])
            if isinstance(x, tuple) and x[0] == "strlit":
                x = self.strlit(x[1], USTR)
            if isinstance(y, tuple) and y[0] == "strlit":
                y = self.strlit(y[1], USTR)
            if t.k in ("int", "bool", "ptr") or self.is_ostr(t):
                r = x == y
            elif t.k == "vec":
                r = self.vec_eq(t, x, y)
            elif t.k == "pair" and all(q.k in ("int", "bool", "double") for q in t.args):
                r = x == y
            elif t.k == "stream":
                raise Unsupported("stream comparison")
            else:
                raise Unsupported("== on " + repr(t))
            return [(s, r if op == "==" else z3.Not(r))]
        if op == "<" and t.k == "pair" and all(q.k == "int" for q in t.args):
            x, y = e.rv(s, vs[0]), e.rv(s, vs[1])
            d = S.dt(t)
            return [(s, z3.Or(d.get(x, "first") < d.get(y, "first"), z3.And(d.get(x, "first") == d.get(y, "first"), d.get(x, "second") < d.get(y, "second"))))]
        if op == "+=" and t.k == "vec":
            return [(s, self.append(s, a, t, vs[1], ty[1]))]
        if op == "+" and t.k == "vec":
            x = e.rv(s, a)
            lv = e.tmp(s, t, self.strlit(x[1], USTR) if isinstance(x, tuple) else x)
            self.append(s, lv, t, vs[1], ty[1])
            return [(s, e.read(s, lv))]
        if op == "!" and t.k == "stream":
            return [(s, self.S.dt(t).get(e.read(s, a), "bad"))]
        if op == "<<" and t.k == "stream":
            raise Unsupported("formatted output")
        if op == "()" and isinstance(e.peek(s, a) if isinstance(a, LV) else a, Lambda):
            return e.call_lambda(n, s, e.peek(s, a) if isinstance(a, LV) else a, args[1:])
        if op == "()":
            nm = repr(ty[0])
            x, y = (e.rv(s, v) for v in vs[1:3]) if len(vs) == 3 else (None, None)
            if "less" in nm and x is not None and z3.is_int(x):
                return [(s, x < y)]
        raise Unsupported("operator %s on %r" % (op, t))

    def is_str(self, node):
        q = node["type"]["qualType"] + node["type"].get("desugaredQualType", "")
        return "string" in q.lower()

    def vec_eq(self, t, x, y):
        d = self.S.dt(t)
        i = z3.Int("i")
        return z3.And(d.get(x, "len") == d.get(y, "len"),
                      All(i, z3.Implies(z3.And(i >= 0, i < d.get(x, "len")), sel(d.get(x, "arr"), i) == sel(d.get(y, "arr"), i))))

    def append(self, s, a, t, v, vt):
        e = self.e
        v = e.rv(s, v)
        cur = e.read(s, a)
        if isinstance(v, tuple) and v[0] == "strlit":
            v = self.strlit(v[1], t)
            vt = t
        if self.is_ostr(t):
            f = z3.Function("scat", self.S.Str, v.sort(), self.S.Str)
            if v.sort() == cur.sort():
                nil = self.S.default(t)
                e.assume(s, z3.And(z3.Implies(cur == nil, f(cur, v) == v), z3.Implies(v == nil, f(cur, v) == cur)))
            e.write(s, a, f(cur, v))
            return a
        d = self.S.dt(t)
        if vt.k == "int":
            e.write(s, a, d.mk(z3.Store(d.get(cur, "arr"), d.get(cur, "len"), v), d.get(cur, "len") + 1))
            return a
        # concatenation
        r = self.S.fresh(t, "cat")
        i = z3.Int("i")
        la, lb = d.get(cur, "len"), d.get(v, "len")
        e.assume(s, d.get(r, "len") == la + lb)
        e.assume(s, All(i, z3.Implies(z3.And(i >= 0, i < la), sel(d.get(r, "arr"), i) == sel(d.get(cur, "arr"), i))))
        e.assume(s, All(i, z3.Implies(z3.And(i >= la, i < la + lb), sel(d.get(r, "arr"), i) == sel(d.get(v, "arr"), i - la))))
        e.write(s, a, r)
        return a

    def map_touch(self, s, a, k):
        """operator[]: default-insert when absent"""
        t = a.t
        d = self.S.dt(t)
        v = self.e.read(s, a)
        dom, val, sz = d.get(v, "dom"), d.get(v, "val"), d.get(v, "sz")
        inn = sel(dom, k)
        g = z3.simplify(inn)
        if z3.is_true(g) or any(f.eq(inn) for f in s.pc):
            return
        dv = self.S.default(t.args[1])
        self.e.write(s, a, d.mk(z3.Store(dom, k, z3.BoolVal(True)),
                                z3.Store(val, k, z3.If(inn, sel(val, k), dv)), z3.If(inn, sz, sz + 1)))

    # ------------------------------------------------------------ methods
    def method(self, n, st, base, nm, args, bt):
        e = self.e
        b0 = e.peek(st, base) if isinstance(base, LV) else base
        if isinstance(b0, Ignored):
            out = []
            for s, _ in e.evs(args, st):
                out.append((s, IGN))
            return out
        if isinstance(b0, Iter):
            raise Unsupported("method on iterator")
        if isinstance(base, tuple) and base[0] == "elemref":
            raise Unsupported("method on pair")
        if isinstance(base, Addr):
            base = base.lv
        if not isinstance(base, LV):
            base = e.tmp(st, bt.args[0] if bt.k in ("ptr", "ref") else bt, base)
        t = base.t
        if nm.startswith("operator basic_string_view") or nm.startswith("operator std::basic_string_view"):
            return [(st, base)]
        m = getattr(self, "m_%s_%s" % (t.k, nm), None) or getattr(self, "m_any_" + nm, None)
        if m is None:
            raise Unsupported("method %s of %r" % (nm, t))
        self.use("std container/stream model: %s::%s" % (t.k, nm))
        out = []
        args = [a for a in args if a["kind"] != "CXXDefaultArgExpr" or nm in ()]
        for s, vs in e.evs(args, st):
            r = m(s, base, t, vs, [e.ty(a).deref() for a in args], n)
            if isinstance(r, list):
                out += r
            else:
                out.append((s, r))
        return out

    # generic
    def m_any_size(self, s, a, t, vs, ty, n):
        v = self.e.read(s, a)
        if t.k == "vec":
            r = self.vlen(t, v)
        else:
            r = self.S.dt(t).get(v, "sz")
            self.card(s, a, t, r)
        self.e.assume(s, r >= 0)
        self.e.assume(s, r < (1 << 62))
        cap = getattr(self.e.c, "sizecap", None)
        if cap is not None:
            self.e.assumed.add("capacity: a container never holds %d elements or more (an int can count them)" % cap)
            self.e.assume(s, r < cap)
        if self.S.mode == "bv":
            raise Unsupported("container size in bit-vector mode")
        return r

    m_vec_length = m_any_size

    def card(self, s, a, t, r):
        """size 0 iff no element"""
        st_ = self.struct(s, a)
        k = z3.Const("k", self.ksort(t))
        w = self.S.fresh_sort(self.ksort(t), "wit")
        zero = (sel(st_, k) == 0) if t.k == "mmap" else z3.Not(sel(st_, k))
        self.e.assume(s, z3.Implies(r == 0, All(k, zero)))
        self.e.assume(s, z3.Implies(r != 0, sel(st_, w) > 0 if t.k == "mmap" else sel(st_, w)))

    def m_any_empty(self, s, a, t, vs, ty, n):
        v = self.e.read(s, a)
        if t.k == "vec":
            r = self.vlen(t, v)
            self.e.assume(s, r >= 0)
            return r == 0
        d = self.S.dt(t)
        st_ = self.struct(s, a)
        k = z3.Const("k", self.ksort(t))
        b = self.S.fresh_sort(z3.BoolSort(), "empty")
        zero = (sel(st_, k) == 0) if t.k == "mmap" else z3.Not(sel(st_, k))
        w = self.S.fresh_sort(self.ksort(t), "wit")
        self.e.assume(s, z3.Implies(b, All(k, zero)))
        self.e.assume(s, z3.Implies(z3.Not(b), sel(st_, w) > 0 if t.k == "mmap" else sel(st_, w)))
        self.e.assume(s, b == (d.get(v, "sz") == 0))
        return b

    def m_any_begin(self, s, a, t, vs, ty, n):
        return self.begin(s, a)

    m_any_cbegin = m_any_begin

    def m_any_end(self, s, a, t, vs, ty, n):
        return self.endit(s, a)

    m_any_cend = m_any_end

    def m_any_rbegin(self, s, a, t, vs, ty, n):
        return self.begin(s, a, rev=True)

    def m_any_rend(self, s, a, t, vs, ty, n):
        return self.endit(s, a, rev=True)

    def m_any_clear(self, s, a, t, vs, ty, n):
        self.e.write(s, a, self.S.default(t))
        return None

    def m_any_swap(self, s, a, t, vs, ty, n):
        x, y = self.e.read(s, a), self.e.read(s, vs[0])
        self.e.write(s, a, y)
        self.e.write(s, vs[0], x)
        return None

    def m_any_count(self, s, a, t, vs, ty, n):
        k = self.e.rv(s, vs[0])
        v = self.e.read(s, a)
        d = self.S.dt(t)
        if t.k in ("map", "set"):
            m = sel(d.get(v, "dom" if t.k == "map" else "mem"), k)
            return z3.If(m, self.S.intval(1, SZ), self.S.intval(0, SZ))
        # multimap: number of elements with this key
        c = self.S.fresh_sort(z3.IntSort(), "mcount")
        pd = self.S.dt(T("pair", "", t.args))
        V = self.S.sort(t.args[1])
        x = z3.Const("x", V)
        w1, w2 = self.S.fresh_sort(V, "w"), self.S.fresh_sort(V, "w")
        at = lambda q: sel(d.get(v, "cnt"), pd.mk(k, q))
        self.e.assume(s, c >= 0)
        self.e.assume(s, All(x, z3.And(at(x) >= 0, at(x) <= c)))
        self.e.assume(s, z3.Implies(c >= 1, at(w1) >= 1))
        self.e.assume(s, z3.Implies(c == 1, All(x, z3.Implies(x != w1, at(x) == 0))))
        self.e.assume(s, z3.Implies(c >= 2, z3.Or(at(w1) >= 2, z3.And(w1 != w2, at(w2) >= 1))))
        return c

    def m_any_find(self, s, a, t, vs, ty, n):
        e = self.e
        k = e.rv(s, vs[0])
        if isinstance(k, tuple) and k and k[0] == "strlit":
            k = self.strlit(k[1], t.args[0])
        v = e.read(s, a)
        if t.k in ("map", "set"):
            m = sel(self.S.dt(t).get(v, "dom" if t.k == "map" else "mem"), k)
            return Iter(t.k, a, key=k, end=z3.Not(m))
        if t.k == "mmap":
            it = Iter("mmap", a, rk=k)
            pd = self.S.dt(T("pair", "", t.args))
            it.key = self.S.fresh_sort(self.ksort(t), "fnd")
            it.end = self.S.fresh_sort(z3.BoolSort(), "fend")
            cnt = self.S.dt(t).get(v, "cnt")
            x = z3.Const("x", self.S.sort(t.args[1]))
            e.assume(s, z3.Implies(z3.Not(it.end), z3.And(sel(cnt, it.key) > 0, pd.get(it.key, "first") == k)))
            e.assume(s, z3.Implies(it.end, All(x, sel(cnt, pd.mk(k, x)) == 0)))
            return it
        if t.k == "vec":
            return self.str_find(s, a, t, vs, ty)
        raise Unsupported("find")

    def str_find(self, s, a, t, vs, ty):
        if self.is_ostr(t):
            raise Unsupported("string find in opaque mode")
        k = self.e.rv(s, vs[0])
        if isinstance(k, tuple) and k and k[0] == "strlit":
            k = self.strlit(k[1], t)
        if isinstance(k, z3.ExprRef) and k.sort() == self.S.sort(t):
            return self.substr_find(s, a, t, k, vs)
        if not (isinstance(k, z3.ExprRef) and k.sort() == self.S.sort(t.args[0])):
            raise Unsupported("substring find")
        start = self.e.rv(s, vs[1]) if len(vs) > 1 else z3.IntVal(0)
        d = self.S.dt(t)
        v = self.e.read(s, a)
        r = self.S.fresh_sort(z3.IntSort(), "fpos")
        npos = (1 << 64) - 1
        ln, arr = d.get(v, "len"), d.get(v, "arr")
        i = z3.Int("i")
        self.e.assume(s, z3.Or(r == npos, z3.And(r >= start, r < ln, sel(arr, r) == k)))
        self.e.assume(s, All(i, z3.Implies(z3.And(i >= start, i < ln, z3.Or(r == npos, i < r)), sel(arr, i) != k)))
        return r

    def occurs(self, d, v, k, p):
        """k occurs in v at p (uninterpreted here: a specification that needs it gives the definition as an axiom)"""
        A = z3.ArraySort(z3.IntSort(), z3.IntSort())
        Z = z3.IntSort()
        f = z3.Function("occurs", A, Z, A, Z, Z, Z)     # 1 when it does
        return f(d.get(v, "arr"), d.get(v, "len"), d.get(k, "arr"), d.get(k, "len"), p)

    def substr_find(self, s, a, t, k, vs):
        start = self.e.rv(s, vs[1]) if len(vs) > 1 else z3.IntVal(0)
        d = self.S.dt(t)
        v = self.e.read(s, a)
        r = self.S.fresh_sort(z3.IntSort(), "fpos")
        npos = (1 << 64) - 1
        i = z3.Int("i")
        oc = lambda p: self.occurs(d, v, k, p)
        o = lambda p: oc(p) == 1
        self.e.assume(s, z3.Or(r == npos, z3.And(r >= start, r + d.get(k, "len") <= d.get(v, "len"), o(r))))
        self.e.assume(s, All(i, z3.Implies(z3.And(i >= start, z3.Or(r == npos, i < r)), z3.Not(o(i))), oc(i)))
        # the same fact under a name, for specifications that use it
        A, Z = z3.ArraySort(z3.IntSort(), z3.IntSort()), z3.IntSort()
        self.e.assume(s, z3.Function("noneoccurs", A, Z, A, Z, Z, Z, Z)(d.get(v, "arr"), d.get(v, "len"), d.get(k, "arr"), d.get(k, "len"), start, z3.If(r == npos, d.get(v, "len") + 1, r)) == 1)
        return r

    # map / set / multimap
    def m_map_at(self, s, a, t, vs, ty, n):
        e = self.e
        k = e.rv(s, vs[0])
        v = e.read(s, a)
        inn = sel(self.S.dt(t).get(v, "dom"), k)
        ok, bad = e.fork(s, inn)
        if bad is not None:
            e.throwstates = getattr(e, "throwstates", []) + [bad]
        if ok is None:
            raise E.ThrowNow(bad) if False else E.ThrowNow(e.throwstates.pop())
        return [(ok, LV(a.root, a.steps + (("m", k),), t.args[1]))]

    def m_map_insert(self, s, a, t, vs, ty, n):
        e = self.e
        if len(vs) == 2:
            raise Unsupported("range insert into map")
        p = vs[0]
        if isinstance(p, tuple) and p[0] == "elemref":
            p = self.elem_value(s, p[1])
        p = e.rv(s, p)
        pd = self.S.dt(T("pair", "", t.args))
        k, x = pd.get(p, "first") if p.sort() == pd.sort else None, None
        if k is None:
            raise Unsupported("map insert argument")
        x = pd.get(p, "second")
        return self.map_ins(s, a, t, k, x)

    def map_ins(self, s, a, t, k, x, over=False):
        d = self.S.dt(t)
        v = self.e.read(s, a)
        dom, val, sz = d.get(v, "dom"), d.get(v, "val"), d.get(v, "sz")
        inn = sel(dom, k)
        self.e.write(s, a, d.mk(z3.Store(dom, k, z3.BoolVal(True)),
                                z3.Store(val, k, x if over else z3.If(inn, sel(val, k), x)), z3.If(inn, sz, sz + 1)))
        return PyPair(Iter("map", a, key=k, end=z3.BoolVal(False)), z3.Not(inn))

    def m_map_emplace(self, s, a, t, vs, ty, n):
        vs = [self.e.rv(s, v) for v in vs]
        if len(vs) != 2:
            raise Unsupported("emplace")
        return self.map_ins(s, a, t, vs[0], vs[1])

    def m_map_insert_or_assign(self, s, a, t, vs, ty, n):
        vs = [self.e.rv(s, v) for v in vs]
        return self.map_ins(s, a, t, vs[0], vs[1], over=True)

    m_map_try_emplace = m_map_emplace

    def m_map_erase(self, s, a, t, vs, ty, n):
        k = vs[0]
        k = self.e.rvp(s, k)
        if isinstance(k, Iter):
            if len(vs) > 1:
                raise Unsupported("range erase")
            self.e.oblige(s, "bounds", "erase of a valid iterator", z3.Not(k.end))
            k = k.key
        d = self.S.dt(t)
        v = self.e.read(s, a)
        f = "dom" if t.k == "map" else "mem"
        inn = sel(d.get(v, f), k)
        v = d.set(v, f, z3.Store(d.get(v, f), k, z3.BoolVal(False)))
        v = d.set(v, "sz", z3.If(inn, d.get(v, "sz") - 1, d.get(v, "sz")))
        self.e.write(s, a, v)
        return z3.If(inn, self.S.intval(1, SZ), self.S.intval(0, SZ))

    m_set_erase = m_map_erase

    def m_set_insert(self, s, a, t, vs, ty, n):
        e = self.e
        if len(vs) == 2:
            x, y = [e.rvp(s, v) for v in vs]
            return self.set_range(s, a, t, x, y)
        k = e.rv(s, vs[0])
        d = self.S.dt(t)
        v = e.read(s, a)
        inn = sel(d.get(v, "mem"), k)
        e.write(s, a, d.mk(z3.Store(d.get(v, "mem"), k, z3.BoolVal(True)), z3.If(inn, d.get(v, "sz"), d.get(v, "sz") + 1)))
        return PyPair(Iter("set", a, key=k, end=z3.BoolVal(False)), z3.Not(inn))

    m_set_emplace = m_set_insert

    def set_range(self, s, a, t, x, y):
        """insert(first, last) where [first,last) is a whole set or a whole vector"""
        if isinstance(x, Iter) and isinstance(y, Iter) and x.kind == "vec" and y.kind == "vec":
            e = self.e
            d, dv = self.S.dt(t), self.S.dt(x.lv.t)
            v, arr = e.read(s, a), dv.get(e.read(s, x.lv), "arr")
            r = self.S.fresh(t, "union")
            k, i = z3.Const("k", self.ksort(t)), z3.Int("i")
            self.nsk = getattr(self, "nsk", 0) + 1
            sk = z3.Function("pos!%d" % self.nsk, self.ksort(t), z3.IntSort())
            e.assume(s, All(i, z3.Implies(z3.And(x.idx <= i, i < y.idx), sel(d.get(r, "mem"), sel(arr, i))), sel(arr, i)))
            e.assume(s, All(k, z3.Implies(sel(d.get(v, "mem"), k), sel(d.get(r, "mem"), k)), sel(d.get(v, "mem"), k)))
            e.assume(s, All(k, z3.Implies(z3.And(sel(d.get(r, "mem"), k), z3.Not(sel(d.get(v, "mem"), k))),
                                          z3.And(x.idx <= sk(k), sk(k) < y.idx, sel(arr, sk(k)) == k)), sel(d.get(r, "mem"), k)))
            e.assume(s, d.get(r, "sz") >= d.get(v, "sz"))
            e.assume(s, z3.Implies(d.get(r, "sz") == d.get(v, "sz"), All(k, sel(d.get(r, "mem"), k) == sel(d.get(v, "mem"), k))))
            e.write(s, a, r)
            return None
        if not (isinstance(x, Iter) and isinstance(y, Iter) and x.kind == "set" and y.isend and x.seen is not None
                and z3.is_app(x.seen) and x.seen.decl().kind() == z3.Z3_OP_CONST_ARRAY):
            raise Unsupported("range insert")
        e = self.e
        d = self.S.dt(t)
        v = e.read(s, a)
        src = self.struct(s, x.lv)
        r = self.S.fresh(t, "union")
        k = z3.Const("k", self.ksort(t))
        e.assume(s, All(k, sel(d.get(r, "mem"), k) == z3.Or(sel(d.get(v, "mem"), k), sel(src, k))))
        e.assume(s, d.get(r, "sz") >= d.get(v, "sz"))
        e.assume(s, z3.Implies(d.get(r, "sz") == d.get(v, "sz"), All(k, sel(d.get(r, "mem"), k) == sel(d.get(v, "mem"), k))))
        e.write(s, a, r)
        return None

    def m_set_intersects(self, s, a, t, vs, ty, n):
        x, y = self.struct(s, a), self.struct(s, vs[0])
        k = z3.Const("k", self.ksort(t))
        w = self.S.fresh_sort(self.ksort(t), "common")
        b = self.S.fresh_sort(z3.BoolSort(), "intersects")
        self.e.assume(s, z3.Implies(b, z3.And(sel(x, w), sel(y, w))))
        self.e.assume(s, z3.Implies(z3.Not(b), All(k, z3.Not(z3.And(sel(x, k), sel(y, k))))))
        return b

    def m_mmap_insert(self, s, a, t, vs, ty, n):
        e = self.e
        if len(vs) == 2:
            x, y = [e.rvp(s, v) for v in vs]
            if isinstance(x, Iter) and isinstance(y, Iter) and x.kind == "mmap" and y.isend and x.n is not None and z3.is_int_value(x.n) and x.n.as_long() == 0 and x.rk is None \
                    and repr(x.lv.t) == repr(t) and (x.lv.root, len(x.lv.steps)) != (a.root, len(a.steps)):
                d = self.S.dt(t)
                v, w = e.read(s, a), e.read(s, x.lv)
                c2 = self.S.fresh_sort(d.get(v, "cnt").sort(), "union")
                k = z3.Const("k", self.ksort(t))
                e.assume(s, All(k, sel(c2, k) == sel(d.get(v, "cnt"), k) + sel(d.get(w, "cnt"), k), sel(c2, k)))
                e.write(s, a, d.mk(c2, d.get(v, "sz") + d.get(w, "sz")))
                return None
        p = vs[0]
        if isinstance(p, tuple) and p[0] == "elemref":
            p = self.elem_value(s, p[1])
        p = e.rv(s, p)
        pd = self.S.dt(T("pair", "", t.args))
        if len(vs) != 1 or p.sort() != pd.sort:
            raise Unsupported("multimap insert")
        return self.mm_ins(s, a, t, p)

    def mm_ins(self, s, a, t, p):
        d = self.S.dt(t)
        v = self.e.read(s, a)
        c = d.get(v, "cnt")
        self.e.assume(s, sel(c, p) >= 0)
        self.e.write(s, a, d.mk(z3.Store(c, p, sel(c, p) + 1), d.get(v, "sz") + 1))
        return Iter("mmap", a, key=p, end=z3.BoolVal(False))

    def m_mmap_emplace(self, s, a, t, vs, ty, n):
        vs = [self.e.rv(s, v) for v in vs]
        pd = self.S.dt(T("pair", "", t.args))
        return self.mm_ins(s, a, t, pd.mk(*vs))

    def m_mmap_erase(self, s, a, t, vs, ty, n):
        e = self.e
        if isinstance(vs[0], Iter) or len(vs) != 1:
            raise Unsupported("multimap erase at an iterator")
        k = e.rv(s, vs[0])
        d, pd = self.S.dt(t), self.S.dt(T("pair", "", t.args))
        v = e.read(s, a)
        c = d.get(v, "cnt")
        c2 = self.S.fresh_sort(c.sort(), "erased")
        sz2 = self.S.fresh_sort(z3.IntSort(), "sz")
        x = z3.Const("x", self.ksort(t))
        e.assume(s, All(x, sel(c2, x) == z3.If(pd.get(x, "first") == k, 0, sel(c, x)), sel(c2, x)))
        e.assume(s, z3.And(0 <= sz2, sz2 <= d.get(v, "sz")))
        e.assume(s, z3.Implies(All(x, z3.Implies(pd.get(x, "first") == k, sel(c, x) == 0), sel(c, x)), sz2 == d.get(v, "sz")))
        e.write(s, a, d.mk(c2, sz2))
        return d.get(v, "sz") - sz2

    def m_mmap_equal_range(self, s, a, t, vs, ty, n):
        k = self.e.rv(s, vs[0])
        it = self.fresh_iter(s, a, self.empty_seen(t), z3.IntVal(0), rk=k)
        return PyPair(it, Iter("mmap", a, end=z3.BoolVal(True), isend=True))

    # vectors and strings
    def m_vec_push_back(self, s, a, t, vs, ty, n):
        v = vs[0]
        if isinstance(v, tuple) and v[0] == "elemref":
            v = self.elem_value(s, v[1])
        v = self.e.rv(s, v)
        if self.is_ostr(t):
            return self.append(s, a, t, v, t.args[0])
        d = self.S.dt(t)
        cur = self.e.read(s, a)
        self.e.assume(s, d.get(cur, "len") >= 0)
        self.e.write(s, a, d.mk(z3.Store(d.get(cur, "arr"), d.get(cur, "len"), v), d.get(cur, "len") + 1))
        return None

    def m_vec_emplace_back(self, s, a, t, vs, ty, n):
        if len(vs) == 1 and self.e.rv(s, vs[0]).sort() == self.S.sort(t.args[0]):
            self.m_vec_push_back(s, a, t, vs, ty, n)
        else:
            d = self.S.dt(t.args[0])
            v = d.mk(*[self.e.rv(s, x) for x in vs])
            self.m_vec_push_back(s, a, t, [v], ty, n)
        cur = self.e.read(s, a)
        return LV(a.root, a.steps + (("i", self.S.dt(t).get(cur, "len") - 1),), t.args[0])

    def m_vec_pop_back(self, s, a, t, vs, ty, n):
        d = self.S.dt(t)
        cur = self.e.read(s, a)
        self.e.oblige(s, "bounds", "pop_back on non-empty", d.get(cur, "len") > 0)
        self.e.write(s, a, d.set(cur, "len", d.get(cur, "len") - 1))
        return None

    def m_vec_push(self, s, a, t, vs, ty, n):           # std::queue
        return self.m_vec_push_back(s, a, t, vs, ty, n)

    def m_vec_pop(self, s, a, t, vs, ty, n):
        d = self.S.dt(t)
        cur = self.e.read(s, a)
        ln, arr = d.get(cur, "len"), d.get(cur, "arr")
        self.e.oblige(s, "bounds", "pop() on non-empty", ln > 0)
        new = self.S.fresh_sort(arr.sort(), "popped")
        i = z3.Int("i")
        self.e.assume(s, z3.ForAll([i], sel(new, i) == sel(arr, i + 1), patterns=[sel(new, i)]))
        self.e.write(s, a, d.mk(new, ln - 1))
        return None

    m_vec_pop_front = m_vec_pop

    def m_vec_back(self, s, a, t, vs, ty, n):
        ln = self.vlen(t, self.e.read(s, a))
        self.e.oblige(s, "bounds", "back() on non-empty", ln > 0)
        return LV(a.root, a.steps + (("i", ln - 1),), t.args[0])

    def m_vec_front(self, s, a, t, vs, ty, n):
        ln = self.vlen(t, self.e.read(s, a))
        self.e.oblige(s, "bounds", "front() on non-empty", ln > 0)
        return LV(a.root, a.steps + (("i", z3.IntVal(0)),), t.args[0])

    def m_vec_at(self, s, a, t, vs, ty, n):
        k = self.e.rv(s, vs[0])
        ln = self.vlen(t, self.e.read(s, a))
        self.e.oblige(s, "bounds", "at() in range", z3.And(k >= 0, k < ln))
        return LV(a.root, a.steps + (("i", k),), t.args[0])

    def m_vec_reserve(self, s, a, t, vs, ty, n):
        return None

    def m_vec_resize(self, s, a, t, vs, ty, n):
        d = self.S.dt(t)
        cur = self.e.read(s, a)
        k = self.e.rv(s, vs[0])
        r = self.S.fresh(t, "rsz")
        i = z3.Int("i")
        dv = self.e.rv(s, vs[1]) if len(vs) > 1 else self.S.default(t.args[0])
        self.e.assume(s, d.get(r, "len") == k)
        self.e.assume(s, All(i, z3.Implies(z3.And(i >= 0, i < k), sel(d.get(r, "arr"), i) == z3.If(i < d.get(cur, "len"), sel(d.get(cur, "arr"), i), dv))))
        self.e.write(s, a, r)
        return None

    def m_vec_substr(self, s, a, t, vs, ty, n):
        v = self.e.read(s, a)
        p = self.e.rv(s, vs[0]) if vs else z3.IntVal(0)
        ln = self.vlen(t, v)
        c = self.e.rv(s, vs[1]) if len(vs) > 1 else None
        self.e.oblige(s, "bounds", "substr position in range", z3.And(p >= 0, p <= ln))
        m = ln - p if c is None else z3.If(c < ln - p, c, ln - p)
        if self.is_ostr(t):
            f = z3.Function("ssub", self.S.Str, z3.IntSort(), z3.IntSort(), self.S.Str)
            r = f(v, p, m)
            self.e.assume(s, self.slen(r) == m)
            return r
        d = self.S.dt(t)
        r = self.S.fresh(t, "sub")
        i = z3.Int("i")
        self.e.assume(s, d.get(r, "len") == m)
        self.e.assume(s, All(i, z3.Implies(z3.And(i >= 0, i < m), sel(d.get(r, "arr"), i) == sel(d.get(v, "arr"), i + p))))
        return r

    def m_vec_replace(self, s, a, t, vs, ty, n):
        e = self.e
        if self.is_ostr(t) or len(vs) != 3:
            raise Unsupported("replace")
        p, c, w = e.rv(s, vs[0]), e.rv(s, vs[1]), e.rv(s, vs[2])
        if isinstance(w, tuple) and w and w[0] == "strlit":
            w = self.strlit(w[1], t)
        if not (isinstance(w, z3.ExprRef) and w.sort() == self.S.sort(t)):
            raise Unsupported("replace")
        d = self.S.dt(t)
        cur = e.read(s, a)
        ln, arr = d.get(cur, "len"), d.get(cur, "arr")
        e.oblige(s, "bounds", "replace position in range", z3.And(p >= 0, p <= ln))
        m = z3.If(c < ln - p, c, ln - p)
        wl, wa = d.get(w, "len"), d.get(w, "arr")
        r = self.S.fresh(t, "rpl")
        ra = d.get(r, "arr")
        i = z3.Int("i")
        e.assume(s, d.get(r, "len") == ln - m + wl)
        e.assume(s, All(i, z3.Implies(z3.And(i >= 0, i < p), sel(ra, i) == sel(arr, i)), sel(ra, i)))
        e.assume(s, All(i, z3.Implies(z3.And(i >= 0, i < wl), sel(ra, p + i) == sel(wa, i)), sel(wa, i)))
        e.assume(s, All(i, z3.Implies(z3.And(i >= p + wl, i < ln - m + wl), sel(ra, i) == sel(arr, i - wl + m)), sel(ra, i)))
        # what follows the replaced part is kept (a name for the fact above, for specifications that use it)
        A, Z = z3.ArraySort(z3.IntSort(), z3.IntSort()), z3.IntSort()
        if arr.sort() == A:
            e.assume(s, z3.Function("sametail", A, Z, A, Z, Z, Z)(ra, d.get(r, "len"), arr, ln, p + wl) == 1)
        e.write(s, a, r)
        return a

    def m_vec_append(self, s, a, t, vs, ty, n):
        if len(vs) != 1:
            raise Unsupported("append with count")
        return self.append(s, a, t, vs[0], ty[0])

    def insert_range(self, s, a, t, it, b, f):
        e, d = self.e, self.S.dt(t)
        if not (isinstance(b, Iter) and isinstance(f, Iter) and b.kind == f.kind == it.kind == "vec" and b.lv.root == f.lv.root and b.lv.steps == f.lv.steps and b.lv.t == t) or b.rev or f.rev or it.rev:
            raise Unsupported("vector insert of a range")
        if b.lv.root == a.root and (b.lv.steps[:len(a.steps)] == a.steps or a.steps[:len(b.lv.steps)] == b.lv.steps):
            raise Unsupported("vector insert of a range of its own")
        cur, src = e.read(s, a), e.read(s, b.lv)
        ln, arr, p = d.get(cur, "len"), d.get(cur, "arr"), it.idx
        e.oblige(s, "bounds", "insert position in range", z3.And(p >= 0, p <= ln))
        e.oblige(s, "bounds", "inserted range is a range", z3.And(b.idx >= 0, b.idx <= f.idx, f.idx <= d.get(src, "len")))
        m = f.idx - b.idx
        r = self.S.fresh(t, "ins")
        ra, sa = d.get(r, "arr"), d.get(src, "arr")
        i = z3.Int("i")
        e.assume(s, d.get(r, "len") == ln + m)
        e.assume(s, All(i, z3.Implies(z3.And(i >= 0, i < p), sel(ra, i) == sel(arr, i)), sel(ra, i)))
        e.assume(s, All(i, z3.Implies(z3.And(i >= p, i < p + m), sel(ra, i) == sel(sa, i - p + b.idx)), sel(ra, i)))
        e.assume(s, All(i, z3.Implies(z3.And(i >= p + m, i < ln + m), sel(ra, i) == sel(arr, i - m)), sel(ra, i)))
        e.write(s, a, r)
        return Iter("vec", a, idx=p)

    def m_vec_insert(self, s, a, t, vs, ty, n):
        e = self.e
        it = e.rvp(s, vs[0])
        if isinstance(it, Iter) and len(vs) == 3:
            return self.insert_range(s, a, t, it, e.rvp(s, vs[1]), e.rvp(s, vs[2]))
        if not isinstance(it, Iter) or len(vs) != 2:
            raise Unsupported("vector insert")
        v = e.rv(s, vs[1])
        d = self.S.dt(t)
        cur = e.read(s, a)
        p, ln = it.idx, d.get(cur, "len")
        e.oblige(s, "bounds", "insert position in range", z3.And(p >= 0, p <= ln))
        r = self.S.fresh(t, "ins")
        i = z3.Int("i")
        arr, ra = d.get(cur, "arr"), d.get(r, "arr")
        e.assume(s, d.get(r, "len") == ln + 1)
        e.assume(s, All(i, z3.Implies(z3.And(i >= 0, i < p), sel(ra, i) == sel(arr, i)), sel(ra, i)))
        e.assume(s, All(i, z3.Implies(z3.And(i > p, i <= ln), sel(ra, i) == sel(arr, i - 1)), sel(ra, i)))
        e.assume(s, All(i, z3.Implies(z3.And(i >= p, i < ln), sel(ra, i + 1) == sel(arr, i)), sel(arr, i)))
        e.assume(s, All(i, z3.Implies(z3.And(i >= 0, i < p), sel(ra, i) == sel(arr, i)), sel(arr, i)))
        e.assume(s, sel(ra, p) == v)
        e.write(s, a, r)
        return Iter("vec", a, idx=p)

    def m_vec_erase(self, s, a, t, vs, ty, n):
        e = self.e
        it = e.rvp(s, vs[0])
        if not isinstance(it, Iter):
            raise Unsupported("string erase")
        d = self.S.dt(t)
        cur = e.read(s, a)
        p, ln = it.idx, d.get(cur, "len")
        q = p + 1
        if len(vs) == 2:
            it2 = e.rvp(s, vs[1])
            q = it2.idx
        e.oblige(s, "bounds", "erase range valid", z3.And(p >= 0, p <= q, q <= ln))
        r = self.S.fresh(t, "ers")
        i = z3.Int("i")
        arr, ra = d.get(cur, "arr"), d.get(r, "arr")
        k = q - p
        e.assume(s, d.get(r, "len") == ln - k)
        e.assume(s, All(i, z3.Implies(z3.And(i >= 0, i < p), sel(ra, i) == sel(arr, i)), sel(ra, i)))
        e.assume(s, All(i, z3.Implies(z3.And(i >= p, i < ln - k), sel(ra, i) == sel(arr, i + k)), sel(ra, i)))
        e.assume(s, All(i, z3.Implies(z3.And(i >= 0, i < p), sel(ra, i) == sel(arr, i)), sel(arr, i)))
        e.assume(s, All(i, z3.Implies(z3.And(i >= q, i < ln), sel(ra, i - k) == sel(arr, i)), sel(arr, i)))
        e.write(s, a, r)
        return Iter("vec", a, idx=p)

    def m_vec_data(self, s, a, t, vs, ty, n):
        return Addr(a)

    m_vec_c_str = m_vec_data

    def m_vec_assign(self, s, a, t, vs, ty, n):
        e = self.e
        if len(vs) != 2:
            raise Unsupported("vector assign")
        x, y = e.rvp(s, vs[0]), e.rvp(s, vs[1])
        if not (isinstance(x, Iter) and isinstance(y, Iter) and x.kind == y.kind == "vec"):
            raise Unsupported("vector assign")
        if x.lv.root == a.root and x.lv.steps == a.steps:
            raise Unsupported("vector assign from itself")
        d = self.S.dt(t)
        src = self.S.dt(x.lv.t).get(e.read(s, x.lv), "arr")
        e.oblige(s, "bounds", "assign from a valid range", z3.And(0 <= x.idx, x.idx <= y.idx, y.idx <= self.S.dt(x.lv.t).get(e.read(s, x.lv), "len")))
        r = self.S.fresh(t, "asg")
        i = z3.Int("i")
        e.assume(s, d.get(r, "len") == y.idx - x.idx)
        e.assume(s, All([i], z3.Implies(z3.And(0 <= i, i < y.idx - x.idx), sel(d.get(r, "arr"), i) == sel(src, i + x.idx)), sel(d.get(r, "arr"), i)))
        e.assume(s, All([i], z3.Implies(z3.And(x.idx <= i, i < y.idx), sel(d.get(r, "arr"), i - x.idx) == sel(src, i)), sel(src, i)))
        e.write(s, a, r)
        return None

    def m_stream_write(self, s, a, t, vs, ty, n):
        p, c = vs[0], self.e.rv(s, vs[1])
        c = z3.simplify(c)
        one = (z3.is_int_value(c) or z3.is_bv_value(c)) and c.as_long() == 1
        if not isinstance(p, Addr) or not one:
            raise Unsupported("stream write of more than one byte")
        b = self.e.read(s, p.lv)
        self.put(s, a, self.e.cast(s, b, p.lv.t, I(8, False)))
        return a

    def put(self, s, a, b):
        self.use("output stream accepts every byte (no I/O error) and appends it")
        d = self.S.dt(a.t)
        v = self.e.read(s, a)
        self.e.write(s, a, d.mk(z3.Store(d.get(v, "data"), d.get(v, "len"), b), d.get(v, "pos"), d.get(v, "len") + 1, d.get(v, "bad")))

    # ---- fixed-width parts of a file of tokens: magic numbers and 64 bit words
    TOKIO = ("fwrite_unlocked", "fwrite", "fread_unlocked", "fread", "fgetpos", "fsetpos", "strncmp", "write_be", "read_be")

    def strip(self, n):
        while n["kind"] in ("ImplicitCastExpr", "ParenExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXReinterpretCastExpr"):
            n = inner(n)[0]
        return n

    def small_unit(self, n):
        """is the value converted from a 16 bit code unit"""
        while n["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            n = inner(n)[0]
        t = self.e.ty(n).deref()
        return t.k == "int" and t.bits <= 16 and not t.signed

    def magic_const(self, n):
        """bytes of a constant char array that expression n names -> (value, length)"""
        n = self.strip(n)
        if n["kind"] != "DeclRefExpr":
            return None
        d = n["referencedDecl"]
        for tu in self.e.tus:
            g = tu.byid.get(d["id"])
            if g is None or g.get("kind") != "VarDecl" or "const" not in g["type"]["qualType"] or "char" not in g["type"]["qualType"]:
                continue
            chars = []

            def walk(x):
                if x.get("kind") == "CharacterLiteral":
                    chars.append(x["value"])
                elif x.get("kind") == "StringLiteral":
                    raise Unsupported("string constant")
                for y in inner(x):
                    walk(y)
            for x in inner(g):
                walk(x)
            if chars:
                v = 0
                for ch in chars:
                    v = v * 256 + ch
                return v, len(chars)
        return None

    def magic_local(self, n, st):
        n = self.strip(n)
        if n["kind"] != "DeclRefExpr":
            return None
        lv = st.fr.env.get(n["referencedDecl"]["id"])
        if lv is None or not isinstance(st.store.get(lv.root), tuple) or st.store[lv.root][0] != "magic":
            return None
        return lv

    def tokio(self, n, st, nm, args):
        e, S = self.e, self.S
        Tok = S.Tok()
        if S.mode != "int":
            return None

        def file(a):
            r = e.ev(a, st)
            if len(r) != 1:
                raise Unsupported("file expression")
            v = r[0][1]
            if isinstance(v, LV) and v.t.k == "ptr":
                v = e.rv(st, v)
            fl = v.lv if isinstance(v, Addr) else v
            if not isinstance(fl, LV) or fl.t.k != "stream":
                raise Unsupported("file expression")
            return fl

        def const(a):
            r = e.ev(a, st)
            x = z3.simplify(e.rv(st, r[0][1]))
            if len(r) != 1 or not z3.is_int_value(x):
                raise Unsupported("size of a block")
            return x.as_long()

        def token(fl, kind, get):
            """next token, if it is of that kind; if not, anything happens"""
            d = S.dt(fl.t)
            v = e.read(st, fl)
            pos, t = d.get(v, "pos"), sel(d.get(v, "data"), d.get(v, "pos"))
            ok = z3.And(pos < d.get(v, "len"), getattr(Tok, "is_" + kind)(t))
            x, q, bad = S.fresh_sort(z3.IntSort(), "raw"), S.fresh_sort(z3.IntSort(), "pos"), S.fresh_sort(z3.BoolSort(), "bad")
            e.assume(st, z3.And(q >= pos, q <= d.get(v, "len")))
            e.write(st, fl, d.mk(d.get(v, "data"), z3.If(ok, pos + 1, q), d.get(v, "len"), z3.If(ok, d.get(v, "bad"), bad)))
            return ok, z3.If(ok, get(t), x)
        if nm in ("fwrite_unlocked", "fwrite"):
            m = self.magic_const(args[0])
            if m is None:
                return None
            if const(args[1]) * const(args[2]) != m[1]:
                raise Unsupported("part of a constant")
            self.put(st, file(args[3]), Tok.TMagic(z3.IntVal(m[0])))
            return [(st, S.intval(m[1], SZ))]
        if nm in ("fread_unlocked", "fread"):
            lv = self.magic_local(args[0], st)
            if lv is None:
                return None
            if const(args[1]) * const(args[2]) != st.store[lv.root][2]:
                raise Unsupported("part of a header")
            self.use("a header is read as a whole; no other token starts with the same bytes as a header")
            ok, x = token(file(args[3]), "TMagic", Tok.tmagic)
            st.store[lv.root] = ("magic", z3.If(ok, x, -1), st.store[lv.root][2])
            return [(st, S.fresh(SZ, "count"))]
        if nm == "strncmp":
            lv, m = self.magic_local(args[0], st), self.magic_const(args[1])
            if lv is None or m is None or const(args[2]) != m[1]:
                raise Unsupported("strncmp")
            r = S.fresh(INT, "cmp")
            e.assume(st, z3.And((r == 0) == (st.store[lv.root][1] == m[0]), r >= -2**31, r < 2**31))
            return [(st, r)]
        if nm in ("fgetpos", "fsetpos"):
            fl = file(args[0])
            a = args[1]
            while a["kind"] in ("ImplicitCastExpr", "ParenExpr"):
                a = inner(a)[0]
            if a["kind"] != "UnaryOperator" or a.get("opcode") != "&":
                raise Unsupported(nm)
            pl = e.ev1(inner(a)[0], st)[1]
            d = S.dt(fl.t)
            v = e.read(st, fl)
            self.use("the input is seekable")
            if nm == "fgetpos":
                e.write(st, pl, d.get(v, "pos"))
            else:
                e.write(st, fl, d.mk(d.get(v, "data"), e.read(st, pl), d.get(v, "len"), z3.BoolVal(False)))
            return [(st, z3.IntVal(0))]
        if nm == "write_be":
            self.use("write_be/read_be exchange 64 bit words")
            r = e.evs([args[1]], st)
            if len(r) != 1:
                raise Unsupported("write_be")
            self.put(st, file(args[0]), Tok.TWord(e.rv(st, r[0][1][0])))
            return [(st, None)]
        if nm == "read_be":
            self.use("write_be/read_be exchange 64 bit words")
            ok, x = token(file(args[0]), "TWord", Tok.tword)
            e.assume(st, z3.And(x >= 0, x < 2**64))
            return [(st, x)]
        return None

    def m_stream_put(self, s, a, t, vs, ty, n):
        b = self.e.rv(s, vs[0])
        self.put(s, a, self.e.cast(s, b, ty[0] if ty[0].k == "int" else I(8, True), I(8, False)))
        return a

    def getb(self, s, a):
        d = self.S.dt(a.t)
        v = self.e.read(s, a)
        pos = d.get(v, "pos")
        ok = pos < d.get(v, "len")
        b = sel(d.get(v, "data"), pos)
        if self.S.mode == "int":
            self.e.assume(s, z3.And(b >= 0, b < 256))
        self.e.write(s, a, d.mk(d.get(v, "data"), z3.If(ok, pos + 1, pos), d.get(v, "len"), z3.Or(d.get(v, "bad"), z3.Not(ok))))
        return ok, b

    def m_stream_get(self, s, a, t, vs, ty, n):
        ok, b = self.getb(s, a)
        if not vs:
            return z3.If(ok, self.e.cast(s, b, I(8, False), INT), self.S.intval(-1, INT))
        p = vs[0]
        c = self.e.cast(s, b, I(8, False), p.t)
        self.e.write(s, p, z3.If(ok, c, self.e.read(s, p)))
        return a

    def m_stream_read(self, s, a, t, vs, ty, n):
        p, c = vs[0], z3.simplify(self.e.rv(s, vs[1]))
        one = (z3.is_int_value(c) or z3.is_bv_value(c)) and c.as_long() == 1
        if not isinstance(p, Addr) or not one:
            raise Unsupported("stream read of more than one byte")
        ok, b = self.getb(s, a)
        self.e.write(s, p.lv, z3.If(ok, self.e.cast(s, b, I(8, False), p.lv.t), self.e.read(s, p.lv)))
        return a

    def m_stream_operator_bool(self, s, a, t, vs, ty, n):
        return z3.Not(self.S.dt(a.t).get(self.e.read(s, a), "bad"))

    # ------------------------------------------------------------ free functions
    def function(self, n, st, nm, args, d):
        e, S = self.e, self.S
        out = []
        args = [a for a in args if a["kind"] != "CXXDefaultArgExpr"]
        if nm in ("exit", "abort", "_exit"):
            for s, _ in e.evs(args, st):
                raise E.ExitNow(s)
        for s, vs in e.evs(args, st):
            ty = [e.ty(a).deref() for a in args]
            out += self.fn(n, s, nm, vs, ty, d, args)
        return out

    def fn(self, n, s, nm, vs, ty, d, args):
        if re.match(r"u_\w+_\d+$", nm):
            nm = re.sub(r"_\d+$", "", nm)      # ICU appends its version to the names
        if nm in ("memcpy", "memmove") and len(args) == 3:
            e = self.e
            dst, src = e.own_lv(args[0], s), e.own_lv(args[1], s)
            if dst is None or src is None or dst.t.args[0].k not in ("int", "bool", "double") or dst.t != src.t:
                raise Unsupported(nm + " on something other than owned arrays of scalars")
            et = dst.t.args[0]
            sz = {"int": et.bits // 8, "bool": 1, "double": 8}[et.k]
            by = e.idx(e.rv(s, vs[2]))
            k = by / sz
            dd = self.S.dt(dst.t)
            a, b = e.read(s, dst), e.read(s, src)
            e.oblige(s, "bounds", nm + " stays inside both arrays", z3.And(by <= sz * dd.get(a, "len"), by <= sz * dd.get(b, "len")))
            arr = self.S.fresh_sort(dd.get(a, "arr").sort(), "cpy")
            i = z3.Int("i!cpy")
            s.pc.append(All([i], sel(arr, i) == z3.If(z3.And(i >= 0, i < k), sel(dd.get(b, "arr"), i), sel(dd.get(a, "arr"), i)), sel(arr, i)))
            e.write(s, dst, dd.mk(arr, dd.get(a, "len")))
            self.use(nm + " copies the bytes")
            return [(s, None)]
        e, S = self.e, self.S
        if nm == "make_pair":
            t = e.ty(n)
            v = [e.rvp(s, x) for x in vs]
            if any(isinstance(x, (Iter, Addr)) for x in v):
                return [(s, PyPair(*v))]
            return [(s, S.dt(t).mk(*v))]
        if nm in ("move", "forward", "as_const", "addressof"):
            return [(s, vs[0])]
        if nm in ("max", "min") and len(vs) == 2:
            t = e.ty(n)
            a, b = e.rv(s, vs[0]), e.rv(s, vs[1])
            c = e.arith(s, "<", a, b, T("bool"), ty[0])
            return [(s, z3.If(c, b, a) if nm == "max" else z3.If(c, a, b))]
        if nm in ("max", "min") and not vs and e.ty(n).k == "int":
            lo, hi = e.ty(n).rng
            return [(s, S.intval(hi if nm == "max" else lo, e.ty(n)))]
        if nm == "infinity":
            return [(s, z3.fpPlusInfinity(z3.Float64()) if S.mode == "bv" else S.dblval("inf"))]
        if nm == "swap" and len(vs) == 2 and all(isinstance(v, LV) for v in vs):
            x, y = e.read(s, vs[0]), e.read(s, vs[1])
            e.write(s, vs[0], y)
            e.write(s, vs[1], x)
            return [(s, None)]
        if nm in ("fwrite_unlocked", "fwrite"):
            p, a, b, f = vs
            if isinstance(f, LV):
                fl = f
            elif isinstance(f, Addr):
                fl = f.lv
            else:
                raise Unsupported("fwrite target")
            a, b = z3.simplify(e.rv(s, a)), z3.simplify(e.rv(s, b))
            if not isinstance(p, Addr) or a.as_long() != 1 or b.as_long() != 1:
                raise Unsupported("fwrite of more than one byte")
            self.put(s, fl, e.cast(s, e.read(s, p.lv), p.lv.t, I(8, False)))
            return [(s, S.intval(1, SZ))]
        if nm in ("fread_unlocked", "fread"):
            p, a, b, f = vs
            fl = f if isinstance(f, LV) else f.lv
            a, b = z3.simplify(e.rv(s, a)), z3.simplify(e.rv(s, b))
            if not isinstance(p, Addr) or a.as_long() != 1 or b.as_long() != 1:
                raise Unsupported("fread of more than one byte")
            self.use("input stream yields its bytes in order; at end of input the object read into is unchanged")
            ok, x = self.getb(s, fl)
            e.write(s, p.lv, z3.If(ok, e.cast(s, x, I(8, False), p.lv.t), e.read(s, p.lv)))
            return [(s, z3.If(ok, S.intval(1, SZ), S.intval(0, SZ)))]
        if nm == "u_fputc" and S.mode == "int":
            b = e.rv(s, vs[0])
            fl = vs[1] if isinstance(vs[1], LV) else vs[1].lv
            self.use("u_fputc appends one character: one code unit, or a surrogate pair")
            if z3.is_int_value(z3.simplify(b)) or e.ty(args[0]).k == "int" and self.small_unit(args[0]):
                self.put(s, fl, b)
                return [(s, b)]
            d = S.dt(fl.t)
            v = e.read(s, fl)
            dat, ln = d.get(v, "data"), d.get(v, "len")
            big = b > 0xFFFF
            two = z3.Store(z3.Store(dat, ln, b / 1024 + 0xD7C0), ln + 1, b % 1024 + 0xDC00)
            e.write(s, fl, d.mk(z3.If(big, two, z3.Store(dat, ln, b)), d.get(v, "pos"), z3.If(big, ln + 2, ln + 1), d.get(v, "bad")))
            return [(s, b)]
        if nm == "u_fprintf" and S.mode == "int" and S.strings == "vec":
            fmt = self.strip(args[1])
            lit = fmt.get("value") if fmt["kind"] == "StringLiteral" else None
            if lit != '"%.*S"' or len(vs) != 4 or not isinstance(vs[3], Addr):
                raise Unsupported("u_fprintf format")
            self.use("u_fprintf(\"%.*S\") appends the units of its text (which has no NUL)")
            fl = vs[0] if isinstance(vs[0], LV) else vs[0].lv
            src = e.read(s, vs[3].lv)
            sd = S.dt(vs[3].lv.t)
            e.oblige(s, "bounds", "the whole text is printed", e.rv(s, vs[2]) == sd.get(src, "len"))
            d = S.dt(fl.t)
            v = e.read(s, fl)
            dat, ln, k = d.get(v, "data"), d.get(v, "len"), sd.get(src, "len")
            new = S.fresh_sort(dat.sort(), "printed")
            i = z3.Int("i")
            e.assume(s, z3.ForAll([i], z3.Implies(z3.Or(i < ln, i >= ln + k), sel(new, i) == sel(dat, i)), patterns=[sel(new, i)]))
            e.assume(s, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), sel(new, ln + i) == sel(sd.get(src, "arr"), i)), patterns=[sel(sd.get(src, "arr"), i)]))
            e.assume(s, z3.ForAll([i], z3.Implies(z3.And(ln <= i, i < ln + k), sel(new, i) == sel(sd.get(src, "arr"), i - ln)), patterns=[sel(new, i)]))
            e.write(s, fl, d.mk(new, d.get(v, "pos"), ln + k, d.get(v, "bad")))
            return [(s, k)]
        if nm in ("fputc_unlocked", "fputc", "putc"):
            b = e.rv(s, vs[0])
            fl = vs[1] if isinstance(vs[1], LV) else vs[1].lv
            self.put(s, fl, e.cast(s, b, INT, I(8, False)))
            return [(s, e.cast(s, e.cast(s, b, INT, I(8, False)), I(8, False), INT))]
        if nm in ("fgetc_unlocked", "fgetc", "getc"):
            fl = vs[0] if isinstance(vs[0], LV) else vs[0].lv
            ok, b = self.getb(s, fl)
            return [(s, z3.If(ok, e.cast(s, b, I(8, False), INT), S.intval(-1, INT)))]
        if nm in ("isinf",) and S.mode == "bv":
            return [(s, z3.fpIsInf(e.rv(s, vs[0])))]
        if nm == "isinf":
            x = e.rv(s, vs[0])
            self.use("std::isinf(x) iff x is one of the two infinities")
            return [(s, z3.Or(x == S.dblval("inf"), x == S.dblval("-inf")))]
        if nm == "frexp":
            x = e.rv(s, vs[0])
            self.use("frexp contract: x = ldexp(m, e), 0.5 <= |m| < 1 or x = 0 (m = 0, e = 0), -1073 <= e <= 1024")
            m = z3.Function("frexp_m", S.Dbl, S.Dbl)(x)
            ex = z3.Function("frexp_e", S.Dbl, S.sort(INT))(x)
            e.write(s, vs[1].lv, ex)
            for g in self.frexp_facts(x, m, ex):
                e.assume(s, g)
            return [(s, m)]
        if nm == "ldexp":
            a, b = e.rv(s, vs[0]), e.rv(s, vs[1])
            return [(s, z3.Function("ldexp", S.Dbl, S.sort(INT), S.Dbl)(a, b))]
        if nm in ("begin", "cbegin") and isinstance(vs[0], LV):
            return [(s, self.begin(s, vs[0]))]
        if nm in ("end", "cend") and isinstance(vs[0], LV):
            return [(s, self.endit(s, vs[0]))]
        if nm in ("lower_bound", "upper_bound"):
            return self.bound(n, s, nm, vs)
        if nm == "distance":
            a, b = e.rvp(s, vs[0]), e.rvp(s, vs[1])
            if isinstance(a, Iter) and isinstance(b, Iter) and a.kind == b.kind == "vec":
                return [(s, b.idx - a.idx)]
            raise Unsupported("distance")
        if nm == "back_inserter" and isinstance(vs[0], LV) and vs[0].t.k == "vec":
            return [(s, ("backins", vs[0]))]
        if nm == "merge":
            return self.std_merge(n, s, vs)
        if nm in ("sort", "stable_sort"):
            return self.std_sort(n, s, vs, nm == "stable_sort")
        if nm == "unique":
            return self.std_unique(n, s, vs)
        if nm == "prev" or nm == "next":
            it = e.rvp(s, vs[0]) if isinstance(vs[0], LV) and e.peek(s, vs[0]) is not None and not isinstance(e.peek(s, vs[0]), z3.ExprRef) else vs[0]
            if isinstance(it, Iter) and it.kind == "vec":
                k = e.rv(s, vs[1]) if len(vs) > 1 else z3.IntVal(1)
                return [(s, Iter("vec", it.lv, idx=it.idx + k if nm == "next" else it.idx - k))]
        if nm == "advance":
            it = e.peek(s, vs[0])
            if isinstance(it, Iter) and it.kind == "vec":
                e.write(s, vs[0], Iter("vec", it.lv, idx=it.idx + e.rv(s, vs[1])))
                return [(s, None)]
        if nm.startswith("u_"):
            nm = re.sub(r"_\d+$", "", nm)      # ICU appends its version to the names
        if nm in ("u_tolower", "u_toupper", "u_isupper", "u_isspace", "u_ispunct", "u_isalnum", "u_isalpha", "u_islower", "tolower", "toupper", "u_totitle"):
            self.use("ICU/C %s is an uninterpreted function of its argument" % nm)
            x = e.rv(s, vs[0])
            t = e.ty(n)
            r = z3.Function("ext_" + nm, x.sort(), S.sort(t))(x)
            for g in S.wf(t, r):
                e.assume(s, g)
            return [(s, r)]
        if nm == "abs" and S.mode == "int":
            x = e.rv(s, vs[0])
            return [(s, z3.If(x >= 0, x, -x))]
        if nm in ("__builtin_expect",):
            return [(s, e.rv(s, vs[0]))]
        raise Unsupported("library function " + nm)

    def frexp_facts(self, x, m, ex):
        S = self.S
        r = []
        if S.mode == "bv":
            fin = z3.Not(z3.Or(z3.fpIsInf(x), z3.fpIsNaN(x)))
            half, one = z3.FPVal(0.5, z3.Float64()), z3.FPVal(1.0, z3.Float64())
            am = z3.fpAbs(m)
            r.append(z3.Implies(z3.And(fin, z3.Not(z3.fpIsZero(x))), z3.And(z3.fpGEQ(am, half), z3.fpLT(am, one), ex >= -1073, ex <= 1024, z3.fpLT(m, z3.FPVal(0.0, z3.Float64())) == z3.fpLT(x, z3.FPVal(0.0, z3.Float64())))))
            r.append(z3.Implies(z3.fpIsZero(x), z3.And(m == x, ex == 0)))
        return r

    def vrange(self, s, a, b, what):
        e = self.e
        a, b = e.rvp(s, a), e.rvp(s, b)
        if not (isinstance(a, Iter) and isinstance(b, Iter) and a.kind == b.kind == "vec") or a.lv.t.args[0].k != "int":
            raise Unsupported(what)
        v = e.read(s, a.lv)
        d = self.S.dt(a.lv.t)
        e.oblige(s, "bounds", what + " on a valid range", z3.And(0 <= a.idx, a.idx <= b.idx, b.idx <= d.get(v, "len")))
        return a, b, d, d.get(v, "arr")

    def is_less(self, n, v, k):
        """the k-th argument is std::less or absent"""
        if v is None:
            return True
        return isinstance(v, LV) and v.t.k == "less" or self.e.ty(inner(n)[k + 1]).deref().k == "less"

    def srt(self, arr, lo, hi, op=lambda a, b: a <= b):
        i, j = z3.Ints("i j")
        return All([i, j], z3.Implies(z3.And(lo <= i, i < j, j < hi), op(sel(arr, i), sel(arr, j))), (sel(arr, i), sel(arr, j)))

    def skolem(self, name):
        self.nsk = getattr(self, "nsk", 0) + 1
        return z3.Function("%s!%d" % (name, self.nsk), z3.IntSort(), z3.IntSort())

    def onto(self, s, a, lo, hi, b, lo2, hi2, name):
        """every element of a[lo,hi) is one of b[lo2,hi2)"""
        f, i = self.skolem(name), z3.Int("i")
        self.e.assume(s, All([i], z3.Implies(z3.And(lo <= i, i < hi), z3.And(lo2 <= f(i), f(i) < hi2, sel(b, f(i)) == sel(a, i))), sel(a, i)))

    def std_merge(self, n, s, vs):
        e = self.e
        if len(vs) < 5 or not self.is_less(n, vs[5] if len(vs) > 5 else None, 5):
            raise Unsupported("merge")
        a, b, d, x = self.vrange(s, vs[0], vs[1], "merge")
        a2, b2, d2, y = self.vrange(s, vs[2], vs[3], "merge")
        o = e.rvp(s, vs[4])
        if not (isinstance(o, tuple) and o[0] == "backins"):
            raise Unsupported("merge output")
        e.oblige(s, "bounds", "merge needs a sorted first range", self.srt(x, a.idx, b.idx))
        e.oblige(s, "bounds", "merge needs a sorted second range", self.srt(y, a2.idx, b2.idx))
        out = o[1]
        if out.root == a.lv.root and out.steps == a.lv.steps:
            raise Unsupported("merge into its own range")
        cur = e.read(s, out)
        L = d.get(cur, "len")
        e.oblige(s, "bounds", "merge output starts empty", L == 0)
        r = self.S.fresh(out.t, "mrg")
        ra, n1, n2 = d.get(r, "arr"), b.idx - a.idx, b2.idx - a2.idx
        m = d.get(r, "len")
        e.assume(s, m == n1 + n2)
        e.assume(s, self.srt(ra, 0, m))
        self.onto(s, x, a.idx, b.idx, ra, z3.IntVal(0), m, "mrg1")
        self.onto(s, y, a2.idx, b2.idx, ra, z3.IntVal(0), m, "mrg2")
        f, g, i = self.skolem("org1"), self.skolem("org2"), z3.Int("i")
        e.assume(s, All([i], z3.Implies(z3.And(0 <= i, i < m), z3.Or(z3.And(a.idx <= f(i), f(i) < b.idx, sel(x, f(i)) == sel(ra, i)),
                                                                 z3.And(a2.idx <= g(i), g(i) < b2.idx, sel(y, g(i)) == sel(ra, i)))), sel(ra, i)))
        e.write(s, out, r)
        self.use("std::merge of two sorted ranges: sorted, holds exactly the elements of both")
        return [(s, o)]

    def comparator(self, n, s, v, k, et):
        """the comparison used as a function of two terms; evaluated from the code of the functor or lambda"""
        e = self.e
        if v is None or self.is_less(n, v, k):
            if et.k != "int":
                raise Unsupported("default order of non-integers")
            return lambda a, b: a < b
        x, y = self.S.fresh(et, "cmpa"), self.S.fresh(et, "cmpb")
        st = s.copy()
        n0 = len(st.pc)
        vs = [e.tmp(st, et, x), e.tmp(st, et, y)]
        pv = e.peek(st, v) if isinstance(v, LV) else v
        if isinstance(pv, Lambda):
            r = e.lambda_apply(n, st, pv, vs)
        else:
            t = v.t if isinstance(v, LV) else e.ty(inner(n)[k + 1]).deref()
            f = None
            for tu in e.tus:
                for q, fs in tu.funcs.items():
                    for g in fs:
                        if g.get("name") == "operator()" and t.k == "rec" and g["_class"].split("::")[-1].replace(" ", "") == t.name.split("::")[-1].replace(" ", ""):
                            f = g
            if f is None:
                for tu in e.tus:
                    for q, fs in tu.funcs.items():
                        for g in fs:
                            if g.get("name") == "operator()" and t.k == "rec" and re.sub(r"<.*", "", g["_class"]).split("::")[-1] == re.sub(r"<.*", "", t.name).split("::")[-1]:
                                f = g
            if f is None:
                raise Unsupported("comparator %r" % t)
            r = e.inline(n, st, f, e.tmp(st, t, z3.IntVal(0)) if not isinstance(v, LV) else v, vs)
        # r: list of paths; result = the disjunction of (path condition and value)
        terms = []
        for s2, b in r:
            pcs = s2.pc[n0:]
            terms.append(z3.And(*(pcs + [e.tobool(s2, b)])) if pcs else e.tobool(s2, b))
        body = z3.Or(*terms) if len(terms) > 1 else terms[0]
        return lambda a, b: z3.substitute(body, (x, a), (y, b))

    def std_sort(self, n, s, vs, stable=False):
        e = self.e
        a, b = e.rvp(s, vs[0]), e.rvp(s, vs[1])
        if not (isinstance(a, Iter) and isinstance(b, Iter) and a.kind == b.kind == "vec"):
            raise Unsupported("sort")
        et = a.lv.t.args[0]
        cmp = self.comparator(n, s, vs[2] if len(vs) > 2 else None, 2, et)
        cur = e.read(s, a.lv)
        d = self.S.dt(a.lv.t)
        x = d.get(cur, "arr")
        e.oblige(s, "bounds", "sort on a valid range", z3.And(0 <= a.idx, a.idx <= b.idx, b.idx <= d.get(cur, "len")))
        r = self.S.fresh(a.lv.t, "srt")
        ra, i, j = d.get(r, "arr"), z3.Int("i"), z3.Int("j")
        f, g = self.skolem("perm"), self.skolem("pinv")
        lo, hi = a.idx, b.idx
        e.assume(s, d.get(r, "len") == d.get(cur, "len"))
        # sorted: no later element compares less than an earlier one
        e.assume(s, All([i, j], z3.Implies(z3.And(lo <= i, i < j, j < hi), z3.Not(cmp(sel(ra, j), sel(ra, i)))), (sel(ra, i), sel(ra, j))))
        e.assume(s, All([i], z3.Implies(z3.Or(i < lo, i >= hi), sel(ra, i) == sel(x, i)), sel(ra, i)))
        # a permutation of the range
        e.assume(s, All([i], z3.Implies(z3.And(lo <= i, i < hi), z3.And(lo <= f(i), f(i) < hi, sel(ra, i) == sel(x, f(i)), g(f(i)) == i)), sel(ra, i)))
        e.assume(s, All([i], z3.Implies(z3.And(lo <= i, i < hi), z3.And(lo <= g(i), g(i) < hi, sel(ra, g(i)) == sel(x, i), f(g(i)) == i)), sel(x, i)))
        if stable:
            e.assume(s, All([i, j], z3.Implies(z3.And(lo <= i, i < j, j < hi, z3.Not(cmp(sel(ra, i), sel(ra, j)))), f(i) < f(j)), (sel(ra, i), sel(ra, j))))
        e.write(s, a.lv, r)
        e.sorts.append((f, g, ra, x, lo, hi))
        self.use("std::%ssort: a permutation of the range, ordered by the comparator (whose code is evaluated; it must be a strict weak order)" % ("stable_" if stable else ""))
        return [(s, None)]

    def std_unique(self, n, s, vs):
        e = self.e
        if len(vs) != 2:
            raise Unsupported("unique with a predicate")
        a, b, d, x = self.vrange(s, vs[0], vs[1], "unique")
        e.oblige(s, "bounds", "unique is used on a sorted range", self.srt(x, a.idx, b.idx))
        cur = e.read(s, a.lv)
        r = self.S.fresh(a.lv.t, "unq")
        ra, i = d.get(r, "arr"), z3.Int("i")
        u = self.S.fresh_sort(z3.IntSort(), "uend")
        e.assume(s, z3.And(d.get(r, "len") == d.get(cur, "len"), a.idx <= u, u <= b.idx, z3.Implies(a.idx < b.idx, a.idx < u)))
        e.assume(s, self.srt(ra, a.idx, u, lambda p, q: p < q))
        e.assume(s, All([i], z3.Implies(z3.Or(i < a.idx, i >= b.idx), sel(ra, i) == sel(x, i)), sel(ra, i)))
        self.onto(s, x, a.idx, b.idx, ra, a.idx, u, "unq1")
        self.onto(s, ra, a.idx, u, x, a.idx, b.idx, "unq2")
        e.write(s, a.lv, r)
        self.use("std::unique on a sorted range: each element once, in order")
        return [(s, Iter("vec", a.lv, idx=u))]

    def bound(self, n, s, nm, vs):
        e = self.e
        its = [e.rvp(s, v) for v in vs[:2]]
        a, b = its
        if not (isinstance(a, Iter) and a.kind == "vec"):
            raise Unsupported(nm)
        self.use("std::%s on a sorted range (sortedness is an obligation)" % nm)
        v = e.read(s, a.lv)
        d = self.S.dt(a.lv.t)
        if a.lv.t.args[0].k != "int":
            raise Unsupported(nm + " on non-integers")
        if len(vs) > 3 and not (isinstance(vs[3], LV) and vs[3].t.k == "less") and e.ty(inner(n)[4]).deref().k != "less":
            raise Unsupported(nm + " with a comparator")
        k = e.rv(s, vs[2])
        arr = d.get(v, "arr")
        i, j = z3.Ints("i j")
        e.oblige(s, "bounds", nm + " needs a sorted range",
                 z3.ForAll([i, j], z3.Implies(z3.And(a.idx <= i, i < j, j < b.idx), sel(arr, i) <= sel(arr, j))))
        r = self.S.fresh_sort(z3.IntSort(), "bnd")
        strict = nm == "lower_bound"
        e.assume(s, z3.And(r >= a.idx, r <= b.idx))
        e.assume(s, All(i, z3.Implies(z3.And(a.idx <= i, i < r), sel(arr, i) < k if strict else sel(arr, i) <= k)))
        e.assume(s, All(i, z3.Implies(z3.And(r <= i, i < b.idx), sel(arr, i) >= k if strict else sel(arr, i) > k)))
        return [(s, Iter("vec", a.lv, idx=r))]

    # ------------------------------------------------------------ construction
    def construct(self, n, st, t, args):
        e, S = self.e, self.S
        out = []
        for s, vs in e.evs(args, st):
            ty = [e.ty(a).deref() for a in args]
            out.append((s, self.ctor(s, t, vs, ty)))
        return out

    def ctor(self, s, t, vs, ty):
        e, S = self.e, self.S
        if len(vs) == 1:
            v = vs[0]
            pv = e.peek(s, v) if isinstance(v, LV) else v
            if isinstance(pv, (Iter, PyPair, Addr, Lambda)):
                return pv
            if isinstance(v, tuple) and v[0] == "elemref":
                return self.elem_value(s, v[1])
        if t.k == "less":
            return z3.IntVal(0)
        if t.k == "iter":
            if vs:
                raise Unsupported("iterator construction")
            return Iter("none", None)      # singular: only assignment is within reach
        if not vs:
            return S.default(t)
        if t.k == "pair":
            if len(vs) == 2:
                v = [e.rvp(s, x) for x in vs]
                if any(isinstance(x, (Iter, Addr)) for x in v):
                    return PyPair(*v)
                v = [self.strlit(x[1], tt) if isinstance(x, tuple) else x for x, tt in zip(v, t.args)]
                v = [e.cast(s, x, xt, tt) if xt.k == "int" and tt.k == "int" and xt != tt else x for x, xt, tt in zip(v, ty, t.args)]
                return S.dt(t).mk(*v)
            if len(vs) == 1:
                v = e.rv(s, vs[0])
                d = S.dt(t)
                if v.sort() == d.sort:
                    return v
                # converting pair constructor
                t2 = ty[0]
                d2 = S.dt(t2)
                f = [d2.get(v, x) for x in ("first", "second")]
                return d.mk(*f)
        if t.k in ("vec", "map", "set", "mmap"):
            if len(vs) == 1:
                v = e.rv(s, vs[0])
                if isinstance(v, tuple) and v[0] == "strlit":
                    return self.strlit(v[1], t)
                if isinstance(v, z3.ExprRef) and v.sort() == S.sort(t):
                    if t.k == "set" and ty[0].k == "vec":
                        return self.set_of_list(s, t, v, ty[0])
                    return v
                if t.k == "set" and ty[0].k == "vec":
                    return self.set_of_list(s, t, v, ty[0])
                if t.k == "vec" and ty[0].k == "int":
                    d = S.dt(t)
                    return d.mk(z3.K(z3.IntSort(), S.default(t.args[0])), v)
            if len(vs) == 2 and t.k == "vec" and ty[0].k == "int" and ty[1].k == "int":
                d = S.dt(t)
                return d.mk(z3.K(z3.IntSort(), e.rv(s, vs[1])), e.rv(s, vs[0]))
            if len(vs) == 2 and t.k == "set":
                x, y = [e.rvp(s, v) for v in vs]
                lv = e.tmp(s, t, S.default(t))
                self.set_range(s, lv, t, x, y)
                return e.read(s, lv)
        raise Unsupported("construction of %r from %r" % (t, ty))

    def set_of_list(self, s, t, v, vt):
        d = self.S.dt(vt)
        ln = z3.simplify(d.get(v, "len"))
        if not z3.is_int_value(ln):
            raise Unsupported("initialiser list")
        lv = self.e.tmp(s, t, self.S.default(t))
        for i in range(ln.as_long()):
            self.m_set_insert(s, lv, t, [sel(d.get(v, "arr"), z3.IntVal(i))], None, None)
        return self.e.read(s, lv)

    def user_range(self, s, lv):
        # user container wrapping a single vector field (sorted_vector): iterate that field
        if lv.t.k == "rec":
            d = self.S.dt(lv.t)
            if len(d.fields) >= 1 and d.ftypes[0].k == "vec" and lv.t.name.startswith("sorted_vector"):
                return LV(lv.root, lv.steps + (("f", d.fields[0]),), d.ftypes[0])
        return None

    def user_extern(self, n, st, f, this, vals):
        return None

    def ptr_array(self, st, lv):
        """content of the array owned by a pointer field"""
        e = self.e
        key = ("parr", lv.root, tuple(x[1] for x in lv.steps))
        if any(x[0] != "f" for x in lv.steps):
            raise Unsupported("pointer array inside a container")
        et = lv.t.args[0]
        vt = T("vec", "", (et,))
        if key not in st.store:
            c = z3.Const("owned_" + "_".join(str(x) for x in key[2]), self.S.dt(vt).sort)
            st.store[key] = c
            self.e.rt[key] = vt
        def at(i):
            v = st.store[key]
            e.oblige(st, "bounds", "owned array index in range", z3.And(i >= 0, i < self.S.dt(vt).get(v, "len")))
            return LV(key, (("i", i),), et)
        return at

    def new_expr(self, n, st):
        """new T[n]: n elements of arbitrary content (class types: default-constructed)"""
        e = self.e
        if not n.get("isArray"):
            t = e.ty(n).args[0]
            al = ("alive", repr(t))
            if al not in st.store or t.k != "vec" or any(inner(x) for x in inner(n)):
                raise Unsupported("new")
            self.use("new T yields a fresh object; allocation succeeds")
            p = self.S.fresh_sort(z3.IntSort(), "new")
            d = self.S.dt(e.rt[al])
            e.assume(st, z3.And(p != 0, z3.Not(sel(d.get(st.store[al], "arr"), p))))
            e.write(st, LV(al, (("i", p),), T("bool")), z3.BoolVal(True))
            e.write(st, LV(("heap", repr(t)), (("i", p),), t), self.S.default(t))
            return [(st, p)]
        pt = e.ty(n)
        et = pt.args[0]
        vt = T("vec", "own", (et,))
        ch = [x for x in inner(n) if x["kind"] not in ("CXXConstructExpr", "InitListExpr", "ImplicitValueInitExpr")]
        if len(ch) != 1 or len(inner(n)) > 1 and et.k != "rec":
            raise Unsupported("new[] with initialiser")
        out = []
        for s, v in e.ev(ch[0], st):
            ln = e.idx(e.rv(s, v))
            self.use("new T[n] yields n fresh elements; allocation succeeds")
            if et.k in ("int", "bool", "double", "ptr"):
                arr = self.S.fresh_sort(z3.ArraySort(z3.IntSort(), self.S.sort(et)), "new")
            else:
                arr = z3.K(z3.IntSort(), e.default_init(s, et) if et.k == "rec" else self.S.default(et))
            out.append((s, self.S.dt(vt).mk(arr, ln)))
        return out

    def delete_expr(self, n, st):
        """delete[] p: the elements are gone (any later access fails its bounds obligation)"""
        e = self.e
        if not n.get("isArray"):
            out = []
            for s, v in e.ev(inner(n)[0], st):
                v = e.rv(s, v)
                t = e.ty(inner(n)[0]).args[0]
                al = ("alive", repr(t))
                if al not in s.store or not isinstance(v, z3.ExprRef):
                    raise Unsupported("delete")
                a = self.S.dt(e.rt[al]).get(s.store[al], "arr")
                e.oblige(s, "bounds", "deleted object is alive, or null", z3.Or(v == 0, sel(a, v)))
                e.write(s, LV(al, (("i", v),), T("bool")), z3.BoolVal(False))
                out.append((s, None))
            return out
        lv = e.own_lv(inner(n)[0], st)
        if lv is None:
            raise Unsupported("delete[] of something that is not an owned array")
        d = self.S.dt(lv.t)
        e.write(st, lv, d.mk(d.get(e.read(st, lv), "arr"), z3.IntVal(0)))
        return [(st, None)]
