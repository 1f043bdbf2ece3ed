"""SMT encoding of C++ values.  Every first-class value is an SMT term; iterators and
addresses of named objects are engine-level objects resolved during symbolic execution."""
import z3
from ctypes_ import T, I, USTR, parse, mangle


class Unsupported(Exception):
    """The function is out of the verifier's reach in its present form."""


BADPAT = {z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT,
          z3.Z3_OP_GT, z3.Z3_OP_IMPLIES}


def okpat(p, vs):
    """may the term (or multi-pattern) be used as a trigger for the variables vs"""
    found = set()
    todo = list(p) if isinstance(p, tuple) else [p]      # a tuple is a multi-pattern
    if not todo or any(not z3.is_app(x) or x.num_args() == 0 for x in todo):
        return False
    while todo:
        x = todo.pop()
        if not z3.is_app(x) or x.decl().kind() in BADPAT:
            return False
        if x.num_args() == 0:
            found.add(x.get_id())
        todo += x.children()
    return all(v.get_id() in found for v in vs)


_mp, _kept = z3.MultiPattern, []


def _multipattern(*args):
    # z3py does not keep the terms of a multi-pattern alive: without this they may be freed before the quantifier is built
    _kept.append(args)
    return _mp(*args)


z3.MultiPattern = _multipattern


def mkpat(p):
    return z3.MultiPattern(*p) if isinstance(p, tuple) else p


class DT:
    def __init__(self, sort, fields, ftypes):
        self.sort, self.fields, self.ftypes = sort, fields, ftypes
        self.idx = {f: i for i, f in enumerate(fields)}

    def mk(self, *a):
        return self.sort.constructor(0)(*a)

    def get(self, e, f):
        i = self.idx[f]
        return proj(self.sort, e, i)

    def set(self, e, f, v):
        args = [v if g == f else self.get(e, g) for g in self.fields]
        return self.mk(*args)


def proj(sort, e, i):
    if z3.is_app(e):
        k = e.decl().kind()
        if k == z3.Z3_OP_DT_CONSTRUCTOR:
            return e.arg(i)
        if k == z3.Z3_OP_ITE:
            return z3.If(e.arg(0), proj(sort, e.arg(1), i), proj(sort, e.arg(2), i))
        if k == z3.Z3_OP_SELECT and z3.is_app(e.arg(0)) and e.arg(0).decl().kind() == z3.Z3_OP_STORE:
            a = e.arg(0)
            if a.num_args() == 3 and a.arg(1).eq(e.arg(1)):
                return proj(sort, a.arg(2), i)
    return sort.accessor(0, i)(e)


def sel(a, i):
    """select with read-over-write on syntactically equal / distinct-literal indices"""
    while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
        if a.arg(1).eq(i):
            return a.arg(2)
        x, y = a.arg(1), i
        if z3.is_int_value(x) and z3.is_int_value(y) and x.as_long() != y.as_long():
            a = a.arg(0)
            continue
        break
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_CONST_ARRAY:
        return a.arg(0)
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
        x, y = sel(a.arg(1), i), sel(a.arg(2), i)
        return z3.If(a.arg(0), x, y)
    return z3.Select(a, i)


def And(*a):
    l = []
    for x in a:
        if isinstance(x, (list, tuple)):
            l.extend(x)
        else:
            l.append(x)
    l = [z3.BoolVal(x) if isinstance(x, bool) else x for x in l]
    return z3.And(*l) if len(l) != 1 else l[0]


class Sorts:
    def __init__(self, mode="int", strings="vec", records=None, tokens=False):
        self.mode, self.strings, self.tokens = mode, strings, tokens
        self.cache = {}
        self.records = records or (lambda name: None)
        self.Str = z3.DeclareSort("Str")
        self.Dbl = z3.DeclareSort("Dbl") if mode == "int" else z3.Float64()
        self.nfresh = 0

    def dt(self, t):
        key = repr(t)
        if key in self.cache:
            return self.cache[key]
        m = mangle(t)
        if t.k == "vec":
            f = [("arr", z3.ArraySort(z3.IntSort(), self.sort(t.args[0]))), ("len", z3.IntSort())]
            ft = [None, None]
        elif t.k == "map":
            K, V = self.sort(t.args[0]), self.sort(t.args[1])
            f = [("dom", z3.ArraySort(K, z3.BoolSort())), ("val", z3.ArraySort(K, V)), ("sz", z3.IntSort())]
            ft = [None] * 3
        elif t.k == "mmap":
            p = T("pair", "", t.args)
            f = [("cnt", z3.ArraySort(self.sort(p), z3.IntSort())), ("sz", z3.IntSort())]
            ft = [None] * 2
        elif t.k == "set":
            f = [("mem", z3.ArraySort(self.sort(t.args[0]), z3.BoolSort())), ("sz", z3.IntSort())]
            ft = [None] * 2
        elif t.k == "pair":
            f = [("first", self.sort(t.args[0])), ("second", self.sort(t.args[1]))]
            ft = list(t.args)
        elif t.k == "tuple":
            f = [("e%d" % i, self.sort(x)) for i, x in enumerate(t.args)]
            ft = list(t.args)
        elif t.k == "stream":
            f = [("data", z3.ArraySort(z3.IntSort(), self.Tok())), ("pos", z3.IntSort()), ("len", z3.IntSort()), ("bad", z3.BoolSort())]
            ft = [None] * 4
        elif t.k == "rec":
            flds = self.records(t.name)
            if flds is None:
                raise Unsupported("no record definition for " + t.name)
            f = [(n, self.sort(ty)) for n, ty in flds]
            ft = [ty for n, ty in flds]
            if not f:
                f, ft = [("_unit", z3.IntSort())], [I(32, True)]
        else:
            raise Unsupported("no datatype for " + repr(t))
        d = z3.Datatype("D_" + m)
        d.declare("mk_" + m, *[(n + "_" + m, s) for n, s in f])
        s = d.create()
        r = DT(s, [n for n, _ in f], ft)
        self.cache[key] = r
        return r

    def Tok(self):
        if not self.tokens:
            return z3.BitVecSort(8) if self.mode == "bv" else z3.IntSort()
        if self.mode == "bv":
            return z3.BitVecSort(32)
        if "Tok" not in self.cache:
            d = z3.Datatype("Tok")
            d.declare("TInt", ("tint", z3.IntSort()))
            d.declare("TStr", ("tstr", self.sort(USTR)))
            d.declare("TDbl", ("tdbl", self.Dbl))
            d.declare("TMagic", ("tmagic", z3.IntSort()))      # constant bytes, by their value
            d.declare("TWord", ("tword", z3.IntSort()))        # 64 bit, fixed width
            self.cache["Tok"] = d.create()
        return self.cache["Tok"]

    def sort(self, t):
        if t.k == "int":
            return z3.IntSort() if self.mode == "int" else z3.BitVecSort(t.bits)
        if t.k == "bool":
            return z3.BoolSort()
        if t.k == "double":
            return self.Dbl
        if t.k in ("ptr", "fun", "iter", "less"):
            return z3.IntSort()
        if t.k == "ref":
            return self.sort(t.args[0])
        if t == USTR and self.strings == "opaque":
            return self.Str
        if t.k == "void":
            return z3.IntSort()
        return self.dt(t).sort

    def fresh(self, t, hint="v"):
        self.nfresh += 1
        return z3.Const("%s!%d" % (hint, self.nfresh), self.sort(t))

    def fresh_sort(self, s, hint="v"):
        self.nfresh += 1
        return z3.Const("%s!%d" % (hint, self.nfresh), s)

    def wf(self, t, e, depth=0):
        """type facts that hold of any value of this C++ type"""
        r = []
        if t.k == "int":
            if self.mode == "int":
                lo, hi = t.rng
                if not z3.is_int_value(e):
                    r += [e >= lo, e <= hi]
        elif t.k in ("vec", "map", "mmap", "set", "stream"):
            if t == USTR and self.strings == "opaque":
                return r
            d = self.dt(t)
            if t.k == "vec":
                r += [d.get(e, "len") >= 0, d.get(e, "len") < (1 << 62)]
                if t.name == "heap" and t.args[0].k == "vec":
                    de, x = self.dt(t.args[0]), z3.Const("hp!", z3.IntSort())
                    v = sel(d.get(e, "arr"), x)
                    r += [z3.ForAll([x], z3.And(de.get(v, "len") >= 0, de.get(v, "len") < (1 << 62)), patterns=[v])]
            elif t.k == "stream":
                r += [d.get(e, "pos") >= 0, d.get(e, "len") >= 0, d.get(e, "pos") <= d.get(e, "len")]
            else:
                r += [d.get(e, "sz") >= 0, d.get(e, "sz") < (1 << 62)]
        elif t.k in ("pair", "rec", "tuple") and depth < 3:
            d = self.dt(t)
            for f, ft in zip(d.fields, d.ftypes):
                r += self.wf(ft, d.get(e, f), depth + 1)
        return r

    def intval(self, v, t):
        if self.mode == "int":
            lo, hi = t.rng
            v = int(v)
            v &= (1 << t.bits) - 1
            if t.signed and v > hi:
                v -= 1 << t.bits
            return z3.IntVal(v)
        return z3.BitVecVal(int(v), t.bits)

    def dblval(self, s):
        if self.mode == "bv":
            return z3.FPVal(float(s), z3.Float64())
        f = float(s)
        return z3.Const("dbl_" + repr(f).replace("-", "m").replace(".", "_").replace("+", "p"), self.Dbl)

    def default(self, t):
        if t.k == "int":
            return self.intval(0, t)
        if t.k == "bool":
            return z3.BoolVal(False)
        if t.k == "double":
            return self.dblval("0")
        if t.k in ("ptr", "less"):
            return z3.IntVal(0)
        if t == USTR and self.strings == "opaque":
            return z3.Const("str_empty", self.Str)
        d = self.dt(t)
        if t.k == "vec":
            return d.mk(z3.K(z3.IntSort(), self.dflt_elem(t.args[0])), z3.IntVal(0))
        if t.k == "map":
            K = self.sort(t.args[0])
            return d.mk(z3.K(K, z3.BoolVal(False)), z3.K(K, self.dflt_elem(t.args[1])), z3.IntVal(0))
        if t.k == "mmap":
            return d.mk(z3.K(self.sort(T("pair", "", t.args)), z3.IntVal(0)), z3.IntVal(0))
        if t.k == "set":
            return d.mk(z3.K(self.sort(t.args[0]), z3.BoolVal(False)), z3.IntVal(0))
        if t.k in ("pair", "tuple", "rec"):
            return d.mk(*[self.default(x) for x in d.ftypes])
        raise Unsupported("default value of " + repr(t))

    def dflt_elem(self, t):
        return self.default(t)


class View:
    """contract-side view of a C++ value"""

    def __init__(self, S, t, e):
        self.__dict__["S"], self.__dict__["t"], self.__dict__["e"] = S, t, e

    def _w(self, t, e):
        return wrap(self.S, t, e)

    def __getattr__(self, n):
        S, t, e = self.S, self.t, self.e
        if t.k in ("rec", "pair", "tuple"):
            d = S.dt(t)
            if n in d.idx:
                return wrap(S, d.ftypes[d.idx[n]], d.get(e, n))
            raise Unsupported("contract names field %s of %s, which the code no longer has" % (n, t))
        if n in ("len", "arr", "dom", "val", "mem", "cnt", "sz", "data", "pos", "bad"):
            return S.dt(t).get(e, n)
        raise AttributeError(n)

    def has(self, k):
        if self.t.k == "map":
            return sel(self.dom, raw(k))
        if self.t.k == "set":
            return sel(self.mem, raw(k))
        raise AttributeError("has")

    def __getitem__(self, k):
        if self.t.k == "map":
            return wrap(self.S, self.t.args[1], sel(self.val, raw(k)))
        if self.t.k == "vec":
            return wrap(self.S, self.t.args[0], sel(self.arr, raw(k)))
        if self.t.k == "stream":
            return sel(self.data, raw(k))
        if self.t.k == "mmap":
            return sel(self.cnt, raw(k))
        raise AttributeError("item")


def wrap(S, t, e):
    t = t.deref()
    if t.k in ("int", "bool", "double", "ptr", "void", "iter", "fun", "less") or (t == USTR and S.strings == "opaque"):
        return e
    return View(S, t, e)


def raw(v):
    if isinstance(v, View):
        return v.e
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    return v
