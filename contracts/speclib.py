"""shared specification vocabulary"""
import z3
from values import okpat, mkpat, And, sel, raw, View, wrap, Unsupported
from ctypes_ import T, I, USTR, parse

INT = "int"


def ex(sort, n="x"):
    ex.k += 1
    return z3.Const("%s?%d" % (n, ex.k), sort)


ex.k = 0


def all_(sorts, f, pat=None):
    vs = [ex(s) for s in (sorts if isinstance(sorts, (list, tuple)) else [sorts])]
    b = f(*vs)
    p = pat(*vs) if pat else None
    if p is not None:
        p = p if isinstance(p, list) else [p]
        if all(okpat(x, vs) for x in p):
            return z3.ForAll(vs, b, patterns=[mkpat(x) for x in p])
    return z3.ForAll(vs, b)


def some(sorts, f):
    vs = [ex(s) for s in (sorts if isinstance(sorts, (list, tuple)) else [sorts])]
    return z3.Exists(vs, f(*vs))


def same(a, b):
    return raw(a) == raw(b)


def imp(a, *b):
    return z3.Implies(a, And(list(b)))


I_ = z3.IntSort()
