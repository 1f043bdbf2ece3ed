"""sorted_vector<T> behaves as a set; SortedVector::search finds what is there"""
import os
import z3
from engine import Contract, Loop, Lemma, Iter
from values import And, sel, raw, Unsupported
from speclib import *

TU = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "ltv", "inst", "templates.cc")
PROPS = ("S12",)


def inc(v):
    """strictly increasing: a set, each element once"""
    return all_([I_, I_], lambda i, j: imp(z3.And(0 <= i, i < j, j < v.len), v[i] < v[j]), lambda i, j: [(sel(v.arr, i), sel(v.arr, j))])


def ok(c):
    return [("the elements are in increasing order", inc(c.this.elements))]


def absent(v, t):
    return all_(I_, lambda i: imp(z3.And(0 <= i, i < v.len), v[i] != t), lambda i: sel(v.arr, i))


def present(v, t):
    return some(I_, lambda i: z3.And(0 <= i, i < v.len, v[i] == t))


def eqv(a, b):
    return z3.And(a.len == b.len, all_(I_, lambda i: imp(z3.And(0 <= i, i < a.len), a[i] == b[i]), lambda i: sel(b.arr, i)))


def idx_of(r):
    if not isinstance(r, Iter) or r.idx is None:
        raise Unsupported("not a position in the elements")
    return r.idx


def ins_ens(c):
    o, n, t = c.this0.elements, c.this.elements, c.arg0(0)
    r = c.ret
    p, new = idx_of(r.first), r.second
    return [("the elements stay in increasing order", inc(n)),
            ("the position returned holds the element", z3.And(p >= 0, p < n.len, n[p] == t)),
            ("newly inserted: it was not there", imp(new, n.len == o.len + 1, absent(o, t))),
            ("not inserted: nothing changes", imp(z3.Not(new), eqv(n, o))),
            ("nothing is lost", all_(I_, lambda i: imp(z3.And(0 <= i, i < o.len), z3.Or(z3.And(i < n.len, n[i] == o[i]), z3.And(i + 1 < n.len, n[i + 1] == o[i]))), lambda i: sel(o.arr, i))),
            ("nothing else is added", all_(I_, lambda j: imp(z3.And(0 <= j, j < n.len), z3.Or(n[j] == t, z3.And(j < o.len, n[j] == o[j]), z3.And(j >= 1, n[j] == o[j - 1]))), lambda j: sel(n.arr, j)))]


def ers_ens(c):
    o, n, t = c.this0.elements, c.this.elements, c.arg0(0)
    return [("the elements stay in increasing order", inc(n)),
            ("it is gone", absent(n, t)),
            ("reported: it was there", imp(c.ret, n.len == o.len - 1, present(o, t))),
            ("not reported: nothing changes", imp(z3.Not(c.ret), eqv(n, o))),
            ("nothing else is lost", all_(I_, lambda i: imp(z3.And(0 <= i, i < o.len), z3.Or(o[i] == t, z3.And(i < n.len, n[i] == o[i]), z3.And(i >= 1, i - 1 < n.len, n[i - 1] == o[i]))), lambda i: sel(o.arr, i))),
            ("nothing is added", all_(I_, lambda j: imp(z3.And(0 <= j, j < n.len), z3.Or(z3.And(j < o.len, n[j] == o[j]), z3.And(j + 1 < o.len, n[j] == o[j + 1]))), lambda j: sel(n.arr, j)))]


def find_ens(c):
    v, t, p = c.this.elements, c.arg0(0), idx_of(c.ret)
    return [("a position or the end", z3.And(p >= 0, p <= v.len)), ("found: holds the element", imp(p < v.len, v[p] == t)),
            ("not found: the element is nowhere", imp(p == v.len, absent(v, t)))]


def bound_ens(strict):
    def f(c):
        v, t, p = c.this.elements, c.arg0(0), idx_of(c.ret)
        lt = (lambda a: a < t) if strict else (lambda a: a <= t)
        return [("a position or the end", z3.And(p >= 0, p <= v.len)),
                ("everything before is smaller", all_(I_, lambda i: imp(z3.And(0 <= i, i < p), lt(v[i])), lambda i: sel(v.arr, i))),
                ("nothing after is", all_(I_, lambda i: imp(z3.And(p <= i, i < v.len), z3.Not(lt(v[i]))), lambda i: sel(v.arr, i)))]
    return f


def disj(a, b, na, nb):
    """none of the first na elements of a is among the first nb elements of b"""
    return all_([I_, I_], lambda i, j: imp(z3.And(0 <= i, i < na, 0 <= j, j < nb), a[i] != b[j]), lambda i, j: [(sel(a.arr, i), sel(b.arr, j))])


def its_ens(c):
    a, b = c.this.elements, c.arg0(0).elements
    return [("true: they share an element", imp(c.ret, some([I_, I_], lambda i, j: z3.And(0 <= i, i < a.len, 0 <= j, j < b.len, a[i] == b[j])))),
            ("false: they share none", imp(z3.Not(c.ret), disj(a, b, a.len, b.len)))]


def its_inv(c):
    a, b = c.this.elements, c.arg(0).elements
    ti, oi = idx_of(c.v("ti")), idx_of(c.v("oi"))
    return [("positions", z3.And(0 <= ti, ti <= a.len, 0 <= oi, oi <= b.len)),
            ("ends", z3.And(idx_of(c.v("te")) == a.len, idx_of(c.v("oe")) == b.len)),
            ("no element passed here is in the other", disj(a, b, ti, b.len)), ("no element passed there is in this", disj(a, b, a.len, oi))]


def rng(c):
    """the range given: (vector view, first, last)"""
    b, e = c.arg0(0), c.arg0(1)
    if not isinstance(b, Iter) or not isinstance(e, Iter):
        raise Unsupported("not a range")
    return c._read(c._old, b.lv), b.idx, e.idx


def rng_ok(c):
    v, b, e = rng(c)
    return ok(c) + [("a valid range", z3.And(0 <= b, b <= e, e <= v.len))]


def within(a, lo, hi, b, lo2, hi2):
    return all_(I_, lambda i: imp(z3.And(lo <= i, i < hi), z3.Or(z3.And(lo2 < hi2, b[lo2] == a[i]), some(I_, lambda j: z3.And(lo2 <= j, j < hi2, b[j] == a[i])))), lambda i: sel(a.arr, i))


def rins_ens(c):
    v, b, e = rng(c)
    o, n = c.this0.elements, c.this.elements
    return [("the elements are in increasing order, each once", inc(n)),
            ("nothing is lost", within(o, 0, o.len, n, 0, n.len)),
            ("everything given is there", within(v, b, e, n, 0, n.len)),
            ("nothing else is added", all_(I_, lambda i: imp(z3.And(0 <= i, i < n.len), z3.Or(some(I_, lambda j: z3.And(0 <= j, j < o.len, o[j] == n[i])), some(I_, lambda j: z3.And(b <= j, j < e, v[j] == n[i])))), lambda i: sel(n.arr, i)))]


def issorted_inv(c):
    v, b, e = rng(c)
    f, x, l = idx_of(c.v("first")), idx_of(c.v("next")), idx_of(c.v("last"))
    return [("positions", z3.And(b <= f, f < e, x == f, l == e)),
            ("in order so far", all_([I_, I_], lambda i, j: imp(z3.And(b <= i, i < j, j <= f), v[i] <= v[j]), lambda i, j: [(sel(v.arr, i), sel(v.arr, j))]))]


def rers(o, n, v, b, e):
    return [("the elements stay in increasing order", inc(n)),
            ("none of those given is left", disj2(v, b, e, n)),
            ("nothing is added", within(n, 0, n.len, o, 0, o.len)),
            ("nothing else is lost", all_(I_, lambda i: imp(z3.And(0 <= i, i < o.len), z3.Or(some(I_, lambda j: z3.And(0 <= j, j < n.len, n[j] == o[i])), some(I_, lambda j: z3.And(b <= j, j < e, v[j] == o[i])))), lambda i: sel(o.arr, i)))]


def disj2(v, b, e, n):
    return all_([I_, I_], lambda i, j: imp(z3.And(b <= i, i < e, 0 <= j, j < n.len), v[i] != n[j]), lambda i, j: [(sel(v.arr, i), sel(n.arr, j))])


def rers_ens(c):
    v, b, e = rng(c)
    return rers(c.this0.elements, c.this.elements, v, b, e)


def rers_inv(c):
    v, b, e = rng(c)
    k = idx_of(c.v("b"))
    return [("position", z3.And(b <= k, k <= e))] + rers(c.this0.elements, c.this.elements, v, b, k)


RNG = {0: ("range", "r", "std::vector<int>"), 1: ("range", "r", "std::vector<int>")}


def S(key, sig=None, **kw):
    kw.setdefault("requires", ok)
    return Contract("sorted_vector::" + key, TU, sig, svec=False, props=PROPS, inline=True, **kw)


SVA = ("SortedVector::sv",)


def tags_inc(o):
    return all_([I_, I_], lambda i, j: imp(z3.And(0 <= i, i < j, j < o.size), o.sv[i].tag < o.sv[j].tag), lambda i, j: [(sel(o.sv.arr, i), sel(o.sv.arr, j))])


def sv_wf(o):
    return [("the table has its size", z3.And(o.size >= 0, o.size <= 2**30, o.sv.len == o.size))]


def srch_ens(c):
    o, t = c.this, c.arg0(0)
    return [("found: the destination of that tag", all_(I_, lambda i: imp(z3.And(0 <= i, i < o.size, o.sv[i].tag == t), c.ret == o.sv[i].dest), lambda i: sel(o.sv.arr, i))),
            ("not found: nothing", imp(all_(I_, lambda i: imp(z3.And(0 <= i, i < o.size), o.sv[i].tag != t), lambda i: sel(o.sv.arr, i)), c.ret == 0))]


def srch_inv(c):
    o, t = c.this, c.arg(0)
    l, r = c.v("left"), c.v("right")
    return [("window", z3.And(l >= 0, r < o.size, l <= r + 1)),
            ("not left of it", all_(I_, lambda i: imp(z3.And(0 <= i, i < l), o.sv[i].tag < t), lambda i: sel(o.sv.arr, i))),
            ("not right of it", all_(I_, lambda i: imp(z3.And(r < i, i < o.size), o.sv[i].tag > t), lambda i: sel(o.sv.arr, i)))]


def rec_eq(a, b):
    return z3.And(a.tag == b.tag, a.dest == b.dest, a.weight == b.weight)


def svcopy(n, o):
    return [("same size", z3.And(n.size == o.size, n.sv.len == o.size)),
            ("same entries", all_(I_, lambda i: imp(z3.And(0 <= i, i < o.size), rec_eq(n.sv[i], o.sv[i])), lambda i: sel(n.sv.arr, i)))]


def svcopy_inv(c):
    o, n = c.arg(0), c.this
    i = c.v("i")
    return [("index", z3.And(0 <= i, i <= n.size)), ("own table", z3.And(n.sv.len == o.size, n.size == o.size)),
            ("copied so far", all_(I_, lambda k: imp(z3.And(0 <= k, k < i), rec_eq(n.sv[k], o.sv[k])), lambda k: sel(n.sv.arr, k)))]


def V(key, sig=None, **kw):
    return Contract("SortedVector::" + key, "sorted_vector.cc", sig, arrays=SVA, props=PROPS, inline=key != "search", **kw)


CONTRACTS = [
    S("insert", "(int)", ensures=ins_ens, modifies=("this.elements",)),
    S("insert", "__normal_iterator", requires=rng_ok, ensures=rins_ens, modifies=("this.elements",), alias=RNG, loops=[Loop(inv=issorted_inv)], timeout=30),
    S("push_back", "(int)", modifies=("this.elements",), ensures=lambda c: [("the elements stay in increasing order", inc(c.this.elements)), ("it is there", present(c.this.elements, c.arg0(0)))]),
    S("erase", "bool (int)", ensures=ers_ens, modifies=("this.elements",)),
    S("erase", "__normal_iterator", requires=rng_ok, ensures=rers_ens, modifies=("this.elements",), alias=RNG, loops=[Loop(inv=rers_inv)], timeout=30),
    S("find", ensures=find_ens),
    S("count", ensures=lambda c: [("1 if there, 0 if not", z3.Or(z3.And(c.ret == 0, absent(c.this.elements, c.arg0(0))), z3.And(c.ret == 1, present(c.this.elements, c.arg0(0)))))]),
    S("lower_bound", "const_iterator (int) const", ensures=bound_ens(True)),
    S("upper_bound", ensures=bound_ens(False)),
    S("intersects", requires=lambda c: ok(c) + [("the other too", inc(c.arg(0).elements))], ensures=its_ens, loops=[Loop(inv=its_inv)]),
    S("size", ensures=lambda c: [("number of elements", c.ret == c.this.elements.len)]),
    S("empty", ensures=lambda c: [("no element", c.ret == (c.this.elements.len == 0))]),
    S("front", requires=lambda c: ok(c) + [("not empty", c.this.elements.len > 0)], ensures=lambda c: [("the least element", z3.And(c.ret == c.this.elements[0], all_(I_, lambda i: imp(z3.And(0 <= i, i < c.this.elements.len), c.ret <= c.this.elements[i]))))]),
    S("back", requires=lambda c: ok(c) + [("not empty", c.this.elements.len > 0)], ensures=lambda c: [("the greatest element", all_(I_, lambda i: imp(z3.And(0 <= i, i < c.this.elements.len), c.ret >= c.this.elements[i])))]),
    S("swap", modifies=("this", "arg0"), ensures=lambda c: [("exchanged", z3.And(same(c.this.elements, c.arg0(0).elements), same(c.arg(0).elements, c.this0.elements)))]),
    S("clear", modifies=("this",), ensures=lambda c: [("empty", c.this.elements.len == 0)]),
    S("pop_back", requires=lambda c: ok(c) + [("not empty", c.this.elements.len > 0)], modifies=("this",),
      ensures=lambda c: [("the elements stay in increasing order", inc(c.this.elements)), ("only the greatest is gone", z3.And(c.this.elements.len == c.this0.elements.len - 1, all_(I_, lambda i: imp(z3.And(0 <= i, i < c.this.elements.len), c.this.elements[i] == c.this0.elements[i]))))]),
    V("SortedVector", "void (const int)", requires=lambda c: [("a size", c.arg(0) >= 0)], modifies=("this",), ensures=lambda c: [("room for that many entries", z3.And(c.this.size == c.arg0(0), c.this.sv.len == c.arg0(0)))]),
    V("SortedVector", "(const SortedVector &)", requires=lambda c: sv_wf(c.arg(0)), modifies=("this",), ensures=lambda c: svcopy(c.this, c.arg0(0)), loops=[Loop(inv=svcopy_inv)]),
    V("operator=", requires=lambda c: sv_wf(c.arg(0)), modifies=("this",), ensures=lambda c: svcopy(c.this, c.arg0(0)), loops=[Loop(inv=svcopy_inv)]),
    V("operator=", requires=lambda c: sv_wf(c.this), modifies=(), ensures=lambda c: [("nothing changes", same(c.this, c.this0))], alias={0: "this"}, note="self-assignment", loops=[Loop(inv=svcopy_inv)]),
    V("add", requires=lambda c: sv_wf(c.this) + [("a position of the table", z3.And(c.arg(3) >= 0, c.arg(3) < c.this.size))], modifies=("this.sv",),
      ensures=lambda c: [("stored there", z3.And(c.this.sv[c.arg0(3)].tag == c.arg0(0), c.this.sv[c.arg0(3)].dest == c.arg0(1), c.this.sv[c.arg0(3)].weight == c.arg0(2), c.this.sv.len == c.this0.sv.len)),
                         ("other entries stay", all_(I_, lambda i: imp(z3.And(0 <= i, i < c.this.size, i != c.arg0(3)), same(c.this.sv[i], c.this0.sv[i]))))]),
    V("search", requires=lambda c: sv_wf(c.this) + [("tags in increasing order", tags_inc(c.this))], ensures=srch_ens, loops=[Loop(inv=srch_inv)]),
]
