"""State: which analyses are kept"""
import z3
from engine import Contract, Loop, Lemma, Iter
from values import And, sel, raw, Unsupported
from speclib import *


def order(c):
    """weights (no NaN) are totally ordered"""
    D = c.S.Dbl
    lt = z3.Function("dbl_lt", D, D, z3.BoolSort())
    le = z3.Function("dbl_le", D, D, z3.BoolSort())
    return [("irreflexive", all_(D, lambda a: z3.Not(lt(a, a)), lambda a: lt(a, a))),
            ("transitive", all_([D, D, D], lambda a, b, d: imp(z3.And(lt(a, b), lt(b, d)), lt(a, d)), lambda a, b, d: [(lt(a, b), lt(b, d))])),
            ("total", all_([D, D], lambda a, b: z3.Or(lt(a, b), lt(b, a), a == b), lambda a, b: [lt(a, b)])),
            ("le", all_([D, D], lambda a, b: le(a, b) == z3.Not(lt(b, a)), lambda a, b: [le(a, b)]))]


def srt(c):
    if len(c.eng.sorts) != 1 and len(set(str(x[2]) for x in c.eng.sorts)) != 1:
        raise Unsupported("the list is not sorted with std::sort any more")
    return c.eng.sorts[-1]


PT = T("pair", "", [USTR, T("double")])


def wt(c, p):
    return c.S.dt(PT).get(p, "second")


def cls(c):
    return z3.Function("weight_classes", z3.ArraySort(I_, c.S.sort(PT)), I_, I_)


def cls_def(c):
    """number of weight classes among the first i elements"""
    k = cls(c)
    A = z3.ArraySort(I_, c.S.sort(PT))
    return [("no element: no class", all_(A, lambda a: k(a, z3.IntVal(0)) == 0, lambda a: k(a, z3.IntVal(0)))),
            ("one more class where the weight changes", all_([A, I_], lambda a, i: imp(i > 0, k(a, i) == k(a, i - 1) + z3.If(z3.Or(i == 1, wt(c, sel(a, i - 1)) != wt(c, sel(a, i - 2))), 1, 0)), lambda a, i: k(a, i)))]


def nf_inv(c):
    f, g, S, X, lo, hi = srt(c)
    it = c.it.idx if c.it is not None else None
    if it is None:
        raise Unsupported("no iterator")
    r = c.v("result")
    A, W = c.v("maxAnalyses"), c.v("maxWeightClasses")
    A0, W0 = c.arg0(1), c.arg0(2)
    k = cls(c)
    lf = c.v("lf")
    return [("the sorted list stays", z3.And(same(lf.arr, S), lf.len == hi, lo == 0)),
            ("kept so far", z3.And(r.len == it, 0 <= it, it <= hi, all_(I_, lambda i: imp(z3.And(0 <= i, i < it), same(r[i], sel(S, i))), lambda i: sel(r.arr, i)))),
            ("analyses left", z3.And(A == A0 - it, z3.Or(it == 0, A >= 0))),
            ("classes left", z3.And(W == W0 - k(S, it), z3.Or(it == 0, W >= 0), k(S, it) >= 0, k(S, it) <= it))]


def nf_ens(c):
    f, g, S, X, lo, hi = srt(c)
    r, lf, A, W = c.ret, c.arg0(0), c.arg0(1), c.arg0(2)
    lt = z3.Function("dbl_lt", c.S.Dbl, c.S.Dbl, z3.BoolSort())
    k = r.len
    K = cls(c)
    w = lambda i: wt(c, raw(r[i]))
    return [("each kept analysis is one of the given ones, in another place each", all_(I_, lambda i: imp(z3.And(0 <= i, i < k), same(r[i], lf[f(i)]), 0 <= f(i), f(i) < lf.len, g(f(i)) == i), lambda i: sel(r.arr, i))),
            ("in order of weight", all_([I_, I_], lambda i, j: imp(z3.And(0 <= i, i < j, j < k), z3.Not(lt(w(j), w(i)))))),
            ("every analysis left out is at least as heavy", all_([I_, I_], lambda i, m: imp(z3.And(0 <= i, i < k, 0 <= m, m < lf.len, g(m) >= k), z3.Not(lt(wt(c, sel(S, g(m))), w(i))), same(sel(S, g(m)), lf[m])), lambda i, m: [(sel(r.arr, i), sel(lf.arr, m))])),
            ("at most as many as allowed", z3.Or(k == 0, k <= A)),
            ("in at most as many classes as allowed", z3.Or(k == 0, K(S, k) <= W)),
            ("no fewer: all of them, or a limit is reached", z3.Or(k == lf.len, A <= 0, k == A, W <= 0, z3.And(K(S, k) == W, k < hi, wt(c, sel(S, k)) != wt(c, sel(S, k - 1)))))]


CONTRACTS = [
    Contract("State::NFinals", "state.cc", None, props=("R15",), ensures=nf_ens, loops=[Loop(inv=nf_inv)], axioms=lambda c: order(c) + cls_def(c),
             requires=lambda c: [("limits are ordinary", z3.And(c.arg(1) >= -2**30, c.arg(2) >= -2**30))],
             defines=None, note="weights are not NaN"),
]
