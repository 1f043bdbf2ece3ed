"""specification vocabulary for Transducer values"""
import z3
from speclib import *
from values import And, sel, raw, View, wrap

PD = T("pair", "", [I(32, True), T("double")])
ARC = T("pair", "", [I(32, True), PD])
CONTRACTS = []
IMAX = 2**31 - 2


def arc(S, tag, tgt, w):
    return S.dt(ARC).mk(raw(tag), S.dt(PD).mk(raw(tgt), raw(w)))


def atag(S, a):
    return S.dt(ARC).get(a, "first")


def atgt(S, a):
    return S.dt(PD).get(S.dt(ARC).get(a, "second"), "first")


def awt(S, a):
    return S.dt(PD).get(S.dt(ARC).get(a, "second"), "second")


def asort(S):
    return S.sort(ARC)


def cnt(t, q, a):
    """how many copies of arc a leave state q of transducer t"""
    return sel(t.transitions[q].cnt, a)


def bag_ok(t, q):
    """a multimap never holds a negative number of copies"""
    return all_(asort(t.S), lambda a: cnt(t, q, a) >= 0, lambda a: cnt(t, q, a))


def bags_ok(t):
    return all_([I_, asort(t.S)], lambda q, a: imp(is_state(t, q), cnt(t, q, a) >= 0), lambda q, a: cnt(t, q, a))


def is_state(t, q):
    return t.transitions.has(q)


def below(t, b):
    return all_(I_, lambda q: imp(is_state(t, q), q < b), lambda q: is_state(t, q))


def nonneg(t):
    return all_(I_, lambda q: imp(is_state(t, q), q >= 0), lambda q: is_state(t, q))


def dense(t):
    """states are numbered 0..n-1"""
    n = t.transitions.sz
    return z3.And(n >= 0, all_(I_, lambda q: is_state(t, q) == z3.And(0 <= q, q < n), lambda q: is_state(t, q)))


def closed(t):
    """arcs lead to states"""
    S = t.S
    return all_([I_, asort(S)], lambda q, a: imp(z3.And(is_state(t, q), cnt(t, q, a) > 0), is_state(t, atgt(S, a))), lambda q, a: cnt(t, q, a))


def no_tag(t, q, tag):
    S = t.S
    return all_(asort(S), lambda a: imp(atag(S, a) == tag, cnt(t, q, a) == 0), lambda a: cnt(t, q, a))


def no_link(t, q, tag, tgt):
    S = t.S
    return all_(asort(S), lambda a: imp(z3.And(atag(S, a) == tag, atgt(S, a) == tgt), cnt(t, q, a) == 0), lambda a: cnt(t, q, a))


def same_states(o, n):
    return all_(I_, lambda q: is_state(n, q) == is_state(o, q), lambda q: is_state(n, q))


def same_arcs_at(o, n, q):
    return raw(o.transitions[q]) == raw(n.transitions[q])


def same_arcs_but(o, n, *qs):
    return all_(I_, lambda q: imp(z3.And(is_state(o, q), *[q != x for x in qs]), same_arcs_at(o, n, q)), lambda q: raw(n.transitions[q]))


def unchanged(o, n):
    return raw(o) == raw(n)


def arc_added(o, n, q, a):
    """bag of q in n = bag of q in o plus one copy of a"""
    S = o.S
    return z3.And(n.transitions[q].sz == o.transitions[q].sz + 1,
                  all_(asort(S), lambda b: cnt(n, q, b) == cnt(o, q, b) + z3.If(b == a, 1, 0), lambda b: cnt(n, q, b)))


def empty_at(t, q):
    return z3.And(t.transitions[q].sz == 0, all_(asort(t.S), lambda b: cnt(t, q, b) == 0, lambda b: cnt(t, q, b)))


def shift(S, a, k):
    return arc(S, atag(S, a), atgt(S, a) + k, awt(S, a))


def plus(o, n, q, extra, oq=None):
    """bag of q in n = bag of oq (default q) in o (or nothing if o is None) plus the arcs in extra"""
    S = n.S
    oq = q if oq is None else oq

    def f(b):
        base = cnt(o, oq, b) if o is not None else 0
        for a, cond in extra:
            base = base + z3.If(z3.And(b == a, cond), 1, 0)
        return cnt(n, q, b) == base
    return all_(asort(S), f, lambda b: cnt(n, q, b))


def w0(S):
    return S.dblval("0.0000")


def finals_in(t):
    return all_(I_, lambda q: imp(t.finals.has(q), is_state(t, q)), lambda q: t.finals.has(q))


def only_final(t, f, w):
    return z3.And(t.finals.sz == 1, all_(I_, lambda q: t.finals.has(q) == (q == f), lambda q: t.finals.has(q)), t.finals[f] == w)


def wf_t(t, extra=4):
    """a transducer as every public operation leaves it: dense numbering, arcs lead to states"""
    return [("states are numbered 0..n-1", dense(t)), ("arcs lead to states", closed(t)), ("final states are states", finals_in(t)),
            ("the initial state is a state", is_state(t, t.initial)), ("multiplicities are not negative", bags_ok(t)),
            ("fewer than 2^31 states", t.transitions.sz < IMAX - extra)]


def arcs_kept(o, n):
    return ("arcs that were there stay", all_([I_, asort(o.S)], lambda q, b: imp(is_state(o, q), is_state(n, q), cnt(n, q, b) >= cnt(o, q, b)), lambda q, b: [cnt(n, q, b), cnt(o, q, b)]))
