"""Transducer: editing primitives"""
import z3
from engine import Contract, Loop, Lemma
from trans_lib import *

TU = "transducer.cc"
MP = 'std::map<int, std::multimap<int, std::pair<int, double>>>'


def new_req(c):
    t = c.this0
    return [("state numbers are below 2^31-2", z3.And(below(t, IMAX), t.transitions.sz < IMAX))]


def new_state_facts(o, n, r, first=True):
    return [("the new state did not exist", z3.Not(is_state(o, r))),
            ("exactly the new state is added", z3.And(all_(I_, lambda q: is_state(n, q) == z3.Or(is_state(o, q), q == r), lambda q: is_state(n, q)),
                                                      n.transitions.sz == o.transitions.sz + 1)),
            ("the new state is at or next to known numbers", z3.And(r >= o.transitions.sz, z3.Or(r == o.transitions.sz, is_state(o, r - 1)))),
            ("dense numbering continues", imp(dense(o), r == o.transitions.sz, dense(n)))]


def new_ens(c):
    o, n, r = c.this0, c.this, c.ret
    return new_state_facts(o, n, r) + [
        ("the new state has no arcs", empty_at(n, r)),
        ("arcs of other states untouched", same_arcs_but(o, n, r)),
        ("initial and final states untouched", z3.And(o.initial == n.initial, same(o.finals, n.finals)))]


def new_inv(L):
    o = L.this_entry
    s = L.v("nstate", "int")
    return [("all numbers tried are taken", z3.And(s >= o.transitions.sz, all_(I_, lambda k: imp(z3.And(k >= o.transitions.sz, k < s), is_state(o, k))))),
            ("nothing changed", unchanged(o, L.this))]


def rest_same(o, n):
    return [("initial and final states untouched", z3.And(o.initial == n.initial, same(o.finals, n.finals)))]


def ins_new_ens(c):
    o, n, r = c.this0, c.this, c.ret
    tag, src, w = c.arg0(0), c.arg0(1), c.arg0(2)
    return new_state_facts(o, n, r) + rest_same(o, n) + [
        ("exactly the arc source-tag->new state is added", arc_added(o, n, src, arc(c.S, tag, r, w))),
        ("the new state has no arcs", empty_at(n, r)),
        ("arcs of other states untouched", same_arcs_but(o, n, src, r))]


def ins_ens(c):
    o, n, r = c.this0, c.this, c.ret
    S = c.S
    tag, src, w = c.arg0(0), c.arg0(1), c.arg0(2)
    ok = is_state(o, src)
    fresh = z3.And(*[g for _, g in new_state_facts(o, n, r)], arc_added(o, n, src, arc(S, tag, r, w)),
                   empty_at(n, r), same_arcs_but(o, n, src, r), rest_same(o, n)[0][1])
    there = lambda a: z3.And(cnt(o, src, a) > 0, atag(S, a) == tag, awt(S, a) == w)
    return [arcs_kept(o, n),
        ("a source that does not exist changes nothing", imp(z3.Not(ok), r == -1, unchanged(o, n))),
        ("either nothing changes, or there is one new state and one new arc to it", imp(ok, z3.Or(unchanged(o, n), fresh))),
        ("the result is the target of an arc with this label and weight", imp(ok, cnt(n, src, arc(S, tag, r, w)) > 0)),
        ("an arc with this label and weight to another state is reused", all_(asort(S), lambda a: imp(z3.And(ok, there(a), atgt(S, a) != src), unchanged(o, n)), lambda a: cnt(o, src, a))),
        ("several arcs with this label: a loop is never followed", all_([asort(S), asort(S)], lambda a, b: imp(z3.And(ok, a != b, cnt(o, src, a) > 0, cnt(o, src, b) > 0, atag(S, a) == tag, atag(S, b) == tag), r != src), lambda a, b: z3.MultiPattern(cnt(o, src, a), cnt(o, src, b))))]


def link_ens(c):
    o, n = c.this0, c.this
    S = c.S
    src, tgt, tag, w = c.arg0(0), c.arg0(1), c.arg0(2), c.arg0(3)
    have = z3.Not(no_link(o, src, tag, tgt))
    return rest_same(o, n) + [
        arcs_kept(o, n), ("an existing link is left alone", imp(have, unchanged(o, n))),
        ("otherwise exactly this arc is added", imp(z3.Not(have), arc_added(o, n, src, arc(S, tag, tgt, w)))),
        ("arcs of other states untouched", same_arcs_but(o, n, src)),
        ("states untouched", z3.And(same_states(o, n), o.transitions.sz == n.transitions.sz))]


def link_inv(L):
    S = L.S
    t = L.this
    src, tgt, tag = L.arg0(0), L.arg0(1), L.arg0(2)
    return [("nothing changed", unchanged(L.this_entry, t)),
            ("no arc seen so far links source to target", all_(asort(S), lambda a: imp(sel(L.seen, a) > 0, atgt(S, a) != tgt)))]


def link_exit(c):
    return z3.Not(z3.And(is_state(c.this0, c.arg0(0)), is_state(c.this0, c.arg0(1))))


# ---------------------------------------------------------------- final states
def setfinal_ens(c):
    o, n = c.this0, c.this
    st, w, v = c.arg0(0), c.arg0(1), c.arg0(2)
    return [("final iff set", all_(I_, lambda q: n.finals.has(q) == z3.If(q == st, v, o.finals.has(q)), lambda q: n.finals.has(q))),
            ("a state keeps the weight it was first made final with", all_(I_, lambda q: imp(z3.And(n.finals.has(q), o.finals.has(q)), n.finals[q] == o.finals[q]))),
            ("a newly final state has the given weight", imp(z3.And(v, z3.Not(o.finals.has(st))), n.finals[st] == w)),
            ("number of final states", n.finals.sz == o.finals.sz + z3.If(z3.And(v, z3.Not(o.finals.has(st))), 1, z3.If(z3.And(z3.Not(v), o.finals.has(st)), -1, 0))),
            ("states and arcs untouched", z3.And(o.initial == n.initial, same(o.transitions, n.transitions)))]


def jf_req(c):
    return wf_t(c.this0)


def jf_rel(o, n, eps):
    """n is o after joining the final states"""
    S = o.S
    N = o.transitions.sz
    many = o.finals.sz > 1
    return [("a single final state: nothing changes", imp(o.finals.sz == 1, unchanged(o, n))),
            ("one state is added", imp(many, n.transitions.sz == N + 1, dense(n))),
            ("it is the only final state, with default weight", imp(many, only_final(n, N, w0(S)))),
            ("it has no arcs", imp(many, empty_at(n, N))),
            ("every old final state is linked to it with its final weight", imp(many, all_([I_, asort(S)], lambda q, b: imp(o.finals.has(q), cnt(n, q, b) == cnt(o, q, b) + z3.If(b == arc(S, eps, N, o.finals[q]), 1, 0)), lambda q, b: cnt(n, q, b)))),
            ("arcs of other states untouched", imp(many, all_([I_, asort(S)], lambda q, b: imp(z3.And(is_state(o, q), z3.Not(o.finals.has(q))), cnt(n, q, b) == cnt(o, q, b)), lambda q, b: cnt(n, q, b)))),
            ("initial state untouched", n.initial == o.initial)]


def jf_ens(c):
    return jf_rel(c.this0, c.this, c.arg0(0)) + wf_t(c.this, 3)


def jf_inv(L):
    o, e, n = L.this0, L.this_entry, L.this
    S = L.S
    N = o.transitions.sz
    eps = L.arg0(0)
    return [("states, initial and finals as before", z3.And(same_states(e, n), e.transitions.sz == n.transitions.sz, e.initial == n.initial, same(e.finals, n.finals))),
            ("linked so far", all_([I_, asort(S)], lambda q, b: imp(sel(L.seen, q), cnt(n, q, b) == cnt(o, q, b) + z3.If(b == arc(S, eps, N, o.finals[q]), 1, 0)), lambda q, b: cnt(n, q, b))),
            ("others untouched", all_([I_, asort(S)], lambda q, b: imp(z3.And(is_state(o, q), z3.Not(sel(L.seen, q))), cnt(n, q, b) == cnt(o, q, b)), lambda q, b: cnt(n, q, b))),
            ("the joined state has no arcs", empty_at(n, N))]


def rep_rel(kind):
    """optional / oneOrMore against the transducer with joined finals"""
    def f(c):
        o, n = c.this0, c.this
        S = c.S
        eps = c.arg0(0)
        N = o.transitions.sz
        many = o.finals.sz > 1
        J = z3.If(many, N + 1, N)           # states after joining
        s1, s2 = J, J + 1
        W0 = w0(S)
        in_arc = arc(S, eps, o.initial, W0)
        r = wf_t(n, 1) + [
            ("two states are added after joining", n.transitions.sz == J + 2),
            ("the new entry is initial", n.initial == s1),
            ("the new exit is the only final state, with default weight", only_final(n, s2, W0)),
            ("old states keep their arcs; final ones lead on with their weight",
             all_([I_, asort(S)], lambda q, b: imp(is_state(o, q), cnt(n, q, b) == cnt(o, q, b) + z3.If(z3.And(o.finals.has(q), b == arc(S, eps, z3.If(many, N, s2), o.finals[q])), 1, 0)), lambda q, b: cnt(n, q, b))),
            ("the joined final state leads to the exit", imp(many, plus(None, n, N, [(arc(S, eps, s2, W0), True)])))]
        if kind == "optional":
            r += [("entry leads to the old initial state and to the exit", plus(None, n, s1, [(in_arc, True), (arc(S, eps, s2, W0), True)])),
                  ("nothing leaves the exit", empty_at(n, s2))]
        else:
            r += [("entry leads to the old initial state", plus(None, n, s1, [(in_arc, True)])),
                  ("exit leads back to the entry", plus(None, n, s2, [(arc(S, eps, s1, W0), True)]))]
        return r
    return f


def zero_ens(c):
    o, n = c.this0, c.this
    S = c.S
    eps = c.arg0(0)
    N = o.transitions.sz
    many = o.finals.sz > 1
    J = z3.If(many, N + 1, N)
    s1, s2, t1, t2 = J, J + 1, J + 2, J + 3
    W0 = w0(S)
    return wf_t(n, -2) + [
        ("four states are added after joining", n.transitions.sz == J + 4),
        ("initial and final state", z3.And(n.initial == t1, only_final(n, t2, W0))),
        ("old states keep their arcs; final ones lead on with their weight",
         all_([I_, asort(S)], lambda q, b: imp(is_state(o, q), cnt(n, q, b) == cnt(o, q, b) + z3.If(z3.And(o.finals.has(q), b == arc(S, eps, z3.If(many, N, s2), o.finals[q])), 1, 0)), lambda q, b: cnt(n, q, b))),
        ("the joined final state leads to the loop exit", imp(many, plus(None, n, N, [(arc(S, eps, s2, W0), True)]))),
        ("loop entry", plus(None, n, s1, [(arc(S, eps, o.initial, W0), True)])),
        ("loop exit leads back and out", plus(None, n, s2, [(arc(S, eps, s1, W0), True), (arc(S, eps, t2, W0), True)])),
        ("outer entry leads in and past", plus(None, n, t1, [(arc(S, eps, s1, W0), True), (arc(S, eps, t2, W0), True)])),
        ("nothing leaves the exit", empty_at(n, t2))]


def jf_exit(c):
    return c.this0.finals.sz == 0


# ---------------------------------------------------------------- insertTransducer
def it_req(c):
    a, t = c.this0, c.arg0(1)
    return wf_t(a, 0) + wf_t(t) + [("source exists", is_state(a, c.arg0(0))), ("result stays below 2^31 states", a.transitions.sz + t.transitions.sz < IMAX - 4)]


def it_ens(c):
    o, n = c.this0, c.this
    t0, t = c.arg0(1), c.arg(1)
    S = c.S
    src, eps = c.arg0(0), c.arg0(2)
    N, M = o.transitions.sz, t.transitions.sz
    return jf_rel(t0, t, eps) + [
        ("one copy of every state is added", z3.And(n.transitions.sz == N + M, dense(n))),
        ("the copy has exactly the arcs of the inserted transducer", all_([I_, asort(S)], lambda q, b: imp(z3.And(N <= q, q < N + M), cnt(n, q, b) == cnt(t, q - N, shift(S, b, -N))), lambda q, b: cnt(n, q, b))),
        ("source is linked to the initial state of the copy", plus(o, n, src, [(arc(S, eps, t.initial + N, w0(S)), True)])),
        ("arcs of other states untouched", all_([I_, asort(S)], lambda q, b: imp(z3.And(is_state(o, q), q != src), cnt(n, q, b) == cnt(o, q, b)), lambda q, b: cnt(n, q, b))),
        ("initial and final states untouched", z3.And(o.initial == n.initial, same(o.finals, n.finals))),
        ("the result is the final state of the copy", z3.And(t.finals.sz == 1, t.finals.has(c.ret - N)))]


def it_inv1(L):
    o, n, t = L.this0, L.this, L.arg_entry(1)
    S = L.S
    N = o.transitions.sz
    rel = L.v("relation", "std::map<int, int>")
    k = n.transitions.sz - N
    return [("states copied so far", z3.And(dense(n), k >= 0, k <= t.transitions.sz, all_(I_, lambda q: sel(L.seen, q) == z3.And(0 <= q, q < k), lambda q: sel(L.seen, q)))),
            ("relation so far", all_(I_, lambda q: z3.And(rel.has(q) == z3.And(0 <= q, q < k), imp(rel.has(q), rel[q] == N + q)), lambda q: rel.has(q))),
            ("copies have no arcs yet", all_([I_, asort(S)], lambda q, b: imp(z3.And(q >= N, q < N + k), cnt(n, q, b) == 0), lambda q, b: cnt(n, q, b))),
            ("old arcs untouched", all_([I_, asort(S)], lambda q, b: imp(is_state(o, q), cnt(n, q, b) == cnt(o, q, b)), lambda q, b: cnt(n, q, b))),
            ("initial and finals", z3.And(o.initial == n.initial, same(o.finals, n.finals))),
            ("inserted transducer untouched", same(L.arg(1), t))]


def it_arcs(L, seen_state, cur):
    o, e, n, t = L.this0, L.this_entry, L.this, L.arg_entry(1)
    S = L.S
    N = o.transitions.sz
    rel = L.v("relation", "std::map<int, int>")
    r = [("relation untouched", same(rel, L.v0("relation", "std::map<int, int>"))),
         ("states untouched", z3.And(same_states(e, n), e.transitions.sz == n.transitions.sz)),
         ("old arcs untouched", all_([I_, asort(S)], lambda q, b: imp(is_state(o, q), cnt(n, q, b) == cnt(o, q, b)), lambda q, b: cnt(n, q, b))),
         ("initial and finals", z3.And(o.initial == n.initial, same(o.finals, n.finals))),
         ("inserted transducer untouched", same(L.arg(1), t))]
    return r


def it_inv2(L):
    o, n, t = L.this0, L.this, L.arg_entry(1)
    S = L.S
    N = o.transitions.sz
    return it_arcs(L, None, None) + [
        ("arcs copied so far", all_([I_, asort(S)], lambda q, b: imp(z3.And(N <= q, q < N + t.transitions.sz), cnt(n, q, b) == z3.If(sel(L.seen, q - N), cnt(t, q - N, shift(S, b, -N)), 0)), lambda q, b: cnt(n, q, b)))]


def it_inv3(L):
    o, e, n, t = L.this0, L.this_entry, L.this, L.arg_entry(1)
    S = L.S
    N = o.transitions.sz
    # the state being copied is the one the outer loop stands at
    cur = L.outer_key(1)
    return it_arcs(L, None, None) + [
        ("arcs of this state copied so far", all_(asort(S), lambda b: cnt(n, cur + N, b) == sel(L.seen, shift(S, b, -N)), lambda b: cnt(n, cur + N, b))),
        ("other states as before this one", all_([I_, asort(S)], lambda q, b: imp(q != cur + N, cnt(n, q, b) == cnt(e, q, b)), lambda q, b: cnt(n, q, b)))]


P8 = dict(props=["T08"])
PX = dict(props=["T08", "X24"])
CONTRACTS = [
    Contract("Transducer::newState", TU, None, requires=new_req, ensures=new_ens, modifies=["this.transitions"], loops=[Loop(new_inv)], **PX),
    Contract("Transducer::insertNewSingleTransduction", TU, None, requires=lambda c: new_req(c) + [("source exists", is_state(c.this0, c.arg0(1)))],
             ensures=ins_new_ens, modifies=["this.transitions"], **P8),
    Contract("Transducer::insertSingleTransduction", TU, None, requires=new_req, ensures=ins_ens, modifies=["this.transitions"],
             loops=[Loop(lambda L: [("nothing changed", unchanged(L.this_entry, L.this)),
                                    ("no arc passed so far could be reused", all_(asort(L.S), lambda a: imp(z3.And(sel(L.seen, a) > 0, awt(L.S, a) == L.arg0(2), atag(L.S, a) == L.arg0(0)), atgt(L.S, a) == L.arg0(1)), lambda a: sel(L.seen, a)))])], **P8),
    Contract("Transducer::linkStates", TU, None, requires=None, ensures=link_ens, exits=link_exit, modifies=["this.transitions"], loops=[Loop(link_inv)], **P8),
    Contract("Transducer::isFinal", TU, None, ensures=lambda c: [("final iff listed", c.ret == c.this0.finals.has(c.arg0(0)))], **PX),
    Contract("Transducer::setFinal", TU, None, ensures=setfinal_ens, modifies=["this.finals"], **P8),
    Contract("Transducer::joinFinals", TU, None, requires=jf_req, ensures=jf_ens, exits=jf_exit, modifies=["this"], loops=[Loop(jf_inv)], **PX),
    Contract("Transducer::optional", TU, None, requires=jf_req, ensures=rep_rel("optional"), exits=jf_exit, modifies=["this"], **P8),
    Contract("Transducer::oneOrMore", TU, None, requires=jf_req, ensures=rep_rel("more"), exits=jf_exit, modifies=["this"], **P8),
    Contract("Transducer::zeroOrMore", TU, None, requires=lambda c: wf_t(c.this0, 8), ensures=zero_ens, exits=jf_exit, modifies=["this"], **P8),
    Contract("Transducer::insertTransducer", TU, None, requires=it_req, ensures=it_ens, exits=lambda c: c.arg0(1).finals.sz == 0, modifies=["this.transitions", "arg1"],
             loops=[Loop(it_inv1), Loop(it_inv2), Loop(it_inv3)], **P8),
]
