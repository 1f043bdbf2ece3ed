"""Transducer::closure is exactly epsilon reachability"""
import z3
from engine import Contract, Loop, Lemma
from trans_lib import *

TU = "transducer.cc"


def Sg(c):
    return c.ghost("closed_set", z3.ArraySort(I_, z3.BoolSort()))


def istag(tags, x):
    return tags.has(x)


def ghost_closed(c, t, start, tag):
    S = c.S
    g = Sg(c)
    return imp(True, sel(g, start), all_([I_, asort(S)], lambda q, a: imp(z3.And(sel(g, q), is_state(t, q), cnt(t, q, a) > 0, tag(atag(S, a))), sel(g, atgt(S, a))), lambda q, a: cnt(t, q, a)))


def arcs_in(L, t, q, res, tag):
    S = L.S
    return all_(asort(S), lambda a: imp(z3.And(is_state(t, q), cnt(t, q, a) > 0, tag(atag(S, a))), res.has(atgt(S, a))), lambda a: cnt(t, q, a))


def common(L, aux=None):
    S = L.S
    t = L.this0
    tags = L.arg0(1)
    res, nv = L.v("result", "std::set<int>"), L.v("nonvisited", "std::set<int>")
    st = L.arg0(0)
    r = [("start is in the result", res.has(st)),
         ("open states are in the result", all_(I_, lambda q: imp(nv.has(q), res.has(q)), lambda q: nv.has(q))),
         ("done states are closed", all_([I_, asort(S)], lambda q, a: imp(z3.And(res.has(q), z3.Not(nv.has(q)), is_state(t, q), cnt(t, q, a) > 0, tags.has(atag(S, a))), res.has(atgt(S, a))), lambda q, a: cnt(t, q, a))),
         ("within every closed set", imp(ghost_closed(L, t, st, tags.has), all_(I_, lambda q: imp(res.has(q), sel(Sg(L), q)), lambda q: res.has(q))))]
    return r


def inv0(L):
    return common(L)


def inv1(L):
    S = L.S
    t = L.this0
    res, nv = L.v("result", "std::set<int>"), L.v("nonvisited", "std::set<int>")
    aux = L.v("auxest", "int")
    return common(L) + [("current state is still open", nv.has(aux)),
                        ("tags tried so far are closed at the current state", all_(asort(S), lambda a: imp(z3.And(is_state(t, aux), cnt(t, aux, a) > 0, sel(L.seen, atag(S, a))), res.has(atgt(S, a))), lambda a: cnt(t, aux, a)))]


def inv2(L):
    S = L.S
    t = L.this0
    res, nv = L.v("result", "std::set<int>"), L.v("nonvisited", "std::set<int>")
    aux = L.v("auxest", "int")
    return common(L) + [("current state is still open", nv.has(aux)),
                        ("tags tried before are closed", all_(asort(S), lambda a: imp(z3.And(is_state(t, aux), cnt(t, aux, a) > 0, sel(L.outer_seen(1), atag(S, a))), res.has(atgt(S, a))), lambda a: cnt(t, aux, a))),
                        ("arcs followed so far are in the result", all_(asort(S), lambda a: imp(sel(L.seen, a) > 0, res.has(atgt(S, a))), lambda a: sel(L.seen, a)))]


def ens(tagf):
    def f(c):
        S = c.S
        t = c.this0
        st = c.arg0(0)
        tag = tagf(c)
        return [("contains the start state", c.ret.has(st)),
                ("complete: closed under epsilon arcs", all_([I_, asort(S)], lambda q, a: imp(z3.And(c.ret.has(q), is_state(t, q), cnt(t, q, a) > 0, tag(atag(S, a))), c.ret.has(atgt(S, a))), lambda q, a: cnt(t, q, a))),
                ("sound: inside every set closed under epsilon arcs", imp(ghost_closed(c, t, st, tag), all_(I_, lambda q: imp(c.ret.has(q), sel(Sg(c), q)), lambda q: c.ret.has(q))))]
    return f


# ---------------------------------------------------------------- closure_all
VS, VV, ST = "std::vector<sorted_vector<int>>", "std::vector<std::vector<int>>", "sorted_vector<int>"


def Rg(c):
    return c.ghost("closed_rel", z3.ArraySort(I_, z3.ArraySort(I_, z3.BoolSort())))


def R(c, i, j):
    return sel(sel(Rg(c), i), j)


def lnk(c, t, k, a):
    """a is a weightless epsilon arc of state k"""
    S = c.S
    return z3.And(cnt(t, k, a) > 0, atag(S, a) == c.arg0(0), awt(S, a) == w0(S))


def ghost_pre(c, t):
    """closed_rel is a preorder that contains every weightless epsilon arc"""
    S = c.S
    return z3.And(all_(I_, lambda i: R(c, i, i), lambda i: R(c, i, i)),
                  all_([I_, I_, I_], lambda i, j, k: imp(z3.And(R(c, i, j), R(c, j, k)), R(c, i, k)), lambda i, j, k: (R(c, i, j), R(c, j, k))),
                  all_([I_, asort(S)], lambda k, a: imp(z3.And(is_state(t, k), lnk(c, t, k, a)), R(c, k, atgt(S, a))), lambda k, a: cnt(t, k, a)))


def rhas(ret, k, q):
    return ret[k].has(q)


def ret_ok(c, t, ret, hi):
    """facts about the closures computed for states below hi"""
    S = c.S
    n = t.transitions.sz
    rng = lambda k: z3.And(0 <= k, k < hi)
    return [("own state", all_(I_, lambda k: imp(rng(k), rhas(ret, k, k)), lambda k: raw(ret[k]))),
            ("direct arcs", all_([I_, asort(S)], lambda k, a: imp(z3.And(rng(k), lnk(c, t, k, a)), rhas(ret, k, atgt(S, a))), lambda k, a: cnt(t, k, a))),
            ("members are states", all_([I_, I_], lambda k, q: imp(z3.And(rng(k), rhas(ret, k, q)), z3.And(0 <= q, q < n)), lambda k, q: rhas(ret, k, q))),
            ("within every preorder", imp(ghost_pre(c, t), all_([I_, I_], lambda k, q: imp(z3.And(rng(k), rhas(ret, k, q)), R(c, k, q)), lambda k, q: rhas(ret, k, q))))]


def sub(ret, a, b):
    return all_(I_, lambda q: imp(rhas(ret, a, q), rhas(ret, b, q)), lambda q: rhas(ret, a, q))


def rev_ok(c, t, rev, hi, extra=None):
    S = c.S
    inn = lambda k, j: some(I_, lambda p: z3.And(0 <= p, p < rev[j].len, raw(rev[j][p]) == k))
    return [("predecessors are recorded", all_([I_, asort(S)], lambda k, a: imp(z3.And(0 <= k, k < hi, lnk(c, t, k, a)), inn(k, atgt(S, a))), lambda k, a: cnt(t, k, a))),
            ("recorded predecessors are states", all_([I_, I_], lambda j, p: imp(z3.And(0 <= j, j < t.transitions.sz, 0 <= p, p < rev[j].len), z3.And(0 <= raw(rev[j][p]), raw(rev[j][p]) < t.transitions.sz)), lambda j, p: raw(rev[j][p]))),
            ("rows are lists", all_(I_, lambda j: imp(z3.And(0 <= j, j < t.transitions.sz), rev[j].len >= 0), lambda j: raw(rev[j])))]


def ca0(L):
    t = L.this0
    ret, rev, todo = L.v("ret", VS), L.v("reversed", VV), L.v("todo", ST)
    i = ret.len
    n = t.transitions.sz
    return [("range", z3.And(0 <= i, i <= n, L.v("i", "unsigned long") == i, rev.len == n))] + ret_ok(L, t, ret, i) + rev_ok(L, t, rev, i) + [
        ("todo holds states", all_(I_, lambda k: imp(todo.has(k), z3.And(0 <= k, k < i)), lambda k: todo.has(k))),
        ("others are trivial", all_([I_, I_], lambda k, q: imp(z3.And(0 <= k, k < i, z3.Not(todo.has(k)), rhas(ret, k, q)), q == k), lambda k, q: rhas(ret, k, q)))]


def ca1(L):
    S = L.S
    t = L.this0
    c = L.v("c", ST)
    rev = L.v("reversed", VV)
    ret = L.v("ret", VS)
    i = ret.len
    n = t.transitions.sz
    inn = lambda k, j: some(I_, lambda p: z3.And(0 <= p, p < rev[j].len, raw(rev[j][p]) == k))
    return [("own state", z3.And(c.has(i), c.sz >= 1, rev.len == n)),
            ("arcs seen", all_(asort(S), lambda a: imp(z3.And(sel(L.seen, a) > 0, awt(S, a) == w0(S)), z3.And(c.has(atgt(S, a)), inn(i, atgt(S, a)))), lambda a: sel(L.seen, a))),
            ("members are states", all_(I_, lambda q: imp(c.has(q), z3.And(0 <= q, q < n)), lambda q: c.has(q))),
            ("within every preorder", imp(ghost_pre(L, t), all_(I_, lambda q: imp(c.has(q), R(L, i, q)), lambda q: c.has(q)))),
            ("one member means trivial", imp(c.sz == 1, all_(I_, lambda q: imp(c.has(q), q == i), lambda q: c.has(q))))] + rev_ok(L, t, rev, i)


def fix(L, t, ret, pending):
    S = L.S
    return ("states not pending include the closures of their successors",
            all_([I_, asort(S)], lambda k, a: imp(z3.And(0 <= k, k < t.transitions.sz, lnk(L, t, k, a), z3.Not(pending(k))), sub(ret, atgt(S, a), k)), lambda k, a: cnt(t, k, a)))


def rng_todo(t, todo, nm="todo holds states"):
    return (nm, all_(I_, lambda k: imp(todo.has(k), z3.And(0 <= k, k < t.transitions.sz)), lambda k: todo.has(k)))


def ca2(L):
    t = L.this0
    ret, todo = L.v("ret", VS), L.v("todo", ST)
    return [("one per state", ret.len == t.transitions.sz)] + ret_ok(L, t, ret, t.transitions.sz) + [rng_todo(t, todo), fix(L, t, ret, todo.has)]


def ca3(L):
    t = L.this0
    ret, todo, nt = L.v("ret", VS), L.v("todo", ST), L.v("new_todo", ST)
    return [("one per state", ret.len == t.transitions.sz)] + ret_ok(L, t, ret, t.transitions.sz) + [rng_todo(t, nt, "new todo holds states"),
        fix(L, t, ret, lambda k: z3.Or(nt.has(k), z3.And(todo.has(k), z3.Not(sel(L.seen, k)))))]


def ca4(L):
    t = L.this0
    ret, ret0, temp = L.v("ret", VS), L.v0("ret", VS), L.v("temp", ST)
    it = L.outer_key(3)
    return [("one per state", ret.len == t.transitions.sz)] + ret_ok(L, t, ret, t.transitions.sz) + [
        ("other closures untouched", all_(I_, lambda k: imp(k != it, raw(ret[k]) == raw(ret0[k])), lambda k: raw(ret[k]))),
        ("this one grows", z3.And(ret[it].sz >= temp.sz, all_(I_, lambda q: imp(rhas(ret0, it, q), rhas(ret, it, q)), lambda q: rhas(ret0, it, q)))),
        ("no growth in size means no growth", imp(ret[it].sz == temp.sz, all_(I_, lambda q: rhas(ret, it, q) == rhas(ret0, it, q), lambda q: rhas(ret, it, q)))),
        ("closures of the members seen are included", all_([I_, I_], lambda m, q: imp(z3.And(sel(L.seen, m), rhas(ret0, m, q)), rhas(ret, it, q)), lambda m, q: (sel(L.seen, m), rhas(ret0, m, q))))]


def ca_ens(c):
    S = c.S
    t = c.this0
    r = c.ret
    return [("one closure per state", r.len == t.transitions.sz)] + ret_ok(c, t, r, t.transitions.sz) + [
        ("complete: the closure of a state includes those of its successors", all_([I_, asort(S)], lambda k, a: imp(z3.And(0 <= k, k < t.transitions.sz, lnk(c, t, k, a)), sub(r, atgt(S, a), k)), lambda k, a: cnt(t, k, a)))]


P = dict(props=["T09"])
CA = Contract("Transducer::closure_all", TU, None, requires=lambda c: wf_t(c.this0), ensures=ca_ens, loops=[Loop(ca0), Loop(ca1), Loop(ca2), Loop(ca3), Loop(ca4)], **P)
CONTRACTS = [
    Contract("Transducer::closure", TU, "std::set<int> (const int, const std::set<int> &) const", requires=lambda c: [("multiplicities are not negative", bags_ok(c.this0))],
             ensures=ens(lambda c: (lambda x: c.arg0(1).has(x))), loops=[Loop(inv0), Loop(inv1), Loop(inv2)], **P),
    Contract("Transducer::closure", TU, "std::set<int> (const int, const int) const", requires=lambda c: [("multiplicities are not negative", bags_ok(c.this0))],
             ensures=ens(lambda c: (lambda x: x == c.arg0(1))), **P),
    CA,
]
