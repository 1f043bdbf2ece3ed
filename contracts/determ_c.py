"""Transducer::reverse and determinize: what becomes of the graph"""
import z3
from engine import Contract, Loop, Lemma
from trans_lib import *
from closure_c import ret_ok, sub, lnk, ca_ens
from state_c import order

TU = "transducer.cc"
MM = "std::multimap<int, std::pair<int, double>>"
MMM = "std::map<int, %s>" % MM


def wf_nc(t):
    """well formed, capacity aside"""
    return wf_t(t)[:-1]


def cap(c):
    return wf_t(c.this0)[-1:]


def J(o):
    """number of states after joining the finals"""
    return z3.If(o.finals.sz > 1, o.transitions.sz + 1, o.transitions.sz)


def jcnt(o, eps, q, b):
    """arcs of the transducer with joined final states"""
    S, N = o.S, o.transitions.sz
    many = o.finals.sz > 1
    return z3.If(q == N, 0, cnt(o, q, b) + z3.If(z3.And(many, o.finals.has(q), b == arc(S, eps, N, o.finals[q])), 1, 0))


def turn(S, b, p):
    """the arc that leads from the target of b to p with the label of b"""
    return arc(S, atag(S, b), p, awt(S, b))


def tc(tmp, p, b):
    return z3.If(tmp.has(p), sel(tmp[p].cnt, b), 0)


def rev_ens(c):
    o, n, eps = c.this0, c.this, c.arg0(0)
    S = c.S
    N = o.transitions.sz
    return [("as many states as after joining the finals", z3.And(n.transitions.sz == J(o), dense(n))),
            ("exactly the arcs of the joined transducer, turned around", all_([I_, asort(S)], lambda p, b: imp(is_state(n, p), cnt(n, p, b) == z3.If(is_state(n, atgt(S, b)), jcnt(o, eps, atgt(S, b), turn(S, b, p)), 0)), lambda p, b: cnt(n, p, b))),
            ("starts where it ended", z3.If(o.finals.sz > 1, n.initial == N, o.finals.has(n.initial))),
            ("ends where it started, with the weight of the single final state", z3.And(n.finals.sz == 1, all_(I_, lambda q: n.finals.has(q) == (q == o.initial), lambda q: n.finals.has(q)),
                                                                                     n.finals[o.initial] == z3.If(o.finals.sz > 1, w0(S), o.finals[n.initial])))] + wf_nc(n)


def rev_fix(L):
    j, n = L.this_entry, L.this
    return [("states, start and finals as after joining", z3.And(same_states(j, n), j.transitions.sz == n.transitions.sz, j.initial == n.initial, same(j.finals, n.finals)))]


def rev_inv0(L):
    j, n, S = L.this_entry, L.this, L.S
    tmp = L.v("tmp_transitions", MMM)
    seen = lambda q: sel(L.seen, q)
    w = lambda p, b: z3.If(seen(atgt(S, b)), cnt(j, atgt(S, b), turn(S, b, p)), 0)
    return rev_fix(L) + [
        ("states passed hold the turned arcs of the states passed", all_([I_, asort(S)], lambda p, b: imp(seen(p), cnt(n, p, b) == w(p, b)), lambda p, b: cnt(n, p, b))),
        ("states to come are untouched", all_([I_, asort(S)], lambda p, b: imp(z3.And(is_state(n, p), z3.Not(seen(p))), cnt(n, p, b) == cnt(j, p, b)), lambda p, b: cnt(n, p, b))),
        ("turned arcs wait for the states to come", all_([I_, asort(S)], lambda p, b: imp(z3.And(is_state(n, p), z3.Not(seen(p))), tc(tmp, p, b) == w(p, b)), lambda p, b: [sel(tmp[p].cnt, b), cnt(n, p, b)])),
        ("nothing waits for others", all_(I_, lambda p: imp(tmp.has(p), z3.And(is_state(n, p), z3.Not(seen(p)))), lambda p: tmp.has(p)))]


def rev_inv1(L):
    e, n, S = L.this_entry, L.this, L.S
    tmp, tmp0 = L.v("tmp_transitions", MMM), L.v0("tmp_transitions", MMM)
    cur = L.outer_key(0)
    add = lambda p, b: z3.If(atgt(S, b) == cur, sel(L.seen, turn(S, b, p)), 0)
    return rev_fix(L) + [
        ("arcs passed are turned at later states", all_([I_, asort(S)], lambda p, b: imp(z3.And(is_state(n, p), p != cur), cnt(n, p, b) == cnt(e, p, b) + z3.If(p > cur, add(p, b), 0)), lambda p, b: cnt(n, p, b))),
        ("or wait for an earlier state", all_([I_, asort(S)], lambda p, b: imp(z3.And(is_state(n, p), p != cur), tc(tmp, p, b) == tc(tmp0, p, b) + z3.If(p < cur, add(p, b), 0)), lambda p, b: [sel(tmp[p].cnt, b), cnt(n, p, b)])),
        ("loops are here or wait", all_(asort(S), lambda b: cnt(n, cur, b) + tc(tmp, cur, b) == cnt(e, cur, b) + tc(tmp0, cur, b) + add(cur, b), lambda b: [sel(tmp[cur].cnt, b), cnt(n, cur, b)])),
        ("nothing waits for others", all_(I_, lambda p: imp(tmp.has(p), z3.Or(tmp0.has(p), z3.And(is_state(n, p), p <= cur))), lambda p: tmp.has(p)))]


def rev_inv2(L):
    return [("nothing to do", unchanged(L.this_entry, L.this))]


# ---------------------------------------------------------------- determinize
VS, SV = "std::vector<sorted_vector<int>>", "sorted_vector<int>"
PID = T("pair", "", [I(32, True), T("double")])
LE = lambda c, x, y: z3.Function("dbl_le", c.S.Dbl, c.S.Dbl, z3.BoolSort())(raw(x), raw(y))


def lab(S, b):
    return S.dt(PID).mk(atag(S, b), awt(S, b))


def slab(S, a, b):
    return z3.And(atag(S, a) == atag(S, b), awt(S, a) == awt(S, b))


class D:
    """the pieces of the construction: o original, cl closures, Q sets, tp arcs, fp finals"""

    def __init__(s, c, o, eps, cl, Q, tp, fp):
        s.c, s.S, s.o, s.eps, s.cl, s.Q, s.tp, s.fp = c, c.S, o, eps, cl, Q, tp, fp
        s.N = o.transitions.sz

    def nt(s, a):
        return z3.Or(atag(s.S, a) != s.eps, awt(s.S, a) != w0(s.S))

    def CL(s, k, x):
        return s.cl[k].has(x)

    def src(s, p, q, a):
        return z3.And(s.Q[p].has(q), cnt(s.o, q, a) > 0, s.nt(a))

    def n(s, p, b):
        return sel(s.tp[p].cnt, b)

    def arcs(s, dom):
        """every state in dom has exactly the arcs of the subset construction"""
        S, A = s.S, asort(s.S)
        return [("an arc is single and leads to a set", all_([I_, A], lambda p, b: imp(z3.And(dom(p), s.n(p, b) != 0), s.n(p, b) == 1, 0 <= atgt(S, b), atgt(S, b) < s.Q.len, s.nt(b)), lambda p, b: s.n(p, b))),
                ("an arc comes from an arc of a member", all_([I_, A], lambda p, b: imp(z3.And(dom(p), s.n(p, b) > 0), some([I_, A], lambda q, a: z3.And(s.src(p, q, a), slab(S, a, b)))), lambda p, b: s.n(p, b))),
                ("its target holds the closures of the members' targets", all_([I_, A, I_, A, I_], lambda p, b, q, a, x: imp(z3.And(dom(p), s.n(p, b) > 0, s.src(p, q, a), slab(S, a, b), s.CL(atgt(S, a), x)), s.Q[atgt(S, b)].has(x)), lambda p, b, q, a, x: (s.n(p, b), s.Q[p].has(q), cnt(s.o, q, a), s.CL(atgt(S, a), x)))),
                ("and nothing else", all_([I_, A, I_], lambda p, b, x: imp(z3.And(dom(p), s.n(p, b) > 0, s.Q[atgt(S, b)].has(x)), some([I_, A], lambda q, a: z3.And(s.src(p, q, a), slab(S, a, b), s.CL(atgt(S, a), x)))), lambda p, b, x: (s.n(p, b), s.Q[atgt(S, b)].has(x)))),
                ("every label of a member has an arc", all_([I_, I_, A], lambda p, q, a: imp(z3.And(dom(p), s.src(p, q, a)), some(I_, lambda t: s.n(p, arc(S, atag(S, a), t, awt(S, a))) > 0)), lambda p, q, a: (s.Q[p].has(q), cnt(s.o, q, a), raw(s.tp[p])))),
                ("one arc per label", all_([I_, A, A], lambda p, a, b: imp(z3.And(dom(p), s.n(p, a) > 0, s.n(p, b) > 0, slab(S, a, b)), a == b), lambda p, a, b: (s.n(p, a), s.n(p, b))))]

    def fins(s, dom):
        f, o = s.fp, s.o
        return [("a set is final only with a final member", all_(I_, lambda p: imp(z3.And(dom(p), f.has(p)), some(I_, lambda q: z3.And(s.Q[p].has(q), o.finals.has(q), f[p] == o.finals[q]))), lambda p: f.has(p))),
                ("a set with a final member is final, and no heavier", all_([I_, I_], lambda p, q: imp(z3.And(dom(p), s.Q[p].has(q), o.finals.has(q)), f.has(p), LE(s.c, f[p], o.finals[q])), lambda p, q: (s.Q[p].has(q), o.finals.has(q))))]

    def members(s):
        return [("members are states", all_([I_, I_], lambda p, q: imp(z3.And(0 <= p, p < s.Q.len, s.Q[p].has(q)), 0 <= q, q < s.N), lambda p, q: s.Q[p].has(q)))]



MAPPID = "std::map<std::pair<int, double>, sorted_vector<int>>"
MSI = "std::map<sorted_vector<int>, int>"


def dl(L, tpn="transitions_prime"):
    return D(L, L.this0, L.arg0(0), L.v("all_closures", VS), L.v("Q_prime", None), L.v("transitions_prime", MMM), L.v("finals_prime", "std::map<int, double>"))


def det_common(L, d):
    qi = L.v("Q_prime_inv", MSI)
    R, t = L.v("R", None), L.v("t", "int")
    ks = L.S.sort(parse(SV))
    return [("nothing changed yet", unchanged(L.this0, L.this)), ("two work lists", z3.And(R.len == 2, 0 <= t, t < 2)), ("there is a first set", d.Q.len >= 1),
            ("the first set is the closure of the initial state", all_(I_, lambda q: d.Q[0].has(q) == d.CL(d.o.initial, q), lambda q: [d.Q[0].has(q)])),
            ("sets are listed under their number", all_(ks, lambda k: imp(qi.has(k), 0 <= qi[k], qi[k] < d.Q.len, raw(d.Q[qi[k]]) == k), lambda k: qi.has(k)))] + d.members()


def det_inv0(L):
    fs = L.v("finals_state", SV)
    return [("final states so far", all_(I_, lambda q: fs.has(q) == sel(L.seen, q), lambda q: fs.has(q)))]


def det_fs(L):
    fs = L.v("finals_state", SV)
    return [("final states", all_(I_, lambda q: fs.has(q) == L.this0.finals.has(q), lambda q: fs.has(q)))]


def rng(lo, p, hi):
    return z3.And(lo <= p, p < hi)


def det_shape(d, z, processed):
    """which states exist; those not processed have no arcs; only processed ones are final"""
    tp, Q = d.tp, d.Q
    return [("states exist", all_(I_, lambda p: tp.has(p) == z3.And(rng(0, p, Q.len), z3.Or(p >= 1, z)), lambda p: tp.has(p))),
            ("number of states", tp.sz == z3.If(z, Q.len, 0)),
            ("states to come have no arcs", all_([I_, asort(d.S)], lambda p, b: imp(z3.And(rng(1, p, Q.len), z3.Not(processed(p))), d.n(p, b) == 0), lambda p, b: d.n(p, b))),
            ("only sets passed are final", all_(I_, lambda p: imp(d.fp.has(p), rng(0, p, Q.len), processed(p)), lambda p: d.fp.has(p)))]


def det_inv1(L):
    d = dl(L)
    R, t = L.v("R", None), L.v("t", "int")
    z = L.v("size_Q_prime", "unsigned int")
    done = lambda p: rng(0, p, z)
    return det_common(L, d) + [("sizes", z3.And(0 <= z, z <= d.Q.len, imp(z == 0, d.Q.len == 1))),
                               ("the work list holds the sets to come", all_(I_, lambda p: R[t].has(p) == rng(z, p, d.Q.len), lambda p: R[t].has(p)))] + det_shape(d, z > 0, done) + d.arcs(done) + d.fins(done)


def det_inv2(L):
    d = dl(L)
    R, t = L.v("R", None), L.v("t", "int")
    R0 = L.v0("R", None)
    z = L.v("size_Q_prime", "unsigned int")
    done = lambda p: z3.And(rng(0, p, z), z3.Or(z3.Not(R0[t].has(p)), sel(L.seen, p)))
    started = z3.Or(sel(L.seen, z3.IntVal(0)), z3.Not(R0[t].has(z3.IntVal(0))))
    o = 1 - t
    return det_common(L, d) + [("sizes", z3.And(0 <= z, z <= d.Q.len, t == L.v0("t", "int"), z == L.v0("size_Q_prime", "unsigned int"))),
                               ("this work list is untouched", same(R[t], R0[t])),
                               ("the first set comes first", z3.And(imp(R0[t].has(z3.IntVal(0)), z == 1), imp(z3.Not(started), d.Q.len == 1), all_(I_, lambda p: imp(R0[t].has(p), rng(0, p, z)), lambda p: R0[t].has(p)))),
                               ("the other one holds the new sets", all_(I_, lambda p: R[o].has(p) == rng(z, p, d.Q.len), lambda p: R[o].has(p)))] + det_shape(d, started, done) + d.arcs(done) + d.fins(done)


def det_inv3(L):
    S = L.S
    o = L.this0
    w, f = L.v("w", "double"), L.v("found", "bool")
    return [("found a final state iff there is one", z3.And(imp(f, some(I_, lambda q: z3.And(sel(L.seen, q), o.finals.has(q), o.finals[q] == w))),
                                                            all_(I_, lambda q: imp(z3.And(sel(L.seen, q), o.finals.has(q)), f, LE(L, w, o.finals[q])), lambda q: sel(L.seen, q))))]


def mm_ok(L, d, fsrc, bs):
    """mymap holds the labels of the arcs fsrc(q, a), and the closures of their targets"""
    S, A = d.S, asort(d.S)
    m = L.v("mymap", MAPPID)
    return [("labels come from arcs", all_(S.sort(PID), lambda l: imp(m.has(l), some([I_, A], lambda q, a: z3.And(fsrc(q, a), d.nt(a), lab(S, a) == l))), lambda l: m.has(l))),
            ("arcs have their label", all_([I_, A], lambda q, a: imp(z3.And(fsrc(q, a), d.nt(a)), m.has(lab(S, a))), lambda q, a: bs(q, a))),
            ("states come from arcs", all_([S.sort(PID), I_], lambda l, x: imp(z3.And(m.has(l), m[l].has(x)), some([I_, A], lambda q, a: z3.And(fsrc(q, a), d.nt(a), lab(S, a) == l, d.CL(atgt(S, a), x)))), lambda l, x: m[l].has(x))),
            ("closures of the targets are there", all_([I_, A, I_], lambda q, a, x: imp(z3.And(fsrc(q, a), d.nt(a), d.CL(atgt(S, a), x)), m[lab(S, a)].has(x)), lambda q, a, x: [(bs(q, a), d.CL(atgt(S, a), x))]))]


def det_inv4(L):
    d = dl(L)
    return [("nothing changed yet", unchanged(L.this0, L.this))] + mm_ok(L, d, lambda q, a: z3.And(sel(L.seen, q), cnt(d.o, q, a) > 0), lambda q, a: cnt(d.o, q, a))


def det_inv5(L):
    d = dl(L)
    s4, cur = L.outer_seen(4), L.outer_key(4)
    old = lambda q, a: z3.And(sel(s4, q), cnt(d.o, q, a) > 0)
    f = lambda q, a: z3.Or(old(q, a), z3.And(q == cur, sel(L.seen, a) > 0))
    S, A = d.S, asort(d.S)
    m = L.v("mymap", MAPPID)
    here = lambda a: z3.And(sel(L.seen, a) > 0, d.nt(a))
    return [("nothing changed yet", unchanged(L.this0, L.this))] + mm_ok(L, d, f, lambda q, a: cnt(d.o, q, a))[0:1] + mm_ok(L, d, f, lambda q, a: cnt(d.o, q, a))[2:3] + [
        ("old arcs have their label", mm_ok(L, d, old, lambda q, a: cnt(d.o, q, a))[1][1]),
        ("old closures are there", mm_ok(L, d, old, lambda q, a: cnt(d.o, q, a))[3][1]),
        ("arcs have their label", all_(A, lambda a: imp(here(a), m.has(lab(S, a))), lambda a: sel(L.seen, a))),
        ("closures of the targets are there", all_([A, I_], lambda a, x: imp(z3.And(here(a), d.CL(atgt(S, a), x)), m[lab(S, a)].has(x)), lambda a, x: [(sel(L.seen, a), d.CL(atgt(S, a), x)), (cnt(d.o, cur, a), d.CL(atgt(S, a), x))]))]


def det_inv6(L):
    d = dl(L)
    S, A = d.S, asort(d.S)
    cur = L.outer_key(2)
    m = L.v("mymap", MAPPID)
    Q0, tp0 = L.v0("Q_prime", None), L.v0("transitions_prime", MMM)
    R, R0, t = L.v("R", None), L.v0("R", None), L.v("t", "int")
    z = L.v("size_Q_prime", "unsigned int")
    o = 1 - t
    ll = lambda b: lab(S, b)
    return det_common(L, d) + [
        ("sets stay", z3.And(d.Q.len >= Q0.len, t == L.v0("t", "int"), all_(I_, lambda p: imp(rng(0, p, Q0.len), same(d.Q[p], Q0[p])), lambda p: raw(d.Q[p])))),
        ("this work list is untouched", same(R[t], R0[t])),
        ("the other one holds the new sets", all_(I_, lambda p: R[o].has(p) == rng(z, p, d.Q.len), lambda p: R[o].has(p))),
        ("states exist", z3.And(d.tp.sz == tp0.sz + d.Q.len - Q0.len, all_(I_, lambda p: d.tp.has(p) == z3.Or(tp0.has(p), rng(Q0.len, p, d.Q.len)), lambda p: d.tp.has(p)))),
        ("other states as before", all_(I_, lambda p: imp(z3.And(tp0.has(p), p != cur), same(d.tp[p], tp0[p])), lambda p: raw(d.tp[p]))),
        ("new states have no arcs", all_([I_, A], lambda p, b: imp(rng(Q0.len, p, d.Q.len), d.n(p, b) == 0), lambda p, b: d.n(p, b))),
        ("arcs here are single, of labels passed, to their set", all_(A, lambda b: imp(d.n(cur, b) != 0, d.n(cur, b) == 1, sel(L.seen, ll(b)), rng(0, atgt(S, b), d.Q.len), same(d.Q[atgt(S, b)], m[ll(b)])), lambda b: d.n(cur, b))),
        ("labels passed have an arc", all_(S.sort(PID), lambda l: imp(sel(L.seen, l), some(I_, lambda t_: d.n(cur, arc(S, S.dt(PID).get(l, "first"), t_, S.dt(PID).get(l, "second"))) > 0)), lambda l: sel(L.seen, l))),
        ("one arc per label", all_([A, A], lambda a, b: imp(z3.And(d.n(cur, a) > 0, d.n(cur, b) > 0, slab(S, a, b)), a == b), lambda a, b: (d.n(cur, a), d.n(cur, b))))]


class TR:
    pass


def det_ens(c):
    o, n = c.this0, c.this
    cl, Q = c.witness("all_closures", VS), c.witness("Q_prime", VS)
    d = D(c, o, c.arg0(0), cl, Q, n.transitions, n.finals)
    allp = lambda p: rng(0, p, Q.len)
    r = [("one state per set", z3.And(n.transitions.sz == Q.len, dense(n))), ("starts at the first set", n.initial == 0),
         ("the first set is the closure of the initial state", all_(I_, lambda q: Q[0].has(q) == d.CL(o.initial, q), lambda q: [Q[0].has(q)]))]
    r += d.members() + d.arcs(allp) + d.fins(allp) + [("the initial state is a state", is_state(n, n.initial)), ("final states are states", finals_in(n)), ("multiplicities are not negative", bags_ok(n)), ("arcs lead to states", closed(n))]
    # what the closures are
    S = c.S
    return r + [("closures are closures: " + nm, g) for nm, g in ret_ok(c, o, cl, o.transitions.sz)] + [
        ("closures are closed", all_([I_, asort(S)], lambda k, a: imp(z3.And(0 <= k, k < o.transitions.sz, lnk(c, o, k, a)), sub(cl, atgt(S, a), k)), lambda k, a: cnt(o, k, a)))]


def min_ens(c):
    """what minimize leaves behind; that the language is kept follows from the four steps' contracts"""
    o, n, S, eps = c.this0, c.this, c.S, c.arg0(0)
    A = asort(S)
    nt = lambda a: z3.Or(atag(S, a) != eps, awt(S, a) != w0(S))
    some_fin = o.finals.sz > 0
    return [("a transducer without finals stays as it is", imp(z3.Not(some_fin), unchanged(o, n))),
            ("starts at the first state", imp(some_fin, n.initial == 0)),
            ("no weightless epsilon arc, no arc twice", all_([I_, A], lambda p, b: imp(z3.And(some_fin, is_state(n, p), cnt(n, p, b) != 0), nt(b), cnt(n, p, b) == 1), lambda p, b: cnt(n, p, b))),
            ("one arc per label", all_([I_, A, A], lambda p, a, b: imp(z3.And(some_fin, is_state(n, p), cnt(n, p, a) > 0, cnt(n, p, b) > 0, slab(S, a, b)), a == b), lambda p, a, b: (cnt(n, p, a), cnt(n, p, b))))] + wf_nc(n)


def language_step():
    """determinize keeps the language: by induction over the labels read. REACH is the set of states of
    the original after the labels so far, p the state of the result; the facts about p are those that
    determinize ensures."""
    St, Lb = z3.DeclareSort("St"), z3.DeclareSort("Lb")
    B = z3.BoolSort()
    A = z3.Function("A", St, Lb, St, B)            # non-trivial arcs of the original
    CL = z3.Function("CL", St, St, B)              # closure
    Q = z3.Function("Qset", I_, St, B)             # members of a set
    n = z3.Function("narc", I_, Lb, I_, B)         # arcs of the result
    R = z3.Function("REACH", St, B)
    F, W = z3.Function("Fin", St, B), z3.Function("wt", St, z3.RealSort())
    PF, PW = z3.Function("PFin", I_, B), z3.Function("pwt", I_, z3.RealSort())
    q, x, y = z3.Consts("q x y", St)
    l = z3.Const("l", Lb)
    p, t = z3.Ints("p t")
    step = lambda x: z3.Exists([q, y], z3.And(R(q), A(q, l, y), CL(y, x)))
    ens = [z3.ForAll([l, t, q, y, x], z3.Implies(z3.And(n(p, l, t), Q(p, q), A(q, l, y), CL(y, x)), Q(t, x))),
           z3.ForAll([l, t, x], z3.Implies(z3.And(n(p, l, t), Q(t, x)), z3.Exists([q, y], z3.And(Q(p, q), A(q, l, y), CL(y, x))))),
           z3.ForAll([l, t], z3.Implies(n(p, l, t), z3.Exists([q, y], z3.And(Q(p, q), A(q, l, y))))),
           z3.ForAll([q, l, y], z3.Implies(z3.And(Q(p, q), A(q, l, y)), z3.Exists(t, n(p, l, t)))),
           z3.ForAll([l, t, x], z3.Implies(z3.And(n(p, l, t), n(p, l, z3.Int("t2"))), t == z3.Int("t2"))),
           z3.ForAll(x, CL(x, x))]
    here = z3.ForAll(x, R(x) == Q(p, x))
    fens = [z3.Implies(PF(p), z3.Exists(q, z3.And(Q(p, q), F(q), PW(p) == W(q)))),
            z3.ForAll(q, z3.Implies(z3.And(Q(p, q), F(q)), z3.And(PF(p), PW(p) <= W(q))))]
    hyp = z3.And(here, *ens)
    return [("after one more label the result is in the state of exactly the reachable originals", z3.ForAll([p, l, t], z3.Implies(z3.And(hyp, n(p, l, t)), z3.ForAll(x, Q(t, x) == step(x))))),
            ("a label can be read in the result exactly where it can be in the original", z3.ForAll([p, l], z3.Implies(hyp, z3.Exists(t, n(p, l, t)) == z3.Exists(x, step(x))))),
            ("accepted exactly where the original is", z3.ForAll(p, z3.Implies(z3.And(here, *fens), PF(p) == z3.Exists(q, z3.And(R(q), F(q)))))),
            ("with the least weight", z3.ForAll(p, z3.Implies(z3.And(here, *fens, PF(p)), z3.And(z3.Exists(q, z3.And(R(q), F(q), PW(p) == W(q))), z3.ForAll(q, z3.Implies(z3.And(R(q), F(q)), PW(p) <= W(q)))))))]


P10 = dict(props=["T10"])
CONTRACTS = [
    Contract("Transducer::reverse", TU, None, requires=lambda c: wf_nc(c.this0), assumes=cap, ensures=rev_ens, exits=lambda c: c.this0.finals.sz == 0, modifies=["this"],
             loops=[Loop(rev_inv0), Loop(rev_inv1), Loop(rev_inv2), Loop(rev_inv2)], **P10),
    Contract("Transducer::determinize", TU, None, requires=lambda c: wf_nc(c.this0), assumes=cap, ensures=det_ens, modifies=["this"], axioms=lambda c: order(c),
             sizecap=2**31 - 1, loops=[Loop(det_inv0), Loop(det_inv1), Loop(det_inv2), Loop(det_inv3), Loop(det_inv4), Loop(det_inv5), Loop(det_inv6)], timeout=30, **P10),
    Contract("Transducer::minimize", TU, None, requires=lambda c: wf_nc(c.this0), assumes=cap, ensures=min_ens, exits="any", modifies=["this"], axioms=lambda c: order(c), **P10),
    Lemma("determinize keeps the weighted language (induction step)", language_step, **P10),
]
