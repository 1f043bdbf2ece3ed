"""Transducer: queries, copying, and rewriting of labels"""
import z3
from engine import Contract, Loop, Lemma
from trans_lib import *
import alphabet_c as al

TU = "transducer.cc"
PII = T("pair", "", [I(32, True), I(32, True)])
MM = "std::multimap<int, std::pair<int, double>>"


def rest(o, n):
    """everything but the arcs"""
    return [("states, start and finals untouched", z3.And(same_states(o, n), o.transitions.sz == n.transitions.sz, o.initial == n.initial, same(o.finals, n.finals)))]


def bag(c, q, f):
    """every state's arcs: f(q, arc) -> wanted multiplicity"""
    n = c.this
    return all_([I_, asort(c.S)], lambda q, b: imp(is_state(n, q), cnt(n, q, b) == f(q, b)), lambda q, b: cnt(n, q, b))


# ---------------------------------------------------------------- deleteSymbols
def del_want(o, syms):
    return lambda q, b: z3.If(syms.has(atag(o.S, b)), 0, cnt(o, q, b))


def del_ens(c):
    return rest(c.this0, c.this) + [("exactly the arcs with the given labels are gone", bag(c, None, del_want(c.this0, c.arg0(0))))]


def del_inv0(L):
    o, n = L.this0, L.this
    w = del_want(o, L.arg0(0))
    return rest(o, n) + [("states seen are done, others untouched", bag(L, None, lambda q, b: z3.If(sel(L.seen, q), w(q, b), cnt(o, q, b))))]


def del_inv1(L):
    o, n, e = L.this0, L.this, L.this_entry
    cur = L.outer_key(0)
    return rest(o, n) + [("labels tried so far are gone here", all_(asort(L.S), lambda b: cnt(n, cur, b) == z3.If(sel(L.seen, atag(L.S, b)), 0, cnt(o, cur, b)), lambda b: cnt(n, cur, b))),
                         ("other states as before", all_([I_, asort(L.S)], lambda q, b: imp(q != cur, cnt(n, q, b) == cnt(e, q, b)), lambda q, b: cnt(n, q, b)))]


# ---------------------------------------------------------------- invert
def swp(S, p):
    d = S.dt(PII)
    return d.mk(d.get(p, "second"), d.get(p, "first"))


def relab(S, a, tag):
    d = S.dt(ARC)
    return d.mk(raw(tag), d.get(a, "second"))


def labels_ok(c, t, a):
    S = t.S
    return [("labels are codes of the alphabet", all_([I_, asort(S)], lambda q, b: imp(z3.And(is_state(t, q), cnt(t, q, b) > 0), z3.And(0 <= atag(S, b), atag(S, b) < a.spairinv.len)), lambda q, b: cnt(t, q, b)))]


def mirror(S, a, b):
    """(defined, arc): the arc that becomes b when its label is swapped, under alphabet a"""
    p = raw(a.spairinv[atag(S, b)])
    s = swp(S, p)
    ok = z3.And(0 <= atag(S, b), atag(S, b) < a.spairinv.len, a.spair.has(s))
    return ok, relab(S, b, a.spair[s])


def inv_want(o, a, base):
    def f(q, b):
        ok, m = mirror(o.S, a, b)
        return z3.If(ok, base(q, m), 0)
    return f


def inv_req(c):
    return wf_t(c.this0, 0) + al.inv(c.arg0(0)) + labels_ok(c, c.this0, c.arg0(0))


def inv_ens(c):
    o, n, a0, a = c.this0, c.this, c.arg0(0), c.arg(0)
    w = inv_want(o, a, lambda q, m: cnt(o, q, m))
    return rest(o, n) + al.inv(a) + al.pairs_kept(a0, a) + al.syms_same(a0, a) + [
        ("every arc has its sides swapped, nothing else", bag(c, None, w)),
        ("every swapped label has a code", all_([I_, asort(c.S)], lambda q, b: imp(z3.And(is_state(o, q), cnt(o, q, b) > 0), a.spair.has(swp(c.S, raw(a.spairinv[atag(c.S, b)])))), lambda q, b: cnt(o, q, b)))]


def has_swapped(S, a, bagcnt, pat):
    return all_(asort(S), lambda b: imp(bagcnt(b) > 0, a.spair.has(swp(S, raw(a.spairinv[atag(S, b)])))), pat)


def inv_inv0(L):
    S = L.S
    o, n, a0, a = L.this0, L.this, L.arg0(0), L.arg(0)
    tmp = L.v("tmp_trans", "std::map<int, %s>" % MM)
    w = inv_want(o, a, lambda q, m: cnt(o, q, m))
    return [("nothing changed yet", unchanged(o, n))] + al.inv(a) + al.pairs_kept(a0, a) + al.syms_same(a0, a) + [
        ("exactly the states seen are there", z3.And(tmp.sz == L.nseen, all_(I_, lambda q: tmp.has(q) == sel(L.seen, q), lambda q: tmp.has(q)))),
        ("their arcs are swapped", all_([I_, asort(S)], lambda q, b: imp(tmp.has(q), sel(tmp[q].cnt, b) == w(q, b)), lambda q, b: sel(tmp[q].cnt, b))),
        ("their swapped labels have codes", all_([I_, asort(S)], lambda q, b: imp(z3.And(sel(L.seen, q), cnt(o, q, b) > 0), a.spair.has(swp(S, raw(a.spairinv[atag(S, b)])))), lambda q, b: cnt(o, q, b)))]


def inv_inv1(L):
    S = L.S
    o, n, a0, a = L.this0, L.this, L.arg0(0), L.arg(0)
    ts = L.v("tmp_state", MM)
    w = inv_want(o, a, lambda q, m: sel(L.seen, m))
    tmp = L.v("tmp_trans", "std::map<int, %s>" % MM)
    return [("nothing changed yet", unchanged(o, n))] + al.inv(a) + al.pairs_kept(a0, a) + al.pairs_kept(L.arg_entry(0), a) + al.syms_same(a0, a) + [
        ("arcs seen so far, swapped", all_(asort(S), lambda b: sel(ts.cnt, b) == w(None, b), lambda b: sel(ts.cnt, b))),
        ("their swapped labels have codes", has_swapped(S, a, lambda b: sel(L.seen, b), lambda b: sel(L.seen, b)))]


# ---------------------------------------------------------------- epsilonizeSymbols
def EPS(S):
    """ESUM(labels, state, target): arcs of the state with one of these labels and that target and weight"""
    return z3.Function("esum", z3.ArraySort(I_, z3.BoolSort()), I_, S.sort(PD), I_)


def esec(S, b):
    return S.dt(ARC).get(b, "second")


def eps_ax(c):
    S, o = c.S, c.this0
    E = EPS(S)
    none = z3.K(I_, z3.BoolVal(False))
    A = z3.ArraySort(I_, z3.BoolSort())
    mk = S.dt(ARC).mk
    return [("no labels", all_([I_, S.sort(PD)], lambda q, x: E(none, q, x) == 0, lambda q, x: E(none, q, x))),
            ("one more label", all_([A, I_, I_, S.sort(PD)], lambda s, k, q, x: imp(z3.Not(sel(s, k)), E(z3.Store(s, k, True), q, x) == E(s, q, x) + cnt(o, q, mk(k, x))), lambda s, k, q, x: E(z3.Store(s, k, True), q, x)))]


def eps_want(o, mem, hassym):
    S = o.S
    E = EPS(S)
    return lambda q, b: z3.If(atag(S, b) == 0, cnt(o, q, b) + E(mem, q, esec(S, b)), z3.If(hassym(atag(S, b)), 0, cnt(o, q, b)))


def memof(s):
    return s.mem


def eps_ens(c):
    s = c.arg0(0)
    return rest(c.this0, c.this) + [("exactly the arcs with the given labels become epsilon arcs", bag(c, None, eps_want(c.this0, s.mem, s.has)))]


def eps_inv0(L):
    o, n = L.this0, L.this
    s = L.arg0(0)
    w = eps_want(o, s.mem, s.has)
    return rest(o, n) + [("states seen are done, others untouched", bag(L, None, lambda q, b: z3.If(sel(L.seen, q), w(q, b), cnt(o, q, b))))]


def eps_inv1(L):
    o, n, e = L.this0, L.this, L.this_entry
    cur = L.outer_key(0)
    w = eps_want(o, L.seen, lambda t: sel(L.seen, t))
    return rest(o, n) + [("labels tried so far are epsilon here", all_(asort(L.S), lambda b: cnt(n, cur, b) == w(cur, b), lambda b: cnt(n, cur, b))),
                         ("other states as before", all_([I_, asort(L.S)], lambda q, b: imp(q != cur, cnt(n, q, b) == cnt(e, q, b)), lambda q, b: cnt(n, q, b)))]


def eps_inv2(L):
    o, n, e = L.this0, L.this, L.this_entry
    S = L.S
    cur, sym = L.outer_key(0), L.outer_key(1)
    mk = S.dt(ARC).mk
    return rest(o, n) + [("arcs passed so far are copied", all_(asort(S), lambda b: cnt(n, cur, b) == cnt(e, cur, b) + z3.If(atag(S, b) == 0, sel(L.seen, mk(sym, esec(S, b))), 0), lambda b: cnt(n, cur, b))),
                         ("other states as before", all_([I_, asort(S)], lambda q, b: imp(q != cur, cnt(n, q, b) == cnt(e, q, b)), lambda q, b: cnt(n, q, b)))]


# ---------------------------------------------------------------- updateAlphabet
SI, MI = "std::set<int>", "std::map<int, int>"


def decode(a, x):
    return a.spairinv[x]


def ua_req(c):
    t, a, b, hp = c.this0, c.arg0(0), c.arg0(1), c.arg0(2)
    S = c.S
    n = a.slexicinv.len
    return wf_t(t, 0) + al.inv(a) + al.inv(b) + [
        ("labels are codes of the old alphabet", all_([I_, asort(S)], lambda q, x: imp(z3.And(is_state(t, q), cnt(t, q, x) > 0), z3.If(hp, z3.And(0 <= atag(S, x), atag(S, x) < a.spairinv.len), atag(S, x) >= -n)), lambda q, x: cnt(t, q, x))),
        ("pairs are made of symbols of the old alphabet", all_(I_, lambda i: imp(z3.And(0 <= i, i < a.spairinv.len), decode(a, i).first >= -n, decode(a, i).second >= -n), lambda i: raw(decode(a, i)))),
        ("capacity", n < al.MAXI)]


def ua_syms(a, sy, upto=None):
    return ("symbols collected belong to the old alphabet", all_(I_, lambda x: imp(sy.has(x), x < 0, x >= -a.slexicinv.len), lambda x: sy.has(x)))


def ua_pairs(a, sp):
    return ("pairs collected belong to the old alphabet", all_(I_, lambda x: imp(sp.has(x), 0 <= x, x < a.spairinv.len), lambda x: sp.has(x)))


def ua_sides(a, sp, sy):
    return ("the tags of the pairs collected are collected", all_(I_, lambda x: imp(sp.has(x), z3.Or(decode(a, x).first >= 0, sy.has(decode(a, x).first)), z3.Or(decode(a, x).second >= 0, sy.has(decode(a, x).second))), lambda x: sp.has(x)))


def ua_in(hp, tag, sp, sy):
    return z3.If(hp, sp.has(tag), z3.Or(tag >= 0, sy.has(tag)))


def ua_locals(L):
    return L.v("symbol_pairs", None), L.v("symbols", None)


def ua_inv0(L):
    S, o = L.S, L.this0
    sp, sy = ua_locals(L)
    a, hp = L.arg0(0), L.arg0(2)
    return [("nothing changed", unchanged(o, L.this)), ua_syms(a, sy), ua_pairs(a, sp), ua_sides(a, sp, sy),
            ("labels of the states seen are collected", all_([I_, asort(S)], lambda q, b: imp(z3.And(sel(L.seen, q), cnt(o, q, b) > 0), ua_in(hp, atag(S, b), sp, sy)), lambda q, b: cnt(o, q, b)))]


def ua_inv1(L):
    S, o = L.S, L.this0
    sp, sy = ua_locals(L)
    sp0, sy0 = L.v0("symbol_pairs"), L.v0("symbols")
    a, hp = L.arg0(0), L.arg0(2)
    return [("nothing changed", unchanged(o, L.this)), ua_syms(a, sy), ua_pairs(a, sp), ua_sides(a, sp, sy),
            ("nothing collected is lost", all_(I_, lambda x: z3.And(imp(sp0.has(x), sp.has(x)), imp(sy0.has(x), sy.has(x))), lambda x: [sp0.has(x), sy0.has(x)])),
            ("labels of the arcs seen are collected", all_(asort(S), lambda b: imp(sel(L.seen, b) > 0, ua_in(hp, atag(S, b), sp, sy)), lambda b: sel(L.seen, b)))]


def ua_text(a, b, x):
    """identifier in b of the symbol with identifier x in a"""
    return b.slexic[raw(a.slexicinv[-x - 1])]


def ua_sym_ok(a, b, dom, su):
    return [("symbols done", all_(I_, lambda x: imp(dom(x), su.has(x), b.slexic.has(raw(a.slexicinv[-x - 1])), su[x] == ua_text(a, b, x)), lambda x: [su.has(x), sel(a.slexicinv.arr, -x - 1)])),
            ("no others", all_(I_, lambda x: imp(su.has(x), dom(x)), lambda x: su.has(x)))]


def ua_inv2(L):
    sp, sy = ua_locals(L)
    su = L.v("symbol_update", None)
    a, b = L.arg0(0), L.arg(1)
    return al.inv(b) + al.syms_kept(L.arg0(1), b) + al.pairs_same(L.arg0(1), b) + ua_sym_ok(a, b, lambda x: sel(L.seen, x), su)


def ua_tr(a, b, x):
    return z3.If(x < 0, ua_text(a, b, x), x)


def ua_newpair(S, a, b, x):
    return S.dt(PII).mk(ua_tr(a, b, decode(a, x).first), ua_tr(a, b, decode(a, x).second))


def ua_pair_ok(S, a, b, dom, pu):
    return [("pairs done", all_(I_, lambda x: imp(dom(x), pu.has(x), b.spair.has(ua_newpair(S, a, b, x)), pu[x] == b.spair[ua_newpair(S, a, b, x)]), lambda x: [pu.has(x)])),
            ("no other pairs", all_(I_, lambda x: imp(pu.has(x), dom(x)), lambda x: pu.has(x)))]


def ua_inv3(L):
    sp, sy = ua_locals(L)
    su, pu = L.v("symbol_update", None), L.v("pair_update", None)
    a, b = L.arg0(0), L.arg(1)
    return al.inv(b) + al.syms_kept(L.arg0(1), b) + al.pairs_kept(L.arg0(1), b) + ua_sym_ok(a, b, sy.has, su) + ua_pair_ok(L.S, a, b, lambda x: sel(L.seen, x), pu)


def upd(su, x):
    return z3.If(su.has(x), su[x], x)


def ua_inj(su, hp):
    ok = lambda x: z3.Or(su.has(x), z3.And(z3.Not(hp), x >= 0))
    return ("distinct labels stay distinct", all_([I_, I_], lambda x, y: imp(z3.And(ok(x), ok(y), upd(su, x) == upd(su, y)), x == y), lambda x, y: (su.has(x), su.has(y))))


def ua_rel(S, o, nb, ob, su, q):
    """bag nb is bag ob with every label updated"""
    return [("arcs keep their number", all_(asort(S), lambda a: imp(ob(a) > 0, nb(relab(S, a, upd(su, atag(S, a)))) == ob(a)), lambda a: ob(a)))]


def ua_arcs(L, su):
    S, o = L.S, L.this0
    hp = L.arg0(2)
    return [("nothing changed", unchanged(o, L.this)), ua_inj(su, hp),
            ("every label is known", all_([I_, asort(S)], lambda q, b: imp(z3.And(is_state(o, q), cnt(o, q, b) > 0), z3.Or(su.has(atag(S, b)), z3.And(z3.Not(hp), atag(S, b) >= 0))), lambda q, b: cnt(o, q, b)))]


def ua_state(S, o, q, n, su):
    nc = lambda b: sel(n.cnt, b)
    return z3.And(n.sz == o.transitions[q].sz,
                  all_(asort(S), lambda a: imp(cnt(o, q, a) > 0, nc(relab(S, a, upd(su, atag(S, a)))) == cnt(o, q, a)), lambda a: cnt(o, q, a)),
                  all_(asort(S), lambda b: imp(nc(b) > 0, some(asort(S), lambda a: z3.And(cnt(o, q, a) > 0, b == relab(S, a, upd(su, atag(S, a)))))), lambda b: nc(b)))


def ua_inv4(L):
    S, o = L.S, L.this0
    su = L.v("symbol_update", None)
    nt = L.v("new_trans", "std::map<int, %s>" % MM)
    return ua_arcs(L, su) + [
        ("exactly the states seen are there", z3.And(nt.sz == L.nseen, all_(I_, lambda q: nt.has(q) == sel(L.seen, q), lambda q: nt.has(q)))),
        ("their labels are updated", all_(I_, lambda q: imp(nt.has(q), ua_state(S, o, q, nt[q], su)), lambda q: [nt.has(q)])),
        ("table unchanged", same(su, L.v0("symbol_update")))]


def ua_inv5(L):
    S, o = L.S, L.this0
    su = L.v("symbol_update", None)
    cur = L.outer_key(4)
    nt, nt0 = L.v("new_trans", "std::map<int, %s>" % MM), L.v0("new_trans", "std::map<int, %s>" % MM)
    nc = lambda b: sel(nt[cur].cnt, b)
    return ua_arcs(L, su) + [
        ("states untouched", z3.And(nt.sz == nt0.sz, all_(I_, lambda q: nt.has(q) == nt0.has(q), lambda q: nt.has(q)))),
        ("other states as before", all_(I_, lambda q: imp(q != cur, same(nt[q], nt0[q])), lambda q: raw(nt[q]))),
        ("one arc per arc seen", nt[cur].sz == L.nseen),
        ("arcs seen are there", all_(asort(S), lambda a: imp(sel(L.seen, a) > 0, nc(relab(S, a, upd(su, atag(S, a)))) == sel(L.seen, a)), lambda a: sel(L.seen, a))),
        ("no others are", all_(asort(S), lambda b: imp(nc(b) != 0, nc(b) > 0, some(asort(S), lambda a: z3.And(sel(L.seen, a) > 0, b == relab(S, a, upd(su, atag(S, a)))))), lambda b: nc(b))),
        ("table unchanged", same(su, L.v0("symbol_update")))]


def ua_label(S, a, b, hp, x):
    """the label of b with the text of label x of a"""
    return z3.If(hp, b.spair[ua_newpair(S, a, b, x)], ua_tr(a, b, x))


def ua_known(S, a, b, hp, x):
    tk = lambda y: z3.Or(y >= 0, b.slexic.has(raw(a.slexicinv[-y - 1])))
    return z3.If(hp, z3.And(tk(decode(a, x).first), tk(decode(a, x).second), b.spair.has(ua_newpair(S, a, b, x))), tk(x))


def ua_ens(c):
    S, o, n = c.S, c.this0, c.this
    a, b, hp = c.arg0(0), c.arg(1), c.arg0(2)
    return rest(o, n) + al.inv(b) + al.syms_kept(c.arg0(1), b) + al.pairs_kept(c.arg0(1), b) + [
        ("every label's text is in the new alphabet", all_([I_, asort(S)], lambda q, x: imp(z3.And(is_state(o, q), cnt(o, q, x) > 0), ua_known(S, a, b, hp, atag(S, x))), lambda q, x: cnt(o, q, x))),
        ("every arc is there with the label of the same text", all_([I_, asort(S)], lambda q, x: imp(z3.And(is_state(o, q), cnt(o, q, x) > 0), cnt(n, q, relab(S, x, ua_label(S, a, b, hp, atag(S, x)))) == cnt(o, q, x)), lambda q, x: cnt(o, q, x))),
        ("no other arc is", all_([I_, asort(S)], lambda q, y: imp(z3.And(is_state(o, q), cnt(n, q, y) > 0), some(asort(S), lambda x: z3.And(cnt(o, q, x) > 0, y == relab(S, x, ua_label(S, a, b, hp, atag(S, x)))))), lambda q, y: cnt(n, q, y))),
        ("as many arcs per state", all_(I_, lambda q: imp(is_state(o, q), n.transitions[q].sz == o.transitions[q].sz), lambda q: raw(n.transitions[q])))]


# ---------------------------------------------------------------- applyACX
VA = "std::vector<std::pair<int, std::pair<int, double>>>"


def NV(S):
    """NV(list, k, arc): how often the arc stands among the first k entries"""
    return z3.Function("nv", z3.ArraySort(I_, asort(S)), I_, asort(S), I_)


def MA(S):
    """MA(arcs, s, r, target): arcs of the bag with an equivalent of s on the left, r on the right and that target"""
    return z3.Function("ma", z3.ArraySort(asort(S), I_), I_, I_, S.sort(PD), I_)


def acx_hit(c, x, s, r, sec):
    S, a, t = c.S, c.arg0(0), c.arg0(1)
    p = decode(a, atag(S, x))
    return z3.And(esec(S, x) == sec, p.second == r, t.has(p.first), t[p.first].has(s))


def acx_ax(c):
    S = c.S
    N, M = NV(S), MA(S)
    VAr, Bag = z3.ArraySort(I_, asort(S)), z3.ArraySort(asort(S), I_)
    A, P = asort(S), S.sort(PD)
    none = z3.K(asort(S), z3.IntVal(0))
    return [("empty list", all_([VAr, A], lambda v, b: N(v, 0, b) == 0, lambda v, b: N(v, 0, b))),
            ("one more entry", all_([VAr, I_, A], lambda v, k, b: imp(k >= 0, N(v, k + 1, b) == N(v, k, b) + z3.If(sel(v, k) == b, 1, 0)), lambda v, k, b: N(v, k + 1, b))),
            ("an appended entry", all_([VAr, I_, A, A], lambda v, k, x, b: imp(k >= 0, N(z3.Store(v, k, x), k + 1, b) == N(v, k, b) + z3.If(x == b, 1, 0)), lambda v, k, x, b: N(z3.Store(v, k, x), k + 1, b))),
            ("empty bag", all_([I_, I_, P], lambda s, r, x: M(none, s, r, x) == 0, lambda s, r, x: M(none, s, r, x))),
            ("one more arc", all_([Bag, A, I_, I_, P], lambda g, x, s, r, y: M(z3.Store(g, x, sel(g, x) + 1), s, r, y) == M(g, s, r, y) + z3.If(acx_hit(c, x, s, r, y), 1, 0), lambda g, x, s, r, y: M(z3.Store(g, x, sel(g, x) + 1), s, r, y)))]


def acx_valid(a, x):
    return z3.And(0 <= x, x < a.spairinv.len)


def acx_m(S, a, bag, b, extra=lambda s, r, sec: 0):
    """copies of arc b that the arcs of the bag give, labels by alphabet a"""
    p = decode(a, atag(S, b))
    return z3.If(acx_valid(a, atag(S, b)), MA(S)(bag, p.first, p.second, esec(S, b)) + extra(p.first, p.second, esec(S, b)), 0)


def acx_known(S, a, bag):
    PI = S.dt(PII).mk
    return ("every pair needed has a code", all_([I_, I_, S.sort(PD)], lambda s, r, x: imp(MA(S)(bag, s, r, x) != 0, MA(S)(bag, s, r, x) > 0, a.spair.has(PI(s, r))), lambda s, r, x: MA(S)(bag, s, r, x)))


def acx_ens(c):
    S, o, n, a = c.S, c.this0, c.this, c.arg(0)
    return rest(o, n) + al.inv(a) + al.syms_same(c.arg0(0), a) + al.pairs_kept(c.arg0(0), a) + [
        ("one more arc per arc and equivalent of its input, nothing else", bag(c, None, lambda q, b: cnt(o, q, b) + acx_m(S, a, o.transitions[q].cnt, b))),
        ("every pair needed has a code", all_(I_, lambda q: imp(is_state(o, q), acx_known(S, a, o.transitions[q].cnt)[1]), lambda q: raw(o.transitions[q])))]


def acx_inv0(L):
    S, o, n, a = L.S, L.this0, L.this, L.arg(0)
    return rest(o, n) + al.inv(a) + al.syms_same(L.arg0(0), a) + al.pairs_kept(L.arg0(0), a) + [
        ("states seen are done, others untouched", bag(L, None, lambda q, b: cnt(o, q, b) + z3.If(sel(L.seen, q), acx_m(S, a, o.transitions[q].cnt, b), 0))),
        ("every pair needed has a code", all_(I_, lambda q: imp(sel(L.seen, q), acx_known(S, a, o.transitions[q].cnt)[1]), lambda q: sel(L.seen, q)))]


def acx_alpha(L):
    a = L.arg(0)
    return al.inv(a) + al.syms_same(L.arg0(0), a) + al.pairs_kept(L.arg0(0), a) + al.pairs_kept(L.arg_entry(0), a)


def acx_inv1(L):
    S, a = L.S, L.arg(0)
    v = L.v("to_insert", VA)
    return acx_alpha(L) + [("nothing changed", unchanged(L.this_entry, L.this)),
                           ("arcs collected", all_(asort(S), lambda b: NV(S)(v.arr, v.len, b) == acx_m(S, a, L.seen, b), lambda b: NV(S)(v.arr, v.len, b))),
                           ("length", v.len >= 0), acx_known(S, a, L.seen)]


def acx_inv2(L):
    S, a = L.S, L.arg(0)
    v = L.v("to_insert", VA)
    cur, bag1 = L.outer_key(1), L.outer_seen(1)
    p = decode(L.arg0(0), atag(S, cur))
    PI = S.dt(PII).mk
    ex1 = lambda s, r, x: z3.If(z3.And(sel(L.seen, s), r == p.second, x == esec(S, cur)), 1, 0)
    return acx_alpha(L) + [("nothing changed", unchanged(L.this_entry, L.this)),
                           ("arcs collected", all_(asort(S), lambda b: NV(S)(v.arr, v.len, b) == acx_m(S, a, bag1, b, ex1), lambda b: NV(S)(v.arr, v.len, b))),
                           ("length", v.len >= 0), acx_known(S, a, bag1),
                           ("equivalents so far have codes", all_(I_, lambda s: imp(sel(L.seen, s), a.spair.has(PI(s, p.second))), lambda s: sel(L.seen, s)))]


def acx_inv3(L):
    S, o, n, e = L.S, L.this0, L.this, L.this_entry
    v = L.v("to_insert", VA)
    cur = L.outer_key(0)
    return rest(o, n) + [("entries so far are inserted", all_(asort(S), lambda b: cnt(n, cur, b) == cnt(e, cur, b) + NV(S)(v.arr, L.idx, b), lambda b: cnt(n, cur, b))),
                         ("other states as before", all_([I_, asort(S)], lambda q, b: imp(q != cur, cnt(n, q, b) == cnt(e, q, b)), lambda q, b: cnt(n, q, b)))]


# ---------------------------------------------------------------- queries and copies
def any_weight(t):
    S = t.S
    return z3.Or(some(I_, lambda q: z3.And(t.finals.has(q), t.finals[q] != w0(S))), some([I_, asort(S)], lambda q, b: z3.And(is_state(t, q), cnt(t, q, b) > 0, awt(S, b) != w0(S))))


def wt_inv1(L):
    t = L.this
    return [("unchanged so far", all_(I_, lambda q: imp(sel(L.seen, q), t.finals[q] == w0(L.S)), lambda q: sel(L.seen, q)))]


def wt_fin(L):
    t = L.this
    return ("no weighted final state", all_(I_, lambda q: imp(t.finals.has(q), t.finals[q] == w0(L.S)), lambda q: t.finals.has(q)))


def wt_inv2(L):
    t, S = L.this, L.S
    return [wt_fin(L), ("no weighted arc in the states seen", all_([I_, asort(S)], lambda q, b: imp(z3.And(sel(L.seen, q), cnt(t, q, b) > 0), awt(S, b) == w0(S)), lambda q, b: cnt(t, q, b)))]


def wt_inv3(L):
    S = L.S
    return [("no weighted arc among those seen", all_(asort(S), lambda b: imp(sel(L.seen, b) > 0, awt(S, b) == w0(S)), lambda b: sel(L.seen, b)))]


def TOT(S):
    """TOT(states): arcs leaving these states"""
    return z3.Function("tot", z3.ArraySort(I_, z3.BoolSort()), I_)


def nt_ax(c):
    F, t = TOT(c.S), c.this0
    A = z3.ArraySort(I_, z3.BoolSort())
    return [("no states", F(z3.K(I_, z3.BoolVal(False))) == 0),
            ("one more state", all_([A, I_], lambda s, k: imp(z3.Not(sel(s, k)), F(z3.Store(s, k, True)) == F(s) + t.transitions[k].sz), lambda s, k: F(z3.Store(s, k, True)))),
            ("sums of numbers of arcs grow", all_(A, lambda s: imp(all_(I_, lambda k: imp(sel(s, k), is_state(t, k)), lambda k: sel(s, k)), F(s) >= 0, F(s) <= F(t.transitions.dom)), lambda s: F(s))),
            ("same states", all_(A, lambda s: imp(all_(I_, lambda k: sel(s, k) == is_state(t, k), lambda k: sel(s, k)), F(s) == F(t.transitions.dom)), lambda s: F(s)))]


def clear_ens(c):
    t = c.this
    return [("no final states, one state without arcs, which is initial", z3.And(t.finals.sz == 0, all_(I_, lambda q: z3.Not(t.finals.has(q)), lambda q: t.finals.has(q)), t.transitions.sz == 1, t.initial == 0, dense(t), empty_at(t, 0)))]


def copy_ens(c):
    t, s = c.this, c.arg0(0)
    return [("equal to the original", z3.And(t.initial == s.initial, same(t.finals, s.finals), same(t.transitions, s.transitions)))]


def uw_req(c):
    return it_req_at(c, c.this0.initial)


def it_req_at(c, src):
    a, t = c.this0, c.arg0(1)
    return wf_t(a, 0) + wf_t(t) + [("result stays below 2^31 states", a.transitions.sz + t.transitions.sz < IMAX - 4)]


def uw_ens(c):
    o, n = c.this0, c.this
    t0, t = c.arg0(1), c.arg(1)
    S, eps = c.S, c.arg0(2)
    N, M = o.transitions.sz, t.transitions.sz
    from transducer_c import jf_rel
    return jf_rel(t0, t, eps) + [
        ("one copy of every state is added", z3.And(n.transitions.sz == N + M, dense(n))),
        ("the copy has exactly the arcs of the added transducer", all_([I_, asort(S)], lambda q, b: imp(z3.And(N <= q, q < N + M), cnt(n, q, b) == cnt(t, q - N, shift(S, b, -N))), lambda q, b: cnt(n, q, b))),
        ("the initial state is linked to the initial state of the copy", plus(o, n, o.initial, [(arc(S, eps, t.initial + N, w0(S)), True)])),
        ("arcs of other states untouched", all_([I_, asort(S)], lambda q, b: imp(z3.And(is_state(o, q), q != o.initial), cnt(n, q, b) == cnt(o, q, b)), lambda q, b: cnt(n, q, b))),
        ("initial state untouched", o.initial == n.initial),
        ("final states: the old ones with their weights, and those of the copy with theirs", all_(I_, lambda q: z3.And(n.finals.has(q) == z3.Or(o.finals.has(q), z3.And(q >= N, t.finals.has(q - N))),
            imp(o.finals.has(q), n.finals[q] == o.finals[q]), imp(z3.And(q >= N, t.finals.has(q - N)), n.finals[q] == t.finals[q - N])), lambda q: n.finals.has(q)))]


def ad_rel(S, o, n, lb, eps, done):
    """done(q): loops are in place at q; lb(k): k is a loop label"""
    return all_([I_, asort(S)], lambda q, b: imp(is_state(o, q), cnt(n, q, b) == cnt(o, q, b) + z3.If(z3.And(done(q), atgt(S, b) == q, lb(atag(S, b)), atag(S, b) != eps, awt(S, b) == o.finals[q], no_link(o, q, atag(S, b), q)), 1, 0)), lambda q, b: cnt(n, q, b))


def ad_ens(c):
    o, r, s, eps = c.this0, c.ret, c.arg0(0), c.arg0(1)
    return rest(o, r) + [("every final state gets a loop for every label that has none there, nothing else", ad_rel(c.S, o, r, s.has, eps, o.finals.has))]


def ad_inv0(L):
    o, s, eps = L.this0, L.arg0(0), L.arg0(1)
    p = L.v("prefix_transducer")
    return rest(o, p) + [("final states seen have their loops", ad_rel(L.S, o, p, s.has, eps, lambda q: z3.And(o.finals.has(q), sel(L.seen, q))))]


def ad_inv1(L):
    S = L.S
    o, s, eps = L.this0, L.arg0(0), L.arg0(1)
    p, e = L.v("prefix_transducer"), L.v0("prefix_transducer")
    cur = L.outer_key(0)
    return rest(o, p) + [("labels tried so far have their loop here", all_(asort(S), lambda b: cnt(p, cur, b) == cnt(o, cur, b) + z3.If(z3.And(atgt(S, b) == cur, sel(L.seen, atag(S, b)), atag(S, b) != eps, awt(S, b) == o.finals[cur], no_link(o, cur, atag(S, b), cur)), 1, 0), lambda b: cnt(p, cur, b))),
                         ("other states as before", all_([I_, asort(S)], lambda q, b: imp(z3.And(is_state(o, q), q != cur), cnt(p, q, b) == cnt(e, q, b)), lambda q, b: cnt(p, q, b)))]


P11 = dict(props=["T11"])
P8 = dict(props=["T08"])
PX = dict(props=["T08", "X24"])
CONTRACTS = [
    Contract("Transducer::deleteSymbols", TU, None, requires=lambda c: wf_t(c.this0, 0), ensures=del_ens, modifies=["this.transitions"], loops=[Loop(del_inv0), Loop(del_inv1)], **P11),
    Contract("Transducer::epsilonizeSymbols", TU, None, requires=lambda c: wf_t(c.this0, 0) + [("epsilon is not among the labels", z3.Not(c.arg0(0).has(0)))], axioms=eps_ax, ensures=eps_ens, modifies=["this.transitions"],
             loops=[Loop(eps_inv0), Loop(eps_inv1), Loop(eps_inv2)], **P11),
    Contract("Transducer::updateAlphabet", [TU, "alphabet.cc"], None, requires=ua_req, ensures=ua_ens, modifies=["this.transitions", "arg1"],
             loops=[Loop(ua_inv0), Loop(ua_inv1), Loop(ua_inv2), Loop(ua_inv3), Loop(ua_inv4), Loop(ua_inv5)], **P11),
    Contract("Transducer::applyACX", [TU, "alphabet.cc"], None, requires=inv_req, ensures=acx_ens, axioms=acx_ax, modifies=["this.transitions", "arg0"],
             loops=[Loop(acx_inv0), Loop(acx_inv1), Loop(acx_inv2), Loop(acx_inv3)], **P11),
    Contract("Transducer::invert", [TU, "alphabet.cc"], None, requires=inv_req, ensures=inv_ens, modifies=["this.transitions", "arg0"], loops=[Loop(inv_inv0), Loop(inv_inv1)], **P11),
    Contract("Transducer::weighted", TU, None, requires=lambda c: [("multiplicities are not negative", bags_ok(c.this0))], ensures=lambda c: [("true iff a final state or an arc has a weight", c.ret == any_weight(c.this0))], loops=[Loop(wt_inv1), Loop(wt_inv2), Loop(wt_inv3)], props=["T08", "T07"]),
    Contract("Transducer::isEmpty", TU, "bool () const", requires=lambda c: wf_t(c.this0, 0), ensures=lambda c: [("one state, no final state", c.ret == z3.And(c.this0.finals.sz == 0, c.this0.transitions.sz == 1))], **P8),
    Contract("Transducer::isEmpty", TU, "bool (const int) const", requires=lambda c: wf_t(c.this0, 0), ensures=lambda c: [("no arc leaves the state", c.ret == z3.Not(z3.And(is_state(c.this0, c.arg0(0)), c.this0.transitions[c.arg0(0)].sz > 0)))], **P8),
    Contract("Transducer::hasNoFinals", TU, None, ensures=lambda c: [("no final state", c.ret == (c.this0.finals.sz == 0))], **P8),
    Contract("Transducer::size", TU, None, requires=lambda c: wf_t(c.this0, 0), ensures=lambda c: [("number of states", c.ret == c.this0.transitions.sz)], **P8),
    Contract("Transducer::getInitial", TU, None, ensures=lambda c: [("the initial state", c.ret == c.this0.initial)], **P8),
    Contract("Transducer::getFinals", TU, None, ensures=lambda c: [("the final states with their weights", same(c.ret, c.this0.finals))], **P8),
    Contract("Transducer::numberOfTransitions", TU, None, requires=lambda c: wf_t(c.this0, 0), assumes=lambda c: [("fewer than 2^31 arcs", TOT(c.S)(c.this0.transitions.dom) < 2**31)], axioms=nt_ax,
             ensures=lambda c: [("arcs of all states", c.ret == TOT(c.S)(c.this0.transitions.dom))], loops=[Loop(lambda L: [("arcs of the states seen", L.v("counter", "int") == TOT(L.S)(L.seen))])], **P8),
    Contract("Transducer::Transducer", TU, "void ()", ensures=clear_ens, modifies=["this"], **P8),
    Contract("Transducer::clear", TU, None, ensures=clear_ens, modifies=["this"], **P8),
    Contract("Transducer::copy", TU, None, ensures=copy_ens, modifies=["this"], **P8),
    Contract("Transducer::Transducer", TU, "void (const Transducer &)", ensures=copy_ens, modifies=["this"], **P8),
    Contract("Transducer::operator=", TU, None, ensures=copy_ens, modifies=["this"], **P8),
    Contract("Transducer::unionWith", TU, None, requires=uw_req, ensures=uw_ens, exits=lambda c: c.arg0(1).finals.sz == 0, modifies=["this", "arg1"], **PX),
    Contract("Transducer::appendDotStar", TU, None, requires=lambda c: wf_t(c.this0, 0), ensures=ad_ens, loops=[Loop(ad_inv0), Loop(ad_inv1)], **PX),
]
