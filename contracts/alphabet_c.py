"""Alphabet: symbol <-> identifier and pair <-> code are stable bijections"""
import z3
from engine import Contract, Loop, Lemma
from values import And, sel, raw, Unsupported
from speclib import *

TU = "alphabet.cc"
MAXI = 2**31 - 2


def bij_sym(a):
    n = a.slexicinv.len
    ks = a.S.sort(USTR)
    return [("as many symbols as identifiers", a.slexic.sz == n),
            ("identifier of symbol i is -(i+1)", all_(I_, lambda i: imp(z3.And(0 <= i, i < n), a.slexic.has(a.slexicinv[i]), a.slexic[a.slexicinv[i]] == -(i + 1)),
                                                      lambda i: sel(a.slexicinv.arr, i))),
            ("every symbol is listed under its identifier", all_(ks, lambda s: imp(a.slexic.has(s), a.slexic[s] <= -1, a.slexic[s] >= -n, same(a.slexicinv[-a.slexic[s] - 1], s)),
                                                                 lambda s: [a.slexic.has(s)]))]


def bij_pair(a, zero=True):
    n = a.spairinv.len
    ps = a.S.sort(T("pair", "", [I(32, True), I(32, True)]))
    r = [("as many pairs as codes", a.spair.sz == n),
         ("code of pair i is i", all_(I_, lambda i: imp(z3.And(0 <= i, i < n), a.spair.has(a.spairinv[i]), a.spair[a.spairinv[i]] == i),
                                      lambda i: sel(a.spairinv.arr, i))),
         ("every pair is listed under its code", all_(ps, lambda p: imp(a.spair.has(p), a.spair[p] >= 0, a.spair[p] < n, same(a.spairinv[a.spair[p]], p)),
                                                      lambda p: [a.spair.has(p)]))]
    if zero:
        r.append(("code 0 is the empty pair", z3.And(n >= 1, a.spairinv[0].first == 0, a.spairinv[0].second == 0)))
    return r


def inv(a):
    return bij_sym(a) + bij_pair(a)


def small(a):
    return [("fewer than 2^31-1 symbols and pairs", z3.And(a.slexicinv.len < MAXI, a.spairinv.len < MAXI))]


def syms_kept(o, n):
    return [("identifiers already given stay", z3.And(n.slexicinv.len >= o.slexicinv.len, all_(I_, lambda i: imp(z3.And(0 <= i, i < o.slexicinv.len), same(n.slexicinv[i], o.slexicinv[i])))))]


def pairs_kept(o, n):
    return [("codes already given stay", z3.And(n.spairinv.len >= o.spairinv.len, all_(I_, lambda i: imp(z3.And(0 <= i, i < o.spairinv.len), same(n.spairinv[i], o.spairinv[i])))))]


def syms_same(o, n):
    return [("symbols untouched", z3.And(same(o.slexic, n.slexic), same(o.slexicinv, n.slexicinv)))]


def pairs_same(o, n):
    return [("pairs untouched", z3.And(same(o.spair, n.spair), same(o.spairinv, n.spairinv)))]


def incl_ens(c):
    o, n, s = c.this0, c.this, c.arg0(0)
    had = o.slexic.has(s)
    return inv(n) + pairs_same(o, n) + syms_kept(o, n) + [
        ("the symbol is defined", n.slexic.has(s)),
        ("a known symbol changes nothing", imp(had, same(o.slexic, n.slexic), same(o.slexicinv, n.slexicinv))),
        ("a new symbol gets the next identifier", imp(z3.Not(had), n.slexicinv.len == o.slexicinv.len + 1, same(n.slexicinv[o.slexicinv.len], s),
                                                      n.slexic[s] == -(o.slexicinv.len + 1))),
        ("no other symbol appears", all_(c.sort(USTR), lambda t: imp(t != raw(s), n.slexic.has(t) == o.slexic.has(t), n.slexic[t] == o.slexic[t])))]


def mkpair(c, a, b):
    d = c.S.dt(T("pair", "", [I(32, True), I(32, True)]))
    return d.mk(raw(a), raw(b))


def codes_kept(o, n):
    return ("codes already given stay the codes of their pairs", all_(o.S.sort(T("pair", "", [I(32, True), I(32, True)])), lambda p: imp(o.spair.has(p), n.spair.has(p), n.spair[p] == o.spair[p]),
                                                                      lambda p: [n.spair.has(p), o.spair.has(p)]))


def pair_ens(c):
    o, n = c.this0, c.this
    p = mkpair(c, c.arg0(0), c.arg0(1))
    had = o.spair.has(p)
    return inv(n) + syms_same(o, n) + pairs_kept(o, n) + [
        codes_kept(o, n), ("result is the code of the pair", z3.And(n.spair.has(p), c.ret == n.spair[p])),
        ("decoding the result gives the pair", z3.And(0 <= c.ret, c.ret < n.spairinv.len, same(n.spairinv[c.ret], p))),
        ("a known pair changes nothing", imp(had, same(o.spair, n.spair), same(o.spairinv, n.spairinv))),
        ("a new pair gets the next code", imp(z3.Not(had), c.ret == o.spairinv.len, n.spairinv.len == o.spairinv.len + 1)),
        ("no other pair appears", all_(c.S.sort(T("pair", "", [I(32, True), I(32, True)])), lambda q: imp(q != p, n.spair.has(q) == o.spair.has(q), n.spair[q] == o.spair[q])))]


def lookup(dflt):
    def f(c):
        s = c.arg0(0)
        a = c.this0
        return [("identifier of a defined symbol", imp(a.slexic.has(s), c.ret == a.slexic[s])),
                ("undefined symbol", imp(z3.Not(a.slexic.has(s)), c.ret == dflt))]
    return f


def req(c):
    return inv(c.this0) + small(c.this0)


def req0(c):
    return inv(c.this0)


def cap(c):
    """an alphabet of 2^31 entries does not fit the identifiers' type: a capacity limit of the format"""
    return [("an alphabet has fewer than 2^31-1 symbols and pairs", small(c.this0)[0][1])]


def left_inv(L):
    a = L.this
    e = L.v("eps", "std::set<int>")
    l = L.arg0(0)
    ps = L.S.sort(T("pair", "", [I(32, True), I(32, True)]))
    fst = lambda p: L.S.dt(T("pair", "", [I(32, True), I(32, True)])).get(p, "first")
    return [("codes collected so far", all_(I_, lambda x: e.has(x) == some(ps, lambda p: And(sel(L.seen, p), a.spair.has(p), fst(p) == l, a.spair[p] == x))))]


def left_ens(c):
    a = c.this0
    l = c.arg0(0)
    return inv(c.this) + [("exactly the codes whose left side is l", all_(I_, lambda x: c.ret.has(x) == And(0 <= x, x < a.spairinv.len, a.spairinv[x].first == l)))]


def copy_ens(k):
    return lambda c: [("copy equals the original", same(c.this, c.arg0(k)))]


def lit(c, s):
    return c.eng.stl.strlit('"' + s + '"', USTR)


def samesym_ens(c):
    a, ts, b, os_, anys = c.this0, c.arg0(0), c.arg0(1), c.arg0(2), c.arg0(3)
    sa, sb = a.slexicinv[-ts - 1], b.slexicinv[-os_ - 1]
    AC, AT = lit(c, "<ANY_CHAR>"), lit(c, "<ANY_TAG>")
    want = z3.Or(z3.And(ts >= 0, ts == os_), z3.And(ts < 0, os_ < 0, raw(sa) == raw(sb)),
                 z3.And(anys, z3.Or(z3.And(ts < 0, raw(sa) == AC, os_ > 0), z3.And(ts < 0, raw(sa) == AT, os_ < 0),
                                    z3.And(os_ < 0, raw(sb) == AC, ts > 0), z3.And(os_ < 0, raw(sb) == AT, ts < 0))))
    return [("same letter, same tag text, or a wildcard on either side", c.ret == want)]


def samesym_req(c):
    a, ts, b, os_ = c.this0, c.arg0(0), c.arg0(1), c.arg0(2)
    return [("symbols belong to their alphabets", z3.And(ts >= -a.slexicinv.len, os_ >= -b.slexicinv.len, a.slexicinv.len < MAXI, b.slexicinv.len < MAXI))]


PR = dict(props=["A05"])
CONTRACTS = [
    Contract("Alphabet::Alphabet", TU, "void ()", ensures=lambda c: inv(c.this) + [
        ("no symbols", z3.And(c.this.slexicinv.len == 0)), ("one pair", c.this.spairinv.len == 1)], modifies=["this"], **PR),
    Contract("Alphabet::includeSymbol", TU, None, requires=req0, assumes=cap, ensures=incl_ens, modifies=["this"], **PR),
    Contract("Alphabet::operator()", TU, "int32_t (const int32_t, const int32_t)", requires=req0, assumes=cap, ensures=pair_ens, modifies=["this"], **PR),
    Contract("Alphabet::operator()", TU, "int32_t (UStringView)", requires=lambda c: inv(c.this0), ensures=lookup(0), **PR),
    Contract("Alphabet::operator()", TU, "int32_t (UStringView) const", requires=lambda c: inv(c.this0), ensures=lookup(-1), **PR),
    Contract("Alphabet::isSymbolDefined", TU, None, requires=lambda c: inv(c.this0), ensures=lambda c: [("defined iff listed", c.ret == c.this0.slexic.has(c.arg0(0)))], **PR),
    Contract("Alphabet::size", TU, None, requires=req, ensures=lambda c: [("number of symbols", c.ret == c.this0.slexicinv.len)], **PR),
    Contract("Alphabet::decode", TU, None, inline=True, requires=lambda c: inv(c.this0) + [("a code of this alphabet", z3.And(0 <= c.arg0(0), c.arg0(0) < c.this0.spairinv.len))],
             ensures=lambda c: [("the pair with that code", same(c.ret, c.this0.spairinv[c.arg0(0)]))], **PR),
    Contract("Alphabet::isTag", TU, None, ensures=lambda c: [("tags are negative", c.ret == (c.arg0(0) < 0))], **PR),
    Contract("Alphabet::symbolsWhereLeftIs", TU, None, requires=req, loops=[Loop(left_inv)], ensures=left_ens, **PR),
    Contract("Alphabet::copy", TU, None, ensures=copy_ens(0), modifies=["this"], **PR),
    Contract("Alphabet::Alphabet", TU, "void (const Alphabet &)", ensures=copy_ens(0), modifies=["this"], **PR),
    Contract("Alphabet::operator=", TU, None, ensures=copy_ens(0), modifies=["this"], **PR),
    Contract("Alphabet::sameSymbol", TU, None, requires=samesym_req, ensures=samesym_ens, props=["A05", "X24"]),
]
