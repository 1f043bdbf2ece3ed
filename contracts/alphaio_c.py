"""Alphabet::write / Alphabet::read are inverse (A06)"""
import z3
from engine import Contract, Loop, Lemma
from speclib import *
from alphabet_c import inv, bij_sym, bij_pair, small, lit
import codec

TU = "alphabet.cc"
LIM = 2**30


def mid(S, s):
    """the text between the first and the last character"""
    slen = z3.Function("slen", S.Str, I_)
    return z3.Function("ssub", S.Str, I_, I_, S.Str)(s, z3.IntVal(1), slen(s) - 2)


def tagform(c, S, s):
    """s is '<' + mid(s) + '>'"""
    slen = z3.Function("slen", S.Str, I_)
    cat = z3.Function("scat", S.Str, S.Str, S.Str)
    return z3.And(slen(s) >= 2, s == cat(cat(lit(c, "<"), mid(S, s)), lit(c, ">")))


def storable(c, a):
    n, m = a.slexicinv.len, a.spairinv.len
    return [("symbols are tags", all_(I_, lambda i: imp(z3.And(0 <= i, i < n), tagform(c, c.S, raw(a.slexicinv[i]))), lambda i: sel(a.slexicinv.arr, i))),
            ("sides of pairs are symbols or letters", all_(I_, lambda i: imp(z3.And(0 <= i, i < m), z3.And(a.spairinv[i].first >= -n, a.spairinv[i].first < LIM - n, a.spairinv[i].second >= -n, a.spairinv[i].second < LIM - n)), lambda i: sel(a.spairinv.arr, i))),
            ("sizes below 2^30", z3.And(n < LIM, m < LIM))]


def at(d, i):
    return sel(d, i)


def layout(c, a, d, p, ks=None, kp=None):
    """tokens of alphabet a from position p on; with ks/kp only the first ks symbols / kp pairs"""
    S = c.S
    T = S.Tok()
    n, m = a.slexicinv.len, a.spairinv.len
    q = p + 2 + n
    r = [("number of symbols", at(d, p) == T.TInt(n)),
         ("symbols without their brackets", all_(I_, lambda i: imp(z3.And(0 <= i, i < (n if ks is None else ks)), at(d, p + 1 + i) == T.TStr(mid(S, raw(a.slexicinv[i])))), lambda i: sel(a.slexicinv.arr, i)))]
    if ks is None:
        r += [("number of pairs", at(d, p + 1 + n) == T.TInt(m)),
              ("pairs shifted to be non-negative", all_(I_, lambda i: imp(z3.And(0 <= i, i < (m if kp is None else kp)), z3.And(at(d, q + 2 * i) == T.TInt(a.spairinv[i].first + n), at(d, q + 2 * i + 1) == T.TInt(a.spairinv[i].second + n))), lambda i: sel(a.spairinv.arr, i)))]
    return r


def kept(o, n):
    return ("earlier output is kept", z3.And(n.pos == o.pos, all_(I_, lambda i: imp(i < o.len, at(n.data, i) == at(o.data, i)), lambda i: at(n.data, i))))


def w_inv0(L):
    a, o, n = L.this0, L.arg0(0), L.arg(0)
    i = L.v("i", "unsigned long")
    return [("position", z3.And(0 <= i, i <= a.slexicinv.len, n.len == o.len + 1 + i, L.v("limit", "unsigned long") == a.slexicinv.len)), kept(o, n)] + layout(L, a, n.data, o.len, ks=i)


def w_inv1(L):
    a, o, n = L.this0, L.arg0(0), L.arg(0)
    i = L.v("i", "unsigned long")
    return [("position", z3.And(0 <= i, i <= a.spairinv.len, n.len == o.len + 2 + a.slexicinv.len + 2 * i, L.v("limit", "unsigned long") == a.spairinv.len)), kept(o, n)] + layout(L, a, n.data, o.len, kp=i)


def w_ens(c):
    a, o, n = c.this0, c.arg0(0), c.arg(0)
    return [("token count", n.len == o.len + 2 + a.slexicinv.len + 2 * a.spairinv.len), kept(o, n)] + layout(c, a, n.data, o.len)


# ---------------------------------------------------------------- read
def G(c):
    """the alphabet whose tokens are in the file: arbitrary"""
    return wrap(c.S, parse("Alphabet"), c.ghost("alphabet", c.S.sort(parse("Alphabet"))))


def stored(c, g, o):
    """the file holds the tokens of g at the reading position"""
    gi = And([x for _, x in inv(g) + storable(c, g) + layout(c, g, o.data, o.pos)])
    return z3.And(gi, g.slexicinv.len >= 0, o.pos + 2 + g.slexicinv.len + 2 * g.spairinv.len <= o.len)


def pref_sym(a, g, k):
    return [("symbols so far", z3.And(a.slexicinv.len == k, a.slexic.sz == k, all_(I_, lambda i: imp(z3.And(0 <= i, i < k), raw(a.slexicinv[i]) == raw(g.slexicinv[i])), lambda i: [sel(a.slexicinv.arr, i), sel(g.slexicinv.arr, i)]))),
            ("symbol table so far", all_(a.S.sort(USTR), lambda s: z3.And(a.slexic.has(s) == z3.And(g.slexic.has(s), g.slexic[s] >= -k), imp(a.slexic.has(s), a.slexic[s] == g.slexic[s])), lambda s: a.slexic.has(s)))]


def pref_pair(a, g, k):
    ps = a.S.sort(T("pair", "", [I(32, True), I(32, True)]))
    return [("pairs so far", z3.And(a.spairinv.len == k, a.spair.sz == k, all_(I_, lambda i: imp(z3.And(0 <= i, i < k), raw(a.spairinv[i]) == raw(g.spairinv[i])), lambda i: [sel(a.spairinv.arr, i), sel(g.spairinv.arr, i)]))),
            ("pair table so far", all_(ps, lambda s: z3.And(a.spair.has(s) == z3.And(g.spair.has(s), g.spair[s] < k), imp(a.spair.has(s), a.spair[s] == g.spair[s])), lambda s: a.spair.has(s)))]


def cond(H, l):
    return [(n, z3.Implies(H, x)) for n, x in l]


def r_inv0(L):
    g, o, n = G(L), L.arg0(0), L.arg(0)
    a = L.v("a_new", "Alphabet")
    tam = L.v("tam", "int")
    k = a.slexicinv.len
    H = stored(L, g, o)
    return [("input untouched", z3.And(n.data == o.data, n.len == o.len))] + cond(H, [("position", z3.And(n.pos == o.pos + 1 + k, tam == g.slexicinv.len - k, k >= 0, tam >= 0))] + pref_sym(a, g, k) + pref_pair(a, g, 0))


def r_inv1(L):
    g, o, n = G(L), L.arg0(0), L.arg(0)
    a = L.v("a_new", "Alphabet")
    tam = L.v("tam", "int")
    k = a.spairinv.len
    H = stored(L, g, o)
    return [("input untouched", z3.And(n.data == o.data, n.len == o.len))] + cond(H, [("position", z3.And(n.pos == o.pos + 2 + g.slexicinv.len + 2 * k, tam == g.spairinv.len - k, k >= 0, tam >= 0, L.v("bias", "unsigned long") == g.slexicinv.len))] + pref_sym(a, g, g.slexicinv.len) + pref_pair(a, g, k))


def eq_alpha(a, g):
    ps = a.S.sort(T("pair", "", [I(32, True), I(32, True)]))
    return [("same symbols in the same order", z3.And(a.slexicinv.len == g.slexicinv.len, all_(I_, lambda i: imp(z3.And(0 <= i, i < g.slexicinv.len), raw(a.slexicinv[i]) == raw(g.slexicinv[i]))))),
            ("same symbol table", all_(a.S.sort(USTR), lambda s: z3.And(a.slexic.has(s) == g.slexic.has(s), imp(g.slexic.has(s), a.slexic[s] == g.slexic[s])))),
            ("same pairs with the same codes", z3.And(a.spairinv.len == g.spairinv.len, all_(I_, lambda i: imp(z3.And(0 <= i, i < g.spairinv.len), raw(a.spairinv[i]) == raw(g.spairinv[i]))))),
            ("same pair table", all_(ps, lambda s: z3.And(a.spair.has(s) == g.spair.has(s), imp(g.spair.has(s), a.spair[s] == g.spair[s]))))]


def r_ens(c):
    g, o, n = G(c), c.arg0(0), c.arg(0)
    H = stored(c, g, o)
    return [("input untouched", z3.And(n.data == o.data, n.len == o.len)),
            ("consumes exactly the alphabet", z3.Implies(H, n.pos == o.pos + 2 + g.slexicinv.len + 2 * g.spairinv.len))] + cond(H, eq_alpha(c.this, g))


P = dict(props=["A06"], tokens=True)
CONTRACTS = [
    Contract("Alphabet::write", TU, None, requires=lambda c: inv(c.this0) + storable(c, c.this0), ensures=w_ens, modifies=["arg0"], loops=[Loop(w_inv0), Loop(w_inv1)], **P),
    Contract("Alphabet::read", TU, None, ensures=r_ens, modifies=["this", "arg0"], loops=[Loop(r_inv0), Loop(r_inv1)], **P),
]
