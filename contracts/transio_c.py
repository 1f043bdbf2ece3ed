"""Transducer::write and Transducer::read against one format: what a file of tokens says, decoded token by token"""
import z3
from engine import Contract, Loop, Lemma
from values import And, sel, raw, wrap, Unsupported
from speclib import *
from trans_lib import *
from codec import quant

TU = "transducer.cc"
B_ = z3.BoolSort()
HDR = int.from_bytes(b"LTTD", "big")
LIM = 2**30


def mark(i):
    """always true; where it is mentioned, definitions are unfolded"""
    return z3.Function("unfold", I_, B_)(i)


class Fmt:
    """the format.  d: tokens, w: are there weights, dec: shift of the labels, N: number of states"""

    def __init__(self, S):
        self.S = S
        Tok = self.Tok = S.Tok()
        D = self.D = z3.ArraySort(I_, Tok)
        W = S.Dbl
        self.bag = z3.ArraySort(asort(S), I_)
        F = z3.Function
        self.KB = F("final_state", D, I_, B_, I_, I_)
        self.FD = F("final_states", D, I_, B_, I_, z3.ArraySort(I_, B_))
        self.FV = F("final_weights", D, I_, B_, I_, z3.ArraySort(I_, W))
        self.OKF = F("finals_sound", D, I_, B_, I_, B_)
        self.BS = F("block_of_state", D, I_, B_, I_, I_)
        self.LB = F("label", D, I_, B_, I_, I_, I_)
        self.CN = F("arcs_stored", D, I_, B_, I_, I_, I_, I_, self.bag)
        self.OKA = F("arcs_sound", D, I_, B_, I_, I_, I_, B_)
        self.TR = F("states_stored", D, I_, B_, I_, I_, I_, z3.ArraySort(I_, self.bag))
        self.OKS = F("states_sound", D, I_, B_, I_, I_, I_, B_)
        self.QM = F("stored_form", B_, self.bag, self.bag)

    def i(self, d, p):
        return self.Tok.tint(z3.Select(d, p))

    def isint(self, d, p):
        return z3.And(self.Tok.is_TInt(z3.Select(d, p)), 0 <= self.i(d, p), self.i(d, p) < LIM)

    def isdbl(self, d, p):
        return self.Tok.is_TDbl(z3.Select(d, p))

    def fin_at(self, p, w, i):
        return p + z3.If(w, 2 * i, i)

    def arc_at(self, b, w, i):
        return b + 1 + z3.If(w, 3 * i, 2 * i)

    def weight(self, d, w, p):
        return z3.If(w, self.Tok.tdbl(z3.Select(d, p)), w0(self.S))

    def stored(self, w, a):
        """arc as stored"""
        return arc(self.S, atag(self.S, a), atgt(self.S, a), z3.If(w, quant(self.S, awt(self.S, a)), w0(self.S)))

    def entry(self, d, b, w, dec, s, N, i):
        at = self.arc_at(b, w, i)
        x = s + self.i(d, at + 1)
        return arc(self.S, self.LB(d, b, w, dec, i + 1), z3.If(x < N, x, x - N), self.weight(d, w, at + 2))

    # one step of each definition: value at j > 0 from the value at j - 1
    def steps(self):
        A = [self.D, I_, B_]
        at = self.fin_at

        def kb(d, p, w, j): return self.KB(d, p, w, j - 1) + self.i(d, at(p, w, j - 1))

        def fd(d, p, w, j): return z3.Store(self.FD(d, p, w, j - 1), self.KB(d, p, w, j), z3.BoolVal(True))

        def fv(d, p, w, j): return z3.Store(self.FV(d, p, w, j - 1), self.KB(d, p, w, j), self.weight(d, w, at(p, w, j - 1) + 1))

        def okf(d, p, w, j):
            x = at(p, w, j - 1)
            return z3.And(self.OKF(d, p, w, j - 1), self.isint(d, x), z3.Implies(w, self.isdbl(d, x + 1)), self.KB(d, p, w, j) < 2**31, z3.Not(sel(self.FD(d, p, w, j - 1), self.KB(d, p, w, j))))

        def bs(d, q, w, j):
            b = self.BS(d, q, w, j - 1)
            n = self.i(d, b)
            return b + 1 + z3.If(n > 0, z3.If(w, 3 * n, 2 * n), 0)

        def lb(d, b, w, dec, j): return self.LB(d, b, w, dec, j - 1) + self.i(d, self.arc_at(b, w, j - 1)) - dec

        def cn(d, b, w, dec, s, N, j):
            o, e = self.CN(d, b, w, dec, s, N, j - 1), self.entry(d, b, w, dec, s, N, j - 1)
            return z3.Store(o, e, z3.Select(o, e) + 1)

        def oka(d, b, w, dec, N, j):
            x = self.arc_at(b, w, j - 1)
            l = self.LB(d, b, w, dec, j)
            return z3.And(self.OKA(d, b, w, dec, N, j - 1), self.isint(d, x), self.isint(d, x + 1), self.i(d, x + 1) < N, z3.Implies(w, self.isdbl(d, x + 2)), -2**31 <= l, l < 2**31)

        def tr(d, q, w, dec, N, j):
            b = self.BS(d, q, w, j - 1)
            return z3.Store(self.TR(d, q, w, dec, N, j - 1), j - 1, self.CN(d, b, w, dec, j - 1, N, self.i(d, b)))

        def oks(d, q, w, dec, N, j):
            b = self.BS(d, q, w, j - 1)
            return z3.And(self.OKS(d, q, w, dec, N, j - 1), self.isint(d, b), self.OKA(d, b, w, dec, N, self.i(d, b)))
        no = z3.K(asort(self.S), z3.IntVal(0))
        # (name, function, sorts of its parameters, value at 0, step, end of the part of the file it depends on)
        fe = lambda d, p, w, j: at(p, w, j)
        ae = lambda d, b, w, *r: self.arc_at(b, w, r[-1])
        se = lambda d, q, w, *r: self.BS(d, q, w, r[-1])
        return [("final state", self.KB, A, z3.IntVal(0), kb, fe), ("final states", self.FD, A, z3.K(I_, z3.BoolVal(False)), fd, fe), ("final weights", self.FV, A, z3.K(I_, w0(self.S)), fv, fe), ("finals are sound", self.OKF, A, z3.BoolVal(True), okf, fe),
                ("label", self.LB, A + [I_], z3.IntVal(0), lb, ae), ("arcs", self.CN, A + [I_] * 3, no, cn, ae), ("arcs are sound", self.OKA, A + [I_] * 2, z3.BoolVal(True), oka, ae),
                ("block", self.BS, A, None, bs, se), ("states", self.TR, A + [I_] * 2, z3.K(I_, no), tr, se), ("states are sound", self.OKS, A + [I_] * 2, z3.BoolVal(True), oks, se)]

    def defs(self):
        r = [("unfold", all_(I_, lambda i: mark(i), lambda i: mark(i)))]
        for nm, f, ps, z, step, end in self.steps():
            n = len(ps)
            if z is not None:
                r.append((nm + " (none)", all_(ps + [I_], lambda *a, f=f, z=z: imp(a[-1] <= 0, f(*a) == z), lambda *a, f=f: f(*a))))
            r.append((nm + " (next)", all_(ps + [I_], lambda *a, f=f, step=step: imp(a[-1] > 0, f(*a) == step(*a)), lambda *a, f=f: [(f(*a), mark(a[-1]))])))
        r.append(("block (first)", all_([self.D, I_, B_, I_], lambda d, q, w, j: imp(j <= 0, self.BS(d, q, w, j) == q), lambda d, q, w, j: self.BS(d, q, w, j))))
        return r

    def facts(self):
        """what later tokens do not change, and what sound prefixes say (lemma "file format")"""
        r = []
        for nm, f, ps, z, step, end in self.steps():
            r.append((nm + ": later tokens do not matter", all_([self.D, I_, self.Tok] + ps[1:] + [I_], lambda d, m, v, *a, f=f, end=end: imp(end(d, *a) <= m, f(z3.Store(d, m, v), *a) == f(d, *a)), lambda d, m, v, *a, f=f: f(z3.Store(d, m, v), *a))))
        for nm, f, ps in [("finals", self.OKF, 3), ("arcs", self.OKA, 5), ("states", self.OKS, 5)]:
            so = [self.D, I_, B_] + [I_] * (ps - 3)
            r.append((nm + ": a sound list has sound beginnings", all_(so + [I_, I_], lambda *a, f=f: imp(z3.And(f(*a[:-1]), a[-1] <= a[-2]), f(*a[:-2], a[-1])), lambda *a, f=f: [(f(*a[:-1]), f(*a[:-2], a[-1]))])))
        r.append(("blocks follow each other", all_([self.D, I_, B_, I_, I_], lambda d, q, w, j, k: imp(j <= k, self.BS(d, q, w, j) <= self.BS(d, q, w, k)), lambda d, q, w, j, k: [(self.BS(d, q, w, j), self.BS(d, q, w, k))])))
        return r

    def qm(self):
        no = z3.K(asort(self.S), z3.IntVal(0))
        return [("nothing stored", all_(B_, lambda w: self.QM(w, no) == no, lambda w: self.QM(w, no))),
                ("one more arc stored", all_([B_, self.bag, asort(self.S)], lambda w, m, a: self.QM(w, z3.Store(m, a, z3.Select(m, a) + 1)) == z3.Store(self.QM(w, m), self.stored(w, a), z3.Select(self.QM(w, m), self.stored(w, a)) + 1), lambda w, m, a: self.QM(w, z3.Store(m, a, z3.Select(m, a) + 1))))]

    def axioms(self):
        return self.defs() + self.facts() + self.qm()


def fmt(c):
    if not hasattr(c.eng, "_fmt"):
        c.eng._fmt = Fmt(c.S)
    return c.eng._fmt


# ---------------------------------------------------------------- writing
def storable(c):
    t, dec = c.this0, c.arg0(1)
    S = c.S
    return wf_t(t, 0) + [("small enough to store", z3.And(t.transitions.sz < LIM, t.finals.sz < LIM, 0 <= dec, dec < 2**28)),
                         ("states have few arcs", all_(I_, lambda q: imp(is_state(t, q), 0 <= t.transitions[q].sz, t.transitions[q].sz < LIM), lambda q: is_state(t, q))),
                         ("labels are in range", all_([I_, asort(S)], lambda q, a: imp(z3.And(is_state(t, q), cnt(t, q, a) > 0), -dec <= atag(S, a), atag(S, a) < 2**28), lambda q, a: cnt(t, q, a)))]


def any_w(c):
    from rewrite_c import any_weight
    return any_weight(c.this0)


def WF(c):
    """is the transducer weighted (a name for it)"""
    return c.ghost("weighted", B_)


def w_axioms(c):
    return fmt(c).axioms() + [("weighted", WF(c) == any_w(c))]


def p_fin(o):
    return o.len + 4


def fin_core(c, f, d, n):
    t, o = c.this0, c.arg0(0)
    w, p = WF(c), p_fin(o)
    return [("finals stored", z3.And(mark(n), f.OKF(d, p, w, n))), ("weights of finals", z3.And(mark(n), all_(I_, lambda k: imp(sel(f.FD(d, p, w, n), k), sel(f.FV(d, p, w, n), k) == z3.If(w, quant(c.S, t.finals[k]), w0(c.S))), lambda k: sel(f.FD(d, p, w, n), k))))]


def head_w(c, f, t, o, n):
    T, w = f.Tok, WF(c)
    return [("what was there", z3.And(n.len >= o.len, all_(I_, lambda i: imp(i < o.len, sel(n.data, i) == sel(o.data, i)), lambda i: sel(n.data, i)))),
            ("header", z3.And(sel(n.data, o.len) == T.TMagic(HDR), sel(n.data, o.len + 1) == T.TWord(z3.If(w, 1, 0)))),
            ("initial state and number of finals", z3.And(sel(n.data, o.len + 2) == T.TInt(t.initial), sel(n.data, o.len + 3) == T.TInt(t.finals.sz)))]


def w_inv_fin(L):
    f, t, o, n = fmt(L), L.this0, L.arg0(0), L.arg(0)
    w, p, k, base = WF(L), p_fin(o), L.nseen, L.v("base", "int")
    d = n.data
    return head_w(L, f, t, o, n) + [("flag", L.v("write_weights", "bool") == w), ("length", n.len == f.fin_at(p, w, k)), ("last one", z3.And(mark(k), base == f.KB(d, p, w, k), base >= 0, base < 2**31)),
                                    ("seen", z3.And(mark(k), L.seen == f.FD(d, p, w, k))), ("none seen is later", z3.And(all_(I_, lambda x: imp(sel(L.seen, x), x <= base), lambda x: sel(L.seen, x))))] + fin_core(L, f, d, k)


def q_of(c, f):
    return f.fin_at(p_fin(c.arg0(0)), WF(c), c.this0.finals.sz)


def states_core(c, f, d, s, upto):
    """the first s states are stored"""
    t, w, dec, N, q = c.this0, WF(c), c.arg0(1), c.this0.transitions.sz, q_of(c, f)
    return [("states stored", z3.And(mark(s), f.OKS(d, q + 1, w, dec, N, s))),
            ("arcs of states stored", z3.And(mark(s), all_(I_, lambda k: imp(z3.And(0 <= k, k < upto), sel(f.TR(d, q + 1, w, dec, N, s), k) == f.QM(w, t.transitions[k].cnt)), lambda k: [sel(f.TR(d, q + 1, w, dec, N, s), k), raw(t.transitions[k])])))]


def after_finals(c, f, d):
    t, o, w = c.this0, c.arg0(0), WF(c)
    p = p_fin(o)
    return fin_core(c, f, d, t.finals.sz) + [("final states", z3.And(mark(t.finals.sz), all_(I_, lambda k: sel(f.FD(d, p, w, t.finals.sz), k) == t.finals.has(k), lambda k: [t.finals.has(k), sel(f.FD(d, p, w, t.finals.sz), k)]))),
                                             ("number of states", sel(d, q_of(c, f)) == f.Tok.TInt(t.transitions.sz))]


def w_inv_states(L):
    f, t, o, n = fmt(L), L.this0, L.arg0(0), L.arg(0)
    w, s, d = WF(L), L.nseen, n.data
    q = q_of(L, f)
    return head_w(L, f, t, o, n) + after_finals(L, f, d) + [("flag", z3.And(L.v("write_weights", "bool") == w, L.v("base", "int") == t.transitions.sz)),
                                                            ("states in order", z3.And(0 <= s, imp(s < t.transitions.sz, is_state(t, s)), all_(I_, lambda k: sel(L.seen, k) == z3.And(0 <= k, k < s), lambda k: sel(L.seen, k)))),
                                                            ("length", z3.And(mark(s), n.len == f.BS(d, q + 1, w, s), n.len > q))] + states_core(L, f, d, s, s)


def w_inv_arcs(L):
    f, t, o, n = fmt(L), L.this0, L.arg0(0), L.arg(0)
    w, i, d, dec, N = WF(L), L.nseen, n.data, L.arg0(1), L.this0.transitions.sz
    s = L.outer_key(1)
    q = q_of(L, f)
    b = f.BS(d, q + 1, w, s)
    tb = L.v("tagbase", "int")
    S = L.S
    return head_w(L, f, t, o, n) + after_finals(L, f, d) + [("flag", z3.And(L.v("write_weights", "bool") == w, L.v("base", "int") == t.transitions.sz)), ("state", z3.And(0 <= s, s < N, mark(s), mark(s + 1), s == L.outer_nseen(1), all_(I_, lambda k: sel(L.outer_seen(1), k) == z3.And(0 <= k, k < s), lambda k: sel(L.outer_seen(1), k)))),
                                                            ("block", z3.And(b > q, sel(d, b) == f.Tok.TInt(t.transitions[s].sz))),
                                                            ("length", z3.And(0 <= i, n.len == f.arc_at(b, w, i))), ("last label", z3.And(mark(i), tb == f.LB(d, b, w, dec, i), -2**28 <= tb, tb < 2**28, imp(i == 0, tb == 0))),
                                                            ("labels grow", z3.Or(i == 0, all_(asort(S), lambda a: imp(sel(L.seen, a) < cnt(t, s, a), atag(S, a) >= tb), lambda a: sel(L.seen, a)))),
                                                            ("arcs stored", z3.And(mark(i), f.OKA(d, b, w, dec, N, i))),
                                                            ("those seen", z3.And(mark(i), f.CN(d, b, w, dec, s, N, i) == f.QM(w, L.seen)))] + states_core(L, f, d, s, s)


def w_ens(c):
    f, t, o, n = fmt(c), c.this0, c.arg0(0), c.arg(0)
    w, d, N = WF(c), n.data, c.this0.transitions.sz
    q = q_of(c, f)
    return head_w(c, f, t, o, n) + after_finals(c, f, d) + [("length", z3.And(mark(N), n.len == f.BS(d, q + 1, w, N)))] + states_core(c, f, d, N, N)


# ---------------------------------------------------------------- reading
class File:
    """where things are in the file that starts at position p0"""

    def __init__(self, c, dec=None):
        f, o, dec = fmt(c), c.arg0(0), c.arg0(1) if dec is None else dec
        self.f, self.o, self.dec, T = f, o, dec, f.Tok
        d, p0 = o.data, o.pos
        self.d, self.p0, self.w = d, p0, c.ghost("with weights", B_)
        self.hdr = sel(d, p0) == T.TMagic(HDR)
        self.feat = T.tword(sel(d, p0 + 1))
        self.p1 = z3.If(self.hdr, p0 + 2, p0)
        self.nf = f.i(d, self.p1 + 1)
        self.p = self.p1 + 2
        self.q = f.fin_at(self.p, self.w, self.nf)
        self.N = f.i(d, self.q)
        self.end = f.BS(d, self.q + 1, self.w, self.N)
        self.wdef = self.w == z3.And(self.hdr, self.feat % 2 == 1)

    def fin(self, g, k): return g(self.d, self.p, self.w, k)

    def bs(self, s): return self.f.BS(self.d, self.q + 1, self.w, s)

    def tr(self, g, s): return g(self.d, self.q + 1, self.w, self.dec, self.N, s)

    def lb(self, s, j): return self.f.LB(self.d, self.bs(s), self.w, self.dec, j)

    def cn(self, s, j): return self.f.CN(self.d, self.bs(s), self.w, self.dec, s, self.N, j)

    def oka(self, s, j): return self.f.OKA(self.d, self.bs(s), self.w, self.dec, self.N, j)


def r_axioms(c, F=None):
    F = F or File(c)
    return F.f.axioms() + [("with weights", F.wdef)]


def r_req(c, F=None):
    F = F or File(c)
    f, d, T, o = F.f, F.d, F.f.Tok, F.o
    return [("header", z3.And(F.p0 >= 0, F.p1 + 1 < o.len, z3.If(F.hdr, z3.And(T.is_TWord(sel(d, F.p0 + 1)), 0 <= F.feat, F.feat < 2**64), z3.Not(T.is_TMagic(sel(d, F.p0)))))),
            ("the file is sound", z3.And(f.isint(d, F.p1), f.isint(d, F.p1 + 1), F.fin(f.OKF, F.nf), f.isint(d, F.q), F.tr(f.OKS, F.N), F.end <= o.len, F.N > 0, 0 <= F.dec, F.dec < 2**28))]


def r_throws(c, F=None):
    F = F or File(c)
    return z3.And(F.hdr, F.feat >= 2)


def same_file(L, F):
    n = L.arg(0)
    return [("file", z3.And(n.data == F.d, n.len == F.o.len)), ("weights", z3.And(L.v("read_weights", "bool") == F.w, imp(z3.Not(F.w), L.v("base_weight", "double") == w0(L.S))))]


def read_finals(L, F, t, k):
    f = F.f
    return [("initial state", t.initial == f.i(F.d, F.p1)), ("final states", z3.And(mark(k), t.finals.dom == F.fin(f.FD, k), t.finals.sz == k)),
            ("final weights", z3.And(mark(k), all_(I_, lambda x: imp(t.finals.has(x), t.finals[x] == sel(F.fin(f.FV, k), x)), lambda x: [t.finals.has(x), raw(t.finals[x])])))]


def r_inv_fin(L):
    F, t = File(L), L.v("new_t", "Transducer")
    f, left, base = F.f, L.v("finals_size", "int"), L.v("base", "int")
    k = F.nf - left
    return same_file(L, F) + read_finals(L, F, t, k) + [("count", z3.And(0 <= left, left <= F.nf, mark(k), mark(k + 1))), ("position", L.arg(0).pos == f.fin_at(F.p, F.w, k)), ("last one", z3.And(base == F.fin(f.KB, k))),
                                                        ("the rest is sound", imp(k < F.nf, F.fin(f.OKF, k + 1))), ("no arcs yet", z3.And(all_(I_, lambda x: imp(is_state(t, x), x == 0), lambda x: is_state(t, x)), imp(is_state(t, 0), t.transitions[0].cnt == z3.K(asort(L.S), z3.IntVal(0))))), ("there is more", F.bs(z3.IntVal(0)) <= F.end)]


def read_states(L, F, t, s, cur=None):
    TR = F.tr(F.f.TR, s)
    no = z3.K(asort(L.S), z3.IntVal(0))
    return [("states", z3.And(all_(I_, lambda x: imp(z3.And(0 <= x, x < s), is_state(t, x)), lambda x: is_state(t, x)), all_(I_, lambda x: imp(is_state(t, x), 0 <= x, x < F.N), lambda x: is_state(t, x)))),
            ("nothing yet of later states", z3.And(mark(s), all_(I_, lambda x: imp(x >= s, sel(TR, x) == no), lambda x: sel(TR, x)))),
            ("arcs", z3.And(mark(s), all_(I_, lambda x: imp(z3.And(is_state(t, x), x != cur) if cur is not None else is_state(t, x), t.transitions[x].cnt == sel(TR, x)), lambda x: [sel(TR, x), is_state(t, x), raw(t.transitions[x])])))]


def r_inv_states(L):
    F, t = File(L), L.v("new_t", "Transducer")
    f, s, left, base = F.f, L.v("current_state", "int"), L.v("number_of_states", "int"), L.v("base", "int")
    return same_file(L, F) + read_finals(L, F, t, F.nf) + [("count", z3.And(0 <= s, s <= F.N, left == F.N - s, base == F.N, mark(s), mark(s + 1))), ("position", L.arg(0).pos == F.bs(s)),
                                                           ("the rest is sound", imp(s < F.N, F.tr(f.OKS, s + 1), F.bs(s + 1) <= F.end, F.bs(s) > F.q))] + read_states(L, F, t, s)


def r_inv_arcs(L):
    F, t = File(L), L.v("new_t", "Transducer")
    f, s, left, base = F.f, L.v("current_state", "int"), L.v("number_of_states", "int"), L.v("base", "int")
    n = f.i(F.d, F.bs(s))
    more = L.v("number_of_local_transitions", "int")
    j = n - more
    return same_file(L, F) + read_finals(L, F, t, F.nf) + [("count", z3.And(0 <= s, s < F.N, left == F.N - s, base == F.N, mark(s), mark(s + 1))),
                                                           ("arcs to go", z3.And(0 <= more, more <= n, f.isint(F.d, F.bs(s)), mark(j), mark(j + 1))), ("position", L.arg(0).pos == f.arc_at(F.bs(s), F.w, j)),
                                                           ("last label", L.v("tagbase", "int") == F.lb(s, j)),
                                                           ("the rest is sound", z3.And(F.tr(f.OKS, s + 1), F.bs(s + 1) <= F.end, imp(j < n, F.oka(s, j + 1)))),
                                                           ("this state", z3.And(is_state(t, s), t.transitions[s].cnt == F.cn(s, j)))] + read_states(L, F, t, s, s)


def r_ens(c):
    F, t = File(c), c.this
    n = c.arg(0)
    return [("file", z3.And(n.data == F.d, n.len == F.o.len, n.pos == F.end))] + read_finals(c, F, t, F.nf) + [
        ("states read", z3.And(all_(I_, lambda x: is_state(t, x) == z3.And(0 <= x, x < F.N), lambda x: is_state(t, x)))), ("arcs read", all_(I_, lambda x: imp(is_state(t, x), t.transitions[x].cnt == sel(F.tr(F.f.TR, F.N), x)), lambda x: [is_state(t, x), raw(t.transitions[x])]))]


# ---------------------------------------------------------------- the facts about the format
class Pretend:
    """the transducers and files of a lemma, where a contract expects those of a function"""

    def __init__(self, S, this0=None, this=None, args0=(), args=()):
        self.S, self.this0, self.this, self._a0, self._a = S, this0, this, args0, args
        self.eng = self

    def arg0(self, i): return self._a0[i]

    def arg(self, i): return self._a[i]

    def ghost(self, nm, sort): return z3.Const(nm, sort)


def sorts():
    from values import Sorts
    from ctypes_ import T, parse
    flds = dict(Transducer=[("initial", parse("int")), ("finals", parse("std::map<int, double>")), ("transitions", parse("std::map<int, std::multimap<int, std::pair<int, double>>>"))])
    return Sorts("int", "vec", lambda n: flds.get(n), True), T("rec", "Transducer"), T("stream")


def lem_format():
    """the facts about the format, by induction over the number of entries"""
    S, _, _ = sorts()
    f = Fmt(S)
    r = []
    mk = lambda ps: [z3.FreshConst(x, "p") for x in ps]
    d, v, m, j, k = z3.Const("d", f.D), z3.Const("v", f.Tok), z3.Int("m"), z3.Int("j"), z3.Int("k")
    e = z3.Store(d, m, v)
    defs = {nm: (fn, ps, z, step, end) for nm, fn, ps, z, step, end in f.steps()}
    bs0 = dict(f.defs())["block (first)"]

    def value(nm, dd, a, i):
        """definition of one function at i"""
        fn, ps, z, step, end = defs[nm]
        z = a[0] if nm == "block" else z
        return fn(dd, *a, i) == z3.If(i > 0, step(dd, *a, i), z)

    def keep(nm, a, i):
        fn, ps, z, step, end = defs[nm]
        return z3.Implies(end(d, *a, i) <= m, fn(e, *a, i) == fn(d, *a, i))
    for nm, (fn, ps, z, step, end) in defs.items():
        a = mk(ps[1:])
        u, i = a, j
        hyp = [value(nm, d, a, j), value(nm, e, a, j), keep(nm, a, j - 1)]
        if nm in ("final states", "final weights", "finals are sound"):
            hyp += [keep("final state", a, j), keep("final states", a, j - 1)]
        if nm in ("arcs", "arcs are sound"):
            hyp += [keep("label", a[:3], j)]
        if nm in ("states", "states are sound", "block"):
            q, w = a[0], a[1]
            b = f.BS(d, q, w, j - 1)
            n = f.i(d, b)
            hyp += [value("block", d, [q, w], j), f.BS(d, q, w, j) >= f.BS(d, q, w, j - 1)]
            if nm != "block":
                hyp += [keep("block", [q, w], j - 1)]
            if nm == "states":
                hyp += [keep("arcs", [b, w, a[2], j - 1, a[3]], n), value("arcs", d, [b, w, a[2], j - 1, a[3]], n), value("arcs", e, [b, w, a[2], j - 1, a[3]], n)]
            if nm == "states are sound":
                hyp += [keep("arcs are sound", [b, w, a[2], a[3]], n), value("arcs are sound", d, [b, w, a[2], a[3]], n), value("arcs are sound", e, [b, w, a[2], a[3]], n)]
        r.append((nm + ": later tokens do not matter (induction)", imp(And(hyp), keep(nm, a, j))))
        r.append((nm + ": later tokens do not matter (start)", imp(z3.And(j <= 0, value(nm, d, a, j), value(nm, e, a, j)), keep(nm, a, j))))
    for nm in ("finals are sound", "arcs are sound", "states are sound"):
        fn, ps, z, step, end = defs[nm]
        a = mk(ps[1:])
        r.append((nm + ": so are its beginnings (induction)", imp(z3.And(k < j, value(nm, d, a, j), value(nm, d, a, k), imp(fn(d, *a, j - 1), fn(d, *a, k)), fn(d, *a, j)), fn(d, *a, k))))
    q, w = mk([I_, B_])
    r.append(("a block is followed by the next", imp(value("block", d, [q, w], j), z3.Implies(j > 0, f.BS(d, q, w, j - 1) < f.BS(d, q, w, j)))))
    r.append(("blocks follow each other (induction)", imp(z3.And(k < j, value("block", d, [q, w], j), value("block", d, [q, w], k), imp(k <= j - 1, f.BS(d, q, w, k) <= f.BS(d, q, w, j - 1))), f.BS(d, q, w, k) <= f.BS(d, q, w, j))))
    x, y = mk([asort(S)] * 2)
    o = z3.Const("o", f.bag)
    add = lambda o, x: z3.Store(o, f.stored(w, x), z3.Select(o, f.stored(w, x)) + 1)
    r.append(("the order in which arcs are stored does not matter", add(add(o, x), y) == add(add(o, y), x)))
    return r


def lem_round_trip():
    """what write ensures is what read requires, and what read then ensures is the transducer written, with its weights as stored"""
    S, TT, TS = sorts()
    one = lambda nm, t: wrap(S, t, z3.Const(nm, S.sort(t)))
    t, t2, o, n, m, m2 = one("t", TT), one("t2", TT), one("o", TS), one("n", TS), one("m", TS), one("m2", TS)
    dec = z3.Int("dec")
    c1, c2 = Pretend(S, t, None, (o, dec), (n,)), Pretend(S, None, t2, (m, dec), (m2,))
    opened = [o.len >= 0, m.data == n.data, m.len == n.len, m.pos == o.len]
    w, F = WF(c1), File(c2)
    here = [F.p1 == o.len + 2, F.p == p_fin(o), F.nf == t.finals.sz, F.q == q_of(c1, F.f), F.N == t.transitions.sz]
    pre = And(S.wf(TT, raw(t)) + S.wf(TS, raw(o)) + [g for _, g in w_axioms(c1) + storable(c1) + w_ens(c1) + [("", F.wdef)]] + opened)
    post = And([g for _, g in r_ens(c2)])
    one_of = z3.Const("k", I_)
    r = [("weights are read if and only if they were written", imp(pre, F.w == w)), ("read accepts it", imp(pre, z3.Not(r_throws(c2))))]
    r.append(("read looks in the right places", imp(z3.And(pre, F.w == w), *here)))
    pre = And([pre, F.w == w] + here)
    r += [("write makes what read requires: " + x, imp(pre, g)) for x, g in r_req(c2)]
    f = F.f
    both = z3.And(pre, post)
    k = one_of
    return r + [("same initial state", imp(both, t2.initial == t.initial)), ("same final states", imp(both, t2.finals.has(k) == t.finals.has(k))), ("same states", imp(both, is_state(t2, k) == is_state(t, k))),
                ("weights of final states as stored", imp(And([F.w == w, t.finals.has(k)] + here + opened + [g for _, g in after_finals(c1, f, n.data) + read_finals(c2, F, t2, F.nf)]), t2.finals[k] == z3.If(w, quant(S, t.finals[k]), w0(S)))),
                ("arcs as stored", imp(z3.And(both, is_state(t, k)), t2.transitions[k].cnt == f.QM(w, t.transitions[k].cnt)))]


P = dict(props=["T07"], tokens=True, ordered=True)
CONTRACTS = [
    Contract("Transducer::write", TU, None, requires=storable, axioms=w_axioms, ensures=w_ens, modifies=["arg0"], loops=[Loop(w_inv_fin), Loop(w_inv_states), Loop(w_inv_arcs)], timeout=60, **P),
    Contract("Transducer::read", TU, None, requires=r_req, axioms=r_axioms, ensures=r_ens, throws=r_throws, modifies=["this", "arg0"], loops=[Loop(r_inv_fin), Loop(r_inv_states), Loop(r_inv_arcs)], timeout=60, **P),
    Lemma("file format", lem_format, props=["T07"], timeout=30),
    Lemma("a transducer is read back as it was written", lem_round_trip, props=["T07"], timeout=60),
]
