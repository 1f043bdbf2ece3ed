"""Compiler: an entry becomes a path"""
import z3
from engine import Contract, Loop, Lemma
from trans_lib import *
from alphabet_c import inv as alpha_inv, codes_kept
import alphabet_c, transducer_c

TU = ["compiler.cc", "transducer.cc", "alphabet.cc"]
PAIR = T("pair", "", [I(32, True), I(32, True)])
SV = "sorted_vector<int>"


class Sides:
    """what matchTransduction has to put on the path: sides l and r, padded with the empty symbol"""

    def __init__(self, c, lr=None):
        self.c, self.S = c, c.S
        pi, pd = c.arg0(0), c.arg0(1)
        if lr is None:
            lr = same(c.this0.direction, c.eng.stl.strlit('u"LR"', USTR))
            self.l = lambda k: z3.If(lr, pi[k], pd[k])
            self.r = lambda k: z3.If(lr, pd[k], pi[k])
            self.nl, self.nr = z3.If(lr, pi.len, pd.len), z3.If(lr, pd.len, pi.len)
        else:      # in the loop: which vector the iterators stand in is known
            a, b = (pi, pd) if lr else (pd, pi)
            self.l, self.r, self.nl, self.nr = (lambda k: a[k]), (lambda k: b[k]), a.len, b.len
        self.n = z3.If(self.nl > self.nr, self.nl, self.nr)
        self.acx = c.this0.acx_map
        self.t0 = c.arg0(3)

    def L(self, k):
        return z3.If(k < self.nl, self.l(k), 0)

    def R(self, k):
        return z3.If(k < self.nr, self.r(k), 0)

    def w(self, k):
        return z3.If(k == self.n - 1, raw(self.c.arg0(4)), raw(self.c.this0.default_weight))

    def pair(self, a, b):
        return self.S.dt(PAIR).mk(raw(a), raw(b))

    def alt(self, k, x):
        """x is a spelling variant of the k-th symbol of the left side"""
        return z3.And(k < self.nl, self.acx.has(self.l(k)), self.acx[self.l(k)].has(x))


def code(a, p):
    return a.spair[p]


def has_code(a, p):
    return a.spair.has(p)


def old(o, q, b):
    """copies of arc b at q before; a state that did not exist had none"""
    return z3.If(is_state(o, q), cnt(o, q, b), 0)


def mt_path(d, t, a, Q, m):
    """the first m steps are on the path"""
    S = d.S
    P = lambda k: d.pair(d.L(k), d.R(k))
    return [("every symbol pair of the entry is on an arc of the path", all_(I_, lambda k: imp(z3.And(0 <= k, k < m), has_code(a, P(k)), is_state(t, sel(Q, k)), cnt(t, sel(Q, k), arc(S, code(a, P(k)), sel(Q, k + 1), d.w(k))) > 0), lambda k: sel(Q, k))),
            ("every spelling variant is on an arc beside it", all_([I_, I_], lambda k, x: imp(z3.And(0 <= k, k < m, d.alt(k, x)), has_code(a, d.pair(x, d.R(k))), z3.Not(no_link(t, sel(Q, k), code(a, d.pair(x, d.R(k))), sel(Q, k + 1)))), lambda k, x: d.acx[d.l(k)].has(x)))]


def mt_only(d, t, a, Q, m):
    S = d.S

    def f(q, b):
        return some([I_], lambda k: z3.And(0 <= k, k < m, q == sel(Q, k), atgt(S, b) == sel(Q, k + 1), awt(S, b) == d.w(k),
                                           z3.Or(z3.And(has_code(a, d.pair(d.L(k), d.R(k))), atag(S, b) == code(a, d.pair(d.L(k), d.R(k)))),
                                                 some([I_], lambda x: z3.And(d.alt(k, x), has_code(a, d.pair(x, d.R(k))), atag(S, b) == code(a, d.pair(x, d.R(k))))))))
    return [("every new arc is a step of the path", all_([I_, asort(S)], lambda q, b: imp(z3.And(is_state(t, q), cnt(t, q, b) > old(d.t0, q, b)), f(q, b)), lambda q, b: cnt(t, q, b)))]


def frame(d, c, t, a):
    o = d.t0
    return [arcs_kept(o, t), codes_kept(c.this0.alphabet, a), ("initial and final states untouched", z3.And(o.initial == t.initial, same(o.finals, t.finals)))] + alpha_inv(a) + wf_t(t, -4)


def comp_rest(c):
    o, n = c.this0, c.this
    return [("spelling variants and settings untouched", z3.And(same(o.acx_map, n.acx_map), same(o.direction, n.direction), o.default_weight == n.default_weight, o.is_separable == n.is_separable))]


def mt_req(c):
    d = Sides(c)
    return alpha_inv(c.this0.alphabet) + wf_t(d.t0) + [("source exists", is_state(d.t0, c.arg0(2))), ("the result stays below 2^31 states", d.t0.transitions.sz + d.n < IMAX - 4),
                                                       ("an ordinary dictionary (not one of lsx-comp)", z3.Not(c.this0.is_separable))]


def mt_ens(c):
    d = Sides(c)
    t, a = c.arg(3), c.this.alphabet
    Q = c.hist("state")
    S = c.S
    e = c.arg0(2)
    zz = d.pair(0, 0)
    r = frame(d, c, t, a) + comp_rest(c)
    r += [("an empty entry is one empty step to a new state", imp(d.n == 0, z3.Not(is_state(d.t0, c.ret)), has_code(a, zz), plus(d.t0, t, e, [(arc(S, code(a, zz), c.ret, c.this0.default_weight), True)]), empty_at(t, c.ret), same_arcs_but(d.t0, t, e, c.ret))),
          ("the path leads from the source to the result", imp(d.n > 0, sel(Q, 0) == e, sel(Q, d.n) == c.ret))]
    r += [(nm, imp(d.n > 0, g)) for nm, g in mt_path(d, t, a, Q, d.n) + mt_only(d, t, a, Q, d.n)]
    return r


def mt_hist(L):
    return {"state": L.v("state", "int")}


def mt_inv(L):
    lf, rt = L.v("left"), L.v("right")
    d = Sides(L, lf.lv.root == L._args[0].root)
    t, a = L.arg(3), L.this.alphabet
    Q = L.hist("state")
    k = L.iters
    mn = lambda x, y: z3.If(x < y, x, y)
    r = frame(d, L, t, a) + comp_rest(L)
    r += [("one symbol of each side per step", z3.And(k <= d.n, lf.idx == mn(k, d.nl), rt.idx == mn(k, d.nr))),
          ("the path starts at the source", sel(Q, 0) == L.arg0(2)), ("the path is at a state", is_state(t, sel(Q, k))),
          ("at most one state per step", t.transitions.sz <= d.t0.transitions.sz + k)]
    return r + mt_path(d, t, a, Q, k) + mt_only(d, t, a, Q, k)


def acx_inv(L):
    S = L.S
    e, t, ae, a = L.arg_entry(3), L.arg(3), L.this_entry.alphabet, L.this.alphabet
    d = Sides(L, True)
    st, nw, rs, w = L.v("state", "int"), L.v("new_state", "int"), L.v("rsymbol", "int"), L.v("weight_value", "double")
    lab = lambda x: code(a, d.pair(x, rs))
    return alpha_inv(a) + comp_rest(L) + [
        codes_kept(ae, a), arcs_kept(e, t), ("states untouched", z3.And(same_states(e, t), e.transitions.sz == t.transitions.sz)), ("initial and final states untouched", z3.And(e.initial == t.initial, same(e.finals, t.finals))),
        ("arcs of other states untouched", same_arcs_but(e, t, st)),
        ("variants so far are linked", all_(I_, lambda x: imp(sel(L.seen, x), has_code(a, d.pair(x, rs)), z3.Not(no_link(t, st, lab(x), nw))), lambda x: sel(L.seen, x))),
        ("new arcs carry variants", all_(asort(S), lambda b: imp(cnt(t, st, b) > cnt(e, st, b), atgt(S, b) == nw, awt(S, b) == w, some([I_], lambda x: z3.And(sel(L.seen, x), has_code(a, d.pair(x, rs)), atag(S, b) == lab(x)))), lambda b: cnt(t, st, b)))]


CONTRACTS = [
    Contract("Compiler::matchTransduction", TU, None, requires=mt_req, ensures=mt_ens, modifies=["this.alphabet", "arg3.transitions"],
             loops=[Loop(mt_inv, history=mt_hist), Loop(acx_inv)], props=["D21"], timeout=20),
]
