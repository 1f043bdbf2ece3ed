"""the nodes of the run-time transducer: what addTransition adds, copying, and the run-time reader over the file format of T07"""
import z3
from engine import Contract, Loop, Lemma
from values import And, sel, raw, wrap, Unsupported
from speclib import *

ARR = ("Dest::out_tag", "Dest::dest", "Dest::out_weight")
P = dict(props=("R14",), arrays=ARR, timeout=45)


def dest_ok(d):
    return z3.And(0 <= d.size, d.size < 2**31, d.out_tag.len == d.size, d.dest.len == d.size, d.out_weight.len == d.size)


def node_wf(t):
    return all_(I_, lambda s: imp(t.has(s), dest_ok(t[s])), lambda s: [sel(t.dom, s), sel(t.val, s)])


def n_arcs(t, s):
    return z3.If(t.has(s), t[s].size, 0)


def arcs_upto(new, old, n):
    """the first n arcs are the same"""
    return all_(I_, lambda i: imp(z3.And(0 <= i, i < n), new.out_tag[i] == old.out_tag[i], new.dest[i] == old.dest[i], new.out_weight[i] == old.out_weight[i]), lambda i: [new.out_tag[i], new.dest[i], new.out_weight[i]])


def add_ens(c):
    o, n = c.this0.transitions, c.this.transitions
    i, out, d, w = [c.arg0(k) for k in range(4)]
    k = n_arcs(o, i)
    return [("nodes stay well formed", node_wf(n)), ("one more arc for the symbol", z3.And(n.has(i), n[i].size == k + 1)), ("at the end", z3.And(n[i].out_tag[k] == out, n[i].dest[k] == d, n[i].out_weight[k] == w)),
            ("after the arcs there were", imp(o.has(i), arcs_upto(n[i], o[i], k))),
            ("other symbols keep theirs", all_(I_, lambda s: imp(s != i, n.has(s) == o.has(s), sel(n.val, s) == sel(o.val, s)), lambda s: [sel(n.dom, s), sel(n.val, s)]))]


def add_inv(L):
    o, now = L.this0.transitions, L.this.transitions
    sy = L.arg0(0)
    aux = now[sy]
    k, i = n_arcs(o, sy), L.v("i", "int")
    T, D, W = L.v("out_tag"), L.v("dest"), L.v("out_weight")
    return [("size", z3.And(aux.size == k + 1, 0 <= i, i <= k)), ("new arrays", z3.And(T.len == k + 1, D.len == k + 1, W.len == k + 1)), ("old arrays", z3.And(now.has(sy), imp(k > 0, aux.out_tag.len == k, aux.dest.len == k, aux.out_weight.len == k), imp(o.has(sy), arcs_upto(aux, o[sy], k)))),
            ("copied", all_(I_, lambda x: imp(z3.And(0 <= x, x < i), T[x] == aux.out_tag[x], D[x] == aux.dest[x], W[x] == aux.out_weight[x]), lambda x: [T[x], D[x], W[x]])),
            ("other symbols keep theirs", all_(I_, lambda s: imp(s != sy, now.has(s) == o.has(s), sel(now.val, s) == sel(o.val, s)), lambda s: [sel(now.dom, s), sel(now.val, s)]))]


CONTRACTS = [
    Contract("Node::addTransition", "node.cc", None, requires=lambda c: [("node is well formed", node_wf(c.this0.transitions)), ("fewer than 2^31 arcs", n_arcs(c.this0.transitions, c.arg0(0)) < 2**31 - 1)], ensures=add_ens, modifies=["this"], loops=[Loop(add_inv)], **P),
]

from transio_c import fmt, File, mark, r_axioms, r_req, r_throws, same_file
from trans_lib import w0
import alphabet_c

AD = z3.Function("address_of_element", I_, I_)
UN = z3.Function("element_at_address", I_, I_)
A1, A2 = z3.ArraySort(I_, I_), z3.ArraySort(I_, z3.ArraySort(I_, I_))


def TF(c):
    return File(c, z3.IntVal(0))


class Arcs:
    """the arcs of state s after the first j stored ones: how many for each symbol, and the i-th of them"""

    def __init__(self, c):
        self.F = F = TF(c)
        self.S = c.S
        self.al = c.arg0(1)
        self.CT = z3.Function("arcs_of_symbol", I_, I_, A1)
        self.OT = z3.Function("output_of_arc", I_, I_, A2)
        self.DT = z3.Function("target_of_arc", I_, I_, A2)
        self.WT = z3.Function("weight_of_arc", I_, I_, z3.ArraySort(I_, z3.ArraySort(I_, c.S.Dbl)))

    def pair(self, s, j):
        return self.al.spairinv[self.F.lb(s, j)]

    def axioms(self):
        F, f, r = self.F, self.F.f, []
        so = [I_, I_]
        r.append(("no arc yet", all_(so, lambda s, j: imp(j <= 0, self.CT(s, j) == z3.K(I_, z3.IntVal(0))), lambda s, j: self.CT(s, j))))
        y = lambda s, j: self.pair(s, j).first

        def at(s, j): return f.arc_at(F.bs(s), F.w, j - 1)

        def put(fn, val):
            def g(s, j):
                o = fn(s, j - 1)
                return fn(s, j) == z3.Store(o, y(s, j), z3.Store(z3.Select(o, y(s, j)), z3.Select(self.CT(s, j - 1), y(s, j)), val(s, j)))
            return g
        x = lambda s, j: s + f.i(F.d, at(s, j) + 1)
        steps = [(self.CT, lambda s, j: self.CT(s, j) == z3.Store(self.CT(s, j - 1), y(s, j), z3.Select(self.CT(s, j - 1), y(s, j)) + 1)),
                 (self.OT, put(self.OT, lambda s, j: self.pair(s, j).second)), (self.DT, put(self.DT, lambda s, j: AD(z3.If(x(s, j) < F.N, x(s, j), x(s, j) - F.N)))),
                 (self.WT, put(self.WT, lambda s, j: f.weight(F.d, F.w, at(s, j) + 2)))]
        for k, (fn, st) in enumerate(steps):
            r.append(("one more arc %d" % k, all_(so, lambda s, j, st=st: imp(j > 0, st(s, j)), lambda s, j, fn=fn: [(fn(s, j), mark(j))])))
        return r

    def parts(self, t, s, j):
        """t are the arcs of state s after j of them"""
        n = lambda y: sel(self.CT(s, j), y)
        each = lambda get, fn: z3.And(mark(j), all_([I_, I_], lambda y, i: imp(z3.And(0 <= i, i < n(y)), get(t[y])[i] == sel(sel(fn(s, j), y), i)), lambda y, i: get(t[y])[i]))
        return [("as many arcs", z3.And(mark(j), all_(I_, lambda y: n_arcs(t, y) == n(y), lambda y: [sel(t.dom, y), sel(t.val, y), n(y)]))),
                ("well formed", all_(I_, lambda y: imp(t.has(y), dest_ok(t[y])), lambda y: [sel(t.dom, y), sel(t.val, y)])),
                ("their outputs", each(lambda d: d.out_tag, self.OT)), ("their targets", each(lambda d: d.dest, self.DT)), ("their weights", each(lambda d: d.out_weight, self.WT))]

    def holds(self, t, s, j):
        return And([g for _, g in self.parts(t, s, j)])


def x_axioms(c):
    F = TF(c)
    return r_axioms(c, F) + Arcs(c).axioms() + [("addresses of elements differ", all_(I_, lambda i: z3.And(UN(AD(i)) == i, AD(i) != 0), lambda i: AD(i)))]


def x_req(c):
    F = TF(c)
    f = F.f
    return alphabet_c.inv(c.arg0(1)) + r_req(c, F) + [("unweighted arcs weigh nothing", c.this0.default_weight == w0(c.S)), ("final states are states", all_(I_, lambda k: imp(sel(F.fin(f.FD, F.nf), k), 0 <= k, k < F.N), lambda k: sel(F.fin(f.FD, F.nf), k))),
                                                      ("labels are pairs of the alphabet", all_([I_, I_], lambda s, j: imp(z3.And(0 <= s, s < F.N, 0 < j, j <= f.i(F.d, F.bs(s))), 0 <= F.lb(s, j), F.lb(s, j) < c.arg0(1).spairinv.len), lambda s, j: F.lb(s, j)))]


def x_inv_fin(L):
    F, m = TF(L), L.v("myfinals")
    f, left, base = F.f, L.v("finals_size", "int"), L.v("base", "int")
    k = F.nf - left
    return same_file(L, F) + [("initial state", L.this.initial_id == f.i(F.d, F.p1)), ("emptied", z3.And(L.this.node_list.len == 0, L.this.finals.dom == z3.K(I_, z3.BoolVal(False)))),
                              ("final states", z3.And(mark(k), m.dom == F.fin(f.FD, k), all_(I_, lambda x: imp(m.has(x), m[x] == sel(F.fin(f.FV, k), x)), lambda x: [m.has(x), raw(m[x])]))),
                              ("count", z3.And(0 <= left, left <= F.nf, mark(k), mark(k + 1))), ("position", L.arg(0).pos == f.fin_at(F.p, F.w, k)), ("last one", z3.And(base == F.fin(f.KB, k))),
                              ("the rest is sound", imp(k < F.nf, F.fin(f.OKF, k + 1))), ("there is more", F.bs(z3.IntVal(0)) <= F.end)]


def x_fin(F, t, dom):
    """the final nodes are those of the states in dom"""
    f = F.f
    fv = F.fin(f.FV, F.nf)
    return [("finals", z3.And(mark(F.nf), all_(I_, lambda k: t.finals.has(AD(k)) == sel(dom, k), lambda k: [AD(k), sel(dom, k)]), all_(I_, lambda p: imp(t.finals.has(p), p == AD(UN(p))), lambda p: t.finals.has(p)),
                              all_(I_, lambda k: imp(sel(dom, k), t.finals[AD(k)] == sel(fv, k)), lambda k: [AD(k), sel(dom, k)])))]


def x_inv_nodes(L):
    F = TF(L)
    f, t, m = F.f, L.this, L.v("myfinals")
    A = Arcs(L)
    return same_file(L, F) + [("initial state", t.initial_id == f.i(F.d, F.p1)), ("all nodes", z3.And(t.node_list.len == F.N, all_(I_, lambda s: imp(z3.And(0 <= s, s < F.N), all_(I_, lambda y: z3.Not(t.node_list[s].transitions.has(y)), lambda y: sel(t.node_list[s].transitions.dom, y))), lambda s: raw(t.node_list[s])))),
                              ("position", z3.And(L.arg(0).pos == F.bs(z3.IntVal(0)), L.v("base", "int") == F.N, L.v("number_of_states", "int") == F.N, L.v("current_state", "int") == 0)),
                              ("final states", z3.And(mark(F.nf), m.dom == F.fin(f.FD, F.nf), all_(I_, lambda x: imp(m.has(x), m[x] == sel(F.fin(f.FV, F.nf), x)), lambda x: [m.has(x), raw(m[x])])))] + x_fin(F, t, L.seen)


def x_states(L, F, t, s, cur):
    A = Arcs(L)
    f = F.f
    return [("all nodes", t.node_list.len == F.N), ("initial state", t.initial_id == f.i(F.d, F.p1)),
            ("arcs of earlier states", all_(I_, lambda k: imp(z3.And(0 <= k, k < s), A.holds(t.node_list[k].transitions, k, f.i(F.d, F.bs(k)))), lambda k: raw(t.node_list[k]))),
            ("no arcs of later states", all_(I_, lambda k: imp(z3.And(s + (1 if cur else 0) <= k, k < F.N), all_(I_, lambda y: z3.Not(t.node_list[k].transitions.has(y)), lambda y: sel(t.node_list[k].transitions.dom, y))), lambda k: raw(t.node_list[k])))] + x_fin(F, t, F.fin(f.FD, F.nf))


def x_inv_states(L):
    F, t = TF(L), L.this
    f, s, left, base = F.f, L.v("current_state", "int"), L.v("number_of_states", "int"), L.v("base", "int")
    return same_file(L, F) + [("count", z3.And(0 <= s, s <= F.N, left == F.N - s, base == F.N, mark(s), mark(s + 1))), ("position", L.arg(0).pos == F.bs(s)),
                              ("the rest is sound", imp(s < F.N, F.tr(f.OKS, s + 1), F.bs(s + 1) <= F.end, F.bs(s) > F.q))] + x_states(L, F, t, s, False)


def x_inv_arcs(L):
    F, t = TF(L), L.this
    f, s, left, base = F.f, L.v("current_state", "int"), L.v("number_of_states", "int"), L.v("base", "int")
    n = f.i(F.d, F.bs(s))
    more = L.v("number_of_local_transitions", "int")
    j = n - more
    A = Arcs(L)
    return same_file(L, F) + [("count", z3.And(0 <= s, s < F.N, left == F.N - s, base == F.N, mark(s), mark(s + 1))), ("arcs to go", z3.And(0 <= more, more <= n, f.isint(F.d, F.bs(s)), mark(j), mark(j + 1))),
                              ("position", L.arg(0).pos == f.arc_at(F.bs(s), F.w, j)), ("last label", L.v("tagbase", "int") == F.lb(s, j)),
                              ("the rest is sound", z3.And(F.tr(f.OKS, s + 1), F.bs(s + 1) <= F.end, imp(j < n, F.oka(s, j + 1)))),
                              ("few arcs", all_(I_, lambda y: sel(A.CT(s, j), y) <= j, lambda y: sel(A.CT(s, j), y))),
                              ] + A.parts(t.node_list[s].transitions, s, j) + x_states(L, F, t, s, True)


def x_ens(c):
    F, t, n = TF(c), c.this, c.arg(0)
    f, A = F.f, Arcs(c)
    return [("file", z3.And(n.data == F.d, n.len == F.o.len, n.pos == F.end))] + x_states(c, F, t, F.N, False)


CONTRACTS += [Contract("TransExe::destroy", "trans_exe.cc", None, ensures=lambda c: [("empty", z3.And(c.this.node_list.len == 0, c.this.finals.dom == z3.K(I_, z3.BoolVal(False)), c.this.finals.sz == 0))], modifies=["this.node_list", "this.finals"], arrays=ARR, props=("T07",)),
              Contract("TransExe::read", ["trans_exe.cc", "alphabet.cc"], None, requires=x_req, ensures=x_ens, axioms=x_axioms, throws=lambda c: r_throws(c, TF(c)), modifies=["this", "arg0"], tokens=True, ordered=True, arrays=ARR, props=("T07", "R14"), timeout=60, elemptr=lambda c: TF(c).N,
                       loops=[Loop(x_inv_fin), Loop(x_inv_nodes), Loop(x_inv_states), Loop(x_inv_arcs)])]
