"""MatchState: the set of nodes reached; which class they give"""
import z3
from engine import Contract, Loop, Lemma, Iter
from values import And, sel, raw, Unsupported
from speclib import *
from sorted_c import SVA, sv_wf, tags_inc

ARR = SVA + ("MatchState::state",)
L = 1024
HEAPT = "rec_MatchNode"


def size(m):
    return z3.If(m.last >= m.first, m.last - m.first, m.last + L - m.first)


def act(lo, hi, x):
    """slot x of the ring lies in [lo, hi)"""
    return z3.And(0 <= x, x < L, z3.If(lo <= hi, z3.And(lo <= x, x < hi), z3.Or(x >= lo, x < hi)))


def active(m, x):
    return act(m.first, m.last, x)


def cnt(lo, hi):
    return z3.If(hi >= lo, hi - lo, hi + L - lo)


def wf(m):
    return [("positions inside the ring", z3.And(m.state.len == L, 0 <= m.first, m.first < L, 0 <= m.last, m.last < L))]


SUCC = z3.Function("succ", I_, I_, I_)     # node, tag -> destination or 0


def nodes_ok(c, m):
    """every active node has a sorted transition table, and succ is what these tables say"""
    S = c.S
    t = parse("MatchNode")
    hv = T("vec", "heap", (t,))
    H = z3.Const("heap_" + HEAPT, S.dt(hv).sort)
    d, dn = S.dt(hv), S.dt(t)
    tr = lambda p: wrap(S, dn.ftypes[dn.idx["transitions"]], dn.get(sel(d.get(H, "arr"), p), "transitions"))
    ent = lambda p, i: tr(p).sv[i]
    return [("active nodes exist and have a sorted table", all_(I_, lambda x: imp(active(m, x), m.state[x] != 0, And([g for _, g in sv_wf(tr(m.state[x]))]), tags_inc(tr(m.state[x]))), lambda x: [sel(m.state.arr, x)])),
            ("succ: the destination of the entry with that tag", all_([I_, I_], lambda p, i: imp(z3.And(0 <= i, i < tr(p).size), SUCC(p, ent(p, i).tag) == ent(p, i).dest), lambda p, i: [sel(tr(p).sv.arr, i)])),
            ("succ: none without such an entry", all_([I_, I_], lambda p, t_: imp(all_(I_, lambda i: imp(z3.And(0 <= i, i < tr(p).size), ent(p, i).tag != t_), lambda i: sel(tr(p).sv.arr, i)), SUCC(p, t_) == 0), lambda p, t_: [SUCC(p, t_)]))]


def step_pre(nsym):
    def f(c):
        m = c.this
        return wf(m) + nodes_ok(c, m) + [("room for the nodes reached", (nsym + 1) * size(m) < L)]
    return f


def reached(st0, src, st1, dst, tags):
    """the nodes st1[x], x in dst, are exactly the successors of the nodes st0[x], x in src"""
    return [("every node kept is a successor", all_(I_, lambda a: imp(dst(a), some(I_, lambda k: z3.And(src(k), st1[a] != 0, z3.Or(*[st1[a] == SUCC(st0[k], t) for t in tags])))), lambda a: [sel(st1.arr, a)])),
            ("every successor is kept", And([all_(I_, lambda k: imp(z3.And(src(k), SUCC(st0[k], t) != 0), some(I_, lambda a: z3.And(dst(a), st1[a] == SUCC(st0[k], t)))), lambda k: [SUCC(st0[k], t)]) for t in tags]))]


def step_ens(nsym):
    def f(c):
        m0, m = c.this0, c.this
        tags = [c.arg0(i) for i in range(nsym)]
        return wf(m) + reached(m0.state, lambda x: active(m0, x), m.state, lambda x: active(m, x), tags) + [("no more than could be reached", size(m) <= nsym * size(m0))]
    return f


def step_inv(nsym):
    def f(c):
        m0, m = c.this0, c.this
        tags = [c.arg0(i) for i in range(nsym)]
        i, ml = c.v("i"), c.v("mylast")
        k, n = cnt(m0.first, i), cnt(ml, m.last)
        return wf(m) + [("start and end as they were", z3.And(m.first == m0.first, ml == m0.last, 0 <= i, i < L, k <= size(m0))),
                        ("nodes of the step untouched", all_(I_, lambda x: imp(active(m0, x), m.state[x] == m0.state[x]), lambda x: [sel(m.state.arr, x)])),
                        ("count", z3.And(0 <= n, n <= nsym * k))] + reached(m0.state, lambda x: act(m0.first, i, x), m.state, lambda x: act(ml, m.last, x), tags)
    return f


def cls_pre(c):
    m = c.this
    return wf(m) + [("classes are numbers below the largest", all_(I_, lambda p: imp(c.arg(0).has(p), c.arg(0)[p] < 2**31 - 1)))]


def good(c, banned, p, cl):
    return z3.And(c.arg0(0).has(p), c.arg0(0)[p] == cl, z3.Not(banned(cl)))


def cls_ens(banned):
    def f(c):
        m = c.this0
        b = banned(c)
        fc = c.arg0(0)
        nd = lambda x: m.state[x]
        return [("a class of an active node that is not banned, or -1", z3.Or(some(I_, lambda x: z3.And(active(m, x), good(c, b, nd(x), c.ret))),
                                                                           z3.And(c.ret == -1, all_(I_, lambda x: imp(z3.And(active(m, x), fc.has(nd(x))), b(fc[nd(x)])), lambda x: [sel(m.state.arr, x)])))),
                ("the least such class", all_(I_, lambda x: imp(z3.And(active(m, x), fc.has(nd(x)), z3.Not(b(fc[nd(x)]))), c.ret <= fc[nd(x)]), lambda x: [sel(m.state.arr, x)]))]
    return f


def cls_inv(c):
    m, fc, b = c.this, c.arg0(0), (lambda x: c.arg0(1).has(x))
    i, r = c.v("i"), c.v("result")
    nd = lambda x: m.state[x]
    done = lambda x: act(m.first, i, x)
    return [("position", z3.And(0 <= i, i < L, cnt(m.first, i) <= size(m))),
            ("least so far", all_(I_, lambda a: imp(z3.And(done(a), fc.has(nd(a)), z3.Not(b(fc[nd(a)]))), r <= fc[nd(a)]), lambda a: [sel(m.state.arr, a)])),
            ("is one of them, or none yet", z3.Or(some(I_, lambda a: z3.And(done(a), good(c, b, nd(a), r))),
                                                  z3.And(r == 2**31 - 1, all_(I_, lambda a: imp(z3.And(done(a), fc.has(nd(a))), b(fc[nd(a)])), lambda a: [sel(m.state.arr, a)]))))]


def copy_ens(c):
    m, s = c.this, c.arg0(0)
    return [("same positions", z3.And(m.first == s.first, m.last == s.last)), ("own ring, same nodes", z3.And(m.state.len == L, all_(I_, lambda i: imp(z3.And(0 <= i, i < L), m.state[i] == s.state[i]), lambda i: sel(m.state.arr, i))))]


def copy_inv(c):
    m, s, i = c.this, c.arg(0), c.v("i")
    return [("copied so far", z3.And(0 <= i, i <= L, m.state.len == L, s.state.len == L, all_(I_, lambda k: imp(z3.And(0 <= k, k < i), m.state[k] == s.state[k]), lambda k: sel(m.state.arr, k))))]


def M(key, sig=None, **kw):
    kw.setdefault("inline", True)
    return Contract("MatchState::" + key, "match_state.cc", sig, arrays=ARR, props=("M20",), **kw)


CONTRACTS = [
    M("MatchState", "void ()", modifies=("this",), ensures=lambda c: wf(c.this) + [("no active node", size(c.this) == 0)]),
    M("MatchState", "(const MatchState &)", requires=lambda c: wf(c.arg(0)), modifies=("this",), ensures=copy_ens, loops=[Loop(inv=copy_inv)]),
    M("operator=", requires=lambda c: wf(c.arg(0)), modifies=("this",), ensures=copy_ens, loops=[Loop(inv=copy_inv)]),
    M("operator=", requires=lambda c: wf(c.this), modifies=(), alias={0: "this"}, note="self-assignment", ensures=lambda c: [("nothing changes", same(c.this, c.this0))], loops=[Loop(inv=copy_inv)]),
    M("size", requires=lambda c: wf(c.this), ensures=lambda c: [("number of active nodes", c.ret == size(c.this))]),
    M("init", requires=lambda c: wf(c.this), modifies=("this",), ensures=lambda c: wf(c.this) + [("the initial node, alone", z3.And(size(c.this) == 1, c.this.state[c.this.first] == c.arg0(0)))]),
    M("clear", requires=lambda c: wf(c.this), modifies=("this.first", "this.last"), ensures=lambda c: wf(c.this) + [("no active node", size(c.this) == 0)]),
    M("step", "void (const int)", requires=step_pre(1), modifies=("this",), ensures=step_ens(1), loops=[Loop(inv=step_inv(1))], timeout=30),
    M("step", "void (const int, const int)", requires=step_pre(2), modifies=("this",), ensures=step_ens(2), loops=[Loop(inv=step_inv(2))], timeout=30),
    M("classifyFinals", "const std::set<int> &) const", requires=cls_pre, ensures=cls_ens(lambda c: (lambda x: c.arg0(1).has(x))), loops=[Loop(inv=cls_inv)]),
]
