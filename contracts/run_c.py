"""State at run time: the nodes reached and what was written on the way, for the real memory handling (pool of sequences)"""
import z3
from engine import Contract, Loop, Lemma
from values import And, sel, raw, wrap, Unsupported
from ctypes_ import T, parse
from speclib import *

SEQ = "std::vector<std::pair<int, double>>"
ARR = ("Dest::out_tag", "Dest::dest", "Dest::out_weight")
MEM = ("heap." + SEQ, "alive." + SEQ)
HEAPS = (SEQ,)


def rng(a, i, b):
    return z3.And(a <= i, i < b)


def distinct(v, lo, hi, f=lambda x: x):
    """the entries of v in [lo, hi) are different objects"""
    return all_([I_, I_], lambda i, j: imp(z3.And(lo <= i, i < j, j < hi), f(v[i]) != f(v[j])), lambda i, j: [(sel(v.arr, i), sel(v.arr, j))])


def pool_ok(m, al):
    p = m.sequence_pool
    return [("sequences in the pool are alive", all_(I_, lambda i: imp(rng(0, i, p.len), p[i] != 0, sel(al, p[i])), lambda i: sel(p.arr, i))),
            ("and each there once", distinct(p, 0, p.len))]


def notin(p, x):
    return all_(I_, lambda i: imp(rng(0, i, p.len), p[i] != x), lambda i: sel(p.arr, i))


def held(m, al, v, lo, hi):
    """the sequences of the entries [lo, hi) of v are alive, not in the pool, and each is used once"""
    p = m.sequence_pool
    return [("sequences in use are alive", all_(I_, lambda i: imp(rng(lo, i, hi), v[i].sequence != 0, sel(al, v[i].sequence)), lambda i: sel(v.arr, i))),
            ("and not in the pool", all_([I_, I_], lambda i, j: imp(z3.And(rng(lo, i, hi), rng(0, j, p.len)), v[i].sequence != p[j]), lambda i, j: [(sel(v.arr, i), sel(p.arr, j))])),
            ("and not shared", distinct(v, lo, hi, lambda e: e.sequence))]


def apart(v, lo, hi, w, lo2, hi2):
    return all_([I_, I_], lambda i, j: imp(z3.And(rng(lo, i, hi), rng(lo2, j, hi2)), v[i].sequence != w[j].sequence), lambda i, j: [(sel(v.arr, i), sel(w.arr, j))])


def frame(c):
    """no sequence in use before changes; nothing dies"""
    h0, h1, a0, a1, p0 = c.heap0(SEQ), c.heap(SEQ), c.alive0(SEQ), c.alive(SEQ), c.this0.sequence_pool
    return [("sequences in use are untouched", all_(I_, lambda x: imp(z3.And(sel(a0, x), notin(p0, x)), same(h1[x], h0[x])), lambda x: sel(h1.arr, x))),
            ("no sequence dies", all_(I_, lambda x: imp(sel(a0, x), sel(a1, x)), lambda x: sel(a1, x)))]


def prefix(c):
    p0, p = c.this0.sequence_pool, c.this.sequence_pool
    return [("the pool only gives", z3.And(p.len <= p0.len, all_(I_, lambda i: imp(rng(0, i, p.len), p[i] == p0[i]), lambda i: sel(p.arr, i))))]


def source(c, x):
    """x is new, or was in the pool and no longer is"""
    p0, p = c.this0.sequence_pool, c.this.sequence_pool
    return z3.Or(z3.Not(sel(c.alive0(SEQ), x)), some(I_, lambda j: z3.And(p.len <= j, j < p0.len, p0[j] == x)))


def ns_ens(c):
    r, a1 = c.ret, c.alive(SEQ)
    h0, h1 = c.heap0(SEQ), c.heap(SEQ)
    return prefix(c) + frame(c) + [("a sequence that lives", z3.And(r != 0, sel(a1, r))), ("and was not in use", source(c, r)),
                                   ("nothing else is touched", all_(I_, lambda x: imp(x != r, same(h1[x], h0[x]), sel(a1, x) == sel(c.alive0(SEQ), x)), lambda x: [sel(h1.arr, x), sel(a1, x)]))]


def fs_ens(c):
    p0, p = c.this0.sequence_pool, c.this.sequence_pool
    return [("one more in the pool", z3.And(p.len == p0.len + 1, p[p0.len] == c.arg0(0), all_(I_, lambda i: imp(rng(0, i, p0.len), p[i] == p0[i]), lambda i: sel(p.arr, i))))]


def node(c, n):
    return c.heap0("Node")[n].transitions


def node_ok(c, n):
    t = node(c, n)
    return all_(I_, lambda s: imp(t.has(s), 0 <= t[s].size, t[s].size <= t[s].out_tag.len, t[s].size <= t[s].dest.len, t[s].size <= t[s].out_weight.len), lambda s: [sel(t.dom, s), sel(t.val, s)])


def narcs(c, n, s):
    t = node(c, n)
    return z3.If(t.has(s), t[s].size, 0)


def extends(new, old, put, tag, w):
    """new is old, with (tag, w) added if put"""
    n = old.len
    return [new.len == n + z3.If(put, 1, 0), all_(I_, lambda i: imp(rng(0, i, n), same(new[i], old[i])), lambda i: sel(new.arr, i)), imp(put, new[n].first == tag, new[n].second == w)]


def move(c, e, h, src, h0, s, j, dirty, tag=lambda t: t):
    """entry e is what arc j with symbol s from entry src leads to"""
    d = node(c, src.where)[s]
    return z3.And(e.where == d.dest[j], e.dirty == z3.Or(src.dirty, dirty), *extends(h[e.sequence], h0[src.sequence], s != 0, tag(d.out_tag[j]), d.out_weight[j]))


def ai_pre(ns):
    def f(c):
        m, v, i = c.this, c.arg(0), c.arg(ns)
        al = c.alive(SEQ)
        e = m.state[i]
        return pool_ok(m, al) + [("entry exists", rng(0, i, m.state.len)), ("its sequence lives", z3.And(e.sequence != 0, sel(al, e.sequence))), ("and is not in the pool", notin(m.sequence_pool, e.sequence)),
                                 ("its node", z3.And(e.where != 0, node_ok(c, e.where)))] + held(m, al, v, 0, v.len)
    return f


def ai_core(c, ns, j, tag):
    m, v0, v, i = c.this, c.arg0(0), c.arg(0), c.arg0(ns)
    src = c.this0.state[i]
    s = c.arg0(1)
    return prefix(c) + frame(c) + pool_ok(m, c.alive(SEQ)) + held(m, c.alive(SEQ), v, 0, v.len) + [
        ("entries before stay", all_(I_, lambda x: imp(rng(0, x, v0.len), same(v[x], v0[x])), lambda x: sel(v.arr, x))),
        ("number", v.len == v0.len + j),
        ("one entry per arc, in order", all_(I_, lambda x: imp(rng(v0.len, x, v.len), move(c, v[x], c.heap(SEQ), src, c.heap0(SEQ), s, x - v0.len, c.arg0(ns + 1), tag)), lambda x: sel(v.arr, x))),
        ("with sequences not in use before", all_(I_, lambda x: imp(rng(v0.len, x, v.len), source(c, v[x].sequence)), lambda x: sel(v.arr, x)))]


def ai_inv(ns, tag=lambda c: (lambda t: t)):
    return lambda c: [("arc", z3.And(0 <= c.v("j"), c.v("j") <= node(c, c.this0.state[c.arg0(ns)].where)[c.arg0(1)].size))] + ai_core(c, ns, c.v("j"), tag(c))


def ai_ens(ns, tag=lambda c: (lambda t: t)):
    def f(c):
        n = c.this0.state[c.arg0(ns)].where
        return [("whether there is such an arc", c.ret == node(c, n).has(c.arg0(1)))] + ai_core(c, ns, narcs(c, n, c.arg0(1)), tag(c))
    return f


def GS(c, nm):
    return c.ghost(nm, z3.ArraySort(I_, z3.BoolSort()))


def graph(c):
    """G: a set of nodes with sound arc tables, closed under arcs"""
    G = GS(c, "nodes")
    t = lambda n: node(c, n)
    return [("nodes are sound", all_([I_, I_], lambda n, s: imp(sel(G, n), n != 0, imp(t(n).has(s), 0 <= t(n)[s].size, t(n)[s].size <= t(n)[s].out_tag.len, t(n)[s].size <= t(n)[s].dest.len, t(n)[s].size <= t(n)[s].out_weight.len)),
                                     lambda n, s: [sel(t(n).dom, s), sel(t(n).val, s)])),
            ("no null node", z3.Not(sel(G, 0))),
            ("and closed under arcs", all_([I_, I_, I_], lambda n, s, j: imp(z3.And(sel(G, n), t(n).has(s), 0 <= j, j < t(n)[s].size), sel(G, t(n)[s].dest[j])), lambda n, s, j: sel(t(n)[s].dest.arr, j)))]


def within(c, v, lo, hi):
    return all_(I_, lambda k: imp(rng(lo, k, hi), sel(GS(c, "nodes"), v[k].where)), lambda k: sel(v.arr, k))


def live_others(c):
    """O: sequences that belong to someone else"""
    O = GS(c, "others")
    return [("sequences of others are alive", all_(I_, lambda x: imp(sel(O, x), x != 0, sel(c.alive(SEQ), x)), lambda x: [sel(O, x), sel(c.alive(SEQ), x)]))]


def pool_others(c):
    O, p = GS(c, "others"), c.this.sequence_pool
    return [("no sequence of others in the pool", all_(I_, lambda j: imp(rng(0, j, p.len), z3.Not(sel(O, p[j]))), lambda j: sel(p.arr, j)))]


def seq_others(c, v, lo, hi):
    O = GS(c, "others")
    return [("no sequence of others in use", all_(I_, lambda k: imp(rng(lo, k, hi), z3.Not(sel(O, v[k].sequence))), lambda k: sel(v.arr, k)))]


def keep_others(c):
    O, h0, h1 = GS(c, "others"), c.heap0(SEQ), c.heap(SEQ)
    return [("sequences of others are untouched", all_(I_, lambda x: imp(sel(O, x), same(h1[x], h0[x])), lambda x: sel(h1.arr, x)))]


def wf(c):
    m, al = c.this, c.alive(SEQ)
    v = m.state
    return live_others(c) + pool_others(c) + seq_others(c, v, 0, v.len) + pool_ok(m, al) + held(m, al, v, 0, v.len) + [("nodes in use", within(c, v, 0, v.len))]


def cnt(c, n, s):
    t = node(c, n)
    return z3.If(z3.And(t.has(s), t[s].size > 0), t[s].size, 0)


class Plan:
    """what one kind of step does with each entry: (symbol, dirty, condition on the node, renaming of tags)..."""

    def __init__(self, kind, c, steps, params, same_as=()):
        """same_as: (condition, plan): this plan is that one where the condition holds"""
        self.kind, self.c, self.steps, self.params, self.same_as = kind, c, steps, params, same_as
        A = c.this0.state.arr.sort()
        self.Pf = z3.Function("arcs_before_" + kind, A, *[I_] * len(params), I_, I_)
        self.Kf = z3.Function("entry_of_" + kind, A, *[I_] * len(params), I_, I_)

    def P0(self, i):
        return self.Pf(self.c.this0.state.arr, *self.params, i)

    def K0(self, x):
        return self.Kf(self.c.this0.state.arr, *self.params, x)

    def P(self, i):
        r = self.P0(i)
        for cond, p in reversed(self.same_as):
            r = z3.If(cond, p.P(i), r)
        return r

    def K(self, x):
        r = self.K0(x)
        for cond, p in reversed(self.same_as):
            r = z3.If(cond, p.K(x), r)
        return r

    def counts(self, n):
        return [z3.If(cond(n), cnt(self.c, n, s), 0) for s, d, cond, tag in self.steps]

    def n(self, node_):
        r = z3.IntVal(0)
        for x in self.counts(node_):
            r = r + x
        return r

    def where(self, i):
        return self.c.this0.state[i].where

    def axioms(self):
        """P(i): arcs followed from the entries before i;  K(x): the entry whose block contains x"""
        a = self.c.this0.state.arr
        P, K = self.P0, self.K0
        r = [("arcs before the first entry", P(0) == 0),
             ("arcs before the next entry", all_(I_, lambda i: imp(0 <= i, P(i + 1) == P(i) + self.n(self.where(i))), lambda i: [(sel(a, i), P(i))])),
             ("block of an arc", all_([I_, I_], lambda i, x: imp(z3.And(0 <= i, P(i) <= x, x < P(i) + self.n(self.where(i))), K(x) == i), lambda i, x: [(P(i), K(x), sel(a, i))]))]
        for cond, p in self.same_as:
            r += p.axioms()
        return r

    def image(self, c, v, x):
        """entry v[x] is what the plan makes of entry K(x), for its arc x - P(K(x))"""
        k = self.K(x)
        src = c.this0.state[k]
        y = x - self.P(k)
        off, out = z3.IntVal(0), []
        for (s, d, cond, tag), n in zip(self.steps, self.counts(src.where)):
            out.append(imp(z3.And(off <= y, y < off + n), move(c, v[x], c.heap(SEQ), src, c.heap0(SEQ), s, y - off, z3.BoolVal(d), tag)))
            off = off + n
        return z3.And(0 <= k, k < c.this0.state.len, 0 <= y, y < off, *out)


def ident(t):
    return t


def always(n):
    return z3.BoolVal(True)


def plan1_(c, a):
    return Plan("1", c, [(a, False, always, ident)], [a])


def plan2_(c, a, b):
    return Plan("2", c, [(a, False, always, ident), (b, True, lambda n: a != b, ident)], [a, b], [(a == b, plan1_(c, a))])


def plan3_(c, a, b, d):
    return Plan("3", c, [(a, False, always, ident), (b, True, lambda n: a != b, ident), (d, True, lambda n: a != d, ident)], [a, b, d], [(a == b, plan2_(c, a, d)), (a == d, plan2_(c, a, b))])


def plan_careful_(c, a, b):
    return Plan("careful", c, [(a, False, always, ident), (b, True, lambda n: z3.Not(node(c, n).has(a)), ident)], [a, b])


def rename(o, n):
    return lambda t: z3.If(t == o, n, t)


def plan_ov3_(c, a, o, n):
    return Plan("override", c, [(a, False, always, rename(o, n)), (o, True, always, rename(o, n))], [a, o, n])


def plan_ov4_(c, a, b, o, n):
    return Plan("override_alt", c, [(a, False, always, rename(o, n)), (b, True, lambda q: a != b, rename(o, n)), (o, True, always, rename(o, n))], [a, b, o, n], [(a == b, plan_ov3_(c, a, o, n))])


def of_args(f, n):
    return lambda c: f(c, *[c.arg0(i) for i in range(n)])


plan1, plan2, plan3, plan_careful, plan_ov3, plan_ov4 = of_args(plan1_, 1), of_args(plan2_, 2), of_args(plan3_, 3), of_args(plan_careful_, 2), of_args(plan_ov3_, 3), of_args(plan_ov4_, 4)


def loop_inv(plan):
    def f(c):
        m, m0, al, i = c.this, c.this0, c.alive(SEQ), c.v("i")
        v, w = m.state, c.v("new_state")
        p = plan(c)
        h0, h1 = c.heap0(SEQ), c.heap(SEQ)
        n0 = m0.state.len
        return [("entry", z3.And(0 <= i, i <= n0, c.v("limit") == n0)), ("state is as before", same(v, m0.state))] + live_others(c) + pool_others(c) + seq_others(c, w, 0, w.len) + keep_others(c) + pool_ok(m, al) + \
            [(a + " (entries to come)", b) for a, b in held(m, al, m0.state, i, n0)] + held(m, al, w, 0, w.len) + \
            [("new and old sequences are apart", apart(m0.state, i, n0, w, 0, w.len)),
             ("old sequences still to be used", all_(I_, lambda k: imp(rng(i, k, n0), same(h1[m0.state[k].sequence], h0[m0.state[k].sequence])), lambda k: sel(m0.state.arr, k))),
             ("nodes", within(c, w, 0, w.len)),
             ("number of arcs", w.len == p.P(i)),
             ("one entry per arc, in order", all_(I_, lambda x: imp(rng(0, x, w.len), p.image(c, w, x)), lambda x: sel(w.arr, x)))]
    return f


def apply_ens(plan, zero):
    def f(c):
        p, v = plan(c), c.this.state
        z = zero(c)
        return wf(c) + keep_others(c) + [("symbol 0 leaves nothing", imp(z, v.len == 0)),
                                         ("number of arcs", imp(z3.Not(z), v.len == p.P(c.this0.state.len))),
                                         ("one entry per arc, in order", imp(z3.Not(z), all_(I_, lambda x: imp(rng(0, x, v.len), p.image(c, v, x)), lambda x: sel(v.arr, x))))]
    return f


def EF(c):
    A = c.this0.state.arr.sort()
    return z3.Function("eps_before", A, I_, I_), z3.Function("eps_entry", A, I_, I_)


def ent(c, arr, i):
    """entry i of an array of entries"""
    return wrap(c.S, c.eng.canon(parse("State::TNodeState"), c.eng.tus[0]), z3.Select(arr, i))


def eps_ax(c):
    """E(a, i): epsilon arcs of the first i entries;  K(a, y): the entry the y-th such arc belongs to (lemma "queue of epsilon arcs")"""
    E, K = EF(c)
    A = c.this0.state.arr.sort()
    V = A.range()
    n = lambda a, i: cnt(c, ent(c, a, i).where, z3.IntVal(0))
    st = z3.Store
    return [("first", all_(A, lambda a: E(a, 0) == 0, lambda a: E(a, 0))),
            ("next", all_([A, I_], lambda a, i: imp(0 <= i, E(a, i + 1) == E(a, i) + n(a, i)), lambda a, i: [(sel(a, i), E(a, i))])),
            ("grows", all_([A, I_, I_], lambda a, i, k: imp(z3.And(0 <= i, i <= k), E(a, i) <= E(a, k)), lambda a, i, k: [(E(a, i), E(a, k))])),
            ("entry", all_([A, I_, I_], lambda a, i, y: imp(z3.And(0 <= i, E(a, i) <= y, y < E(a, i) + n(a, i)), K(a, y) == i), lambda a, i, y: [(E(a, i), K(a, y), sel(a, i))])),
            ("later entries do not matter", all_([A, I_, V, I_], lambda a, m, v, i: imp(z3.And(0 <= i, i <= m), E(st(a, m, v), i) == E(a, i)), lambda a, m, v, i: E(st(a, m, v), i))),
            ("nor for the entry of an arc", all_([A, I_, V, I_], lambda a, m, v, y: imp(z3.And(0 <= y, 0 <= m, y < E(a, m)), K(st(a, m, v), y) == K(a, y)), lambda a, m, v, y: K(st(a, m, v), y)))]


def lem_queue():
    V = z3.DeclareSort("Entry")
    A = z3.ArraySort(I_, V)
    n, E = z3.Function("arcs", V, I_), z3.Function("E", A, I_, I_)
    a, m, v = z3.Const("a", A), z3.Int("m"), z3.Const("v", V)
    i, k, y, x = z3.Ints("i k y x")
    b = z3.Store(a, m, v)
    nn = z3.ForAll([z3.Const("u", V)], n(z3.Const("u", V)) >= 0)
    df = lambda t, j: z3.And(E(t, 0) == 0, z3.Implies(j >= 0, E(t, j + 1) == E(t, j) + n(t[j])))
    mono = lambda t, p, q: z3.Implies(z3.And(0 <= p, p <= q), E(t, p) <= E(t, q))
    cong = lambda j: z3.Implies(z3.And(0 <= j, j <= m), E(b, j) == E(a, j))
    blk = lambda t, j, w: z3.And(0 <= j, E(t, j) <= w, w < E(t, j) + n(t[j]))
    has = lambda j, w: z3.Implies(z3.And(0 <= w, w < E(a, j)), z3.Exists([x], z3.And(x < j, blk(a, x, w))))
    return [("grows: base", mono(a, i, i)), ("grows: step", z3.Implies(z3.And(nn, df(a, k), i <= k, mono(a, i, k)), mono(a, i, k + 1))),
            ("an arc has one entry", z3.Implies(z3.And(nn, df(a, i), df(a, k), mono(a, i + 1, k), mono(a, k + 1, i), blk(a, i, y), blk(a, k, y)), i == k)),
            ("later entries do not matter: base", z3.Implies(z3.And(df(a, 0), df(b, 0)), cong(z3.IntVal(0)))), ("later entries do not matter: step", z3.Implies(z3.And(i >= 0, cong(i), df(a, i), df(b, i)), cong(i + 1))),
            ("an arc has an entry: base", z3.Implies(df(a, 0), has(z3.IntVal(0), y))), ("an arc has an entry: step", z3.Implies(z3.And(nn, m >= 0, df(a, m), has(m, y)), has(m + 1, y))),
            ("which later entries do not change", z3.Implies(z3.And(cong(k), k < m, blk(a, k, y)), blk(b, k, y)))]


def eps_image(c, v, x, n0, top):
    """entry x (not one of the first n0) is what an epsilon arc of an earlier entry leads to"""
    E, K = EF(c)
    h = c.heap(SEQ)
    k = K(v.arr, x - n0)
    src = v[k]
    y = x - n0 - E(v.arr, k)
    d = node(c, src.where)[0]
    return z3.And(0 <= k, k < top, k < x, 0 <= y, y < cnt(c, src.where, z3.IntVal(0)), v[x].where == d.dest[y], v[x].dirty == src.dirty, *extends(h[v[x].sequence], h[src.sequence], d.out_tag[y] != 0, d.out_tag[y], d.out_weight[y]))


def eps_core(c, n0, before, top):
    m, v, h0, h1 = c.this, c.this.state, c.heap0(SEQ), c.heap(SEQ)
    v0 = c.this0.state
    return wf(c) + keep_others(c) + prefix(c) + frame(c) + [
        ("new entries have sequences not in use before", all_(I_, lambda x: imp(rng(n0, x, v.len), source(c, v[x].sequence)), lambda x: sel(v.arr, x))),
        ("entries before stay", z3.And(n0 <= v.len, all_(I_, lambda k: imp(rng(0, k, n0), same(v[k], v0[k])), lambda k: sel(v.arr, k)))),
        ("with their sequences", all_(I_, lambda k: imp(rng(0, k, n0), same(h1[v0[k].sequence], h0[v0[k].sequence])), lambda k: sel(v0.arr, k))),
        ("number of epsilon arcs", v.len == n0 + before),
        ("one entry per epsilon arc, in order", all_(I_, lambda x: imp(rng(n0, x, v.len), eps_image(c, v, x, n0, top)), lambda x: sel(v.arr, x)))]


def eps_inv0(c):
    i, v = c.v("i"), c.this.state
    E, K = EF(c)
    return [("entry", z3.And(0 <= i, i <= v.len))] + eps_core(c, c.this0.state.len, E(v.arr, i), i)


def eps_inv1(c):
    i, j, v = c.v("i"), c.v("j"), c.this.state
    E, K = EF(c)
    return [("entry", z3.And(0 <= i, i < v.len, node(c, v[i].where).has(0), 0 <= j, j <= node(c, v[i].where)[0].size)), ("this entry", same(v[i], c.this_entry.state[i]))] + eps_core(c, c.this0.state.len, E(v.arr, i) + j, i + 1)


def eps_ens(c):
    v = c.this.state
    return eps_core(c, c.this0.state.len, EF(c)[0](v.arr, v.len), v.len)


def stepped(c, p, z):
    """the state is what plan p makes of it (nothing if z), and what epsilon arcs then reach"""
    v, n0 = c.this.state, c.this0.state.len
    E, K = EF(c)
    n1 = z3.If(z, 0, p.P(n0))
    return [("the arcs of the step", z3.And(n1 <= v.len, imp(z3.Not(z), all_(I_, lambda x: imp(rng(0, x, n1), p.image(c, v, x)), lambda x: sel(v.arr, x))))),
            ("number of epsilon arcs", v.len == n1 + E(v.arr, v.len)),
            ("then epsilon arcs", all_(I_, lambda x: imp(rng(n1, x, v.len), eps_image(c, v, x, n1, v.len)), lambda x: sel(v.arr, x)))]


def S(key, sig, plan, zero, **kw):
    return M(key, sig, requires=st_pre, assumes=cap, modifies=WHOLE, axioms=lambda c: plan(c).axioms() + eps_ax(c), ensures=lambda c: wf(c) + keep_others(c) + stepped(c, plan(c), zero(c)), **kw)


def anyzero(*ix):
    return lambda c: z3.Or([c.arg0(i) == 0 for i in ix])


def icu(nm):
    return z3.Function("ext_" + nm, I_, I_)


def case_of(c, cases):
    """cases: (condition, plan, zero symbols); the first whose condition holds"""
    r, before = wf(c) + keep_others(c), []
    for nm, cond, p, z in cases:
        g = z3.And(cond, *before)
        r += [(nm + ": " + a, z3.Implies(g, b)) for a, b in stepped(c, p, z3.Or([x == 0 for x in z]))]
        before.append(z3.Not(cond))
    return r


def plain(c, cs):
    return z3.Or(icu("u_isupper")(c.arg0(0)) == 0, c.arg0(cs))


def sc2(c):
    a, b = c.arg0(0), c.arg0(1)
    l = icu("u_tolower")(a)
    return [("as written", plain(c, 2), plan2_(c, a, b), [a, b]), ("either case", a != l, plan3_(c, a, l, b), [a, l, b]), ("no lower case", z3.BoolVal(True), plan2_(c, a, b), [a, b])]


def sc1(c):
    a = c.arg0(0)
    l = icu("u_tolower")(a)
    return [("as written", plain(c, 1), plan1_(c, a), [a]), ("either case", z3.BoolVal(True), plan2_(c, a, l), [a, l])]


def sco(c):
    a = c.arg0(0)
    l = icu("u_tolower")(a)
    return [("as written", plain(c, 1), plan1_(c, a), [a]), ("either case", z3.BoolVal(True), plan_ov4_(c, a, l, l, a), [a, l])]


def SC(key, sig, cases, **kw):
    return M(key, sig, requires=st_pre, assumes=cap, modifies=WHOLE, axioms=lambda c: [x for k in cases(c) for x in k[2].axioms()] + eps_ax(c), ensures=lambda c: case_of(c, cases(c)), **kw)


def st_pre(c):
    return wf(c) + graph(c)


def cap(c):
    return [("fewer than 2^31 active entries", c.this0.state.len < 2**31)]


def M(key, sig=None, **kw):
    kw.setdefault("timeout", 45)
    kw.setdefault("modifies", ("this.sequence_pool",) + MEM)
    return Contract("State::" + key, "state.cc", sig, arrays=ARR, heaps=HEAPS, props=("R14",), **kw)


def fin_ens(c):
    v, f = c.this0.state, c.arg0(0)
    return [("some entry is at a final node", c.ret == some(I_, lambda k: z3.And(rng(0, k, v.len), f.has(v[k].where))))]


def fin_inv(c):
    v, f, i = c.this0.state, c.arg0(0), c.v("i")
    return [("none so far", z3.And(0 <= i, i <= v.len, c.v("limit") == v.len, all_(I_, lambda k: imp(rng(0, k, i), z3.Not(f.has(v[k].where))), lambda k: sel(v.arr, k))))]


def seq_of(c, k):
    return c.heap0(SEQ)[c.this0.state[k].sequence]


def has_ens(c):
    v = c.this0.state
    return [("some entry has the symbol", c.ret == some([I_, I_], lambda k, j: z3.And(rng(0, k, v.len), rng(0, j, seq_of(c, k).len), seq_of(c, k)[j].first == c.arg0(0))))]


def none_in(c, k, hi):
    q = seq_of(c, k)
    return all_(I_, lambda j: imp(rng(0, j, hi), q[j].first != c.arg0(0)), lambda j: sel(q.arr, j))


def has_inv0(c):
    v, i = c.this0.state, c.v("i")
    return [("none so far", z3.And(0 <= i, i <= v.len, all_([I_, I_], lambda k, j: imp(z3.And(rng(0, k, i), rng(0, j, seq_of(c, k).len)), seq_of(c, k)[j].first != c.arg0(0)), lambda k, j: sel(seq_of(c, k).arr, j))))]


def has_inv1(c):
    i, j = c.v("i"), c.v("j")
    return [("none so far here", z3.And(0 <= j, j <= seq_of(c, i).len, none_in(c, i, j)))]


def lp(q, req, sep):
    """the part after the last separator has the required symbol"""
    return some(I_, lambda n: z3.And(rng(0, n, q.len), q[n].first == req, all_(I_, lambda m: imp(z3.And(n < m, m < q.len), q[m].first != sep), lambda m: sel(q.arr, m))))


def LPF(c, q, req, sep):
    return z3.Function("last_part_ok", raw(q).sort(), I_, I_, z3.BoolSort())(raw(q), req, sep)


def lp_ax(c):
    """definition of LPF"""
    t = parse(SEQ)
    return [("last part", all_([c.S.sort(t), I_, I_], lambda q, r, s: LPF(c, q, r, s) == lp(wrap(c.S, t, q), r, s), lambda q, r, s: LPF(c, q, r, s)))]


def lp_inv(c):
    q, n = c.arg0(0), c.v("n")
    return [("none so far", z3.And(-1 <= n, n < q.len, z3.Not(c.v("restart", "bool")), all_(I_, lambda m: imp(z3.And(n < m, m < q.len), q[m].first != c.arg0(1), q[m].first != c.arg0(2)), lambda m: sel(q.arr, m))))]


def given(c, o):
    """the other state's sequences are alive and stay as they are"""
    O = GS(c, "others")
    return [("the other state owns its sequences", all_(I_, lambda k: imp(rng(0, k, o.state.len), sel(O, o.state[k].sequence)), lambda k: sel(o.state.arr, k))), ("nodes of the other state", within(c, o.state, 0, o.state.len))]


def copied(c, e, src):
    return z3.And(e.where == src.where, e.dirty == src.dirty, same(c.heap(SEQ)[e.sequence], c.heap0(SEQ)[src.sequence]))


def merge_core(c, k1):
    v, v0, o, h0, h1 = c.this.state, c.this0.state, c.arg0(0).state, c.heap0(SEQ), c.heap(SEQ)
    n0 = v0.len
    return wf(c) + keep_others(c) + [
        ("number", v.len == n0 + k1), ("entries before stay", all_(I_, lambda k: imp(rng(0, k, n0), same(v[k], v0[k])), lambda k: sel(v.arr, k))),
        ("with their sequences", all_(I_, lambda k: imp(rng(0, k, n0), same(h1[v0[k].sequence], h0[v0[k].sequence])), lambda k: sel(v0.arr, k))),
        ("copies of the others, in order", all_(I_, lambda x: imp(rng(n0, x, v.len), copied(c, v[x], o[x - n0])), lambda x: sel(v.arr, x)))]


def copy_ens(c):
    v, o = c.this.state, c.arg0(0).state
    return wf(c) + keep_others(c) + [("number", v.len == o.len), ("copies, in order", all_(I_, lambda x: imp(rng(0, x, v.len), copied(c, v[x], o[x])), lambda x: sel(v.arr, x)))]


def copy_inv(c):
    m, v, o, i, al = c.this, c.this.state, c.arg0(0).state, c.v("i"), c.alive(SEQ)
    return live_others(c) + pool_others(c) + keep_others(c) + pool_ok(m, al) + held(m, al, v, 0, i) + seq_others(c, v, 0, i) + [
        ("entry", z3.And(0 <= i, i <= v.len, v.len == o.len, c.v("limit") == o.len)), ("nodes", within(c, v, 0, v.len)),
        ("copies, in order", all_(I_, lambda x: imp(rng(0, x, i), copied(c, v[x], o[x])), lambda x: sel(v.arr, x))),
        ("then those to be copied", all_(I_, lambda x: imp(rng(i, x, v.len), same(v[x], o[x])), lambda x: sel(v.arr, x)))]


def fresh_state(c):
    return [("no entries", c.this0.state.len == 0), ("no pool", c.this0.sequence_pool.len == 0)]


def init_ens(c):
    v, h = c.this.state, c.heap(SEQ)
    E, K = EF(c)
    return wf(c) + keep_others(c) + [("starts at the initial node with nothing written", z3.And(v.len >= 1, v[0].where == c.arg0(0), z3.Not(v[0].dirty), h[v[0].sequence].len == 0)),
                                     ("number of epsilon arcs", v.len == 1 + E(v.arr, v.len)),
                                     ("then epsilon arcs", all_(I_, lambda x: imp(rng(1, x, v.len), eps_image(c, v, x, z3.IntVal(1), v.len)), lambda x: sel(v.arr, x)))]


def opt_inv(c):
    m, m0, al, i = c.this, c.this0, c.alive(SEQ), c.v("i")
    w, p = c.v("new_state"), plan1(c)
    return [("entry", z3.And(0 <= i, i <= m0.state.len)), ("state is as before", same(m.state, m0.state))] + [(a + " (state)", b) for a, b in wf(c)] + keep_others(c) + frame(c) + prefix(c) + \
        held(m, al, w, 0, w.len) + seq_others(c, w, 0, w.len) + \
        [("new and old sequences are apart", apart(m0.state, 0, m0.state.len, w, 0, w.len)), ("nodes", within(c, w, 0, w.len)), ("number of arcs", w.len == p.P(i)),
         ("one entry per arc, in order", all_(I_, lambda x: imp(rng(0, x, w.len), p.image(c, w, x)), lambda x: sel(w.arr, x)))]


def opt_ens(c):
    v, v0, h0, h1 = c.this.state, c.this0.state, c.heap0(SEQ), c.heap(SEQ)
    p, n0 = plan1(c), v0.len
    w = c.witness("new_state", "std::vector<State::TNodeState>")
    E, K = EF(c)
    n1 = p.P(n0)
    z = c.arg0(0) == 0
    return wf(c) + keep_others(c) + [
        ("symbol 0 changes nothing", imp(z, same(v, v0))),
        ("entries before stay", all_(I_, lambda k: imp(rng(0, k, n0), same(v[k], v0[k])), lambda k: sel(v.arr, k))),
        ("with their sequences", all_(I_, lambda k: imp(rng(0, k, n0), same(h1[v0[k].sequence], h0[v0[k].sequence])), lambda k: sel(v0.arr, k))),
        ("then the new ones", imp(z3.Not(z), v.len == n0 + w.len, all_(I_, lambda x: imp(rng(n0, x, v.len), same(v[x], w[x - n0])), lambda x: sel(v.arr, x)))),
        ("which are the arcs of the step", imp(z3.Not(z), n1 <= w.len, all_(I_, lambda x: imp(rng(0, x, n1), p.image(c, w, x)), lambda x: sel(w.arr, x)))),
        ("number of epsilon arcs", imp(z3.Not(z), w.len == n1 + E(w.arr, w.len))),
        ("then epsilon arcs", imp(z3.Not(z), all_(I_, lambda x: imp(rng(n1, x, w.len), eps_image(c, w, x, n1, w.len)), lambda x: sel(w.arr, x))))]


class Keep:
    """a filter: B(i) entries kept among the first i;  W(x): the entry kept in place x"""

    def __init__(self, kind, c, kept, params):
        a = c.this0.state.arr
        h = c.heap0(SEQ).arr
        B, W = z3.Function("kept_before_" + kind, a.sort(), h.sort(), *[I_] * len(params), I_, I_), z3.Function("kept_" + kind, a.sort(), h.sort(), *[I_] * len(params), I_, I_)
        self.B, self.W = lambda i: B(a, h, *params, i), lambda x: W(a, h, *params, x)
        self.c, self.kept = c, kept

    def axioms(self):
        a, B, W = self.c.this0.state.arr, self.B, self.W
        return [("none before the first", B(z3.IntVal(0)) == 0),
                ("one more where it is kept", all_(I_, lambda i: imp(0 <= i, B(i + 1) == B(i) + z3.If(self.kept(i), 1, 0), imp(self.kept(i), W(B(i)) == i)), lambda i: [(sel(a, i), B(i))]))]

    def core(self, c, upto, lo, hi):
        """the entries [lo, hi) of the state are those kept among the first `upto`"""
        v, v0, B, W, h0, h1 = c.this.state, c.this0.state, self.B, self.W, c.heap0(SEQ), c.heap(SEQ)
        return [("number kept", B(upto) == hi), ("entries kept, in order", all_(I_, lambda x: imp(rng(lo, x, hi), 0 <= W(x), W(x) < upto, same(v[x], v0[W(x)]), self.kept(W(x)), B(W(x)) == x), lambda x: sel(v.arr, x)))]


def forbidden(c, k, sym, lo):
    q = seq_of(c, k)
    return some(I_, lambda j: z3.And(rng(lo, j, q.len), q[j].first == sym))


def keep_allowed(c):
    FB = z3.Function("has_forbidden", I_, I_, z3.BoolSort())
    return Keep("allowed", c, lambda k: z3.Not(FB(c.arg0(0), k)), [c.arg0(0)])


def fb_ax(c):
    FB = z3.Function("has_forbidden", I_, I_, z3.BoolSort())
    return [("an entry with the symbol", all_(I_, lambda k: FB(c.arg0(0), k) == forbidden(c, k, c.arg0(0), 0), lambda k: FB(c.arg0(0), k)))] + keep_allowed(c).axioms()


def prune_core(c, keep, done, lo, hi):
    m, v, v0 = c.this, c.this.state, c.this0.state
    return wf(c) + keep_others(c) + keep(c).core(c, done, 0, hi) + [("entries to come", all_(I_, lambda x: imp(rng(lo, x, v.len), same(v[x], v0[x - lo + done])), lambda x: sel(v.arr, x)))]


def pf_inv0(c):
    v, v0, i = c.this.state, c.this0.state, c.v("it").idx
    done = i + v0.len - v.len
    return [("entry", z3.And(0 <= i, i <= v.len, v.len <= v0.len))] + prune_core(c, keep_allowed, done, i, i)


def pf_inv1(c):
    v, v0, i, k = c.this.state, c.this0.state, c.v("i"), c.v("it").idx
    f, done = c.v("found", "bool"), k + v0.len - v.len
    q = seq_of(c, done)
    return pf_inv0(c) + [("removed", imp(f, i == -2)),
                         ("not yet", imp(z3.Not(f), k < v.len, raw(c.v("seq")) == v[k].sequence, -1 <= i, i < q.len, all_(I_, lambda j: imp(z3.And(i < j, j < q.len), q[j].first != c.arg0(0)), lambda j: sel(q.arr, j))))]


def CF(c):
    q = seq_of(c, z3.IntVal(0)).arr.sort()
    return z3.Function("separators_upto", q, I_, I_, I_), lambda r, s, k: LPF(c, seq_of(c, k), r, s)


INTMAX = 2**31 - 1


def elements(c, k):
    """separators before the last symbol of entry k (not counting the first symbol), or INT_MAX if its last part lacks the required symbol"""
    C, L = CF(c)
    q = seq_of(c, k)
    return z3.If(L(c.arg0(0), c.arg0(1), k), z3.If(q.len >= 2, C(q.arr, c.arg0(1), q.len - 2), 0), INTMAX)


def keep_least(c, mn):
    return Keep("least", c, lambda k: elements(c, k) <= mn, [c.arg0(0), c.arg0(1), mn])


def pc_ax(c):
    C, L = CF(c)
    q = seq_of(c, z3.IntVal(0)).arr.sort()
    req, sep = c.arg0(0), c.arg0(1)
    elem = lambda a, i: wrap(c.S, parse("std::pair<int, double>"), z3.Select(a, i))
    r = [("none at the start", all_([q, I_], lambda a, i: imp(i <= 0, C(a, sep, i) == 0), lambda a, i: C(a, sep, i))),
         ("one more", all_([q, I_], lambda a, i: imp(0 < i, C(a, sep, i) == C(a, sep, i - 1) + z3.If(elem(a, i).first == sep, 1, 0)), lambda a, i: C(a, sep, i))),
         ("not more than places", all_([q, I_], lambda a, i: imp(0 <= i, 0 <= C(a, sep, i), C(a, sep, i) <= i), lambda a, i: C(a, sep, i)))] + lp_ax(c)
    mn = ex(I_)
    for nm, g in keep_least(c, mn).axioms():
        a, h = c.this0.state.arr, c.heap0(SEQ).arr
        r.append((nm, z3.ForAll([mn], g)))
    return r


def pc_min(c, mn, upto):
    v0 = c.this0.state
    return [("not more than the limit", mn <= c.arg0(2)), ("nor than any", all_(I_, lambda k: imp(rng(0, k, upto), mn <= elements(c, k)), lambda k: sel(v0.arr, k))),
            ("but the limit or one of them", z3.Or(mn == c.arg0(2), some(I_, lambda k: z3.And(rng(0, k, upto), elements(c, k) == mn))))]


def pc_tab(c, upto):
    v0, t = c.this0.state, c.v("noOfCompoundElements")
    return [("a place for each", t.len == v0.len), ("elements of each", all_(I_, lambda k: imp(rng(0, k, upto), t[k] == elements(c, k)), lambda k: sel(t.arr, k)))]


def pc_inv0(c):
    i = c.v("i")
    return [("entry", z3.And(0 <= i, i <= c.this0.state.len))] + pc_tab(c, i) + pc_min(c, c.v("minNoOfCompoundElements"), i)


def pc_inv1(c):
    C, L = CF(c)
    q, j = c.v("seq"), c.v("j")
    n, sep = c.v("this_noOfCompoundElements"), c.arg0(1)
    return [("separators after here", z3.If(q.len >= 2, z3.And(0 <= j, j <= q.len - 2, n == C(q.arr, sep, q.len - 2) - C(q.arr, sep, j)), z3.And(-2 <= j, j <= 0, n == 0)))]


def pc_inv2(c):
    v, v0, i, k, mn = c.this.state, c.this0.state, c.v("it").idx, c.v("i"), c.v("minNoOfCompoundElements")
    return [("entry", z3.And(0 <= i, i <= v.len, v.len <= v0.len, k == i + v0.len - v.len))] + pc_tab(c, v0.len) + prune_core(c, lambda c: keep_least(c, mn), k, i, i)


def pc_ens(c):
    mn = c.witness("minNoOfCompoundElements", "int")
    return pc_min(c, mn, c.this0.state.len) + prune_core(c, lambda c: keep_least(c, mn), c.this0.state.len, c.this.state.len, c.this.state.len)


WHOLE = ("this.state", "this.sequence_pool") + MEM


def destroy_ens(c):
    m, O = c.this, GS(c, "others")
    return wf(c) + keep_others(c) + [("nothing active", m.state.len == 0), ("pool empty", m.sequence_pool.len == 0)]


def OVR(c):
    return rename(c.arg0(2), c.arg0(3))


def A(key, sig, plan, zero, **kw):
    return M(key, sig, requires=st_pre, assumes=cap, modifies=WHOLE, axioms=lambda c: plan(c).axioms(), ensures=apply_ens(plan, zero), loops=[Loop(inv=loop_inv(plan))], **kw)


def destroy_inv0(c):
    v, p, al, i = c.this0.state, c.this0.sequence_pool, c.alive(SEQ), c.v("i")
    return [("entry", z3.And(0 <= i, i <= v.len, c.v("limit") == v.len)), ("to be freed", all_(I_, lambda k: imp(rng(i, k, v.len), sel(al, v[k].sequence)), lambda k: sel(v.arr, k))),
            ("pool still lives", all_(I_, lambda k: imp(rng(0, k, p.len), sel(al, p[k])), lambda k: sel(p.arr, k)))] + live_others(c)


def destroy_inv1(c):
    p, al, i = c.this0.sequence_pool, c.alive(SEQ), c.idx
    return [("to be freed", all_(I_, lambda k: imp(rng(i, k, p.len), sel(al, p[k])), lambda k: sel(p.arr, k)))] + live_others(c)


CONTRACTS = [
    M("new_sequence", requires=lambda c: pool_ok(c.this, c.alive(SEQ)), ensures=ns_ens),
    M("free_sequence", modifies=("this.sequence_pool",), ensures=fs_ens),
    M("apply_into", alias={0: "object"}, requires=ai_pre(2), modifies=("this.sequence_pool", "arg0") + MEM, ensures=ai_ens(2), loops=[Loop(inv=ai_inv(2))]),
    M("destroy", requires=wf, modifies=WHOLE, ensures=destroy_ens, loops=[Loop(inv=destroy_inv0), Loop(inv=destroy_inv1)]),
    M("apply_into_override", alias={0: "object"}, requires=ai_pre(4), modifies=("this.sequence_pool", "arg0") + MEM, ensures=ai_ens(4, OVR), loops=[Loop(inv=ai_inv(4, OVR))]),
    A("apply", "void (const int)", plan1, anyzero(0)),
    A("apply", "void (const int, const int)", plan2, anyzero(0, 1)),
    A("apply", "void (const int, const int, const int)", plan3, anyzero(0, 1, 2), timeout=90),
    A("apply_careful", None, plan_careful, anyzero(0, 1)),
    A("apply_override", "void (const int, const int, const int)", plan_ov3, anyzero(0, 1)),
    A("apply_override", "void (const int, const int, const int, const int)", plan_ov4, anyzero(0, 2), timeout=90),
    M("epsilonClosure", requires=st_pre, modifies=WHOLE, axioms=eps_ax, ensures=eps_ens, loops=[Loop(inv=eps_inv0), Loop(inv=eps_inv1)]),
    S("step", "void (const int)", plan1, anyzero(0)),
    S("step", "void (const int, const int)", plan2, anyzero(0, 1)),
    S("step", "void (const int, const int, const int)", plan3, anyzero(0, 1, 2)),
    S("step_careful", None, plan_careful, anyzero(0, 1)),
    S("step_override", "void (const int, const int, const int)", plan_ov3, anyzero(0, 1)),
    S("step_override", "void (const int, const int, const int, const int)", plan_ov4, anyzero(0, 2)),
    SC("step_case", "void (UChar32, UChar32, bool)", sc2),
    SC("step_case", "void (UChar32, bool)", sc1),
    SC("step_case_override", None, sco),
    M("isFinal", modifies=(), ensures=fin_ens, loops=[Loop(inv=fin_inv)]),
    M("hasSymbol", requires=wf, modifies=(), sizecap=2**31, ensures=has_ens, loops=[Loop(inv=has_inv0), Loop(inv=has_inv1)]),
    M("lastPartHasRequiredSymbol", modifies=(), sizecap=2**31, axioms=lambda c: lp_ax(c), ensures=lambda c: [("the last part has the symbol", c.ret == LPF(c, c.arg0(0), c.arg0(1), c.arg0(2)))], loops=[Loop(inv=lp_inv)]),
    M("init", requires=lambda c: st_pre(c) + [("a node", sel(GS(c, "nodes"), c.arg0(0)))], modifies=WHOLE, axioms=eps_ax, ensures=init_ens),
    M("merge", requires=lambda c: st_pre(c) + given(c, c.arg0(0)), modifies=WHOLE, ensures=lambda c: merge_core(c, c.arg0(0).state.len), loops=[Loop(inv=lambda c: [("entry", z3.And(0 <= c.idx, c.idx <= c.arg0(0).state.len))] + merge_core(c, c.idx))]),
    M("copy", requires=lambda c: st_pre(c) + fresh_state(c) + given(c, c.arg0(0)), modifies=WHOLE, ensures=copy_ens, loops=[Loop(inv=lambda c: wf(c) + fresh_state(c)), Loop(inv=lambda c: wf(c) + fresh_state(c)), Loop(inv=copy_inv)]),
    M("operator=", requires=lambda c: st_pre(c) + given(c, c.arg0(0)), modifies=WHOLE, ensures=copy_ens),
    M("State", "void (const State &)", requires=lambda c: live_others(c) + graph(c) + given(c, c.arg0(0)), modifies=WHOLE, ensures=copy_ens),
    M("step_optional", requires=st_pre, assumes=cap, modifies=WHOLE, axioms=lambda c: plan1(c).axioms() + eps_ax(c), ensures=opt_ens, loops=[Loop(inv=opt_inv)]),
    M("pruneStatesWithForbiddenSymbol", requires=st_pre, modifies=WHOLE, sizecap=2**31, axioms=fb_ax, ensures=lambda c: prune_core(c, keep_allowed, c.this0.state.len, c.this.state.len, c.this.state.len), loops=[Loop(inv=pf_inv0), Loop(inv=pf_inv1)]),
    M("pruneCompounds", requires=st_pre, modifies=WHOLE, sizecap=2**31, axioms=pc_ax, ensures=pc_ens, loops=[Loop(inv=pc_inv0), Loop(inv=pc_inv1), Loop(inv=pc_inv2)]),
    Lemma("queue of epsilon arcs", lem_queue, props=("R14",)),
]
