"""what the processor writes: characters of the text, escaped where the stream format asks for it, blanks and words"""
import z3
from engine import Contract, Loop, Lemma
from values import And, sel, raw, wrap, Unsupported
from speclib import *
from transio_c import mark

TU = ["fst_processor.cc", "ustring.cc"]
AI, AB = z3.ArraySort(I_, I_), z3.ArraySort(I_, z3.BoolSort())
OPQ = ("transducers", "initial_state", "transliteration_queue", "wblankqueue", "input_buffer", "root", "alphabet", "inconditional", "standard", "postblank", "preblank", "all_finals", "rcx_map", "reader")
BSL = 92

EN = z3.Function("escaped_length", AI, AB, I_, I_)


def esc_axioms(c=None):
    step = lambda a, m, k: EN(a, m, k - 1) + 1 + z3.If(sel(m, sel(a, k - 1)), 1, 0)
    return [("unfold", all_(I_, lambda i: mark(i), lambda i: mark(i))), ("nothing", all_([AI, AB], lambda a, m: EN(a, m, 0) == 0, lambda a, m: EN(a, m, 0))),
            ("one more unit", all_([AI, AB, I_], lambda a, m, k: imp(k > 0, EN(a, m, k) == step(a, m, k)), lambda a, m, k: [(EN(a, m, k), mark(k))])),
            ("grows", all_([AI, AB, I_, I_], lambda a, m, j, k: imp(z3.And(0 <= j, j <= k), EN(a, m, j) + (k - j) <= EN(a, m, k)), lambda a, m, j, k: [(EN(a, m, j), EN(a, m, k))]))]


def lem_esc():
    a, m, j, k = z3.Const("a", AI), z3.Const("m", AB), z3.Int("j"), z3.Int("k")
    d = lambda k: z3.And(EN(a, m, 0) == 0, z3.Implies(k > 0, EN(a, m, k) == EN(a, m, k - 1) + 1 + z3.If(sel(m, sel(a, k - 1)), 1, 0)))
    g = lambda k: z3.Implies(z3.And(0 <= j, j <= k), EN(a, m, j) + (k - j) <= EN(a, m, k))
    return [("an escaped text grows: start", imp(k == j, g(k))), ("an escaped text grows: step", imp(z3.And(j < k, 0 <= j, d(k), g(k - 1)), g(k)))]


def escaped_at(n, base, s, mem, k):
    """from base on, n has the first k units of s, each escaped one behind a backslash"""
    e = lambda j: EN(s.arr, mem, j)
    return z3.And(mark(k), all_(I_, lambda j: imp(z3.And(0 <= j, j < k), mark(j + 1), sel(n.data, base + e(j + 1) - 1) == s[j], imp(sel(mem, s[j]), sel(n.data, base + e(j + 1) - 2) == BSL)), lambda j: [sel(s.arr, j), e(j + 1)]))


def kept(o, n):
    return ("what was written before stays", z3.And(n.len >= o.len, all_(I_, lambda i: imp(i < o.len, sel(n.data, i) == sel(o.data, i)), lambda i: sel(n.data, i))))


def mem(c):
    return c.this0.escaped_chars.mem


def we_ens(c):
    s, o, n = c.arg0(0), c.arg0(1), c.arg(1)
    return [kept(o, n), ("length", n.len == o.len + EN(s.arr, mem(c), s.len)), ("the text, escaped", escaped_at(n, o.len, s, mem(c), s.len))]


def we_inv(L):
    s, o, n, i = L.arg0(0), L.arg0(1), L.arg(1), L.v("i")
    return [("place", z3.And(0 <= i, i <= s.len, L.v("limit") == s.len)), kept(o, n), ("length", z3.And(mark(i), mark(i + 1), n.len == o.len + EN(s.arr, mem(L), i))), ("so far", escaped_at(n, o.len, s, mem(L), i))]


def raw_at(n, base, s, frm=0, upto=None):
    """from base on, n has the units of s from frm on"""
    upto = s.len if upto is None else upto
    return all_(I_, lambda j: imp(z3.And(frm <= j, j < upto), sel(n.data, base + j - frm) == s[j]), lambda j: sel(s.arr, j))


def w_ens(c):
    s, o, n = c.arg0(0), c.arg0(1), c.arg(1)
    return [kept(o, n), ("length", n.len == o.len + s.len), ("the text", raw_at(n, o.len, s))]


# ---- tags
def tag_start(s, i):
    return z3.And(i >= 1, s[i] == ord("<"), s[i - 1] != BSL)


def first_tag(c):
    return c.ghost("first tag", I_)


def wt_axioms(c):
    s, p = c.arg0(0), first_tag(c)
    return esc_axioms() + [("first tag", z3.And(0 <= p, p <= s.len, all_(I_, lambda i: imp(z3.And(0 <= i, i < p), z3.Not(tag_start(s, i))), lambda i: sel(s.arr, i)), z3.Or(p == s.len, z3.And(p < s.len, tag_start(s, p)))))]


def wt_ens(c):
    s, o, n, p = c.arg0(0), c.arg0(1), c.arg(1), first_tag(c)
    e = EN(s.arr, mem(c), p)
    return [kept(o, n), ("length", n.len == o.len + e + s.len - p), ("the lemma, escaped", escaped_at(n, o.len, s, mem(c), p)), ("its tags as they are", raw_at(n, o.len + e, s, p))]


def wt_inv(L):
    return we_inv(L) + [("no tag yet", L.v("i") <= first_tag(L))]


# ---- words
def ch(n, i, x):
    return sel(n.data, i) == ord(x)


def pw_ens(c):
    sf, lf, o, n = c.arg0(0), c.arg0(1), c.arg0(2), c.arg(2)
    e = EN(sf.arr, mem(c), sf.len)
    b = o.len
    return [kept(o, n), ("length", n.len == b + 2 + e + lf.len), ("delimiters", z3.And(ch(n, b, "^"), ch(n, b + 1 + e + lf.len, "$"))), ("surface form, escaped", escaped_at(n, b + 1, sf, mem(c), sf.len)), ("its analyses", raw_at(n, b + 1 + e, lf))]


def pu_ens(c):
    sf, o, n = c.arg0(0), c.arg0(1), c.arg(1)
    e = EN(sf.arr, mem(c), sf.len)
    b = o.len
    return [kept(o, n), ("length", n.len == b + 4 + 2 * e), ("delimiters", z3.And(ch(n, b, "^"), ch(n, b + 1 + e, "/"), ch(n, b + 2 + e, "*"), ch(n, b + 3 + 2 * e, "$"))),
            ("surface form, escaped", escaped_at(n, b + 1, sf, mem(c), sf.len)), ("marked, once more", escaped_at(n, b + 3 + e, sf, mem(c), sf.len))]


# ---- blanks
def QL(c):
    return z3.Function("blanks_length", c.this0.blankqueue.arr.sort(), I_, I_)


def q_axioms(c):
    q = c.this0.blankqueue
    f = QL(c)
    return [("unfold", all_(I_, lambda i: mark(i), lambda i: mark(i))), ("no blanks", f(q.arr, 0) == 0), ("one more blank", all_(I_, lambda k: imp(k > 0, f(q.arr, k) == f(q.arr, k - 1) + q[k - 1].len), lambda k: [(f(q.arr, k), mark(k))])),
            ("grows", all_([I_, I_], lambda j, k: imp(z3.And(0 <= j, j <= k, k <= q.len), f(q.arr, j) <= f(q.arr, k)), lambda j, k: [(f(q.arr, j), f(q.arr, k))]))]


def blanks_at(c, n, base, k):
    q, f = c.this0.blankqueue, QL(c)
    return all_([I_, I_], lambda b, j: imp(z3.And(0 <= b, b < k, 0 <= j, j < q[b].len), mark(b + 1), sel(n.data, base + f(q.arr, b + 1) - q[b].len + j) == q[b][j]), lambda b, j: sel(q[b].arr, j))


def fb_ens(c):
    q, o, n = c.this0.blankqueue, c.arg0(0), c.arg(0)
    return [kept(o, n), ("length", n.len == o.len + QL(c)(q.arr, q.len)), ("all blanks, in order", blanks_at(c, n, o.len, q.len)), ("none is left", c.this.blankqueue.len == 0)]


def fb_inv(L):
    q, o, n, now = L.this0.blankqueue, L.arg0(0), L.arg(0), L.this.blankqueue
    k = q.len - L.v("i")
    return [("count", z3.And(0 <= k, k <= q.len, now.len == q.len - k, mark(k), mark(k + 1))), ("the rest of the queue", all_(I_, lambda i: imp(z3.And(0 <= i, i < now.len), sel(now.arr, i) == sel(q.arr, i + k)), lambda i: sel(now.arr, i))),
            kept(o, n), ("length", n.len == o.len + QL(L)(q.arr, k)), ("so far", blanks_at(L, n, o.len, k))]


def lem_blanks():
    V = z3.DeclareSort("Blank")
    A = z3.ArraySort(I_, V)
    ln, f = z3.Function("len", V, I_), z3.Function("F", A, I_, I_)
    a, j, k = z3.Const("a", A), z3.Int("j"), z3.Int("k")
    g = lambda k: z3.Implies(z3.And(0 <= j, j <= k), f(a, j) <= f(a, k))
    return [("blanks grow: start", imp(j == k, g(k))), ("blanks grow: step", imp(z3.And(j < k, f(a, k) == f(a, k - 1) + ln(a[k - 1]), ln(a[k - 1]) >= 0, g(k - 1)), g(k)))]


def sp_ens(c):
    q, v, o, n = c.this0.blankqueue, c.arg0(0), c.arg0(1), c.arg(1)
    return [kept(o, n), ("length", n.len == o.len + z3.If(q.len > 0, QL(c)(q.arr, q.len), z3.If(v > 0xFFFF, 2, 1))), ("all blanks, in order", imp(q.len > 0, blanks_at(c, n, o.len, q.len))), ("or the character", imp(z3.And(q.len == 0, v <= 0xFFFF), sel(n.data, o.len) == v)), ("none is left", c.this.blankqueue.len == 0)]


def unit(n, at, v):
    return z3.If(v > 0xFFFF, z3.And(sel(n.data, at) == v / 1024 + 0xD7C0, sel(n.data, at + 1) == v % 1024 + 0xDC00), sel(n.data, at) == v)


def is_space(v):
    return z3.Function("ext_u_isspace", I_, I_)(v) != 0


def pc_ens(c):
    q, v, o, n = c.this0.blankqueue, c.arg0(0), c.arg0(1), c.arg(1)
    sp, es = is_space(v), sel(mem(c), v)
    w = z3.If(v > 0xFFFF, 2, 1)
    at = o.len + z3.If(z3.And(z3.Not(sp), es), 1, 0)
    blank = z3.And(sp, q.len > 0)
    return [kept(o, n), ("a space takes the next blank", imp(blank, n.len == o.len + q[0].len, raw_at(n, o.len, q[0]), c.this.blankqueue.len == q.len - 1)),
            ("otherwise the queue stays", imp(z3.Not(blank), same(c.this.blankqueue, q))),
            ("the character, escaped if need be", imp(z3.And(z3.Not(blank), v != 0), n.len == at + w, unit(n, at, v), imp(at > o.len, sel(n.data, o.len) == BSL)))]


# ---- reading words
def lb_ens(c):
    s, al, r = c.arg0(0), c.this0.alphabetic_chars.mem, c.ret
    last = lambda p: z3.And(0 <= p, p < s.len, z3.Not(sel(al, s[p])), all_(I_, lambda i: imp(z3.And(p < i, i < s.len), sel(al, s[i])), lambda i: sel(s.arr, i)))
    return [("last unit that is no letter, or 0", z3.Or(last(r), z3.And(r == 0, all_(I_, lambda i: imp(z3.And(0 <= i, i < s.len), sel(al, s[i])), lambda i: sel(s.arr, i)))))]


def lb_inv(L):
    s, al, i = L.arg0(0), L.this0.alphabetic_chars.mem, L.v("i")
    return [("only letters after", z3.And(-1 <= i, i < s.len, all_(I_, lambda j: imp(z3.And(i < j, j < s.len), sel(al, s[j])), lambda j: sel(s.arr, j))))]


def al_ens(c):
    return [("a letter, a digit, or one of the alphabet", c.ret == z3.Or(z3.Function("ext_u_isalnum", I_, I_)(c.arg0(0)) != 0, sel(c.this0.alphabetic_chars.mem, c.arg0(0))))]


small = lambda k: (lambda c: [("texts are shorter than 2^31 units", And([c.arg0(i).len < 2**31 for i in range(k)]))])
B = dict(props=("P22", "P23"), strings="vec", opaque=OPQ, timeout=45)
P = dict(axioms=esc_axioms, assumes=small(1), **B)
CONTRACTS = [
    Contract("FSTProcessor::isEscaped", TU, None, ensures=lambda c: [("escaped iff in the list", c.ret == sel(mem(c), c.arg0(0)))], props=("P22", "P23"), opaque=OPQ),
    Contract("FSTProcessor::writeEscaped", TU, None, ensures=we_ens, modifies=["arg1"], loops=[Loop(we_inv)], **P),
    Contract("write", "ustring.cc", None, ensures=w_ens, modifies=["arg1"], props=("P22", "P23"), strings="vec"),
    Contract("FSTProcessor::writeEscapedWithTags", TU, None, ensures=wt_ens, modifies=["arg1"], loops=[Loop(wt_inv)], axioms=wt_axioms, assumes=small(1), **B),
    Contract("FSTProcessor::printWord", TU, None, ensures=pw_ens, modifies=["arg2"], axioms=esc_axioms, assumes=small(2), **B),
    Contract("FSTProcessor::printUnknownWord", TU, None, ensures=pu_ens, modifies=["arg1"], **P),
    Contract("FSTProcessor::flushBlanks", TU, None, ensures=fb_ens, modifies=["this.blankqueue", "arg0"], loops=[Loop(fb_inv)], axioms=q_axioms, **B),
    Contract("FSTProcessor::printSpace", TU, None, requires=lambda c: [("a character", z3.And(0 <= c.arg0(0), c.arg0(0) < 0x110000))], ensures=sp_ens, modifies=["this.blankqueue", "arg1"], axioms=q_axioms, **B),
    Contract("FSTProcessor::printChar", TU, None, requires=lambda c: [("a character", z3.And(0 <= c.arg0(0), c.arg0(0) < 0x110000))], ensures=pc_ens, modifies=["this.blankqueue", "arg1"], **B),
    Contract("FSTProcessor::lastBlank", TU, None, ensures=lb_ens, loops=[Loop(lb_inv)], assumes=small(1), **B),
    Contract("FSTProcessor::isAlphabetic", TU, None, ensures=al_ens, **B),
    Lemma("blanks", lem_blanks, props=("P22", "P23")),
    Lemma("escaped text", lem_esc, props=("P22", "P23")),
]
