"""StringUtils (U17): the texts are arrays of UTF-16 units with a length"""
import z3
from engine import Contract, Loop, Lemma
from speclib import *

TU = "string_utils.cc"
A = z3.ArraySort(I_, I_)
BS = ord("\\")


def rng(lo, i, hi):
    return z3.And(lo <= i, i < hi)


def pre_ens(c):
    s, p = c.arg0(0), c.arg0(1)
    return [("true exactly when the text begins with the prefix", c.ret == z3.And(p.len <= s.len, all_(I_, lambda i: imp(rng(0, i, p.len), sel(s.arr, i) == sel(p.arr, i)))))]


def suf_ens(c):
    s, p = c.arg0(0), c.arg0(1)
    return [("true exactly when the text ends with the suffix", c.ret == z3.And(p.len <= s.len, all_(I_, lambda i: imp(rng(0, i, p.len), sel(s.arr, s.len - p.len + i) == sel(p.arr, i)))))]


def mw_ens(c):
    a, b, r = c.arg0(0), c.arg0(1), c.ret
    ea, eb = a.len == 0, b.len == 0
    both = z3.And(z3.Not(ea), z3.Not(eb))
    same_ = lambda x: z3.And(r.len == x.len, all_(I_, lambda i: imp(rng(0, i, x.len), sel(r.arr, i) == sel(x.arr, i))))
    n = a.len - 2
    return [("nothing before: the second", z3.Implies(ea, same_(b))), ("nothing after: the first", z3.Implies(eb, same_(a))),
            ("both: length", z3.Implies(both, r.len == n + b.len)),
            ("both: the first without its closing brackets", z3.Implies(both, all_(I_, lambda i: imp(rng(0, i, n), sel(r.arr, i) == sel(a.arr, i))))),
            ("both: the separator", z3.Implies(both, z3.And(sel(r.arr, n) == ord(";"), sel(r.arr, n + 1) == ord(" ")))),
            ("both: the second without its opening brackets", z3.Implies(both, all_(I_, lambda i: imp(rng(2, i, b.len), sel(r.arr, n + i) == sel(b.arr, i)))))]


# ---------------------------------------------------------------- split_escaped
ESCD = z3.Function("escaped", A, I_, z3.BoolSort())       # position i is escaped by a backslash before it
RS = z3.Function("runstart", A, I_, I_, I_)               # (text, delimiter, i): where the run of kept units reaching i starts
PN = z3.Function("runs", A, I_, I_, I_)                   # (text, delimiter, i): non-empty runs that ended before i


def cut(a, d, i):
    return z3.And(sel(a, i) == d, z3.Not(ESCD(a, i)))


def esc_axioms(c=None):
    a = z3.Const("ea", A)
    d, i = z3.Ints("ed ei")
    return [("definition: the first unit is not escaped", z3.ForAll([a], z3.Not(ESCD(a, 0)), patterns=[ESCD(a, 0)])),
            ("definition: a unit is escaped by an unescaped backslash", z3.ForAll([a, i], z3.Implies(i >= 0, ESCD(a, i + 1) == z3.And(sel(a, i) == BS, z3.Not(ESCD(a, i)))), patterns=[z3.MultiPattern(sel(a, i), ESCD(a, i))])),
            ("definition: runs, start", z3.ForAll([a, d], z3.And(RS(a, d, 0) == 0, PN(a, d, 0) == 0), patterns=[RS(a, d, 0)])),
            ("definition: runs, step", z3.ForAll([a, d, i], z3.Implies(i >= 0, z3.And(RS(a, d, i + 1) == z3.If(cut(a, d, i), i + 1, RS(a, d, i)),
             PN(a, d, i + 1) == PN(a, d, i) + z3.If(z3.And(cut(a, d, i), RS(a, d, i) < i), 1, 0))), patterns=[z3.MultiPattern(RS(a, d, i), sel(a, i))]))]


def pieces(s, d, r, upto):
    """r holds the runs of s[0..upto) that a delimiter ended"""
    k = lambda i: sel(r.arr, PN(s.arr, d, i))
    return [("bounds", all_(I_, lambda i: imp(rng(0, i, upto + 1), z3.And(0 <= RS(s.arr, d, i), RS(s.arr, d, i) <= i, 0 <= PN(s.arr, d, i), PN(s.arr, d, i) <= PN(s.arr, d, upto))), lambda i: RS(s.arr, d, i)))]


def se_inv(L):
    s, d = L.arg0(0), L.arg0(1)
    r = L.v("result", "std::vector<UString>")
    i, st = L.v("i", "unsigned long"), L.v("start", "unsigned long")
    a = s.arr
    R = lambda j: wrap(L.S, USTR, sel(r.arr, PN(a, d, j)))
    m = z3.If(i <= s.len, i, s.len)
    return [("position", z3.And(0 <= i, i <= s.len + 1, z3.Or(i > s.len, z3.Not(ESCD(a, i))))),
            ("the open run", z3.And(st == RS(a, d, m), 0 <= st, st <= m)), ("one piece per ended run", z3.And(r.len == PN(a, d, m), r.len >= 0))] + done(L, s, d, r, m)


def done(c, s, d, r, m):
    a = s.arr
    R = lambda j: wrap(c.S, USTR, sel(r.arr, PN(a, d, j)))
    return [("runs are counted upwards", all_(I_, lambda j: imp(rng(0, j, m + 1), z3.And(0 <= PN(a, d, j), PN(a, d, j) <= PN(a, d, m), 0 <= RS(a, d, j), RS(a, d, j) <= j)), lambda j: RS(a, d, j))),
            ("ended runs have their pieces", all_(I_, lambda j: imp(z3.And(rng(0, j, m), cut(a, d, j), RS(a, d, j) < j), z3.And(PN(a, d, j) < r.len, R(j).len == j - RS(a, d, j),
                all_(I_, lambda x: imp(rng(0, x, j - RS(a, d, j)), sel(R(j).arr, x) == sel(a, RS(a, d, j) + x)), lambda x: sel(R(j).arr, x)))), lambda j: RS(a, d, j)))]


def se_ens(c):
    s, d, r = c.arg0(0), c.arg0(1), c.ret
    a, n = s.arr, s.len
    last = RS(a, d, n) < n
    R = wrap(c.S, USTR, sel(r.arr, PN(a, d, n)))
    return [("one piece per run", r.len == PN(a, d, n) + z3.If(last, 1, 0)),
            ("the last run has its piece", z3.Implies(last, z3.And(R.len == n - RS(a, d, n), all_(I_, lambda x: imp(rng(0, x, n - RS(a, d, n)), sel(R.arr, x) == sel(a, RS(a, d, n) + x)), lambda x: sel(R.arr, x)))))] + done(c, s, d, r, n)


# ---------------------------------------------------------------- split, by a delimiter of any length
OCN = z3.Function("occurs", A, I_, A, I_, I_, I_)         # 1 when the second text occurs in the first at a position


def OCC(*k):
    return OCN(*k) == 1


SIG = (A, I_, A, I_, I_)                                   # (text, length, delimiter, length, position)
SK = z3.Function("delim_left", *SIG, I_)                  # units of a delimiter still to come at i, 0 outside
RS2 = z3.Function("runstart2", *SIG, I_)
PN2 = z3.Function("runs2", *SIG, I_)


def key(s, d):
    return (s.arr, s.len, d.arr, d.len)


def fresh(k, i):
    return z3.If(OCC(*k, i), k[3], 0)


def sp_defs():
    k = z3.Const("sa", A), z3.Int("sn"), z3.Const("sd", A), z3.Int("sm")
    i = z3.Int("si")
    ct = SK(*k, i) > 0
    return [("definition: occurrences lie inside the text", z3.ForAll([*k, i], z3.Implies(OCC(*k, i), z3.And(i >= 0, i + k[3] <= k[1])), patterns=[OCN(*k, i)])),
            ("definition: start", z3.ForAll([*k], z3.And(RS2(*k, 0) == 0, PN2(*k, 0) == 0, SK(*k, 0) == fresh(k, 0)), patterns=[RS2(*k, 0)])),
            ("definition: delimiters are taken from left to right", z3.ForAll([*k, i], z3.Implies(i >= 0, SK(*k, i + 1) == z3.If(SK(*k, i) > 1, SK(*k, i) - 1, fresh(k, i + 1))), patterns=[SK(*k, i + 1)])),
            ("definition: runs, step", z3.ForAll([*k, i], z3.Implies(i >= 0, z3.And(RS2(*k, i + 1) == z3.If(ct, i + 1, RS2(*k, i)),
             PN2(*k, i + 1) == PN2(*k, i) + z3.If(z3.And(ct, RS2(*k, i) < i), 1, 0))), patterns=[z3.MultiPattern(RS2(*k, i), RS2(*k, i + 1))]))]


def gap(k, p, i, runs=True):
    """nothing but text from p to i"""
    x = z3.Int("gx")
    return z3.Implies(z3.And(0 <= p, p <= i, SK(*k, p) == fresh(k, p), z3.ForAll([x], z3.Implies(z3.And(p <= x, x < i), z3.Not(OCC(*k, x))), patterns=[OCN(*k, x)])),
                      And([SK(*k, i) == fresh(k, i)] + ([RS2(*k, i) == RS2(*k, p), PN2(*k, i) == PN2(*k, p)] if runs else [])))


def dlm(k, q, i, runs=True):
    """inside a delimiter that starts at q"""
    return z3.Implies(z3.And(0 <= q, q < i, i <= q + k[3], SK(*k, q) == k[3]),
                      And([SK(*k, i) == z3.If(i < q + k[3], k[3] - (i - q), fresh(k, i))] + ([RS2(*k, i) == i, PN2(*k, i) == PN2(*k, q) + z3.If(RS2(*k, q) < q, 1, 0)] if runs else [])))


def bnd(k, i, runs=True):
    return z3.Implies(i >= 0, And([SK(*k, i) >= 0, SK(*k, i) <= k[3]] + ([0 <= RS2(*k, i), RS2(*k, i) <= i, PN2(*k, i) >= 0] if runs else [])))


def mono(k, i, j):
    return z3.Implies(z3.And(0 <= i, i <= j), PN2(*k, i) <= PN2(*k, j))


def sp_axioms(c):
    k = z3.Const("sa", A), z3.Int("sn"), z3.Const("sd", A), z3.Int("sm")
    p, i = z3.Ints("sp si")
    pos = k[3] > 0
    return [x for x in sp_defs() if "step" not in x[0] and "left to right" not in x[0]] + [
        ("lemma: gap", z3.ForAll([*k, p, i], z3.Implies(pos, gap(k, p, i)), patterns=[z3.MultiPattern(RS2(*k, p), RS2(*k, i)), z3.MultiPattern(RS2(*k, p), OCN(*k, i))])),
        ("lemma: delimiter", z3.ForAll([*k, p, i], z3.Implies(pos, dlm(k, p, i)), patterns=[z3.MultiPattern(RS2(*k, i), OCN(*k, p))])),
        ("lemma: bounds", z3.ForAll([*k, i], z3.Implies(pos, bnd(k, i)), patterns=[RS2(*k, i)])),
        ("lemma: runs are counted upwards", z3.ForAll([*k, p, i], z3.Implies(pos, mono(k, p, i)), patterns=[z3.MultiPattern(PN2(*k, p), PN2(*k, i))]))]


def lem_split():
    k = z3.Const("a", A), z3.Int("n"), z3.Const("d", A), z3.Int("m")
    p, i = z3.Ints("p i")
    df = [g for _, g in sp_defs()]
    # instances of the definitions the induction steps need
    def at(j):
        ct = SK(*k, j) > 0
        return [z3.Implies(j >= 0, z3.And(SK(*k, j + 1) == z3.If(SK(*k, j) > 1, SK(*k, j) - 1, fresh(k, j + 1)), RS2(*k, j + 1) == z3.If(ct, j + 1, RS2(*k, j)),
                PN2(*k, j + 1) == PN2(*k, j) + z3.If(z3.And(ct, RS2(*k, j) < j), 1, 0)))]
    H = lambda *x: And(df + [k[3] > 0] + list(x))
    return [("bounds: base", z3.Implies(H(), bnd(k, z3.IntVal(0)))), ("bounds: step", z3.Implies(H(i >= 0, bnd(k, i), *at(i)), bnd(k, i + 1))),
            ("gap: base", z3.Implies(H(), gap(k, p, p))), ("gap: step", z3.Implies(H(i >= p, p >= 0, gap(k, p, i), *at(i), z3.Or(OCC(*k, i), z3.Not(OCC(*k, i)))), gap(k, p, i + 1))),
            ("delimiter: base", z3.Implies(H(bnd(k, p), *at(p)), dlm(k, p, p + 1))), ("delimiter: step", z3.Implies(H(bnd(k, p), p >= 0, i > p, dlm(k, p, i), *at(i)), dlm(k, p, i + 1))),
            ("counting: base", mono(k, p, p)), ("counting: step", z3.Implies(H(p >= 0, i >= p, mono(k, p, i), *at(i)), mono(k, p, i + 1)))]


def sp_done(c, k, r, m):
    a = k[0]
    R = lambda j: wrap(c.S, USTR, sel(r.arr, PN2(*k, j)))
    return [("ended runs have their pieces", all_(I_, lambda j: imp(z3.And(rng(0, j, m), SK(*k, j) > 0, RS2(*k, j) < j), z3.And(PN2(*k, j) < r.len, R(j).len == j - RS2(*k, j),
                all_(I_, lambda x: imp(rng(0, x, j - RS2(*k, j)), sel(R(j).arr, x) == sel(a, RS2(*k, j) + x)), lambda x: sel(R(j).arr, x)))), lambda j: RS2(*k, j)))]


def sp_inv(L):
    s, d = L.arg0(0), L.arg0(1)
    k = key(s, d)
    r = L.v("result", "std::vector<UString>")
    p = L.v("pos", "unsigned long")
    n = s.len
    last = RS2(*k, n) < n
    R = wrap(L.S, USTR, sel(r.arr, PN2(*k, n)))
    more = p <= n
    return [("position", z3.And(0 <= p, p <= n + d.len)), ("between pieces", z3.Implies(more, z3.And(RS2(*k, p) == p, SK(*k, p) == fresh(k, p), r.len == PN2(*k, p)))),
            ("at the end", z3.Implies(z3.Not(more), And([g for _, g in sp_last(L, s, d, r)])))] + sp_done(L, k, r, z3.If(more, p, n))


def sp_last(c, s, d, r):
    k, n = key(s, d), s.len
    last = RS2(*k, n) < n
    R = wrap(c.S, USTR, sel(r.arr, PN2(*k, n)))
    return [("one piece per run", r.len == PN2(*k, n) + z3.If(last, 1, 0)),
            ("the last run has its piece", z3.Implies(last, z3.And(R.len == n - RS2(*k, n), all_(I_, lambda x: imp(rng(0, x, n - RS2(*k, n)), sel(R.arr, x) == sel(s.arr, RS2(*k, n) + x)), lambda x: sel(R.arr, x)))))]


def sp_ens(c):
    s, d, r = c.arg0(0), c.arg0(1), c.ret
    return sp_last(c, s, d, r) + sp_done(c, key(s, d), r, s.len)


# ---------------------------------------------------------------- join
def JL(c, v, d, k):
    """length of the first k pieces joined"""
    return z3.Function("joined", raw(v).sort(), I_, I_, I_)(raw(v), d, k)


def piece(c, v, k):
    return wrap(c.S, USTR, sel(v.arr, k))


def j_axioms(c):
    v, d = c.arg0(0), c.arg0(1)
    k = z3.Int("jk")
    J = lambda x: JL(c, v, d.len, x)
    return [("definition: nothing joined", J(0) == 0),
            ("definition: one more piece", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < v.len), J(k + 1) == J(k) + z3.If(J(k) > 0, d.len, 0) + piece(c, v, k).len), patterns=[J(k + 1)])),
            ("lengths are not negative", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < v.len), piece(c, v, k).len >= 0), patterns=[piece(c, v, k).len]))]


def j_text(c, r, n):
    v, d = c.arg0(0), c.arg0(1)
    J = lambda x: JL(c, v, d.len, x)
    sep = lambda k: z3.If(J(k) > 0, d.len, 0)
    return [("length", z3.And(r.len == J(n), r.len >= 0)),
            ("bounds", all_(I_, lambda k: imp(rng(0, k, n), z3.And(0 <= J(k), J(k) <= J(k + 1), J(k + 1) <= J(n))), lambda k: J(k + 1))),
            ("every piece, in order", all_(I_, lambda k: imp(rng(0, k, n), all_(I_, lambda x: imp(rng(0, x, piece(c, v, k).len), sel(r.arr, J(k) + sep(k) + x) == sel(piece(c, v, k).arr, x)), lambda x: sel(piece(c, v, k).arr, x))), lambda k: J(k + 1))),
            ("the delimiter between pieces", all_(I_, lambda k: imp(z3.And(rng(0, k, n), J(k) > 0), all_(I_, lambda x: imp(rng(0, x, d.len), sel(r.arr, J(k) + x) == sel(d.arr, x)), lambda x: sel(d.arr, x))), lambda k: J(k + 1)))]


def j_inv(L):
    k = L.idx
    v = L.arg0(0)
    return [("position", z3.And(0 <= k, k <= v.len))] + j_text(L, L.v("s", "std::basic_string<char16_t>"), k)


def j_ens(c):
    return j_text(c, c.ret, c.arg0(0).len)


# ---------------------------------------------------------------- substitute
NP = z3.Function("newpos", *SIG, I_, I_)                  # (…, i, length of the replacement): where unit i of the old text goes
TAILN = z3.Function("sametail", A, I_, A, I_, I_, I_)   # the units of the first text from p on end the second one


def TAIL(*k):
    return TAILN(*k) == 1


def contrib(k, i, m):
    return z3.If(SK(*k, i) == 0, 1, z3.If(SK(*k, i) == k[3], m, 0))


def np_step(k, i, m):
    return z3.Implies(i >= 0, NP(*k, i + 1, m) == NP(*k, i, m) + contrib(k, i, m))


NOCN = z3.Function("noneoccurs", *SIG, I_, I_)            # 1 when no occurrence starts in [p, i)


def NOCC(*k):
    return NOCN(*k) == 1


def nocc_def(k, p, i):
    x = z3.Int("gx")
    return NOCC(*k, p, i) == z3.ForAll([x], z3.Implies(z3.And(p <= x, x < i), z3.Not(OCC(*k, x))), patterns=[OCN(*k, x)])


def np_gap(k, p, i, m):
    return z3.Implies(z3.And(0 <= p, p <= i, SK(*k, p) == fresh(k, p), NOCC(*k, p, i)), z3.And(SK(*k, i) == fresh(k, i), NP(*k, i, m) == NP(*k, p, m) + i - p))


def np_dlm(k, q, i, m):
    return z3.Implies(z3.And(0 <= q, q < i, i <= q + k[3], SK(*k, q) == k[3]), NP(*k, i, m) == NP(*k, q, m) + m)


def np_mono(k, i, j, m):
    return z3.Implies(z3.And(0 <= i, i < j, m >= 0), NP(*k, i, m) + contrib(k, i, m) <= NP(*k, j, m))


def after(k, q, i, m):
    """a delimiter at q, then nothing but text up to i"""
    return z3.Implies(z3.And(0 <= q, q + k[3] <= i, SK(*k, q) == k[3], NOCC(*k, q + k[3], i)), z3.And(SK(*k, i) == fresh(k, i), NP(*k, i, m) == NP(*k, q, m) + m + i - q - k[3]))


def tail_def(a, n, b, l, p):
    x = z3.Int("tx")
    return TAIL(a, n, b, l, p) == z3.And(p >= 0, p <= n, p + l - n >= 0, z3.ForAll([x], z3.Implies(z3.And(p <= x, x < n), sel(a, x) == sel(b, x + l - n)), patterns=[sel(a, x)]))


def occ_def(a, n, d, m, p):
    x = z3.Int("ox")
    return OCC(a, n, d, m, p) == z3.And(p >= 0, p + m <= n, z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < m), sel(a, p + x) == sel(d, x)), patterns=[sel(d, x)]))


def transport(a, n, b, l, d, m, p, x):
    return z3.Implies(z3.And(TAIL(a, n, b, l, p), x >= p), OCC(a, n, d, m, x) == OCC(b, l, d, m, x + l - n))


def transportn(a, n, b, l, d, m, p, x, y):
    return z3.Implies(z3.And(TAIL(a, n, b, l, p), x >= p, NOCC(a, n, d, m, x, y)), NOCC(b, l, d, m, x + l - n, y + l - n))


def compose(a, n, b, l, e, h, p, r):
    return z3.Implies(z3.And(TAIL(a, n, b, l, p), TAIL(b, l, e, h, r), p + l - n >= r), TAIL(a, n, e, h, p))


def later(a, n, b, l, p, r):
    return z3.Implies(z3.And(TAIL(a, n, b, l, p), p <= r, r <= n), TAIL(a, n, b, l, r))


def tail_read(a, n, b, l, p, x):
    return z3.Implies(z3.And(TAIL(a, n, b, l, p), p <= x, x < n), z3.And(p >= 0, p + l - n >= 0, sel(a, x) == sel(b, x + l - n)))


def part(k, p, i, r, j):
    return z3.Implies(z3.And(NOCC(*k, p, i), p <= r, j <= i), NOCC(*k, r, j))


def sb_axioms(c):
    k = z3.Const("sa", A), z3.Int("sn"), z3.Const("sd", A), z3.Int("sm")
    a, n, d, dm = k
    b, l = z3.Const("sb", A), z3.Int("sl")
    p, i, m, q, j = z3.Ints("sp si nl sq sj")
    F = lambda vs, g, *pt: z3.ForAll(vs, z3.Implies(dm > 0, g) if any(v is dm for v in vs) and vs[0] is a and vs[2] is d else g, patterns=[z3.MultiPattern(*x) if isinstance(x, tuple) else x for x in pt])
    return [x for x in sp_defs() if "inside the text" in x[0]] + [
        ("definition: start", z3.ForAll([*k, m], z3.And(NP(*k, 0, m) == 0, SK(*k, 0) == fresh(k, 0)), patterns=[NP(*k, 0, m)])),
        ("lemma: gap", F([*k, p, i, m], np_gap(k, p, i, m), (NP(*k, p, m), NP(*k, i, m)))),
        ("lemma: delimiter", F([*k, p, i, m], z3.And(dlm(k, p, i, False), np_dlm(k, p, i, m)), (NP(*k, i, m), OCN(*k, p)))),
        ("lemma: positions grow", F([*k, p, i, m], np_mono(k, p, i, m), (NP(*k, p, m), NP(*k, i, m)))),
        ("lemma: bounds", F([*k, i, m], bnd(k, i, False), NP(*k, i, m))),
        ("lemma: text after a delimiter", F([*k, p, i, m], after(k, p, i, m), (NP(*k, i, m), OCN(*k, p)))),
        ("lemma: no occurrence", F([*k, p, i, j], z3.Implies(z3.And(NOCC(*k, p, i), p <= j, j < i), z3.Not(OCC(*k, j))), (NOCN(*k, p, i), OCN(*k, j)))),
        ("lemma: empty range", F([*k, p, i], z3.Implies(i <= p, NOCC(*k, p, i)), NOCN(*k, p, i))),
        ("lemma: part of a range", F([*k, p, i, q, j], part(k, p, i, q, j), (NOCN(*k, p, i), NOCN(*k, q, j)))),
        ("lemma: the whole text", z3.ForAll([a, n, p], z3.Implies(z3.And(0 <= p, p <= n), TAIL(a, n, a, n, p)), patterns=[TAILN(a, n, a, n, p)])),
        ("lemma: shorter tails", z3.ForAll([a, n, b, l, p, q], later(a, n, b, l, p, q), patterns=[z3.MultiPattern(TAILN(a, n, b, l, p), TAILN(a, n, b, l, q))])),
        ("lemma: tails of tails", z3.ForAll([a, n, b, l, d, dm, p, i], compose(a, n, b, l, d, dm, p, i), patterns=[z3.MultiPattern(TAILN(a, n, b, l, p), TAILN(b, l, d, dm, i))])),
        ("lemma: same units", z3.ForAll([a, n, b, l, p, i], tail_read(a, n, b, l, p, i), patterns=[z3.MultiPattern(TAILN(a, n, b, l, p), sel(a, i))])),
        ("lemma: occurrences in the tail", F([*k, b, l, p, i], transport(a, n, b, l, d, dm, p, i), (TAILN(a, n, b, l, p), OCN(*k, i)))),
        ("lemma: ranges in the tail", F([*k, b, l, p, i, j], transportn(a, n, b, l, d, dm, p, i, j), (TAILN(a, n, b, l, p), NOCN(*k, i, j))))]


def lem_subst():
    k = z3.Const("a", A), z3.Int("n"), z3.Const("d", A), z3.Int("m")
    a, n, d, dm = k
    b, l = z3.Const("b", A), z3.Int("l")
    p, i, m, x, q, j, y = z3.Ints("p i nl x q j y")
    df = [g for _, g in sp_defs()]
    H = lambda *y: And(df + [k[3] > 0] + list(y))
    z = z3.Int("z")
    df2 = [z3.ForAll([z], occ_def(a, n, d, dm, z), patterns=[OCN(*k, z)]), z3.ForAll([z], occ_def(b, l, d, dm, z), patterns=[OCN(b, l, d, dm, z)]), tail_def(a, n, b, l, p)]
    T = z3.And(TAIL(a, n, b, l, p), x >= p)
    O1, O2 = OCC(*k, x), OCC(b, l, d, dm, x + l - n)
    D = lambda *r: And([nocc_def(k, *t) for t in r])
    kb = (b, l, d, dm)
    tr = z3.ForAll([z], transport(a, n, b, l, d, dm, p, z), patterns=[OCN(*k, z)])
    trb = z3.ForAll([z], transport(a, n, b, l, d, dm, p, z - l + n), patterns=[OCN(*kb, z)])
    return [("positions, gap: base", z3.Implies(H(D((p, p))), np_gap(k, p, p, m))),
            ("positions, gap: step", z3.Implies(H(i >= p, p >= 0, np_gap(k, p, i, m), np_step(k, i, m), D((p, i), (p, i + 1)), SK(*k, i + 1) == z3.If(SK(*k, i) > 1, SK(*k, i) - 1, fresh(k, i + 1))), np_gap(k, p, i + 1, m))),
            ("positions, delimiter: base", z3.Implies(H(np_step(k, p, m)), np_dlm(k, p, p + 1, m))),
            ("positions, delimiter: step", z3.Implies(H(p >= 0, i > p, dlm(k, p, i), np_dlm(k, p, i, m), np_step(k, i, m)), np_dlm(k, p, i + 1, m))),
            ("positions grow: base", z3.Implies(H(np_step(k, p, m)), np_mono(k, p, p + 1, m))), ("positions grow: step", z3.Implies(H(i > p, np_mono(k, p, i, m), np_step(k, i, m)), np_mono(k, p, i + 1, m))),
            ("text after a delimiter", z3.Implies(H(dlm(k, p, p + k[3]), np_dlm(k, p, p + k[3], m), np_gap(k, p + k[3], i, m)), after(k, p, i, m))),
            ("no occurrence", z3.Implies(z3.And(D((p, i)), NOCC(*k, p, i), p <= j, j < i), z3.Not(OCC(*k, j)))),
            ("empty range", z3.Implies(z3.And(D((p, i)), i <= p), NOCC(*k, p, i))), ("part of a range", z3.Implies(D((p, i), (q, j)), part(k, p, i, q, j))),
            ("the whole text", z3.Implies(z3.And(tail_def(a, n, a, n, p), 0 <= p, p <= n), TAIL(a, n, a, n, p))),
            ("shorter tails", z3.Implies(z3.And(tail_def(a, n, b, l, p), tail_def(a, n, b, l, q)), later(a, n, b, l, p, q))),
            ("tails of tails", z3.Implies(And([tail_def(a, n, b, l, p), tail_def(b, l, d, dm, i), tail_def(a, n, d, dm, p)]), compose(a, n, b, l, d, dm, p, i))),
            ("same units", z3.Implies(tail_def(a, n, b, l, p), tail_read(a, n, b, l, p, x))),
            ("occurrences in the tail", z3.Implies(And(df2 + [T, O1]), O2)), ("occurrences in the tail, back", z3.Implies(And(df2 + [T, O2]), O1)),
            ("ranges in the tail", z3.Implies(z3.And(D((x, y)), nocc_def(kb, x + l - n, y + l - n), tr, trb), transportn(a, n, b, l, d, dm, p, x, y)))]


def sb_text(c, k, w, r, upto):
    m = w.len
    return [("kept units, in order", all_(I_, lambda i: imp(z3.And(rng(0, i, upto), SK(*k, i) == 0), sel(r.arr, NP(*k, i, m)) == sel(k[0], i)), lambda i: NP(*k, i, m))),
            ("every occurrence is replaced", all_(I_, lambda i: imp(z3.And(rng(0, i, upto), SK(*k, i) == k[3]), all_(I_, lambda x: imp(rng(0, x, m), sel(r.arr, NP(*k, i, m) + x) == sel(w.arr, x)), lambda x: sel(w.arr, x))), lambda i: NP(*k, i, m)))]


def sb_inv(L):
    t, o, w = L.arg0(0), L.arg0(1), L.arg0(2)
    k = key(t, o)
    s = L.v("s", "std::basic_string<char16_t>")
    p = L.v("p", "unsigned long")
    none = p == (1 << 64) - 1
    q = z3.If(none, t.len, p + t.len - s.len)
    return [("position", z3.And(0 <= q, q <= t.len, s.len >= 0, p >= 0, z3.Implies(z3.Not(none), p + o.len <= s.len))),
            ("between occurrences", z3.And(SK(*k, q) == fresh(k, q), NP(*k, q, w.len) == z3.If(none, s.len, p))),
            ("an occurrence is next", z3.Implies(z3.Not(none), z3.And(OCC(*k, q), TAIL(s.arr, s.len, t.arr, t.len, p))))] + sb_text(L, k, w, s, q)


def sb_ens(c):
    t, o, w, r = c.arg0(0), c.arg0(1), c.arg0(2), c.ret
    k = key(t, o)
    return [("length", r.len == NP(*k, t.len, w.len))] + sb_text(c, k, w, r, t.len)


P = dict(props=["U17"], strings="vec")
CONTRACTS = [
    Contract("StringUtils::startswith", TU, None, ensures=pre_ens, **P),
    Contract("StringUtils::endswith", TU, None, ensures=suf_ens, **P),
    Contract("StringUtils::merge_wblanks", TU, None, requires=lambda c: [("a blank that is not empty has its brackets", z3.And(z3.Or(c.arg0(0).len == 0, c.arg0(0).len >= 2), z3.Or(c.arg0(1).len == 0, c.arg0(1).len >= 2)))], ensures=mw_ens, **P),
    Contract("StringUtils::split_escaped", TU, None, requires=lambda c: [("the delimiter is not the escape", c.arg0(1) != BS), ("addressable", c.arg0(0).len < 2**62)], ensures=se_ens, loops=[Loop(se_inv)], axioms=esc_axioms, **P),
    Contract("StringUtils::split", TU, None, requires=lambda c: [("the delimiter is not empty", c.arg0(1).len > 0), ("addressable", c.arg0(0).len + c.arg0(1).len < 2**62)], ensures=sp_ens, loops=[Loop(sp_inv)], axioms=sp_axioms, **P),
    Contract("StringUtils::join", TU, None, ensures=j_ens, loops=[Loop(j_inv)], axioms=j_axioms, **P),
    Contract("StringUtils::substitute", TU, None, requires=lambda c: [("something to look for", c.arg0(1).len > 0)], assumes=lambda c: [("texts are shorter than 2^30 units", z3.And(c.arg0(0).len < 2**30, c.arg0(2).len < 2**30))],
             ensures=sb_ens, loops=[Loop(sb_inv)], axioms=sb_axioms, timeout=90, **P),
    Lemma("replacements", lem_subst, props=["U17"]),
    Lemma("delimiters", lem_split, props=["U17"]),
]
