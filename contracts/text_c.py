"""UTF-16 text <-> code points <-> tokens of the dictionary format (C03)"""
import z3
from engine import Contract, Loop, Lemma
from speclib import *
import codec

TC, TU = "compression.cc", "ustring.cc"
A = z3.ArraySort(I_, I_)
OFF = z3.Function("u16off", A, I_, I_, I_)        # UTF-16 length of the code points b..n-1 of an array


def width(c):
    return z3.If(c > 0xFFFF, 2, 1)


def off_axioms(a_sort=A, f=OFF, get=lambda a, i: sel(a, i)):
    a = z3.Const("oa", a_sort)
    b, n = z3.Ints("ob on")
    return [("definition: empty", z3.ForAll([a, b], f(a, b, b) == 0, patterns=[f(a, b, b)])),
            ("definition: step", z3.ForAll([a, b, n], z3.Implies(n >= b, f(a, b, n + 1) == f(a, b, n) + width(get(a, n))), patterns=[z3.MultiPattern(f(a, b, n), get(a, n))]))]


def step(a, b, n, f=OFF, get=sel):
    """one instance of the definition"""
    return z3.Implies(n >= b, f(a, b, n + 1) == f(a, b, n) + width(get(a, n)))


def frame_inst(a2, a1, b, n, f=OFF):
    return f(a2, b, n) == f(a1, b, n)


def frame_axiom(f=OFF, sort=A):
    """consequence of the definition, proved by induction in lemma OFF: an array that agrees on b..n-1 has the same lengths"""
    a1, a2 = z3.Consts("oa1 oa2", sort)
    b, n, i = z3.Ints("ob on oi")
    return z3.ForAll([a1, a2, b, n], z3.Implies(z3.And(n >= b, z3.ForAll([i], z3.Implies(z3.And(b <= i, i < n), sel(a1, i) == sel(a2, i)), patterns=[sel(a1, i), sel(a2, i)])),
                                                f(a1, b, n) == f(a2, b, n)), patterns=[z3.MultiPattern(f(a1, b, n), f(a2, b, n))])


def lead(c):
    return 0xD800 + (c - 0x10000) / 1024


def trail(c):
    return 0xDC00 + c % 1024


def units(s, p, c):
    """the code point c is written at offset p of the UTF-16 text s"""
    return z3.If(c <= 0xFFFF, sel(s, p) == c, z3.And(sel(s, p) == lead(c), sel(s, p + 1) == trail(c)))


def islead(x):
    return z3.And(0xD800 <= x, x < 0xDC00)


def istrail(x):
    return z3.And(0xDC00 <= x, x < 0xE000)


def cp_ok(c):
    return z3.And(0 <= c, c <= 0x10FFFF)


# ---------------------------------------------------------------- operator+=(UString&, UChar32)
def app_ens(c):
    o, n, x = c.arg0(0), c.arg(0), c.arg0(1)
    return [("length grows by the width", n.len == o.len + width(x)),
            ("earlier text is kept", all_(I_, lambda i: imp(z3.And(0 <= i, i < o.len), sel(n.arr, i) == sel(o.arr, i)), lambda i: sel(n.arr, i))),
            ("the code point is written at the end", z3.Implies(cp_ok(x), units(n.arr, o.len, x)))]


# ---------------------------------------------------------------- ustring_to_vec32
def v32(s, v, b, n, upto):
    """v[b..n) are the code points of s[0..upto), one after another"""
    f = lambda j: OFF(v, b, j)
    return [("offsets", z3.And(f(n) == upto, f(b) == 0)),
            ("offsets do not go beyond", all_(I_, lambda j: imp(z3.And(b <= j, j < n), z3.And(f(j) >= 0, f(j) + width(sel(v, j)) <= upto)), lambda j: sel(v, j))),
            ("code points are written where they were read", all_(I_, lambda j: imp(z3.And(b <= j, j < n), z3.And(cp_ok(sel(v, j)), units(s, f(j), sel(v, j)))), lambda j: sel(v, j))),
            ("surrogate pairs are never split", all_(I_, lambda j: imp(z3.And(b <= j, j < n, f(j) + 1 < s_len(s), islead(sel(v, j))), z3.Not(istrail(sel(s, f(j) + 1)))), lambda j: sel(v, j)))]


SLEN = {}


def s_len(s):
    return SLEN[s.get_id()][0]


def decoded(s, v, b, n, upto):
    SLEN[s.arr.get_id()] = (s.len, s.arr)
    return v32(s.arr, v, b, n, upto)


def v32_inv(L):
    s = L.arg0(0)
    o, v = L.arg0(1), L.arg(1)
    i = L.v("i", "unsigned long")
    return [("position", z3.And(0 <= i, i <= s.len, L.v("len", "unsigned long") == s.len)), ("grows", z3.And(v.len >= o.len, v.len <= o.len + i)),
            ("earlier code points are kept", all_(I_, lambda j: imp(z3.And(0 <= j, j < o.len), sel(v.arr, j) == sel(o.arr, j)), lambda j: sel(v.arr, j)))] + decoded(s, v.arr, o.len, v.len, i)


def v32_ens(c):
    s, o, v = c.arg0(0), c.arg0(1), c.arg(1)
    return [("grows", z3.And(v.len >= o.len, v.len <= o.len + s.len)),
            ("earlier code points are kept", all_(I_, lambda j: imp(z3.And(0 <= j, j < o.len), sel(v.arr, j) == sel(o.arr, j)), lambda j: sel(v.arr, j)))] + decoded(s, v.arr, o.len, v.len, s.len)


def grows(v, b, n):
    return ("at least one unit per code point", OFF(v, b, n) >= n - b)


# ---------------------------------------------------------------- string_write / string_read
def tint(S, d, i):
    return S.Tok().tint(sel(d, i))


def TOFF(S):
    return z3.Function("tokoff", z3.ArraySort(I_, S.Tok()), I_, I_, I_)


def toks(S, s, d, b, n, upto):
    """the tokens b..n-1 of d are the code points of s[0..upto)"""
    f = lambda j: TOFF(S)(d, b, j)
    g = lambda j: tint(S, d, j)
    return [("offsets", z3.And(f(n) == upto, f(b) == 0)),
            ("tokens are the code points of the text", all_(I_, lambda j: imp(z3.And(b <= j, j < n), z3.And(S.Tok().is_TInt(sel(d, j)), cp_ok(g(j)), f(j) >= 0, f(j) + width(g(j)) <= upto, units(s, f(j), g(j)))), lambda j: sel(d, j)))]


def toff_axioms(c):
    S = c.S
    f = TOFF(S)
    so = z3.ArraySort(I_, S.Tok())
    a = z3.Const("ta", so)
    b, n = z3.Ints("tb tn")
    return off_axioms() + [("frame", frame_axiom()),
                           ("definition: empty (tokens)", z3.ForAll([a, b], f(a, b, b) == 0, patterns=[f(a, b, b)])),
                           ("definition: step (tokens)", z3.ForAll([a, b, n], z3.Implies(n >= b, f(a, b, n + 1) == f(a, b, n) + width(S.Tok().tint(sel(a, n)))), patterns=[z3.MultiPattern(f(a, b, n), sel(a, n))])),
                           ("frame (tokens)", frame_axiom(f, so))]


def sw_inv(L):
    S = L.S
    s = L.arg0(0)
    o, n = L.arg0(1), L.arg(1)
    v = L.v("vec", "std::vector<int>")
    k = L.idx
    b = o.len + 1
    f = TOFF(S)
    return [("one token per code point so far", z3.And(0 <= k, k <= v.len, n.len == b + k, n.pos == o.pos)),
            ("earlier tokens are kept", all_(I_, lambda i: imp(i < o.len, sel(n.data, i) == sel(o.data, i)), lambda i: sel(n.data, i))),
            ("first token is the number of code points", sel(n.data, o.len) == S.Tok().TInt(v.len)),
            ("tokens are the code points", all_(I_, lambda j: imp(z3.And(b <= j, j < b + k), z3.And(sel(n.data, j) == S.Tok().TInt(sel(v.arr, j - b)), f(n.data, b, j) == OFF(v.arr, 0, j - b))), lambda j: sel(n.data, j))),
            ("offset of the next token", f(n.data, b, b + k) == OFF(v.arr, 0, k))]


def sw_ens(c):
    S = c.S
    s, o, n = c.arg0(0), c.arg0(1), c.arg(1)
    return [("token count", z3.And(n.len >= o.len + 1, n.pos == o.pos, sel(n.data, o.len) == S.Tok().TInt(n.len - o.len - 1))),
            ("earlier tokens are kept", all_(I_, lambda i: imp(i < o.len, sel(n.data, i) == sel(o.data, i)), lambda i: sel(n.data, i)))] + toks(S, s.arr, n.data, o.len + 1, n.len, s.len)


def sr_pre(c, o):
    """a string starts at the reading position"""
    S = c.S
    T = S.Tok()
    N = tint(S, o.data, o.pos)
    b = o.pos + 1
    return z3.And(o.pos < o.len, T.is_TInt(sel(o.data, o.pos)), 0 <= N, b + N <= o.len,
                  all_(I_, lambda j: imp(z3.And(b <= j, j < b + N), z3.And(T.is_TInt(sel(o.data, j)), cp_ok(tint(S, o.data, j)))), lambda j: sel(o.data, j)))


def sr_facts(c, o, ret, b, n):
    S = c.S
    f = TOFF(S)
    return [("length", ret.len == f(o.data, b, n)),
            ("text is the code points read", all_(I_, lambda j: imp(z3.And(b <= j, j < n), z3.And(f(o.data, b, j) >= 0, f(o.data, b, j) + width(tint(S, o.data, j)) <= ret.len, units(ret.arr, f(o.data, b, j), tint(S, o.data, j)))), lambda j: sel(o.data, j)))]


def sr_inv(L):
    S = L.S
    o, n = L.arg0(0), L.arg(0)
    r = L.v("retval", "std::basic_string<char16_t>")
    i, lim = L.v("i", "unsigned int"), L.v("limit", "unsigned int")
    b = o.pos + 1
    P = sr_pre(L, o)
    return [("frame", z3.And(n.data == o.data, n.len == o.len)), ("position", z3.And(i >= 0, z3.Implies(P, z3.And(i <= lim, n.pos == b + i, lim == tint(S, o.data, o.pos)))))] + \
        [(nm, z3.Implies(P, g)) for nm, g in sr_facts(L, o, r, b, b + i)]


def sr_ens(c):
    S = c.S
    o, n = c.arg0(0), c.arg(0)
    b = o.pos + 1
    P = sr_pre(c, o)
    e = b + tint(S, o.data, o.pos)
    return [("frame", z3.And(n.data == o.data, n.len == o.len)), ("consumes exactly the string", z3.Implies(P, n.pos == e))] + [(nm, z3.Implies(P, g)) for nm, g in sr_facts(c, o, c.ret, b, e)]


def lem_off():
    """the frame property of u16off, by induction on n"""
    a1, a2 = z3.Consts("a1 a2", A)
    b, n, i = z3.Ints("b n i")
    agree = lambda m: z3.ForAll([i], z3.Implies(z3.And(b <= i, i < m), sel(a1, i) == sel(a2, i)), patterns=[sel(a1, i)])
    ax = And([g for _, g in off_axioms()])
    st = z3.And(step(a1, b, n), step(a2, b, n))
    return [("base", z3.Implies(ax, OFF(a1, b, b) == OFF(a2, b, b))),
            ("step", z3.Implies(z3.And(ax, st, n >= b, z3.Implies(agree(n), OFF(a1, b, n) == OFF(a2, b, n)), agree(n + 1), sel(a1, n) == sel(a2, n)), OFF(a1, b, n + 1) == OFF(a2, b, n + 1))),
            ("lengths are at least the number of code points: base", z3.Implies(ax, OFF(a1, b, b) >= 0)),
            ("lengths are at least the number of code points: step", z3.Implies(z3.And(ax, st, n >= b, OFF(a1, b, n) >= n - b), OFF(a1, b, n + 1) >= n + 1 - b))]


def lem_text():
    """string_read after string_write: both texts are the code points of the same tokens, hence equal (induction on the number of tokens)"""
    s, r, v = z3.Consts("s r v", A)
    b, n, k = z3.Ints("b n k")
    f = lambda j: OFF(v, b, j)
    eq = lambda m: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < f(m)), sel(s, k) == sel(r, k)), patterns=[sel(s, k)])
    x = z3.Int("x")
    u = z3.And(cp_ok(sel(v, n)), units(s, f(n), sel(v, n)), units(r, f(n), sel(v, n)))
    st = step(v, b, n)
    return [("base", z3.Implies(z3.And(And([g for _, g in off_axioms()])), z3.Implies(z3.And(0 <= x, x < f(b)), sel(s, x) == sel(r, x)))),
            ("step", z3.Implies(z3.And(st, n >= b, f(n) >= 0, eq(n), u, 0 <= x, x < f(n + 1), sel(s, x) == sel(s, x)), sel(s, x) == sel(r, x))),
            ("a code point is rebuilt from its surrogates", z3.Implies(z3.And(0x10000 <= x, x <= 0x10FFFF), (lead(x) - 0xD800) * 1024 + (trail(x) - 0xDC00) + 0x10000 == x))]


def tw(c):
    return codec.tok_append(c.S, c.arg0(1), c.arg(1), [c.S.Tok().TStr(raw(c.arg0(0)))])


def tr(c):
    S = c.S
    o, n = c.arg0(0), c.arg(0)
    t = sel(o.data, o.pos)
    ok = o.pos < o.len
    return [n.data == o.data, n.len == o.len, z3.Implies(ok, n.pos == o.pos + 1), z3.Implies(z3.And(ok, S.Tok().is_TStr(t)), raw(c.ret) == S.Tok().tstr(t))]


P = dict(props=["C03"], strings="vec")
CONTRACTS = [
    Contract("operator+=", TU, "void (UString &, UChar32)", ensures=app_ens, modifies=["arg0"], **P),
    Contract("ustring_to_vec32", TU, None, ensures=v32_ens, modifies=["arg1"], loops=[Loop(v32_inv)], axioms=lambda c: off_axioms() + [("frame", frame_axiom())], **P),
    Contract("Compression::string_write", TC, None, requires=lambda c: [("fewer than 2^30 units", c.arg0(0).len < 2**30)], ensures=sw_ens, modifies=["arg1"], loops=[Loop(sw_inv)], tokens=True,
             axioms=toff_axioms, client=dict(requires=None, ensures=tw), **P),
    Contract("Compression::string_read", TC, None, ensures=sr_ens, modifies=["arg0"], loops=[Loop(sr_inv)], tokens=True, axioms=toff_axioms, client=dict(ensures=tr), **P),
    Lemma("OFF text offsets", lem_off, props=["C03"]),
    Lemma("text round trip", lem_text, props=["C03"]),
]
