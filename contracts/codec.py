"""Integer and weight codec of binary dictionaries (Compression::*)."""
import z3
from engine import Contract, Loop, Lemma
from values import And, sel, Unsupported

TU = "compression.cc"
B8 = lambda v: z3.BitVecVal(v, 8)
BV = lambda v: z3.BitVecVal(v, 32)
LIM = 0x40000000


# ---------------------------------------------------------------- spec functions
def enc_len(v):
    return z3.If(z3.ULT(v, 0x40), 1, z3.If(z3.ULT(v, 0x4000), 2, z3.If(z3.ULT(v, 0x400000), 3, 4)))


def enc_byte(v, i):
    """i-th byte of the encoding of v (big-endian value, two tag bits = length-1)"""
    ln = enc_len(v)
    tag = z3.If(ln == 1, B8(0), z3.If(ln == 2, B8(0x40), z3.If(ln == 3, B8(0x80), B8(0xC0))))
    by = [z3.Extract(7, 0, v), z3.Extract(15, 8, v), z3.Extract(23, 16, v), z3.Extract(31, 24, v)]
    b = by[0]
    for k in (1, 2, 3):
        b = z3.If(ln - 1 - i == k, by[k], b)
    return b | tag if i == 0 else b


def dec_len(b0):
    t = z3.Extract(7, 6, b0)
    return z3.If(t == 0, 1, z3.If(t == 1, 2, z3.If(t == 2, 3, 4)))


def dec(data, pos):
    b = [sel(data, pos + k) for k in range(4)]
    l = dec_len(b[0])
    top = z3.Concat(z3.BitVecVal(0, 2), z3.Extract(5, 0, b[0]))
    z = B8(0)
    return z3.If(l == 1, z3.Concat(z, z, z, top), z3.If(l == 2, z3.Concat(z, z, top, b[1]),
           z3.If(l == 3, z3.Concat(z, top, b[1], b[2]), z3.Concat(top, b[1], b[2], b[3]))))


# ---------------------------------------------------------------- contracts, byte level
def wr_ens(c):
    v = c.arg0(0)
    o, n = c.arg0(1), c.arg(1)
    i = z3.Int("i")
    r = [("length of the encoding", n.len == o.len + enc_len(v))]
    for k in range(4):
        r.append(("byte %d" % k, z3.Implies(k < enc_len(v), sel(n.data, o.len + k) == enc_byte(v, k))))
    r.append(("earlier output untouched", z3.ForAll([i], z3.Implies(i < o.len, sel(n.data, i) == sel(o.data, i)))))
    r.append(("read position untouched", n.pos == o.pos))
    return r


def big(c):
    return z3.UGE(c.arg0(0), LIM)


def rd_ens(c):
    o, n = c.arg0(0), c.arg(0)
    l = dec_len(sel(o.data, o.pos))
    ok = z3.And(o.pos < o.len, o.pos + l <= o.len)
    return [("decoded value", z3.Implies(ok, c.ret == dec(o.data, o.pos))),
            ("consumes exactly the encoding", z3.Implies(ok, n.pos == o.pos + l)),
            ("result is below 2^30", z3.ULT(c.ret, LIM)),
            ("data untouched", z3.And(n.data == o.data, n.len == o.len))]


# ---------------------------------------------------------------- the same contracts, token level
# The ghost stream of callers is the sequence of encoded values; lemma TOK connects the two views.
def T_int(S, v):
    return v if S.mode == "bv" else S.Tok().TInt(v)


def tok_append(S, o, n, toks):
    i = z3.Int("i")
    r = [n.len == o.len + len(toks), n.pos == o.pos,
         z3.ForAll([i], z3.Implies(i < o.len, sel(n.data, i) == sel(o.data, i)))]
    if len(toks) == 1 and S.mode == "int":
        r.append(n.data == z3.Store(o.data, o.len, toks[0]))      # nothing is said of what lies beyond the end
    return r + [sel(n.data, o.len + k) == t for k, t in enumerate(toks)]


def tok_write_ens(c):
    return tok_append(c.S, c.arg0(1), c.arg(1), [T_int(c.S, c.arg0(0))])


def tok_small(c):
    v = c.arg0(0)
    return [("value below 2^30", z3.ULT(v, LIM) if z3.is_bv(v) else v < LIM)]


def tok_read_ens(c):
    S = c.S
    o, n = c.arg0(0), c.arg(0)
    t = sel(o.data, o.pos)
    ok = o.pos < o.len
    r = [n.data == o.data, n.len == o.len, z3.Implies(ok, n.pos == o.pos + 1)]
    if S.mode == "bv":
        return r + [z3.Implies(ok, c.ret == t), z3.ULT(c.ret, LIM)]
    Tok = S.Tok()
    return r + [z3.Implies(z3.And(ok, Tok.is_TInt(t)), c.ret == Tok.tint(t)), c.ret < LIM]


WR = dict(ensures=wr_ens, exits=big, mode="bv", modifies=["arg1"],
          client=dict(requires=tok_small, ensures=tok_write_ens, exits=None))
RD = dict(ensures=rd_ens, mode="bv", modifies=["arg0"], client=dict(ensures=tok_read_ens))


def lem_inverse():
    v = z3.BitVec("v", 32)
    d = z3.Array("d", z3.IntSort(), z3.BitVecSort(8))
    p = z3.Int("p")
    enc = z3.And(z3.ULT(v, LIM), *[z3.Implies(k < enc_len(v), sel(d, p + k) == enc_byte(v, k)) for k in range(4)])
    return [("decode(encode(v)) = v", z3.Implies(enc, dec(d, p) == v)),
            ("decode consumes len(encode(v))", z3.Implies(enc, dec_len(sel(d, p)) == enc_len(v)))]


def lem_tok():
    """representation of a token stream: off(0)=0, off(k+1)=off(k)+|enc(tok k)|, bytes as encoded.
    Appending enc(v) represents tok ++ [v]; decoding at off(k) yields tok k and moves to off(k+1)."""
    I_, A8 = z3.IntSort(), z3.ArraySort(z3.IntSort(), z3.BitVecSort(8))
    tok = z3.Array("tok", I_, z3.BitVecSort(32))
    off = z3.Array("off", I_, I_)
    d, d2 = z3.Const("d", A8), z3.Const("d2", A8)
    n, ln, k, i = z3.Ints("n ln k i")
    v = z3.BitVec("v", 32)

    def rep(tok, off, d, n, ln):
        return z3.And(sel(off, z3.IntVal(0)) == 0, sel(off, n) == ln,
                      z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(
                          z3.ULT(z3.Select(tok, k), LIM), z3.Select(off, k) >= 0,
                          z3.Select(off, k) + enc_len(z3.Select(tok, k)) <= ln,
                          z3.Select(off, k + 1) == z3.Select(off, k) + enc_len(z3.Select(tok, k)),
                          *[z3.Implies(j < enc_len(z3.Select(tok, k)), z3.Select(d, z3.Select(off, k) + j) == enc_byte(z3.Select(tok, k), j)) for j in range(4)])),
                          patterns=[z3.Select(tok, k)]))
    R = rep(tok, off, d, n, ln)
    j = z3.Int("j")
    m = z3.Int("m")
    tm = z3.Select(tok, m)
    read_ok = z3.Implies(z3.And(R, 0 <= m, m < n),
                         z3.And(dec(d, z3.Select(off, m)) == tm,
                                dec_len(z3.Select(d, z3.Select(off, m))) == z3.Select(off, m + 1) - z3.Select(off, m),
                                z3.Select(off, m) + dec_len(z3.Select(d, z3.Select(off, m))) <= ln))
    # append: pointwise statement of rep for the new stream at an arbitrary index m
    tok2, off2 = z3.Store(tok, n, v), z3.Store(off, n + 1, ln + enc_len(v))
    app = z3.And(z3.ULT(v, LIM), n >= 0, ln >= 0,
                 z3.ForAll([i], z3.Implies(i < ln, z3.Select(d2, i) == z3.Select(d, i))),
                 *[z3.Implies(q < enc_len(v), sel(d2, ln + q) == enc_byte(v, q)) for q in range(4)])
    t2 = z3.Select(tok2, m)
    o2 = z3.Select(off2, m)
    step = z3.Implies(z3.And(R, app, 0 <= m, m <= n, tm == tm),
                      z3.And(z3.ULT(t2, LIM), o2 >= 0, o2 + enc_len(t2) <= ln + enc_len(v),
                             z3.Select(off2, m + 1) == o2 + enc_len(t2),
                             *[z3.Implies(q < enc_len(t2), z3.Select(d2, o2 + q) == enc_byte(t2, q)) for q in range(4)]))
    return [("reading at a token boundary yields that token", read_ok), ("appending an encoding appends a token", step)]


# ---------------------------------------------------------------- weights
def emit_len(u):
    return z3.If(z3.ULT(u, 0x04000000), 1, 2)


def emit_tok(u, k):
    if k == 0:
        return z3.If(z3.ULT(u, 0x04000000), u, z3.LShR(u, 26) | BV(0x04000000))
    return u & BV(0x03FFFFFF)


def frexp(v):
    D = z3.Float64()
    return (z3.Function("frexp_m", D, D)(v), z3.Function("frexp_e", D, z3.BitVecSort(32))(v))


def mant_exp(v):
    m, e = frexp(v)
    D = z3.Float64()
    M = z3.fpToSBV(z3.RTZ(), z3.fpMul(z3.RNE(), z3.FPVal(2.0 ** 30, D), m), z3.BitVecSort(32))
    inf = z3.fpIsInf(v)
    neg = z3.fpLT(v, z3.FPVal(0.0, D))
    return z3.If(inf, BV(0xFFFFFFFF), M), z3.If(inf, z3.If(neg, BV(0xFFFFFFFE), BV(0xFFFFFFFF)), e)


def lw_ens(c):
    v = c.arg0(0)
    o, n = c.arg0(1), c.arg(1)
    M, Ex = mant_exp(v)
    i = z3.Int("i")
    lm = emit_len(M)
    le = emit_len(Ex)
    return [("number of code units", n.len == o.len + lm + le),
            ("mantissa unit 0", sel(n.data, o.len) == emit_tok(M, 0)),
            ("mantissa unit 1", z3.Implies(lm == 2, sel(n.data, o.len + 1) == emit_tok(M, 1))),
            ("exponent unit 0", sel(n.data, o.len + lm) == emit_tok(Ex, 0)),
            ("exponent unit 1", z3.Implies(le == 2, sel(n.data, o.len + lm + 1) == emit_tok(Ex, 1))),
            ("earlier output untouched", z3.ForAll([i], z3.Implies(i < o.len, sel(n.data, i) == sel(o.data, i)))),
            ("read position untouched", n.pos == o.pos)]


def un_len(t0):
    return z3.If(z3.ULT(t0, 0x04000000), 1, 2)


def unemit(data, p):
    t0, t1 = sel(data, p), sel(data, p + 1)
    return z3.If(z3.ULT(t0, 0x04000000), t0, t1 | ((t0 & BV(0x03FFFFFF)) << 26))


def ldexp(m, e):
    D = z3.Float64()
    return z3.Function("ldexp", D, z3.BitVecSort(32), D)(m, e)


def dval(M, Ex):
    D = z3.Float64()
    x = z3.fpDiv(z3.RNE(), z3.fpSignedToFP(z3.RNE(), M, D), z3.FPVal(2.0 ** 30, D))
    return z3.If(z3.And(M == BV(0xFFFFFFFF), Ex == BV(0xFFFFFFFE)), z3.fpMinusInfinity(D),
                 z3.If(z3.And(M == BV(0xFFFFFFFF), Ex == BV(0xFFFFFFFF)), z3.fpPlusInfinity(D), ldexp(x, Ex)))


def lr_ens(c):
    o, n = c.arg0(0), c.arg(0)
    p = o.pos
    lm = un_len(sel(o.data, p))
    M = unemit(o.data, p)
    le = un_len(sel(o.data, p + lm))
    Ex = unemit(o.data, p + lm)
    ok = p + lm + le <= o.len
    return [("decoded weight", z3.Implies(ok, c.ret == dval(M, Ex))),
            ("consumes exactly the encoding", z3.Implies(ok, n.pos == p + lm + le)),
            ("data untouched", z3.And(n.data == o.data, n.len == o.len))]


def tokd_write_ens(c):
    if c.S.mode == "bv":
        raise Unsupported("nested weight codec")
    return tok_append(c.S, c.arg0(1), c.arg(1), [c.S.Tok().TDbl(quant(c.S, c.arg0(0)))])


def quant(S, w):
    """the 30-bit quantisation of a weight, as an uninterpreted idempotent function"""
    return z3.Function("quant30", S.Dbl, S.Dbl)(w)


def tokd_read_ens(c):
    S = c.S
    Tok = S.Tok()
    o, n = c.arg0(0), c.arg(0)
    t = sel(o.data, o.pos)
    return [n.data == o.data, n.len == o.len, z3.Implies(o.pos < o.len, n.pos == o.pos + 1),
            z3.Implies(z3.And(o.pos < o.len, Tok.is_TDbl(t)), c.ret == Tok.tdbl(t))]


LW = dict(ensures=lw_ens, mode="bv", tokens=True, modifies=["arg1"],
          requires=lambda c: [("weight is not NaN", z3.Not(z3.fpIsNaN(c.arg0(0))))],
          client=dict(ensures=tokd_write_ens, requires=None))
LR = dict(ensures=lr_ens, mode="bv", tokens=True, modifies=["arg0"], client=dict(ensures=tokd_read_ens))


def frexp_axioms(v):
    m, e = frexp(v)
    D = z3.Float64()
    am = z3.fpAbs(m)
    fin = z3.Not(z3.Or(z3.fpIsInf(v), z3.fpIsNaN(v)))
    return z3.And(z3.Implies(z3.And(fin, z3.Not(z3.fpIsZero(v))), z3.And(
        z3.fpGEQ(am, z3.FPVal(0.5, D)), z3.fpLT(am, z3.FPVal(1.0, D)), e >= -1073, e <= 1024)),
        z3.Implies(z3.fpIsZero(v), z3.And(m == v, e == 0)))


def lem_weight():
    D = z3.Float64()
    v = z3.Const("v", D)
    d = z3.Array("d", z3.IntSort(), z3.BitVecSort(32))
    p = z3.Int("p")
    M, Ex = z3.BitVecs("M Ex", 32)
    lm, le = emit_len(M), emit_len(Ex)
    enc = z3.And(sel(d, p) == emit_tok(M, 0), z3.Implies(lm == 2, sel(d, p + 1) == emit_tok(M, 1)),
                 sel(d, p + lm) == emit_tok(Ex, 0), z3.Implies(le == 2, sel(d, p + lm + 1) == emit_tok(Ex, 1)))
    r = [("mantissa survives", z3.Implies(enc, z3.And(unemit(d, p) == M, un_len(sel(d, p)) == lm))),
         ("exponent survives", z3.Implies(enc, z3.And(unemit(d, p + lm) == Ex, un_len(sel(d, p + lm)) == le))),
         ("code units are below 2^30", z3.And(z3.ULT(emit_tok(M, 0), LIM), z3.ULT(emit_tok(M, 1), LIM)))]
    m, e = frexp(v)
    Mv, Ev = mant_exp(v)
    x = z3.fpDiv(z3.RNE(), z3.fpSignedToFP(z3.RNE(), Mv, D), z3.FPVal(2.0 ** 30, D))
    fin = z3.Not(z3.Or(z3.fpIsInf(v), z3.fpIsNaN(v)))
    ax = frexp_axioms(v)
    r.append(("infinities survive with their sign", z3.Implies(z3.fpIsInf(v), dval(Mv, Ev) == v)))
    r.append(("a finite weight is never taken for an infinity", z3.Implies(z3.And(ax, fin), Mv != BV(0xFFFFFFFF))))
    # x is m truncated toward zero to 30 fractional bits
    err = z3.fpAbs(z3.fpSub(z3.RNE(), m, x))
    r.append(("finite weight: mantissa error below 2^-30", z3.Implies(z3.And(ax, fin), z3.fpLT(err, z3.FPVal(2.0 ** -30, D)))))
    r.append(("finite weight: exponent exact", z3.Implies(z3.And(ax, fin), dval(Mv, Ev) == ldexp(x, e))))
    return r


CONTRACTS = [
    Contract("Compression::multibyte_write", TU, "void (unsigned int, FILE *)", props=["C01"], **WR),
    Contract("Compression::multibyte_write", TU, "void (unsigned int, std::ostream &)", props=["C01"], **WR),
    Contract("Compression::multibyte_read", TU, "unsigned int (FILE *)", props=["C01"], **RD),
    Contract("Compression::multibyte_read", TU, "unsigned int (std::istream &)", props=["C01"], **RD),
    Lemma("codec round trip", lem_inverse, props=["C01"]),
    Lemma("TOK token streams", lem_tok, props=["C01", "C02", "C03"]),
    Contract("Compression::long_multibyte_write", TU, "void (const double &, FILE *)", props=["C02"], **LW),
    Contract("Compression::long_multibyte_write", TU, "void (const double &, std::ostream &)", props=["C02"], **LW),
    Contract("Compression::long_multibyte_read", TU, "double (FILE *)", props=["C02"], **LR),
    Contract("Compression::long_multibyte_read", TU, "double (std::istream &)", props=["C02"], **LR),
    Lemma("weight round trip", lem_weight, props=["C02"], timeout=60),
]
