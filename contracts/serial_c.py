"""Serialiser / Deserialiser of integers: inverse, self-delimiting (C04)"""
import z3
from engine import Contract, Loop, Lemma
from speclib import *

TU = "transducer.cc"


def nbytes(v):
    """number of bytes needed, at least one"""
    w = v.size()
    r = z3.IntVal(w // 8)
    for k in range(w // 8 - 1, 0, -1):
        r = z3.If(z3.ULT(v, z3.BitVecVal(1 << (8 * k), w)), k, r)
    return r


def byte(v, i):
    """byte number i of v, least significant first (i: python int)"""
    return z3.Extract(8 * i + 7, 8 * i, v)


def csize_ens(c):
    v = c.arg0(0)
    n = nbytes(v)
    return [("smallest number of bytes that holds the value", z3.And(*[z3.Implies(n == k, c.ret == k) for k in range(1, v.size() // 8 + 1)]))]


def ser_ens(c):
    v, o, n = c.arg0(0), c.arg0(1), c.arg(1)
    r = [("earlier output is kept", z3.And(n.pos == o.pos, all_(I_, lambda i: imp(i < o.len, sel(n.data, i) == sel(o.data, i)), lambda i: sel(n.data, i))))]
    w = v.size() // 8
    for k in range(1, w + 1):
        r.append(("a value of %d bytes: size, then its bytes, most significant first" % k, z3.Implies(nbytes(v) == k, z3.And(
            n.len == o.len + 1 + k, sel(n.data, o.len) == k, *[sel(n.data, o.len + 1 + j) == byte(v, k - 1 - j) for j in range(k)]))))
    return r


def value(d, p, k, w):
    """the value of the k bytes at p"""
    r = z3.BitVecVal(0, w)
    for j in range(k):
        x = sel(d, p + j)
        x = z3.ZeroExt(w - 8, x) if w > 8 else x
        r = r | (x << (8 * (k - 1 - j)))
    return r


def des_ens(c):
    o, n = c.arg0(0), c.arg(0)
    w = c.ret.size()
    r = [("input untouched", z3.And(n.data == o.data, n.len == o.len))]
    for k in range(1, w // 8 + 1):
        ok = z3.And(o.pos < o.len, sel(o.data, o.pos) == k, o.pos + 1 + k <= o.len)
        r.append(("a value of %d bytes" % k, z3.Implies(ok, z3.And(c.ret == value(o.data, o.pos + 1, k, w), n.pos == o.pos + 1 + k))))
    return r


def truncated(c):
    o = c.arg0(0)
    return z3.Or(o.pos >= o.len, z3.And(o.pos < o.len, o.pos + 1 + z3.BV2Int(sel(o.data, o.pos)) > o.len))


def size_ok_w(w):
    def f(c):
        return size_ok(c, w)
    return f


def size_ok(c, w):
    """the size byte is one the writer can produce (others shift by more than the type's width)"""
    o = c.arg0(0)
    return [('the stream is good', z3.Not(o.bad)),
            ('a size byte written for this type', z3.Implies(o.pos < o.len, z3.ULE(sel(o.data, o.pos), w // 8)))]


def lem():
    out = []
    d = z3.Array("d", z3.IntSort(), z3.BitVecSort(8))
    p = z3.Int("p")
    for w in (8, 16, 64):
        v = z3.BitVec("v", w)
        for k in range(1, w // 8 + 1):
            enc = z3.And(nbytes(v) == k, *[sel(d, p + j) == byte(v, k - 1 - j) for j in range(k)])
            out.append(("%d-bit values of %d bytes come back" % (w, k), z3.Implies(enc, value(d, p, k, w) == v)))
    for w in (32,):
        v = z3.BitVec("v", w)
        out.append(("signed 32-bit values survive widening to 64 bits", z3.Extract(31, 0, z3.SignExt(32, v)) == v))
        out.append(("unsigned 32-bit values survive widening to 64 bits", z3.Extract(31, 0, z3.ZeroExt(32, v)) == v))
    return out


P = dict(props=["C04"], mode="bv", unroll=12)
CONTRACTS = []
for ty, w in (("unsigned long", 64), ("unsigned short", 16), ("unsigned char", 8)):
    CONTRACTS += [Contract("compressedSize", TU, "unsigned char (const %s &)" % ty, ensures=csize_ens, **P),
                  Contract("int_serialise", TU, "void (const %s &, std::ostream &)" % ty, requires=lambda c: [('the stream is good', z3.Not(c.arg0(1).bad))], ensures=ser_ens, modifies=["arg1"], **P),
                  Contract("int_deserialise", TU, "%s (std::istream &)" % ty, requires=size_ok_w(w), throws=truncated, ensures=des_ens, modifies=["arg0"], **P)]
CONTRACTS.append(Lemma("serialised integers round trip", lem, props=["C04"]))
