"""Buffer<T>: the circular buffer replays exactly what was added.

Ghost state: H (everything ever added, in order), N (how many), R (how many of them come before the
current position).  Inv ties the real fields to it; `means(p, m)` says that the saved position p
stands for the absolute position m."""
import os
import z3
from engine import Contract, Lemma
from values import And, sel, raw, Unsupported
from speclib import *

TU = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "ltv", "inst", "templates.cc")
ARR = ("Buffer::buf",)
PROPS = ("B13",)
AS = z3.ArraySort(I_, I_)


def slot(p, size):
    return z3.If(p == size, 0, p)


def wrapi(x, size):
    return z3.If(x < 0, x + size, x)


def wf(b):
    z = b.size
    return z3.And(z > 0, b.buf.len == z, b.currentpos >= 0, b.currentpos <= z, b.lastpos >= 0, b.lastpos <= z,
                  imp(slot(b.currentpos, z) == slot(b.lastpos, z), b.currentpos == b.lastpos),
                  imp(b.lastpos == 0, b.currentpos == 0))


def means(b, N, p, m):
    """the stored position p stands for absolute position m"""
    z = b.size
    return z3.And(p >= 0, p <= z, m >= 0, m <= N, N - m < z,
                  slot(p, z) == wrapi(slot(b.lastpos, z) - (N - m), z), imp(m == N, p == b.lastpos))


def inv(b, H, N, R):
    z = b.size
    return [("positions and size are consistent", wf(b)),
            ("nothing added <=> write position at the start", z3.And(N >= 0, (N == 0) == (b.lastpos == 0))),
            ("the current position stands for R", means(b, N, b.currentpos, R)),
            ("the last elements added are stored in order", all_(I_, lambda j: imp(z3.And(0 <= j, j < z, j < N), b.buf[wrapi(slot(b.lastpos, z) - 1 - j, z)] == sel(H, N - 1 - j))))]


def gh(c):
    return c.ghost("H", AS), c.ghost("N", I_), c.ghost("R", I_)


def pre(*more):
    def f(c):
        H, N, R = gh(c)
        r = inv(c.this, H, N, R)
        for m in more:
            r += m(c)
        return r
    return f


def q(name, f):
    """one obligation"""
    return [(name, f)]


def add_ens(c):
    H, N, R = gh(c)
    v = c.arg0(0)
    k = c.ghost("k", I_)
    return inv(c.this, z3.Store(H, N, v), N + 1, N + 1) + [
        ("the value added is stored", c.ret == v), ("capacity unchanged", c.this.size == c.this0.size),
        ("older saved positions keep their meaning", all_([I_, I_], lambda p, m: imp(z3.And(means(c.this0, N, p, m), N + 1 - m < c.this.size), means(c.this, N + 1, p, m))))]


def next_ens(c):
    H, N, R = gh(c)
    return [("the element at the current position", imp(R < N, c.ret == sel(H, R)))] + \
        [("then the next one: " + n, imp(R < N, f)) for n, f in inv(c.this, H, N, R + 1)] + \
        [("at the end: the newest element", imp(z3.And(R == N, N > 0), c.ret == sel(H, N - 1)))] + \
        [("at the end: nothing moves", imp(R == N, same(c.this0, c.this)))]


def peek_ens(c):
    H, N, R = gh(c)
    return [("the element at the current position", imp(R < N, c.ret == sel(H, R))),
            ("at the end: the newest element", imp(z3.And(R == N, N > 0), c.ret == sel(H, N - 1)))]


def copy_ens(n, o):
    return [("same size", n.size == o.size), ("same position", n.currentpos == o.currentpos), ("same end", n.lastpos == o.lastpos),
            ("own array of that size", n.buf.len == n.size),
            ("same elements", all_(I_, lambda i: imp(z3.And(0 <= i, i < o.size), n.buf[i] == o.buf[i])))]


def diff_ens(sign):
    def f(c):
        H, N, R = gh(c)
        m = c.ghost("m", I_)
        d = (R - m) if sign > 0 else (m - R)
        return [("counts the elements in between", z3.Or(c.ret == d, z3.And(d == 0, c.ret == c.this.size)))]
    return f


def C(key, sig=None, **kw):
    return Contract("Buffer::" + key, TU, sig, arrays=ARR, props=PROPS, inline=True, **kw)


def m_of(c):
    return c.ghost("m", I_)


CONTRACTS = [
    C("Buffer", "void (const unsigned int)", exits=lambda c: c.arg0(0) == 0, modifies=("this",),
      ensures=lambda c: inv(c.this, c.ghost("H", AS), z3.IntVal(0), z3.IntVal(0)) + [("capacity as asked", c.this.size == c.arg0(0))]),
    C("Buffer", "void (const Buffer<int> &)", requires=lambda c: [("well-formed", wf(c.arg(0)))], modifies=("this",), ensures=lambda c: copy_ens(c.this, c.arg0(0))),
    C("operator=", None, requires=lambda c: [("well-formed", wf(c.arg(0)))], modifies=("this",), ensures=lambda c: copy_ens(c.this, c.arg0(0))),
    Contract("Buffer::operator=", TU, None, arrays=ARR, props=PROPS, inline=True, alias={0: "this"}, note="self-assignment",
             requires=lambda c: [("well-formed", wf(c.this))], modifies=(), ensures=lambda c: [("nothing changes", same(c.this, c.this0))]),
    C("getSize", ensures=lambda c: [("the capacity", c.ret == c.this.size)]),
    C("add", "int &(const int &)", requires=pre(), ensures=add_ens, modifies=("this.buf", "this.currentpos", "this.lastpos")),
    C("next", requires=pre(), ensures=next_ens, modifies=("this.currentpos",)),
    C("peek", requires=pre(), ensures=peek_ens),
    C("last", requires=pre(), ensures=lambda c: [("the newest element", imp(gh(c)[1] > 0, c.ret == sel(gh(c)[0], gh(c)[1] - 1)))]),
    C("getPos", requires=pre(), ensures=lambda c: [("stands for the current position", means(c.this, gh(c)[1], c.ret, gh(c)[2]))]),
    C("setPos", requires=pre(lambda c: [("a saved position", means(c.this, gh(c)[1], c.arg(0), m_of(c)))]),
      ensures=lambda c: inv(c.this, gh(c)[0], gh(c)[1], m_of(c)), modifies=("this.currentpos",)),
    C("diffPrevPos", requires=pre(lambda c: [("a saved earlier position", z3.And(means(c.this, gh(c)[1], c.arg(0), m_of(c)), m_of(c) <= gh(c)[2]))]), ensures=diff_ens(1)),
    C("diffPostPos", requires=pre(lambda c: [("a saved later position", z3.And(means(c.this, gh(c)[1], c.arg(0), m_of(c)), m_of(c) >= gh(c)[2]))]), ensures=diff_ens(-1)),
    C("isEmpty", requires=pre(), ensures=lambda c: [("nothing left to read", c.ret == (gh(c)[1] == gh(c)[2]))]),
    C("back", requires=pre(lambda c: [("within what was added and is still stored", z3.And(c.arg(0) <= gh(c)[2], gh(c)[1] - (gh(c)[2] - c.arg(0)) < c.this.size))]),
      ensures=lambda c: inv(c.this, gh(c)[0], gh(c)[1], gh(c)[2] - c.arg0(0)), modifies=("this.currentpos",)),
]
