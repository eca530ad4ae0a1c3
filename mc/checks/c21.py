"""C21: the CUSUM filter reports exactly the points at which the symmetric CUSUM exceeds its threshold."""
import itertools
import math

import numpy as np

from mc.core import phase, Raised

BOUNDS = ("every price path of <= 6 log moves (thorough 7) over 5 moves x 6 constant thresholds; every path of 5 moves over 4 x every threshold vector over "
          "{small, medium, large} and over {0, medium} (and NaN warm-ups); exact threshold ties on every path of <= 6 steps over {x1/2, x1, x2}; runs of up to 400 points; "
          "all inconsistent threshold lengths up to 6; compiled parallel code on every path of 4 moves")
ASSUMPTIONS = ["prices are positive; an excess is strict; the negative side is examined first"]
MOVES = (-0.031137, -0.011773, 0.0, 0.0203711, 0.0409193)


def oracle(rets, thr, on_state=None):
    """one return at a time: at most one side can exceed after one move, since the other one just shrank"""
    up = dn = 0.0
    out = []
    for i, (r, h) in enumerate(zip(rets, thr), start=1):
        up, dn = max(0.0, up + r), min(0.0, dn + r)
        fired = 0
        if -dn > h:
            dn, fired = 0.0, -1
        elif up > h:
            up, fired = 0.0, 1
        if fired:
            out.append(i)
        if on_state:
            on_state((round(up, 9), round(dn, 9), h if h == h else -1.0, fired))
    return out


def compare(ctx, px, rets, thr):
    """thr: list of length 1 or len(px)"""
    from finmlkit.sampling.filters import cusum_filter
    a, b = np.array(px), np.array(thr)
    r = ctx.call(cusum_filter, a, b)
    full = [thr[0]] * len(px) if len(thr) == 1 else thr
    exp = oracle(rets, full[1:], lambda s: (ctx.state(s), ctx.trans()))
    ctx.trace()
    ctx.outcome(tuple(exp))
    if isinstance(r, Raised) or r.dtype != np.int64 or r.tolist() != exp:
        ctx.fail(f"log returns {rets}, thresholds {thr}: events {r!r}, expected {exp}")
    elif a.tolist() != list(px) or not np.array_equal(b, np.array(thr), equal_nan=True):
        ctx.fail("an input array was modified")


def path(moves, start=100.0):
    px, x = [start], 0.0
    for m in moves:
        x += m
        px.append(start * math.exp(x))
    return px


def gen_const(n):
    for k in range(1, n + 1):
        for mv in itertools.product(MOVES, repeat=k):
            yield mv


@phase("constant")
def constant(ctx):
    def body(mv):
        for t in (0.005, 0.0155, 0.0251, 0.0455, 0.0801, 10.0):
            compare(ctx, path(mv), mv, [t])
    ctx.run(gen_const(7 if ctx.thorough else 6), body)


@phase("vector")
def vector(ctx):
    """a threshold per point: the one at the point itself counts"""
    nan = float("nan")

    def gen():
        for mv in itertools.product((-0.031137, -0.011773, 0.0203711, 0.0409193), repeat=5 if ctx.thorough else 4):
            yield mv

    def body(mv):
        n = len(mv)
        for th in itertools.product((0.0101, 0.0305, 0.0605), repeat=n):
            compare(ctx, path(mv), mv, [5e-4] + list(th))
        for th in itertools.product((0.0, 0.0305), repeat=n):
            compare(ctx, path(mv), mv, [0.0] + list(th))
        for w in range(1, n + 1):
            compare(ctx, path(mv), mv, [nan] * w + [0.0251] * (n + 1 - w))
    ctx.run(gen(), body)


@phase("ties")
def ties(ctx):
    """a sum exactly at the threshold is no event"""
    l2 = math.log(2.0)

    def gen():
        for k in range(1, 8 if ctx.thorough else 7):
            yield from itertools.product((0.5, 1.0, 2.0), repeat=k)

    def body(f):
        px = [1.0]
        for x in f:
            px.append(px[-1] * x)
        rets = [{0.5: -l2, 1.0: 0.0, 2.0: l2}[x] for x in f]
        for t in (0.0, l2, l2 + l2, l2 + l2 + l2):
            compare(ctx, px, rets, [t])
    ctx.run(gen(), body)


@phase("long")
def long(ctx):
    """periodic paths of several hundred points: sums carry over arbitrarily long stretches"""
    def gen():
        for k in (2, 3, 4):
            for mv in itertools.product(MOVES[:2] + MOVES[3:], repeat=k):
                for n in (37, 400):
                    yield mv, n

    def body(case):
        mv, n = case
        m = [mv[i % len(mv)] for i in range(n)]
        for t in (0.0251, 0.1003, 0.3507):
            compare(ctx, path(m), m, [t])
    ctx.run(gen(), body)


@phase("errors")
def errors(ctx):
    from finmlkit.sampling.filters import cusum_filter

    def body(case):
        n, m = case
        r = ctx.call(cusum_filter, np.full(n, 100.0), np.full(m, 0.1))
        bad = n <= 1 or m not in (1, n)
        ctx.trace()
        ctx.trans()
        ctx.state(n, m)
        if bad != (isinstance(r, Raised) and isinstance(r.exc, ValueError)) or (not bad and len(r)):
            ctx.fail(f"{n} prices, {m} thresholds: {r!r}")
    ctx.run([(n, m) for n in range(7) for m in range(7)], body)


@phase("jit", jit=True, shards=2, threads=4)
def jit(ctx):
    def body(mv):
        for t in (0.0155, 0.0251, 0.0455):
            compare(ctx, path(mv), mv, [t])
        compare(ctx, path(mv), mv, [5e-4] + [(0.0155, 0.0455)[i % 2] for i in range(len(mv))])
    ctx.run(gen_const(5 if ctx.thorough else 4), body)
    long(ctx)
