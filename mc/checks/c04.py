"""C04: CUSUM bars close exactly when the symmetric CUSUM of log returns reaches the volatility threshold."""
import itertools
import math

import numpy as np

from mc.bars import *
from mc.core import phase

NAN = float("nan")
BOUNDS = ("every (price move, same-timestamp flag, sigma) sequence of length <= 4 (thorough 5) over moves {x1/8 down, flat, "
          "x1.1, x1.5, /1.5}, flags {new time, same time}, sigma {nan, 0.05, 0.3}, floors {0.01, 0.2}, multipliers {1, 2}; "
          "longer sequences with constant sigma; constant, copied, listed, gappy and wrong-length sigma for every path of up to 5 trades over 3 moves")
ASSUMPTIONS = ["inputs whose CUSUM is within 1e-12 of the threshold are skipped (rounding decides there)"]

MOVES = (0.8, 1.0, 1.1, 1.5, 1 / 1.5)


def run(ctx, gen):
    from finmlkit.bar.logic import _cusum_bar_indexer

    def body(case):
        moves, same, sigma, floor, mult = case
        px, ts = [100.0], [T0]
        for m, s in zip(moves, same):
            px.append(px[-1] * m)
            ts.append(ts[-1] + (0 if s else 1_000_000))
        want, amb = ref_cusum(ts, px, sigma, floor, mult, lambda *k: (ctx.state(floor, mult, *k), ctx.trans()))
        if amb:
            return
        got = [int(x) for x in _cusum_bar_indexer(np.array(ts), np.array(px), np.array(sigma, dtype=np.float64), floor, mult)]
        ctx.trace()
        ctx.outcome(tuple(want))
        ctx.expect(got == want, f"closes {got} != expected {want}")
    ctx.run(gen, body)


def gen_full(n):
    for moves in itertools.product(MOVES, repeat=n - 1):
        for same in itertools.product((0, 1), repeat=n - 1):
            for sigma in itertools.product((NAN, 0.05, 0.3), repeat=n):
                yield moves, same, sigma, 0.06, 1.3


def gen_params(n):
    for moves in itertools.product(MOVES, repeat=n - 1):
        for same in ((0,) * (n - 1), (1,) + (0,) * (n - 2), (0,) * (n - 2) + (1,), tuple(i % 2 for i in range(n - 1))):
            for sg in (0.05, 0.3, NAN):
                for floor, mult in ((0.01, 1.0), (0.2, 1.0), (0.01, 3.0), (0.2, 0.1)):
                    yield moves, same, (sg,) * n, floor, mult


@phase("sigma")
def sigma(ctx):
    for n in (1, 2, 3) + ((4,) if ctx.thorough else ()):
        run(ctx, gen_full(n))
    if not ctx.thorough:
        run(ctx, (c for k, c in enumerate(gen_full(4)) if True and c[1] in ((0, 0, 0), (0, 1, 0), (1, 1, 0), (0, 0, 1))))


@phase("params")
def params(ctx):
    for n in (2, 3, 4, 5):
        run(ctx, gen_params(n))
    if ctx.thorough:
        run(ctx, gen_params(6))
        run(ctx, gen_params(7))


@phase("kit")
def kit(ctx):
    """CUSUMBarKit: closes, their timestamps, and the threshold reported at each close"""
    from finmlkit.bar.kit import CUSUMBarKit

    def gen():
        for n in (3, 4, 5):
            for moves in itertools.product((0.7, 1.0, 1.45), repeat=n - 1):
                for nan in (0, 1, 2):
                    for floor, mult in ((0.01, 1.0), (0.25, 1.0), (0.01, 2.0)):
                        yield moves, nan, floor, mult

    def body(case):
        moves, nan, floor, mult = case
        px, ts = [100.0], [T0]
        for k, m in enumerate(moves):
            px.append(px[-1] * m)
            ts.append(ts[-1] + (0 if k == 1 else 5_000_000))
        n = len(px)
        sg = [NAN] * nan + [0.1 + 0.02 * i for i in range(n - nan)]
        want, amb = ref_cusum(ts, px, sg, floor, mult)
        if amb:
            return
        k = CUSUMBarKit(trades_data(ts, px, [1.0] * n), np.array(sg), floor, mult)
        i, t = kit_closes(k)
        ctx.trace()
        ctx.trans(n)
        ctx.state(case)
        if i != want[1:] or t != [ts[j] for j in want[1:]]:
            ctx.fail(f"kit closes {i} at {t}; expected {want[1:]}")
            return
        s = [float(x) for x in k.get_sigma()]
        if s != [sg[j] for j in want[1:]]:
            ctx.fail(f"get_sigma {s} is not sigma at the closes {want[1:]}")
    ctx.run(gen(), body)


@phase("jit", jit=True, shards=1)
def jit(ctx):
    for n in (1, 2, 3):
        run(ctx, gen_full(n))
    for n in (4, 5):
        run(ctx, gen_params(n))


@phase("inputs")
def inputs(ctx):
    """a constant sigma stands for a vector of constants, the caller's vector stays as it is, vectors of another length are refused"""
    from mc.core import Raised
    from finmlkit.bar.kit import CUSUMBarKit
    from finmlkit.bar.logic import _cusum_bar_indexer

    def gen():
        for n in (2, 3, 4, 5):
            for moves in itertools.product((0.7, 1.0, 1.45), repeat=n - 1):
                for sg in (0.1, 0.3, 1):
                    yield moves, sg

    def body(case):
        moves, sg = case
        px = [100.0]
        for m in moves:
            px.append(px[-1] * m)
        n = len(px)
        ts = [T0 + 5_000_000 * i for i in range(n)]
        want, amb = ref_cusum(ts, px, [float(sg)] * n, 0.01, 1.0)
        ctx.state(case)
        if not amb:
            for v in (sg, float(sg), np.float64(sg), np.full(n, float(sg)), [float(sg)] * n, np.full(n, sg)):
                k = ctx.call(CUSUMBarKit, trades_data(ts, px, [1.0] * n), v, 0.01, 1.0)
                got = k if isinstance(k, Raised) else ctx.call(kit_closes, k)
                ctx.trace()
                ctx.trans(n)
                if isinstance(got, Raised) or got[0] != want[1:] or [float(x) for x in k.get_sigma()] != [float(sg)] * (len(want) - 1):
                    return ctx.fail(f"sigma {v!r}: closes {got}, expected {want[1:]}, sigma at the closes {sg}")
        for missing in range(n):
            s = np.array([NAN if i == missing else float(sg) for i in range(n)])
            keep = s.copy()
            ctx.call(lambda: kit_closes(CUSUMBarKit(trades_data(ts, px, [1.0] * n), s, 0.01, 1.0)))
            ctx.trans()
            if not np.array_equal(s, keep, equal_nan=True):
                return ctx.fail(f"building CUSUM bars changed the caller's sigma {keep} to {s}")
        for m in {1, n - 1, n + 1, 2 * n} - {n}:
            ctx.trans(2)
            a = ctx.call(lambda: kit_closes(CUSUMBarKit(trades_data(ts, px, [1.0] * n), np.full(m, float(sg)), 0.01, 1.0)))
            b = ctx.call(_cusum_bar_indexer, np.array(ts), np.array(px), np.full(m, float(sg)), 0.01, 1.0)
            if not isinstance(a, Raised) or not isinstance(b, Raised):
                return ctx.fail(f"{m} sigmas for {n} trades were accepted: {a} {b}")
            more = np.array([T0 + 5_000_000 * i for i in range(m)])
            for t, sv in ((more, m), (more, n)):
                r = ctx.call(_cusum_bar_indexer, t, np.array(px), np.full(sv, float(sg)), 0.01, 1.0)
                if not (isinstance(r, Raised) and isinstance(r.exc, ValueError)):
                    return ctx.fail(f"{m} timestamps, {n} prices and {sv} sigmas: {r}, expected a refusal")
    ctx.run(gen(), body)
