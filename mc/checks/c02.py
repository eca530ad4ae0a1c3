"""C02: time bars lie on the fixed interval grid and every trade falls in the one bar whose interval contains it."""
import itertools

import numpy as np
import pandas as pd

from mc.bars import *
from mc.core import phase, Raised

BOUNDS = ("every trade-time vector of length <= 5 (thorough 6) whose first offset is in {0, 1us, half, end-1us} of an "
          "interval and whose gaps are in {0, 1us, half, 1 interval-1us, 1 interval, 2.5 intervals}, for intervals "
          "0.1s, 1s, 60s, 7s, 1h, 1d at present-day epoch timestamps and near zero; nanosecond offsets around the grid and "
          "intervals of 0.1 to 50 ms at present-day epochs")
ASSUMPTIONS = ["one extra trailing empty bar is tolerated: the code emits it for small timestamps only and its tests "
               "pin it there"]


def check(ctx, ts, interval, clock, idx, what):
    I = round(interval * NS)
    grid, want = ref_time(ts, I)
    clock, idx = [int(x) for x in clock], [int(x) for x in idx]
    if len(clock) == len(grid) + 1:                 # tolerated trailing empty bar
        grid.append(grid[-1] + I)
        want.append(len(ts) - 1)
    for k in range(len(grid)):
        ctx.state(I, tuple(t - grid[0] for t in ts[:want[k] + 1]), k)
    ctx.trans(len(grid))
    ctx.trace()
    ctx.outcome(tuple(want))
    if clock != grid:
        return f"{what}: grid {clock} != expected {grid}"
    if idx != want:
        return f"{what}: close indices {idx} != expected {want}"
    return None


def times(n, I, base):
    for off in (0, 1000, I // 2, I - 1000):
        for gaps in itertools.product((0, 1000, I // 2, I - 1000, I, 5 * I // 2), repeat=n - 1):
            t = [base + off]
            for g in gaps:
                t.append(t[-1] + g)
            yield tuple(t)


def gen(ctx, sizes, intervals):
    for iv in intervals:
        I = round(iv * NS)
        for base in (T0 // I * I, 40 * I, 0):
            for n in sizes:
                for ts in times(n, I, base):
                    yield ts, iv


@phase("indexer")
def indexer(ctx):
    from finmlkit.bar.logic import _time_bar_indexer

    def body(case):
        ts, iv = case
        d = check(ctx, ts, iv, *_time_bar_indexer(np.array(ts, dtype=np.int64), iv), "indexer")
        ctx.expect(d is None, d)
    ctx.run(gen(ctx, (1, 2, 3, 4), (0.1, 1.0, 60.0, 7.0, 3600.0, 86400.0)), body)
    if ctx.thorough:
        ctx.run(gen(ctx, (5, 6), (0.1, 60.0)), body)
    else:
        ctx.run(gen(ctx, (5,), (1.0,)), body)


@phase("kit")
def kit(ctx):
    """TimeBarKit end to end: trades of bar k are exactly those in (label-interval, label]"""
    from finmlkit.bar.kit import TimeBarKit

    def body(case):
        ts, iv = case
        I = round(iv * NS)
        n = len(ts)
        px = [float(2 + i) for i in range(n)]
        qt = [float(1 << i) for i in range(n)]
        if ts[-1] == ts[0] // I * I:
            return                      # every trade sits on the first grid point: there is no bar to build
        k = TimeBarKit(trades_data(ts, px, qt), pd.Timedelta(I, unit="ns"))
        df = k.build_ohlcv()
        lab = list(df.index.astype("int64"))
        ctx.trace()
        ctx.trans(len(lab))
        ctx.state(tuple(t - lab[0] for t in lab) if lab else (), tuple(t % I for t in ts))
        first = ts[0] // I * I
        end = -(-ts[-1] // I) * I
        want = list(range(first + I, end + 1, I))
        if lab[:len(want)] != want or len(lab) > len(want) + 1:
            ctx.fail(f"labels {lab} != expected {want}")
            return
        prev = None
        for g, row in zip(lab, df.itertuples()):
            mine = [i for i in range(n) if g - I < ts[i] <= g]
            if row.trades != len(mine) or row.volume != sum(qt[i] for i in mine):
                ctx.fail(f"bar ending {g}: {row.trades} trades, volume {row.volume}; interval holds trades {mine}")
            if mine and (row.open, row.close) != (px[mine[0]], px[mine[-1]]):
                ctx.fail(f"bar ending {g}: open/close {row.open}/{row.close} are not trades {mine}")
            if not mine and prev is not None and not row.open == row.high == row.low == row.close == prev:
                ctx.fail(f"empty bar ending {g} does not repeat the previous close {prev}")
            prev = row.close
        if df.index.freq is None or pd.Timedelta(df.index.freq) != pd.Timedelta(I, unit="ns"):
            ctx.fail(f"the index of {iv} s bars has the frequency {df.index.freq}")
    ctx.run(gen(ctx, (1, 2, 3) + ((4,) if ctx.thorough else ()), (1.0, 60.0, 3600.0)), body)
    ctx.run(gen(ctx, (1, 2), (0.001, 0.25, 1.5, 90.5, 86400.0, 90000.0, 129600.0, 604800.0, 90061.000001, 1.001, 4.1, 0.134205, 0.000065)), body)


@phase("precision")
def precision(ctx):
    precisely(ctx)


@phase("precision-jit", jit=True, shards=1)
def precision_jit(ctx):
    precisely(ctx)


def precisely(ctx):
    """nanosecond-resolution trades and intervals below 100 ms at present-day epochs, where float64 is too coarse"""
    from finmlkit.bar.logic import _time_bar_indexer

    def body(case):
        ts, iv = case
        d = check(ctx, ts, iv, *_time_bar_indexer(np.array(ts, dtype=np.int64), iv), "indexer")
        ctx.expect(d is None, d)

    def gen2():
        for iv in (1.0, 60.0):
            I = round(iv * NS)
            for o1, o2 in itertools.product((1, 127, 128, 129, I - 129, I - 128, I - 127, I - 1), repeat=2):
                for m in (0, 1, 2):
                    if o1 <= o2 + m * I:
                        yield (T0 + o1, T0 + m * I + o2), iv
        for iv in (0.05, 0.01, 0.001, 0.0001, 0.003, 0.007):
            I = round(iv * NS)
            base = T0 // I * I
            for o, g, m in itertools.product((0, 1, 1000, I // 2, I - 1), (0, 1, I // 2, I - 1, I, 3 * I, 10 * I), (0, 1, I, 1000 * I)):
                yield (base + o, base + o + g, base + o + g + m), iv
    ctx.run(gen2(), body)


@phase("jit", jit=True, shards=1)
def jit(ctx):
    from finmlkit.bar.logic import _time_bar_indexer

    def body(case):
        ts, iv = case
        d = check(ctx, ts, iv, *_time_bar_indexer(np.array(ts, dtype=np.int64), iv), "compiled indexer")
        ctx.expect(d is None, d)
    ctx.run(gen(ctx, (1, 2, 3, 4), (0.1, 1.0, 60.0, 7.0)), body)
