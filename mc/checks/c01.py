"""C01: OHLCV bars summarise exactly their own trades."""
import itertools

import numpy as np
import pandas as pd

from mc.bars import *
from fractions import Fraction

from mc.core import close, phase, seqs

BOUNDS = ("all trade sequences of length <= 4 (thorough 5) over prices x sizes, crossed with every non-decreasing "
          "close-index vector of up to 4 entries (empty bars, one-trade bars, leading -1); the four bar kits on every sequence; "
          "same space compiled (JIT, parallel) on one long concatenation per partition shape; "
          "prices and sizes of 1e-8 .. 1e9 mixed within one bar, averages to double precision")
ASSUMPTIONS = ["prices/sizes are dyadic, so the sums of the reference are exact; volume is compared to float32 precision",
               "other values outside the alphabet behave like those inside (the code only compares, adds and multiplies them)"]

PX = (2.0, 3.0, 5.0)
QT = (0.0, 0.5, 2.0)


def cases(ctx):
    N = 5 if ctx.thorough else 4
    for n in range(1, N + 1):
        px_al = PX if n < 5 else PX[:2] + (5.0,)
        qt_al = QT if n < 4 else QT[:2] if n == 4 else (0.0, 0.5)
        for px in itertools.product(px_al, repeat=n):
            for qt in itertools.product(qt_al, repeat=n):
                yield px, qt


@phase("kernel")
def kernel(ctx):
    from finmlkit.bar.base import comp_bar_ohlcv

    def body(case):
        px, qt = case
        P, Q = np.array(px), np.array(qt)
        for closes in partitions(len(px), 4):
            want = ref_ohlcv(px, qt, closes, lambda *s: (ctx.state(*s), ctx.trans()))
            got = comp_bar_ohlcv(P, Q, np.array(closes, dtype=np.int64))
            ctx.trace()
            got = [got[0], got[1], got[2], got[3], got[4], got[5], got[6], got[7]]
            d = compare_rows(OHLCV, got, want, rel=1e-6)
            if d:
                ctx.fail(f"closes={closes}: {d}")
            ctx.outcome(tuple(want))
    ctx.run(cases(ctx), body)


@phase("kits")
def kits(ctx):
    """build_ohlcv() of every bar kit: rows, labels, index, and conservation over the covered trades"""
    from finmlkit.bar.kit import TimeBarKit, TickBarKit, VolumeBarKit, DollarBarKit, CUSUMBarKit

    def gen():
        for n in (2, 3, 4) + ((5,) if ctx.thorough else ()):
            for gaps in itertools.product((0, 1, 3), repeat=n - 1):
                ts = [T0 + NS // 2]
                for g in gaps:
                    ts.append(ts[-1] + g * NS)
                for px in itertools.product((2.0, 5.0), repeat=n):
                    for q0 in ((1.0,) * n, tuple(0.5 * (1 + i % 2) for i in range(n))):
                        yield tuple(ts), px, q0

    def body(case):
        ts, px, qt = case
        td = trades_data(ts, px, qt)
        n = len(ts)
        for name, mk in (("time", lambda: TimeBarKit(td, pd.Timedelta(seconds=1))),
                         ("tick", lambda: TickBarKit(td, 2)),
                         ("volume", lambda: VolumeBarKit(td, 1.0)),
                         ("dollar", lambda: DollarBarKit(td, 4.0)),
                         ("cusum", lambda: CUSUMBarKit(td, np.full(n, 0.1), 0.01, 2.0))):
            kit = mk()
            closes_t, close_ts = kit_closes(kit)
            if not closes_t:
                continue
            first = -1 if name == "time" else 0       # (no trade sits on the first grid point here)
            closes = [first] + closes_t
            df = kit.build_ohlcv()
            ctx.trace()
            ctx.trans(n)
            want = ref_ohlcv(px, qt, closes)
            d = compare_rows(OHLCV, [df[c].to_numpy() for c in OHLCV], want, rel=1e-6)
            if d:
                ctx.fail(f"{name} kit: {d}")
            if list(df.index.astype("int64")) != close_ts or df.index.name != "timestamp":
                ctx.fail(f"{name} kit: index {list(df.index)} is not the bar close timestamps {close_ts}")
            if sorted(df.columns) != sorted(OHLCV):
                ctx.fail(f"{name} kit: columns {list(df.columns)}")
            if any(closes[i] < closes[i + 1] and close_ts[i] < ts[closes[i + 1]] for i in range(len(close_ts))):
                ctx.fail(f"{name} kit: bar labelled before its last trade")
            ctx.state(name, tuple(closes), px, qt)
            if name == "time":
                # conservation: all trades after the first grid point, wherever the grid ends
                if int(df["trades"].sum()) != n - (first + 1):
                    ctx.fail(f"time kit: {int(df['trades'].sum())} trades in bars, {n - first - 1} expected")
    ctx.run(gen(), body)


@phase("jit", jit=True, shards=1)
def jit(ctx):
    """compiled, parallel: every length-3 sequence as consecutive segments of one long tape, all partitions per segment"""
    from finmlkit.bar.base import comp_bar_ohlcv
    segs = [(p, q) for p in itertools.product(PX, repeat=3) for q in itertools.product(QT, repeat=3)]
    shapes = [(-1, 2, 2), (-1, 0, 2), (-1, 1, 1, 2), (-1, 0, 1, 2)]
    px = [p for s in segs for p in s[0]]
    qt = [q for s in segs for q in s[1]]

    def body(shape):
        for dt in (np.float64, np.float32):
            closes = [0]
            closes[0] = -1
            for k in range(len(segs)):
                closes += [3 * k + c for c in shape[1:]]
            got = comp_bar_ohlcv(np.array(px), np.array(qt, dtype=dt), np.array(closes, dtype=np.int64))
            want = ref_ohlcv(px, qt, closes, lambda *s: (ctx.state(*s), ctx.trans()))
            ctx.trace(len(want))
            d = compare_rows(OHLCV, list(got), want, rel=1e-6)
            if d:
                ctx.fail(f"compiled {dt.__name__} shape {shape}: {d}")
    ctx.run(shapes, body)
    # volumes far from 1: single-precision tolerance, order of magnitude preserved
    def body2(case):
        sc, sp = case
        P = np.array([2.0, 3.0, 5.0, 2.0]) * sp
        Q = np.array([0.5, 2.0, 1.0, 0.25]) * sc
        got = comp_bar_ohlcv(P, Q, np.array([-1, 1, 1, 3]))
        d = compare_rows(OHLCV, list(got), ref_ohlcv(P, Q, [-1, 1, 1, 3]), rel=1e-6)
        ctx.trace()
        ctx.expect(d is None, f"scale {case}: {d}")
    ctx.run(list(itertools.product((1e-8, 1e-3, 1.0, 1e6, 1e12), (1e-8, 1.0, 1e6))), body2)

    def body3(case):
        """one bar of every length up to the bound, so that nothing depends on how long a bar is"""
        L, pat = case
        m = 2 * L + 3
        P = np.array([PX[(i * (pat + 1) + i // 3) % 3] + 0.25 * ((i * 7 + pat) % 11) for i in range(m)])
        Q = np.array([0.5 * ((i * 5 + pat) % 13) for i in range(m)])
        closes = [-1, 0, L, L, 2 * L, m - 1]
        got = comp_bar_ohlcv(P, Q, np.array(closes))
        d = compare_rows(OHLCV, list(got), ref_ohlcv(list(P), list(Q), closes), rel=1e-6)
        ctx.trace()
        ctx.expect(d is None, f"length {L}: {d}")
    ctx.run(list(itertools.product(list(range(1, 140)) + [255, 256, 257, 1000, 1025, 4097], range(3))), body3)


@phase("precision")
def precision(ctx):
    """sizes and prices of very different magnitude in one bar: exact rational sums, averages good to double precision"""
    from finmlkit.bar.base import comp_bar_ohlcv
    QTS, PXS = (0.1, 16777217.0, 3e-8, 0.7), (30123.45, 1.3e-7, 0.1)

    def gen():
        for n in (1, 2, 3, 4):
            for qt in itertools.product(QTS, repeat=n):
                for px in itertools.product(PXS, repeat=n) if n < 4 else (PXS + PXS[:1], PXS[::-1] + PXS[:1], PXS[1:] * 2):
                    yield px, qt

    def body(case):
        px, qt = case
        n = len(px)
        closes = [-1, n - 1] if n < 3 else [-1, 0, n - 1]
        got = [g.tolist() for g in comp_bar_ohlcv(np.array(px), np.array(qt), np.array(closes))]
        ctx.trace()
        ctx.trans(n)
        ctx.state(case)
        for k, m in enumerate(members(closes)):
            vol = sum(Fraction(qt[j]) for j in m)
            want = (px[m[0]], max(px[j] for j in m), min(px[j] for j in m), px[m[-1]], float(vol), float(sum(Fraction(px[j]) * Fraction(qt[j]) for j in m) / vol),
                    len(m), sorted(qt[j] for j in m))
            s = want[7]
            want = want[:7] + ((s[(len(s) - 1) // 2] + s[len(s) // 2]) / 2,)
            for c, (nm, w) in enumerate(zip(OHLCV, want)):
                if not close(got[c][k], w, 2e-7 if nm == "volume" else 1e-13, 0.0):
                    ctx.fail(f"bar {m} of prices {px}, sizes {qt}: {nm} is {got[c][k]!r}, exactly {w!r}")
                    return
    ctx.run(gen(), body)
