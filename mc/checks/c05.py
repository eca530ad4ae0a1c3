"""C05: directional bar features split every bar's flow exactly by aggressor side."""
import itertools

import numpy as np
import pandas as pd

from mc.bars import *
from mc.core import phase

BOUNDS = ("all (price, size, side) trade sequences of length <= 3 over 3 prices x 2 sizes x sides {-1,0,1}, length 4 over 2 "
          "prices, crossed with every close-index vector (<= 4 entries, empty bars, leading -1); kit frames; magnitudes "
          "1e-6..1e11; bars of every length <= 140; compiled parallel kernel over all length-3 segments")
ASSUMPTIONS = ["flows are compared to float32 precision (the declared output type)"]

PX, QT, SD = (2.0, 3.0, 5.0), (0.5, 2.0), (-1, 0, 1)


def compare(ctx, got, want, what):
    d = compare_rows(DIRECTIONAL, got, want, rel=2e-6)
    if d:
        ctx.fail(f"{what}: {d}")
    return d


@phase("kernel")
def kernel(ctx):
    from finmlkit.bar.base import comp_bar_directional_features as f

    def gen():
        for n in (1, 2, 3):
            for px in itertools.product(PX, repeat=n):
                for qt in itertools.product(QT, repeat=n):
                    for sd in itertools.product(SD, repeat=n):
                        yield px, qt, sd
        for px in itertools.product(PX[::2], repeat=4):
            for qt in (itertools.product(QT, repeat=4) if ctx.thorough else ((0.5, 2.0, 1.0, 4.0), (4.0, 4.0, 0.5, 2.0))):
                for sd in itertools.product(SD, repeat=4):
                    yield px, qt, sd

    def body(case):
        px, qt, sd = case
        P, Q, S = np.array(px), np.array(qt), np.array(sd, dtype=np.int8)
        for closes in partitions(len(px), 4 if len(px) < 4 else 3):
            want = ref_directional(px, qt, sd, closes, lambda *s: (ctx.state(*s), ctx.trans()))
            got = ctx.call(f, P, Q, np.array(closes), S)
            ctx.trace()
            ctx.outcome(tuple(want))
            if not isinstance(got, tuple):
                ctx.fail(f"closes={closes}: {got}")
                return
            if compare(ctx, got, want, f"closes={closes}"):
                return
    ctx.run(gen(), body)


@phase("kits")
def kits(ctx):
    """build_directional_features(): the frame agrees with the bar's trades and with build_ohlcv() totals"""
    from finmlkit.bar.kit import TimeBarKit, TickBarKit

    def gen():
        for n in (2, 3, 4):
            for gaps in itertools.product((0, 1, 3), repeat=n - 1):
                for off in (0, 400_000_000):
                    for sd in itertools.product((-1, 1), repeat=n):
                        for rot in (0, 1):
                            yield gaps, off, sd, rot

    def body(case):
        gaps, off, sd, rot = case
        ts = [T0 + off]
        for g in gaps:
            ts.append(ts[-1] + g * NS)
        n = len(ts)
        px = [(2.0, 5.0, 3.0)[(i + rot) % 3] for i in range(n)]
        qt = [(0.5, 2.0, 1.0)[(i * 2 + rot) % 3] for i in range(n)]
        td = trades_data(ts, px, qt, sd)
        for name, kit, first in (("time", TimeBarKit(td, pd.Timedelta(seconds=1)), sum(t == T0 for t in ts) - 1), ("tick", TickBarKit(td, 2), 0)):
            closes, lab = kit_closes(kit)
            if not closes:
                continue
            closes = [first] + closes
            df = kit.build_directional_features()
            ctx.trace()
            ctx.trans(n)
            ctx.state(name, case)
            if list(df.columns) != DIRECTIONAL and sorted(df.columns) != sorted(DIRECTIONAL):
                ctx.fail(f"columns {list(df.columns)}")
                return
            if list(df.index.astype("int64")) != lab:
                ctx.fail(f"{name}: index {list(df.index)}")
            compare(ctx, [df[c].to_numpy() for c in DIRECTIONAL], ref_directional(px, qt, sd, closes), name)
            o = kit.build_ohlcv()
            if not np.allclose(o["volume"], df["volume_buy"] + df["volume_sell"]) or \
                    not (o["trades"] == df["ticks_buy"] + df["ticks_sell"]).all():
                ctx.fail(f"{name}: buy + sell differs from the OHLCV totals")
    ctx.run(gen(), body)


@phase("jit", jit=True, shards=1)
def jit(ctx):
    from finmlkit.bar.base import comp_bar_directional_features as f
    segs = [(p, q, s) for p in itertools.product((2.0, 5.0, 3.0), repeat=3) for q in ((0.5, 2.0, 1.0), (2.0, 0.5, 0.5))
            for s in itertools.product((-1, 0, 1), repeat=3)]
    px = [v for s in segs for v in s[0]]
    qt = [v for s in segs for v in s[1]]
    sd = [v for s in segs for v in s[2]]

    def body(case):
        shape, dt = case
        closes = [-1]
        for k in range(len(segs)):
            closes += [3 * k + c for c in shape]
        got = f(np.array(px), np.array(qt, dtype=dt), np.array(closes), np.array(sd, dtype=np.int8))
        want = ref_directional(px, qt, sd, closes, lambda *s: (ctx.state(*s), ctx.trans()))
        ctx.trace(len(want))
        compare(ctx, got, want, f"compiled {shape} {dt}")
    ctx.run([(s, d) for s in ((2, 2), (0, 2), (1, 1, 2), (0, 1, 2)) for d in ("f8", "f4")], body)

    def body2(case):
        sp, sq, sd2 = case
        P, Q = [p * sp for p in (2.0, 3.0, 5.0, 2.0)], [q * sq for q in (0.5, 2.0, 1.0, 0.25)]
        for closes in ([-1, 1, 1, 3], [-1, 3], [0, 0, 3], [-1, 0, 1, 2, 3]):
            got = f(np.array(P), np.array(Q), np.array(closes), np.array(sd2, dtype=np.int8))
            ctx.trace()
            compare(ctx, got, ref_directional(P, Q, sd2, closes), f"{closes}")
    ctx.run(list(itertools.product((1e-4, 1.0, 1e5), (1e-6, 1.0, 1e6, 1e10),
                                   itertools.product((-1, 1), repeat=4))), body2)

    def body3(case):
        L, pat = case
        m = 2 * L + 3
        P = [(2.0, 3.0, 5.0)[(i * (pat + 1) + i // 3) % 3] + 0.25 * ((i * 7 + pat) % 11) for i in range(m)]
        Q = [0.5 * ((i * 5 + pat) % 13) for i in range(m)]
        S = [1 if (i * i + pat * i) % 7 < 3 + pat % 2 else -1 for i in range(m)]
        closes = [-1, 0, L, L, 2 * L, m - 1]
        got = f(np.array(P), np.array(Q), np.array(closes), np.array(S, dtype=np.int8))
        ctx.trace()
        compare(ctx, got, ref_directional(P, Q, S, closes), f"length {L}")
    ctx.run(list(itertools.product(list(range(1, 140)) + [255, 256, 257, 1000, 1025], range(3))), body3)
