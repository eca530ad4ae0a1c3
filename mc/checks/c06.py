"""C06: trade-size features describe the size distribution of exactly the bar's own trades."""
import itertools

import numpy as np
import pandas as pd

from mc.bars import *
from mc.core import phase

BOUNDS = ("all size sequences of length <= 4 (thorough 5) over {0, 0.5, 1, 4} x every close-index vector (<= 4 entries) x "
          "typical sizes {0, 0.25, 1} varying per bar x multipliers {1, 2, 5}; kit frames; bars of every length <= 140 and "
          "the whole length-3 space compiled; sizes <= 3 in units of 2^-40, 2^-20 and 2^30")
ASSUMPTIONS = ["relative sizes are measured against the block threshold typical*multiplier, as the code and its tests do"]

NAMES = ["mean_size_rel", "size_95_rel", "pct_block", "size_gini"]
QT = (0.0, 0.5, 1.0, 4.0)


def check(ctx, f, qt, theta, closes, mult, dt=np.float64):
    got = ctx.call(f, np.array(qt, dtype=dt), np.array(theta, dtype=np.float64), np.array(closes), mult)
    ctx.trace()
    want = ref_sizes(qt, theta, closes, mult)
    ctx.outcome(repr(want))
    if not isinstance(got, tuple):
        ctx.fail(f"closes={closes} theta={theta} mult={mult}: {got}")
        return
    for m in members(closes):
        ctx.state(mult, tuple(sorted(qt[j] for j in m)))
    ctx.trans(len(qt))
    for i, nm in enumerate(NAMES):
        from mc.core import first_diff
        d = first_diff(got[i], [w[i] for w in want], rel=1e-5, ab=2e-7)
        if d:
            ctx.fail(f"closes={closes} theta={theta} mult={mult}: {nm}: {d}")
            return


@phase("kernel")
def kernel(ctx):
    from finmlkit.bar.base import comp_bar_trade_size_features as f

    def gen():
        for n in range(1, 6 if ctx.thorough else 5):
            yield from itertools.product(QT, repeat=n)

    def body(qt):
        for closes in partitions(len(qt), 4):
            m = len(closes) - 1
            for rot in range(3):
                theta = [(0.25, 0.0, 1.0)[(rot + k) % 3] for k in range(m)]
                check(ctx, f, qt, theta, closes, (1.0, 2.0, 5.0)[(rot + len(closes)) % 3])
    ctx.run(gen(), body)


@phase("kit")
def kit(ctx):
    from finmlkit.bar.kit import TimeBarKit

    def gen():
        for n in (2, 3, 4):
            for gaps in itertools.product((0, 1, 2), repeat=n - 1):
                for q in itertools.product((0.5, 1.0, 4.0), repeat=n):
                    yield gaps, q

    def body(case):
        gaps, q = case
        ts = [T0 + 1000]
        for g in gaps:
            ts.append(ts[-1] + g * NS)
        k = TimeBarKit(trades_data(ts, [2.0] * len(ts), q), pd.Timedelta(seconds=1))
        closes, lab = kit_closes(k)
        closes = [-1] + closes
        theta = [0.5 + 0.25 * (i % 2) for i in range(len(lab))]
        df = k.build_trade_size_features(np.array(theta), theta_mult=2.0)
        ctx.trace()
        ctx.trans(len(lab))
        ctx.state("kit", case)
        d = compare_rows(NAMES, [df[c].to_numpy() for c in NAMES], ref_sizes(q, theta, closes, 2.0), rel=1e-5)
        ctx.expect(d is None, d)
        ctx.expect(list(df.index.astype("int64")) == lab, f"index {list(df.index)}")
        df = k.build_trade_size_features(np.array(theta))
        d = compare_rows(NAMES, [df[c].to_numpy() for c in NAMES], ref_sizes(q, theta, closes, 5.0), rel=1e-5)
        ctx.expect(d is None, f"default multiplier: {d}")
    ctx.run(gen(), body)


@phase("jit", jit=True, shards=1)
def jit(ctx):
    from finmlkit.bar.base import comp_bar_trade_size_features as f

    def body(qt):
        for closes in ((-1, 2), (-1, 0, 0, 2), (0, 1, 2)):
            for mult in (1.0, 5.0):
                check(ctx, f, qt, [(0.25, 0.0, 1.0)[k % 3] for k in range(len(closes) - 1)], closes, mult, np.float32)
    ctx.run(itertools.product(QT, repeat=3), body)

    def body3(case):
        L, pat = case
        m = 2 * L + 3
        Q = [0.5 * ((i * 5 + pat) % 13) for i in range(m)]
        check(ctx, f, Q, [0.5, 0.75, 1.0, 1.5, 0.5], [-1, 0, L, L, 2 * L, m - 1], 2.0)
    ctx.run(list(itertools.product(list(range(1, 140)) + [255, 256, 257, 1000], range(3))), body3)


@phase("scales")
def scales(ctx):
    """relative features do not notice the unit of the sizes: no absolute threshold on sizes or volumes"""
    from finmlkit.bar.base import comp_bar_trade_size_features as f

    def gen():
        for sc in (2.0 ** -40, 2.0 ** -20, 2.0 ** 30):
            for n in (1, 2, 3):
                for qt in itertools.product(QT, repeat=n):
                    yield sc, qt

    def body(case):
        sc, qt = case
        for closes in partitions(len(qt), 3):
            theta = [(0.25, 1.0)[k % 2] * sc for k in range(len(closes) - 1)]
            check(ctx, f, [q * sc for q in qt], theta, closes, 2.0)
    ctx.run(gen(), body)
