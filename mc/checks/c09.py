"""C09: a closed bar never changes when later trades arrive (no look-ahead, history-extension stability)."""
import itertools

import numpy as np
import pandas as pd

from mc.bars import *
from mc.core import phase, first_diff

BOUNDS = ("every trade history of length <= 5 (thorough 6) over price moves x time gaps (same instant, inside the bar, past the bar) "
          "x two size/side patterns, every split point, all five bar kits and all four bar products")
ASSUMPTIONS = ["a time bar is closed once a trade later than its label exists", "splits inside a same-timestamp block are not "
               "histories: that instant is not over"]

FP = ["price_levels", "buy_volumes", "sell_volumes", "buy_ticks", "sell_ticks", "buy_imbalances", "sell_imbalances"]
FS = ["buy_imbalances_sum", "sell_imbalances_sum", "cot_price_levels", "imb_max_run_signed", "vp_skew", "vp_gini"]


def kits(ts, px, qt, sd):
    from finmlkit.bar.kit import TimeBarKit, TickBarKit, VolumeBarKit, DollarBarKit, CUSUMBarKit
    td = trades_data(ts, px, qt, sd)
    n = len(ts)
    return dict(time=TimeBarKit(td, pd.Timedelta(seconds=1)), tick=TickBarKit(td, 2), volume=VolumeBarKit(td, 2.0),
                dollar=DollarBarKit(td, 300.0), cusum=CUSUMBarKit(td, np.array([0.05 + 0.01 * i for i in range(n)]), 0.01, 1.0))


def products(kit, nb):
    """per-bar rows of every product"""
    o = kit.build_ohlcv()
    d = kit.build_directional_features()
    s = kit.build_trade_size_features(np.full(nb, 0.75), 2.0)
    f = kit.build_footprints(price_tick_size=1.0)
    rows = []
    for k in range(nb):
        rows.append((tuple(float(x) for x in o.iloc[k]), tuple(float(x) for x in d.iloc[k]), tuple(float(x) for x in s.iloc[k]),
                     tuple(tuple(float(v) for v in getattr(f, a)[k]) for a in FP) + tuple(float(getattr(f, a)[k]) for a in FS)))
    return rows


def eq(a, b):
    return all(x == y or (x != x and y != y) for x, y in zip(a[0] + a[1] + a[2], b[0] + b[1] + b[2])) and repr(a[3]) == repr(b[3])


def explore(ctx, n, moves, gaps, patterns):
    def gen():
        for mv in itertools.product(moves, repeat=n - 1):
            for g in itertools.product(gaps, repeat=n - 1):
                for pat in patterns:
                    yield mv, g, pat

    def body(case):
        mv, g, pat = case
        px, ts = [100.0], [T0 + 300_000_000]
        for m, d in zip(mv, g):
            px.append(px[-1] + m)
            ts.append(ts[-1] + d)
        qt = [(0.5, 2.0, 1.0, 4.0)[(i * (1 + pat) + pat) % 4] for i in range(n)]
        sd = [1 if (i + pat * (i // 2)) % 2 == 0 else -1 for i in range(n)]
        cache = {}
        for name in ("time", "tick", "volume", "dollar", "cusum"):
            prev = None
            for m in range(1, n + 1):
                if m < n and ts[m] == ts[m - 1]:
                    continue
                if m not in cache:
                    cache[m] = kits(ts[:m], px[:m], qt[:m], sd[:m])
                kit = cache[m][name]
                idx, lab = kit_closes(kit)
                rows = products(kit, len(lab)) if lab else []
                ctx.trace()
                ctx.trans()
                ctx.state(name, tuple(lab), tuple(px[:m]), pat)
                if prev is not None:
                    plab, prows, closed = prev
                    if lab[:closed] != plab[:closed]:
                        ctx.fail(f"{name}: with {m} trades the closed bars are {lab}, were {plab[:closed]}")
                        return
                    for k in range(closed):
                        if not eq(rows[k], prows[k]):
                            ctx.fail(f"{name}: closed bar {k} changed when trade {m - 1} arrived:\n was {prows[k]}\n now {rows[k]}")
                            return
                closed = sum(1 for t in lab if t < ts[m - 1]) if name == "time" else len(lab)
                prev = (lab, rows, closed)
                ctx.outcome(name, closed, len(lab))
    ctx.run(gen(), body)


S = NS


@phase("histories")
def histories(ctx):
    for n in (2, 3, 4):
        explore(ctx, n, (-8.0, 0.0, 6.0), (0, S // 4, S, 5 * S // 2) if n < 4 else (0, S // 4, 5 * S // 2), (0, 1))
    explore(ctx, 5, (-8.0, 6.0), (S // 4, 5 * S // 2) if not ctx.thorough else (0, S // 4, 5 * S // 2), (0, 1))
    if ctx.thorough:
        explore(ctx, 6, (-8.0, 6.0), (S // 4, 5 * S // 2), (0,))


@phase("jit", jit=True, shards=2)
def jit(ctx):
    explore(ctx, 3, (-8.0, 6.0), (S // 4, 5 * S // 2), (0, 1))
    explore(ctx, 4, (-8.0, 6.0), (S // 4, 5 * S // 2), (1,))
