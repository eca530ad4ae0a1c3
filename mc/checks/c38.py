"""C38: what is finished stays: bars, merged trades, sampled events and labels do not change when later trades arrive."""
import itertools

import numpy as np
import pandas as pd

from mc.bars import NS, T0, kit_closes, trades_data
from mc.core import Raised, phase

NAN = float("nan")
BOUNDS = ("bars of all five kinds (2-3 thresholds each; all their features and footprints), CUSUM events, preprocessed trades: every sequence of up to 4 trades and a 24th of those of 5 (thorough: all up to 6) over 4 gaps "
          "(same time, inside and beyond an interval) and 3 price/size patterns with both sides, every cut between two timestamps; labels: every path of up to 4 trades and a 17th of those of 5 (thorough: all, and 6) over 3 moves and 3 gaps x 4 label "
          "configurations, every cut; compiled code on every sequence of 4 trades")
ASSUMPTIONS = ["given volatility and given tick size (an inferred tick size uses all prices)", "later trades have later timestamps"]

GAPS = (0, 400_000_000, 1_000_000_000, 2_300_000_000)
PATTERNS = ((1.01, 1.0, 1), (0.985, 2.5, -1), (1.0, 0.5, -1))


def series(case):
    phase0, steps = case
    t, p = T0 + phase0, 100.0
    ts, px, qty, side = [t], [p], [1.0], [1]
    for g, k in steps:
        m, q, s = PATTERNS[k]
        t += GAPS[g]
        p = round(p * m, 2)
        ts.append(t)
        px.append(p)
        qty.append(q)
        side.append(s)
    sigma = [(NAN, 0.004, 0.008, 0.006, NAN, 0.002, 0.01)[(i + len(steps)) % 7] for i in range(len(ts))]
    sigma[0] = 0.005 if len(steps) % 2 else NAN
    return ts, px, qty, side, sigma


def kits(td, sigma):
    from finmlkit.bar import kit as K
    yield "time 1s", K.TimeBarKit(td, pd.Timedelta("1s"))
    yield "time 0.5s", K.TimeBarKit(td, pd.Timedelta("500ms"))
    yield "tick 2", K.TickBarKit(td, 2)
    yield "volume 3", K.VolumeBarKit(td, 3.0)
    yield "dollar 250", K.DollarBarKit(td, 250.0)
    yield "cusum", K.CUSUMBarKit(td, np.array(sigma), 0.001, 2.0)
    yield "cusum floor", K.CUSUMBarKit(td, np.array(sigma), 0.02, 1.0)


FOOT = ("price_levels", "buy_volumes", "sell_volumes", "buy_ticks", "sell_ticks", "buy_imbalances", "sell_imbalances", "buy_imbalances_sum", "sell_imbalances_sum",
        "cot_price_levels", "imb_max_run_signed", "vp_skew", "vp_gini")


def bars_of(ctx, name, kit):
    """per bar: everything known about it"""
    idx, ts = kit_closes(kit)
    out = [dict(index=i, close=t) for i, t in zip(idx, ts)]
    if not out:
        return out
    theta = np.array([1.0 + (t // (NS // 2)) % 3 for t in ts])
    for what, df in (("ohlcv", ctx.call(kit.build_ohlcv)), ("directional", ctx.call(kit.build_directional_features)), ("size", ctx.call(kit.build_trade_size_features, theta, 2.0))):
        if isinstance(df, Raised):
            ctx.fail(f"{name}: {what} of bars closing at {idx}: {df}")
            return None
        for b, t, row in zip(out, df.index.asi8, df.itertuples(index=False)):
            b[what] = (int(t),) + tuple(map(repr, map(float, row)))
        b = None
        if len(df) != len(out):
            ctx.fail(f"{name}: {what} has {len(df)} rows for {len(out)} bars")
            return None
    fp = ctx.call(kit.build_footprints, 0.01, 1.5)
    if isinstance(fp, Raised):
        ctx.fail(f"{name}: footprints of bars closing at {idx}: {fp}")
        return None
    for k, b in enumerate(out):
        b["footprint"] = tuple(repr(np.asarray(getattr(fp, a)[k]).tolist()) for a in FOOT)
    return out


def bar_cases(thorough, nmax):
    for n in range(2, nmax + 1):
        for steps in itertools.product(itertools.product(range(len(GAPS)), range(len(PATTERNS))), repeat=n - 1):
            if n >= 5 and not thorough and (sum((3 * i + 1) * g + (5 * i + 2) * k for i, (g, k) in enumerate(steps)) % 24):
                continue
            yield (300_000_000 if n % 2 else 0), steps


def explore_bars(ctx, gen):
    cache = {}

    def known(case, td_case):
        if td_case not in cache:
            if len(cache) > 60000:
                cache.clear()
            ts, px, qty, side, sigma = td_case
            td = trades_data(ts, px, qty, side)
            res = {}
            for name, k in kits(td, sigma):
                b = bars_of(ctx, name, k)
                if b is None:
                    return None
                res[name] = b
            cache[td_case] = res
        return cache[td_case]

    def body(case):
        full = series(case)
        n = len(full[0])
        ctx.state(case)
        whole = known(case, tuple(map(tuple, full)))
        if whole is None:
            return
        k = n - 1                                       # enumeration is prefix closed up to the volatility, so check the last cut and the first
        for k in sorted({1, n - 1}):
            nxt = full[0][k]
            if nxt == full[0][k - 1]:
                continue
            ctx.trans()
            ctx.trace()
            part = known(case, tuple(tuple(x[:k]) for x in full))
            if part is None:
                return
            for name in whole:
                a = [b for b in part[name] if b["close"] < nxt]
                ctx.outcome(name, len(a), len(whole[name]))
                z = whole[name][:len(a)]
                if a != z:
                    for x, y in itertools.zip_longest(a, z):
                        if x != y:
                            what = [q for q in x if y is None or x[q] != y[q]]
                            ctx.fail(f"{name}: bar {x} of the first {k} trades becomes {y} ({what}) when {n - k} later trades arrive")
                            return
                late = [b["close"] for b in whole[name][len(a):] if b["close"] <= full[0][k - 1]]
                if late:
                    ctx.fail(f"{name}: bars closing at {late} appear only when later trades arrive")
                    return
    ctx.run(gen, body, group=lambda c: c[1][:2])


@phase("bars")
def bars(ctx):
    explore_bars(ctx, bar_cases(ctx.thorough, 6 if ctx.thorough else 5))


@phase("bars_compiled", jit=True, shards=4)
def bars_compiled(ctx):
    explore_bars(ctx, bar_cases(ctx.thorough, 4))


@phase("trades")
def trades(ctx):
    """cleaning raw trades: what is merged and sided before the next timestamp stays"""
    from finmlkit.bar.data_model import TradesData

    def clean(ts, px, qty, side, res, maker):
        return TradesData(np.array(ts), np.array(px), np.array(qty), np.arange(len(ts)), is_buyer_maker=np.array([s < 0 for s in side]) if maker else None,
                          timestamp_unit="ns", preprocess=True, proc_res=res)

    def gen():
        for n in range(2, 7 if ctx.thorough else 6):
            for gaps in itertools.product((0, 300_000, 1_000_000, 2_000_000_000), repeat=n - 1):
                for ks in itertools.product((0, 1, 2), repeat=n - 1):
                    if n < 5 or len(set(ks)) < 3 and len(set(gaps)) > 1 and gaps[-1] or ctx.thorough:
                        for res, maker in ((None, True), ("ms", True), ("ms", False)):
                            if n < 5 or (len(gaps) + sum(ks) + len(set(gaps))) % 3 == (0 if res is None else 1 if maker else 2) or ctx.thorough:
                                yield gaps, ks, res, maker

    def body(case):
        gaps, ks, res, maker = case
        ts, px, qty, side = [T0], [100.0], [1.0], [1]
        for g, k in zip(gaps, ks):
            ts.append(ts[-1] + g)
            px.append((101.0, 100.0, 99.0)[k] if k else px[-1])
            qty.append(1.0 + k)
            side.append(-1 if k == 1 else 1)
        ctx.state(case)
        full = ctx.call(clean, ts, px, qty, side, res, maker)
        k = len(ts) - 1
        unit = 1_000_000 if res == "ms" else 1
        if ts[k] // unit == ts[k - 1] // unit:
            return
        part = ctx.call(clean, ts[:k], px[:k], qty[:k], side[:k], res, maker)
        if isinstance(part, Raised) or isinstance(full, Raised):
            if not (isinstance(part, Raised) and len(ts) <= 2):
                ctx.fail(f"preprocessing {ts}: {full}, prefix {part}")
            return
        ctx.trace()
        ctx.trans()
        a, b = part.data, full.data
        ctx.outcome(tuple(map(str, a.iloc[-1].tolist())))
        for c in a.columns:
            x, y = a[c].tolist(), b[c].tolist()[:len(a)]
            if x != y:
                ctx.fail(f"column {c} of the first {k} trades is {x}, with one later trade {y}")
                return
    ctx.run(gen(), body)


@phase("events")
def events(ctx):
    from finmlkit.sampling.filters import cusum_filter

    def gen():
        for n in range(2, 8 if ctx.thorough else 7):
            for moves in itertools.product((1.011, 0.986, 1.0, 1.0301), repeat=n - 1):
                for thr in (0.009, 0.02, None):
                    yield moves, thr

    def body(case):
        moves, thr = case
        px = [100.0]
        for m in moves:
            px.append(px[-1] * m)
        n = len(px)
        th = [thr] * n if thr else [0.01 + 0.007 * (i % 3) for i in range(n)]
        ctx.state(case)
        ctx.trace()
        ctx.trans()
        const = np.array([thr]) if thr and n % 2 else None
        full = ctx.call(cusum_filter, np.array(px), const if const is not None else np.array(th))
        part = ctx.call(cusum_filter, np.array(px[:-1]), const if const is not None else np.array(th[:-1]))
        if isinstance(full, Raised) or isinstance(part, Raised):
            if n > 2:
                ctx.fail(f"{case}: {full} {part}")
            return
        a, b = [int(x) for x in part], [int(x) for x in full]
        ctx.outcome(tuple(b))
        ctx.expect(b[:len(a)] == a and all(x == n - 1 for x in b[len(a):]), f"events {a} become {b} with one more price")
    ctx.run(gen(), body)


CFG = [dict(target_ret_col="tgt", min_ret=0.001, horizontal_barriers=(1.0, 1.0), vertical_barrier=pd.Timedelta("2s")),
       dict(target_ret_col="tgt", min_ret=0.0, horizontal_barriers=(0.7, np.inf), vertical_barrier=pd.Timedelta("3s"), min_close_time=pd.Timedelta("500ms")),
       dict(target_ret_col="tgt", min_ret=0.0, horizontal_barriers=(np.inf, np.inf), vertical_barrier=pd.Timedelta("1s")),
       dict(target_ret_col="tgt", min_ret=0.001, horizontal_barriers=(1.0, 2.0), vertical_barrier=pd.Timedelta("2s"), is_meta=True)]


def explore_labels(ctx, gen):
    from finmlkit.label.kit import TBMLabel

    def label(ts, px, cfg):
        td = trades_data(ts, px, [1.0] * len(ts))
        u = sorted(set(ts))
        x = pd.DataFrame(dict(tgt=[(0.012, 0.02, 0.005)[i % 3] for i in range(len(u))], f=[float(i) for i in range(len(u))]), index=pd.DatetimeIndex(u))
        if cfg.get("is_meta"):
            x["side"] = np.array([(1, -1)[i % 2] for i in range(len(u))])
        k = TBMLabel(x, **cfg)
        f, y = k.compute_labels(td)
        return [(int(t),) + tuple(map(repr, r)) for t, r in zip(k.full_output.index.asi8, k.full_output.drop(columns=[c for c in k.full_output.columns if "weight" in c and "vertical" not in c]).itertuples(index=False))], \
            [int(v) for v in np.asarray(y).ravel()]

    def body(case):
        moves, gaps, c = case
        ts, px = [T0], [100.0]
        for m, g in zip(moves, gaps):
            ts.append(ts[-1] + g)
            px.append(px[-1] * m)
        n = len(ts)
        ctx.state(case)
        full = ctx.call(label, ts, px, CFG[c])
        for k in sorted({n - 1, n - 2}):
            if ts[k] == ts[k - 1]:
                continue
            part = ctx.call(label, ts[:k], px[:k], CFG[c])
            ctx.trace()
            ctx.trans()
            if isinstance(part, Raised):
                continue                                   # no event with a full window yet
            if isinstance(full, Raised):
                ctx.fail(f"labels of {k} trades exist, but of {n} trades: {full}")
                return
            ctx.outcome(tuple(part[1]))
            for what, a, b in (("row", part[0], full[0]), ("label", part[1], full[1])):
                if a != b[:len(a)]:
                    i = [x == y for x, y in zip(a, b)].index(False) if len(b) >= len(a) and any(x != y for x, y in zip(a, b)) else min(len(a), len(b))
                    ctx.fail(f"{what} {i} of the first {k} trades is {a[i:i + 1]}, with {n - k} later trades {b[i:i + 1]}")
                    return
    ctx.run(gen, body)


def label_cases(n, cfgs):
    for moves in itertools.product((1.0131, 0.985, 1.001), repeat=n - 1):
        for gaps in itertools.product((0, 700_000_000, 1_300_000_000), repeat=n - 1):
            for c in cfgs:
                if n < 6 or (sum(g // 10 ** 8 for g in gaps) + c) % 5 == 0:
                    yield moves, gaps, c


@phase("labels")
def labels(ctx):
    for n in (3, 4):
        explore_labels(ctx, label_cases(n, range(4)))
    explore_labels(ctx, (c for i, c in enumerate(label_cases(5, range(4))) if ctx.thorough or (i // 4 + i) % 17 == 0))
    if ctx.thorough:
        explore_labels(ctx, label_cases(6, (0, 3)))
