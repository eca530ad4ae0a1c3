"""C41: results do not depend on the units of price and volume nor on the era of the data."""
import itertools
import math

import numpy as np
import pandas as pd

from mc import feat
from mc.bars import NS, T0, trades_data
from mc.core import Raised, close, phase

BOUNDS = ("39 features x every option x sequences of up to 4 bars (7 where windows are long) over three rows of the alphabet of each feature x 4 (4 bars: 2) unit changes "
          "(powers of two, so that rescaling is exact) of prices, volumes and returns, core functions and both backends; the sequences with "
          "varying gaps and the hand-built time lines (others: up to 2 bars) moved by 6 whole numbers of weeks (1974-2074); every layout of 5 trades over 3 gaps x 3 prices x 2 sizes x sides "
          "through 5 bar kits, 3 aggregations, volume profiles, under 4 unit changes and 4 eras; every path of 5 bars through labels, weights, "
          "event filter and break statistics")
ASSUMPTIONS = ["unit changes are powers of two with prices above 1e-8 and volumes exact in single precision", "CandleShape (1e-12 added to the range) and "
               "FlowAcceleration (1e-12 added to the sums) are compared to within that regularisation, and not where it decides the value",
               "eras are whole weeks of UTC apart"]
WEEK = 7 * 86400 * NS
ERAS = (-1, 1, -2609, 2609, -417, 1201)      # weeks: the surrounding ones, 1974, 2074, 2016 and 2047
UNITS = (dict(price=2.0 ** -24, volume=1.0, x=2.0 ** -20, y=2.0 ** -8, ret=1.0), dict(price=1.0, volume=2.0 ** -18, x=2.0 ** -10, y=2.0 ** 8, ret=1.0),
         dict(price=2.0 ** 17, volume=2.0 ** 30, x=2.0 ** 31, y=2.0 ** 4, ret=1.0), dict(price=2.0 ** -10, volume=2.0 ** 40, x=2.0 ** 40, y=1.0, ret=1.0))
RETS = (2.0 ** -9, 2.0 ** 7, 2.0 ** -4, 2.0 ** 12)

# degree of the outputs in the unit of the first column; 0 where not listed
DEGREE = {"Lag": 1, "SMA": 1, "EWMA": 1, "ewms": 1, "EWMST": 1, "ewmst_mean0": 1, "RealizedVolatility": 1, "true_range": 1, "rolling_variance": 2,
          "BiPowerVariation": 2, "ATR": lambda p: 0 if p["normalize"] else 1}


def unit_of(f, u, k):
    """factor of each column of f"""
    u = dict(u, ret=RETS[k], ret1=RETS[k])
    return [u.get(feat.UNITS.get(c, c), 1.0) for c in f.cols]


def sequences(f, short):
    if f.gaps or f.gen:
        seen = 0
        for rows, ts in f.cases(False, (4, 4)):
            seen += 1
            if len(ts) < 3 and not f.gen or seen % (1 if f.gen else 3):
                continue
            yield rows, ts
        return
    long = f.name in ("VarianceRatio14", "HurstExponent", "ADX")
    few = f.rows[:2] + f.rows[-1:]
    for k in (3, 7) if long else range(1, (3 if short else 4) + 1):
        for rows in itertools.product(few[:2] if k > 4 else few, repeat=k):
            yield rows, tuple(feat.T0 + 60 * feat.S * i for i in range(k))


def targets(ctx, f, p, cols, ts):
    """(name, outputs) of every implementation of the feature"""
    if f.core:
        yield "core", feat.outs(ctx.call(f.core, p, [np.array(c, dtype=np.float64) for c in cols], np.array(ts, dtype=np.int64)))
    if f.cls:
        df = pd.DataFrame({c: np.array(v, dtype=np.float64) for c, v in zip(f.cols, cols)}, index=pd.DatetimeIndex(np.array(ts, dtype="datetime64[ns]")))
        t = ctx.call(f.transform, p)
        for be in ("nb", "pd") if f.pd else ("nb",):
            yield be, feat.outs(t if isinstance(t, Raised) else ctx.call(t, df, backend=be))


def plain(r):
    return r if isinstance(r, Raised) else [np.asarray(s).astype(float).tolist() for s in r]


def alike(f, ref, got, k, exp=None):
    """first difference between got and k * ref, or None"""
    if isinstance(ref, Raised) or isinstance(got, Raised):
        return None if isinstance(ref, Raised) == isinstance(got, Raised) else (ref, got)
    if [len(s) for s in ref] != [len(s) for s in got]:
        return "another number of values"
    rel, ab = max(f.rel * 10, 1e-9), max(f.ab, 1e-10)
    if f.name == "CandleShape":
        rel, ab = 1e-3, 1e-3
    for o, (a, b) in enumerate(zip(ref, got)):
        for i, (x, y) in enumerate(zip(a, b)):
            if exp and exp[o][i] is feat.ANY:
                continue
            if f.name == "FlowAcceleration" and abs(x) > 15:
                continue                                    # one of the sums is zero: only the added constant shows
            if f.name in ("EWMST", "ewmst_mean0") and min(abs(x - 1e-12), abs(y - 1e-12)) < 1e-18:
                continue                                    # documented floor of the deviation
            if not close(y / k, x, rel, 1e-3 if f.name == "FlowAcceleration" else ab):
                return o, i, x, y / k
    return None


def explore(ctx, short, how):
    def gen():
        for f in feat.TABLE.values():
            for rows, ts in sequences(f, short):
                yield f.name, rows, ts

    def body(case):
        name, rows, ts = case
        f = feat.TABLE[name]
        cols = feat.columns(f, rows)
        if how is by_era and not (f.gaps or f.gen) and len(ts) > 2 and not ctx.thorough:
            return                                          # no use of time: the index is all that could matter
        ctx.state(name, rows, tuple(b - a for a, b in zip(ts, ts[1:])))
        for p in f.params:
            exp = f.oracle(p, cols, ts)
            ref = {t: plain(r) for t, r in targets(ctx, f, p, cols, ts)}
            vs = list(how(f, p))
            if len(ts) == 4 and not f.gen and not ctx.thorough:
                vs = vs[1:3]
            for v in vs:
                what, facs, dt, k = v
                ctx.trans(len(ts))
                c2 = [[x * u for x in c] for c, u in zip(cols, facs)]
                for t, r in targets(ctx, f, p, c2, [x + dt for x in ts]):
                    r = plain(r)
                    ctx.trace()
                    ctx.outcome(name, t, repr(r)[:200])
                    d = alike(f, ref[t], r, k, exp)
                    if d is not None:
                        ctx.fail(f"{name}{p} {t} {what}: (output, row, value before, value now in the old unit) = {d}; rows {rows}")
                        return
    ctx.run(gen(), body, group=(lambda c: c[0]) if short else None)


def by_units(f, p):
    for k, u in enumerate(UNITS):
        facs = unit_of(f, u, k)
        if all(x == 1.0 for x in facs):
            continue
        d = DEGREE.get(f.name, 0)
        d = d(p) if callable(d) else d
        yield f"with columns multiplied by {facs}", facs, 0, facs[0] ** d


def by_era(f, p):
    for w in ERAS:
        yield f"{w} weeks later", [1.0] * len(f.cols), w * WEEK, 1.0


@phase("feature-units")
def feature_units(ctx):
    explore(ctx, False, by_units)


@phase("feature-eras")
def feature_eras(ctx):
    explore(ctx, False, by_era)


@phase("jit", jit=True, shards=4, threads=2)
def jit(ctx):
    explore(ctx, True, lambda f, p: itertools.chain(list(by_units(f, p))[::2], list(by_era(f, p))[2:4]) if f.core else ())


# ---------------------------------------------------------------------------------------------------------- bars
BAR_UNITS = ((2.0 ** -31, 1.0), (1.0, 2.0 ** -40), (2.0 ** 15, 2.0 ** 12), (2.0 ** -6, 2.0 ** 20))
LEVELS = (100.0, 100.25, 101.5)
PRICES = {"open", "high", "low", "close", "vwap", "max_spread", "mean_spread"}
VOLUMES = {"volume", "median_trade_size", "volume_buy", "volume_sell", "cum_volume_min", "cum_volume_max"}
DOLLARS = {"dollars_buy", "dollars_sell", "cum_dollars_min", "cum_dollars_max"}


def everything(ctx, ts, px, qty, side, p, v, t0):
    """every product of every bar kit as rows of numbers in the units p (price) and v (volume) and in ns after t0"""
    from finmlkit.bar import kit as K
    from finmlkit.feature.core.volume import VolumePro
    out = {}
    for name, make in (("time", lambda td: K.TimeBarKit(td, pd.Timedelta(seconds=1))), ("tick", lambda td: K.TickBarKit(td, 2)),
                       ("volume", lambda td: K.VolumeBarKit(td, 3.0 * v)), ("dollar", lambda td: K.DollarBarKit(td, 300.5 * p * v)),
                       ("cusum", lambda td: K.CUSUMBarKit(td, np.full(len(ts), 0.001), 0.0005, 2.0))):
        kit = ctx.call(lambda: make(trades_data(ts, px, qty, side)))
        res = [("closes", ctx.call(lambda: kit.build_ohlcv()))]
        n = 0 if isinstance(res[0][1], Raised) else len(res[0][1])
        res += [("flows", ctx.call(lambda: kit.build_directional_features())),
                ("sizes", ctx.call(lambda: kit.build_trade_size_features(np.full(n, 0.75 * v), 2.0)))]
        fp = ctx.call(lambda: kit.build_footprints(price_tick_size=0.25 * p))
        for what, df in res:
            if isinstance(df, Raised):
                out[name, what] = repr(type(df.exc))
                continue
            out[name, what, "index"] = [x - t0 for x in df.index.view("int64").tolist()]
            for c in df.columns:
                k = p if c in PRICES else v if c in VOLUMES else p * v if c in DOLLARS else 1.0
                out[name, what, c] = [float(x) / k for x in df[c]]
        if isinstance(fp, Raised):
            out[name, "footprint"] = repr(type(fp.exc))
            continue
        for a in ("price_levels", "buy_volumes", "sell_volumes", "buy_ticks", "sell_ticks", "buy_imbalances", "sell_imbalances"):
            k = v if a.endswith("volumes") else 1.0
            out[name, "footprint", a] = [float(x) / k for r in getattr(fp, a) for x in r]
        for a in ("buy_imbalances_sum", "sell_imbalances_sum", "cot_price_levels", "imb_max_run_signed", "vp_skew", "vp_gini"):
            out[name, "footprint", a] = [float(x) for x in getattr(fp, a)]
        if n:
            r = ctx.call(lambda: VolumePro(pd.Timedelta(seconds=2), n_bins=2).compute(res[0][1], fp))
            for i, x in enumerate(r if not isinstance(r, Raised) else ()):
                out[name, "profile", i] = [float(y) / (p if i < 3 else 1.0) for y in x]
            if isinstance(r, Raised):
                out[name, "profile"] = repr(type(r.exc))
    return out


def differ(a, b, rel=1e-6, ab=1e-9):
    if a.keys() != b.keys():
        return f"{sorted(map(str, a.keys() ^ b.keys()))[:3]} exist on one side only"
    for k, x in a.items():
        y = b[k]
        if isinstance(x, str) or isinstance(y, str):
            if x != y:
                return k, x, y
        elif len(x) != len(y) or not all(close(q, w, rel, ab) for q, w in zip(x, y)):
            return k, x, y
    return None


def bars_of(ctx, n, jit_only=False):
    def gen():
        for gaps in itertools.product((0, 400, 1700), repeat=n - 1):
            for lv in itertools.product(range(len(LEVELS)), repeat=n):
                if lv[0] != 0 and not ctx.thorough:
                    continue
                if not ctx.thorough and (sum(gaps) // 100 + sum(lv)) % (3 if n > 3 else 1):
                    continue
                yield gaps, lv, (sum(lv) + gaps[-1]) % 3

    def body(case):
        gaps, lv, pat = case
        ts = [0]
        for g in gaps:
            ts.append(ts[-1] + g * 1_000_000)
        ts = [T0 + 300_000_000 + t for t in ts]
        px = [LEVELS[i] for i in lv]
        qty = [(0.5, 2.0, 1.0, 4.0, 8.0)[(i * (1 + pat) + pat) % 5] for i in range(n)]
        side = [1 if (i + pat * (i // 2)) % 2 == 0 else -1 for i in range(n)]
        ctx.state(case)
        ref = everything(ctx, ts, px, qty, side, 1.0, 1.0, T0)
        ctx.outcome(repr(sorted((str(k), v) for k, v in ref.items() if k[1] != "index"))[:3000])
        for p, v in BAR_UNITS:
            got = everything(ctx, ts, [x * p for x in px], [x * v for x in qty], side, p, v, T0)
            ctx.trace(5)
            ctx.trans(n)
            d = differ(ref, got)
            if d:
                ctx.fail(f"prices in units of {1 / p}, volumes of {1 / v}: {d}")
                return
        for w in ERAS[::2] if sum(lv) % 2 else ERAS[1::2]:
            got = everything(ctx, [t + w * WEEK for t in ts], px, qty, side, 1.0, 1.0, T0 + w * WEEK)
            ctx.trace(5)
            ctx.trans(n)
            d = differ(ref, got)
            if d:
                ctx.fail(f"{w} weeks later: {d}")
                return
    ctx.run(gen(), body)


@phase("bars")
def bars(ctx):
    bars_of(ctx, 5 if ctx.thorough else 4)


@phase("bars-jit", jit=True, shards=2, threads=2)
def bars_jit(ctx):
    bars_of(ctx, 3)


@phase("tick-rule")
def tick_rule(ctx):
    """trades without a side, and trade prices merged, are told apart at every price scale and at any time"""
    from finmlkit.bar.data_model import TradesData

    def gen():
        for n in (2, 3, 4):
            for lv in itertools.product(range(len(LEVELS)), repeat=n):
                for gaps in itertools.product((0, 1), repeat=n - 1):
                    yield lv, gaps

    def build(lv, gaps, p, v, t0, unit):
        k = dict(ns=1, us=1000, ms=10 ** 6)[unit]
        ts = [t0 // k]
        for g in gaps:
            ts.append(ts[-1] + g * 5 * 10 ** 6 // k)
        td = TradesData(np.array(ts, dtype=np.int64), np.array([LEVELS[i] * p for i in lv]), np.array([(1.0 + i) * v for i in range(len(lv))]),
                        np.arange(len(lv)), timestamp_unit=unit, preprocess=True)
        d = td.data
        return [[t - t0 for t in d.timestamp.tolist()], [x / p for x in d.price], [x / v for x in d.amount],
                d.side.tolist() if "side" in d else None]

    def body(case):
        lv, gaps = case
        ctx.state(case)
        ref = ctx.call(build, lv, gaps, 1.0, 1.0, T0, "ms")
        ctx.outcome(repr(ref))
        for p, v, w, unit in [(p, v, 0, "us") for p, v in BAR_UNITS] + [(1.0, 1.0, w, ("ms", "ns")[w % 2]) for w in ERAS]:
            got = ctx.call(build, lv, gaps, p, v, T0 + w * WEEK, unit)
            ctx.trace()
            ctx.trans(len(lv))
            if repr(got) != repr(ref):
                ctx.fail(f"prices x {p}, volumes x {v}, {w} weeks later in {unit}: {got}, before {ref}")
                return
    ctx.run(gen(), body)


# ---------------------------------------------------------------------------------------------------------- labels
@phase("labels")
def labels(ctx):
    labels_of(ctx, 5)


@phase("labels-jit", jit=True, shards=2, threads=2)
def labels_jit(ctx):
    labels_of(ctx, 4)


def labels_of(ctx, n):
    from finmlkit.feature.core.structural_break import cusum as B
    from finmlkit.label.kit import SampleWeights, TBMLabel
    from finmlkit.sampling.filters import cusum_filter
    moves = (0.03125, -0.015625, 0.0078125)

    def study(ts, px, t0):
        out = {}
        td = trades_data(ts, px, [1.0] * n)
        f = pd.DataFrame(dict(tgt=[0.02 + 0.001 * i for i in range(n - 1)], f=[float(i) for i in range(n - 1)]),
                         index=pd.DatetimeIndex(np.array(ts[:n - 1], dtype="datetime64[ns]")))
        k = TBMLabel(f, "tgt", 0.001, (1.0, 1.0), pd.Timedelta(seconds=2))
        r = ctx.call(k.compute_labels, td)
        if isinstance(r, Raised):
            out["labels"] = repr(type(r.exc))
        else:
            for d in (r[0], r[1]):
                out["index", id(d) == id(r[0])] = [x - t0 for x in d.index.view("int64").tolist()]
                for c in d.columns:
                    out["labels", c] = [float(x) if not hasattr(x, "value") else float(x.value - t0) for x in d[c]]
            w = ctx.call(k.compute_weights, td)
            if isinstance(w, Raised):
                out["weights"] = repr(type(w.exc))
            else:
                for c in w.columns:
                    out["weights", c] = [float(x) for x in w[c]]
        ev = np.array([0, 1, 1, 3][:n - 1])
        to = np.array([2, 2, 3, n - 1][:n - 1])
        w = ctx.call(SampleWeights.compute_info_weights, td, pd.DataFrame(dict(event_idxs=ev, touch_idxs=to, labels=[1, -1, 1, 1][:n - 1])))
        if isinstance(w, Raised):
            out["info"] = repr(w)
        else:
            for c in w.columns:
                out["info", c] = [float(x) for x in w[c]]
        a = np.array(px)
        out["filter"] = [float(x) for x in cusum_filter(a, np.array([0.02]))]
        for i, x in enumerate(B.cusum_test_developing(a, 2)):
            out["break", i] = [float(y) for y in x]
        for i, x in enumerate(B.cusum_test_rolling(a, 3, 2)):
            out["break rolling", i] = [float(y) for y in x]
        out["break last"] = [float(x) for x in B.cusum_test_last(a)]
        return out

    def gen():
        for mv in itertools.product(range(3), repeat=n - 1):
            for g in itertools.product((0, 500, 1100), repeat=n - 1):
                if ctx.thorough or (sum(mv) + sum(g) // 100) % 4 == 0:
                    yield mv, g

    def body(case):
        mv, g = case
        ts, px = [T0], [100.0]
        for m, d in zip(mv, g):
            ts.append(ts[-1] + d * 1_000_000)
            px.append(px[-1] * (1 + moves[m]))
        ctx.state(case)
        ref = study(ts, px, T0)
        ctx.outcome(repr(ref)[:2000])
        for k in (2.0 ** -30, 2.0 ** -12, 2.0 ** 20):
            d = differ(ref, study(ts, [x * k for x in px], T0), 1e-6, 1e-7)
            ctx.trace()
            ctx.trans(n)
            if d:
                ctx.fail(f"prices multiplied by {k}: {d}")
                return
        for w in ERAS:
            d = differ(ref, study([t + w * WEEK for t in ts], px, T0 + w * WEEK), 1e-9, 1e-12)
            ctx.trace()
            ctx.trans(n)
            if d:
                ctx.fail(f"{w} weeks later: {d}")
                return
    ctx.run(gen(), body)
