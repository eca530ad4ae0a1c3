"""C42: the amount of data is not visible in the results: every count is right on both sides of every machine and decimal limit."""
import itertools
import os
import shutil

import numpy as np
import pandas as pd

from mc import bars as R
from mc import feat, labels as L
from mc.bars import NS, T0, trades_data
from mc.core import Raised, close, first_diff, phase

BOUNDS = ("every size in {1, 2, 99..101, 127..129, 255..257, 511..513, 999..1001, 1023..1025, 4095..4097, 9999..10001, 32767..32769, 65535..65537} "
          "(thorough: up to 131 073 and 250 000): trades per bar, bars, trades merged into one, trades, unique prices, price levels, labels, bars per "
          "label, stored trades, stored seconds; 25 months, 129 columns; every feature with every size up to 257 (thorough 1025) of its window and "
          "of the series, 3 value patterns each")
ASSUMPTIONS = ["counters whose documented type is 16 bits wide are explored up to 32 767", "single-precision outputs are compared within their precision",
               "more than 32 767 simultaneous labels are the recorded finding of C19"]
CORE = (1, 2, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025)
BIG = (4095, 4096, 4097, 9999, 10000, 10001, 32767, 32768, 32769, 65535, 65536, 65537)
HUGE = (99999, 100000, 100001, 131071, 131072, 131073, 250000)


def sizes(ctx, lo=1, hi=10 ** 9):
    return [n for n in CORE + BIG + (HUGE if ctx.thorough else ()) if lo <= n <= hi]


def small(ctx, lo=1, hi=257):
    return [n for n in CORE if lo <= n <= (1025 if ctx.thorough else hi)]


PATTERNS = (  # price steps (quarters), sizes, sides: periods are coprime with every block size
    ((0, 1, 2, 1, 0, -1, -2), (1.0, 2.0, 0.5), (1, -1, 1, 1, -1)),
    ((0,), (1.0,), (1,)),
    ((0, 1, 0), (0.5, 0.25, 2.0, 1.0, 4.0), (-1,)))


def trades(n, pat, gap=1_000_000, step=None):
    st, qs, ss = PATTERNS[pat]
    px = [100.0 + 0.25 * st[i % len(st)] for i in range(n)]
    return [T0 + 1 + i * gap for i in range(n)], px, [qs[i % len(qs)] for i in range(n)], [ss[i % len(ss)] for i in range(n)]


def bad(ctx, what, msg):
    if msg:
        ctx.fail(f"{what}: {msg}")
    return bool(msg)


# ---------------------------------------------------------------------------------------------------------- bars
def judge(ctx, what, px, qty, side, closes, theta, tick):
    """all kernels over one partition"""
    from finmlkit.bar import base as B
    from mc.checks.c07 import bounds, check as fpcheck
    a = [np.array(px), np.array(qty), np.array(closes, dtype=np.int64), np.array(side, dtype=np.int8)]
    o = ctx.call(B.comp_bar_ohlcv, a[0], a[1], a[2])
    if isinstance(o, Raised) or bad(ctx, what, R.compare_rows(R.OHLCV, o, R.ref_ohlcv(px, qty, closes), rel=1e-5)):
        return isinstance(o, Raised) and ctx.fail(f"{what}: {o}")
    d = ctx.call(B.comp_bar_directional_features, *a)
    names = ("ticks_buy", "ticks_sell", "volume_buy", "volume_sell", "dollars_buy", "dollars_sell", "mean_spread", "max_spread", "cum_ticks_min",
             "cum_ticks_max", "cum_volume_min", "cum_volume_max", "cum_dollars_min", "cum_dollars_max")
    if isinstance(d, Raised) or bad(ctx, what, R.compare_rows(names, d, R.ref_directional(px, qty, side, closes), rel=1e-4)):
        return isinstance(d, Raised) and ctx.fail(f"{what}: {d}")
    s = ctx.call(B.comp_bar_trade_size_features, a[1], np.array(theta), a[2], 2.0)
    if isinstance(s, Raised) or bad(ctx, what, R.compare_rows(("mean", "95", "block", "gini"), s, R.ref_sizes(qty, theta, closes, 2.0), rel=1e-4)):
        return isinstance(s, Raised) and ctx.fail(f"{what}: {s}")
    lo, hi = bounds(px, closes)
    f = ctx.call(B.comp_bar_footprints, *a, tick, lo, hi, 3.0)
    if isinstance(f, Raised):
        return ctx.fail(f"{what}: {f}")
    fpcheck(ctx, f, R.ref_footprint(px, qty, side, closes, tick, 3.0), what, 1e-3 + 5e-6 * max(px) / tick)
    ctx.trace(4)


@phase("trades-per-bar", jit=True, shards=2, threads=2)
def trades_per_bar(ctx):
    """one bar of n trades between two bars of three"""
    def body(case):
        n, pat = case
        ts, px, qty, side = trades(n + 6, pat)
        ctx.trans(n + 6)
        ctx.state(case)
        ctx.outcome(n)
        judge(ctx, f"a bar of {n} trades, pattern {pat}", px, qty, side, [-1, 2, n + 2, n + 5], [1.0, 0.5, 1.0], 0.25)
    ctx.run(itertools.product(sizes(ctx), range(3)), body)


@phase("bars", jit=True, shards=2, threads=2)
def bars(ctx):
    """n bars, of one or two trades and of none, and the kits that make them"""
    from finmlkit.bar import kit as K

    def body(case):
        n, pat = case
        ctx.state(case)
        ctx.outcome(n)
        if n <= (1025 if not ctx.thorough else 10001):      # every kernel, bars of 1, 2, 0, 1, 2 ... trades
            closes = [-1]
            while len(closes) <= n:
                closes.append(closes[-1] + (1, 2, 0)[len(closes) % 3 - 1])
            ts, px, qty, side = trades(closes[-1] + 1, pat)
            ctx.trans(len(ts))
            judge(ctx, f"{n} bars, pattern {pat}", px, qty, side, closes, [0.5] * n, 0.25)
        ts, px, qty, side = trades(n + 1, pat, 500_000_000)
        td = trades_data(ts, px, qty, side)
        for name, kit, want in (("tick", K.TickBarKit(td, 2), lambda: R.ref_tick(n + 1, 2)), ("volume", K.VolumeBarKit(td, 2.5), lambda: R.ref_volume(qty, 2.5)),
                                ("dollar", K.DollarBarKit(td, 200.5), lambda: R.ref_dollar(px, qty, 200.5)),
                                ("long tick", K.TickBarKit(td, n), lambda: R.ref_tick(n + 1, n)),
                                ("long volume", K.VolumeBarKit(td, n / 2), lambda: R.ref_volume(qty, n / 2)),
                                ("long dollar", K.DollarBarKit(td, n * 50.0), lambda: R.ref_dollar(px, qty, n * 50.0)),
                                ("time", K.TimeBarKit(td, pd.Timedelta(seconds=1)), lambda: R.ref_time(ts, NS))):
            o = ctx.call(kit.build_ohlcv)
            w = want()
            w, idx = ([ts[i] for i in w], w) if name != "time" else w
            if len(w) == 1 and isinstance(o, Raised):
                continue                                    # nothing closes
            ctx.trace()
            ctx.trans(n)
            if isinstance(o, Raised) or o.index.view("int64").tolist() != list(w)[1:]:
                ctx.fail(f"{name} bars of {n + 1} trades, pattern {pat}: {o if isinstance(o, Raised) else len(o)}; expected {len(w) - 1} bars, the last at {w[-1]}")
                return
            if bad(ctx, f"{name} bars of {n + 1} trades, pattern {pat}",
                   R.compare_rows(R.OHLCV, [o[c].tolist() for c in R.OHLCV], R.ref_ohlcv(px, qty, idx), rel=1e-5)):
                return
    ctx.run(itertools.product(sizes(ctx), range(3)), body)


@phase("levels", jit=True, shards=1, threads=2)
def levels(ctx):
    """a bar spanning n price levels: ends only, every level, buys above sells all the way; profiles and frames of it"""
    from finmlkit.bar.data_model import FootprintData
    from finmlkit.bar.kit import TickBarKit

    def body(case):
        n, kind = case
        ctx.state(case)
        ctx.outcome(n)
        if kind == "ends":
            lv, side = [0, n - 1, n - 1, 0], [1, -1, 1, -1]
        elif kind == "all":
            lv, side = list(range(n)), [(1, -1)[i // 2 % 2] for i in range(n)]
        else:
            lv, side = list(range(n)), [1] * n
        px = [1000.0 + 0.5 * x for x in lv]
        qty = [(1.0, 2.0, 0.5)[i % 3] for i in range(len(lv))]
        ctx.trans(len(lv))
        judge(ctx, f"{n} levels, {kind}", px, qty, side, [-1, len(lv) - 1], [1.0], 0.5)
        if kind == "all" and 4 <= n <= 10001:
            td = trades_data([T0 + i for i in range(n)], px, qty, side)
            fp = ctx.call(lambda: TickBarKit(td, n - 1).build_footprints(0.5))
            df = fp if isinstance(fp, Raised) else ctx.call(fp.get_df)
            ctx.trace()
            if isinstance(df, Raised):
                ctx.fail(f"frame of a bar of {n - 2} levels: {df}")
                return
            one = df.groupby(level=0).size()
            if not {n - 2} == set(one.tolist()) or not isinstance(fp, FootprintData):
                ctx.fail(f"frame of a bar of {n - 2} levels has {one.tolist()} rows")
    ctx.run(itertools.product(sizes(ctx, 2, 32767), ("ends", "all", "one-sided")), body)


# ---------------------------------------------------------------------------------------------------------- trades
@phase("preprocessing", jit=True, shards=2, threads=2)
def preprocessing(ctx):
    """n trades: n prints merged into one, n single trades, every id twice, tick rule over n equal prices, n unique prices"""
    from finmlkit.bar.data_model import TradesData
    from finmlkit.bar.utils import comp_price_tick_size, comp_trade_side_vector

    def data(ids, ts, px, qty, mk, **k):
        return ctx.call(TradesData, np.array(ts, dtype=np.int64), np.array(px, dtype=float), np.array(qty, dtype=float), np.array(ids, dtype=np.int64),
                        is_buyer_maker=None if mk is None else np.array(mk), preprocess=True, timestamp_unit="ms", name="x", **k)

    def body(n):
        ctx.state(n)
        ctx.outcome(n)
        ctx.trans(n)
        ms = T0 // 10 ** 6
        what = f"{n} prints of one order"
        td = data(range(n + 2), [ms] + [ms + 1] * n + [ms + 2], [100.0] * (n + 2), [1.0] * (n + 2), [True] * (n + 2))
        ctx.trace()
        if isinstance(td, Raised) or td.data.amount.tolist() != [1.0, float(n), 1.0]:
            return ctx.fail(f"{what}: {td if isinstance(td, Raised) else td.data.amount.tolist()}")
        mk = [i % 3 == 0 for i in range(n)]
        px = [100.0 + 0.5 * (i % 5) for i in range(n)]
        order = [(i * 7919) % n for i in range(n)] if n % 7919 else list(range(n))
        if len(set(order)) < n:
            order = list(range(n))[::-1]
        for dup in (0, 1):
            seq = order + order[::3] * dup
            td = data(seq, [ms + i for i in seq], [px[i] for i in seq], [1.0 + i % 4 for i in seq], [mk[i] for i in seq])
            ctx.trace()
            if isinstance(td, Raised):
                return ctx.fail(f"{n} trades in another order: {td}")
            d = td.data
            got = (d.timestamp.tolist(), d.price.tolist(), d.amount.tolist(), d.side.tolist())
            want = ([(ms + i) * 10 ** 6 for i in range(n)], px, [1.0 + i % 4 for i in range(n)], [-1 if m else 1 for m in mk])
            if got != want:
                k = next(i for i, (a, b) in enumerate(itertools.zip_longest(zip(*got), zip(*want))) if a != b)
                return ctx.fail(f"{n} trades in another order, {'every third twice' if dup else 'once'}: trade {k} is wrong, {len(d)} trades")
            if td.missing_pct != 0 or td.discontinuities or td.data_ok != (not dup):
                return ctx.fail(f"{n} trades without gaps: missing {td.missing_pct}, {len(td.discontinuities)} gaps, ok {td.data_ok}")
        # ids with a gap of n, and n gaps
        td = data([1, 2, 2 + n, 3 + n], [ms, ms + 1, ms + 100_001, ms + 100_002], [1.0] * 4, [1.0] * 4, [True] * 4)
        want = [] if n == 1 else [(2, n - 1)]
        got = td if isinstance(td, Raised) else [(int(x["start_id"]), int(x["missing_ids"])) for x in td.discontinuities]
        if got != want or abs(td.missing_pct - 25.0 * (n - 1)) > 1e-6 * n:
            return ctx.fail(f"{n - 1} trades missing: {got}, {getattr(td, 'missing_pct', None)} %")
        # tick rule and tick size
        v = comp_trade_side_vector(np.array([100.0, 101.0] + [101.0] * n + [100.0] + [100.0] * n))
        if v.tolist() != [0, 1] + [1] * n + [-1] * (n + 1):
            return ctx.fail(f"tick rule over {n} equal prices: {np.unique(v, return_counts=True)}")
        ctx.trace(2)
        if n > 1:
            for tick, off in ((0.5, 0), (0.25, 1), (0.01, 2)):
                p = np.array([100.0 + tick * 2 * i for i in range(n)] + [100.0 + tick * (2 * n - 1)])
                t = comp_price_tick_size(p)
                if not close(t, tick, 1e-6):
                    return ctx.fail(f"tick size of {n} prices on a grid of {2 * tick} and one between: {t}, expected {tick}")
    ctx.run(sizes(ctx), body)


# ---------------------------------------------------------------------------------------------------------- labels
@phase("labels", jit=True, shards=2, threads=2)
def labels(ctx):
    from finmlkit.label.tbm import triple_barrier
    from finmlkit.label import weights as W
    from finmlkit.sampling.filters import cusum_filter

    def body(case):
        n, kind = case
        ctx.state(case)
        ctx.outcome(n)
        ctx.trans(n)
        ctx.trace()
        what = f"{kind}, size {n}"
        if kind == "touch after n bars":
            px = np.array([100.0] + [100.0 + 0.25 * (i % 2) for i in range(n - 1)] + [110.0, 100.0])
            ts = T0 + NS * np.arange(n + 2)
            for vb, touch, lab, ratio in ((10.0 * n + 10, n, 1, 1.0), (float(n), n, 1, 1.0), (n - 0.5, n - 1, 1 if n > 1 else 0, None)):
                r = ctx.call(triple_barrier, ts, px, np.array([0]), np.array([0.05]), (1.0, 1.0), vb, 0.0, None, 0.0)
                if isinstance(r, Raised) or r[0][0] != lab or r[1][0] != touch or ratio and r[3][0] != ratio:
                    return ctx.fail(f"{what}, vertical {vb}: {r}, expected label {lab} at {touch}")
        elif kind == "events":
            m = n + 3
            px = np.array([100.0 * (1 + 0.02 * ((i * 3) % 7)) for i in range(m)])
            ts = T0 + NS * np.arange(m)
            r = ctx.call(triple_barrier, ts, px, np.arange(n), np.full(n, 0.05), (1.0, 1.0), 3.0, 0.0, None, 0.0)
            one = [ctx.call(triple_barrier, ts[k:k + 4], px[k:k + 4], np.array([0]), np.array([0.05]), (1.0, 1.0), 3.0, 0.0, None, 0.0) for k in range(min(n, 7))]
            for j in range(n):
                a, b = tuple(x[j] for x in r), tuple(x[0] for x in one[j % 7])
                if a[0] != b[0] or a[1] - j != b[1] or not close(a[2], b[2], 1e-9) or not close(a[3], b[3], 1e-9):
                    return ctx.fail(f"{what}: event {j} is {a}, event {j % 7} with the same prices is {b}")
        elif kind == "long label":
            ev, to = np.array([0, n // 2, n - 1]), np.array([n - 1, n - 1, n - 1])
            w, c = W.average_uniqueness(np.arange(n + 1), ev, to)
            alive = L.concurrency(n + 1, ev, to)
            want = [float(x) for x in L.uniqueness(alive, ev, to)]
            if c.tolist() != alive or first_diff(w.tolist(), want, rel=1e-9):
                return ctx.fail(f"{what}: uniqueness {w}, expected {want}")
            px = [100.0 + (i % 7) for i in range(n + 1)]
            a = W.return_attribution(ev, to, np.array(px), c, False)
            want = L.attribution(alive, ev.tolist(), to.tolist(), px)
            if first_diff(a.tolist(), want, rel=1e-8, ab=1e-9):
                return ctx.fail(f"{what}: attribution {a}, expected {want}")
        elif kind == "many labels":
            ev = np.arange(n)
            to = ev + 1 + ev % 3
            w, c = W.average_uniqueness(np.arange(n + 4), ev, to)
            alive = L.concurrency(n + 4, ev.tolist(), to.tolist())
            want = [sum(1.0 / alive[j] for j in range(a, b + 1)) / (b - a + 1) for a, b in zip(ev.tolist(), to.tolist())]
            if c.tolist() != alive or first_diff(w.tolist(), want, rel=1e-9):
                return ctx.fail(f"{what}: {first_diff(w.tolist(), want, rel=1e-9)}")
            for z in (1.0, 0.5, 0.0, -0.25):
                d = W.time_decay(np.array(want), z)
                if first_diff(d.tolist(), L.decay(want, z), rel=1e-6, ab=1e-9):
                    return ctx.fail(f"{what}: decay to {z}: {first_diff(d.tolist(), L.decay(want, z), rel=1e-6, ab=1e-9)}")
            lab = [(-1, 1, 1, 0, -1)[i % 5] for i in range(n)]
            got = W.class_balance_weights(np.array(lab, dtype=np.int8), np.array(want))
            exp = L.balance(lab, want)
            for x, y in zip(got, exp):
                if first_diff(x.tolist(), y, rel=1e-6):
                    return ctx.fail(f"{what}: class balance {first_diff(x.tolist(), y, rel=1e-6)}")
        else:
            m = 3 * n + 1
            px = np.array([100.0 * 1.02 ** (i % 3 - (i // 3) % 2) for i in range(m)])
            for th in (np.array([0.03]), np.full(m, 0.03)):
                r = ctx.call(cusum_filter, px, th)
                want, p, q = [], 0.0, 0.0
                lr = [0.0] + [np.log(b / a) for a, b in zip(px, px[1:])]
                for i in range(1, m):
                    p, q = max(0.0, p + lr[i]), min(0.0, q + lr[i])
                    if q < -0.03:
                        q = 0.0
                        want.append(i)
                    elif p > 0.03:
                        p = 0.0
                        want.append(i)
                if isinstance(r, Raised) or r.tolist() != want:
                    return ctx.fail(f"{what}: {r if isinstance(r, Raised) else len(r)} events, expected {len(want)}")
    ctx.run(itertools.product(sizes(ctx), ("touch after n bars", "events", "long label", "many labels", "filter")), body)


# ---------------------------------------------------------------------------------------------------------- features
WINDOWED = ("window", "periods", "length", "span", "recent_periods")


def widen(f, p, w):
    """the parameters with the window set to w"""
    if f.gaps or f.gen:
        return None
    k = next((k for k in WINDOWED if k in p), None)
    return None if k is None else dict(p, **{k: w})


def series(f, n, pat):
    rows = [r for r in f.rows if not (feat.nan(r) if not isinstance(r, tuple) else any(map(feat.nan, r)))]
    miss = [r for r in f.rows if r not in rows]
    m = (len(rows), max(2, len(rows) - 1), len(rows))[pat]
    s = [rows[(i * i + 3 * i // 2 + pat) % m] for i in range(n)]
    if pat == 2 and miss and not f.nonan:
        for i in range(5, n, 97):
            s[i] = miss[0]
    return tuple(s)


def feature_sizes(ctx, core_only):
    def gen():
        for f in feat.TABLE.values():
            if f.gaps or f.gen or core_only and not f.core:
                continue
            for n in small(ctx, 99, 257 if core_only else 129):
                for pat in range(3) if not core_only else (0, 2):
                    yield f.name, n, pat

    def body(case):
        name, n, pat = case
        f = feat.TABLE[name]
        ctx.state(case)
        w = n
        ps = list({repr(widen(f, p, w)): widen(f, p, w) for p in f.params if widen(f, p, w)}.values())[:2]
        for p in list(f.params[:1] + f.params[-1:]) + ps:
            m = n + 3 if p in ps else n
            rows = series(f, m, pat)
            ts = tuple(T0 + 60 * NS * i for i in range(m))
            cols = feat.columns(f, rows)
            exp = f.oracle(p, cols, ts)
            if name == "PriceVolumeCorrelation":
                exp[0][4:10] = [feat.ANY] * 6               # the recorded shortcut of C28
            ctx.trans(m)
            ctx.outcome(name, n, feat._r(exp[0][-1]))
            if f.core:
                ctx.trace()
                if not feat.compare(ctx, f, p, feat.run_core(ctx, f, p, rows, ts), exp, cols, f"on {m} rows, pattern {pat}", "core"):
                    return
            if f.cls and not core_only:
                t = ctx.call(f.transform, p)
                df = feat.frame(f, rows, ts)
                for be in ("nb", "pd") if f.pd else ("nb",):
                    ctx.trace()
                    if not feat.compare(ctx, f, p, feat.outs(t if isinstance(t, Raised) else ctx.call(t, df, backend=be)), exp, cols,
                                        f"{be} on {m} rows, pattern {pat}", be):
                        return
    ctx.run(gen(), body, group=(lambda c: c[0]) if core_only else None)


@phase("features")
def features(ctx):
    feature_sizes(ctx, False)


@phase("features-jit", jit=True, shards=4, threads=2)
def features_jit(ctx):
    feature_sizes(ctx, True)


@phase("kits")
def kits(ctx):
    """kits of n features on n columns keep all of them, in order"""
    from finmlkit.feature.kit import Feature, FeatureKit
    from finmlkit.feature import transforms as T

    def body(case):
        n, order = case
        ctx.state(case)
        ctx.trace()
        ctx.trans(n)
        ctx.outcome(n)
        df = pd.DataFrame({f"c{i}": [float(i), float(i + 1), float(2 * i)] for i in range(n)}, index=pd.to_datetime([T0, T0 + NS, T0 + 2 * NS]))
        k = FeatureKit([Feature(T.Lag(1, f"c{i}")) * 2.0 for i in range(n)], retain=[f"c{i}" for i in range(0, n, 2)])
        r = ctx.call(k.build, df, order=order)
        if isinstance(r, Raised):
            return ctx.fail(f"kit of {n} features: {r}")
        want = [f"c{i}" for i in range(0, n, 2)] + [f.name for f in k.features]
        if list(r.columns) != want or any(r[f.name].tolist()[1:] != [2.0 * i, 2.0 * (i + 1)] for i, f in enumerate(k.features)):
            ctx.fail(f"kit of {n} features: columns {list(r.columns)[:4]}..., expected {want[:4]}...")
    ctx.run(itertools.product([n for n in CORE if n <= (129 if not ctx.thorough else 1025)], ("defined", "topo")), body)


# ---------------------------------------------------------------------------------------------------------- stores
@phase("stores", jit=True, shards=2, threads=2)
def stores(ctx):
    """n trades, n seconds, n months through the stores"""
    from finmlkit.bar.data_model import TradesData
    from finmlkit.bar.io import AddTimeBarH5, H5Inspector, TimeBarReader

    def body(case):
        kind, n = case
        ctx.state(case)
        ctx.trans(n)
        ctx.trace()
        ctx.outcome(n)
        path = os.path.join(os.environ["MC_SCRATCH"], f"c42_{os.getpid()}.h5")
        if os.path.exists(path):
            os.unlink(path)
        try:
            if kind == "trades":
                ts, px, qty, side = trades(n, 0, 37_000_000)
                ids = range(n)
            elif kind == "seconds":
                ts, px, qty, side = trades(2, 0, n * NS)
                ids = range(2)
            else:
                ts = [pd.Timestamp("2020-01-15 12:00") + pd.DateOffset(months=i) for i in range(n)]
                ts = [t.value + 1 for t in ts]
                _, px, qty, side = trades(n, 0)
                ids = range(n)
            def store():
                for part in [slice(i, i + 1) for i in range(n)] if kind == "months" else [slice(None)]:
                    TradesData(np.array(ts[part], dtype=np.int64), np.array(px[part]), np.array(qty[part]), np.array(ids[part], dtype=np.int64),
                               is_buyer_maker=np.array([s < 0 for s in side[part]]), timestamp_unit="ns", preprocess=True,
                               name="x").save_h5(path, chunksize=128 if n < 1100 else 1_000_000)
            r = ctx.call(store)
            if isinstance(r, Raised):
                return ctx.fail(f"{n} {kind}: {r}")
            back = ctx.call(TradesData.load_trades_h5, path)
            if isinstance(back, Raised) or back.data.timestamp.tolist() != ts or back.data.price.tolist() != px or back.data.amount.tolist() != qty \
                    or back.data.side.tolist() != side:
                return ctx.fail(f"{n} {kind} stored and loaded: {back if isinstance(back, Raised) else len(back.data)}")
            if kind == "months" and len(H5Inspector(path).list_keys()) != n:
                return ctx.fail(f"{n} months stored: keys {H5Inspector(path).list_keys()}")
            b = ctx.call(lambda: AddTimeBarH5(path).process_all(overwrite=True))
            if isinstance(b, Raised) or not all(b.values()):
                return ctx.fail(f"bars of {n} {kind}: {b}")
            for tf in ("1s", "1min", "1h"):
                d = ctx.call(lambda: TimeBarReader(path).read(timeframe=tf))
                if isinstance(d, Raised) or not close(float(d.volume.sum()), sum(qty), 1e-6) or int(d.trades.sum()) != len(qty):
                    return ctx.fail(f"{n} {kind} in {tf} bars: {d if isinstance(d, Raised) else (float(d.volume.sum()), int(d.trades.sum()))}, "
                                    f"expected {sum(qty), len(qty)}")
        finally:
            if os.path.exists(path):
                os.unlink(path)
    ctx.run([("trades", n) for n in sizes(ctx, 2)] + [("seconds", n) for n in sizes(ctx, 2)] + [("months", n) for n in ((2, 13, 25) if not ctx.thorough else (2, 12, 13, 25, 37))], body)
