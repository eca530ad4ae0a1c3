"""C16: stored 1-second bars equal the bars of the stored trades; reading and resampling neither loses nor invents activity."""
import itertools
import os
import shutil

import numpy as np
import pandas as pd

from mc.bars import NS
from mc.core import phase, close, Raised

BOUNDS = ("every trade layout of <= 5 trades over a 12 s window (and around midnight, over two months), every (start, end) on the 1-s grid "
          "(quick: on a sub-grid), 7 timeframes; days of bars in periods of 1 h to 3 days; every history of <= 4 store operations (save, re-save, build bars with/without overwrite, "
          "by month or by key, process_all)")
ASSUMPTIONS = ["bars are built by TimeBarKit (its exactness is C01/C02)", "vwap and median are stored as float32: relative tolerance 2e-6"]
JAN = pd.Timestamp("2022-01-10 00:00:00").value
MID = pd.Timestamp("2022-02-01 00:00:00").value
COLS = ["open", "high", "low", "close", "volume", "trades", "vwap", "median_trade_size"]


def td_of(rows):
    from finmlkit.bar.data_model import TradesData
    a = list(zip(*rows))
    return TradesData(np.array(a[0], dtype=np.int64), np.array(a[1]), np.array(a[2]), np.arange(len(rows)),
                      is_buyer_maker=np.array([i % 2 == 0 for i in range(len(rows))]), timestamp_unit="ns", preprocess=True)


def bars_of(rows):
    from finmlkit.bar.kit import TimeBarKit
    return TimeBarKit(td_of(rows), pd.Timedelta(seconds=1)).build_ohlcv()


def rows_at(half_seconds, base, k0=0):
    return [(base + h * NS // 2, 100.0 + ((i + k0) * 3) % 5, float(1 + ((i + k0) * 5) % 7), 1) for i, h in enumerate(half_seconds)]


def rowlist(df):
    return [(t,) + tuple(float(x) for x in r) for t, r in zip(df.index.view("int64").tolist(), df[COLS].itertuples(index=False))]


def same_rows(got, exp, rel=2e-6):
    return len(got) == len(exp) and all(g[0] == e[0] and all(close(x, y, rel, 1e-9) for x, y in zip(g[1:], e[1:])) for g, e in zip(got, exp))


def ref_resample(rows, period):
    """group 1-s bars by floor(label, period), one bar at a time"""
    groups = []
    for r in rows:
        g = r[0] // period * period
        if not groups or groups[-1][0] != g:
            groups.append((g, []))
        groups[-1][1].append(r)
    out = []
    for g, rs in groups:
        vol = sum(r[5] for r in rs)
        vwap = sum(r[7] * r[5] for r in rs) / vol if vol else float("nan")
        by = sorted((r[8] if r[8] == r[8] else float("inf"), r[6]) for r in rs)
        half, cum, med = sum(w for _, w in by) / 2, 0.0, float("nan")
        for size, w in by:
            cum += w
            if cum >= half:
                med = size
                break
        out.append((g, rs[0][1], max(r[2] for r in rs), min(r[3] for r in rs), rs[-1][4], vol, sum(r[6] for r in rs), vwap, med))
    return out


def within(rows, a, b):
    return [r for r in rows if (a is None or r[0] >= a) and (b is None or r[0] <= b)]


TF = {"2s": 2, "3s": 3, "5s": 5, "10s": 10, "1min": 60, "1h": 3600}


def store(ctx, d, rowsets):
    from finmlkit.bar.io import AddTimeBarH5
    path = os.path.join(d, "s.h5")
    for rows in rowsets:
        td_of(rows).save_h5(path)
    res = AddTimeBarH5(path).process_all()
    if not all(res.values()) or len(res) != len(rowsets):
        ctx.fail(f"process_all: {res}")
    return path


def med_ok(rows):
    """medians of tied ranks are order dependent only through equal values, so they are comparable"""
    return True


@phase("window")
def window(ctx):
    from finmlkit.bar.io import TimeBarReader
    layouts = [c for n in (2, 3) for c in itertools.combinations((1, 3, 4, 9, 16, 23), n)] + [(1, 2, 3, 9, 17), (2, 2, 7, 8, 20), (0, 5, 5, 5, 6)]

    def body(case):
        d = os.path.join(os.environ["MC_SCRATCH"], f"w{os.getpid()}_{ctx.index}")
        os.makedirs(d)
        try:
            rows = rows_at(case, JAN)
            try:
                path = store(ctx, d, [rows])
            except Exception as e:      # noqa: BLE001
                return ctx.fail(f"storing bars of trades at half-seconds {case}: {e!r}")
            ones = rowlist(bars_of(rows))
            rd = TimeBarReader(path)
            pts = [None] + list(range(1 if ctx.thorough else 2, 14, 1 if ctx.thorough else 3))
            for a in pts:
                for b in pts:
                    if a is not None and b is not None and b < a:
                        continue
                    ta = None if a is None else JAN + a * NS
                    tb = None if b is None else JAN + b * NS
                    exp = within(ones, ta, tb)
                    for tf in [None] + list(TF):
                        if tf and tf not in ("2s", "5s", "1min") and not ctx.thorough:
                            continue
                        kw = dict(start_time=None if a is None else pd.Timestamp(ta), end_time=None if b is None else str(pd.Timestamp(tb)))
                        got = ctx.call(lambda: rd.read(timeframe=tf, **kw))
                        e = exp if tf is None else ref_resample(exp, TF[tf] * NS)
                        ctx.trace()
                        ctx.trans()
                        ctx.state(case, tf, len(e))
                        ctx.outcome(tf, len(e))
                        if isinstance(got, Raised):
                            if e:
                                ctx.fail(f"read({kw}, {tf}) of trades at {case}: {got!r}")
                            continue
                        g = rowlist(got) if len(got) else []
                        if not same_rows(g, e):
                            ctx.fail(f"read({kw}, {tf}) of trades at half-seconds {case}: {g}\nexpected {e}")
        finally:
            shutil.rmtree(d, ignore_errors=True)
    ctx.run(layouts, body)


@phase("months")
def months(ctx):
    """data around a month end: reads across partitions, date-only ends, daily bars"""
    from finmlkit.bar.io import TimeBarReader
    pre = [(-17, -9, -3, -1), (-20, -12, -8), (-5, -4, -2)]
    post = [(0, 3, 8), (1, 2, 12), (5, 9, 10), None]

    def body(case):
        p, q = case
        d = os.path.join(os.environ["MC_SCRATCH"], f"m{os.getpid()}_{ctx.index}")
        os.makedirs(d)
        try:
            sets = [rows_at(p, MID)] + ([rows_at(q, MID, 3)] if q else [])
            path = store(ctx, d, sets)
            ones = [r for s in sets for r in rowlist(bars_of(s))]
            rd = TimeBarReader(path)
            ts = [r[0] for r in ones]
            lo, hi = rd._list_time_range() if hasattr(rd, "_list_time_range") else (None, None)
            if lo is not None and (lo.value, hi.value) != (min(ts), max(ts)):
                ctx.fail(f"time range {lo} .. {hi} for bars {min(ts)} .. {max(ts)}")
            for a in (None, -10, -4, 0, 2):
                for b in (None, -6, -1, 1, 4):
                    if a is not None and b is not None and b < a:
                        continue
                    ta, tb = (None if x is None else MID + x * NS for x in (a, b))
                    for tf in (None, "5s", "1h"):
                        e = within(ones, ta, tb)
                        if tf:
                            e = ref_resample(e, TF[tf] * NS)
                        if tf and len(set(r[0] for r in e)) != len(e):
                            continue
                        got = ctx.call(lambda: rd.read(None if a is None else str(pd.Timestamp(ta)), None if b is None else pd.Timestamp(tb), tf))
                        ctx.trace()
                        ctx.trans()
                        ctx.state(case, tf, len(e))
                        if isinstance(got, Raised):
                            if e:
                                ctx.fail(f"read {a}..{b} {tf} around month end, trades {case}: {got!r}")
                            continue
                        g = rowlist(got) if len(got) else []
                        if not same_rows(g, e):
                            ctx.fail(f"read {a}..{b} {tf} around month end, trades {case}: {g}\nexpected {e}")
            for start in (None, "2022-01-31", "2022-02-01"):
                for end in ("2022-01-31", "2022-02-01"):
                    if start == "2022-02-01" and end == "2022-01-31":
                        continue
                    ta = None if start is None else pd.Timestamp(start).value
                    day = pd.Timestamp(end).value
                    e = within(ones, ta, day + 86400 * NS - 1000)
                    got = ctx.call(lambda: rd.read(start, end))
                    ctx.trace()
                    g = [] if isinstance(got, Raised) or not len(got) else rowlist(got)
                    if not same_rows(g, e):
                        ctx.fail(f"read({start}, {end}): {g if not isinstance(got, Raised) else got}\nexpected every bar of the days, {e}")
                    for tf, per in (("1D", 86400), ("2h", 7200)):
                        x = ref_resample(e, per * NS)
                        if tf == "1D" and x:
                            complete = e[-1][0] == x[-1][0] + 86399 * NS
                            partial = ts[-1] < x[-1][0] + 86399 * NS
                            if not complete and not partial:
                                continue
                            if not complete:
                                x = x[:-1]
                        got = ctx.call(lambda: rd.read(start, end, tf))
                        ctx.trace()
                        if isinstance(got, Raised):
                            if x:
                                ctx.fail(f"read({start}, {end}, {tf}): {got!r}")
                            continue
                        g = rowlist(got) if len(got) else []
                        ctx.outcome(start, end, tf, len(g))
                        if not same_rows(g, x):
                            ctx.fail(f"read({start}, {end}, {tf}): {g}\nexpected {x}")
        finally:
            shutil.rmtree(d, ignore_errors=True)
    ctx.run(itertools.product(pre, post), body)


@phase("histories")
def histories(ctx):
    """bars follow the documented skip / overwrite protocol under every operation history"""
    from finmlkit.bar.io import AddTimeBarH5, TimeBarReader
    v = {("01", 0): rows_at((1, 3, 8), JAN), ("01", 1): rows_at((2, 9, 14, 15), JAN, 2), ("02", 0): rows_at((4, 7), MID, 1)}
    ops = [("save", "01", 0), ("save", "01", 1), ("save", "02", 0), ("key", "/trades/2022-01", False), ("key", "2022-01", True),
           ("key", "2022-02", False), ("all", None, False), ("all", None, True), ("keys", ["2022-01"], False), ("keys", ["2022-02", "2022-01"], False),
           ("other", "2022-02", True)]

    def gen():
        for n in (2, 3) if not ctx.thorough else (2, 3, 4):
            for rest in itertools.product(ops, repeat=n):
                yield (ops[0],) + rest

    def body(hist):
        d = os.path.join(os.environ["MC_SCRATCH"], f"x{os.getpid()}_{ctx.index}")
        os.makedirs(d)
        path = os.path.join(d, "s.h5")
        trades, klines = {}, {}
        try:
            for i, (op, arg, flag) in enumerate(hist):
                ctx.trans()
                if op == "save":
                    td_of(v[(arg, flag)]).save_h5(path)
                    trades["2022-" + arg] = (arg, flag)
                    continue
                want = sorted(trades) if op == "all" else arg if op == "keys" else [arg.split("/")[-1]]
                absent = [m for m in want if m not in trades]

                def act():
                    if op == "key":
                        return AddTimeBarH5(path).process_key(arg, flag)
                    if op == "other":       # a processor set up for another month
                        return AddTimeBarH5(path, ["2022-01"]).process_key(arg, flag)
                    return AddTimeBarH5(path, arg).process_all(flag)
                r = ctx.call(act)
                ctx.trace()
                if absent:
                    if not isinstance(r, Raised):
                        ctx.fail(f"{hist[:i + 1]}: building bars of a month that is not stored gave {r!r}")
                    continue
                if isinstance(r, Raised):
                    return ctx.fail(f"{hist[:i + 1]}: {r!r}")
                done = {m: flag or m not in klines for m in want}
                for m in want:
                    if done[m]:
                        klines[m] = trades[m]
                exp = done[want[0]] if op in ("key", "other") else {"/trades/" + m: s for m, s in done.items()}
                if r != exp:
                    ctx.fail(f"{hist[:i + 1]}: result {r!r}, expected {exp!r}")
            ctx.state(tuple(sorted(trades.items())), tuple(sorted(klines.items())))
            ctx.outcome(tuple(sorted(klines.items())))
            rd = TimeBarReader(path)
            if sorted(rd.list_keys()) != ["/klines/" + m for m in sorted(klines)]:
                ctx.fail(f"{hist}: stored bar keys {rd.list_keys()}, expected months {sorted(klines)}")
            got = ctx.call(rd.read)
            exp = [r for m in sorted(klines) for r in rowlist(bars_of(v[klines[m]]))]
            g = [] if isinstance(got, Raised) or not len(got) else rowlist(got)
            ctx.trace()
            if not same_rows(g, exp):
                ctx.fail(f"{hist}: stored bars {got if isinstance(got, Raised) else g}, bars of the trades stored at build time {exp}")
            for b in sorted({r[0] for r in exp}):        # by range: found through the stored first and last bar
                for kw in (dict(start_time=pd.Timestamp(b)), dict(end_time=str(pd.Timestamp(b + 1)))):
                    got = ctx.call(lambda: rd.read(**kw))
                    ctx.trace()
                    want = within(exp, b if "start_time" in kw else None, b if "end_time" in kw else None)
                    g = [] if isinstance(got, Raised) or not len(got) else rowlist(got)
                    if not same_rows(g, want):
                        ctx.fail(f"{hist}: read({kw}) {got if isinstance(got, Raised) else g}, expected {want}")
            from mc.checks.c13 import rows_of
            from finmlkit.bar.data_model import TradesData
            for m, k in trades.items():
                if [r[0] for r in rows_of(TradesData.load_trades_h5(path, key=m))] != [r[0] for r in v[k]]:
                    ctx.fail(f"{hist}: trades of {m} changed")
        finally:
            shutil.rmtree(d, ignore_errors=True)
    ctx.run(gen(), body)


@phase("days")
def days(ctx):
    """bars of one and of several days: only complete final periods are returned for a date-only end"""
    from finmlkit.bar.io import TimeBarReader
    D = 86400
    lay = [(0, D - 1), (0, D - 2), (0, 2 * D - 1), (0, 2 * D - 2), (3600, D - 1, D + 5), (D - 3, D - 1, 2 * D - 1)]

    def body(sec):
        d = os.path.join(os.environ["MC_SCRATCH"], f"d{os.getpid()}_{ctx.index}")
        os.makedirs(d)
        try:
            rows = [(MID + s * NS + NS // 4, 100.0 + (i * 3) % 5, float(1 + i), 1) for i, s in enumerate(sec)]
            path = store(ctx, d, [rows])
            ones = rowlist(bars_of(rows))
            rd = TimeBarReader(path)
            for end in ("2022-02-01", "2022-02-02", "2022-02-03"):
                e = within(ones, None, pd.Timestamp(end).value + D * NS - 1000)
                for tf, per in (("1D", D), ("1d", D), ("2D", 2 * D), ("2d", 2 * D), ("3D", 3 * D), ("12h", D // 2), ("1h", 3600)):
                    x = ref_resample(e, per * NS)
                    if tf[-1] in "dD" and x and e[-1][0] < x[-1][0] + per * NS - NS:
                        x = x[:-1]
                    for end_ in (end, pd.Timestamp(end)):
                        got = ctx.call(lambda: rd.read("2022-02-01", end_, tf))
                        ctx.trace()
                        ctx.trans()
                        ctx.state(sec, end, tf)
                        ctx.outcome(tf, len(x))
                        g = [] if isinstance(got, Raised) or not len(got) else rowlist(got)
                        if isinstance(got, Raised) or not same_rows(g, x, 1e-5):
                            ctx.fail(f"read('2022-02-01', {end_!r}, {tf!r}) of trades at seconds {sec}: {got if isinstance(got, Raised) else g}, expected {x}")
        finally:
            shutil.rmtree(d, ignore_errors=True)
    ctx.run(lay, body)
