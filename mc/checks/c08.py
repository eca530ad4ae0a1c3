"""C08: slicing, indexing, casting and exporting a footprint container never mixes, drops or alters bars."""
import itertools

import numpy as np
import pandas as pd

from mc.bars import *
from mc.core import phase, first_diff, Raised

BOUNDS = ("containers of 1..4 bars with every assignment of level counts from {1,2,3}; every slice start:stop:step in [-5,5], every "
          "integer index, every date-range slice between/at/outside the bar times (str and datetime), also to the nanosecond, texts naming a whole month, day, hour or minute, and every operation "
          "sequence of length <= 3 over {cast_to_numpy, cast_to_numba_list, slice, int index, date slice, get_df}")
ASSUMPTIONS = ["bar timestamps are strictly increasing, as for any bar type without same-timestamp bars"]

ARR = ["price_levels", "buy_volumes", "sell_volumes", "buy_ticks", "sell_ticks", "buy_imbalances", "sell_imbalances"]
SC = ["cot_price_levels", "sell_imbalances_sum", "buy_imbalances_sum", "imb_max_run_signed", "vp_skew", "vp_gini"]
STEP = 60 * NS


def make(counts):
    """the model of a container is a list of bars (dicts); the real one is built from it"""
    bars = []
    for k, n in enumerate(counts):
        bars.append(dict(bar_timestamps=T0 + k * STEP, price_levels=list(range(10 + k, 10 + k + n)),
                         buy_volumes=[k + i + 0.5 for i in range(n)], sell_volumes=[2 * k + i + 0.25 for i in range(n)],
                         buy_ticks=[k + 1 + i for i in range(n)], sell_ticks=[3 * k + 2 + i for i in range(n)],
                         buy_imbalances=[(k + i) % 2 == 0 for i in range(n)], sell_imbalances=[(k + i) % 3 == 0 for i in range(n)],
                         cot_price_levels=10 + k, sell_imbalances_sum=k + 3, buy_imbalances_sum=k + 7, imb_max_run_signed=k - 2,
                         vp_skew=0.25 * k, vp_gini=0.125 * k))
    return bars


def build(bars, numba=True, optional=True):
    from finmlkit.bar.data_model import FootprintData
    dts = dict(price_levels=np.int32, buy_volumes=np.float32, sell_volumes=np.float32, buy_ticks=np.int32, sell_ticks=np.int32,
               buy_imbalances=np.bool_, sell_imbalances=np.bool_)
    from numba.typed import List as NumbaList
    kw = {a: [np.array(b[a], dtype=dts[a]) for b in bars] for a in ARR}
    if numba:
        kw = {a: NumbaList(v) for a, v in kw.items()}
    if optional:
        kw.update({a: np.array([b[a] for b in bars]) for a in SC})
    return FootprintData(bar_timestamps=np.array([b["bar_timestamps"] for b in bars], dtype=np.int64), price_tick=0.5, **kw)


def same(fp, bars, optional=True):
    if len(fp) != len(bars):
        return f"{len(fp)} bars, expected {len(bars)}"
    if [int(t) for t in fp.bar_timestamps] != [b["bar_timestamps"] for b in bars]:
        return f"timestamps {list(fp.bar_timestamps)}"
    if not fp.is_valid() or fp.price_tick != 0.5:
        return "container reports itself invalid"
    for a in ARR:
        v = getattr(fp, a)
        if len(v) != len(bars):
            return f"{a}: {len(v)} entries"
        for k, b in enumerate(bars):
            x = np.asarray(v[k])
            if x.ndim != 1 or x.dtype == object:
                return f"{a}[{k}] is no longer a plain array: dtype {x.dtype}, ndim {x.ndim}"
            d = first_diff(x, b[a])
            if d:
                return f"{a}[{k}]: {d}"
    if optional:
        for a in SC:
            d = first_diff(getattr(fp, a), [b[a] for b in bars])
            if d:
                return f"{a}: {d}"
    return None


def ref_df(bars):
    rows = []
    for k, b in enumerate(bars):
        for i in range(len(b["price_levels"]) - 1, -1, -1):
            rows.append((k, b["bar_timestamps"], b["price_levels"][i] * 0.5, b["sell_ticks"][i], b["buy_ticks"][i],
                         b["sell_volumes"][i], b["buy_volumes"][i], b["sell_imbalances"][i], b["buy_imbalances"][i]))
    return rows


def same_df(df, bars):
    want = ref_df(bars)
    if list(df.columns) != ["price_level", "sell_ticks", "buy_ticks", "sell_volume", "buy_volume", "sell_imbalance", "buy_imbalance"]:
        return f"columns {list(df.columns)}"
    got = [(ix[0], ix[1].value) + tuple(r) for ix, r in zip(df.index, df.itertuples(index=False))]
    return None if got == want else f"frame rows {got[:6]} != expected {want[:6]}"


def all_counts(nmax):
    for n in range(1, nmax + 1):
        yield from itertools.product((1, 2, 3), repeat=n)


def run_slices(ctx, nmax):
    def body(counts):
        bars = make(counts)
        for numba in (True, False):
            fp = build(bars, numba)
            ctx.state("c", counts, numba)
            for i in range(-5, 6):
                r = ctx.call(lambda: fp[i])
                ctx.trans()
                ok = -len(bars) <= i < len(bars)
                if ok:
                    d = same(r, [bars[i]]) if not isinstance(r, Raised) else repr(r)
                    if d:
                        ctx.fail(f"[{i}] of {len(bars)} bars: {d}")
                        return
                elif not isinstance(r, Raised):
                    ctx.fail(f"[{i}] of {len(bars)} bars returned {len(r)} bars")
                    return
            for st in (None,) + tuple(range(-3, 5)):
                for sp in (None,) + tuple(range(-3, 6)):
                    for step in (None, 2, -1):
                        if numba and step is not None and len(counts) == 4:
                            continue
                        r = ctx.call(lambda: fp[slice(st, sp, step)])
                        ctx.trans()
                        want = bars[slice(st, sp, step)]
                        if isinstance(r, Raised):
                            ctx.fail(f"[{st}:{sp}:{step}]: {r}")
                            return
                        if want:
                            d = same(r, want)
                            if d:
                                ctx.fail(f"[{st}:{sp}:{step}]: {d}")
                                return
                        elif len(r) != 0:
                            ctx.fail(f"[{st}:{sp}:{step}]: expected no bars")
                            return
            if same(fp, bars):
                ctx.fail("slicing changed the container: " + same(fp, bars))
        ctx.trace()
    ctx.run(all_counts(nmax), body)


def cuts(n):
    for k in range(n):
        for d in (-STEP // 2, 0, STEP // 2):
            yield T0 + k * STEP + d


def run_dates(ctx, nmax):
    def body(counts):
        bars = make(counts)
        fp = build(bars)
        for a, b in itertools.product(list(cuts(len(counts))), repeat=2):
            if a > b:
                continue
            inside = [x for x in bars if a <= x["bar_timestamps"] <= b]
            for conv, step in ((lambda t: pd.Timestamp(t).to_pydatetime(), None), (lambda t: str(pd.Timestamp(t)), None), (pd.Timestamp, 1), (pd.Timestamp, 2), (str, 3)):
                conv = (lambda t: str(pd.Timestamp(t))) if conv is str else conv
                want = inside[::step]
                r = ctx.call(lambda: fp[conv(a):conv(b):step])
                ctx.trans()
                if isinstance(r, Raised):
                    ctx.fail(f"[{conv(a)}:{conv(b)}:{step}]: {r}")
                    return
                d = same(r, want) if want else (None if len(r) == 0 else "expected no bars")
                if d:
                    ctx.fail(f"[{conv(a)}:{conv(b)}:{step}]: {d}")
                    return
        ctx.state("d", counts)
        ctx.trace()
    ctx.run(all_counts(nmax), body)


@phase("days")
def days(ctx):
    """texts of lower resolution cover the whole day, hour or month they name"""
    day, hour = 86_400 * NS, 3_600 * NS
    start = pd.Timestamp("2023-11-29").value

    def gen():
        for n in range(1, 6 if ctx.thorough else 5):
            yield from ((o, n, gap) for o in (0, 6 * hour, day - 1) for gap in (12 * hour, day, 11 * day))

    def spans():
        """text -> first and last nanosecond"""
        for k in range(-1, 48, 1):
            t = pd.Timestamp(start + k * day)
            yield str(t.date()), t.value, t.value + day - 1
        for h in range(0, 60, 6):
            t = pd.Timestamp(start + h * hour)
            yield t.strftime("%Y-%m-%d %H"), t.value, t.value + hour - 1
            yield t.strftime("%Y-%m-%d %H:%M"), t.value, t.value + 60 * NS - 1
        for m in ("2023-11", "2023-12", "2024-01"):
            yield m, pd.Timestamp(m).value, (pd.Timestamp(m) + pd.DateOffset(months=1)).value - 1

    def body(case):
        o, n, gap = case
        bars = make([1 + k % 3 for k in range(n)])
        for k, x in enumerate(bars):
            x["bar_timestamps"] = start + o + k * gap
        fp = build(bars, n % 2 == 0)
        sp = list(spans())
        first = {}
        for t, a, b in sp:      # one text for every set of bars it can select at either end
            first.setdefault((t.count("-"), t.count(":"), " " in t, sum(x["bar_timestamps"] < a for x in bars), sum(x["bar_timestamps"] <= b for x in bars)), (t, a, b))
        for (s, a, _), (e, _, b) in itertools.product(first.values(), repeat=2):
            if a > b:
                continue
            want = [x for x in bars if a <= x["bar_timestamps"] <= b]
            r = ctx.call(lambda: fp[s:e])
            ctx.trans()
            ctx.trace()
            if isinstance(r, Raised):
                return ctx.fail(f"bars at {o} + k*{gap}: [{s!r}:{e!r}]: {r}")
            d = same(r, want) if want else (None if len(r) == 0 else "expected no bars")
            if d:
                return ctx.fail(f"bars at {[str(pd.Timestamp(x['bar_timestamps'])) for x in bars]}: [{s!r}:{e!r}]: {d}")
        ctx.state("day", case)
    ctx.run(gen(), body)


OPS = ("numpy", "numba", "s1:", "s:-1", "i0", "date", "df")


def run_ops(ctx, depth, counts_list):
    def gen():
        for counts in counts_list:
            for ops in itertools.product(OPS, repeat=depth):
                for numba in (True, False):
                    yield counts, ops, numba

    def body(case):
        counts, ops, numba = case
        bars = make(counts)
        fp = build(bars, numba)
        for op in ops:
            if not bars:
                break
            if op == "numpy":
                fp.cast_to_numpy()
            elif op == "numba":
                fp.cast_to_numba_list()
            elif op == "s1:":
                fp, bars = fp[1:], bars[1:]
            elif op == "s:-1":
                fp, bars = fp[:-1], bars[:-1]
            elif op == "i0":
                fp, bars = fp[0], bars[:1]
            elif op == "date":
                t = bars[-1]["bar_timestamps"]
                fp, bars = fp[str(pd.Timestamp(T0)):str(pd.Timestamp(t - 1))], bars[:-1]
            else:
                d = same_df(fp.get_df(), bars)
                if d:
                    ctx.fail(f"after {ops}: {d}")
                    return
            ctx.trans()
            if not bars:
                ctx.expect(len(fp) == 0, f"after {op}: expected no bars")
                break
            d = same(fp, bars)
            if d:
                ctx.fail(f"after {op} of {ops}: {d}")
                return
            ctx.state(tuple(b["bar_timestamps"] for b in bars), counts, op)
        else:
            d = same_df(fp.get_df(), bars)
            ctx.expect(d is None, f"after {ops}: {d}")
        ctx.trace()
    ctx.run(gen(), body)


@phase("slices")
def slices(ctx):
    run_slices(ctx, 4)


@phase("dates")
def dates(ctx):
    run_dates(ctx, 4 if ctx.thorough else 3)


@phase("ops")
def ops(ctx):
    cl = [(1,), (2, 2), (1, 3), (2, 1, 2), (3, 3, 3)]
    run_ops(ctx, 2, cl)
    run_ops(ctx, 3, cl if ctx.thorough else [(2, 2), (2, 1, 2), (3, 3, 3)])


@phase("from_numba")
def from_numba(ctx):
    """the container built from the footprint kernel's tuple holds exactly the kernel's arrays"""
    from finmlkit.bar.data_model import FootprintData

    def body(counts):
        bars = make(counts)
        data = [np.array([b["bar_timestamps"] for b in bars])] + \
            [[np.array(b[a]) for b in bars] for a in ARR] + \
            [np.array([b[a] for b in bars]) for a in ("buy_imbalances_sum", "sell_imbalances_sum", "cot_price_levels",
                                                       "imb_max_run_signed", "vp_skew", "vp_gini")]
        fp = FootprintData.from_numba(tuple(data), 0.5)
        d = same(fp, bars) or same_df(fp.get_df(), bars)
        ctx.trace()
        ctx.trans(len(bars))
        ctx.state("n", counts)
        ctx.expect(d is None, d)
        data[3] = data[3][:-1]
        bad = ctx.call(FootprintData.from_numba, tuple(data), 0.5)
        ctx.expect(isinstance(bad, Raised) and isinstance(bad.exc, ValueError), f"inconsistent lengths accepted: {bad!r:.100}")
    ctx.run(all_counts(4), body)


@phase("jit", jit=True, shards=1)
def jit(ctx):
    run_ops(ctx, 2, [(2, 2), (1, 3), (2, 1, 2)])
    run_slices(ctx, 1)


@phase("nanoseconds")
def nanoseconds(ctx):
    """date ranges are exact to the nanosecond"""
    def body(case):
        n, step, numba = case
        bars = make([1 + k % 3 for k in range(n)])
        for k, x in enumerate(bars):
            x["bar_timestamps"] = T0 + 999 + k * step
        fp = build(bars, numba)
        pts = sorted({x["bar_timestamps"] + d for x in bars for d in (-1, 0, 1)})
        for a, b in itertools.combinations_with_replacement(pts, 2):
            for conv in (pd.Timestamp, lambda t: str(pd.Timestamp(t)) if t % 1000 else pd.Timestamp(t)):    # (a text without nanoseconds names its whole microsecond)
                want = [x for x in bars if a <= x["bar_timestamps"] <= b]
                r = ctx.call(lambda: fp[conv(a):conv(b)])
                ctx.trans()
                d = repr(r) if isinstance(r, Raised) else same(r, want) if want else (None if len(r) == 0 else "expected no bars")
                if d:
                    ctx.fail(f"[{conv(a)}:{conv(b)}] of bars at {[x['bar_timestamps'] for x in bars]}: {d}")
                    return
        ctx.state(case)
        ctx.trace()
    ctx.run(itertools.product((1, 2, 3), (1, 2, 500, 1000), (True, False)), body)
