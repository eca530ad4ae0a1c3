"""C27: volume profiles: point of control, value area and share above it come from exactly the volume of their own window."""
import itertools
import math

import numpy as np
import pandas as pd

from mc.core import Raised, close, phase

S = 10 ** 9
T0 = 1_704_067_200 * S
BOUNDS = ("value area: every volume profile of up to 5 levels (thorough: 6) over 4 volumes and 5 value area shares; bucketing: every range of 1 to 40 levels into 1 to 9 bins; "
          "aggregation and rolling profiles: every sequence of up to 4 bars (thorough: 5) over 6 footprints (gaps between levels, no trades) and 3 spacings of bars, 3 windows, 3 bin settings; "
          "developing profiles: the same bars, every start and end; VolumePro.compute and compute_range with integer, text and Timestamp bounds on the same bars")
ASSUMPTIONS = ["windows with traded volume", "volumes exactly representable in float32"]

# footprints: {level: (buy, sell)}
FPS = [
    {100: (4.0, 2.0), 101: (1.0, 0.5)},
    {97: (0.0, 3.0), 98: (0.5, 0.0), 99: (0.0, 0.0), 100: (0.25, 0.25)},
    {103: (2.0, 0.0), 104: (0.0, 8.0), 106: (1.0, 1.0), 105: (0.0, 0.0)},
    {99: (6.5, 0.0)},
    {94: (1.0, 0.0), 95: (0.0, 0.0), 96: (0.0, 0.0), 97: (0.0, 0.0), 98: (0.0, 2.5)},
    {},                                                    # a bar without trades
]


def flt(levels):
    return np.array(levels, dtype=np.float32)


def bars(seq, gaps, tick, u=1.0):
    """(ts, highs, lows, price level arrays, buys, sells, range of each bar in ticks); volumes in units of u"""
    ts, last = [T0], None
    for g in gaps:
        ts.append(ts[-1] + g)
    rng, pl, b, s = [], [], [], []
    for k in seq:
        fp = FPS[k]
        lv = sorted(fp)
        rng.append((lv[0], lv[-1]) if lv else (last, last))
        last = lv[-1] if lv else last
        pl.append(np.array(lv, dtype=np.int32))
        b.append(flt([u * fp[x][0] for x in lv]))
        s.append(flt([u * fp[x][1] for x in lv]))
    return (np.array(ts, dtype=np.int64), np.array([hi * tick for _, hi in rng]), np.array([lo * tick for lo, _ in rng]), pl, b, s, rng)


def profile(seq, rng, idx, u=1.0):
    """volume per level over the full range of the bars idx"""
    lo, hi = min(rng[i][0] for i in idx), max(rng[i][1] for i in idx)
    vol = {x: 0.0 for x in range(lo, hi + 1)}
    for i in idx:
        for x, (b, s) in FPS[seq[i]].items():
            vol[x] += u * (b + s)
    return sorted(vol), [vol[x] for x in sorted(vol)]


def trimmed(levels, vol):
    keep = [i for i, v in enumerate(vol) if v > 0]
    return (levels[keep[0]:keep[-1] + 1], vol[keep[0]:keep[-1] + 1]) if keep else ([], [])


def buckets(levels, vol, n):
    """consecutive buckets of an odd number of levels, from the lowest level; the bucket stands for its middle level.
    A highest level left over when the width divides the range is a bucket of its own."""
    span = levels[-1] - levels[0]
    w = max(1, span // n)
    w += 1 - w % 2
    out = {}
    for x, v in zip(levels, vol):
        k = (x - levels[0]) // w
        own = x == levels[-1] and span % w == 0
        mid = x if own else levels[0] + k * w + (w - 1) // 2
        out[mid] = out.get(mid, 0.0) + v
    for x in range(levels[0], levels[-1], w):
        out.setdefault(x + (w - 1) // 2, 0.0)
    return sorted(out), [out[x] for x in sorted(out)]


def value_area(levels, vol, pct):
    """(poc, high, low): from the first largest level, add the larger of the next two levels above and below (both when equal)
    until the area holds the share"""
    n = len(levels)
    p = max(range(n), key=lambda i: (vol[i], -i))
    hi = lo = p
    cum, thr = vol[p], sum(vol) * (pct / 100.0)
    while cum < thr and (hi < n - 1 or lo > 0):
        up = vol[hi + 1:hi + 3]
        dn = vol[max(0, lo - 2):lo]
        u, d = (sum(up) if up else -1.0), (sum(dn) if dn else -1.0)
        if u >= d:
            hi, cum = hi + len(up), cum + max(u, 0.0)
        if d >= u:
            lo, cum = lo - len(dn), cum + max(d, 0.0)
    return levels[p], levels[hi], levels[lo]


def above(levels, vol, poc):
    t = sum(vol)
    return sum(v for x, v in zip(levels, vol) if x > poc) / t if t > 0 else 0.0


PCTS = (0.0, 30.0, 50.0, 68.34, 90.0)


@phase("value_area")
def value_areas(ctx):
    from finmlkit.feature.core.volume import calc_volume_percentage_above_poc, comp_poc_hva_lva

    def gen():
        for n in range(1, 7 if ctx.thorough else 6):
            for v in itertools.product((0.0, 1.0, 2.5, 4.0), repeat=n):
                if sum(v):
                    yield v
        for n in (6, 7, 8, 9):
            for v in itertools.product((1.0, 4.0), repeat=n):
                yield v

    def body(v):
        ctx.state(v)
        n = len(v)
        u = (1.0, 2.0 ** -20, 2.0 ** 20)[int(sum(v) * 2) % 3]
        v = tuple(x * u for x in v)
        levels = list(range(50, 50 + n)) if sum(v) / u % 2 else list(range(50, 50 + 3 * n, 3))
        arr, vol = np.array(levels, dtype=np.int32), flt(v)
        for pct in PCTS + (100.0,):
            ctx.trace()
            ctx.trans(n)
            r = ctx.call(comp_poc_hva_lva, arr, vol, pct)
            want = value_area(levels, list(v), pct)
            if isinstance(r, Raised) or tuple(int(x) for x in r) != want:
                ctx.fail(f"value area {pct} % of {dict(zip(levels, v))} is {r}, by definition {want}")
                return
            poc, hi, lo = want
            if not lo <= poc <= hi or sum(x for l, x in zip(levels, v) if lo <= l <= hi) < sum(v) * (pct / 100):
                raise AssertionError("oracle")
            ctx.outcome(r)
        for poc in levels + [levels[0] - 1]:
            r = ctx.call(calc_volume_percentage_above_poc, arr, vol, poc)
            if isinstance(r, Raised) or not close(float(r), above(levels, v, poc), 1e-6, 1e-7):
                ctx.fail(f"share above {poc} of {dict(zip(levels, v))} is {r}, by definition {above(levels, v, poc)}")
                return
    ctx.run(gen(), body)


@phase("buckets")
def bucketing(ctx):
    from finmlkit.feature.core.volume import bucket_price_levels

    def gen():
        for n in range(1, 41 if not ctx.thorough else 121):
            for b in range(1, 10):
                for lo in (0, 7, 100, 9999):
                    yield n, b, lo

    def body(case):
        n, b, lo = case
        ctx.state(case)
        ctx.trace()
        ctx.trans(n)
        levels = list(range(lo, lo + n))
        vol = [float(1 + (i * 37) % 64) for i in range(n)]
        r = ctx.call(bucket_price_levels, np.array(levels, dtype=np.int32), flt(vol), b)
        want = buckets(levels, vol, b)
        if isinstance(r, Raised) or (r[0].tolist(), r[1].tolist()) != want:
            ctx.fail(f"buckets of {n} levels from {lo} into {b}: {r}, by definition {want}")
            return
        ctx.outcome(tuple(want[1]))
    ctx.run(gen(), body)


BINS = (None, 2, 3)
UNITS = (1.0, 2.0 ** -20, 2.0 ** 16)     # of volume
SECOND = (S, 1_001_000_000, 67_000_000)   # of time


def scaled(case):
    """(case with its gaps in another unit of time, that unit, unit of volume)"""
    seq, gaps = case
    t = SECOND[(sum(seq) + sum(gaps) // S) % 3]
    return (seq, tuple(g // S * t for g in gaps)), t, UNITS[(2 * sum(seq) + len(seq) + seq[-1]) % 3]


def seqs(thorough):
    for n in (1, 2, 3, 4) + ((5,) if thorough else ()):
        for seq in itertools.product(range(6), repeat=n):
            if seq[0] == 5 or seq.count(5) > 1:
                continue
            if n == 4 and not thorough and (seq[0] + 2 * seq[1] + 3 * seq[2] + seq[3]) % 3:
                continue
            for gaps in itertools.product((S, 2 * S), repeat=n - 1) if n < 4 else [(S,) * (n - 1), (S, 2 * S, 2 * S) + (S,) * (n - 4), (2 * S, S, S) + (2 * S,) * (n - 4)]:
                yield seq, gaps


def rolling_want(seq, ts, rng, w, nb, pct, u=1.0):
    out = []
    for i, t in enumerate(ts):
        if t < ts[0] + w:
            out.append((0, 0, 0, 0.0))
            continue
        lv, vol = profile(seq, rng, [k for k, b in enumerate(ts) if t - w <= b <= t], u)
        if not sum(vol):
            out.append(None)
            continue
        if nb:
            lv, vol = buckets(lv, vol, nb)
        v = value_area(lv, vol, pct)
        out.append(v + (above(lv, vol, v[0]),))
    return out


def match(got, want):
    return all(b is None or (tuple(int(x) for x in a[:3]) == b[:3] and close(float(a[3]), b[3], 1e-5, 1e-6)) for a, b in zip(got, want)) and len(got) == len(want)


@phase("rolling")
def rolling(ctx):
    from finmlkit.feature.core.volume import aggregate_footprint, volume_profile_rolling

    def body(case):
        case, sec, u = scaled(case)
        seq, gaps = case
        ctx.state(case)
        for tick in (1.0,) if sum(seq) % 3 else (0.01,):
            ts, hi, lo, pl, b, s, rng = bars(seq, gaps, tick, u)
            if sum(seq) % 2:
                for i in range(len(seq)):
                    for j in range(i, len(seq)):
                        ctx.trace()
                        ctx.trans(j - i + 1)
                        r = ctx.call(aggregate_footprint, ts, hi, lo, pl, b, s, int(ts[i]) - (i % 2), int(ts[j]) + (j % 2), tick)
                        lv, vol = profile(seq, rng, range(i, j + 1), u)
                        want = [[u * sum(FPS[seq[k]].get(x, (0, 0))[side] for k in range(i, j + 1)) for x in lv] for side in (0, 1)]
                        if isinstance(r, Raised) or [x.tolist() for x in r] != [lv] + want:
                            ctx.fail(f"footprint of bars {i}..{j} of {case}: {r}, by definition {lv} {want}")
                            return
            for w in (sec, 2 * sec, 3 * sec):
                for nb in BINS:
                    pct = PCTS[2:][(sum(seq) + len(seq)) % 3]
                    ctx.trace()
                    ctx.trans(len(seq))
                    r = ctx.call(volume_profile_rolling, ts, hi, lo, pl, b, s, w / S, nb, tick, pct)
                    want = rolling_want(seq, ts.tolist(), rng, w, nb, pct, u)
                    if isinstance(r, Raised) or not match(list(zip(*[x.tolist() for x in r])), want):
                        ctx.fail(f"rolling profile of {case} (volumes in units of {u}) window {w / S} s bins {nb} area {pct}: {r if isinstance(r, Raised) else [x.tolist() for x in r]}, by definition {want}")
                        return
                    ctx.outcome(tuple(want))
    ctx.run(seqs(ctx.thorough), body)


@phase("developing")
def developing(ctx):
    from finmlkit.feature.core.volume import volume_profile_developing

    def body(case):
        case, _, u = scaled(case)
        seq, gaps = case
        ctx.state(case)
        ts, hi, lo, pl, b, s, rng = bars(seq, gaps, 0.5, u)
        spans(ctx, case, volume_profile_developing, ts, hi, lo, pl, b, s, rng, 0.5, u)
    ctx.run(seqs(ctx.thorough), body)


def spans(ctx, case, fn, ts, hi, lo, pl, b, s, rng, tick, u=1.0):
    """volumes are known to 8 decimals (as coded): where that decides between two levels either is accepted"""
    seq, gaps = case
    for i in range(len(seq)):
        for j in range(i, len(seq)):
            for nb in BINS:
                pct = PCTS[1:][(sum(seq) + j) % 4]
                ctx.trace()
                ctx.trans(j - i + 1)
                r = ctx.call(fn, ts, hi, lo, pl, b, s, int(ts[i]) - (j % 2), int(ts[j]) + (i % 2), nb, tick, pct)
                want = []
                for k in range(i, j + 1):
                    lv, vol = trimmed(*profile(seq, rng, range(i, k + 1), u))
                    if not lv:
                        want.append(None)
                        continue
                    one = []
                    for v in (vol, [round(x, 8) for x in vol]):
                        x, v = buckets(lv, v, nb) if nb else (lv, v)
                        one.append(value_area(x, v, pct))
                    want.append(tuple(one[:1 if one[0] == one[1] else 2]))
                if isinstance(r, Raised) or any(len(y) != j + 1 - i for y in r) or r[0].tolist() != ts[i:j + 1].tolist() or any(
                        y is not None and x not in y for x, y in zip(zip(*[y.tolist() for y in r[1:]]), want)):
                    ctx.fail(f"developing profile of bars {i}..{j} of {case} (volumes in units of {u}) bins {nb} area {pct}: {r if isinstance(r, Raised) else [x.tolist() for x in r[1:]]}, by definition {want}")
                    return
                ctx.outcome(tuple(want))


def container(seq, gaps, tick, u=1.0):
    from finmlkit.bar.data_model import FootprintData
    ts, hi, lo, pl, b, s, rng = bars(seq, gaps, tick, u)

    def arr(xs):
        a = np.empty(len(xs), dtype=object)
        for k, x in enumerate(xs):
            a[k] = x
        return a
    z = lambda t: arr([np.zeros(len(x), dtype=t) for x in pl])
    fp = FootprintData(bar_timestamps=ts, price_tick=tick, price_levels=arr(pl), buy_volumes=arr(b), sell_volumes=arr(s), buy_ticks=z(np.int32), sell_ticks=z(np.int32),
                       buy_imbalances=z(np.bool_), sell_imbalances=z(np.bool_))
    return pd.DataFrame({"high": hi, "low": lo}, index=pd.to_datetime(ts)), fp, ts, rng


def prices(want, tick):
    nan = float("nan")
    return [tuple((x * tick if x else nan) for x in v[:3]) + (v[3],) for v in want]


def same(got, want):
    return len(got) == len(want) and all(close(a, b, 1e-9, 1e-9) for g, w in zip(got, want) for a, b in zip(g[:3], w[:3])) and all(
        close(g[3], w[3], 1e-5, 1e-6) for g, w in zip(got, want))


@phase("volume_pro", jit=True, shards=4)
def volume_pro(ctx):
    """the class on real numba lists; ranges start from the first bar within one window before the start"""
    from finmlkit.feature.core.volume import VolumePro

    def gen():
        for seq, gaps in seqs(False):
            if len(seq) > 1 and (len(seq) < 4 or sum(seq) % 4 == 1) and 5 not in seq[1:]:
                yield seq, gaps

    def body(case):
        case, sec, u = scaled(case)
        seq, gaps = case
        ctx.state(case)
        tick = (0.5, 0.01)[len(seq) % 2]
        w = (1 + sum(seq) % 2) * sec
        pct = (50.0, 68.34)[len(seq) % 2]
        vp = VolumePro(pd.Timedelta(w, unit="ns"), n_bins=3, va_pct=pct)
        df, fp, ts, rng = container(seq, gaps, tick, u)
        r = ctx.call(vp.compute, df, fp)
        ctx.trace()
        ctx.trans(len(seq))
        want = prices(rolling_want(seq, ts.tolist(), rng, w, 3, pct, u), tick)
        if isinstance(r, Raised) or not same(list(zip(*[x.tolist() for x in r])), want):
            ctx.fail(f"VolumePro.compute of {case} window {w / S}: {r}, expected {want}")
            return
        from finmlkit.feature.core.volume import volume_profile_developing
        spans(ctx, case, volume_profile_developing, ts, df.high.values, df.low.values, fp.price_levels, fp.buy_volumes, fp.sell_volumes, rng, tick, u)
        for i in range(len(seq)):
            for j in range(i, len(seq)):
                for kind in ("int", "stamp", "text")[(i + j) % 3:][:1 if not ctx.thorough else 3]:
                    a, e = int(ts[i]), int(ts[j])
                    if kind == "stamp":
                        a, e = pd.Timestamp(a), pd.Timestamp(e)
                    elif kind == "text":
                        a, e = str(pd.Timestamp(a)), str(pd.Timestamp(e))
                    df, fp, _, _ = container(seq, gaps, tick, u)
                    ctx.trace()
                    r = ctx.call(vp.compute_range, df, fp, a, e)
                    first = min(k for k in range(len(seq)) if ts[k] >= ts[i] - w)
                    sub = list(range(first, j + 1))
                    exp = prices(rolling_want([seq[k] for k in sub], [int(ts[k]) for k in sub], [rng[k] for k in sub], w, 3, pct, u), tick)
                    if isinstance(r, Raised) or r[0].tolist() != [int(ts[k]) for k in sub] or not same(list(zip(*[x.tolist() for x in r[1:]])), exp):
                        ctx.fail(f"VolumePro.compute_range({a}, {e}) of {case} window {w / S}: {r}, expected {exp}")
                        return
        w2, pct = w + sec, (90.0, 0.0)[sum(seq) // 3 % 2]
        vp.reset_parameters(window_size_sec=w2 / S, va_pct=pct)
        df, fp, ts, rng = container(seq, gaps, tick, u)
        r = ctx.call(vp.compute, df, fp)
        want = prices(rolling_want(seq, ts.tolist(), rng, w2, 3, pct, u), tick)
        if isinstance(r, Raised) or not same(list(zip(*[x.tolist() for x in r])), want):
            ctx.fail(f"VolumePro of {case} after reset_parameters: {r}, expected {want}")
        bad = ctx.call(vp.compute, df.iloc[:-1], fp)
        ctx.expect(isinstance(bad, Raised), f"bars and footprint of different lengths were accepted: {bad}")
    ctx.run(gen(), body)
