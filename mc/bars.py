"""Reference automata for trades -> bars.  Deliberately boring: one trade at a time, plain Python numbers."""
import math
import statistics

import numpy as np

from mc.core import close, first_diff

NS = 1_000_000_000
T0 = 1_700_000_000 * NS          # a realistic ns timestamp, multiple of 1 s and of 100 s


def trades_data(ts, px, qty, side=None):
    from finmlkit.bar.data_model import TradesData
    n = len(ts)
    return TradesData(np.array(ts, dtype=np.int64), np.array(px, dtype=np.float64), np.array(qty, dtype=np.float64),
                      np.arange(n, dtype=np.int64),
                      side=np.array(side if side is not None else [1] * n, dtype=np.int8), timestamp_unit="ns")


def members(closes):
    """bar k owns the trades after the previous close up to and including its own close"""
    return [list(range(closes[k] + 1, closes[k + 1] + 1)) for k in range(len(closes) - 1)]


# ------------------------------------------------------------------ OHLCV
OHLCV = ["open", "high", "low", "close", "volume", "vwap", "trades", "median_trade_size"]


def ref_ohlcv(px, qty, closes, on_state=None):
    out = []
    for k, idx in enumerate(members(closes)):
        o = h = lo = c = None
        vol = dol = 0.0
        for j in idx:
            p, q = px[j], qty[j]
            if o is None:
                o = h = lo = p
            h, lo, c = max(h, p), min(lo, p), p
            vol += q
            dol += p * q
            if on_state:
                on_state(o, h, lo, c, vol, dol)
        if not idx:
            c = px[closes[k + 1]]
            out.append((c, c, c, c, 0.0, 0.0, 0, 0.0))
        else:
            out.append((o, h, lo, c, vol, dol / vol if vol > 0 else 0.0, len(idx), statistics.median([qty[j] for j in idx])))
    return out


# ------------------------------------------------------------------ bar close rules (each yields the close indices)
def ref_time(ts, interval_ns):
    """grid from floor(first) to the first grid point at or after the last trade; a close index is the last trade
    at or before the grid point (-1: none)"""
    start = ts[0] // interval_ns * interval_ns
    last = -(-ts[-1] // interval_ns) * interval_ns
    grid = list(range(start, last + 1, interval_ns))
    idx, j = [], -1
    for g in grid:
        while j + 1 < len(ts) and ts[j + 1] <= g:
            j += 1
        idx.append(j)
    return grid, idx


def ref_tick(n, thr, on_state=None):
    out, c = [0], 1
    for i in range(1, n):
        c += 1
        if c >= thr:
            out.append(i)
            c = 0
        if on_state:
            on_state(c)
    return out


def ref_volume(qty, thr, on_state=None):
    out, c = [0], qty[0]
    for i in range(1, len(qty)):
        c += qty[i]
        if c >= thr:
            out.append(i)
            c = 0.0
        if on_state:
            on_state(c)
    return out


def ref_dollar(px, qty, thr, on_state=None):
    out, c = [0], px[0] * qty[0]
    for i in range(1, len(qty)):
        c += px[i] * qty[i]
        if c >= thr:
            out.append(i)
            c -= thr
        if on_state:
            on_state(c)
    return out


def ref_cusum(ts, px, sigma, floor, mult, on_state=None):
    """returns (close indices, ambiguous): ambiguous when a comparison is within rounding distance of equality"""
    n = len(px)
    first = 0
    for i in range(n):
        if sigma[i] == sigma[i]:
            first = i
            break
    out, sp, sn, sg = [first], 0.0, 0.0, None
    amb = False
    sg = sigma[first]
    for i in range(first + 1, n):
        if sigma[i] == sigma[i]:
            sg = sigma[i]
        r = math.log(px[i] / px[i - 1])
        sp = max(0.0, sp + r)
        sn = min(0.0, sn + r)
        if i + 1 < n and ts[i] == ts[i + 1]:
            continue
        lam = max(mult * sg, floor) if sg == sg else math.inf     # no volatility known yet: no threshold
        if abs(sp - lam) < 1e-12 or abs(sn + lam) < 1e-12:
            amb = True
        if sp >= lam:
            out.append(i)
            sp = 0.0
        elif sn <= -lam:
            out.append(i)
            sn = 0.0
        if on_state:
            on_state(round(sp, 12), round(sn, 12), i == first)
    return out, amb


# ------------------------------------------------------------------ directional features
DIRECTIONAL = ["ticks_buy", "ticks_sell", "volume_buy", "volume_sell", "dollars_buy", "dollars_sell", "mean_spread",
               "max_spread", "cum_ticks_min", "cum_ticks_max", "cum_volume_min", "cum_volume_max", "cum_dollars_min",
               "cum_dollars_max"]


def ref_directional(px, qty, side, closes, on_state=None):
    out = []
    for idx in members(closes):
        tb = ts_ = 0
        vb = vs = db = ds = 0.0
        ct, cv, cd = 0, 0.0, 0.0
        path = []
        spreads = []
        for j in idx:
            if j > 0 and side[j] != side[j - 1]:
                spreads.append(abs(px[j] - px[j - 1]))
            if side[j] == 1:
                tb += 1
                vb += qty[j]
                db += px[j] * qty[j]
            elif side[j] == -1:
                ts_ += 1
                vs += qty[j]
                ds += px[j] * qty[j]
            if side[j] != 0:
                ct += side[j]
                cv += side[j] * qty[j]
                cd += side[j] * px[j] * qty[j]
                path.append((ct, cv, cd))
            if on_state:
                on_state(tb, ts_, vb, vs, db, ds, ct, cv, cd)
        mn = lambda m: min((p[m] for p in path), default=0)     # noqa: E731
        mx = lambda m: max((p[m] for p in path), default=0)     # noqa: E731
        sided = tb + ts_
        out.append((tb, ts_, vb, vs, db, ds, sum(spreads) / sided if sided else 0.0, max(spreads, default=0.0),
                    mn(0), mx(0), mn(1), mx(1), mn(2), mx(2)))
    return out


def ref_sizes(qty, theta, closes, mult):
    """mean / 95th percentile (linear interpolation) relative to the block threshold, block share, 1 - sum(share^2)"""
    nan = float("nan")
    out = []
    for k, idx in enumerate(members(closes)):
        a = sorted(qty[j] for j in idx)
        if not a or theta[k] == 0:
            out.append((nan,) * 4)
            continue
        thr = theta[k] * mult
        tot = sum(a)
        h = 0.95 * (len(a) - 1)
        lo = math.floor(h)
        p95 = a[lo] + (h - lo) * (a[min(lo + 1, len(a) - 1)] - a[lo])
        row = [math.log1p(tot / len(a) / thr), math.log1p(p95 / thr)]
        if tot == 0:
            row += [nan, nan]
        else:
            row += [sum(x for x in a if x > thr) / tot, 0.0 if len(a) == 1 else 1 - sum((x / tot) ** 2 for x in a)]
        out.append(tuple(row))
    return out


def ref_footprint(px, qty, side, closes, tick, factor):
    """one dict per bar; level arrays ascending from the bar's low to its high, prices in integer ticks"""
    out = []
    for k, idx in enumerate(members(closes)):
        lv = [round(px[j] / tick) for j in idx] or [round(px[closes[k + 1]] / tick)]
        levels = list(range(min(lv), max(lv) + 1))
        n = len(levels)
        bv, sv, bt, st = [0.0] * n, [0.0] * n, [0] * n, [0] * n
        for j in idx:
            i = round(px[j] / tick) - levels[0]
            if side[j] == 1:
                bv[i] += qty[j]
                bt[i] += 1
            elif side[j] == -1:
                sv[i] += qty[j]
                st[i] += 1
        out.append(dict(levels=levels, bv=bv, sv=sv, bt=bt, st=st, **ref_profile(levels, bv, sv, factor)))
    return out


def ref_profile(levels, bv, sv, factor):
    n = len(levels)
    si = [i + 1 < n and sv[i] > bv[i + 1] * factor for i in range(n)]
    bi = [i > 0 and bv[i] > sv[i - 1] * factor for i in range(n)]
    best, bests, run, rs = 0, 0, 0, 0
    for i in range(n):
        s = 1 if bi[i] else -1 if si[i] else 0
        run = 0 if s == 0 else run + 1 if s == rs else 1
        rs = s
        if run > best:
            best, bests = run, s
    tot = [b + s for b, s in zip(bv, sv)]
    T = sum(tot)
    vw = sum(l * t for l, t in zip(levels, tot)) / T if T > 0 else 0.0
    return dict(bi=bi, si=si, bsum=sum(bi), ssum=sum(si), cot=levels[tot.index(max(tot))], run=best * bests,
                skew=sum((l - vw) * t for l, t in zip(levels, tot)) / T if T > 0 else 0.0,
                gini=1 - sum((t / T) ** 2 for t in tot) if T > 0 else 0.0)


def partitions(n, kmax, lo=-1):
    """every non-decreasing close-index vector with at most kmax entries; an empty bar has a previous trade"""
    import itertools
    for k in range(2, kmax + 1):
        for v in itertools.combinations_with_replacement(range(lo, n), k):
            if v[1] >= 0:
                yield v


# ------------------------------------------------------------------ comparison
def compare_rows(names, got, want, rel=1e-9, skip=()):
    """got: list of columns; want: list of rows"""
    for c, name in enumerate(names):
        if name in skip:
            continue
        d = first_diff(got[c], [r[c] for r in want], rel=rel, ab=1e-9)
        if d:
            return f"{name}: {d}"
    return None


def kit_closes(kit):
    """the complete close-index vector the kit partitions with, seen through its public surface"""
    return [int(x) for x in kit.bar_close_indices], [int(x) for x in kit.bar_close_timestamps]


__all__ = [n for n in dir() if not n.startswith("_")]
