"""C26: CUSUM structural break statistics are the Chu-Stinchcombe-White statistics of exactly their window; flags, scores and ages follow from them."""
import itertools
import math

import numpy as np
import pandas as pd

from mc.core import Raised, phase
from mc.feat import NAN, S, T0, nan

BOUNDS = ("every price path of 3 to 7 bars (thorough: 8) over 3 prices (shorter ones also over 3 prices a millionth of a unit high and over 3 prices with returns of 5e-9), and of a constant path, for 3 window sizes and 3 warm-up periods (windows shorter than the warm-up included), "
          "developing, last and rolling statistics; every placement of two jumps (up/down, equal or different size) in 24 bars of alternating noise, windows 14 and 18, through CUSUMTest "
          "with ages capped at 2, 5 and 300; long paths of 330 bars for the clipped score and ages above 255; every alphabet path with a missing or non-positive price")
ASSUMPTIONS = ["warm-up of at least 2 bars"]


def stats(y, t):
    """(up, down, critical up, critical down) of log prices y at t, estimated on y[0..t]; the n of each maximum"""
    sig = math.sqrt(math.fsum((b - a) ** 2 for a, b in zip(y[:t], y[1:t + 1])) / (t - 1))
    up, dn, nu, nd = -1e-6, -1e-6, None, None
    if sig > 0:
        for n in range(1, t - 1):
            den = sig * math.sqrt(t - n)
            if den <= 1e-16:
                continue
            d = y[t] - y[n]
            if max(0.0, d) / den > up:
                up, nu = max(0.0, d) / den, n
            if max(0.0, -d) / den > dn:
                dn, nd = max(0.0, -d) / den, n
    crit = lambda n: 0.0 if n is None else math.sqrt(4.6 + math.log(t - n))
    return up, dn, crit(nu), crit(nd)


def developing(x, warm):
    y = [math.log(v) for v in x]
    return [stats(y, t) if t >= warm else (NAN,) * 4 for t in range(len(x))]


def rolling(x, w, warm):
    w = max(w, warm + 2)
    n = len(x)
    if n < warm + 1:
        return [(NAN,) * 4] * n
    out = developing(x[:w + 1], warm)
    for i in range(w + 1, n):
        y = [math.log(v) for v in x[i - w:i + 1]]
        out.append(stats(y, w))
    return out


def eq(a, b, tol=1e-9):
    return (nan(a) and nan(b)) or abs(a - b) <= tol * (1 + abs(b))


def check(ctx, what, got, want):
    if isinstance(got, Raised):
        ctx.fail(f"{what}: {got}")
        return False
    rows = list(zip(*[np.asarray(g).tolist() for g in got]))
    if len(rows) != len(want) or not all(eq(a, b) for r, s in zip(rows, want) for a, b in zip(r, s)):
        ctx.fail(f"{what} is {rows}, by definition {want}")
        return False
    return True


PRICES = (10.0, 10.37, 9.71)
PARAMS = [(4, 2), (5, 2), (5, 3), (3, 3), (6, 4), (100, 2)]


CALM = (1.0, 1.0 + 1.375 * 2.0 ** -28, 1.0 - 3 * 2.0 ** -28)     # returns of 5e-9
CHEAP = (0.00000123, 0.00000131, 0.00000119)


def paths(lo, hi):
    for n in range(lo, hi + 1):
        yield from itertools.product(PRICES, repeat=n)
    for n in range(max(lo, 4), hi):
        for alphabet in (CALM, CHEAP):
            yield from itertools.product(alphabet, repeat=n)


@phase("statistics")
def statistics(ctx):
    from finmlkit.feature.core.structural_break.cusum import cusum_test_developing, cusum_test_last, cusum_test_rolling

    def body(x):
        ctx.state(x)
        arr = np.array(x)
        for warm in (2, 3):
            ctx.trace()
            ctx.trans(len(x))
            if not check(ctx, f"developing statistics of {x} (warm-up {warm})", ctx.call(cusum_test_developing, arr, warm), developing(x, warm)):
                return
        ctx.trace()
        r = ctx.call(cusum_test_last, arr)
        want = stats([math.log(v) for v in x], len(x) - 1)
        if not check(ctx, f"last statistics of {x}", r if isinstance(r, Raised) else [[v] for v in r], [want]):
            return
        ctx.outcome(tuple(round(v, 9) for v in want))
        for w, warm in PARAMS:
            ctx.trace()
            ctx.trans(len(x))
            if not check(ctx, f"rolling statistics of {x} (window {w}, warm-up {warm})", ctx.call(cusum_test_rolling, arr, w, warm), rolling(x, w, warm)):
                return
    ctx.run(paths(3, 8 if ctx.thorough else 7), body)


@phase("compiled", jit=True)
def compiled(ctx):
    from finmlkit.feature.core.structural_break.cusum import cusum_test_developing, cusum_test_last, cusum_test_rolling

    def body(x):
        ctx.state(x)
        ctx.trace(3)
        ctx.trans(len(x))
        arr = np.array(x)
        if len(x) > 2:
            check(ctx, f"developing statistics of {x}", ctx.call(cusum_test_developing, arr, 2), developing(x, 2))
            r = ctx.call(cusum_test_last, arr)
            check(ctx, f"last statistics of {x}", r if isinstance(r, Raised) else [[v] for v in r], [stats([math.log(v) for v in x], len(x) - 1)])
        for w, warm in PARAMS:
            check(ctx, f"rolling statistics of {x} (window {w}, warm-up {warm})", ctx.call(cusum_test_rolling, arr, w, warm), rolling(x, w, warm))
    ctx.run(paths(1, 8 if ctx.thorough else 7), body)


@phase("invalid")
def invalid(ctx):
    """prices without a logarithm are refused; missing prices give no break"""
    from finmlkit.feature.core.structural_break.cusum import cusum_test_rolling
    from finmlkit.feature.transforms import CUSUMTest

    def gen():
        for n in range(4, 7):
            for k in range(n):
                for bad in (0.0, -1.0, NAN):
                    yield n, k, bad

    def body(case):
        n, k, bad = case
        ctx.state(case)
        ctx.trace(2)
        ctx.trans(n)
        x = [10.0 + 0.3 * ((i * 7) % 4) for i in range(n)]
        x[k] = bad
        r = ctx.call(cusum_test_rolling, np.array(x), 4, 2)
        df = pd.DataFrame({"close": x}, index=pd.date_range("2024-01-01", periods=n, freq="min"))
        t = ctx.call(CUSUMTest(4, 2), df)
        if not nan(bad):
            ctx.expect(isinstance(r, Raised) and isinstance(t, Raised), f"price {bad} in {x} was not refused: {r} {t}")
        else:
            if isinstance(r, Raised) or isinstance(t, Raised):
                ctx.fail(f"missing price in {x}: {r} {t}")
                return
            flags = [v for s in t[2:4] for v in s.tolist()]
            ctx.expect(not any(flags), f"missing price in {x}: flags {flags}")
    ctx.run(gen(), body)


NAMES = ["cumote_up{}_score", "cumote_down{}_score", "cumote_up{}_flag", "cumote_down{}_flag", "cumote_up{}_age", "cumote_down{}_age"]


def features(x, w, warm, max_age):
    rows = rolling(x, w, warm)
    bu, bd = [r[0] - r[2] for r in rows], [r[1] - r[3] for r in rows]
    fu, fd = [v > 0 for v in bu], [v > 0 for v in bd]

    def ages(f):
        out, k = [], -1
        for v in f:
            k = 0 if v else k + 1
            out.append(min(k, max_age))
        return out
    clip = lambda b: [v if nan(v) else min(10.0, max(-10.0, v)) for v in b]
    return [clip(bu), clip(bd), fu, fd, ages(fu), ages(fd)]


def transform(ctx, x, w, warm, max_age, col="close", backends=("nb", "pd")):
    from finmlkit.feature.transforms import CUSUMTest
    df = pd.DataFrame({col: x}, index=pd.DatetimeIndex([T0 + 60 * S * i for i in range(len(x))]))
    want = features(x, w, warm, max_age)
    for backend in backends:
        ctx.trace()
        ctx.trans(len(x))
        r = ctx.call(CUSUMTest(w, warm, max_age, input_col=col), df, backend=backend)
        if isinstance(r, Raised):
            ctx.fail(f"CUSUMTest({w}, {warm}, {max_age}) of {x}: {r}")
            return
        names = [s.name for s in r]
        exp = [f"{col}_" + n.format(w) for n in NAMES]
        if names != exp and names != [n.format(w) for n in NAMES]:
            ctx.fail(f"CUSUMTest outputs are named {names}")
        for k, (s, e) in enumerate(zip(r, want)):
            if not s.index.equals(df.index) or len(s) != len(e) or not all(eq(float(a), float(b)) for a, b in zip(s.tolist(), e)):
                ctx.fail(f"CUSUMTest({w}, {warm}, {max_age}) {backend} of {x}: {s.name} is {s.tolist()}, by definition {e}")
                return
    ctx.outcome(tuple(want[2]), tuple(want[3]), tuple(want[4]), tuple(want[5]))


@phase("breaks")
def breaks(ctx):
    n = 24

    def gen():
        sizes = (0.0, 0.05, -0.05, 0.11)
        for i in range(2, n):
            for j in range(i + 1, n + 1):
                for a in sizes[1:]:
                    for b in ((0.0,) if j == n else sizes[1:]):
                        if ctx.thorough or (i * 5 + j) % 3 == 0:
                            yield i, j, a, b

    def body(case):
        i, j, a, b = case
        ctx.state(case)
        y = 2.0
        x = []
        for k in range(n):
            y += (0.0004 if k % 2 else -0.0003) + (a if k == i else 0.0) + (b if k == j else 0.0)
            x.append(math.exp(y))
        for w, warm, age in ((18, 3, 5), (14, 12, 2)) + (((22, 2, 300),) if ctx.thorough or (i + j) % 4 == 0 else ()):
            transform(ctx, x, w, warm, age, backends=("nb",) if i % 7 else ("nb", "pd"), col="close" if j % 2 else "mid")
    ctx.run(gen(), body)


@phase("long")
def long(ctx):
    """clipped scores and ages above 255"""
    def gen():
        for sign in (1, -1):
            for at in (310, 320):
                for age in (255, 256, 300, 1000):
                    yield sign, at, age, 304
        yield 1, 40, 300, 36
        yield -1, 40, 255, 36

    def body(case):
        sign, at, age, w = case
        ctx.state(case)
        x = [math.exp(2.0 + (0.00004 if k % 2 else 0.0) + (0.3 * sign if k >= at else 0.0)) for k in range(345)]
        transform(ctx, x, w, 30, age, backends=("nb",))
    ctx.run(gen(), body)
