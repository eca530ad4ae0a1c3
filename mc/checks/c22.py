"""C22: no feature value changes when later bars arrive."""
from mc.core import Raised, close, phase
from mc import feat

BOUNDS = ("every sequence of up to 4-8 bars of the alphabets of 39 features and indicator functions (missing values, ties, gaps, day boundaries), every option, "
          "both backends and core functions: the values of every prefix equal the prefix of the values; compiled core functions on sequences of up to 4 bars; every one-operation and windowed "
          "two-operation expression on 1 to 7 bars; structural breaks on every path of 7 bars over 3 prices and jumps in 24 bars; volume profiles of up to 4 bars over 6 footprints")
ASSUMPTIONS = ["prefix equality up to 1e-9 relative (summation order inside a window is not fixed)"]


def targets(f, core_only=False):
    t = ["core"] if f.core else []
    if f.cls and not core_only:
        t += ["nb", "pd"] if f.pd else ["nb"]
    return t


def run(ctx, f, p, rows, ts, target):
    if target == "core":
        return feat.run_core(ctx, f, p, rows, ts)
    t = ctx.call(f.transform, p)
    return t if isinstance(t, Raised) else feat.outs(ctx.call(t, feat.frame(f, rows, ts), backend=target))


def values(r):
    return [s.tolist() for s in r]


def shortcut(f, p, rows, i, a, b, target):
    """the pandas shortcut for whole monotonic series decides by the future"""
    if f.name == "PriceVolumeCorrelation" and target == "pd" and p["window"] == 4 and len(rows) >= 10 and a in (1.0, -1.0):
        x = [r[0] for r in rows]
        if all(s < t for s, t in zip(x, x[1:])):
            return "correlation-shortcut-for-monotonic-windows"
    return None


def explore(ctx, core_only=False, upto=None):
    def gen():
        for f in feat.TABLE.values():
            if targets(f, core_only):
                for rows, ts in f.cases(ctx.thorough, upto):
                    if 1 < len(ts) <= (7 if ctx.thorough else 5) or (len(ts) > 1 and len(f.rows) < 4):
                        yield f.name, rows, ts
        if not core_only:
            for tail in ((1.0, 2.0), (11.0, 1.0), (9.0, 12.0)):
                rows = tuple((10.0 + i, 1.0 + i) for i in range(10)) + (tail,)
                yield "PriceVolumeCorrelation", rows, tuple(feat.T0 + 60 * feat.S * i for i in range(11))

    cache = {}

    def body(case):
        name, rows, ts = case
        f = feat.TABLE[name]
        n = len(ts)
        lim = f.tn[1 if ctx.thorough else 0]
        ctx.state(name, rows, tuple(b - a for a, b in zip(ts, ts[1:])) if f.gaps else ())
        for pi, p in enumerate(f.params):
            for target in targets(f, core_only):
                if target != "core" and n > lim and not f.gen and n < 10:
                    continue
                full = run(ctx, f, p, rows, ts, target)
                if isinstance(full, Raised):
                    ctx.fail(f"{name}{p} {target}: {full}")
                    continue
                full = values(full)
                ctx.outcome(name, pi, target, tuple(feat._r(v[-1]) for v in full))
                # enumeration is prefix closed, so one step suffices except for the hand-built time lines
                for k in (range(max(1, n - 3), n) if f.gen or n > 10 else (n - 1,)):
                    ctx.trans(k)
                    ctx.trace()
                    key = (name, pi, target, rows[:k], ts[:k])
                    if key not in cache:
                        r = run(ctx, f, p, rows[:k], ts[:k], target)
                        if len(cache) > 100000:
                            cache.clear()
                        cache[key] = r if isinstance(r, Raised) else values(r)
                    part = cache[key]
                    if isinstance(part, Raised):
                        ctx.fail(f"{name}{p} {target}: prefix of {k} bars {part}")
                        break
                    for o, (a, b) in enumerate(zip(part, full)):
                        bad = [i for i in range(k) if not close(a[i], b[i], 1e-9, f.ab)]
                        if bad:
                            i = bad[0]
                            ctx.fail(f"{name}{p} {target}: output {o} at row {i} is {a[i]!r} with {k} bars and {b[i]!r} once bar {k} is known",
                                     shortcut(f, p, rows[:k], i, a[i], b[i], target))
                            break
    ctx.run(gen(), body, group=(lambda c: c[0]) if core_only else None)


@phase("prefixes")
def prefixes(ctx):
    explore(ctx)


@phase("jit", jit=True, shards=5, threads=2)
def jit(ctx):
    explore(ctx, core_only=True, upto=(4, 4))


@phase("expressions")
def expressions(ctx):
    """arithmetic, clips, windows, averages and lags of features: a row depends on its own and earlier rows only"""
    from mc import expr
    import pandas as pd

    def gen():
        L = expr.leaves()
        yield from L
        one = list(expr.layer(L, consts=(0.5,)))
        yield from one
        yield from expr.pairs(L, L)
        few = L if ctx.thorough else L[:4]
        yield from expr.layer(list(expr.layer(few, consts=(), unary=("rmean", "ema", "ema_na", "rsum", "rstd", "lag1", "lag2", "abs"))), consts=(2,))

    def body(e):
        ctx.state(e)
        f = expr.build(e)
        for backend in ("nb", "pd"):
            for cached in (False, True):
                rs = []
                for n in range(1, 8):
                    ctx.trace()
                    ctx.trans(n)
                    df = expr.frame(n)
                    r = ctx.call(f, df, cache=df.copy() if cached else None, backend=backend)
                    if isinstance(r, Raised) or not isinstance(r, pd.Series) or len(r) != n:
                        return ctx.fail(f"{expr.name(e)} {backend}: {n} bars give {r}")
                    rs.append(r.tolist())
                full = rs[-1]
                for r in rs[:-1]:
                    bad = [i for i in range(len(r)) if not close(r[i], full[i], 1e-9, 1e-9)]
                    if bad:
                        return ctx.fail(f"{expr.name(e)} {backend}: row {bad[0]} is {r[bad[0]]!r} with {len(r)} bars and {full[bad[0]]!r} with 7")
        ctx.outcome(tuple(feat._r(v) for v in full))
    ctx.run(gen(), body)


def prefixes_of(ctx, what, n, fn, lo=2):
    """fn(k): rows of the first k bars"""
    full = ctx.call(fn, n)
    if isinstance(full, Raised):
        return ctx.fail(f"{what}: {full}")
    for k in range(lo, n):
        ctx.trace()
        ctx.trans(k)
        r = ctx.call(fn, k)
        if isinstance(r, Raised):
            return ctx.fail(f"{what}: {k} bars: {r}")
        for i in range(k):
            if len(r) != k or not all(close(float(a), float(b), 1e-9, 1e-9) for a, b in zip(r[i], full[i])):
                return ctx.fail(f"{what}: row {i} is {r[i]} with {k} bars and {full[i]} with {n}")
    ctx.outcome(what.split()[0], tuple(feat._r(float(v)) for v in full[-1]))


@phase("breaks")
def breaks(ctx):
    """structural break statistics and features"""
    import itertools
    import numpy as np
    import pandas as pd
    from finmlkit.feature.core.structural_break.cusum import cusum_test_developing, cusum_test_rolling
    from finmlkit.feature.transforms import CUSUMTest

    def gen():
        n = 8 if ctx.thorough else 7
        yield from itertools.product((10.0, 10.37, 9.71), repeat=n)
        for jump in (0.2, -0.2):
            for at in range(4, 24, 2):
                yield tuple(10.0 + 0.05 * ((i * 5) % 3) + (jump * 10 if i >= at else 0.0) for i in range(24))

    def body(x):
        ctx.state(x)
        a = np.array(x)
        rows = lambda r: list(zip(*[np.asarray(v).tolist() for v in r]))
        prefixes_of(ctx, f"developing statistics of {x}", len(x), lambda k: rows(cusum_test_developing(a[:k], 2)), 4)
        prefixes_of(ctx, f"rolling statistics of {x}", len(x), lambda k: rows(cusum_test_rolling(a[:k], 5, 2)), 4)
        if len(x) > 8 or x[0] == 10.0 or ctx.thorough:
            df = pd.DataFrame({"close": x}, index=pd.DatetimeIndex([feat.T0 + 60 * feat.S * i for i in range(len(x))]))
            for w, warm in ((5, 2), (12, 6)) if len(x) > 8 else ((4, 2),):
                prefixes_of(ctx, f"CUSUMTest({w}, {warm}) of {x}", len(x), lambda k: rows(CUSUMTest(w, warm, 5)(df.iloc[:k])), len(x) - 4)
    ctx.run(gen(), body)


@phase("profiles")
def profiles(ctx):
    """rolling and developing volume profiles, and volume profile features of footprint containers"""
    from finmlkit.feature.core.volume import volume_profile_developing, volume_profile_rolling
    from mc.checks import c27

    def body(case):
        seq, gaps = case
        if len(seq) < 3:
            return
        ctx.state(case)
        ts, hi, lo, pl, b, s, rng = c27.bars(seq, gaps, 0.5)
        rows = lambda r: list(zip(*[x.tolist() for x in r]))
        for nb in (None, 2):
            for w in (1.0, 2.0):
                prefixes_of(ctx, f"rolling profile of {case} window {w} s bins {nb}", len(seq),
                            lambda k: rows(volume_profile_rolling(ts[:k], hi[:k], lo[:k], pl[:k], b[:k], s[:k], w, nb, 0.5, 68.0)), len(seq) - 1)
            prefixes_of(ctx, f"developing profile of {case} bins {nb}", len(seq),
                        lambda k: rows(volume_profile_developing(ts[:k], hi[:k], lo[:k], pl[:k], b[:k], s[:k], int(ts[0]), int(ts[k - 1]), nb, 0.5, 68.0)), len(seq) - 1)
    ctx.run(c27.seqs(ctx.thorough), body)
