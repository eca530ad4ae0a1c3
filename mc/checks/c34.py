"""C34: features depend on the values they are given, not on how these are stored."""
import itertools

import numpy as np
import pandas as pd

from mc.core import Raised, close, phase
from mc import feat

BOUNDS = ("all sequences of up to 4 bars (7 where windows are long) over three whole numbers or missing values of 39 features and indicator functions, every option, core functions and both backends, in 11 "
          "representations: int64, int32, strided, read-only and Fortran-ordered arrays, other column orders, extra columns, "
          "s/ms/us/ns indexes, timezones; compiled functions with 3 of them")
ASSUMPTIONS = ["day-based features are compared in UTC only", "no unsigned or single-precision prices"]


def whole(f, v):
    """a whole number in place of each value of the alphabet"""
    if v != v:
        return v
    k = 8 if any(abs(x) >= 1 for r in f.rows or (10.0,) for x in (r if isinstance(r, tuple) else (r,)) if x == x) else 1000
    return float(round(v * k))


def wholes(f, rows):
    return tuple(tuple(whole(f, x) for x in r) if isinstance(r, tuple) else whole(f, r) for r in rows)


ARR = dict(
    int64=lambda a: a.astype(np.int64), int32=lambda a: a.astype(np.int32),
    strided=lambda a: np.repeat(a, 3)[::3], reversed=lambda a: a[::-1].copy()[::-1])


def readonly(a):
    a = a.copy()
    a.flags.writeable = False
    return a


ARR["readonly"] = readonly


def df_variants(f, df, ts, utc_only):
    """name -> frame with the same content"""
    cols = list(df.columns)
    vals = df.to_numpy()
    complete = not np.isnan(vals).any()
    if complete:
        for t in ("int64", "int32"):
            yield t, df.astype(t)
    yield "row-major", pd.DataFrame(np.ascontiguousarray(vals), index=df.index, columns=cols)
    yield "column-major", pd.DataFrame(np.asfortranarray(vals), index=df.index, columns=cols)
    yield "every third row of a larger frame", pd.DataFrame(np.repeat(vals, 3, axis=0), index=df.index.repeat(3), columns=cols).iloc[::3]
    extra = {f"extra{i}": np.arange(len(df)) * 1.5 for i in range(2)}
    yield "more columns, other order", pd.DataFrame({**extra, **{c: df[c] for c in reversed(cols)}}, index=df.index)[
        ["extra1"] + cols[::-1] + ["extra0"]]
    for u, k in (("us", 10 ** 3), ("ms", 10 ** 6), ("s", 10 ** 9)):
        if all(t % k == 0 for t in ts):
            d = df.copy()
            d.index = d.index.as_unit(u)
            yield u, d
    for tz in ("UTC",) if utc_only else ("UTC", "America/New_York"):
        d = df.copy()
        d.index = d.index.tz_localize("UTC").tz_convert(tz)
        d.index.name = "timestamp"
        yield tz, d


def explore(ctx, core_only=False):
    def gen():
        for f in feat.TABLE.values():
            if f.gaps or f.gen:
                seen = 0
                for rows, ts in f.cases(False, (4, 4)):
                    seen += 1
                    if len(ts) > 20 or len(ts) < 3 or seen % (7 if len(f.cols) == 1 else 5):
                        continue        # a fixed share of the hand-built time lines: representation, not timing, is explored here
                    yield f.name, rows, ts
                continue
            # all sequences over the first values and the last one (the missing value where there is one)
            long = f.name in ("VarianceRatio14", "HurstExponent", "ADX")
            m = 3 if core_only else 2 if len(f.rows) ** 4 > 700 and len(f.cols) > 3 else 4
            few = f.rows[:2] + f.rows[-1:]
            for k in (1, 7) if long else range(1, m + 1):
                for rows in itertools.product(few[:2] if k > 4 else few, repeat=k):
                    yield f.name, rows, tuple(feat.T0 + 60 * feat.S * i for i in range(k))

    def same(a, b, f):
        return len(a) == len(b) and all(close(u, v, 1e-9, f.ab) for u, v in zip(a, b))

    def body(case):
        name, rows, ts = case
        f = feat.TABLE[name]
        rows = wholes(f, rows)
        cols = [np.array(c, dtype=np.float64) for c in feat.columns(f, rows)]
        whole_ok = all(not np.isnan(c).any() for c in cols)
        ctx.state(name, rows, tuple(b - a for a, b in zip(ts, ts[1:])) if f.gaps else ())
        for pi, p in enumerate(f.params):
            ctx.trans(len(ts))
            if f.core:
                ref = feat.outs(ctx.call(f.core, p, [c.copy() for c in cols], np.array(ts, dtype=np.int64)))
                for v, conv in ARR.items():
                    if v.startswith("int") and not whole_ok or core_only and v not in ("int64", "strided", "readonly"):
                        continue
                    tconv = (lambda a: a) if v[0] == "i" else conv
                    got = feat.outs(ctx.call(f.core, p, [conv(c) for c in cols], tconv(np.array(ts, dtype=np.int64))))
                    ctx.trace()
                    judge(ctx, f, p, "core", v, ref, got)
            if core_only or not f.cls:
                continue
            df = feat.frame(f, rows, ts)
            t = ctx.call(f.transform, p)
            for backend in (("nb", "pd") if f.pd else ("nb",)):
                ref = feat.outs(ctx.call(t, df, backend=backend))
                for v, d in df_variants(f, df, ts, name in ("DailyGap", "ORBBreak", "TimeCues")):
                    got = feat.outs(ctx.call(t, d, backend=backend))
                    ctx.trace()
                    if not isinstance(got, Raised) and not isinstance(ref, Raised):
                        if any(not s.index.equals(d.index) for s in got):
                            ctx.fail(f"{name}{p} {backend}: the index of a frame stored as {v} changed")
                        if [s.name for s in got] != [s.name for s in ref]:
                            ctx.fail(f"{name}{p} {backend}: named {[s.name for s in got]} when stored as {v}")
                    judge(ctx, f, p, backend, v, ref, got)

    def judge(ctx, f, p, target, v, ref, got):
        if isinstance(ref, Raised) or isinstance(got, Raised):
            ctx.fail(f"{f.name}{p} {target}: {ref}; stored as {v}: {got}")
            return
        ref, got = [s.tolist() for s in ref], [s.tolist() for s in got]
        for o, (a, b) in enumerate(zip(ref, got)):
            ctx.outcome(f.name, target, tuple(map(feat._r, map(float, a))))
            if not same(a, b, f):
                ctx.fail(f"{f.name}{p} {target}: output {o} is {b} when stored as {v}, but {a} as contiguous float64")
    ctx.run(gen(), body, group=(lambda c: c[0]) if core_only else None)


@phase("representations")
def representations(ctx):
    explore(ctx)


@phase("jit", jit=True, shards=6, threads=2)
def jit(ctx):
    explore(ctx, core_only=True)
