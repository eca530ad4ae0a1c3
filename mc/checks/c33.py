"""C33: a kit's output has the retained columns and every feature, under its name and in order, and leaves the input alone."""
import contextlib
import io
import itertools

import numpy as np
import pandas as pd

from mc import expr
from mc.core import Raised, close, phase

BOUNDS = ("every ordered selection of up to 3 (thorough: 4) of 19 features: operands, expressions, renamed, two features of one name, one name for two columns, one column of two parameters, pipelines, reading another feature's column, "
          "two and several outputs, renamed outputs; both orders of execution, both backends, with and without timing, 5 choices of retained columns, plain and shuffled frames "
          "(duplicate and unsorted index); the same kit built twice and on another frame")
ASSUMPTIONS = []

RETAIN = [(), ("close",), ("volume", "high"), ("close", "close_ret1"), ("low", "volume", "close")]


def pool():
    """(feature, columns it adds, what they are made of)"""
    from finmlkit.feature import transforms as T
    from finmlkit.feature.kit import Compose, Feature

    def named(f, n):
        f.name = n
        return f
    R, C = ("leaf", "ret"), ("leaf", "close")
    lead = ("bin", "sub", R, C)
    return [
        (Feature(T.Return(1)), ["close_ret1"], [R]),
        (Feature(T.Return(1, is_log=True)), ["close_ret1"], [("leaf", "logret")]),       # same column: the later one stays
        (Feature(T.Identity("close")), ["close"], [C]),
        (named(Feature(T.Identity("volume")), "vol"), ["vol"], [("leaf", "volume")]),
        (Feature(T.Return(1)).rolling_mean(2), ["close_ret1_rmean2"], [("un", "rmean", R)]),
        (named(Feature(T.Return(1)) - Feature(T.Identity("close")), "spread"), ["spread"], [lead]),
        ((Feature(T.Return(1)) - Feature(T.Identity("close"))).abs(), ["abs(sub(close_ret1,close))"], [("un", "abs", lead)]),
        (Feature(Compose(T.Return(1), T.SMA(2))), ["close_ret1_sma2"], [("leaf", "retsma")]),
        (Feature(T.Lag(1, "close_ret1")), ["close_ret1_lag1"], None),                   # needs the column of the first two
        (Feature(T.ExternalFunction(both, ["close", "volume"], ["p", "q"])), ["p", "q"], ["p", "q"]),
        (named(Feature(T.ExternalFunction(both, ["close", "high"], ["r", "s"])), ["lo_r", "hi_s"]), ["lo_r", "hi_s"], ["r", "s"]),
        (Feature(T.Lag(1, "s")), ["s_lag1"], None),                                      # reads an output column of a renamed feature
        (Feature(T.TimeCues()), None, None),
        (named(Feature(T.Lag(2, "volume")), "vol"), ["vol"], ["volume_lag2"]),           # shares its name with another column
        (Feature(T.Lag(1, "volume_lag2")), ["volume_lag2_lag1"], None),                  # reads the column behind that name
        (Feature(T.ExternalFunction(line, "close", "w", kwargs=dict(intercept=0.0, exponent=1.0, slope=1.0))), ["w"], ["w1"]),
        (Feature(T.ExternalFunction(line, "close", "w", kwargs=dict(intercept=0.0, exponent=1.0, slope=2.0))) * Feature(T.Identity("close")), ["mul(w,close)"], ["w2c"]),
        (Feature(Compose(T.ExternalFunction(total, ["close", "volume_lag2", "volume"], "cv"), T.Lag(1))), ["cv_lag1"], None),   # a pipeline that starts from a computed column
        (Feature(T.ExternalFunction(both, ["close", "low"], ("t", "u"))), ["t", "u"], ["t", "u"]),
    ]


def both(a, b):
    return a + b, a - b


def line(x, intercept, exponent, slope):
    return intercept + slope * x ** exponent


def total(a, b, c):
    return a + b + c


def frame(kind):
    df = expr.frame()
    if kind == "shuffled":
        df.index = df.index[[3, 0, 0, 6, 2, 5, 1]]
    return df


def add(d):
    """the columns both() makes"""
    c = dict(d)
    c["p"], c["q"] = [a + b for a, b in zip(d["close"], d["volume"])], [a - b for a, b in zip(d["close"], d["volume"])]
    c["r"], c["s"] = [a + b for a, b in zip(d["close"], d["high"])], [a - b for a, b in zip(d["close"], d["high"])]
    c["t"], c["u"] = [a + b for a, b in zip(d["close"], d["low"])], [a - b for a, b in zip(d["close"], d["low"])]
    c["volume_lag2"] = ([float("nan")] * 2 + d["volume"])[:7]
    c["w1"], c["w2c"] = list(d["close"]), [2.0 * a * a for a in d["close"]]
    c["cv"] = [a + b + e for a, b, e in zip(d["close"], c["volume_lag2"], d["volume"])]
    return c


def same(a, b):
    return len(a) == len(b) and all(close(x, y, 1e-9, 1e-9) for x, y in zip(a, b))


def snap(df):
    return list(df.columns), df.index.copy(), {c: (df[c].to_numpy().copy(), df[c].dtype, df[c].name) for c in df}


def unchanged(df, s):
    return list(df.columns) == s[0] and df.index.equals(s[1]) and df.index.dtype == s[1].dtype and all(
        np.array_equal(df[c].to_numpy(), s[2][c][0], equal_nan=True) and df[c].dtype == s[2][c][1] and df[c].name == s[2][c][2] for c in df)


@phase("kits")
def kits(ctx):
    from finmlkit.feature.kit import FeatureKit
    cues = list(pool()[12][0].name)

    def gen():
        for k in range(0, 4 + ctx.thorough):
            for sel in itertools.permutations(range(19), k):
                if k == 4 and sum(i > 12 for i in sel) not in (0, 3, 4):
                    continue
                for order in ("defined", "topo"):
                    ok = True
                    for reader, sources in ((8, (0, 1)), (11, (10,)), (14, (13,)), (17, (13,))):
                        if reader in sel:
                            have = [i for i in sources if i in sel]
                            ok &= bool(have) and (order == "topo" or any(sel.index(i) < sel.index(reader) for i in have))
                    ok &= not (8 in sel and 0 in sel and 1 in sel)     # which of two equal names is read is not defined
                    if ok:
                        yield sel, order

    data = add(expr.data())

    def body(case):
        sel, order = case
        h = hash(case)
        kind = ("plain", "shuffled")[sum(sel) % 2] if 12 not in sel else "plain"
        retain = RETAIN[(sum(sel) + len(sel)) % 5]
        if "close_ret1" in retain:
            retain = ("close", "low")
        timeit, backend = bool((sum(sel) // 2) % 2), ("nb", "pd")[(sum(sel) // 3) % 2]
        P = pool()
        df = frame(kind)
        before = snap(df)
        kit = FeatureKit([P[i][0] for i in sel], retain=list(retain) or None)
        feats = list(kit.features)
        ctx.state(case)
        for rep in range(2):
            with contextlib.redirect_stdout(io.StringIO()) as buf:
                out = ctx.call(kit.build, df, backend=backend, order=order, timeit=timeit)
            ctx.trace()
            ctx.trans(len(sel) + len(retain))
            if isinstance(out, Raised):
                ctx.fail(f"kit {sel} {order} {retain}: {out}")
                return
            if not unchanged(df, before):
                ctx.fail(f"kit {sel} {order}: the input frame was changed: columns {list(df.columns)}, names {[df[c].name for c in df]}")
                return
            if timeit and sel and not all(str(P[i][0].name)[:30].strip() in buf.getvalue() for i in sel):
                ctx.fail(f"kit {sel}: timing table misses a feature: {buf.getvalue()}")
            if not out.index.equals(df.index) or out is df:
                ctx.fail(f"kit {sel} {order}: index {list(out.index)}")
                return
            seq = list(sel) if order == "defined" else None
            if seq is None:
                rank = kit.topological_order()
                seq = sorted(sel, key=lambda i: rank.index(str(P[i][0].name)))
            want = list(retain)
            vals = {c: data[c] for c in retain}
            ret = None
            for i in seq:
                f, cols, what = P[i]
                if i == 12:
                    cols = cues
                for c in cols:
                    if c not in want:
                        want.append(c)
                if i == 8:
                    new = [([float("nan")] + ret)[:7]]
                elif i == 11:
                    new = [([float("nan")] + data["s"])[:7]]
                elif i in (14, 17):
                    new = [([float("nan")] + data["volume_lag2" if i == 14 else "cv"])[:7]]
                elif i == 12:
                    new = [s.tolist() for s in f(expr.frame())]
                else:
                    new = [data[w] if isinstance(w, str) else data["volume"] if w == ("leaf", "volume") else expr.values(w, expr.data()) for w in what]
                for c, v in zip(cols, new):
                    vals[c] = v
                if i in (0, 1):
                    ret = new[0]
            if list(out.columns) != want:
                ctx.fail(f"kit {sel} {order} retain {retain}: columns {list(out.columns)}, expected {want}")
                return
            for c in want:
                if not same(out[c].tolist(), vals[c]):
                    ctx.fail(f"kit {sel} {order} {backend} retain {retain}: column {c} is {out[c].tolist()}, expected {vals[c]}")
                    return
            # later writes to the output stay out of the input, and the kit keeps its features
            if len(out.columns):
                out.iloc[:, :] = 0
            if not unchanged(df, before) or kit.features != feats:
                ctx.fail(f"kit {sel}: writing to the output changed the input frame or the kit")
                return
        ctx.outcome(tuple(want))
    ctx.run(gen(), body)


@phase("refusals")
def refusals(ctx):
    """missing inputs and retained columns are errors, not silently missing columns"""
    from finmlkit.feature.kit import FeatureKit

    def gen():
        for i in range(19):
            for col in ("close", "high", "volume", "low"):
                for order in ("defined", "topo"):
                    yield i, col, order
        yield from [("retain", c, o) for c in ("nope", "close_ret1") for o in ("defined", "topo")]

    need = {0: {"close"}, 1: {"close"}, 2: {"close"}, 3: {"volume"}, 4: {"close"}, 5: {"close"}, 6: {"close"}, 7: {"close"}, 8: {"close_ret1"}, 9: {"close", "volume"},
            10: {"close", "high"}, 11: {"s"}, 12: set(), 13: {"volume"}, 14: {"volume_lag2"}, 15: {"close"}, 16: {"close"}, 17: {"volume_lag2", "close", "volume"}, 18: {"close", "low"}}

    def body(case):
        i, col, order = case
        ctx.state(case)
        ctx.trace()
        ctx.trans()
        if i == "retain":
            r = ctx.call(FeatureKit([pool()[0][0]], retain=[col]).build, frame("plain"), order=order)
            ctx.expect(isinstance(r, Raised), f"retained column {col} is not in the frame but build returned {r}")
            return
        df = frame("plain").drop(columns=[col])
        r = ctx.call(FeatureKit([pool()[i][0]]).build, df, order=order)
        missing = not need[i] <= set(df)
        if i == 12:
            return
        ctx.expect(isinstance(r, Raised) == missing, f"feature {i} ({pool()[i][0].name}) without column {col}: {r}")
    ctx.run(gen(), body)
