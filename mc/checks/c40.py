"""C40: what cannot be answered is refused with the documented error and without effect; what can be answered is answered."""
import itertools
import os

import numpy as np
import pandas as pd

from mc.bars import NS, T0, trades_data
from mc.core import Raised, close, phase
from mc import feat

BOUNDS = ("every feature x parameter set x backend x {5 non-frames, every subset of missing columns, 3 indexes that are no dates, 4 unknown "
          "backends}; every combination of acceptable and unacceptable arguments of the trade container, the labelling kit, the label and "
          "weight functions, the event filter, the aggregation kernels, the footprint container, the stores and external functions, "
          "including every value at the edge of the allowed range")
ASSUMPTIONS = ["'documented error' is the type named in the docstring or signature; where none is named any error counts as a refusal"]
NAN = float("nan")


def verdict(ctx, what, got, want, key=None):
    """want: None = answered, a tuple of exception types = refused by one of them"""
    ctx.trace()
    ctx.trans()
    ctx.outcome(what.split("(")[0], type(got.exc).__name__ if isinstance(got, Raised) else "answer", str(want))
    if want is None:
        bad = isinstance(got, Raised) and f"refused: {got}"
    elif not isinstance(got, Raised):
        bad = f"answered with {str(got)[:120]} although it cannot be"
    else:
        bad = not isinstance(got.exc, want) and f"refused with {got}, documented is {[w.__name__ for w in want]}"
    if bad:
        ctx.fail(f"{what}: {bad}", key)
    return not bad


# ---------------------------------------------------------------------------------------------------------- features
DATED = {"ReturnT", "EWMST", "DailyGap", "ORBBreak", "BarRate", "BarDuration", "BarDurationEWMA", "TimeCues"}


def sample(f):
    """a frame the feature accepts: the longest of the first cases of its table"""
    best = max(itertools.islice(f.cases(False), 400), key=lambda c: len(c[1]))
    return feat.frame(f, *best)


@phase("features")
def features(ctx):
    def gen():
        for name, f in feat.TABLE.items():
            if not f.cls:
                continue
            for pi in range(len(f.params)):
                for be in ("nb", "pd"):
                    yield name, pi, be

    def body(case):
        name, pi, be = case
        f = feat.TABLE[name]
        t = f.transform(f.params[pi])
        df = sample(f)
        first = ctx.call(t, df, backend=be)
        ctx.state(name, pi, be)
        what = f"{name}{f.params[pi]} backend={be}"
        req = list(t.requires)
        cols = list(df.columns)
        for bad in (None, df[cols[0]], {c: df[c] for c in cols}, df.to_numpy(), 3):
            if not verdict(ctx, f"{what}, input {type(bad).__name__}", ctx.call(t, bad, backend=be), (TypeError,)):
                return
        for r in range(1, len(req) + 1):
            for gone in itertools.combinations(req, r):
                x = df.drop(columns=[c for c in gone if c in df.columns])
                x["unrelated"] = 1.0
                if not verdict(ctx, f"{what}, without {gone}", ctx.call(t, x, backend=be), (ValueError,)):
                    return
        for nb in ("", "numba", "PD", None):
            if not verdict(ctx, f"{what}, backend {nb!r}", ctx.call(t, df, backend=nb), (ValueError,)):
                return
        n = len(df)
        for idx in (pd.RangeIndex(n), pd.Index([0.5 * i for i in range(n)]), pd.Index([f"2024-01-0{i % 9 + 1}" for i in range(n)])):
            x = df.set_axis(idx)
            got = ctx.call(t, x, backend=be)
            if f.cls in DATED:
                if not verdict(ctx, f"{what}, index {idx.dtype}", got, (ValueError, TypeError)):
                    return
            elif not isinstance(first, Raised):
                if not verdict(ctx, f"{what}, index {idx.dtype}", got, None):
                    return
                for a, b in zip(feat.outs(first), feat.outs(got)):
                    if not (b.index.equals(idx) and all(close(float(u), float(v), 1e-12) for u, v in zip(a, b))):
                        ctx.fail(f"{what}: on an index of {idx.dtype} the values or the index differ: {list(b)} instead of {list(a)}")
                        return
        again = ctx.call(t, df, backend=be)
        if isinstance(first, Raised) or isinstance(again, Raised):
            ctx.expect(isinstance(first, Raised) and isinstance(again, Raised), f"{what}: {first} before, {again} after refused requests")
            return
        for a, b in zip(feat.outs(first), feat.outs(again)):
            if not a.equals(b):
                ctx.fail(f"{what}: after refused requests {list(b)} instead of {list(a)}")
    ctx.run(gen(), body)


@phase("expressions")
def expressions(ctx):
    """expressions, compositions, external functions and kits pass refusals on, before anything is computed"""
    from finmlkit.feature.kit import Compose, Feature, FeatureKit
    from finmlkit.feature import transforms as T
    df = pd.DataFrame(dict(a=[1.0, 2.0, 4.0], b=[2.0, 1.0, 3.0]), index=pd.to_datetime([T0, T0 + NS, T0 + 2 * NS]))

    def parts(c, d):
        x, y = Feature(T.ROC(1, c)), Feature(T.SMA(2, d))
        yield "x+y", x + y, c + d
        yield "y-x", y - x, c + d
        yield "x*2", x * 2, c
        yield "abs", abs(x + y), c + d
        yield "min", Feature.min(x, y), c + d
        yield "max(const)", Feature.max(Feature.max(x, y), 1.0), c + d
        yield "compose", Feature(Compose(T.ROC(1, c), T.SMA(2, "whatever"))) + y, c + d
        yield "log", x.log(), c
        yield "clip", (x * y).clip(0.0, 1.0), c + d
        yield "identity", Feature(T.Identity(c)) / Feature(T.Identity(d)), c + d
        yield "external", Feature(T.ExternalFunction(np.add, [c, d], "s")), c + d

    names = ("a", "b", "gone")

    def body(case):
        c, d, be = case
        ctx.state(case)
        for what, f, used in parts(c, d):
            want = (ValueError,) if "gone" in used else None
            for how, fn in (("feature", lambda: f(df.copy(), backend=be)), ("kit", lambda: FeatureKit([f], retain=["a"]).build(df, backend=be)),
                            ("topological", lambda: FeatureKit([f], retain=[]).build(df, backend=be, order="topo"))):
                if not verdict(ctx, f"{what} of {c},{d} ({how}, backend {be})", ctx.call(fn), want):
                    return
            for bad in (None, df["a"], 3):
                if not verdict(ctx, f"{what} of {c},{d} on {type(bad).__name__}", ctx.call(f, bad, backend=be), (TypeError, ValueError, AttributeError)):
                    return
        verdict(ctx, "kit retaining a missing column", ctx.call(lambda: FeatureKit([Feature(T.ROC(1, "a"))], retain=["a", "gone"]).build(df)), (KeyError,))
    ctx.run(itertools.product(names, names, ("nb", "pd")), body)

    two = [T.BollingerPercentB(2, 2.0, "a"), T.ROC(1, "a"), T.SMA(2, "a")]
    multi = [t for t in (ctx.call(lambda: T.CUSUMTest("a")), ctx.call(lambda: T.TimeCues("a"))) if not isinstance(t, Raised)]

    def ops(case):                      # operators over several-column features
        i, op = case
        m, s = Feature(multi[i]), Feature(two[1])
        fn = dict(add=lambda: (m + s)(df), radd=lambda: (s + m)(df), const=lambda: (m + 1.0)(df), neg=lambda: abs(m)(df),
                  min=lambda: Feature.min(m, s)(df), scale=lambda: (m * 2)(df), both=lambda: (m + m)(df))[op]
        ctx.state("multi", case)
        verdict(ctx, f"{op} of the several columns of {type(multi[i]).__name__}", ctx.call(fn), (Exception,))
    ctx.run(itertools.product(range(len(multi)), ("add", "radd", "const", "neg", "min", "scale", "both")), ops)

    def ext(case):                      # external functions: number of outputs, kinds of functions
        k, outs, path = case
        fn = path or (lambda x, k=k: tuple(x * i for i in range(1, k + 1)) if k else x)
        t = ctx.call(T.ExternalFunction, fn, ["a"], outs)
        ctx.state("ext", str(case))
        got = t if isinstance(t, Raised) else ctx.call(t, df)
        if path:
            return verdict(ctx, f"external function {path!r}", got, (TypeError, ValueError, ImportError, AttributeError) if path != "numpy.abs" else None)
        n = 1 if not isinstance(outs, list) else len(outs)
        good = k == n or (k == 0 and n == 1)
        if verdict(ctx, f"external function with {k or 'one plain'} output(s) declared as {outs!r}", got, None if good else (ValueError, TypeError)) and good:
            r = feat.outs(got)
            ctx.expect([list(s) for s in r] == [[v * i for v in df["a"]] for i in range(1, (k or 1) + 1)], f"external function: {r}")
    ctx.run([(k, o, None) for k in (0, 1, 2, 3) for o in (None, "p", ["p"], ["p", "q"], ["p", "q", "r"])] +
            [(0, "p", s) for s in ("numpy.abs", "numpy.pi", "numpy.no_such_thing", "no_such_module.f", "plain")], ext)


# ---------------------------------------------------------------------------------------------------------- labels
def frame6(kind):
    idx = pd.to_datetime([T0 + NS * (1 + i) for i in range(4)])
    f = pd.DataFrame(dict(tgt=[0.01, 0.02, 0.01, 0.03], x=[1.0, 2.0, 3.0, 4.0], side=np.array([1, -1, 1, 0])), index=idx)
    if kind == "floatside":
        f["side"] = f["side"].astype(float)
    elif kind == "noside":
        f = f.drop(columns="side")
    elif kind == "range":
        f = f.reset_index(drop=True)
    elif kind == "notgt":
        f = f.drop(columns="tgt")
    elif kind == "empty":
        f[:] = NAN
    elif kind == "leadnan":
        f = f.astype(dict(tgt=float))
        f.iloc[0, 0] = NAN
    elif kind == "midnan":
        f.iloc[2, 0] = NAN
    elif kind == "none":
        f = f.iloc[:0]
    return f


@phase("labels")
def labels(ctx):
    from finmlkit.label.kit import SampleWeights, TBMLabel
    px = [100.0, 101.0, 99.0, 102.0, 98.0, 103.0, 100.5, 99.5, 101.5]
    td = trades_data([T0 + i * NS for i in range(9)], px, [1.0] * 9, [1, -1] * 4 + [1])
    short = trades_data([T0 + i * NS for i in range(3)], px[:3], [1.0] * 3, [1, -1, 1])
    kinds = ("good", "floatside", "noside", "range", "notgt", "empty", "none", "leadnan", "midnan")
    hbs = ((1.0, 1.0), (-np.inf, 1.0), [1.0, 1.0], (1.0,), (1.0, 1.0, 1.0), 1.0, np.array([1.0, 1.0]))
    mrs = (0.0, 0.02, 0.03, -1e-9, 0.031, 1.0)
    vbs = (pd.Timedelta(seconds=2), pd.Timedelta(microseconds=1), pd.Timedelta(0), pd.Timedelta(seconds=-1), pd.Timedelta(seconds=6), pd.Timedelta(days=1))

    def body(case):
        kind, hb, mr, meta, vb = case
        hb = hbs[hb]
        f = frame6(kind)
        keep = f.copy()
        ctx.state(str(case))
        what = f"TBMLabel({kind}, barriers {hb}, min_ret {mr}, vertical {vb}, meta {meta})"
        t = ctx.call(TBMLabel, f, "tgt", mr, hb, vb, pd.Timedelta(0), meta)
        bad = (kind in ("range", "notgt", "empty", "none") or not isinstance(hb, tuple) or len(hb) != 2 or mr < 0
               or (meta and kind in ("floatside", "noside")))
        if not bad:
            ok = [k for k in range(4) if f["tgt"].iloc[k] == f["tgt"].iloc[k] and f["tgt"].iloc[k] * max(hb) >= mr]
            bad = not ok
        if not verdict(ctx, what, t, (ValueError,) if bad else None) or bad:
            return
        ctx.expect(f.equals(keep), f"{what}: the given features were changed")
        for nm in ("labels", "event_returns", "full_output"):
            if not verdict(ctx, f"{what}.{nm} before labelling", ctx.call(lambda: getattr(t, nm)), (ValueError,)):
                return
        for x in (None, px, td.data):
            if not verdict(ctx, f"{what}.compute_labels({type(x).__name__})", ctx.call(t.compute_labels, x), (ValueError,)):
                return
        done = [k for k in ok if (k + 1) + vb.total_seconds() <= 8]
        r = ctx.call(t.compute_labels, td)
        if not verdict(ctx, f"{what}.compute_labels", r, None if done and vb > pd.Timedelta(0) else (ValueError, IndexError)):
            return
        if isinstance(r, Raised):
            return
        ft, out = r[0].copy(), r[1].copy()
        # a refused request leaves the object as it was: features and labels still describe the same events
        if vb.total_seconds() >= 2:
            if not verdict(ctx, f"{what}.compute_labels(trades ending before every window)", ctx.call(t.compute_labels, short), (ValueError, IndexError)):
                return
            ctx.expect(t.features.equals(ft) and t.full_output.equals(out) and t.event_count == len(out) and list(t.labels.index) == list(t.features.index),
                       f"{what}: after a refused labelling features has {len(t.features)} events, labels {len(t.labels)}, before {len(out)}")
        for x in (None, px):
            if not verdict(ctx, f"{what}.compute_weights({type(x).__name__})", ctx.call(t.compute_weights, x), (ValueError,)):
                return
        for drop in (["event_idx"], ["touch_idx"], ["event_idx", "touch_idx"], ["labels", "returns"]):
            if not verdict(ctx, f"weights of labels without {drop}", ctx.call(SampleWeights.compute_info_weights, td, out.drop(columns=drop)),
                           (ValueError,) if drop[0] != "labels" else None):
                return
        verdict(ctx, "weights of no frame", ctx.call(SampleWeights.compute_info_weights, td, out["labels"]), (ValueError,))
    ctx.run(itertools.product(kinds, range(len(hbs)), mrs, (False, True), vbs), body)


@phase("weights")
def weights(ctx):
    from finmlkit.label.kit import SampleWeights
    i0 = pd.RangeIndex(3)
    vals = dict(good=pd.Series([0.5, 1.0, 0.25], index=i0), other=pd.Series([0.5, 1.0, 0.25], index=[0, 1, 3]), none=None,
                array=np.array([0.5, 1.0, 0.25]), zero=pd.Series([0.0, 0.0, 0.0], index=i0), list=[0.5, 1.0, 0.25])
    labs = dict(good=pd.Series([1, -1, 1], index=i0), other=pd.Series([1, -1, 1], index=[0, 1, 3]), none=None, array=np.array([1, -1, 1]))

    def body(case):
        a, c, ra, vt, lb = case
        ctx.state(str(case))
        got = ctx.call(SampleWeights.compute_final_weights, vals[a], c, vals[ra], vals[vt], labs[lb])
        num = isinstance(c, (int, float))
        bad = (a in ("none", "array", "list") or not num or not -1 <= c <= 1 or any(v in ("array", "list") for v in (ra, vt)) or lb == "array"
               or any(v != "none" and (v == "other") != (a == "other") for v in (ra, vt, lb))
               or "zero" in (a, ra, vt))
        if num and c == -1 and a in ("good", "other"):
            return          # everything but the newest is erased: C20
        verdict(ctx, f"final weights of {a}, intercept {c!r}, attribution {ra}, touch weights {vt}, labels {lb}", got, (ValueError,) if bad else None)
    ctx.run(itertools.product(vals, (1.0, 0, 0.5, -0.5, -1.0, 1.0000001, -1.0000001, NAN, np.inf, "1", None), vals, vals, labs), body)


def kernels_body(ctx, lens):
    from finmlkit.label.tbm import triple_barrier
    from finmlkit.label.weights import average_uniqueness, time_decay
    from finmlkit.sampling.filters import cusum_filter

    def tb(case):
        n, m, e, t, s, vb, mr = case
        side = None if s is None else np.ones(s, dtype=np.int8)
        got = ctx.call(triple_barrier, np.arange(n, dtype=np.int64) * NS, np.linspace(100.0, 104.0, m), np.arange(e, dtype=np.int64), np.full(t, 0.01),
                       (1.0, 1.0), vb, 0.0, side, mr)
        bad = n != m or e != t or e == 0 or (s is not None and s != e) or vb <= 0 or mr < 0
        ctx.state("tb", str(case))
        verdict(ctx, f"triple_barrier({n} timestamps, {m} prices, {e} events, {t} targets, sides {s}, vertical {vb}, min_ret {mr})", got,
                (ValueError,) if bad else None)
    ctx.run(itertools.product((4, 5), (4, 5), (0, 1, 2), (0, 1, 2), (None, 0, 1, 2), (1.0, 1e-9, 0.0, -1.0, np.inf), (0.0, -1e-12, 0.001)), tb)

    def au(case):
        e, t = case
        got = ctx.call(average_uniqueness, np.arange(4, dtype=np.int64), np.arange(e, dtype=np.int64), np.arange(t, dtype=np.int64) + 1)
        verdict(ctx, f"average_uniqueness({e} events, {t} touches)", got, (ValueError,) if e != t else None)
    ctx.run(itertools.product(lens, lens), au)

    def td(case):
        u, c = case
        got = ctx.call(time_decay, np.array(u), c)
        if c == -1.0 and sum(u):
            return          # C20
        verdict(ctx, f"time_decay({u}, {c})", got, (ValueError,) if not sum(u) or not -1 <= c <= 1 else None)
    ctx.run(itertools.product([u for k in (1, 2, 3) for u in itertools.product((0.0, 0.5), repeat=k)],
                              (0.0, 1.0, -0.5, -1.0, 1.0 + 1e-12, -1.0 - 1e-12, 2.0, NAN, np.inf)), td)

    def cf(case):
        n, t = case
        got = ctx.call(cusum_filter, np.linspace(1.0, 2.0, n), np.full(t, 0.1))
        verdict(ctx, f"cusum_filter({n} prices, {t} thresholds)", got, (ValueError,) if n <= 1 or t not in (1, n) else None)
    ctx.run(itertools.product(range(0, 6), range(0, 7)), cf)


def arrays_body(ctx):
    from finmlkit.bar.base import comp_bar_ohlcv, comp_bar_trade_size_features
    from finmlkit.bar.logic import _cusum_bar_indexer
    from finmlkit.bar.utils import comp_price_tick_size
    from finmlkit.feature.core.structural_break.cusum import cusum_test_last, cusum_test_rolling, cusum_test_developing
    from finmlkit.feature.core.ma import ewma
    from finmlkit.feature.core.utils import comp_lagged_returns
    from finmlkit.feature.core.volatility import true_range

    def oh(case):
        p, v, c = case
        got = ctx.call(comp_bar_ohlcv, np.linspace(1.0, 2.0, p), np.ones(v), np.array([-1, 1, 2][:c], dtype=np.int64))
        verdict(ctx, f"comp_bar_ohlcv({p} prices, {v} volumes, {c} closes)", got, (ValueError,) if p != v or c < 2 else None)
    ctx.run(itertools.product((3, 4), (3, 4), (1, 2, 3)), oh)

    def ts(case):
        th, c = case
        got = ctx.call(comp_bar_trade_size_features, np.ones(6), np.full(th, 1.0), np.array([-1, 1, 3, 5][:c], dtype=np.int64), 2.0)
        verdict(ctx, f"trade size features({th} reference sizes, {c} closes)", got, (ValueError,) if th != c - 1 else None)
    ctx.run(itertools.product((1, 2, 3, 4), (2, 3, 4)), ts)

    def cb(case):
        p, t, s = case
        got = ctx.call(_cusum_bar_indexer, np.arange(t, dtype=np.int64) * NS, np.linspace(1.0, 2.0, p), np.full(s, 0.01), 1e-4, 2.0)
        verdict(ctx, f"CUSUM bars({p} prices, {t} timestamps, {s} volatilities)", got, (ValueError,) if not p == t == s else None)
    ctx.run(itertools.product((3, 4), (3, 4), (3, 4)), cb)

    def tk(n):
        verdict(ctx, f"tick size of {n} prices", ctx.call(comp_price_tick_size, np.linspace(1.0, 2.0, n)), (ValueError,) if not n else None)
    ctx.run(range(0, 4), tk)

    def cu(case):
        px, fn = case
        x = np.array(px)
        f = dict(last=lambda: cusum_test_last(x), rolling=lambda: cusum_test_rolling(x, 4, 2), developing=lambda: cusum_test_developing(x, 2))[fn]
        bad = fn == "rolling" and min(px) <= 0
        if not bad and min(px) <= 0:
            return
        verdict(ctx, f"cusum test ({fn}) of {px}", ctx.call(f), (ValueError,) if bad else None)
    ctx.run([(px, fn) for px in itertools.product((0.0, -1.0, 1.0, 2.0, 3.0), repeat=4) if len(set(px)) > 2 for fn in ("last", "rolling", "developing")], cu)

    def ew(span):
        verdict(ctx, f"ewma(span {span})", ctx.call(ewma, np.array([1.0, 2.0, 3.0]), span), (ValueError,) if span < 1 else None)
    ctx.run((-1, 0, 1, 2, 3), ew)

    def lr(w):
        verdict(ctx, f"comp_lagged_returns(window {w})", ctx.call(comp_lagged_returns, np.arange(4, dtype=np.int64) * NS, np.array([1.0, 2.0, 3.0, 4.0]), w, True),
                (ValueError,) if w <= 0 else None)
    ctx.run((-1.0, -1e-9, 0.0, 1e-9, 0.5, 1.0, 100.0), lr)

    def tr(case):
        got = ctx.call(true_range, *[np.linspace(1.0, 2.0, k) for k in case])
        verdict(ctx, f"true_range of {case} highs, lows, closes", got, (ValueError,) if len(set(case)) > 1 else None)
    ctx.run(itertools.product((2, 3), repeat=3), tr)


@phase("kernels")
def kernels(ctx):
    kernels_body(ctx, range(0, 4))
    arrays_body(ctx)


# ---------------------------------------------------------------------------------------------------------- containers
@phase("trades")
def trades(ctx):
    from finmlkit.bar.data_model import TradesData
    n = 4
    good = dict(ts=np.array([T0 + i * NS for i in range(n)]), px=np.array([1.0, 2.0, 3.0, 2.0]), qty=np.array([1.0, 1.0, 2.0, 1.0]),
                id=np.arange(n), is_buyer_maker=np.array([True, False, True, False]), side=np.array([1, -1, 1, 1], dtype=np.int8))

    def body(case):
        bad, how, opt, pre, unit, res = case
        a = dict(good)
        for k in ("is_buyer_maker", "side"):
            if k != opt:
                a[k] = None
        if bad:
            a[bad] = dict(list=list(good[bad]), series=pd.Series(good[bad]), tuple=tuple(good[bad]), none=None)[how]
        ctx.state(str(case))
        ts = a["ts"]
        if unit in ("s", "ms", "us") and bad != "ts":
            a["ts"] = ts // dict(s=NS, ms=10 ** 6, us=10 ** 3)[unit]
        got = ctx.call(lambda: TradesData(a["ts"], a["px"], a["qty"], a["id"], is_buyer_maker=a["is_buyer_maker"], side=a["side"],
                                          timestamp_unit=unit, preprocess=pre, proc_res=res))
        if bad and not (how == "none" and bad in ("id", "is_buyer_maker", "side")):
            want = (TypeError,)
        elif pre and (a["id"] is None or unit == "min" or (res == "min")):
            want = (ValueError,)
        else:
            want = None
        what = f"TradesData({bad or 'all good'}{' as ' + how if bad else ''}, {opt}, preprocess {pre}, unit {unit}, resolution {res})"
        if verdict(ctx, what, got, want) and want is None:
            ctx.expect(len(got.data) == n and list(got.data["price"]) == list(good["px"]), f"{what}: {got.data}")
    ctx.run([c for c in itertools.product((None, "ts", "px", "qty", "id", "is_buyer_maker", "side"), ("list", "series", "tuple", "none"),
                                          (None, "is_buyer_maker", "side"), (False, True), (None, "s", "ms", "us", "ns", "min"), (None, "s", "ns", "min"))
             if (c[0] or c[1] == "list") and (c[0] not in ("is_buyer_maker", "side") or c[2] == c[0])], body)


    points = [T0 + k * NS // 2 for k in (-1, 0, 1, 3, 4, 6, 7)]

    def view(case):                     # a view range with nothing in between is refused and the visible trades stay
        before, i, j, text = case
        td = TradesData(good["ts"], good["px"], good["qty"], good["id"], timestamp_unit="ns")
        if before:
            td.set_view_range(pd.Timestamp(T0), pd.Timestamp(T0 + NS))
        seen = list(td.data["price"])
        a, b = (pd.Timestamp(points[x]) for x in (i, j))
        a, b = str(a) if text & 1 else a, str(b) if text & 2 else b
        ctx.state("view", case)
        what = f"set_view_range({a!r}, {b!r}) {'after another view' if before else ''}"
        if not verdict(ctx, what, ctx.call(td.set_view_range, a, b), (ValueError,) if i >= j else None):
            return
        want = seen if i >= j else [p for t, p in zip(good["ts"], good["px"]) if points[i] <= t <= points[j]]
        ctx.expect(list(td.data["price"]) == want, f"{what}: visible prices {list(td.data['price'])}, expected {want}")
    ctx.run(itertools.product((False, True), range(7), range(7), range(4)), view)


@phase("footprints")
def footprints(ctx):
    from finmlkit.bar.data_model import FootprintData
    fields = ("bar_timestamps", "price_levels", "buy_volumes", "sell_volumes", "buy_ticks", "sell_ticks", "buy_imbalances", "sell_imbalances",
              "buy_imbalances_sum", "sell_imbalances_sum", "cot_price_levels", "imb_max_run_signed", "vp_skew", "vp_gini")

    def parts(n):
        lv = [np.arange(3 + i % 2, dtype=np.int32) for i in range(n)]
        f4 = [np.ones(len(x), dtype=np.float32) for x in lv]
        i4 = [np.ones(len(x), dtype=np.int32) for x in lv]
        bo = [np.zeros(len(x), dtype=bool) for x in lv]
        return [np.array([T0 + i * NS for i in range(n)]), lv, f4, f4, i4, i4, bo, bo] + [np.zeros(n, dtype=d) for d in ("u2", "u2", "i4", "i2", "f8", "f8")]

    def length(case):                   # every pattern of up to two arrays too long or too short
        n, wrong = case
        a = parts(n)
        for k, d in wrong:
            a[k] = parts(n + d)[k]
        ctx.state("len", case)
        lens = {len(x) for x in a}
        what = f"from_numba of {n} bars with {[(fields[k], d) for k, d in wrong]}"
        got = ctx.call(FootprintData.from_numba, tuple(a), 0.5)
        if not verdict(ctx, what, got, (ValueError,) if len(lens) > 1 else None):
            return
        ctx.expect(isinstance(got, Raised) or (len(got) == n and got.is_valid()), f"{what}: length or validity")
        m = FootprintData(bar_timestamps=a[0], price_tick=0.5, **{f: x for f, x in zip(fields[1:], a[1:])})
        ctx.expect(bool(m.is_valid()) == (len(lens) == 1), f"{what}: is_valid() is {m.is_valid()}")
    one = [((k, d),) for k in range(len(fields)) for d in (-1, 1)]
    two = [((k, d), (j, e)) for k in range(len(fields)) for j in range(k + 1, len(fields)) for d in (-1, 1) for e in (-1, 1)]
    ctx.run(itertools.product((1, 2, 3), [()] + one + two), length)

    def index(case):
        n, key = case
        fp = FootprintData.from_numba(tuple(parts(n)), 0.5)
        ctx.state("ix", str(case))
        ok = isinstance(key, slice) or (isinstance(key, int) and -n <= key < n)
        got = ctx.call(lambda: fp[key])
        if verdict(ctx, f"footprints of {n} bars [{key!r}]", got, None if ok else (IndexError,) if isinstance(key, int) else (TypeError,)) and ok:
            ctx.expect(list(got.bar_timestamps) == list(fp.bar_timestamps[key if isinstance(key, slice) else [key]]), f"footprints of {n} bars [{key!r}]")
    ctx.run(itertools.product((1, 2, 3), list(range(-5, 6)) + [slice(0, 2), slice(5, 9), slice(None), 1.0, "2023-11-14", None, (0, 1), [0], np.array([0]),
                                                               pd.Timestamp(T0), {"a": 1}]), index)


# ---------------------------------------------------------------------------------------------------------- stores
@phase("stores")
def stores(ctx):
    from finmlkit.bar.data_model import TradesData
    from finmlkit.bar.io import AddTimeBarH5, H5Inspector, TimeBarReader
    mon = {"2023-11": T0, "2023-12": T0 + 30 * 86400 * NS}

    made = {}

    def store(have, klines):
        if (have, klines) not in made:
            path = os.path.join(os.environ["MC_SCRATCH"], f"s{os.getpid()}_{len(made)}.h5")
            for m in have:
                t = np.array([mon[m] + i * NS for i in range(4)])
                TradesData(t, np.array([1.0, 2.0, 3.0, 2.0]), np.ones(4), np.arange(4), is_buyer_maker=np.array([True, False, True, False]),
                           timestamp_unit="ns", preprocess=True).save_h5(path)
            if klines:
                AddTimeBarH5(path).process_all()
            made[(have, klines)] = path, open(path, "rb").read()
        return made[(have, klines)]

    def body(case):
        have, klines, key, lo, hi = case
        path, raw = store(have, klines)
        T = {None: None, "before": pd.Timestamp(T0 - 86400 * NS), "in1": pd.Timestamp(mon["2023-11"] + NS), "between": pd.Timestamp(T0 + 86400 * NS),
             "in2": pd.Timestamp(mon["2023-12"] + NS), "after": pd.Timestamp(T0 + 90 * 86400 * NS)}
        a, b = T[lo], T[hi]
        ctx.state(str(case))
        rows = [m for m in have if key in (None, m) for i in range(4)
                if (a is None or pd.Timestamp(mon[m] + i * NS) >= a) and (b is None or pd.Timestamp(mon[m] + i * NS) <= b)]
        what = f"store of {have}{' with bars' if klines else ''}, key {key}, from {lo} to {hi}"
        got = ctx.call(TradesData.load_trades_h5, path, key=key, start_time=a, end_time=b, enable_multiprocessing=False)
        if not verdict(ctx, "trades of a " + what, got, None if rows else (KeyError, ValueError)):
            return
        ctx.expect(isinstance(got, Raised) or len(got.data) == len(rows), f"trades of a {what}: {len(rows)} trades expected")
        if lo is None and hi is None and key:
            ins = H5Inspector(path)
            for nm in ("get_metadata", "get_integrity_info", "get_statistics"):
                if not verdict(ctx, f"{nm} of a {what}", ctx.call(getattr(ins, nm), f"/trades/{key}"), None if key in have else (KeyError,)):
                    return
            if not verdict(ctx, f"AddTimeBarH5 of a {what}", ctx.call(AddTimeBarH5, path, [key]), None if key in have else (KeyError,)):
                return
            if have and not verdict(ctx, f"AddTimeBarH5 of a {what} and the existing ones", ctx.call(AddTimeBarH5, path, [have[0], key]),
                                    None if key in have else (KeyError,)):
                return
        if open(path, "rb").read() != raw:
            ctx.fail(f"{what}: reading or a refused request changed the file")
    whens = (None, "before", "in1", "between", "in2", "after")
    ctx.run([c for c in itertools.product((("2023-11",), ("2023-11", "2023-12")), (False, True), (None, "2023-11", "2023-12", "2024-01", ""), whens, whens)
             if whens.index(c[3]) <= whens.index(c[4]) or c[4] is None], body)


@phase("jit", jit=True, shards=1)
def jit(ctx):
    kernels_body(ctx, range(0, 4))
    arrays_body(ctx)
