"""C31: a feature kit rebuilt from its configuration computes the same columns, or the configuration is refused."""
import itertools
import json
import os
import tempfile
import warnings

import numpy as np
import pandas as pd

from mc import expr, feat
from mc.core import Raised, phase

BOUNDS = ("every transform with each of its parameter sets of the feature table (also with other input columns and NumPy integer parameters), ExternalFunction with "
          "paths, callables, arguments and several outputs, every Compose of two or three of 8 transforms, every operator expression of C30 with one operation, every "
          "sequence of up to 3 operations (thorough: 4) out of 15 incl. renaming, every ordered pair and triple of 12 named features in a kit, configurations damaged in "
          "each operation name; each saved to text and loaded twice")
ASSUMPTIONS = ["time windows of a whole number of microseconds"]
TMP = tempfile.mkdtemp(prefix="mc_c31_")
N = 40
NAN = float("nan")


def big():
    r = lambda a, b, m: np.array([((i * a + b) % m) / 8.0 for i in range(N)])
    c = 10.0 + r(7, 3, 23) - r(5, 1, 11)
    d = dict(close=c, open=c + r(3, 2, 5) - 0.25, high=c + 1.0 + r(3, 1, 7), low=c - 1.0 - r(5, 2, 7), volume=r(11, 4, 17), vwap=c + 0.125,
             volume_buy=r(7, 1, 13), volume_sell=r(5, 0, 13), x=c, y=c - 10.0, ret=(c - 10.0) / 100, ret1=(c - 10.125) / 100)
    idx = pd.DatetimeIndex([feat.T0 + 1800 * feat.S * i + (i % 3) for i in range(N)]).as_unit("ns")
    df = pd.DataFrame(d, index=idx)
    for col in list(df):
        df[col + "_b"] = df[col] + 0.5 if col not in ("ret", "ret1", "y") else df[col] * 0.5
    return df


_n = [0]


def reload(ctx, kit, how):
    from finmlkit.feature.kit import FeatureKit
    if how == "text":
        return FeatureKit.from_dict(json.loads(json.dumps(kit.to_config())))
    _n[0] += 1
    path = os.path.join(TMP, f"{os.getpid()}_{_n[0]}.json")
    try:
        kit.save_config(path)
        return FeatureKit.from_config(path)
    finally:
        if os.path.exists(path):
            os.unlink(path)


def equal(a, b):
    if isinstance(a, Raised) or isinstance(b, Raised):
        return isinstance(a, Raised) and isinstance(b, Raised) and type(a.exc) is type(b.exc)
    if list(a.columns) != list(b.columns) or not a.index.equals(b.index) or list(a.dtypes) != list(b.dtypes):
        return False
    return all(np.array_equal(a.iloc[:, k].to_numpy(), b.iloc[:, k].to_numpy(), equal_nan=a.dtypes.iloc[k].kind == "f") for k in range(a.shape[1]))


def show(r):
    return repr(r) if isinstance(r, Raised) else f"{list(r.columns)} {[str(t) for t in r.dtypes]} {[c.tolist()[:12] for _, c in r.items()]}"


def trip(ctx, what, feats, df, retain=(), orders=("defined",), backends=("nb", "pd"), refuse=False):
    from finmlkit.feature.kit import FeatureKit
    kit = FeatureKit(feats, retain=list(retain))
    wants = {(b, o): ctx.call(kit.build, df, backend=b, order=o) for b in backends for o in orders}
    if any(isinstance(w, Raised) for w in wants.values()):
        ctx.fail(f"{what} cannot be built: {wants}")
        return
    back = kit
    for k in range(2):
        back = ctx.call(reload, ctx, back, "text" if k == 0 else "file")
        ctx.trans()
        if isinstance(back, Raised):
            if not refuse or not isinstance(back.exc, ValueError):
                ctx.fail(f"{what}: configuration cannot be loaded: {back}")
            return
        if refuse:
            ctx.fail(f"{what}: the configuration does not say what is computed but was loaded without an error")
            return
        if [f.name for f in back.features] != [f.name for f in kit.features] or back.retain != kit.retain:
            ctx.fail(f"{what}: names {[f.name for f in kit.features]} retain {kit.retain} became {[f.name for f in back.features]} {back.retain}")
        if [f.transform.output_name for f in back.features] != [f.transform.output_name for f in kit.features]:
            ctx.fail(f"{what}: transform output {[f.transform.output_name for f in kit.features]} became {[f.transform.output_name for f in back.features]}")
        if json.dumps(back.to_config()) != json.dumps(kit.to_config()):
            ctx.fail(f"{what}: configuration changed: {kit.to_config()} became {back.to_config()}")
        for (b, o), want in wants.items():
            ctx.trace()
            got = ctx.call(back.build, df, backend=b, order=o)
            if not equal(want, got):
                ctx.fail(f"{what} ({b}, {o}) built {show(want)}, after loading its configuration {show(got)}")
                return
    ctx.outcome(what, *[c.tolist()[-1] if c.dtype.kind in "fiub" else 0 for _, c in next(iter(wants.values())).items()])


@phase("transforms")
def transforms(ctx):
    from finmlkit.feature import transforms as T
    from finmlkit.feature.kit import Feature
    df = big()

    def gen():
        for name, f in feat.TABLE.items():
            if f.cls:
                for k in range(len(f.params)):
                    for other in (False, True):
                        for np_int in (False, True):
                            yield name, k, other, np_int
        for k in range(len(special(T))):
            yield "special", k, False, False

    def body(case):
        name, k, other, np_int = case
        ctx.state(case)
        if name == "special":
            t = special(T)[k]
            trip(ctx, f"{type(t).__name__} {vars(t)}", [Feature(t)], df)
            return
        f = feat.TABLE[name]
        p = {a: np.int64(v) if np_int and type(v) is int and a in ("window", "periods", "length", "span", "recent_periods", "ddof") and
             not isinstance(v, bool) and v < 10 ** 6 else v for a, v in f.params[k].items()}
        if np_int and not any(isinstance(v, np.integer) for v in p.values()):
            return
        old = f.cols
        try:
            f.cols = [c + "_b" for c in old] if other else old
            t = f.transform(p)
        finally:
            f.cols = old
        trip(ctx, f"{name}{p} of {f.cols} {'(other columns)' if other else ''}", [Feature(t)], df)
    ctx.run(gen(), body)


def special(T):
    E = T.ExternalFunction
    return [
        T.CUSUMTest(12, 6, 3, "close"), T.CUSUMTest(10, 10, 300, "x"), T.CUSUMTest(), T.TimeCues("volume"), T.Identity("volume"), T.Lag(),
        T.ReturnT(pd.Timedelta("90min")), T.ReturnT(pd.Timedelta("1D"), is_log=True, input_col="x"), T.ReturnT(), T.EWMST(pd.Timedelta("31min"), "y"),
        T.EWMST(pd.Timedelta("1.5s"), "y"),  T.BarRate(pd.Timedelta("2h")), T.BarRate(pd.Timedelta("1h0.000001s"), "volume"), T.PctChange(3, "volume"),
        T.PctChange(1), T.ATR(3, True, True), T.StochK(5, ["close", "low", "high"]), T.ADX(3), T.VPIN(4), T.DailyGap("x"), T.ORBBreak(), T.CandleShape(),
        T.BarDuration(2, "x"), T.DirRunLen("ret"), T.BarDurationEWMA(7), T.RSIWilder(5, "x"), T.VarianceRatio14(20, "close", "simple", 1), T.VarianceRatio14(20),
        T.HurstExponent(12, "ret"), T.PriceVolumeCorrelation(5, ["x", "volume"]), T.VWAPDistance(3, True), T.RealizedVolatility(5, True, "ret1"),
        E("numpy.log", "close"), E("numpy.log", "close", "lc", pass_numpy=True), E("numpy.maximum", ["close", "open"], "mx"),
        E("numpy.maximum", ["close", "open"], "mx", pass_numpy=True), E("numpy.modf", "close", ["frac", "whole"]), E("numpy.modf", "close", ["frac", "whole"], pass_numpy=True),
        E("numpy.power", "close", "sq", args=[2]), E("numpy.power", "close", "sq", args=(0.5,), pass_numpy=True), E("numpy.round", "vwap", kwargs={"decimals": 1}),
        E("numpy.clip", "close", "cl", args=[10.0], kwargs={"a_max": 11.0}), E(np.log, "close", "l2"), E(np.cumsum, "volume", pass_numpy=True),
        E(np.power, "close", "sq", args=[np.int64(2)]), E(np.roll, "close", "rl", args=[np.int64(3)], pass_numpy=True), E(np.clip, "close", "cl", args=[np.float32(10), np.float64(11)]),
        E("mc.checks.c31.weighted", ["close", "volume"], "w", kwargs={"weights": [0.25, 0.75], "flip": True}),
        E("mc.checks.c31.weighted", ["volume", "close"], "w", kwargs={"weights": (0.25, 0.75)}), E(weighted, ["volume", "close"], "w", kwargs={"weights": [1, 2], "flip": False}),
        E(weighted, ["volume", "close"], "w", kwargs={"flip": np.bool_(False)}), E(weighted, ["volume", "close"], "w", kwargs={"flip": np.bool_(True)}),
        E(weighted, ["close", "volume"], "w", args=[[0.5, 2.0], True]), E(weighted, ["close", "volume"], "w", args=([0.5, np.int64(2)], np.bool_(False))),
        E(cubic, "close", "cu", args=[1.0, 0.5, 0.25, -2.0]), E(cubic, "x", "cu", args=[1.0, 0.5], kwargs={"d": 3.0, "c": 2.0}), E(cubic, "x", "cu", args=(1, 2, 3), pass_numpy=True),
        T.Return(2, is_log=np.bool_(False)), T.Return(2, is_log=np.bool_(True)), T.RealizedVolatility(5, np.bool_(False), "ret1"), T.ATR(3, np.bool_(False), np.bool_(True)),
    ]


def weighted(a, b, weights=(1, 1), flip=False):
    return (a * weights[0] + b * weights[1]) * (-1 if flip else 1)


def cubic(x, a=0.0, b=0.0, c=0.0, d=0.0):
    return a + b * x + c * x ** 2 + d * x ** 3


weighted.__module__ = cubic.__module__ = "mc.checks.c31"


@phase("windows")
def windows(ctx):
    """time windows of every odd length come back to the nanosecond: bars lie exactly one window apart and next to it"""
    from finmlkit.feature import transforms as T
    from finmlkit.feature.kit import Feature

    def gen():
        for us in list(range(1, 400)) + list(range(999_900, 1_001_100, 7)) + [1_001_000, 4_100_000, 134_205, 2_592_000_016_758, 86_461_001_000] + (
                list(range(1000, 3_000_000, 997)) if ctx.thorough else []):
            yield us

    def body(us):
        q = us * 1000
        ctx.state(us)
        ts = sorted({1_704_067_200 * 10 ** 9 + k * q + d for k in range(4) for d in (0, 1)})
        df = pd.DataFrame({"close": [10.0 + (i * i * 7 % 5) / 4 + i / 8 for i in range(len(ts))]}, index=pd.DatetimeIndex(ts))
        w = pd.Timedelta(q, unit="ns")
        trip(ctx, f"windows of {us} us", [Feature(T.ReturnT(w)), Feature(T.BarRate(w)), Feature(T.EWMST(w, "close"))], df, backends=("nb",))
    ctx.run(gen(), body)


@phase("compose")
def compose(ctx):
    from finmlkit.feature import transforms as T
    from finmlkit.feature.kit import Compose, Feature
    df = big()
    mk = [lambda: T.Lag(2, "x"), lambda: T.Return(2, "close", True), lambda: T.SMA(3, "volume"), lambda: T.EWMA(4, "close"), lambda: T.ZScore(5, "x"),
          lambda: T.ReturnT(pd.Timedelta("90min")), lambda: T.PctChange(2, "volume"), lambda: T.StochK(4)]

    def gen():
        for k in (2, 3) + ((4,) if ctx.thorough else ()):
            for sel in itertools.product(range(len(mk)), repeat=k):
                if 7 not in sel[1:]:
                    yield sel

    def body(sel):
        ctx.state(sel)
        t = Compose(*[mk[i]() for i in sel])
        f = Feature(t)
        trip(ctx, f"Compose{sel}", [f] if sum(sel) % 2 else [f.rolling_mean(2)], df, backends=("nb",))
    ctx.run(gen(), body)


@phase("expressions")
def expressions(ctx):
    def gen():
        L = expr.leaves()
        yield from L
        yield from expr.layer(L, consts=(0.5, -2, 1e-7, 3))
        yield from expr.pairs(L, L)

    df = expr.frame()

    def body(e):
        ctx.state(e)
        own = e[0] == "un" and e[1] in ("apply", "same")
        trip(ctx, f"{e}", [expr.build(e)], df, refuse=own)
    ctx.run(gen(), body)


OPS = ["abs", "clip", "clip_lo", "clip_hi", "log1p", "rmean", "ema", "ema_na", "lag1", "const", "rconst", "max", "bin", "rbin", "rename"]


@phase("operations")
def operations(ctx):
    from finmlkit.feature.kit import Feature
    df = expr.frame()

    def gen():
        for leaf in ("ret", "logret", "close", "retsma"):
            for k in (2, 3) + ((4,) if ctx.thorough else ()):
                for seq in itertools.product(OPS, repeat=k):
                    yield leaf, seq

    def body(case):
        leaf, seq = case
        ctx.state(case)
        f = expr.build(("leaf", leaf))
        for k, o in enumerate(seq):
            other = expr.build(("leaf", "vol1"))
            if o == "rename":
                f.name = f"my_{k}"
            elif o == "const":
                f = f * 0.1
            elif o == "rconst":
                f = 1 / f
            elif o == "max":
                f = Feature.max(f, -0.25)
            elif o == "bin":
                f = f - other
            elif o == "rbin":
                f = Feature.min(other, f)
            else:
                f = expr.UNARY[o][0](f)
        trip(ctx, f"{leaf} then {seq}", [f], df, backends=("nb",))
    ctx.run(gen(), body)


EXTREME = (NAN, -1e300, -800.0, -3.0, -0.5, -1e-7, -0.0, 0.0, 1e-300, 1e-7, 0.25, 0.5, 1.0, 3.0, 709.0, 712.0, 800.0, 1e17, 1e300, float("inf"), float("-inf"), 2.0, -2.0)


@phase("parameters")
def parameters(ctx):
    """every option of the built-in operations, on values from one end of the float range to the other"""
    from finmlkit.feature import transforms as T
    from finmlkit.feature.kit import Feature
    idx = pd.date_range("2024-01-01", periods=len(EXTREME), freq="min")
    df = pd.DataFrame({"close": EXTREME, "x": EXTREME[::-1]}, index=idx)
    B = (None, -1e20, -3, -0.5, -1e-7, 0, 0.0, -0.0, 1e-7, 0.25, 1, 10, 700.5, 1e17, np.float64(0.25), np.int64(3), float("inf"))
    ops = [("clip", (lo, hi)) for lo in B for hi in B if (lo, hi) != (None, None) and not (lo is not None and hi is not None and lo > hi)]
    ops += [("lag", (k,)) for k in range(-4, 5)] + [("lag", (np.int64(2),)), ("lag", (100,))] + [("ema", (k, a)) for k in (1, 2, 3, 10, 99) for a in (True, False)]
    ops += [(o, (k,)) for o in ("rolling_mean", "rolling_sum", "rolling_std") for k in (1, 2, 3, 10, 22, 23, 24)]
    ops += [(o, ()) for o in ("abs", "log", "log1p", "exp", "square", "sqrt")]

    def gen():
        for a in ops:
            yield (a,)
        short = [("clip", (0, None)), ("clip", (None, 0)), ("lag", (-1,)), ("lag", (1,)), ("ema", (3, False)), ("ema", (1, True)), ("rolling_std", (2,)), ("exp", ()), ("log", ()),
                 ("abs", ()), ("sqrt", ()), ("square", ())]
        yield from itertools.product(short, repeat=2)
        for a in ops[::1 if ctx.thorough else 9]:
            for b in short:
                yield a, b
                yield b, a

    def body(case):
        ctx.state(repr(case))
        f = Feature(T.Identity("close"))
        for o, a in case:
            f = getattr(f, o)(*a)
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            trip(ctx, f"close then {case}", [f], df, backends=("nb",))
    ctx.run(gen(), body)

    def arith():
        for c in (0, 0.0, -0.0, 1, -1, 2 ** 53 + 1, 0.1, 1e-300, 1e300, 1e17, np.float64(0.1), np.int64(7), np.float32(0.1), True, float("inf"), float("-inf")):
            for k in range(10):
                yield c, k

    def consts(case):
        c, k = case
        ctx.state(repr(case))
        f = Feature(T.Identity("close"))
        g = ctx.call(lambda: [lambda: f + c, lambda: f - c, lambda: f * c, lambda: f / c, lambda: c + f, lambda: c - f, lambda: c * f, lambda: c / f,
                              lambda: Feature.min(f, c), lambda: Feature.max(c, f)][k]())
        if isinstance(g, Raised) or not isinstance(g, Feature):
            return                  # NumPy scalars may not be accepted on the left
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            trip(ctx, f"close with constant {c!r} ({k})", [g], df, backends=("nb",))
    ctx.run(arith(), consts)


@phase("kits")
def kits(ctx):
    from finmlkit.feature import transforms as T
    from finmlkit.feature.kit import Feature
    df = big()

    def feats():
        r, c = Feature(T.Return(1)), Feature(T.Identity("close"))
        s = c.rolling_mean(3)
        named = Feature(T.SMA(4, "close"))
        named.name = "fast"
        multi = Feature(T.CandleShape())
        multi.name = [f"shape{k}" for k in range(len(multi.name))]
        ext = Feature(T.ExternalFunction("numpy.modf", "close", ["fr", "wh"]))
        use = Feature(T.Lag(1, "fr"))
        dev = c - s
        dev.name = "dev"
        return [r, Feature(T.Return(1, is_log=True)).clip(-0.1, 0.1), s, named, Feature(T.SMA(2, "close_sma4")), multi, ext, use, dev, dev.abs(), Feature(T.TimeCues()),
                Feature.max(r, 0) / Feature(T.ReturnT(pd.Timedelta("1h")))]

    needs = {4: 3, 7: 6}

    def gen():
        for k in (2, 3) + ((4,) if ctx.thorough else ()):
            for sel in itertools.permutations(range(12), k):
                if all(needs[i] in sel for i in sel if i in needs):
                    yield sel

    def body(sel):
        ctx.state(sel)
        F = feats()
        fine = all(sel.index(needs[i]) < sel.index(i) for i in sel if i in needs)
        trip(ctx, f"kit {sel}", [F[i] for i in sel], df, retain=[(), ("close",), ("volume", "close")][sum(sel) % 3],
             orders=("topo", "defined") if fine else ("topo",), backends=("nb",))
    ctx.run(gen(), body)


@phase("damaged")
def damaged(ctx):
    """a configuration that names an unknown operation is refused"""
    from finmlkit.feature.kit import Feature, FeatureKit
    BAD = ["pow", "", "Add", "mean", "rmean", "rmeanx", "lag", "clip_a_b", "clip_x", "clip_outliers", "ema", "ema3_fast", "rsum-", "loglog", "add ", "min2"]
    base = [("un", "abs", ("leaf", "close")), ("const", "add", ("leaf", "close"), 2), ("rconst", "rdiv", ("leaf", "close"), 2), ("cmm", "min", ("leaf", "close"), 2),
            ("bin", "div", ("leaf", "close"), ("leaf", "ret")), ("mm", "max", ("leaf", "close"), ("leaf", "ret"))]

    def gen():
        for e in base:
            for outer in (None, "un", "bin"):
                for bad in BAD:
                    yield e, outer, bad
        for kind in ("custom", "min", "Max", "rmean_x", "clip_tails", "lagged", "emax", "rstdev", "abs_", "log2"):
            for e in base[:2]:
                yield e, "apply", kind

    def body(case):
        e, outer, bad = case
        ctx.state(case)
        ctx.trans()
        f = expr.build(e)
        if outer == "apply":
            f = f.apply(expr.twice, 3.0, suffix=bad)
        if outer == "un":
            f = f.rolling_mean(2)
        if outer == "bin":
            f = f - expr.build(("leaf", "ret"))
        cfg = json.loads(json.dumps(FeatureKit([f]).to_config()))
        node = cfg["features"][0]["transform"]
        if outer == "un":
            node = node["child"]
        if outer == "bin":
            node = node["left"]
        if outer != "apply":
            node["op_name"] = bad
        ctx.trace()
        r = ctx.call(FeatureKit.from_dict, cfg)
        if not (isinstance(r, Raised) and isinstance(r.exc, ValueError)):
            ctx.fail(f"configuration of {e} ({outer}) with operation {bad!r} was not refused with a ValueError: {r}")
    ctx.run(gen(), body)
