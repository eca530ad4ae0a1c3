"""Feature expressions: construction with the real operators, values by definition, expected names."""
import itertools
import math

import numpy as np
import pandas as pd

from mc.feat import NAN, T0, S, div, nan

ROWS = dict(
    close=(10.0, 10.5, 9.75, 9.75, 11.0, 8.25, 8.5),
    high=(10.5, 10.75, 10.5, 9.875, 11.25, 11.0, 8.5),
    low=(9.5, 10.0, 9.5, 9.75, 9.5, 8.0, 8.5),
    volume=(1.0, 0.0, 2.5, NAN, 3.0, 4.0, 0.5),
)


def frame(n=7):
    return pd.DataFrame({k: v[:n] for k, v in ROWS.items()}, index=pd.DatetimeIndex([T0 + 60 * S * i for i in range(n)]).as_unit("ns"))


def _ret(log):
    def f(d):
        c = d["close"]
        return [NAN] + [math.log(b / a) if log else b / a - 1.0 for a, b in zip(c, c[1:])]
    return f


def _lag(col, k=1):
    return lambda d: ([NAN] * k + list(d[col]))[:len(d[col])]


def finite(x):
    """pandas windows take an infinity for a missing value"""
    return [NAN if math.isinf(v) else v for v in x]


def roll(x, w, fn):
    x = finite(x)
    return [fn(x[i - w + 1:i + 1]) if i >= w - 1 and not any(map(nan, x[i - w + 1:i + 1])) else NAN for i in range(len(x))]


def std(v):
    m = math.fsum(v) / len(v)
    return math.sqrt(math.fsum((y - m) ** 2 for y in v) / (len(v) - 1))


def ema(x, span, adjust=True):
    a, x = 2.0 / (span + 1.0), finite(x)
    out, y, old = [], NAN, 0.0
    for i, v in enumerate(x):
        if adjust:
            k = [j for j in range(i + 1) if not nan(x[j])]
            ws = [(1 - a) ** (i - j) for j in k]
            y = math.fsum(w * x[j] for w, j in zip(ws, k)) / math.fsum(ws) if k else NAN
        elif nan(y):
            y, old = v, 1.0
        else:
            old *= 1 - a
            if not nan(v):
                y, old = (old * y + a * v) / (old + a), 1.0
        out.append(y)
    return out


def _stoch(d):
    h, l, c = d["high"], d["low"], d["close"]
    out = []
    for i in range(len(c)):
        if i < 1:
            out.append(NAN)
            continue
        hi, lo = max(h[i - 1:i + 1]), min(l[i - 1:i + 1])
        out.append(100.0 * (c[i] - lo) / (hi - lo) if hi > lo else NAN)
    return out


# leaf: (constructor of the transform, values, name)
LEAVES = {
    "ret": (lambda T, K: T.Return(1), _ret(False), "close_ret1"),
    "logret": (lambda T, K: T.Return(1, is_log=True), _ret(True), "close_ret1"),            # same name, other values
    "vol1": (lambda T, K: T.Lag(1, "volume"), _lag("volume"), "volume_lag1"),
    "close": (lambda T, K: T.Identity("close"), lambda d: list(d["close"]), "close"),
    "lag1": (lambda T, K: T.Lag(1), _lag("close"), "close_lag1"),
    "stoch": (lambda T, K: T.StochK(2), _stoch, "stochk2"),
    "retsma": (lambda T, K: K.Compose(T.Return(1), T.SMA(2)), lambda d: roll(_ret(False)(d), 2, lambda v: sum(v) / 2), "close_ret1_sma2"),
    # the default input of the second step is a column of the frame: the pipeline goes on with the first step's output
    "lagret": (lambda T, K: K.Compose(T.Lag(1), T.Return(1)), lambda d: ([NAN] + _ret(False)(d))[:len(d["close"])], "close_lag1_ret1"),
    "lag1of3": (lambda T, K: K.Compose(T.Lag(1, "volume"), T.Lag(1, "volume"), T.Lag(1, "high")), _lag("volume", 3), "volume_lag1_lag1_lag1"),
}


def pointwise(fn):
    return lambda x: [fn(v) for v in x]


def _clip(lo, hi):
    return pointwise(lambda v: v if nan(v) else (lo if lo is not None and v < lo else hi if hi is not None and v > hi else v))


def _keep(fn):
    return pointwise(lambda v: NAN if nan(v) else fn(v))


def _exp(v):
    try:
        return math.exp(v)
    except OverflowError:
        return math.inf


def twice(x, by, plus=0.0):
    return x * by + plus


UNARY = {
    "abs": (lambda f: f.abs(), pointwise(abs), "abs({})"),
    "abs()": (lambda f: abs(f), pointwise(abs), "abs({})"),
    "clip": (lambda f: f.clip(lower=-0.02, upper=9.5), _clip(-0.02, 9.5), "{}_clip_-0.02_9.5"),
    "clip_lo": (lambda f: f.clip(lower=0), _clip(0.0, None), "{}_clip_0_"),
    "clip_hi": (lambda f: f.clip(upper=0.5), _clip(None, 0.5), "{}_clip__0.5"),
    "log": (lambda f: f.log(), pointwise(lambda v: NAN if not v > 0 else math.log(v)), "{}_log"),
    "log1p": (lambda f: f.log1p(), pointwise(lambda v: NAN if not v >= 0 else math.log1p(v)), "{}_log1p"),
    "exp": (lambda f: f.exp(), _keep(_exp), "{}_exp"),
    "square": (lambda f: f.square(), pointwise(lambda v: v * v), "{}_square"),
    "sqrt": (lambda f: f.sqrt(), pointwise(lambda v: NAN if not v >= 0 else math.sqrt(v)), "{}_sqrt"),
    "rmean": (lambda f: f.rolling_mean(2), lambda x: roll(x, 2, lambda v: sum(v) / 2), "{}_rmean2"),
    "rmean3": (lambda f: f.rolling_mean(3), lambda x: roll(x, 3, lambda v: sum(v) / 3), "{}_rmean3"),
    "ema": (lambda f: f.ema(3), lambda x: ema(x, 3), "{}_ema3"),
    "ema_na": (lambda f: f.ema(3, adjust=False), lambda x: ema(x, 3, False), "{}_ema3"),     # same name as ema, other values
    "rsum": (lambda f: f.rolling_sum(2), lambda x: roll(x, 2, sum), "{}_rsum2"),
    "rstd": (lambda f: f.rolling_std(2), lambda x: roll(x, 2, std), "{}_rstd2"),
    "lag1": (lambda f: f.lag(1), lambda x: ([NAN] + x)[:len(x)], "{}_lag1"),
    "lag2": (lambda f: f.lag(2), lambda x: ([NAN, NAN] + x)[:len(x)], "{}_lag2"),
    "apply": (lambda f: f.apply(twice, 2.0, plus=0.25), pointwise(lambda v: v * 2.0 + 0.25), "{}_twice"),
    "same": (lambda f: f.apply(lambda x: x, suffix="same"), list, "{}_same"),
}
BIN = {
    "add": (lambda a, b: a + b, lambda x, y: x + y),
    "sub": (lambda a, b: a - b, lambda x, y: x - y),
    "mul": (lambda a, b: a * b, lambda x, y: x * y),
    "div": (lambda a, b: a / b, div),
}
RIGHT = {
    "add": (lambda a, c: c + a, lambda x, c: c + x),
    "rsub": (lambda a, c: c - a, lambda x, c: c - x),
    "mul": (lambda a, c: c * a, lambda x, c: c * x),
    "rdiv": (lambda a, c: c / a, lambda x, c: div(c, x)),
}


def mn(x, y):
    return NAN if nan(x) or nan(y) else min(x, y)


def mx(x, y):
    return NAN if nan(x) or nan(y) else max(x, y)


def build(e):
    """the real Feature of an expression"""
    from finmlkit.feature import kit as K, transforms as T
    k = e[0]
    if k == "leaf":
        return K.Feature(LEAVES[e[1]][0](T, K))
    if k == "un":
        return UNARY[e[1]][0](build(e[2]))
    if k == "const":
        return BIN[e[1]][0](build(e[2]), e[3])
    if k == "rconst":
        return RIGHT[e[1]][0](build(e[2]), e[3])
    if k == "bin":
        return BIN[e[1]][0](build(e[2]), build(e[3]))
    f = K.Feature.min if e[1] == "min" else K.Feature.max
    if k == "cmm":
        return f(build(e[2]), e[3])
    if k == "rcmm":
        return f(e[3], build(e[2]))
    return f(build(e[2]), build(e[3]))           # minmax


def values(e, d):
    k = e[0]
    if k == "leaf":
        return LEAVES[e[1]][1](d)
    x = values(e[2], d)
    if k == "un":
        return UNARY[e[1]][1](x)
    if k == "const":
        return [BIN[e[1]][1](v, e[3]) for v in x]
    if k == "rconst":
        return [RIGHT[e[1]][1](v, e[3]) for v in x]
    if k in ("cmm", "rcmm"):
        return [(mn if e[1] == "min" else mx)(v, float(e[3])) for v in x]
    y = values(e[3], d)
    fn = BIN[e[1]][1] if k == "bin" else mn if e[1] == "min" else mx
    return [fn(a, b) for a, b in zip(x, y)]


def name(e):
    k = e[0]
    if k == "leaf":
        return LEAVES[e[1]][2]
    if k == "un":
        return UNARY[e[1]][2].format(name(e[2]))
    if k in ("const", "rconst", "cmm", "rcmm"):
        return f"{e[1]}({name(e[2])},{e[3]})"
    return f"{e[1]}({name(e[2])},{name(e[3])})"


def data(n=7):
    return {k: list(v[:n]) for k, v in ROWS.items()}


def layer(es, consts=(0.5, -2), unary=tuple(UNARY)):
    """expressions with one more unary or constant operation"""
    for e in es:
        for u in unary:
            yield ("un", u, e)
        for c in consts:
            for o in BIN:
                yield ("const", o, e, c)
            for o in RIGHT:
                yield ("rconst", o, e, c)
            for o in ("min", "max"):
                yield ("cmm", o, e, c)
                yield ("rcmm", o, e, c)


def pairs(xs, ys):
    for a in xs:
        for b in ys:
            for o in BIN:
                yield ("bin", o, a, b)
            for o in ("min", "max"):
                yield ("mm", o, a, b)


def leaves(names=tuple(LEAVES)):
    return [("leaf", n) for n in names]
