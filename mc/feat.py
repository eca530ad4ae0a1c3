"""Feature table shared by the feature checks: for every transform the rows to enumerate, the parameters, the real code
and an oracle that computes each element from the definition, using only the rows the definition names."""
import functools
import itertools
import math

import numpy as np
import pandas as pd

from mc.core import Raised, close

NAN = float("nan")
ANY = "undefined: rounding noise only"
S = 10 ** 9
T0 = 1_704_067_200 * S          # 2024-01-01 00:00 UTC, a Monday


def nan(x):
    return x != x


def div(a, b):
    """IEEE division"""
    with np.errstate(all="ignore"):
        return float(np.float64(a) / np.float64(b))


def log(a):
    with np.errstate(all="ignore"):
        return float(np.log(np.float64(a)))


def mean(w):
    return math.fsum(w) / len(w)


def var(w, ddof):
    w = [v - w[0] for v in w]
    m = mean(w)
    return math.fsum((v - m) ** 2 for v in w) / (len(w) - ddof)


def rolling(fn, first=None):
    """oracle of a statistic of the last `window` rows; fn(p, rows...) gets the window of each column"""
    def o(p, cols, ts):
        w = p["window"]
        n = len(cols[0])
        return [[fn(p, *[c[i - w + 1:i + 1] for c in cols]) if i >= (w - 1 if first is None else first(w)) else NAN
                 for i in range(n)]]
    return o


class Feat:
    def __init__(self, name, cls, cols, rows, n, params, oracle, core=None, gaps=None, cases=None, pd=False, rel=1e-9, ab=1e-10,
                 window=None, tn=None, key=None, scale=1.0, dtype=None, nojit=False, nonan=False, names=None):
        self.name, self.cls, self.cols, self.rows, self.n, self.params, self.oracle = name, cls, cols, rows, n, params, oracle
        self.core, self.gaps, self.gen, self.pd, self.rel, self.ab = core, gaps, cases, pd, rel, ab
        self.window = window      # params -> number of trailing rows a value may depend on (None: all earlier rows)
        self.tn = tn or n         # (quick, thorough) lengths explored through the transform
        self.key = key            # fn(params, cols, i, k, got, exp, backend) -> known finding class or None
        self.dtype = dtype
        self.names = names
        self.nonan = nonan

    def transform(self, p):
        from finmlkit.feature import transforms as T
        p = dict(p)
        if self.cls is None:
            return None
        f = getattr(T, self.cls)
        for k in ("window", "half_life"):
            if self.cls in ("ReturnT", "BarRate", "EWMST") and k in p:
                p[k] = pd.Timedelta(p[k], unit="ns")
        if len(self.cols) == 1:
            p["input_col"] = self.cols[0]
        else:
            p["input_cols"] = list(self.cols)
        return f(**p)

    def cases(self, thorough, upto=None):
        """(rows, ts) pairs"""
        if self.gen:
            yield from self.gen(thorough)
            return
        hi = self.n[1 if thorough else 0]
        if upto:
            hi = min(hi, upto[1 if thorough else 0])
        for n in range(1, hi + 1):
            for rows in itertools.product(self.rows, repeat=n):
                if self.gaps:
                    for g in itertools.product(self.gaps, repeat=n - 1):
                        yield rows, tuple(itertools.accumulate((T0 + 777,) + g))      # not a whole microsecond
                else:
                    yield rows, tuple(T0 + 60 * S * i for i in range(n))


def columns(f, rows):
    if len(f.cols) == 1:
        return [list(rows)]
    return [list(c) for c in zip(*rows)]


def frame(f, rows, ts, unit="ns", tz=None, dtype=np.float64):
    idx = pd.DatetimeIndex(np.array(ts, dtype="datetime64[ns]"))
    if unit != "ns":
        idx = idx.as_unit(unit)
    if tz:
        idx = idx.tz_localize(tz)
    return pd.DataFrame({c: np.array(v, dtype=dtype) for c, v in zip(f.cols, columns(f, rows))}, index=idx)


def outs(r):
    """list of output arrays of a transform or core call"""
    if isinstance(r, Raised):
        return r
    return list(r) if isinstance(r, tuple) else [r]


def run_core(ctx, f, p, rows, ts):
    cols = [np.array(c, dtype=np.float64) for c in columns(f, rows)]
    return outs(ctx.call(f.core, p, cols, np.array(ts, dtype=np.int64)))


def compare(ctx, f, p, got, exp, cols, what, backend, ab=None, rel=None):
    ab, rel = f.ab if ab is None else ab, f.rel if rel is None else rel
    if isinstance(got, Raised):
        ctx.fail(f"{f.name}{p} {what}: {got}")
        return False
    if len(got) != len(exp):
        ctx.fail(f"{f.name}{p} {what}: {len(got)} outputs, expected {len(exp)}")
        return False
    for k, (g, e) in enumerate(zip(got, exp)):
        g = np.asarray(g)
        if len(g) != len(e):
            ctx.fail(f"{f.name}{p} {what}: output {k} has {len(g)} rows, expected {len(e)}")
            return False
        for i, (a, b) in enumerate(zip(g.tolist(), e)):
            if b is ANY:
                ok = True
            else:
                ok = close(a, b, rel, ab)
            if not ok:
                key = f.key(p, cols, i, k, a, e[i], backend) if f.key else None
                ctx.fail(f"{f.name}{p} {what}: output {k} at row {i} is {a!r}, by definition {b!r}; all {g.tolist()}", key)
                if key is None:
                    return False
    return True


UNITS = dict(close="price", open="price", high="price", low="price", vwap="price", volume="volume", volume_buy="volume",
             volume_sell="volume")


def scaled(f, rows, units):
    """the same rows in other units: dict(price=factor, volume=factor, x=factor of a bare series)"""
    ks = [units.get(UNITS.get(c, c), 1.0) for c in f.cols]
    if len(f.cols) == 1:
        return tuple(v * ks[0] for v in rows)
    return tuple(tuple(v * k for v, k in zip(r, ks)) for r in rows)


def explore(ctx, names, core=True, transforms=True, upto=None, units=({},)):
    """every case of every feature against the definition"""
    feats = [TABLE[n] for n in names]

    def gen():
        for f in feats:
            for rows, ts in f.cases(ctx.thorough, upto):
                if not upto or f.core or (f.cls and len(ts) <= 2 + 3 * bool(f.gen)) or len(ts) > 100:
                    for u in units:
                        yield f.name, scaled(f, rows, u) if u else rows, ts

    def body(case):
        name, rows, ts = case
        f = TABLE[name]
        cols = columns(f, rows)
        lim = f.tn[1 if ctx.thorough else 0]
        for pi, p in enumerate(f.params):
            exp = f.oracle(p, cols, ts)
            n = len(ts)
            ctx.trans(n)
            w = f.window(p) if f.window else n
            ctx.state(name, pi, rows[-w:], tuple(b - a for a, b in zip(ts[-w:], ts[-w + 1:])) if f.gaps else n - w > 0)
            ctx.outcome(name, pi, tuple(_r(e[-1]) for e in exp))
            if core and f.core:
                ctx.trace()
                compare(ctx, f, p, run_core(ctx, f, p, rows, ts), exp, cols, "core", "core")
            if (transforms or not f.core) and f.cls and (n <= lim or f.gen):
                df = frame(f, rows, ts)
                t = ctx.call(f.transform, p)
                if isinstance(t, Raised):
                    ctx.fail(f"{name}{p}: constructor {t}")
                    continue
                for backend in (("nb", "pd") if f.pd else ("nb",)):
                    ctx.trace()
                    r = outs(ctx.call(t, df, backend=backend))
                    if not isinstance(r, Raised):
                        nm = f.names(p) if f.names else None
                        if nm and [s.name for s in r] != nm:
                            ctx.fail(f"{name}{p} {backend}: named {[s.name for s in r]}, expected {nm}")
                        if any(not s.index.equals(df.index) for s in r):
                            ctx.fail(f"{name}{p} {backend}: index changed: {[list(s.index) for s in r]}")
                        if f.dtype and any(str(s.dtype) != f.dtype for s in r):
                            ctx.fail(f"{name}{p} {backend}: dtype {[str(s.dtype) for s in r]}, expected {f.dtype}")
                    compare(ctx, f, p, r, exp, cols, backend, backend)
                if len(f.cols) > 1 and n == 2 + (name == "StochK"):
                    rotated(ctx, f, p, rows, ts, exp, cols)
    ctx.run(gen(), body, group=(lambda c: c[0]) if not transforms else None)


def rotated(ctx, f, p, rows, ts, exp, cols):
    """columns are known by their position in input_cols, whatever they are called"""
    old = f.cols
    try:
        f.cols = list(old[1:] + old[:1])
        df = frame(f, rows, ts)
        df = df[sorted(df)]
        t = ctx.call(f.transform, p)
        for backend in (("nb", "pd") if f.pd else ("nb",)):
            ctx.trace()
            compare(ctx, f, p, t if isinstance(t, Raised) else outs(ctx.call(t, df, backend=backend)), exp, cols, f"{backend} of columns called {f.cols}", backend)
    finally:
        f.cols = old


WIDTHS = (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 24, 25, 29, 30, 31, 32, 33, 40, 48, 50, 60, 63, 64, 65, 96, 100, 127, 128, 129, 200)


def long(ctx, names, skip=()):
    """every feature with wide windows on long series"""
    feats = [TABLE[n] for n in names if n not in skip]

    def gen():
        for f in feats:
            arg = [a for a in ("window", "periods", "length", "span") if a in f.params[0]]
            if not f.rows or f.gaps or not arg:
                continue
            rest = []
            for q in f.params:
                r = {a: v for a, v in q.items() if a != arg[0]}
                if r not in rest:
                    rest.append(r)
            lo = min(q[arg[0]] for q in f.params)
            for w in WIDTHS:
                if w >= lo and not any(q[arg[0]] == w for q in f.params):
                    for r in rest:
                        if r.get("recent_periods", 0) <= w:
                            for pat in range(6):
                                yield f.name, {**r, arg[0]: w}, pat

    def body(case):
        name, p, pat = case
        f = TABLE[name]
        w = next(p[a] for a in ("window", "periods", "length", "span") if a in p)
        missing = lambda r: any(v != v for v in (r if isinstance(r, tuple) else (r,)))
        good = [r for r in f.rows if not missing(r)]
        gone = [r for r in f.rows if missing(r)]
        n = w + 7 + 5 * pat
        if name == "ADX":
            n += w
        step = (1, 2, 7, 5, 3, 11)[pat]
        rows = [good[(i * i * step + i // 3 + (i // max(w, 1)) * 2) % len(good)] for i in range(n)]
        if pat == 2 and gone and not f.nonan:
            rows[2] = gone[0]
        if pat == 3 and gone and not f.nonan:
            rows[n - 3] = gone[0]
        if pat == 4:
            rows[2:-2] = [good[1]] * (n - 4)
        rows = tuple(rows)
        ts = tuple(T0 + 60 * S * i for i in range(n))
        cols = columns(f, rows)
        exp = f.oracle(p, cols, ts)
        ctx.state(name, repr(p), pat)
        ctx.trans(n)
        ctx.outcome(name, repr(p), pat, tuple(_r(e[-1]) for e in exp))
        if f.core:
            ctx.trace()
            compare(ctx, f, p, run_core(ctx, f, p, rows, ts), exp, cols, f"core, series {pat}", "core")
        if f.cls:
            t = ctx.call(f.transform, p)
            df = frame(f, rows, ts)
            for backend in ("nb", "pd") if f.pd else ("nb",):
                ctx.trace()
                compare(ctx, f, p, t if isinstance(t, Raised) else outs(ctx.call(t, df, backend=backend)), exp, cols, f"{backend}, series {pat}", backend)
    ctx.run(gen(), body)


# degree of the outputs in the unit of the first column; 0 where not listed
DEGREE = {"Lag": 1, "SMA": 1, "EWMA": 1, "ewms": 1, "EWMST": 1, "ewmst_mean0": 1, "RealizedVolatility": 1, "true_range": 1, "rolling_variance": 2,
          "BiPowerVariation": 2, "ATR": lambda p: 0 if p["normalize"] else 1}
SCALES = (dict(price=2.0 ** -34, volume=2.0 ** -30, x=2.0 ** -30, y=2.0 ** -14, ret=2.0 ** -9, ret1=2.0 ** -9),
          dict(price=2.0 ** 17, volume=2.0 ** 20, x=2.0 ** 31, y=2.0 ** 7, ret=2.0 ** 5, ret1=2.0 ** 5))


def magnitudes(ctx, names, skip=()):
    """shorter sequences at very small and very large prices, volumes and returns, and at a high level with small changes"""
    feats = [TABLE[n] for n in names if n not in skip]

    def gen():
        for f in feats:
            few = f.rows[:3] + f.rows[-1:] if len(f.rows) > 3 else f.rows
            hi = (7 if len(f.rows) == 3 else 4) + (1 if ctx.thorough else 0)
            if f.gen or f.gaps:
                cs = [(r, t) for k, (r, t) in enumerate(f.cases(False, (4, 4))) if len(t) > 2 and k % (7 if f.gaps and not f.gen else 11) == 0]
            else:
                cs = [(r, tuple(T0 + 60 * S * i for i in range(k))) for k in range(1, hi + 1) for r in itertools.product(few, repeat=k)]
            for rows, ts in cs:
                for u in SCALES:
                    ks = [u.get(UNITS.get(c, c), 1.0) for c in f.cols]
                    if any(k != 1.0 for k in ks):
                        yield f.name, scaled(f, rows, u), ts, ks[0]
                if len(f.cols) == 1 and f.cols[0] in ("x", "y", "close"):
                    top = max(abs(r) for r in f.rows if not nan(r)) if f.rows else 1.0
                    yield f.name, tuple(60000.0 + r / top * 0.5 if r else r for r in rows), ts, 0.0
                if f.cols[:2] == ["close", "volume"]:
                    for e in (1.0, 2.0 ** -10):
                        yield f.name, tuple((60000.0 + (r[0] - 10.0) * e,) + r[1:] for r in rows), ts, 0.0

    def body(case):
        name, rows, ts, k = case
        f = TABLE[name]
        cols = columns(f, rows)
        for pi, p in enumerate(f.params):
            exp = f.oracle(p, cols, ts)
            d = DEGREE.get(name, 0)
            d = d(p) if callable(d) else d
            ab, rel = (f.ab * min(1.0, k ** d), f.rel) if k else (1e-9 if d else 1e-7, max(1e-6, f.rel))
            ctx.trans(len(ts))
            ctx.state(name, pi, rows, ts[-1] - ts[0])
            if f.core:
                ctx.trace()
                compare(ctx, f, p, run_core(ctx, f, p, rows, ts), exp, cols, f"core on {rows}", "core", ab, rel)
            if f.cls and (len(ts) <= 3 or len(ts) == 7 or f.gen):
                df = frame(f, rows, ts)
                t = ctx.call(f.transform, p)
                for backend in ("nb", "pd") if f.pd else ("nb",):
                    ctx.trace()
                    compare(ctx, f, p, outs(t if isinstance(t, Raised) else ctx.call(t, df, backend=backend)), exp, cols, f"{backend} on {rows}", backend, ab, rel)
    ctx.run(gen(), body)


def _r(v):
    if v is ANY:
        return "any"
    return "nan" if v != v else (v if math.isinf(v) else round(v, 9))


# ------------------------------------------------------------------ definitions
P4 = (10.0, 10.37, 9.71, 11.3)      # the floating mean of three 11.3 is not 11.3
P5 = P4 + (NAN,)
D4 = (10.0, 10.375, 9.625, 11.125)      # dyadic


def o_lag(p, cols, ts):
    x = cols[0]
    k = p["periods"]
    return [[x[i - k] if i >= k else NAN for i in range(len(x))]]


def o_return(p, cols, ts):
    x, k = cols[0], p["periods"]
    out = []
    for i in range(len(x)):
        q = div(x[i], x[i - k]) if i >= k else NAN
        out.append(log(q) if p["is_log"] else q - 1.0)
    return [out]


def o_return_t(p, cols, ts):
    x = cols[0]
    w = p["window"]
    out = []
    for i in range(len(x)):
        j = [k for k in range(i + 1) if ts[k] <= ts[i] - w]
        if not j:
            out.append(NAN)
        elif x[j[-1]] == 0.0:
            out.append(math.inf)
        else:
            q = x[i] / x[j[-1]]
            out.append(log(q) if p["is_log"] else q - 1.0)
    return [out]


def o_roc(p, cols, ts):
    x, k = cols[0], p["periods"]
    return [[100.0 * (x[i] - x[i - k]) / x[i - k] if i >= k and x[i - k] != 0 else NAN for i in range(len(x))]]


def o_pct(p, cols, ts):
    x, k = cols[0], p["window"]
    return [[(x[i] - x[i - k]) / x[i - k] if i >= k and x[i - k] > 0 else NAN for i in range(len(x))]]


def o_rsi(p, cols, ts):
    x, w = cols[0], p["window"]
    d = [b - a for a, b in zip(x, x[1:])]
    out = [NAN] * len(x)
    g = l = None
    for i in range(w, len(x)):
        if i == w:
            g = sum(max(v, 0.0) for v in d[:w]) / w
            l = sum(max(-v, 0.0) for v in d[:w]) / w
        else:
            g = (g * (w - 1) + max(d[i - 1], 0.0)) / w
            l = (l * (w - 1) + max(-d[i - 1], 0.0)) / w
        out[i] = 100.0 if l == 0 else 100.0 * g / (g + l)
    return [out]


def r_stoch(p, h, l, c):
    if any(map(nan, h + l)):
        return NAN
    hi, lo = max(h), min(l)
    return 100.0 * (c[-1] - lo) / (hi - lo) if hi > lo else NAN


def r_slope(p, x):
    if any(map(nan, x)):
        return NAN
    y = [math.log(v) for v in x]
    n = len(y)
    mt, my = (n - 1) / 2.0, mean(y)
    b = math.fsum((t - mt) * (v - my) for t, v in enumerate(y)) / math.fsum((t - mt) ** 2 for t in range(n))
    return math.degrees(math.atan(b))


def o_adx(p, cols, ts):
    h, l, c = cols
    L, n = p["length"], len(cols[0])
    tr, up, dn = [0.0], [0.0], [0.0]
    for i in range(1, n):
        tr.append(max(h[i], c[i - 1]) - min(l[i], c[i - 1]))
        a, b = h[i] - h[i - 1], l[i - 1] - l[i]
        up.append(a if a > b and a > 0 else 0.0)
        dn.append(b if b > a and b > 0 else 0.0)
    dx = [0.0] * n
    st = su = sd = 0.0
    for i in range(1, n):
        if i <= L:
            st, su, sd = st + tr[i], su + up[i], sd + dn[i]
        else:
            st, su, sd = st - st / L + tr[i], su - su / L + up[i], sd - sd / L + dn[i]
        if i >= L and st > 0 and su + sd > 0:
            dx[i] = 100.0 * abs(su - sd) / (su + sd)
    out = [0.0] * n
    for i in range(2 * L - 1, n):
        out[i] = sum(dx[L:2 * L]) / L if i == 2 * L - 1 else (out[i - 1] * (L - 1) + dx[i]) / L
    return [out]


def o_run(p, cols, ts):
    x = cols[0]
    out = [0]
    for i in range(1, len(x)):
        s = (x[i] > 0) - (x[i] < 0)
        k = 0
        while s and i - k >= 1 and ((x[i - k] > 0) - (x[i - k] < 0)) == s:
            k += 1
        out.append(k)
    return [out[:len(x)]]


def o_ewma(p, cols, ts):
    x = cols[0]
    a = 1.0 - 2.0 / (p["span"] + 1.0)
    out = []
    for i in range(len(x)):
        k = [j for j in range(i + 1) if not nan(x[j])]
        ws = [a ** (k[-1] - j) if a > 0 else float(k[-1] == j) for j in k]
        out.append(math.fsum(w * x[j] for w, j in zip(ws, k)) / math.fsum(ws) if k else NAN)
    return [out]


def wvar(ws, ys):
    sw = math.fsum(ws)
    ys = [y - ys[0] for y in ys]
    m = math.fsum(w * y for w, y in zip(ws, ys)) / sw
    d = sw * sw - math.fsum(w * w for w in ws)
    return math.fsum(w * (y - m) ** 2 for w, y in zip(ws, ys)) * sw / d


def o_ewms(p, cols, ts):
    x = cols[0]
    a = 1.0 - 2.0 / (p["span"] + 1.0)
    out = []
    for i in range(len(x)):
        k = [j for j in range(i + 1) if not nan(x[j])]
        out.append(math.sqrt(wvar([a ** (i - j) for j in k], [x[j] for j in k])) if len(k) > 1 and p["span"] > 1 else NAN)
    return [out]


def decay(p, x, ts, i):
    """(weights, values) of the observations up to row i; the first row has no elapsed time and never counts"""
    hl = p["half_life"] / 1e9
    ws, ys = [], []
    for j in range(1, i + 1):
        al = 1.0 - math.exp(-((ts[j] - ts[j - 1]) / 1e9) / hl)
        w = al * math.exp(-((ts[i] - ts[j]) / 1e9) / hl)
        if not nan(x[j]) and w > 0:
            ws.append(w)
            ys.append(x[j])
    return ws, ys


def o_ewmst(p, cols, ts):
    out = []
    for i in range(len(ts)):
        ws, ys = decay(p, cols[0], ts, i)
        out.append(NAN if not ws else 1e-12 if len(ws) < 2 else max(1e-12, math.sqrt(wvar(ws, ys))))
    return [out]


def o_ewmst0(p, cols, ts):
    out = []
    for i in range(len(ts)):
        ws, ys = decay(p, cols[0], ts, i)
        out.append(NAN if not ws else max(1e-12, math.sqrt(math.fsum(w * y * y for w, y in zip(ws, ys)) / math.fsum(ws))))
    return [out]


def flat(x):
    return len(set(x)) == 1


def r_z(p, x):
    if any(map(nan, x)) or flat(x):
        return NAN
    return (x[-1] - mean(x)) / math.sqrt(var(x, p["ddof"]))


def r_rv(p, x):
    v = [y for y in x if not nan(y)]
    return math.sqrt(math.fsum(y * y for y in v) / (len(v) - 1 if p["is_sample"] else len(v))) if len(v) > 1 else NAN


def r_boll(p, x):
    if any(map(nan, x)) or flat(x):
        return NAN
    m, s = mean(x), math.sqrt(var(x, 1))
    return 0.5 + (x[-1] - m) / (2.0 * p["num_std"] * s)


def o_tr(p, cols, ts):
    h, l, c = cols
    out = []
    for i in range(len(h)):
        b = [h[i], l[i]] + ([c[i - 1]] if i else [])
        out.append(NAN if any(map(nan, b)) else max(b) - min(b))
    return [out]


def o_atr(p, cols, ts):
    h, l, c = cols
    w, n = p["window"], len(cols[0])
    tr = o_tr(p, cols, ts)[0]
    out = [NAN] * n
    for i in range(w - 1, n):
        v = [t for t in tr[i - w + 1:i + 1] if not nan(t)]
        if p["ema_based"]:
            if i == w - 1:
                out[i] = mean(v) if v else NAN
            elif not nan(tr[i]):
                out[i] = ((w - 1) * out[i - 1] + tr[i]) / w
        elif v and not (nan(h[i]) and nan(l[i]) and nan(c[i])):
            out[i] = mean(v)
    if p["normalize"]:
        out = [v / ((a + b) / 2.0) if a + b > 0 else NAN for v, a, b in zip(out, h, l)]
    return [out]


def rvar(x, w, ddof, mp=1):
    out = [NAN] * len(x)
    for i in range(w - 1, len(x)):
        v = [y for y in x[i - w + 1:i + 1] if not nan(y)]
        if len(v) >= mp and len(v) > ddof:
            out[i] = var(v, ddof)
    return out


def o_rvar(p, cols, ts):
    return [rvar(cols[0], p["window"], p["ddof"], p["min_periods"])]


def o_vr(p, cols, ts):
    x, w = cols[0], p["window"]
    r = [NAN]
    for a, b in zip(x, x[1:]):
        if nan(a) or nan(b) or a <= 0 or (b <= 0 and p["ret_type"] == "log"):
            r.append(NAN)
        else:
            r.append(math.log(b / a) if p["ret_type"] == "log" else b / a - 1.0)
    r4 = [math.fsum(r[i - 3:i + 1]) if i >= 4 and not any(map(nan, r[i - 3:i + 1])) else NAN for i in range(len(x))]
    v1, v4 = rvar(r, w, p["ddof"]), rvar(r4, w, p["ddof"])
    out = []
    for i, (a, b) in enumerate(zip(v1, v4)):
        known = len([y for y in r4[max(0, i - w + 1):i + 1] if not nan(y)])
        # a single 4-bar return has no variance, so no ratio; below rounding noise the ratio is undefined
        out.append(NAN if nan(a) or nan(b) or known < 2 else 4.0 * a / b if b > 1e-14 else ANY)
    return [out]


def r_kurt(p, x):
    if any(map(nan, x)):
        return NAN
    if flat(x):
        return NAN
    m = mean(x)
    m2 = mean([(v - m) ** 2 for v in x])
    return mean([(v - m) ** 4 for v in x]) / m2 ** 2 - 3.0


def r_bv(p, x):
    if any(map(nan, x)):
        return NAN
    return math.pi / 2.0 * math.fsum(abs(a * b) for a, b in zip(x, x[1:]))


def o_bv(p, cols, ts):
    w, x = p["window"], cols[0]
    return [[r_bv(p, x[i - w:i + 1]) if i >= w else NAN for i in range(len(x))]]


def r_hurst(p, x):
    if any(map(nan, x)):
        return NAN
    y = list(itertools.accumulate(x))
    lt, ll = [], []
    for k in (1, 2, 4, 8):
        if len(y) - k >= 2:
            d = [b - a for a, b in zip(y, y[k:])]
            v = var(d, 0)
            if v < 1e-18:
                return NAN
            lt.append(0.5 * math.log(v))
            ll.append(math.log(k))
    if len(ll) < 2:
        return NAN
    ml, mt = mean(ll), mean(lt)
    return math.fsum((a - ml) * (b - mt) for a, b in zip(ll, lt)) / math.fsum((a - ml) ** 2 for a in ll)


def r_burst(p, x):
    if any(map(nan, x)):
        return NAN
    s = sorted(x)
    k = len(s)
    m = s[k // 2] if k % 2 else (s[k // 2 - 1] + s[k // 2]) / 2.0
    return x[-1] / m if m > 0 else NAN


def r_flow(p, v):
    k = p["recent_periods"]
    if k >= p["window"] or any(map(nan, v)):
        return NAN
    return math.log((math.fsum(v[-k:]) + 1e-12) / (math.fsum(v[:-k]) + 1e-12))


def r_vpin(p, b, s):
    if any(map(nan, b + s)) or math.fsum(b + s) <= 1e-9:
        return NAN
    return math.fsum(abs(x - y) for x, y in zip(b, s)) / math.fsum(b + s)


def o_vwap(p, cols, ts):
    c, v = cols
    w = p["periods"]
    out = []
    for i in range(len(c)):
        if i < w - 1:
            out.append(NAN)
            continue
        cw, vw = c[i - w + 1:i + 1], v[i - w + 1:i + 1]
        sv = math.fsum(vw)
        if sv > 0:
            q = c[i] / (math.fsum(a * b for a, b in zip(cw, vw)) / sv)
            out.append(math.log(q) if p["is_log"] else q - 1.0)
        else:
            out.append(out[-1] if i >= w else NAN)       # nothing traded: the last known distance
    return [out]


def o_corr(p, cols, ts):
    x, v = cols
    w, n = p["window"], len(cols[0])
    r = [NAN] + [(b - a) / a if a != 0 else NAN for a, b in zip(x, x[1:])]
    out = [NAN] * n
    for i in range(w, n):
        if nan(r[i]) or nan(v[i]):
            continue
        k = [j for j in range(i - w + 1, i + 1) if not nan(r[j]) and not nan(v[j])]
        if len(k) < 2:
            continue
        a, b = [r[j] for j in k], [v[j] for j in k]
        if flat(a) or flat(b):
            continue
        ma, mb = mean(a), mean(b)
        c = math.fsum((s - ma) * (t - mb) for s, t in zip(a, b))
        out[i] = c / math.sqrt(math.fsum((s - ma) ** 2 for s in a) * math.fsum((t - mb) ** 2 for t in b))
    return [out]


def corr_special(p, cols, i, k, got, exp, backend):
    """the as-coded shortcut for monotonic test data"""
    x, v = cols
    w = p["window"]
    up = lambda s: not any(b <= a for a, b in zip(s, s[1:]))
    dn = lambda s: not any(b >= a for a, b in zip(s, s[1:]))
    if backend != "pd" and 4 <= i < 10 and i >= w:
        a, b = x[i - w + 1:i + 1], v[i - w + 1:i + 1]
        if up(a) and ((up(b) and got == 1.0) or (not up(b) and dn(b) and got == -1.0)):
            return "correlation-shortcut-for-monotonic-windows"
    if backend == "pd" and len(x) >= 10 and w == 4 and i >= w:
        xs = pd.Series(x)
        vs = pd.Series(v)
        if xs.is_monotonic_increasing and ((vs.is_monotonic_increasing and got == 1.0) or
                                           (vs.is_monotonic_decreasing and got == -1.0)):
            return "correlation-shortcut-for-monotonic-windows"
    return None


def hour(ts):
    return (ts // S % 86400) // 3600


def o_cues(p, cols, ts):
    out = [[] for _ in range(9)]
    for t in ts:
        u = pd.Timestamp(t, unit="ns")
        sec = u.hour * 3600 + u.minute * 60 + u.second
        ph, pw = 2 * math.pi * sec / 86400.0, 2 * math.pi * u.dayofweek / 7.0
        vals = (math.sin(ph), math.cos(ph), math.sin(pw), math.cos(pw), u.hour < 8, 7 <= u.hour < 15, 13 <= u.hour < 21,
                u.hour in (0, 7, 13) and u.minute == 0, u.minute == 0)
        for o, v in zip(out, vals):
            o.append(v)
    return out


def o_rate(p, cols, ts):
    w = p["window"]
    # bars sharing the newest timestamp but listed later have not closed yet
    return [[sum(1 for u in ts[:i + 1] if ts[i] - w <= u <= ts[i]) / (w / 1e9) * 3600.0 for i in range(len(ts))]]


def o_dur(p, cols, ts):
    k = p["periods"]
    return [[(ts[i] - ts[i - k]) / 1e9 if i >= k else NAN for i in range(len(ts))]]


def o_dur_ewma(p, cols, ts):
    d = [NAN] + [(b - a) / 1e9 for a, b in zip(ts, ts[1:])]
    return o_ewma(p, [d], ts)


DAY = 86400 * S


def o_gap(p, cols, ts):
    x = cols[0]
    out = []
    for i, t in enumerate(ts):
        prev = [x[j] for j in range(i) if ts[j] // DAY == t // DAY - 1 and not nan(x[j])]
        out.append((x[i] - prev[-1]) / prev[-1] if t % DAY == 0 and prev else NAN)
    return [out]


def o_orb(p, cols, ts):
    h, l, c = cols
    up, dn = [], []
    for i, t in enumerate(ts):
        day = [j for j in range(len(ts)) if ts[j] // DAY == t // DAY]
        k = day.index(i)
        ok = k >= 4 and ts[day[0]] % DAY < 60 * S
        hi = max([h[j] for j in day[:4]]) if ok else NAN
        lo = min([l[j] for j in day[:4]]) if ok else NAN
        up.append(bool(ok and c[i] > hi))
        dn.append(bool(ok and c[i] < lo))
    return [up, dn]


def o_candle(p, cols, ts):
    out = [[], [], [], []]
    for o, h, l, c, v in zip(*cols):
        r = h - l + 1e-12
        out[0].append((h - max(o, c)) / r + 0 * c)
        out[1].append((min(o, c) - l) / r + 0 * c)
        out[2].append(abs(c - o) / r)
        out[3].append((v - o) / o)
    return out


# ------------------------------------------------------------------ the table
def core(path, fn):
    import importlib

    def call(p, cols, ts):
        m = importlib.import_module("finmlkit.feature.core." + path.rsplit(".", 1)[0])
        return fn(getattr(m, path.rsplit(".", 1)[1]), p, cols, ts)
    return call


def times_cases(rows, gaps, n):
    """few value patterns, every timing"""
    def gen(thorough):
        hi = n[1 if thorough else 0]
        for k in range(1, hi + 1):
            for pat in rows:
                for g in itertools.product(gaps, repeat=k - 1):
                    yield tuple(pat[i % len(pat)] for i in range(k)), tuple(itertools.accumulate((T0 + 777,) + g))
    return gen


def grid(**kw):
    ks = list(kw)
    return [dict(zip(ks, v)) for v in itertools.product(*kw.values())]


def cues_cases(thorough):
    """boundaries of every hour, session, day and week, +-1 ns and +-1 s, in groups"""
    marks = []
    for day in (0, 1, 2, 3, 4, 5, 6, 7, 58, 59, 365) if not thorough else range(0, 400):
        for h in range(24):
            for m in (0, 1, 30, 59) if thorough else (0, 1, 59):
                for d in (-1, 0, 1, S - 1, 59 * S):
                    marks.append(T0 + day * DAY + h * 3600 * S + m * 60 * S + d)
    for t0 in (0, 86400 * S * 3, -86400 * S * 5 + 1, 4_102_444_800 * S):      # epoch, before the epoch, 2100
        for h in range(24):
            marks += [t0 + h * 3600 * S, t0 + h * 3600 * S + 60 * S - 1, t0 + h * 3600 * S + 59 * 60 * S]
    marks.sort()
    for i in range(0, len(marks), 12):
        t = tuple(marks[i:i + 12])
        yield tuple(float(k) for k in range(len(t))), t


def day_cases(rows, step, spans, n):
    """regular bars of `step` minutes starting at each phase of the day before midnight, with every choice of missing bars"""
    def gen(thorough):
        for start in spans:
            for k in range(1, n[1 if thorough else 0] + 1):
                base = [T0 + DAY + (start + i * step) * 60 * S for i in range(k)]
                for drop in range(2 ** k if k <= 6 else 1):
                    t = tuple(b for i, b in enumerate(base) if not drop >> i & 1)
                    if t:
                        for pat in rows:
                            yield tuple(pat[i % len(pat)] for i in range(len(t))), t
    return gen


def gap_cases(thorough):
    ts = [T0 + DAY - 30 * 60 * S, T0 + DAY - 1, T0 + DAY, T0 + DAY + 30 * S, T0 + 2 * DAY - 15 * 60 * S, T0 + 2 * DAY,
          T0 + 3 * DAY + 1, T0 + 5 * DAY - 1, T0 + 5 * DAY, T0 + 6 * DAY + 30 * S]
    pats = [(10.0, 10.37, 9.71, 11.13, 10.9, 12.1, 8.7, 9.9, 10.3, 9.5), (10.0, NAN, 9.71, 11.13, NAN, 12.1, 8.7, NAN, 10.3, 11.5)]
    for mask in range(1, 2 ** len(ts)):
        keep = [i for i in range(len(ts)) if mask >> i & 1]
        for pat in pats:
            yield tuple(pat[i] for i in keep), tuple(ts[i] for i in keep)


HLC = ((10.5, 9.5, 10.0), (10.875, 10.125, 10.5), (11.5, 9.0, 9.25), (10.0, 10.0, 10.0), (12.0, 11.25, 11.75), (9.375, 8.5, 9.125))
HLCN = HLC[:5] + ((NAN, NAN, NAN),)


def orb_cases(thorough):
    for start in (0, 15, -15, -30, 60):
        for tail in itertools.product(HLC[:5], repeat=3 if not thorough else 4):
            for head in ((0, 1, 2, 3), (4, 3, 0, 1), (3, 3, 3, 3)):
                rows = tuple(HLC[j] for j in head) + tail
                yield rows, tuple(T0 + DAY + (start + 15 * i) * 60 * S for i in range(len(rows)))
    # two days, and days with a missing quarter hour
    for tail in itertools.product((0, 2, 4), repeat=3):
        rows = tuple(HLC[j] for j in (0, 1, 2, 3, 4, 0, 1, 3) + tail)
        yield rows, tuple(T0 + DAY + (o + 0) * 60 * S for o in (0, 15, 30, 45, 60, 1440, 1455, 1470, 1485, 1500, 1515))
        yield rows, tuple(T0 + DAY + (o + 0) * 60 * S for o in (-30, -15, 0, 15, 30, 45, 60, 75, 90, 105, 120))


def run_cases(thorough):
    for k in range(1, 9 if thorough else 8):
        for r in itertools.product((-0.01, 0.0, 0.02), repeat=k):
            yield r, tuple(T0 + i * S for i in range(k))
            if k > 1:
                yield (NAN,) + r[1:], tuple(T0 + i * S for i in range(k))
    for n in (127, 128, 129, 255, 257, 700):
        for s in (1, -1):
            yield (0.01 * s,) * n, tuple(T0 + i * S for i in range(n))
            yield (0.01 * s,) * (n // 2) + (-0.01 * s,) * n, tuple(T0 + i * S for i in range(n // 2 + n))


RET4 = (0.0113, -0.0207, 0.0051, 0.0)
RETN = (0.0113, -0.0207, 0.0051, NAN)
VOL = (0.0, 1.5, 4.0, 0.25)

TABLE = {f.name: f for f in [
    # ---- returns and momentum
    Feat("Lag", "Lag", ["close"], P5, (4, 5), grid(periods=[1, 2, 3]), o_lag, pd=True, window=lambda p: p["periods"] + 1,
         names=lambda p: [f"close_lag{p['periods']}"]),
    Feat("Return", "Return", ["close"], (10.0, 10.37, 9.71, 0.0, NAN), (4, 5), grid(periods=[1, 2], is_log=[False, True]), o_return,
         pd=True, window=lambda p: p["periods"] + 1, names=lambda p: [f"close_ret{p['periods']}"]),
    Feat("ReturnT", "ReturnT", ["close"], P4, (5, 6),
         [dict(window=w, is_log=l) for w in (1000, S, 1001 * S // 1000, 2 * S, 5 * S // 2) for l in (False, True)], o_return_t,
         core=core("utils.comp_lagged_returns", lambda f, p, c, ts: f(ts, c[0], p["window"] / 1e9, p["is_log"])),
         gaps=(0, 1, S - 1, S, 1001 * S // 1000, 2 * S + 1), pd=True,
         cases=times_cases([(10.0, 10.37, 9.71, 11.13, 10.9, 12.1, 8.7), (10.0, 0.0, 9.71, NAN, 11.13, 10.9)],
                           (0, 1, S - 1, S, 1001 * S // 1000, 2 * S + 1), (5, 6))),
    Feat("ROC", "ROC", ["close"], (10.0, 10.37, 9.71, 0.0, NAN), (5, 6), grid(periods=[1, 2, 3]), o_roc,
         core=core("momentum.roc", lambda f, p, c, ts: f(c[0], p["periods"])), tn=(4, 5), window=lambda p: p["periods"] + 1,
         names=lambda p: [f"close_roc{p['periods']}"]),
    Feat("PctChange", "PctChange", ["close"], (10.0, 10.37, -9.71, 0.0, NAN), (5, 6), grid(window=[1, 2, 3]), o_pct,
         core=core("utils.pct_change", lambda f, p, c, ts: f(c[0], p["window"])), pd=True, tn=(4, 5),
         window=lambda p: p["window"] + 1, names=lambda p: [f"close_pctc{p['window']}"]),
    Feat("RSIWilder", "RSIWilder", ["close"], P4, (7, 8), grid(window=[1, 2, 3]), o_rsi,
         core=core("momentum.rsi_wilder", lambda f, p, c, ts: f(c[0], p["window"])), pd=True, tn=(4, 5), nonan=True,
         names=lambda p: [f"close_rsiw{p['window']}"]),
    Feat("StochK", "StochK", ["high", "low", "close"], HLCN, (5, 6), grid(length=[1, 2, 3]),
         lambda p, c, ts: rolling(r_stoch)(dict(p, window=p["length"]), c, ts),
         core=core("momentum.stoch_k", lambda f, p, c, ts: f(c[2], c[1], c[0], p["length"])), tn=(3, 4), window=lambda p: p["length"],
         names=lambda p: [f"stochk{p['length']}"]),
    Feat("TrendSlope", "TrendSlope", ["close"], P5, (4, 6), grid(window=[2, 3]), rolling(r_slope), pd=True, tn=(4, 6),
         window=lambda p: p["window"], names=lambda p: [f"close_trend_slope_{p['window']}"]),
    Feat("ADX", "ADX", ["high", "low", "close"], HLC, (6, 7), grid(length=[1, 2, 3]), o_adx,
         core=core("trend.adx_core", lambda f, p, c, ts: f(c[0], c[1], c[2], p["length"])), tn=(3, 4), nonan=True,
         names=lambda p: [f"adx_{p['length']}"]),
    Feat("DirRunLen", "DirRunLen", ["ret1"], (), (7, 8), [{}], o_run, cases=run_cases, names=lambda p: ["ret1_dir_run_len"]),

    # ---- averages and volatility
    Feat("SMA", "SMA", ["x"], P5, (5, 6), grid(window=[1, 2, 3]), rolling(lambda p, x: mean(x)),
         core=core("ma.sma", lambda f, p, c, ts: f(c[0], p["window"])), pd=True, tn=(4, 5), window=lambda p: p["window"],
         names=lambda p: [f"x_sma{p['window']}"]),
    Feat("EWMA", "EWMA", ["x"], P5, (6, 7), grid(span=[1, 2, 5]), o_ewma,
         core=core("ma.ewma", lambda f, p, c, ts: f(c[0], p["span"])), pd=True, tn=(4, 5), names=lambda p: [f"x_ewma{p['span']}"]),
    Feat("ewms", None, ["x"], P5, (6, 7), grid(span=[1, 2, 5, 30]), o_ewms,
         core=core("volatility.ewms", lambda f, p, c, ts: f(c[0], p["span"])), ab=1e-9),
    Feat("EWMST", "EWMST", ["y"], RETN, (4, 5), grid(half_life=[2 * S, 7 * S, 600 * S]), o_ewmst,
         core=core("volatility.ewmst", lambda f, p, c, ts: f(ts, c[0], p["half_life"] / 1e9)), gaps=(0, S, 5 * S), ab=1e-10, rel=1e-6,
         tn=(3, 4)),
    Feat("ewmst_mean0", None, ["y"], RETN, (4, 5), grid(half_life=[S // 2, 7 * S, 600 * S]), o_ewmst0,
         core=core("volatility.ewmst_mean0", lambda f, p, c, ts: f(ts, c[0], p["half_life"] / 1e9)), gaps=(0, S, 5 * S)),
    Feat("ZScore", "ZScore", ["x"], P5, (5, 6), [dict(window=1, ddof=0)] + grid(window=[2, 3, 4], ddof=[0, 1]) + [dict(window=4, ddof=2)], rolling(r_z),
         core=core("utils.comp_zscore", lambda f, p, c, ts: f(c[0], p["window"], p["ddof"])), tn=(3, 5), window=lambda p: p["window"],
         names=lambda p: [f"x_z{p['window']}"]),
    Feat("MeanReversionZScore", "MeanReversionZScore", ["close"], P5, (5, 6), grid(window=[2, 3]),
         lambda p, c, ts: rolling(r_z)(dict(p, ddof=1), c, ts), pd=True, tn=(5, 6), rel=1e-6, ab=1e-6, window=lambda p: p["window"],
         names=lambda p: [f"close_mr_z_{p['window']}"]),
    Feat("RealizedVolatility", "RealizedVolatility", ["ret"], RETN, (5, 6), grid(window=[1, 2, 3, 4], is_sample=[False, True]), rolling(r_rv),
         core=core("volatility.realized_vol", lambda f, p, c, ts: f(c[0], p["window"], p["is_sample"])), pd=True, tn=(4, 5),
         window=lambda p: p["window"], names=lambda p: [f"ret_rv{p['window']}"]),
    Feat("BollingerPercentB", "BollingerPercentB", ["close"], P5, (5, 6), grid(window=[2, 3, 4], num_std=[1.0, 2.0]), rolling(r_boll),
         core=core("volatility.bollinger_percent_b", lambda f, p, c, ts: f(c[0], p["window"], p["num_std"])), tn=(3, 5),
         window=lambda p: p["window"], names=lambda p: [f"close_bollb{p['window']}"]),
    Feat("ParkinsonRange", "ParkinsonRange", ["high", "low"], tuple((a, b) for a, b, _ in HLCN), (2, 3), [{}],
         lambda p, c, ts: [[math.log(h / l) ** 2 / (4.0 * math.log(2.0)) for h, l in zip(*c)]],
         core=core("volatility.parkinson_range", lambda f, p, c, ts: f(c[0], c[1])), window=lambda p: 1, names=lambda p: ["parkrange"]),
    Feat("true_range", None, ["high", "low", "close"], HLCN, (4, 5), [{}], o_tr,
         core=core("volatility.true_range", lambda f, p, c, ts: f(c[0], c[1], c[2])), window=lambda p: 2),
    Feat("ATR", "ATR", ["high", "low", "close"], HLCN, (5, 6), grid(window=[1, 2, 3], ema_based=[False, True], normalize=[False, True]), o_atr,
         core=core("volatility.atr", lambda f, p, c, ts: f(c[0], c[1], c[2], p["window"], p["ema_based"], p["normalize"])), tn=(3, 4),
         window=lambda p: p["window"] + 1 if not p["ema_based"] else 10 ** 6,
         names=lambda p: [f"atr{p['window']}" + "_ema" * p["ema_based"] + "_norm" * p["normalize"]]),
    Feat("rolling_variance", None, ["x"], P5, (5, 6), grid(window=[1, 2, 3], ddof=[0, 1], min_periods=[1, 2, 3]), o_rvar,
         core=core("volatility.rolling_variance_nb", lambda f, p, c, ts: f(c[0], p["window"], p["ddof"], p["min_periods"])),
         window=lambda p: p["window"], ab=1e-9),
    Feat("VarianceRatio14", "VarianceRatio14", ["close"], (10.0, 10.37, 9.71), (8, 9),
         grid(window=[2, 3], ret_type=["log", "simple"], ddof=[0, 1]), o_vr,
         core=core("volatility.variance_ratio_1_4_core", lambda f, p, c, ts: f(c[0], p["window"], p["ddof"], p["ret_type"])), tn=(6, 7),
         rel=1e-6, window=lambda p: p["window"] + 4, names=lambda p: [f"close_var_ratio_1_4_{p['window']}"]),
    Feat("Kurtosis", "KurtosisTransform", ["ret1"], RETN, (5, 6), grid(window=[3, 4]), rolling(r_kurt), rel=1e-6, ab=1e-6,
         window=lambda p: p["window"], names=lambda p: [f"ret1_kurt_{p['window']}"]),
    Feat("BiPowerVariation", "BiPowerVariation", ["ret1"], RETN, (5, 6), grid(window=[1, 2, 3]), o_bv, pd=True,
         window=lambda p: p["window"] + 1, names=lambda p: [f"ret1_bv_{p['window']}"]),
    Feat("HurstExponent", "HurstExponent", ["ret1"], (0.01171875, -0.021484375, 0.005859375), (7, 8), grid(window=[3, 4, 6]), rolling(r_hurst), rel=1e-6,
         ab=1e-6, window=lambda p: p["window"], names=lambda p: [f"ret1_hurst{p['window']}"]),

    # ---- order flow
    Feat("BurstRatio", "BurstRatio", ["x"], VOL + (NAN,), (5, 6), grid(window=[1, 2, 3, 4]), rolling(r_burst),
         core=core("utils.comp_burst_ratio", lambda f, p, c, ts: f(c[0], p["window"])), tn=(3, 5), window=lambda p: p["window"],
         names=lambda p: [f"x_burst{p['window']}"]),
    Feat("FlowAcceleration", "FlowAcceleration", ["volume"], VOL + (NAN,), (5, 6), grid(window=[2, 3, 4], recent_periods=[1, 2, 4]), rolling(r_flow),
         core=core("volume.comp_flow_acceleration", lambda f, p, c, ts: f(c[0], p["window"], p["recent_periods"])), tn=(3, 5),
         window=lambda p: p["window"], names=lambda p: [f"volume_flowacc_{p['window']}_{p['recent_periods']}"]),
    Feat("VPIN", "VPIN", ["volume_buy", "volume_sell"], ((1.0, 0.5), (0.0, 2.0), (0.0, 0.0), (3.0, 3.0), (4.25, 0.0), (NAN, 1.0)), (5, 6),
         grid(window=[1, 2, 3]), rolling(r_vpin), core=core("volume.vpin", lambda f, p, c, ts: f(c[0], c[1], p["window"])), pd=True,
         rel=1e-6, tn=(3, 4), window=lambda p: p["window"], names=lambda p: [f"vpin_{p['window']}"]),
    Feat("VWAPDistance", "VWAPDistance", ["close", "volume"], ((10.0, 1.5), (10.37, 0.1), (9.71, 0.0), (11.13, 0.3), (NAN, 0.0)), (5, 6),
         grid(periods=[1, 2, 3], is_log=[False, True]), o_vwap,
         core=core("reversion.vwap_distance", lambda f, p, c, ts: f(c[0], c[1], p["periods"], p["is_log"])), tn=(3, 4), rel=1e-8, ab=1e-12,
         names=lambda p: [f"vwapd{p['periods']}"]),
    Feat("PriceVolumeCorrelation", "PriceVolumeCorrelation", ["close", "volume"],
         ((10.0, 1.5), (10.37, 0.25), (9.71, 4.0), (11.13, 1.5), (10.6, NAN)), (6, 7), grid(window=[2, 3, 4]), o_corr,
         core=core("correlation.rolling_price_volume_correlation", lambda f, p, c, ts: f(c[0], c[1], p["window"])), pd=True, rel=1e-6, ab=1e-7,
         tn=(4, 5), window=lambda p: p["window"] + 1, key=corr_special, names=lambda p: [f"corr_pv_{p['window']}"]),

    # ---- time and candles
    Feat("TimeCues", "TimeCues", ["close"], (), (0, 0), [{}], o_cues, cases=cues_cases,
         core=core("time.time_cues", lambda f, p, c, ts: f(ts)), ab=1e-9, window=lambda p: 1,
         names=lambda p: ["sin_td", "cos_td", "sin_dw", "cos_dw", "asia", "eu", "us", "sess_x", "top_hr"]),
    Feat("BarRate", "BarRate", ["close"], (10.0,), (5, 6), [dict(window=w) for w in (S, 3 * S, 60 * S, 90 * S, 1001 * S // 1000)], o_rate,
         gaps=(1, S - 1, S, 1001 * S // 1000, 30 * S, 60 * S), pd=True),
    Feat("BarDuration", "BarDuration", ["close"], (10.0,), (5, 6), grid(periods=[1, 2, 3]), o_dur, gaps=(0, 1, S, 2 * S + 5, 3600 * S), pd=True,
         window=lambda p: p["periods"] + 1, names=lambda p: [f"dur_{p['periods']}bar"]),
    Feat("BarDurationEWMA", "BarDurationEWMA", ["close"], (10.0,), (5, 6), grid(span=[1, 2, 20]), o_dur_ewma,
         gaps=(0, S, 2 * S + 5, 3600 * S), pd=True, names=lambda p: [f"dur_ewma{p['span']}"]),
    Feat("DailyGap", "DailyGap", ["close"], (), (0, 0), [{}], o_gap, cases=gap_cases, pd=True, names=lambda p: ["close_daily_gap"]),
    Feat("ORBBreak", "ORBBreak", ["high", "low", "close"], (), (0, 0), [{}], o_orb, cases=orb_cases, pd=True,
         names=lambda p: ["orb_long", "orb_short"]),
    Feat("CandleShape", "CandleShape", ["open", "high", "low", "close", "vwap"],
         ((10.0, 10.5, 9.5, 10.25, 10.1), (10.5, 10.5, 9.0, 9.25, 9.5), (10.0, 10.0, 10.0, 10.0, 10.0), (9.0, 12.0, 9.0, 12.0, 11.0),
          (10.0, 10.25, 9.25, NAN, 9.75)), (2, 4), [{}], o_candle, pd=True, window=lambda p: 1,
         names=lambda p: ["wick_up_ratio", "wick_dn_ratio", "body_ratio", "vwap_drift"]),
]}
MOMENTUM = ["Lag", "Return", "ReturnT", "ROC", "PctChange", "RSIWilder", "StochK", "TrendSlope", "ADX", "DirRunLen"]
VOLATILITY = ["SMA", "EWMA", "ewms", "EWMST", "ewmst_mean0", "ZScore", "MeanReversionZScore", "RealizedVolatility", "BollingerPercentB",
              "ParkinsonRange", "true_range", "ATR", "rolling_variance", "VarianceRatio14", "Kurtosis", "BiPowerVariation", "HurstExponent"]
FLOW = ["BurstRatio", "FlowAcceleration", "VPIN", "VWAPDistance", "PriceVolumeCorrelation"]
TIME = ["TimeCues", "BarRate", "BarDuration", "BarDurationEWMA", "DailyGap", "ORBBreak", "CandleShape"]
