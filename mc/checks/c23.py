"""C23: the pandas and the numba backend of a feature return the same values, name and index."""
import itertools

from mc.core import Raised, close, phase
from mc import feat

BOUNDS = ("every sequence of up to 4-6 bars of 17 features with two backends: their own alphabets plus zeros, negative and missing values; every option; "
          "day-boundary and irregular timings; compiled transforms on sequences of up to 3 bars")
ASSUMPTIONS = ["agreement up to 1e-6 relative where the definition leaves only rounding noise", "volumes are not negative"]
WILD = (2.0, 1.0, 0.0, -1.5, feat.NAN)


def special(f, p, rows, i, a, b):
    """one of the two values is the as-coded special value, the other the correlation or the other special value"""
    if f.name == "PriceVolumeCorrelation":
        cols = feat.columns(f, rows)
        return feat.corr_special(p, cols, i, 0, a, None, "nb") or feat.corr_special(p, cols, i, 0, b, None, "pd")
    if f.name == "RSIWilder" and any(v != v for v in rows):
        x, y = rsi_as_coded(p["window"], rows)
        if close(x[i], b, 1e-7, 1e-9) and close(y[i], a, 1e-7, 1e-9):
            return "rsi-missing-prices"
    return None


def rsi_as_coded(w, x):
    """(pandas, numba) RSI with missing prices: pandas leaves them out of the first mean and is NaN for ever after; numba is NaN
    for ever if one is in the first window, and counts later ones as unchanged prices"""
    n = len(x)
    d = [feat.NAN] + [b - a for a, b in zip(x, x[1:])]
    out = []
    for nb in (False, True):
        r = [feat.NAN] * n
        if n > w:
            first = [v for v in d[1:w + 1] if nb or v == v]
            g = sum(max(v, 0.0) if v == v else 0.0 for v in first) / len(first) if first else feat.NAN
            l = sum(-v if not v > 0 else 0.0 for v in first) / len(first) if first else feat.NAN
            for i in range(w, n):
                if i > w:
                    v = d[i]
                    g = ((w - 1) * g + (v if v > 0 else 0.0 if nb or v == v else v)) / w
                    l = ((w - 1) * l + (-v if v < 0 else 0.0 if nb or v == v else v)) / w
                r[i] = feat.NAN if g != g or l != l else 100.0 if l == 0.0 else 100.0 - 100.0 / (1.0 + g / l)
        out.append(r)
    return out


def cases(ctx, upto):
    for f in feat.TABLE.values():
        if not f.pd or not f.cls:
            continue
        lim = upto or f.tn[1 if ctx.thorough else 0]
        for rows, ts in f.cases(ctx.thorough, (lim, lim)):
            yield f.name, rows, ts
        if not f.gaps and not f.gen:
            if f.name == "PriceVolumeCorrelation":      # long monotonic series
                for m in (9, 10, 11):
                    for s in (1.0, -1.0, 0.0):
                        yield f.name, tuple((10.0 + i, 20.0 + s * i) for i in range(m)), tuple(feat.T0 + 60 * feat.S * i for i in range(m))
            k = len(f.cols)
            n = (4 if k == 1 else 2) + ctx.thorough if not upto else upto
            wild = [v for v in WILD if not v < 0 or f.name != "VPIN"]        # volumes are not negative
            if f.name == "PriceVolumeCorrelation":
                wild = [v for v in WILD if not v < 0]
            for m in range(1, n + 1):
                for rows in itertools.product(wild if k == 1 else tuple(itertools.product(wild, repeat=k)) if k < 3 else f.rows, repeat=m):
                    yield f.name, rows, tuple(feat.T0 + 60 * feat.S * i for i in range(m))


def explore(ctx, upto=None):
    def body(case):
        name, rows, ts = case
        f = feat.TABLE[name]
        df = feat.frame(f, rows, ts)
        ctx.state(name, rows, tuple(b - a for a, b in zip(ts, ts[1:])) if f.gaps else ())
        for pi, p in enumerate(f.params):
            t = ctx.call(f.transform, p)
            if isinstance(t, Raised):
                ctx.fail(f"{name}{p}: {t}")
                continue
            a, b = feat.outs(ctx.call(t, df, backend="pd")), feat.outs(ctx.call(t, df, backend="nb"))
            ctx.trace(2)
            ctx.trans(len(ts))
            if isinstance(a, Raised) or isinstance(b, Raised):
                ctx.fail(f"{name}{p}: pandas {a}, numba {b}") if isinstance(a, Raised) != isinstance(b, Raised) else None
                continue
            if [s.name for s in a] != [s.name for s in b] or not all(s.index.equals(df.index) for s in a + b):
                ctx.fail(f"{name}{p}: pandas names {[s.name for s in a]}, numba names {[s.name for s in b]}, or index differs")
                continue
            for o, (x, y) in enumerate(zip(a, b)):
                x, y = x.tolist(), y.tolist()
                ctx.outcome(name, pi, tuple(feat._r(float(v)) for v in y[-2:]))
                for i, (u, v) in enumerate(zip(x, y)):
                    if not close(u, v, max(f.rel, 1e-7), max(f.ab, 1e-9)):
                        key = special(f, p, rows, i, v, u)
                        ctx.fail(f"{name}{p}: output {o} at row {i}: pandas {u!r}, numba {v!r}; pandas {x}, numba {y}", key)
                        break
    ctx.run(cases(ctx, upto), body, group=(lambda c: c[0]) if upto else None)


@phase("agreement")
def agreement(ctx):
    explore(ctx)


@phase("jit", jit=True, shards=8, threads=2)
def jit(ctx):
    explore(ctx, 3 + ctx.thorough)
