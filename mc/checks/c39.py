"""C39: values outside the window of a windowed feature have no influence on it."""
import itertools

from mc.core import Raised, close, phase
from mc import feat

BOUNDS = ("every window content over the alphabets of 24 windowed features (every option, windows 1-4 bars, missing values included) behind 9 different histories, "
          "among them missing values, zeros, outliers (one of 1e12 to 1e18) and flat stretches; core functions and both backends; compiled core functions behind 4 histories")
ASSUMPTIONS = ["equality up to the rounding noise of a history of magnitude 1000 for the pandas backend"]


def histories(f, w, thorough):
    """rows put in front of the window"""
    k = len(f.cols)
    row = lambda v: v if k == 1 else (v,) * k
    good = [r for r in f.rows if not any(x != x for x in (r if k > 1 else (r,)))]
    big = row(1000.0) if f.name not in ("CandleShape",) else good[0]
    peak = row(2.0 ** 40) if k == 1 else tuple(2.0 ** (60 - 2 * j) for j in range(k))
    n = w + 2
    hs = [(), (good[0],), tuple(good[(i * 3 + 1) % len(good)] for i in range(n)), (good[-1],) * n,
          (row(feat.NAN),) * n if not f.nonan else (good[0], good[1]) * 2,
          (good[0], row(feat.NAN), good[1]) if not f.nonan else (good[1],) * 3, (good[0], big, good[0]),
          (row(0.0), good[1], row(0.0)), (good[0], peak if f.name != "CandleShape" else good[0], good[1])]
    return hs


def explore(ctx, core_only=False):
    feats = [f for f in feat.TABLE.values() if f.window and f.rows and not f.gaps and f.name != "ATR" or f.name == "ATR"]
    if core_only:
        feats = [f for f in feats if f.core]

    def gen():
        for f in feats:
            for pi, p in enumerate(f.params):
                w = f.window(p)
                if w > 100:
                    continue
                rows = f.rows
                while len(rows) ** w > (20000 if ctx.thorough else 1300):
                    rows = rows[:-2] + rows[-1:]        # keep the missing value
                for tail in itertools.product(rows, repeat=w):
                    yield f.name, pi, tail

    def body(case):
        name, pi, tail = case
        f = feat.TABLE[name]
        p = f.params[pi]
        w = len(tail)
        ref = {}
        for hi, h in enumerate(histories(f, w, ctx.thorough)):
            if core_only and hi not in (0, 2, 4, 6, 8):
                continue
            rows = h + tail
            ts = tuple(feat.T0 + 60 * feat.S * i for i in range(len(rows)))
            ctx.state(name, pi, rows)
            for target in (["core"] if f.core else []) + ([] if core_only or not f.cls else ["nb", "pd"] if f.pd else ["nb"]):
                if hi == 8 and target == "pd":
                    continue                # pandas' running sums round to the largest value they have ever held
                if target == "core":
                    r = feat.run_core(ctx, f, p, rows, ts)
                else:
                    t = ctx.call(f.transform, p)
                    r = t if isinstance(t, Raised) else feat.outs(ctx.call(t, feat.frame(f, rows, ts), backend=target))
                ctx.trace()
                ctx.trans(len(rows))
                if isinstance(r, Raised):
                    ctx.fail(f"{name}{p} {target}: {r} behind {h}")
                    continue
                v = [float(s.tolist()[-1]) for s in r]
                ctx.outcome(name, pi, tuple(map(feat._r, v)))
                if target not in ref:
                    ref[target] = (h, v)
                    continue
                for o, (a, b) in enumerate(zip(ref[target][1], v)):
                    if not close(a, b, max(f.rel, 1e-7), max(f.ab, 1e-9)):
                        cols = feat.columns(f, rows)
                        key = f.key(p, cols, len(rows) - 1, o, b, None, target) if f.key else None
                        if key is None and f.key and ref[target][0]:
                            r0 = ref[target][0] + tail
                            key = f.key(p, feat.columns(f, r0), len(r0) - 1, o, a, None, target)
                        ctx.fail(f"{name}{p} {target}: the last value is {b!r} behind {h}, but {a!r} behind {ref[target][0]}", key)
                        return
    ctx.run(gen(), body, group=(lambda c: c[0]) if core_only else None)


@phase("histories")
def hist(ctx):
    explore(ctx)


@phase("jit", jit=True, shards=4, threads=2)
def jit(ctx):
    explore(ctx, core_only=True)
