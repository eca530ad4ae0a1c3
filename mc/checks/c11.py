"""C11: the tick rule decides sides exactly when no maker flag is supplied."""
import itertools

import numpy as np

from mc.bars import T0
from mc.core import phase, seqs, Raised

BOUNDS = ("every price path of length <= 7 (thorough 8) over 3 levels at 7 price scales through the side kernel; every path of length "
          "<= 5 with all same-timestamp groupings through TradesData with and without maker flags")
ASSUMPTIONS = ["the first trade, and flat trades before the first price change, have side 0 (no information)"]


def tick_rule(px, on_state=None):
    out, side, prev = [], 0, None
    for p in px:
        if prev is not None and p != prev:
            side = 1 if p > prev else -1
        out.append(side)
        prev = p
        if on_state:
            on_state((side, p))
    return out


SCALES = ((100.0, 0.01), (60000.0, 0.1), (1.2e-5, 1e-8), (1.0, 1e-6), (1e6, 1.0), (3e-9, 2e-11), (0.02, 5e-10))


@phase("kernel")
def kernel(ctx):
    from finmlkit.bar.utils import comp_trade_side_vector

    def gen():
        for path in seqs((0, 1, 2), 1, 8 if ctx.thorough else 7):
            for sc in range(len(SCALES)):
                if sc and len(path) > 5:
                    continue
                yield path, sc

    def body(case):
        path, sc = case
        b, t = SCALES[sc]
        px = np.array([b + t * k for k in path])
        got = ctx.call(comp_trade_side_vector, px)
        exp = tick_rule(path, lambda s: (ctx.state(s), ctx.trans()))
        ctx.trace()
        ctx.outcome(tuple(exp[-3:]))
        if isinstance(got, Raised) or list(got) != exp:
            ctx.fail(f"sides of prices {px.tolist()}: {got if isinstance(got, Raised) else list(got)}, tick rule gives {exp}")
    ctx.run(gen(), body)


@phase("jit", jit=True, shards=1)
def jit(ctx):
    kernel(ctx)


@phase("pipeline")
def pipeline(ctx):
    from finmlkit.bar.data_model import TradesData

    def gen():
        for n in range(1, 6):
            for path in itertools.product((0, 1, 2), repeat=n):
                for g in itertools.product((0, 1), repeat=n - 1):
                    for mode in ("none", "maker"):
                        if n == 5 and mode == "maker" and not ctx.thorough:
                            continue
                        yield path, g, mode

    def body(case):
        path, g, mode = case
        n = len(path)
        px = [100.0 + 0.5 * k for k in path]
        ts = [T0]
        for d in g:
            ts.append(ts[-1] + d)
        mk = [(i * 3 + path[i]) % 2 == 0 for i in range(n)]
        td = ctx.call(lambda: TradesData(np.array(ts, dtype=np.int64), np.array(px), np.ones(n), np.arange(n),
                                         is_buyer_maker=np.array(mk) if mode == "maker" else None, timestamp_unit="ns", preprocess=True))
        if isinstance(td, Raised):
            return ctx.fail(f"TradesData(prices {px}): {td!r}")
        merged = []
        for i in range(n):
            s = (-1 if mk[i] else 1) if mode == "maker" else 0
            if not merged or merged[-1] != (ts[i], px[i], s):
                merged.append((ts[i], px[i], s))
        exp = [m[2] for m in merged] if mode == "maker" else tick_rule([m[1] for m in merged])
        got = td.data["side"].tolist()
        ctx.trace()
        ctx.trans(n)
        ctx.state(mode, tuple(exp))
        if got != exp:
            ctx.fail(f"{mode}: sides {got} != expected {exp} for prices {px}, times {ts}, maker {mk}")
    ctx.run(gen(), body)
