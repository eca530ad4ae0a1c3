"""C12: a view range restricts every consumer to exactly the trades inside it, both ends inclusive."""
import itertools

import numpy as np
import pandas as pd

from mc.bars import T0, NS
from mc.core import phase, nondecreasing, Raised

BOUNDS = ("every non-decreasing timestamp vector of length <= 4 over gaps {0, 1, 2} s, every (start, end) pair on a half-second grid "
          "around the data plus every order of two successive views and every history of 3 views, refused ones included, read after each step; bars and stores built through the view")
ASSUMPTIONS = []
H = NS // 2


def make(ts):
    from finmlkit.bar.data_model import TradesData
    n = len(ts)
    px = [100.0 + i for i in range(n)]
    return TradesData(np.array(ts, dtype=np.int64), np.array(px), np.array([float(1 << i) for i in range(n)]), np.arange(n),
                      side=np.ones(n, dtype=np.int8), timestamp_unit="ns"), px


def as_arg(t, how):
    p = pd.Timestamp(T0 + t * H)
    return str(p) if how else p


@phase("ranges")
def ranges(ctx):
    def gen():
        for n in (1, 2, 3, 4):
            for g in nondecreasing(n, (0, 1, 2)):
                hi = 2 * g[-1] + 3
                for a in range(-2, hi):
                    for b in range(a - 1, hi + 1):
                        if n == 4 and not ctx.thorough and (a + b) % 2:
                            continue
                        yield g, a, b, (a + b) & 1

    def body(case):
        g, a, b, how = case
        ts = [T0 + x * NS for x in g]
        td, px = make(ts)
        before = td.data.copy()
        r = ctx.call(td.set_view_range, as_arg(a, how), as_arg(b, how))
        ctx.trace()
        ctx.trans()
        if a >= b:
            if not (isinstance(r, Raised) and isinstance(r.exc, ValueError)):
                ctx.fail(f"set_view_range with start >= end: {r!r}, expected ValueError")
            elif not td.data.equals(before):
                ctx.fail("a rejected view range changed the visible data")
            return
        if isinstance(r, Raised):
            return ctx.fail(f"set_view_range({a}, {b}): {r!r}")
        exp = [t for t in ts if T0 + a * H <= t <= T0 + b * H]
        got = ctx.call(lambda: td.data["timestamp"].tolist())
        ctx.state(g, tuple(exp))
        ctx.outcome(len(exp), len(ts))
        if isinstance(got, Raised) or got != exp:
            ctx.fail(f"view [{a}, {b}] half-seconds of trades at {g}: {got!r}, expected {exp}")
        if td.start_date != pd.Timestamp(T0 + a * H) or td.end_date != pd.Timestamp(T0 + b * H):
            ctx.fail(f"view bounds reported as {td.start_date} .. {td.end_date}")
    ctx.run(gen(), body)


@phase("histories")
def histories(ctx):
    """every history of view changes, refused ones among them, with the visible trades read after each step or only at the end"""
    g = (0, 1, 1, 2, 4, 5)
    pts = (-1, 0, 2, 4, 9, 11) if ctx.thorough else (-1, 2, 4, 11)
    pairs = [(a, b) for a in pts for b in pts]
    depth = 3

    def gen():
        for k in range(2, depth + 1):
            for h in itertools.product(pairs, repeat=k):
                if k == 3 and not ctx.thorough and (h[0] == h[1] or h[0][0] >= h[0][1]):
                    continue
                for when in ("always", "end"):
                    yield h, when

    def body(case):
        h, when = case
        ts = [T0 + x * NS for x in g]
        td, px = make(ts)
        view = None
        for step, (a, b) in enumerate(h):
            r = ctx.call(td.set_view_range, as_arg(a, step & 1), as_arg(b, step & 1))
            ctx.trans()
            if (a >= b) != isinstance(r, Raised):
                return ctx.fail(f"view ({a}, {b}) at step {step} of {h}: {r!r}")
            if a < b:
                view = (a, b)
            if when == "end" and step < len(h) - 1:
                continue
            exp = [i for i, t in enumerate(ts) if view is None or T0 + view[0] * H <= t <= T0 + view[1] * H]
            got = td.data["id"].tolist()
            ctx.trace()
            ctx.state(h[:step + 1], tuple(got))
            ctx.outcome(len(got))
            if got != exp:
                return ctx.fail(f"trades visible after the views {h[:step + 1]} (read {when}): {got}, expected {exp}")
    ctx.run(gen(), body)


@phase("successive")
def successive(ctx):
    """the last view wins: narrowing, widening and moving views in any order; then bars see the view only"""
    from finmlkit.bar.kit import TickBarKit, TimeBarKit, VolumeBarKit
    from finmlkit.bar.data_model import TradesData
    g = (0, 1, 1, 2, 4, 5)
    pts = (-1, 0, 1, 2, 4, 8, 11)
    pairs = [(a, b) for a in pts for b in pts if a < b]

    def gen():
        for v1 in pairs:
            for v2 in pairs:
                yield v1, v2

    def body(case):
        ts = [T0 + x * NS for x in g]
        td, px = make(ts)
        for v in case:
            td.set_view_range(as_arg(v[0], 0), as_arg(v[1], 1))
        a, b = case[1]
        keep = [i for i, t in enumerate(ts) if T0 + a * H <= t <= T0 + b * H]
        got = td.data["timestamp"].tolist()
        ctx.trace()
        ctx.trans(2)
        ctx.state(case[1], tuple(got))
        if got != [ts[i] for i in keep]:
            ctx.fail(f"after views {case}: {got}")
        if len(keep) >= 2:
            sub = TradesData(np.array([ts[i] for i in keep]), np.array([px[i] for i in keep]),
                             np.array([float(1 << i) for i in keep]), np.arange(len(keep)),
                             side=np.ones(len(keep), dtype=np.int8), timestamp_unit="ns")
            for name, kit in (("time", lambda d: TimeBarKit(d, pd.Timedelta(seconds=1))), ("tick", lambda d: TickBarKit(d, 2)),
                              ("volume", lambda d: VolumeBarKit(d, 6.0))):
                x, y = ctx.call(lambda: kit(td).build_ohlcv()), ctx.call(lambda: kit(sub).build_ohlcv())
                ctx.trace()
                if isinstance(x, Raised) or isinstance(y, Raised):
                    if repr(x) != repr(y):
                        ctx.fail(f"{name} bars over view {case[1]}: {x!r}, over the same trades alone: {y!r}")
                elif not x.equals(y) or not x.index.equals(y.index):
                    ctx.fail(f"{name} bars over view {case[1]}:\n{x}\nover the same trades alone:\n{y}")
    ctx.run(gen(), body)


@phase("saved")
def saved(ctx):
    """a store written through a view holds exactly the trades of the view"""
    import os
    import shutil
    from finmlkit.bar.data_model import TradesData
    d = os.path.join(os.environ["MC_SCRATCH"], f"v{os.getpid()}")
    os.makedirs(d, exist_ok=True)
    g = (0, 1, 1, 2, 4)

    def gen():
        for a in range(-1, 9, 1):
            for b in range(a + 1, 10, 1 if ctx.thorough else 2):
                for reset in (0, 1):
                    yield a, b, reset

    def body(case):
        a, b, reset = case
        ts = [T0 + x * NS for x in g]
        td, px = make(ts)
        keep = [i for i, t in enumerate(ts) if T0 + a * H <= t <= T0 + b * H]
        if not keep:
            return
        path = os.path.join(d, f"{a}_{b}_{reset}.h5")
        if reset:
            td.save_h5(path)                                # the whole first, then overwritten by the view
        td.set_view_range(as_arg(a, 0), as_arg(b, 1))
        r = ctx.call(td.save_h5, path)
        ctx.trans()
        got = r if isinstance(r, Raised) else ctx.call(lambda: TradesData.load_trades_h5(path, enable_multiprocessing=False).data["price"].tolist())
        ctx.trace()
        ctx.state(case)
        ctx.outcome(len(keep))
        if got != [px[i] for i in keep]:
            ctx.fail(f"saved through the view [{a}, {b}] half-seconds of trades at {g}: the store holds {got!r}, expected {[px[i] for i in keep]}")
        os.remove(path)
    try:
        ctx.run(gen(), body)
    finally:
        shutil.rmtree(d, ignore_errors=True)
