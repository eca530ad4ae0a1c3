"""C17: triple-barrier labels are decided by the first barrier the path really touches."""
import itertools
import math

import numpy as np

from mc.bars import T0, NS
from mc.core import phase, close, Raised

BOUNDS = ("every price path of 5 bars over 4 log moves (thorough 6 bars) x 5 timing patterns x 4 vertical barriers x 3 minimum close times x "
          "7 horizontal barrier settings (one-sided, disabled with either infinity, zero target) x plain / both meta sides / mixed sides with abstentions (0), all bars as "
          "events at once; exact barrier ties on paths over {1/2, 1, 2}")
ASSUMPTIONS = ["reported progress toward a barrier only counts bars older than the minimum close time", "an event whose window holds no later "
               "bar is skipped: label 0, touch at the event itself, return NaN"]


def label(ts, lc, i, tgt, hb, vb, mc, side, min_ret, meta, on_state=None):
    """one event, one bar at a time"""
    up, lo = tgt * hb[1], -tgt * hb[0]
    up_on, lo_on = math.isfinite(up), math.isfinite(lo)
    end = ts[i] + (10 ** 30 if math.isinf(vb) else round(vb * 1e9))
    touch, hit, pu, pl, ret = None, False, 0.0, 0.0, 0.0
    for j in range(i + 1, len(ts)):
        if ts[j] > end:
            break
        touch = j
        r = (lc[j] - lc[i]) * side
        if ts[j] - ts[i] >= round(mc * 1e9):
            if r > 0 and up_on and up != 0:
                pu = max(pu, r / up)
            if r < 0 and lo_on and lo != 0:
                pl = max(pl, r / lo)
            if (up_on and r >= up) or (lo_on and r <= lo):
                hit = True
        ret = r
        if on_state:
            on_state((j - i, hit, round(pu, 6), round(pl, 6), round(r, 6)))
        if hit:
            break
    if touch is None:
        return 0, i, float("nan"), float("nan")
    lab = (1 if ret >= min_ret else 0) if meta else (-1 if ret < 0 else 1)
    if hit:
        ratio = 1.0
    elif ret > 0:
        ratio = min(1.0, pu / (1 + pl)) if up_on and up != 0 else float("nan")
    else:
        ratio = min(1.0, pl / (1 + pu)) if lo_on and lo != 0 else float("nan")
    return lab, touch, ret, ratio


HB = ((1.0, 1.0), (0.5, 1.0), (1.0, 1.5), (math.inf, 1.0), (1.0, math.inf), (-math.inf, math.inf), (math.inf, -math.inf))
GAPS = ((1, 1, 1, 1, 1), (1, 3, 1, 2, 1), (0, 1, 0, 2, 1), (4, 1, 1, 4, 1), (2, 2, 0, 0, 3))


def compare(ctx, ts, px, lp, ev, tgts, hb, vb, mc, side, min_ret):
    from finmlkit.label.tbm import triple_barrier
    got = ctx.call(triple_barrier, np.array(ts, dtype=np.int64), np.array(px), np.array(ev, dtype=np.int64), np.array(tgts), hb, vb, mc,
                   None if side is None else np.array(side, dtype=np.int8), min_ret)
    where = f"path {[round(p, 4) for p in px]} at {[(t - ts[0]) / NS for t in ts]} s, events {ev}, targets {tgts}, barriers {hb}, vertical {vb} s, " \
            f"min close {mc} s, side {side}, min_ret {min_ret}"
    if isinstance(got, Raised):
        ctx.fail(f"{where}: {got!r}")
        return
    ctx.trace(len(ev))
    for k, i in enumerate(ev):
        exp = label(ts, lp, i, tgts[k], hb, vb, mc, 1 if side is None else side[k], min_ret, side is not None,
                    lambda s: (ctx.state(hb, side is None, s), ctx.trans()))
        act = tuple(g[k].item() for g in got)
        ctx.outcome(exp[0], exp[1] - i, exp[3] == 1.0, exp[3] != exp[3])
        if act[0] != exp[0] or act[1] != exp[1] or not close(act[2], exp[2], 1e-9, 1e-11) or not close(act[3], exp[3], 1e-7, 1e-9):
            ctx.fail(f"{where}: event {i} -> (label, touch, return, ratio) {act}, expected {exp}")
            return


def explore(ctx, n, moves, gaps, vbs, mcs, hbs, sides):
    def gen():
        for mv in itertools.product(moves, repeat=n - 1):
            for g in gaps:
                yield mv, g

    def body(case):
        mv, g = case
        lp, ts = [0.0], [T0]
        for m, d in zip(mv, g):
            lp.append(lp[-1] + m)
            ts.append(ts[-1] + d * NS)
        px = [100.0 * math.exp(x) for x in lp]
        ev = list(range(n - 1)) if n > 2 else [0]
        tg = [0.025 if i % 2 == 0 else 0.045 for i in ev]
        for vb in vbs:
            for mc in mcs:
                for hb in hbs:
                    for s in sides:
                        side = None if s is None else [(s if i % 2 == 0 else -s) if s else i % 3 - 1 for i in ev]
                        compare(ctx, ts, px, lp, ev, tg, hb, vb, mc, side, 0.005 if s == 1 else 0.0)
    ctx.run(gen(), body)


@phase("paths")
def paths(ctx):
    m4 = (-0.031137, -0.011773, 0.020371, 0.040919)
    explore(ctx, 5, m4, GAPS, (2.0, 3.5, math.inf), (0.0, 1.5), HB[:5], (None, 1, -1) + ((0,) if ctx.thorough else ()))
    explore(ctx, 4, m4, GAPS, (0.5, 1.0, 4.0, 1e9, math.inf), (0.0, 1.0, 6.0), HB, (None, 1, -1, 0))
    explore(ctx, 3, m4 + (0.0,), GAPS, (0.5, 1.0, 4.0, 1e9, math.inf), (0.0, 1.0, 6.0), HB, (None, 1, -1, 0))
    if ctx.thorough:
        explore(ctx, 6, m4, GAPS[:4], (2.0, 3.5, math.inf), (0.0, 1.5), HB[:5], (None, 1, -1))


@phase("ties")
def ties(ctx):
    """a path that lands exactly on a barrier touches it; returns exactly at the meta threshold count"""
    ln2 = math.log(2.0)

    def gen():
        for n in (2, 3, 4):
            for path in itertools.product((0.5, 1.0, 2.0, 4.0), repeat=n):
                for tgt in (ln2, 2 * ln2, 0.0):
                    for hb in ((1.0, 1.0), (1.0, 2.0), (math.inf, 1.0), (1.0, math.inf)):
                        for s in (None, 1, -1, 0):
                            yield path, tgt, hb, s

    def body(case):
        path, tgt, hb, s = case
        px = [1.0] + list(path)
        ts = [T0 + i * NS for i in range(len(px))]
        lp = [float(np.log(p)) for p in px]
        for vb in (2.0, 100.0):
            compare(ctx, ts, px, lp, [0], [tgt], hb, vb, 0.0, None if s is None else [s], ln2 if s else 0.0)
    ctx.run(gen(), body)


@phase("nanoseconds")
def nanoseconds(ctx):
    """bars a few ns before, at and after the end of the vertical window"""
    def gen():
        for vb in (1.0, 0.1, 0.3, 3600.0, 86400.0):
            for a in (-130, -1, 0, 1, 2, 127, 130, 500):
                for b in (1, 200):
                    for base in (0, 1, 77, 130):
                        yield vb, a, b, base

    def body(case):
        vb, a, b, base = case
        t0 = T0 + base
        e = t0 + round(vb * 1e9)
        ts = [t0, t0 + 10_000_000, e + a, e + a + b, e + 10 * NS]
        lp = [0.0, 0.01, -0.01, 0.015, 0.2]
        compare(ctx, ts, [100.0 * math.exp(x) for x in lp], lp, [0], [0.1], (1.0, 1.0), vb, 0.0, None, 0.0)
    ctx.run(gen(), body)


@phase("errors")
def errors(ctx):
    from finmlkit.label.tbm import triple_barrier
    ts, px = np.arange(4) * NS + T0, np.array([1.0, 2.0, 3.0, 4.0])

    def gen():
        for ev in ([0], [0, 1], []):
            for tg in (1, 2, 0):
                for vb in (-1.0, 0.0, 1.0):
                    for mr in (-0.1, 0.0):
                        for side in (None, 1, 2):
                            for cut in (0, 1):
                                yield ev, tg, vb, mr, side, cut

    def body(case):
        ev, tg, vb, mr, side, cut = case
        bad = vb <= 0 or mr < 0 or cut or len(ev) != tg or not ev or (side is not None and side != len(ev))
        r = ctx.call(triple_barrier, ts, px[:4 - cut], np.array(ev, dtype=np.int64), np.full(tg, 0.1), (1.0, 1.0), vb, 0.0,
                     None if side is None else np.ones(side, dtype=np.int8), mr)
        ctx.trace()
        ctx.trans()
        ctx.state(case[1:], tuple(ev))
        if bad != (isinstance(r, Raised) and isinstance(r.exc, ValueError)):
            ctx.fail(f"inconsistent arguments {case}: {r!r}, expected {'ValueError' if bad else 'a result'}")
    ctx.run(gen(), body)


@phase("jit", jit=True, shards=2, threads=4)
def jit(ctx):
    explore(ctx, 5, (-0.031137, 0.020371, 0.040919), GAPS[1:4], (2.0, 3.5, math.inf), (0.0, 1.5), HB, (None, 1, -1))
    nanoseconds(ctx)
