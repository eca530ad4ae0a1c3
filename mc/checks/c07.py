"""C07: footprints account for every trade at its own price level and flag imbalances by the diagonal rule."""
import itertools

import numpy as np
import pandas as pd

from mc.bars import *
from mc.core import phase, close, first_diff, seqs

BOUNDS = ("all (tick price, size, side) sequences of length <= 3 (4 with fixed sizes) over 4 price levels x 2 sizes x sides "
          "{-1,0,1}, every close-index vector (<= 3 entries), ticks {0.1, 0.5, 1}, factors {1, 3}; the level-profile rules on "
          "every buy/sell volume ladder of <= 4 levels over {0,1,2,4}; tick-size inference on every price set drawn from 8 "
          "multiples of 14 tick sizes, and with the finest increment after/before up to 12000 coarser prices")
ASSUMPTIONS = ["price levels are exact multiples of the tick", "the reported skew is compared with its documented formula"]
NAN = float("nan")


def check(ctx, out, want, what, skew_tol=1e-3):
    (lv, bv, sv, bt, st, bi, si, bsum, ssum, cot, run, skew, gini) = out
    if len(lv) != len(want):
        ctx.fail(f"{what}: {len(lv)} bars, expected {len(want)}")
        return False
    for k, w in enumerate(want):
        for nm, got, exp in (("levels", lv[k], w["levels"]), ("buy volumes", bv[k], w["bv"]), ("sell volumes", sv[k], w["sv"]),
                             ("buy ticks", bt[k], w["bt"]), ("sell ticks", st[k], w["st"]),
                             ("buy imbalances", bi[k], w["bi"]), ("sell imbalances", si[k], w["si"])):
            d = first_diff(got, exp, rel=1e-6)
            if d:
                ctx.fail(f"{what}: bar {k} {nm}: {d}")
                return False
        for nm, got, exp in (("buy imbalance count", bsum[k], w["bsum"]), ("sell imbalance count", ssum[k], w["ssum"]),
                             ("COT level", cot[k], w["cot"]), ("signed run", run[k], w["run"]), ("gini", gini[k], w["gini"])):
            if not close(got, exp, 1e-5, 1e-6):
                ctx.fail(f"{what}: bar {k} {nm}: {got} != expected {exp}")
                return False
        if not abs(float(skew[k]) - w["skew"]) < skew_tol:
            ctx.fail(f"{what}: bar {k} skew {skew[k]} != {w['skew']}")
            return False
    return True


def bounds(px, closes):
    lo, hi = [], []
    for k, m in enumerate(members(closes)):
        v = [px[j] for j in m] or [px[closes[k + 1]]]
        lo.append(min(v))
        hi.append(max(v))
    return np.array(lo), np.array(hi)


@phase("kernel")
def kernel(ctx):
    from finmlkit.bar.base import comp_bar_footprints as f

    def gen():
        for n in (1, 2, 3):
            for lv in itertools.product((0, 1, 2, 4), repeat=n):
                for qt in itertools.product((0.5, 2.0), repeat=n):
                    for sd in itertools.product((-1, 1), repeat=n):
                        yield lv, qt, sd
        for lv in itertools.product((0, 1, 2, 4) if ctx.thorough else (0, 1, 3), repeat=4):
            for sd in itertools.product((-1, 0, 1) if ctx.thorough else (-1, 1), repeat=4):
                yield lv, (0.5, 2.0, 1.0, 8.0), sd

    def body(case):
        lv, qt, sd = case
        n = len(lv)
        rot = (sum(lv) + sum(sd) + n) % 3
        tick, base = ((0.5, 100), (0.1, 1000), (1.0, 3))[rot]
        px = [round((base + v) * tick, 10) for v in lv]
        for closes in (partitions(n, 3) if n < 4 else ((-1, 3), (-1, 1, 3), (0, 0, 3), (-1, 0, 2, 3))):
            lo, hi = bounds(px, closes)
            fac = 3.0 if (sum(closes) + n) % 2 else 1.0
            want = ref_footprint(px, qt, sd, closes, tick, fac)
            got = ctx.call(f, np.array(px), np.array(qt), np.array(closes), np.array(sd, dtype=np.int8), tick, lo, hi, fac)
            ctx.trace()
            ctx.trans(n)
            ctx.outcome(repr(want))
            for w in want:
                ctx.state(repr(w), tick)
            if not isinstance(got, tuple):
                ctx.fail(f"closes={closes}: {got}")
                return
            if not check(ctx, got, want, f"closes={closes} tick={tick} factor={fac}"):
                return
    ctx.run(gen(), body)


def run_profile(ctx, vols, sizes, facs):
    from finmlkit.bar.base import comp_footprint_features as f

    def gen():
        for n in sizes:
            for b in itertools.product(vols, repeat=n):
                for s in itertools.product(vols, repeat=n):
                    yield b, s

    def body(case):
        b, s = case
        lv = list(range(7, 7 + len(b)))
        for fac in facs:
            w = ref_profile(lv, b, s, fac)
            bi, si, run, cot, skew, gini = f(np.array(lv, dtype=np.int32), np.array(b, dtype=np.float32),
                                             np.array(s, dtype=np.float32), fac)
            ctx.trace()
            ctx.trans(len(b))
            ctx.state("p", repr(w))
            bad = (first_diff(bi, w["bi"]) or first_diff(si, w["si"]) or (run != w["run"] and f"run {run} != {w['run']}")
                   or (cot != w["cot"] and f"COT {cot} != {w['cot']}")
                   or (not close(gini, w["gini"], 1e-5, 1e-6) and f"gini {gini} != {w['gini']}")
                   or (abs(skew - w["skew"]) > 1e-3 and f"skew {skew} != {w['skew']}"))
            if bad:
                ctx.fail(f"factor {fac}: {bad}", expected=w)
                return
    ctx.run(gen(), body)


@phase("profile")
def profile(ctx):
    run_profile(ctx, (0.0, 1.0, 2.0, 4.0), (1, 2, 3), (1.0, 1.5, 3.0))
    run_profile(ctx, (0.0, 1.0, 4.0) if ctx.thorough else (0.0, 4.0), (4,), (1.5,))
    run_profile(ctx, (0.0, 4.0), (5, 6) if ctx.thorough else (5,), (1.5,))


@phase("ticksize")
def ticksize(ctx):
    from finmlkit.bar.utils import comp_price_tick_size as f
    import math
    ticks = (1e-9, 2.5e-9, 1e-8, 1e-5, 0.001, 0.005, 0.01, 0.02, 0.025, 0.05, 0.1, 0.125, 0.25, 0.5, 1.0, 2.5, 5.0)

    def gen():
        for t in ticks:
            for base in (0, 40, 4000, 100000):
                for r in (2, 3, 4):
                    for ks in itertools.combinations((1, 2, 3, 4, 6, 7, 10, 15), r):
                        yield t, base, ks

    def body(case):
        t, base, ks = case
        px = [float(np.round((base + k) * t, 12)) for k in ks]
        g = 0
        for a, b in zip(ks, ks[1:]):
            g = math.gcd(g, b - a)
        got = f(np.array(px[::-1] + px[:1]))
        ctx.trace()
        ctx.trans(len(ks))
        ctx.state("t", t, ks)
        ctx.expect(close(got, g * t, 1e-6), f"inferred tick {got}, the prices {px} are multiples of {g * t} apart")
    ctx.run(gen(), body)

    def late(case):                     # the finest increment first appears after (before) a long run of coarse prices
        at, fine, where = case
        lv = [40 + 4 * (i % 2) for i in range(at)]
        lv = lv + [40 + fine] if where else [40 + fine] + lv
        px = [0.5 * v for v in lv]
        g = math.gcd(fine, 4) * 0.5
        got = f(np.array(px))
        ctx.trace()
        ctx.trans(at)
        ctx.expect(close(got, g, 1e-6), f"inferred tick {got} with a price at level {fine} {'after' if where else 'before'} "
                                        f"{at} prices at levels 0 and 4; expected {g}")
    ctx.run(list(itertools.product((2, 9998, 9999, 10000, 10001, 12000) + ((100000,) if ctx.thorough else ()), (1, 2, 3, 6),
                                   (0, 1))), late)

    def built(case):                    # ... and through build_footprints(), which infers it
        from finmlkit.bar.kit import TickBarKit
        at, fine = case
        lv = [4 * (i % 2) for i in range(at)] + [fine, 0, fine]
        n = len(lv)
        px, qt, sd = [50 + 0.5 * v for v in lv], [1.0] * n, [1 - 2 * (i % 2) for i in range(n)]
        kit = TickBarKit(trades_data([T0 + i * 1000_000 for i in range(n)], px, qt, sd), n // 3)
        fp = kit.build_footprints()
        ctx.trace()
        ctx.trans(n)
        ctx.expect(close(fp.price_tick, math.gcd(fine, 4) * 0.5), f"inferred tick {fp.price_tick} of the footprints with a "
                                                                  f"price at level {fine} after {at} coarser ones")
    ctx.run([(10001, 1), (10001, 2)], built)


def full(ctx, td, n, px, qt, sd, what):
    from finmlkit.bar.kit import TickBarKit, VolumeBarKit
    for kit in (TickBarKit(td, 2), VolumeBarKit(td, 2.0)):
        closes = [0] + kit_closes(kit)[0]
        if len(closes) < 2:
            continue
        for tick, fac in ((0.5, 3.0), (0.5, 1.5)):
            fp = kit.build_footprints(price_tick_size=tick, imbalance_factor=fac)
            ctx.trace()
            ctx.trans(n)
            want = ref_footprint(px, qt, sd, closes, tick, fac)
            out = (fp.price_levels, fp.buy_volumes, fp.sell_volumes, fp.buy_ticks, fp.sell_ticks, fp.buy_imbalances,
                   fp.sell_imbalances, fp.buy_imbalances_sum, fp.sell_imbalances_sum, fp.cot_price_levels,
                   fp.imb_max_run_signed, fp.vp_skew, fp.vp_gini)
            if not check(ctx, out, want, f"{what} {type(kit).__name__}"):
                return
            if list(fp.bar_timestamps) != kit_closes(kit)[1] or fp.price_tick != tick or not fp.is_valid() or len(fp) != len(want):
                ctx.fail(f"{what}: timestamps/tick/length of the container")
                return


@phase("kits")
def kits(ctx):
    """build_footprints() through the kits, explicit and inferred tick"""
    def gen():
        for n in (3, 4):
            for lv in itertools.product((0, 1, 3), repeat=n):
                for sd in itertools.product((-1, 1), repeat=n):
                    yield lv, sd

    def body(case):
        lv, sd = case
        n = len(lv)
        px, qt = [50 + 0.5 * v for v in lv], [(0.5, 2.0, 1.0)[(i + sum(lv)) % 3] for i in range(n)]
        td = trades_data([T0 + i * 1000_000 for i in range(n)], px, qt, sd)
        ctx.state("k", case)
        full(ctx, td, n, px, qt, sd, "kit")
        if len(set(lv)) > 1:
            from finmlkit.bar.kit import TickBarKit
            fp = TickBarKit(td, 3).build_footprints()
            g = np.gcd.reduce(np.diff(np.unique(lv))) * 0.5
            ctx.trace()
            ctx.expect(close(fp.price_tick, g), f"inferred tick {fp.price_tick} != {g}")
    ctx.run(gen(), body)


@phase("jit", jit=True, shards=1)
def jit(ctx):
    from finmlkit.bar.base import comp_bar_footprints as f
    segs = [(p, q, s) for p in itertools.product((0, 1, 3), repeat=3) for q in ((0.5, 2.0, 1.0), (4.0, 0.5, 0.5))
            for s in itertools.product((-1, 0, 1), repeat=3)]
    px = [0.1 * (1000 + v) for s in segs for v in s[0]]
    qt = [v for s in segs for v in s[1]]
    sd = [v for s in segs for v in s[2]]

    def body(case):
        shape, dt, fac = case
        closes = [-1]
        for k in range(len(segs)):
            closes += [3 * k + c for c in shape]
        lo, hi = bounds(px, closes)
        got = f(np.array(px), np.array(qt, dtype=dt), np.array(closes), np.array(sd, dtype=np.int8), 0.1, lo, hi, fac)
        want = ref_footprint(px, qt, sd, closes, 0.1, fac)
        ctx.trace(len(want))
        ctx.trans(len(px))
        check(ctx, got, want, f"compiled {shape} {dt}")
    ctx.run([(s, d, fc) for s in ((2, 2), (0, 2), (0, 1, 2)) for d in ("f8", "f4") for fc in (1.5, 3.0)], body)
    run_profile(ctx, (0.0, 1.0, 4.0), (1, 2, 3), (1.5,))
    run_profile(ctx, (0.0, 4.0), (4, 5), (1.5,))

    def body3(case):                    # ladders and bars of every size up to the bound
        L, pat = case
        P = [0.5 * (200 + (i * (3 + 2 * pat)) % L) for i in range(2 * L)]
        Q = [0.5 * ((i * 5 + pat) % 13) for i in range(2 * L)]
        S = [1 if (i * i + pat * i) % 7 < 3 + pat % 2 else -1 for i in range(2 * L)]
        closes = [-1, L - 1, 2 * L - 1]
        lo, hi = bounds(P, closes)
        got = f(np.array(P), np.array(Q), np.array(closes), np.array(S, dtype=np.int8), 0.5, lo, hi, 2.0)
        ctx.trace()
        check(ctx, got, ref_footprint(P, Q, S, closes, 0.5, 2.0), f"size {L}")
    ctx.run(list(itertools.product(list(range(1, 80)) + [255, 256, 257, 400], range(3))), body3)
