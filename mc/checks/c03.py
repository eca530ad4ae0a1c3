"""C03: tick, volume and dollar bars close at exactly the first trade that reaches the threshold."""
import itertools

import numpy as np

from mc.bars import *
from mc.core import phase, seqs

BOUNDS = ("tick: every (n <= 40, threshold <= 12); volume and dollar: every sequence of length <= 7 (thorough 8) over 4 "
          "sizes x thresholds (and 2 prices for dollar, length <= 5/6); kits and compiled indexers over the same spaces; sizes and thresholds scaled by 2^-60 and 2^45, and of 25 significant bits")
ASSUMPTIONS = ["sizes, prices and thresholds are dyadic: cumulative sums are exact, so >= is decided without rounding"]

Q = (0.0, 0.5, 1.0, 3.0)
TH = (0.25, 1.0, 1.5, 2.0, 4.0, 100.0)


def tick_cases(nmax):
    for n in range(1, nmax + 1):
        for thr in range(1, 13):
            yield n, thr


def run_tick(ctx, nmax):
    from finmlkit.bar.logic import _tick_bar_indexer

    def body(case):
        n, thr = case
        got = [int(x) for x in _tick_bar_indexer(np.arange(n, dtype=np.int64) * 7, thr)]
        want = ref_tick(n, thr, lambda c: (ctx.state(thr, c), ctx.trans()))
        ctx.trace()
        ctx.outcome("t", thr, n)
        ctx.expect(got == want, f"tick n={n} thr={thr}: {got} != {want}")
    ctx.run(tick_cases(nmax), body)


def vol_cases(nmax):
    for q in seqs(Q, 1, nmax):
        for th in TH:
            yield q, th


def run_vol(ctx, nmax):
    from finmlkit.bar.logic import _volume_bar_indexer

    def body(case):
        q, th = case
        got = [int(x) for x in _volume_bar_indexer(np.array(q), th)]
        want = ref_volume(q, th, lambda c: (ctx.state("v", th, c), ctx.trans()))
        ctx.trace()
        ctx.outcome("v", tuple(want))
        ctx.expect(got == want, f"volume {q} thr={th}: {got} != {want}")
    ctx.run(vol_cases(nmax), body)


def dol_cases(nmax):
    for n in range(1, nmax + 1):
        for px in itertools.product((2.0, 4.0), repeat=n):
            for q in itertools.product(Q, repeat=n):
                for th in (2.0, 3.0, 8.0, 500.0):
                    yield px, q, th


def run_dol(ctx, nmax):
    from finmlkit.bar.logic import _dollar_bar_indexer

    def body(case):
        px, q, th = case
        got = [int(x) for x in _dollar_bar_indexer(np.array(px), np.array(q), th)]
        want = ref_dollar(px, q, th, lambda c: (ctx.state("d", th, c), ctx.trans()))
        ctx.trace()
        ctx.outcome("d", tuple(want))
        ctx.expect(got == want, f"dollar px={px} q={q} thr={th}: {got} != {want}")
    ctx.run(dol_cases(nmax), body)


@phase("tick")
def tick(ctx):
    run_tick(ctx, 60 if ctx.thorough else 40)


@phase("volume")
def volume(ctx):
    run_vol(ctx, 8 if ctx.thorough else 7)


@phase("dollar")
def dollar(ctx):
    run_dol(ctx, 6 if ctx.thorough else 5)


@phase("kits")
def kits(ctx):
    """the kits expose exactly those closes (after the opening mark), stamped with the closing trade's time"""
    from finmlkit.bar.kit import TickBarKit, VolumeBarKit, DollarBarKit

    def gen():
        for n in range(2, 6):
            for q in itertools.product((0.5, 1.0, 3.0), repeat=n):
                for rev in (0, 1):
                    yield q, rev

    def body(case):
        q, rev = case
        n = len(q)
        ts = [T0 + (i * i + 3 * i) * 1000_000 for i in range(n)]
        px = [2.0 if (i + rev) % 2 else 4.0 for i in range(n)]
        td = trades_data(ts, px, q)
        for name, kit, want in [("tick", TickBarKit(td, k), ref_tick(n, k)) for k in (1, 2, 3)] + \
                [("volume", VolumeBarKit(td, v), ref_volume(q, v)) for v in (1.0, 2.5)] + \
                [("dollar", DollarBarKit(td, v), ref_dollar(px, q, v)) for v in (4.0, 9.0)]:
            i, t = kit_closes(kit)
            ctx.trace()
            ctx.trans(n)
            ctx.state(name, q, rev, tuple(want))
            if i != want[1:] or t != [ts[j] for j in want[1:]]:
                ctx.fail(f"{name} kit closes {i} at {t}; expected {want[1:]} at {[ts[j] for j in want[1:]]}")
                return
            if len(want) > 1:
                df = kit.build_ohlcv()
                if list(df.index.astype("int64")) != t:
                    ctx.fail(f"{name} kit frame index {list(df.index)}")
                    return
    ctx.run(gen(), body)


@phase("jit", jit=True, shards=2)
def jit(ctx):
    run_tick(ctx, 30)
    run_vol(ctx, 6)
    run_dol(ctx, 4)
    from finmlkit.bar.logic import _volume_bar_indexer, _dollar_bar_indexer, _tick_bar_indexer

    def body(case):
        L, th = case                # long tapes: resets must not drift
        q = [0.5 * (1 + (i * 7) % 5) for i in range(L)]
        px = [2.0 + (i * 3) % 4 for i in range(L)]
        for nm, got, want in (("volume", _volume_bar_indexer(np.array(q), th), ref_volume(q, th)),
                              ("dollar", _dollar_bar_indexer(np.array(px), np.array(q), 4 * th), ref_dollar(px, q, 4 * th)),
                              ("tick", _tick_bar_indexer(np.arange(L), int(th)), ref_tick(L, int(th)))):
            got = [int(x) for x in got]
            ctx.trace()
            ctx.expect(got == want, f"{nm} tape of {L}, thr={th}: first difference at "
                       f"{next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))}")
    ctx.run([(L, th) for L in (64, 257, 1000, 5000) for th in (2.0, 7.5, 33.0, 250.0, 1000.0, 3000.0)], body)


@phase("magnitudes")
def magnitudes(ctx):
    """the comparison with the threshold is exact at every magnitude: no tolerance, no loss of digits"""
    run_magnitudes(ctx, 5)


@phase("magnitudes-jit", jit=True, shards=1)
def magnitudes_jit(ctx):
    run_magnitudes(ctx, 4)


def run_magnitudes(ctx, nmax):
    from finmlkit.bar.kit import DollarBarKit, VolumeBarKit
    from finmlkit.bar.logic import _volume_bar_indexer, _dollar_bar_indexer
    big = 2.0 ** 25
    alphabets = [((0.0, 0.5, 1.0, 3.0), (1.0, 1.5, 4.0), 2.0 ** -60), ((0.0, 0.5, 1.0, 3.0), (1.0, 1.5, 4.0), 2.0 ** 45),
                 ((big, 1.0, big - 1), (big, big + 1, big + 2, 2 * big), 1.0), ((1.0, 2.0 ** -27, 1 - 2.0 ** -27), (1.0, 2.0, 1 + 2.0 ** -27), 1.0)]

    def gen():
        for k, (al, ths, sc) in enumerate(alphabets):
            for n in range(2, nmax + 1):
                for q in itertools.product(al, repeat=n):
                    for th in ths:
                        yield k, q, th

    def body(case):
        k, q, th = case
        sc = alphabets[k][2]
        q = [x * sc for x in q]
        ctx.state(case)
        ctx.trans(len(q))
        want = ref_volume(q, th * sc)
        px = [2.0 if i % 2 else 4.0 for i in range(len(q))]
        wantd = ref_dollar(px, q, 4 * th * sc)
        got = [[int(x) for x in _volume_bar_indexer(np.array(q), th * sc)], [int(x) for x in _dollar_bar_indexer(np.array(px), np.array(q), 4 * th * sc)]]
        ctx.trace(2)
        ctx.outcome(tuple(want), tuple(wantd))
        if got != [want, wantd]:
            ctx.fail(f"volume and dollar bars of sizes {q}, prices {px}, thresholds {th * sc!r} and {4 * th * sc!r}: {got} != {[want, wantd]}")
        if len(q) == 3:
            td = trades_data([T0 + i * 1000 for i in range(len(q))], px, q)
            for name, kit, w in (("volume", VolumeBarKit(td, th * sc), want), ("dollar", DollarBarKit(td, 4 * th * sc), wantd)):
                i, _ = kit_closes(kit)
                if i != w[1:]:
                    ctx.fail(f"{name} kit over sizes {q}, prices {px}, threshold {th * sc!r} (dollar: 4 times): closes {i}, expected {w[1:]}")
    ctx.run(gen(), body)
