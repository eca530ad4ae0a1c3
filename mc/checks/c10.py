"""C10: preprocessing conserves every trade exactly once, whatever order the rows arrive in."""
import itertools

import numpy as np
import pandas as pd

from mc.bars import T0, NS
from mc.core import phase, close, Raised

BOUNDS = ("every set of <= 3 trades (thorough 4) over timestamps x prices x maker flags, in every arrival order (all permutations), "
          "with every choice of a duplicated row, four timestamp units and three processing resolutions; every sequence of 2 to 6 "
          "rows over <= 4 ids whose rows differ (corrections that arrive late), and 9 to 130 of them; tiny-tick price ladders")
ASSUMPTIONS = ["split trades are merged when they are adjacent in (timestamp, id) order with equal price and side",
               "of several rows with one id the first in order of arrival is the trade"]

UNIT = dict(s=NS, ms=1_000_000, us=1000, ns=1)


def reference(rows, unit, res, with_side, on_state=None):
    """rows (id, ts, px, qty, maker) in any order -> merged rows; one trade at a time"""
    seen = {}
    for r in rows:
        seen.setdefault(r[0], r)
    order = sorted(seen.values(), key=lambda r: (r[1], r[0]))
    out = []
    for i, t, p, q, m in order:
        t *= UNIT[unit]
        s = (-1 if m else 1) if with_side else None
        if out and out[-1][0] == t and out[-1][1] == p and out[-1][3] == s:
            out[-1][2] += q
        else:
            out.append([t, p, q, s])
        if on_state:
            on_state((len(out), tuple(out[-1])))
    if res and res != unit:
        for r in out:
            r[0] = r[0] // UNIT[res] * UNIT[res]
    if not with_side:
        s, prev = 0, None
        for r in out:
            if prev is not None and r[1] != prev:
                s = 1 if r[1] > prev else -1
            r[3], prev = s, r[1]
    return out


def observe(rows, unit, res, with_side, explicit_unit=True):
    from finmlkit.bar.data_model import TradesData
    a = list(zip(*rows))
    td = TradesData(np.array(a[1], dtype=np.int64), np.array(a[2], dtype=np.float64), np.array(a[3], dtype=np.float64),
                    np.array(a[0], dtype=np.int64), is_buyer_maker=np.array(a[4], dtype=bool) if with_side else None,
                    timestamp_unit=unit if explicit_unit else None, preprocess=True, proc_res=res)
    return td


def check(ctx, rows, unit, res, with_side, explicit=True, rel=1e-6):
    td = ctx.call(observe, rows, unit, res, with_side, explicit)
    if isinstance(td, Raised):
        ctx.fail(f"TradesData on rows (id, ts, price, amount, maker) {rows} unit={unit}: {td!r}")
        return
    exp = reference(rows, unit, res, with_side, lambda s: (ctx.state(s), ctx.trans()))
    df = td.data
    got = list(zip(df["timestamp"].tolist(), df["price"].tolist(), df["amount"].tolist(), df["side"].tolist()))
    ctx.trace()
    ok = len(got) == len(exp) and all(g[0] == e[0] and g[1] == e[1] and close(g[2], e[2], rel) and g[3] == e[3]
                                      for g, e in zip(got, exp))
    if ok:
        ok = list(df.index) == list(pd.to_datetime([e[0] for e in exp], unit="ns"))
    ctx.outcome(len(exp), len(rows))
    if not ok:
        ctx.fail(f"preprocessed trades are {got}, expected {[tuple(e) for e in exp]}", rows=rows, unit=unit, res=res,
                 with_side=with_side)


def rowsets(n, tss, pxs, mks):
    for ts in itertools.product(tss, repeat=n):
        for px in itertools.product(pxs, repeat=n):
            for mk in itertools.product(mks, repeat=n):
                yield [(10 + i, ts[i], px[i], float(1 << i), mk[i]) for i in range(n)]


@phase("orders")
def orders(ctx):
    base = T0 // 1_000_000

    def gen():
        for n in (1, 2, 3):
            for rows in rowsets(n, (base, base + 1, base + 2) if n < 3 or ctx.thorough else (base, base + 1), (100.0, 101.0), (True, False)):
                for perm in itertools.permutations(range(n)):
                    for dup in [None] + (list(range(n)) if perm == tuple(range(n)) or ctx.thorough else [perm[0]]):
                        yield rows, perm, dup, True
        for n in (2, 3):
            for rows in rowsets(n, (base, base + 1), (100.0, 101.0), (True,)):
                for perm in itertools.permutations(range(n)):
                    yield rows, perm, None, False
        n = 4
        for rows in rowsets(n, (base, base + 1), (100.0,) if not ctx.thorough else (100.0, 101.0), (True, False)):
            if rows[0][4]:
                for perm in itertools.permutations(range(n)):
                    yield rows, perm, None, True

    def body(case):
        rows, perm, dup, ws = case
        r = [rows[i] for i in perm]
        if dup is not None:
            r = r + [rows[dup]]
        check(ctx, r, "ms", None, ws)
    ctx.run(gen(), body)


@phase("units")
def units(ctx):
    def gen():
        for unit in ("s", "ms", "us", "ns"):
            base = T0 // UNIT[unit]
            for res in (None, "s", "ms", "us"):
                for gaps in itertools.product((0, 1, 700, 1_500_000), repeat=2):
                    for explicit in (True, False):
                        for perm in itertools.permutations(range(3)):
                            yield unit, base, res, gaps, explicit, perm
        for unit, edge in (("ms", 10 ** 12), ("us", 10 ** 15), ("ns", 10 ** 18)):      # trades of September 2001, where the number of digits grows
            for res in (None, "s"):
                for perm in itertools.permutations(range(3)):
                    yield unit, edge - 8, res, (0, 700), False, perm

    def body(case):
        unit, base, res, gaps, explicit, perm = case
        ts = [base + 7, base + 7 + gaps[0], base + 7 + gaps[0] + gaps[1]]
        rows = [(1 + i, ts[i], (100.0, 100.0, 99.5)[i], float(1 << i), (True, True, False)[i]) for i in perm]
        check(ctx, rows, unit, res, True, explicit)
    ctx.run(gen(), body)


@phase("conflicts")
def conflicts(ctx):
    """rows that share an id but differ: the first in order of arrival is the trade, whatever the sorting does"""
    base = T0 // 1_000_000

    def gen():
        for n in (2, 3, 4, 5) + ((6,) if ctx.thorough else ()):
            for ids in itertools.product(range(min(n, 4)), repeat=n):
                if len(set(ids)) < n and sorted(set(ids)) == list(range(len(set(ids)))):
                    yield ids
        for n in (8, 16, 17, 33, 64, 100):
            for d in sorted({1, 2, n // 2, n - 1, n}):
                yield tuple(range(n)) + tuple(range(d))
                yield tuple(range(d)) + tuple(range(n - 1, -1, -1))
                yield tuple(i // 2 for i in range(n)) + tuple(range(d))

    def body(ids):
        rows = [(20 + i, base + i // 2 + k % 2, 100.0 + (i + k) % 3, float(1 + k), (i + k) % 2 == 0) for k, i in enumerate(ids)]
        check(ctx, rows, "ms", None, True)
    ctx.run(gen(), body)


@phase("tiny_ticks")
def tiny(ctx):
    """adjacent price levels of instruments quoted with 1e-8 (and other decimal) ticks stay distinct trades"""
    def gen():
        for tick, k0s in (("e-8", (1, 12, 834, 1234)), ("e-6", (60000123456,)), ("e-11", (7,)), ("e-6", (1, 12345)), ("e-2", (1, 6543210)), ("e-1", (3, 999999))):
            for k0 in k0s:
                for moves in itertools.product((0, 1), repeat=4):
                    yield tick, k0, moves

    def body(case):
        tick, k0, moves = case
        ks = [k0]
        for m in moves:
            ks.append(ks[-1] + m)
        rows = [(i, T0 // 1000, float(f"{k}{tick}"), float(1 << i), False) for i, k in enumerate(ks)]
        check(ctx, rows, "us", None, True)
    ctx.run(gen(), body)


@phase("bulk")
def bulk(ctx):
    """longer histories: all rotations and block reversals of 40 rows, with disordered timestamps"""
    n = 40

    def gen():
        for pat in range(4):
            for rot in range(0, n, 1 if ctx.thorough else 3):
                for rev in (False, True):
                    yield pat, rot, rev

    def body(case):
        pat, rot, rev = case
        rows = [(100 + i * (1 + pat % 2), T0 // 1_000_000 + (i // 3 if pat < 2 else (i * 7) % 11), 100.0 + (i * i // 5) % 3,
                 0.1 * (1 + i % 7), (i // 2) % 2 == 0) for i in range(n)]
        r = rows[rot:] + rows[:rot]
        if rev:
            r = r[::-1]
        check(ctx, r + r[3:6], "ms", None, True, rel=1e-5)
    ctx.run(gen(), body)


@phase("jit", jit=True, shards=1)
def jit(ctx):
    base = T0 // 1_000_000

    def gen():
        for rows in rowsets(3, (base, base + 1), (100.0, 101.0), (True, False)):
            yield rows, True
            yield rows, False

    def body(case):
        rows, ws = case
        check(ctx, rows[::-1], "ms", None, ws)
    ctx.run(gen(), body)
