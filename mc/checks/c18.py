"""C18: the labelling front end selects, locates and labels exactly the events it should, and keeps rows together."""
import itertools
import math

import numpy as np
import pandas as pd

from mc.bars import T0, NS
from mc.core import phase, close, seq_close, Raised
from mc.checks.c17 import label
from mc.labels import concurrency, uniqueness, attribution

NAN = float("nan")
BOUNDS = ("5 trade layouts x every subset of <= 4 event times out of 6 x target patterns over {NaN, small, large, -large} x a second feature "
          "column with every leading-NaN length x minimum returns x barrier settings (incl. disabled); the same with times in units of 65 us to 24 h 1.001 s x vertical windows x meta sides x "
          "index units {s, ms, us, ns} x given event_idx; histories of up to 3 labelling runs of one object over 2 trade sets and views")
ASSUMPTIONS = ["events that cannot be evaluated over their full vertical window are dropped", "rows before the first row at which every "
               "(non-empty) column is valid are dropped"]

# trade layouts: (seconds, price)
LAY = dict(
    dense=[(i, p) for i, p in enumerate((100.0, 101.3, 99.2, 103.7, 103.1, 98.4, 100.9, 104.4, 99.7))],
    sparse=[(0, 100.0), (1, 102.1), (1, 97.3), (4, 101.9), (7, 99.1), (7, 105.2), (8, 100.3)],
    fine=[(0, 100.0), (1 + 2 ** -9, 102.1), (1 + 2 ** -9, 97.3), (3.5, 101.9), (4 + 2 ** -9, 99.1), (5 - 2 ** -9, 105.2), (8 + 2 ** -9, 100.3)],
    burst=[(0, 100.0), (3, 100.4), (3, 99.1), (3, 103.3), (3, 96.9), (8, 101.1)],
    short=[(0, 100.0), (1, 102.1), (2, 97.3), (3 - 2 ** -30, 101.9), (5, 99.1), (8 - 2 ** -30, 105.2)],     # ends 1 ns before a whole unit
)
EV = (0, 1, 3, 4, 5, 6)


def trades_of(lay, q=NS):
    """trade times of a layout are in units of q ns"""
    from finmlkit.bar.data_model import TradesData
    t = np.array([T0 + int(s * q) for s, _ in lay], dtype=np.int64)
    return TradesData(t, np.array([p for _, p in lay]), np.ones(len(lay)), np.arange(len(lay)), timestamp_unit="ns")


def model(lay, rows, cols, min_ret, hb, vb, mc, meta, given, q=NS):
    """rows: (second, {col: value}); returns list of (row position, event idx, label tuple) or None = refused"""
    starts = []
    for c in cols:
        ok = [k for k, (_, r) in enumerate(rows) if r[c] == r[c]]
        if ok:
            starts.append(ok[0])
    if not starts:
        return None
    start = max(starts)
    mm = max(hb)
    keep = [k for k in range(start, len(rows)) if abs(rows[k][1]["tgt"]) * mm >= min_ret]   # NaN compares false
    if not keep:
        return None
    last = lay[-1][0]
    keep = [k for k in keep if rows[k][0] + vb <= last]
    if not keep:
        return None
    ts, lp = [int(s * q) for s, _ in lay], [math.log(p) for _, p in lay]
    out = []
    for k in keep:
        s, r = rows[k]
        i = int(r["event_idx"]) if given else next(j for j, t in enumerate(ts) if t >= s * q)
        out.append((k, i, label(ts, lp, i, r["tgt"], hb, vb * q / NS, mc * q / NS, r["side"] if meta else 1, min_ret, meta)))
    return out


def frame(rows, cols, unit, q=NS):
    idx = pd.DatetimeIndex([pd.Timestamp(T0 + s * q) for s, _ in rows]).as_unit(unit)
    return pd.DataFrame({c: [r[c] for _, r in rows] for c in cols}, index=idx)


def check_run(ctx, kit, td, lay, exp, rows, where, q=NS):
    r = ctx.call(kit.compute_labels, td)
    ctx.trace()
    if exp is None:
        if not (isinstance(r, Raised) and isinstance(r.exc, ValueError)):
            ctx.fail(f"{where}: no event can be evaluated, but {r!r}")
        return False
    if isinstance(r, Raised):
        ctx.fail(f"{where}: {r!r}, expected {len(exp)} events")
        return False
    feats, out = r
    ts = [T0 + int(s * q) for s, _ in lay]
    got = [(int(a), int(b), int(c), float(d), float(e), pd.Timestamp(t).value) for a, b, c, d, e, t in
           zip(out["event_idx"], out["touch_idx"], out["labels"], out["returns"], out["vertical_touch_weights"], out["touch_time"])]
    want = [(i, t, l, rt, w, ts[t]) for _, i, (l, t, rt, w) in exp]
    sec = [T0 + rows[k][0] * q for k, _, _ in exp]
    ctx.outcome(tuple((i, t, l) for _, i, (l, t, _, _) in exp))
    ok = len(got) == len(want) and all(g[:3] == w[:3] and g[5] == w[5] and close(g[3], w[3], 1e-9, 1e-11) and close(g[4], w[4], 1e-7, 1e-9)
                                       for g, w in zip(got, want))
    if not ok:
        ctx.fail(f"{where}: (event, touch, label, return, weight, touch time)\n got {got}\n expected {want}")
        return False
    if [t.value for t in out.index.as_unit("ns")] != sec or not feats.index.equals(out.index) or \
            [float(x) for x in feats["tgt"]] != [rows[k][1]["tgt"] for k, _, _ in exp] or \
            [float(x) for x in kit.target_returns] != [rows[k][1]["tgt"] for k, _, _ in exp]:
        ctx.fail(f"{where}: rows of features and labels do not belong together:\n{feats}\n{out}")
        return False
    if kit.event_count != len(exp) or kit.first_event_timestamp.value != sec[0] or kit.last_event_timestamp.value != sec[-1] or \
            not kit.labels.equals(out["labels"]) or not kit.event_returns.equals(out["returns"]) or kit.full_output is not out:
        ctx.fail(f"{where}: summary properties disagree with the output")
        return False
    return True


def run_case(ctx, lname, evs, tg, other, min_ret, hb, vb, mc, sides, unit, given, q=NS):
    from finmlkit.label.kit import TBMLabel, SampleWeights
    lay = LAY[lname]
    rows = []
    for k, s in enumerate(evs):
        r = dict(tgt=tg[k], f=other[k])
        if sides:
            r["side"] = sides[k]
        if given:
            r["event_idx"] = min(len(lay) - 2, k + given - 1)
        rows.append((s, r))
    cols = ["tgt", "f"] + (["side"] if sides else []) + (["event_idx"] if given else [])
    df = frame(rows, cols, unit, q)
    before = df.copy()
    exp = model(lay, rows, cols, min_ret, hb, vb, mc, bool(sides), bool(given), q)
    where = f"trades {lname}, events at {evs} s, targets {tg}, other feature {other}, min_ret {min_ret}, barriers {hb}, window {vb} s, " \
            f"min close {mc} s, sides {sides}, unit {unit}, given event_idx {bool(given)}" + (f", in units of {q} ns" if q != NS else "")
    ctx.state(lname, evs, tg, other, vb, hb, q)
    ctx.trans(len(evs))
    kit = ctx.call(TBMLabel, df, "tgt", min_ret, hb, pd.Timedelta(round(vb * q), unit="ns"), pd.Timedelta(round(mc * q), unit="ns"), bool(sides))
    td = trades_of(lay, q)
    if isinstance(kit, Raised):
        ctx.trace()
        if exp is not None or not isinstance(kit.exc, ValueError):
            ctx.fail(f"{where}: {kit!r}, expected {exp}")
        return
    ok = check_run(ctx, kit, td, lay, exp, rows, where, q)
    if not df.equals(before) or not df.index.equals(before.index):
        ctx.fail(f"{where}: the caller's features were modified")
    if ok:
        ev, to = [i for _, i, _ in exp], [l[1] for _, _, l in exp]
        alive = concurrency(len(lay), ev, to)
        px = [p for _, p in lay]
        w = ctx.call(kit.compute_weights, td)
        ctx.trace()
        u, a = [float(x) for x in uniqueness(alive, ev, to)], attribution(alive, ev, to, px)
        for sub, tot in ((kit.full_output, False), (kit.full_output, True), (kit.full_output[:-1], False), (kit.full_output[1:], True)):
            e2, t2 = [int(x) for x in sub["event_idx"]], [int(x) for x in sub["touch_idx"]]
            if not e2:
                continue
            al = concurrency(len(lay), e2, t2)
            a2, u2 = attribution(al, e2, t2, px), [float(x) for x in uniqueness(al, e2, t2)]
            z = math.fsum(a2)
            if tot and z < 1e-9:
                continue
            r = ctx.call(SampleWeights.compute_info_weights, td, sub, tot)
            ctx.trace()
            if isinstance(r, Raised) or not r.index.equals(sub.index) or not seq_close(r["avg_uniqueness"], u2) or \
                    not seq_close(r["return_attribution"], [x * len(a2) / z for x in a2] if tot else a2, 1e-8, 1e-12):
                return ctx.fail(f"{where}: weights of the labels {e2} -> {t2}, normalised {tot}: {r!r}, expected {u2} and {a2}")
        if isinstance(w, Raised) or not w.index.equals(kit.full_output.index) or not seq_close(w["avg_uniqueness"], u) or \
                not seq_close(w["return_attribution"], a, 1e-8, 1e-12):
            ctx.fail(f"{where}: weights {w!r}, expected uniqueness {u}, attribution {a}")


L, S_ = 0.021, 0.011


@phase("selection")
def selection(ctx):
    """which rows become events"""
    def gen():
        for evs in (EV[:3], EV[2:6], (1, 4), (0, 3, 5, 6)):
            for tg in itertools.product((NAN, S_, L, -L), repeat=len(evs)):
                for lead in range(len(evs) + 1):
                    for mr in (0.0, 0.015):
                        for hb in ((1.0, 1.0), (2.0, 1.0), (1.0, math.inf)):
                            yield "dense", evs, tg, (NAN,) * lead + (1.0,) * (len(evs) - lead), mr, hb, 3.0, 0.0, None, "ns", 0
        for tg in itertools.product((NAN, S_, L), repeat=2):
            for o in itertools.product((NAN, 2.0), repeat=2):
                for mr in (0.0, 0.015, 0.5):
                    yield "dense", (1, 4), tg, o, mr, (0.5, 1.0), 3.0, 0.0, None, "us", 0
        for tg in itertools.product((2.0 ** -6, -2.0 ** -6, 2.0 ** -7, 2.0 ** -5), repeat=3):     # exactly at the minimum return
            for hb in ((1.0, 1.0), (2.0, 1.0), (0.5, 0.25)):
                yield "dense", EV[:3], tg, (1.0,) * 3, 2.0 ** -6, hb, 3.0, 0.0, None, "ns", 0
    ctx.run(gen(), lambda c: run_case(ctx, *c))


@phase("location")
def location(ctx):
    """where events are located and how they are labelled, over every subset of event times"""
    def gen():
        for lay in LAY:
            for k in (1, 2, 3, 4):
                for evs in itertools.combinations(EV, k):
                    for vb in (1.0, 2.0, 3.5, 8.0):
                        for mc in ((0.0, 1.0, 2.0) if k != 2 else (0.0, 0.5, 1.0, 1.5, 2.0, 86400.0, 86401.0)):
                            for unit in ("s", "ms", "us", "ns") if k == 2 else ("ns",):
                                for sides in (None, tuple((-1, 1, 1, -1)[:k])):
                                    for hb in ((1.0, 1.0), (math.inf, 1.0)):
                                        for given in ((0, 1, 2) if k == 3 else (0,)):
                                            yield lay, evs, (L, S_, L, S_)[:k], (1.0,) * k, 0.0 if not sides else 0.004, hb, vb, mc, sides, unit, given
    ctx.run(gen(), lambda c: run_case(ctx, *c))


@phase("fractions")
def fractions(ctx):
    """times that are no whole number of seconds: trades, window ends and minimum close times meet to the nanosecond"""
    def gen():
        for q in (67_000_000, 65_000_000, 1_001_000_000, 4_099_000_000, 65_000, 134_205_000, 86_461_001_000_000):
            for lay in ("dense", "sparse", "burst", "short"):
                for k in (1, 2):
                    for evs in itertools.combinations(EV, k):
                        for vb in (1.0, 2.0, 3.0, 4.0, 8.0):
                            for mc in (0.0, 1.0, 2.0, 3.0):
                                yield lay, evs, (L, S_)[:k], (1.0,) * k, 0.0, (1.0, 1.0), vb, mc, None if mc else (1, -1)[:k], "ns" if k == 1 else "us", 0, q
    ctx.run(gen(), lambda c: run_case(ctx, *c))


@phase("histories")
def histories(ctx):
    """one labeller used on several trade sets and views: every run only depends on its own arguments"""
    from finmlkit.label.kit import TBMLabel
    rows = [(s, dict(tgt=(L, S_, L, L, S_, L)[k], f=1.0)) for k, s in enumerate(EV)]
    runs = [("dense", None), ("sparse", None), ("burst", None), ("dense", (2, 7)), ("sparse", (1, 8)), ("dense", (7, 8))]

    def gen():
        for n in (1, 2, 3):
            yield from itertools.product(runs, repeat=n)

    def body(case):
        kit = TBMLabel(frame(rows, ["tgt", "f"], "ns"), "tgt", 0.0, (1.0, 1.0), pd.Timedelta(seconds=2), pd.Timedelta(seconds=0))
        for k, (name, view) in enumerate(case):
            lay = LAY[name]
            td = trades_of(lay)
            if view:
                td.set_view_range(pd.Timestamp(T0 + view[0] * NS), pd.Timestamp(T0 + view[1] * NS))
                lay = [x for x in lay if view[0] <= x[0] <= view[1]]
            exp = model(lay, rows, ["tgt", "f"], 0.0, (1.0, 1.0), 2.0, 0.0, False, False)
            ctx.trans()
            ctx.state(case[:k + 1])
            check_run(ctx, kit, td, lay, exp, rows, f"labelling runs {case[:k + 1]}")
    ctx.run(gen(), body)


@phase("errors")
def errors(ctx):
    from finmlkit.label.kit import TBMLabel
    idx = pd.date_range("2024-01-01", periods=3, freq="s")
    good = pd.DataFrame(dict(tgt=[L, L, L], side=[1, -1, 1]), index=idx)
    bad = {
        "unknown target": dict(features=good, target_ret_col="nope"),
        "integer index": dict(features=good.reset_index(drop=True)),
        "barrier list": dict(horizontal_barriers=[1.0, 1.0]),
        "one barrier": dict(horizontal_barriers=(1.0,)),
        "negative min_ret": dict(min_ret=-0.1),
        "meta without side": dict(features=good[["tgt"]], is_meta=True),
        "float side": dict(features=good.astype(float), is_meta=True),
        "all NaN": dict(features=pd.DataFrame(dict(tgt=[NAN] * 3), index=idx)),
    }

    def body(name):
        a = dict(features=good, target_ret_col="tgt", min_ret=0.0, horizontal_barriers=(1.0, 1.0), vertical_barrier=pd.Timedelta(seconds=1))
        a.update(bad.get(name, {}))
        r = ctx.call(lambda: TBMLabel(**a))
        ctx.trace()
        ctx.trans()
        ctx.state(name)
        if (name in bad) != (isinstance(r, Raised) and isinstance(r.exc, ValueError)):
            ctx.fail(f"{name}: {r!r}")
        if name not in bad:
            for f in (lambda: r.labels, lambda: r.event_returns, lambda: r.full_output, lambda: r.compute_labels(good),
                      lambda: r.compute_weights(trades_of(LAY["dense"]))):
                x = ctx.call(f)
                if not (isinstance(x, Raised) and isinstance(x.exc, ValueError)):
                    ctx.fail(f"before labelling: {x!r}, expected ValueError")
    ctx.run(list(bad) + ["good"], body)


@phase("jit", jit=True, shards=2, threads=4)
def jit(ctx):
    def gen():
        for lay in LAY:
            for k in (2, 4):
                for evs in itertools.combinations(EV, k):
                    for sides in (None, tuple((-1, 1, 1, -1)[:k])):
                        yield lay, evs, (L, S_, L, S_)[:k], (1.0,) * k, 0.0, (1.0, 1.0), 2.0, 1.0, sides, "ns", 0
    ctx.run(gen(), lambda c: run_case(ctx, *c))
