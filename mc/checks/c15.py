"""C15: integrity reports (missing ids, large gaps, duplicates) tell exactly what is missing, before and after storage."""
import itertools
import os
import shutil

import numpy as np
import pandas as pd

from mc.bars import NS
from mc.core import phase, close, Raised

BOUNDS = ("every trade-id history of <= 5 trades over id steps {1, 2, 5} x time steps {1 s, 60 s, 60 s + 1 ns, 10 min} with every "
          "duplicated row and arrival reversal; every history of <= 3 stores of clean / gappy / duplicated months (overwrite or "
          "append), read back through H5Inspector; gap inspection at four thresholds; every list of <= 3 steps out of 7 from 0 ns to 1 s in two months against 9 thresholds")
ASSUMPTIONS = ["missing_pct is relative to the number of stored (deduplicated) trades", "a large gap is longer than one minute"]
JAN = pd.Timestamp("2022-01-10").value
MIN = 60 * NS
TSTEP = (NS, MIN, MIN + 1, 10 * MIN)


def td_of(rows):
    from finmlkit.bar.data_model import TradesData
    a = list(zip(*rows))
    return TradesData(np.array(a[1], dtype=np.int64), np.array([100.0 + (i % 7) for i in a[0]]), np.array([1.0 + i % 5 for i in a[0]]),
                      np.array(a[0], dtype=np.int64), is_buyer_maker=np.array([False] * len(rows)), timestamp_unit="ns", preprocess=True,
                      name="t")


def report(rows):
    rows_u = sorted(dict((r[0], r) for r in rows).values())
    dup = len(rows_u) != len(rows)
    miss, disc = 0, []
    for (i0, t0), (i1, t1) in zip(rows_u, rows_u[1:]):
        if i1 - i0 > 1:
            miss += i1 - i0 - 1
            if t1 - t0 > MIN:
                disc.append((i0, i1, i1 - i0 - 1, t0, t1))
    return dict(ok=not dup and not disc, pct=100.0 * miss / len(rows_u), disc=disc)


def rows_from(ids, tss, start_id=10, t0=JAN):
    rows = [(start_id, t0)]
    for a, b in zip(ids, tss):
        rows.append((rows[-1][0] + a, rows[-1][1] + b))
    return rows


@phase("preprocess")
def preprocess(ctx):
    def gen():
        for n in (1, 2, 3, 4):
            for ids in itertools.product((1, 2, 5), repeat=n - 1):
                for tss in itertools.product(TSTEP if n < 4 or ctx.thorough else TSTEP[1:], repeat=n - 1):
                    for dup in [None] + list(range(n)):
                        yield ids, tss, dup, (sum(ids) + (dup or 0)) % 2
        for ids in itertools.product((1, 3), repeat=4):
            for tss in itertools.product((NS, MIN + 1), repeat=4):
                yield ids, tss, None, 1

    def body(case):
        ids, tss, dup, rev = case
        rows = rows_from(ids, tss)
        allrows = rows + ([rows[dup]] if dup is not None else [])
        exp = report(allrows)
        td = ctx.call(td_of, allrows[::-1] if rev else allrows)
        ctx.trace()
        ctx.trans(len(rows))
        ctx.state(tuple(exp["disc"]), exp["ok"], exp["pct"])
        if isinstance(td, Raised):
            return ctx.fail(f"{td!r}", rows=allrows)
        got = [(d["start_id"], d["end_id"], d["missing_ids"], d["pre_gap_time"].value, d["post_gap_time"].value) for d in td.discontinuities]
        if got != exp["disc"] or any(d["time_interval"] != d["post_gap_time"] - d["pre_gap_time"] for d in td.discontinuities):
            ctx.fail(f"discontinuities {td.discontinuities}, expected {exp['disc']}", rows=allrows)
        if bool(td.data_ok) is not exp["ok"] or td.data_ok is None:
            ctx.fail(f"data_ok={td.data_ok}, expected {exp['ok']}", rows=allrows)
        if not close(td.missing_pct, exp["pct"]):
            ctx.fail(f"missing_pct={td.missing_pct}, expected {exp['pct']}", rows=allrows)
        ctx.outcome(exp["ok"], len(exp["disc"]), exp["pct"] > 0)
    ctx.run(gen(), body)


KINDS = dict(
    clean=rows_from((1, 1), (NS, 2 * MIN)),
    small=rows_from((3, 1), (NS, NS), 100, JAN + 20 * MIN),
    large=rows_from((1, 4, 1), (NS, 5 * MIN, NS), 200, JAN + 40 * MIN),
    large2=rows_from((2, 2), (2 * MIN, 90 * NS), 300, JAN + 80 * MIN),
    dup=rows_from((1, 1), (NS, NS), 400, JAN + 120 * MIN) + [(401, JAN + 120 * MIN + NS)],
    feb=rows_from((9,), (3 * MIN,), 900, pd.Timestamp("2022-02-03").value),
    febclean=rows_from((1,), (3 * MIN,), 900, pd.Timestamp("2022-02-03").value),
)


class Pool:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def starmap(self, fn, args, chunksize=None):
        return [fn(*a) for a in args]

    def map(self, fn, args, chunksize=None):
        return [fn(a) for a in args]

    imap = map
    imap_unordered = map

    def close(self):
        pass

    join = terminate = close


@phase("stored")
def stored(ctx):
    from finmlkit.bar import io
    import multiprocessing
    multiprocessing.Pool = Pool
    if hasattr(io, "Pool"):
        io.Pool = Pool
    ops = [(k, o) for k in KINDS for o in (True, False)]

    def gen():
        for n in (1, 2):
            yield from itertools.product(ops, repeat=n)
        if ctx.thorough:
            yield from itertools.product(ops, repeat=3)
        else:
            yield from itertools.product([(k, o) for k, o in ops if k in ("clean", "large", "large2") and not o] + [("clean", True)], repeat=3)

    def body(hist):
        d = os.path.join(os.environ["MC_SCRATCH"], f"i{os.getpid()}_{ctx.index}")
        os.makedirs(d)
        path = os.path.join(d, "s.h5")
        try:
            model = {}
            for kind, over in hist:
                rows = KINDS[kind]
                r = ctx.call(lambda: td_of(rows).save_h5(path, overwrite_month=over))
                if isinstance(r, Raised):
                    return ctx.fail(f"save {kind} overwrite={over}: {r!r}")
                rep = report(rows)
                m = "2022-02" if kind.startswith("feb") else "2022-01"
                u = sorted(set(rows), key=lambda r: r[1])
                if over or m not in model:
                    model[m] = dict(rows=u, ok=rep["ok"], disc=list(rep["disc"]), pct=rep["pct"], n=1)
                else:
                    o = model[m]
                    model[m] = dict(rows=o["rows"] + u, ok=o["ok"] and rep["ok"], disc=o["disc"] + rep["disc"], pct=None, n=o["n"] + 1)
                ctx.trans()
                ctx.state(tuple((k, tuple(v["disc"]), v["ok"], len(v["rows"])) for k, v in sorted(model.items())))
            insp = io.H5Inspector(path)
            if sorted(insp.list_keys()) != ["/trades/" + m for m in sorted(model)]:
                ctx.fail(f"list_keys {insp.list_keys()} for {sorted(model)}")
            for m, e in model.items():
                key = "/trades/" + m
                meta = insp.get_metadata(key)
                ctx.trace()
                ts = [r[1] for r in e["rows"]]
                if int(meta["record_count"]) != len(ts) or int(meta["first_timestamp"]) != min(ts) or int(meta["last_timestamp"]) != max(ts):
                    ctx.fail(f"after {hist}: metadata of {m} {meta}, stored trades: {len(ts)} from {min(ts)} to {max(ts)}")
                if bool(meta["data_integrity_ok"]) is not e["ok"]:
                    ctx.fail(f"after {hist}: data_integrity_ok of {m} is {meta['data_integrity_ok']}, expected {e['ok']}")
                if e["pct"] is not None and not close(meta["missing_pct"], e["pct"]):
                    ctx.fail(f"after {hist}: missing_pct of {m} is {meta['missing_pct']}, expected {e['pct']}")
                df = insp.get_integrity_info(key)
                got = [] if df is None else sorted((int(r.start_id), int(r.end_id), int(r.missing_ids), pd.Timestamp(r.pre_gap_time_str).value,
                                                    pd.Timestamp(r.post_gap_time_str).value) for r in df.itertuples())
                if got != sorted(e["disc"]):
                    ctx.fail(f"after {hist}: integrity report of {m} {got}, expected {sorted(e['disc'])}")
                st = insp.get_statistics(key)
                px = [100.0 + r[0] % 7 for r in e["rows"]]
                am = [1.0 + r[0] % 5 for r in e["rows"]]
                if (int(st["record_count"]), int(st["first_timestamp"]), int(st["last_timestamp"])) != (len(ts), min(ts), max(ts)) or \
                        tuple(map(float, st["price_range"])) != (min(px), max(px)) or tuple(map(float, st["amount_range"])) != (min(am), max(am)):
                    ctx.fail(f"after {hist}: statistics of {m} {st}")
            summ = insp.get_integrity_summary(verbose=False)
            bad = {m for m, e in model.items() if not e["ok"]}
            ctx.outcome(len(bad), len(model))
            if (set(summ) if summ else set()) != bad:
                ctx.fail(f"after {hist}: integrity summary lists {summ and list(summ)}, months with problems: {sorted(bad)}")
            elif summ:
                for m in bad:
                    n = 0 if summ[m]["discontinuities"] is None else len(summ[m]["discontinuities"])
                    if n != len(model[m]["disc"]):
                        ctx.fail(f"after {hist}: summary of {m} has {n} discontinuities, expected {len(model[m]['disc'])}")
            if len(hist) < 3:
                for g in (NS // 2, NS, MIN, 4 * MIN):
                    gaps = insp.inspect_gaps(max_gap=pd.Timedelta(g, unit="ns"), processes=2)
                    ctx.trace()
                    for m, e in model.items():
                        ts = [r[1] for r in e["rows"]]
                        exp = [(b, b - a) for a, b in zip(ts, ts[1:]) if b - a > g]
                        got = [(t.value, dlt.value) for t, dlt in gaps["/trades/" + m]]
                        if got != exp:
                            ctx.fail(f"after {hist}: gaps > {g} ns in {m}: {got}, expected {exp}")
        finally:
            shutil.rmtree(d, ignore_errors=True)
    ctx.run(gen(), body)


@phase("gaps")
def gaps(ctx):
    """every gap above the threshold and no other, to the nanosecond, in every month"""
    from finmlkit.bar import io
    from finmlkit.bar.data_model import TradesData
    import multiprocessing
    multiprocessing.Pool = Pool
    if hasattr(io, "Pool"):
        io.Pool = Pool
    steps = (0, 1, 999, 1000, 1001, 10 ** 6, NS)

    def gen():
        for n in (1, 2, 3):
            for st in itertools.product(steps, repeat=n):
                if n < 3 or len(set(st)) == 3 or ctx.thorough:
                    yield st

    def body(st):
        d = os.path.join(os.environ["MC_SCRATCH"], f"g{os.getpid()}_{ctx.index}")
        os.makedirs(d)
        path = os.path.join(d, "s.h5")
        try:
            months = {}
            for k, t0 in enumerate((JAN + 77, pd.Timestamp("2022-02-03").value + 123456789)):
                ts = list(itertools.accumulate((t0,) + (st if not k else st[::-1])))
                td = TradesData(np.array(ts, dtype=np.int64), np.full(len(ts), 100.0), np.ones(len(ts)), np.arange(len(ts)), timestamp_unit="ns")
                td.save_h5(path)
                months["/trades/2022-0" + str(k + 1)] = ts
            insp = io.H5Inspector(path)
            for g in (0, 1, 500, 999, 1000, 10 ** 6 - 1, 10 ** 6, NS - 1, NS):
                r = ctx.call(insp.inspect_gaps, pd.Timedelta(g, unit="ns"))
                exp = {m: [(b, b - a) for a, b in zip(ts, ts[1:]) if b - a > g] for m, ts in months.items()}
                ctx.trace()
                ctx.trans()
                ctx.state(st, g)
                ctx.outcome(tuple(len(v) for v in exp.values()))
                got = r if isinstance(r, Raised) else {m: [(t.value, x.value) for t, x in v] for m, v in r.items()}
                if isinstance(r, Raised) or got != exp:
                    ctx.fail(f"gaps > {g} ns of trades {st} ns apart: {got}, expected {exp}")
        finally:
            shutil.rmtree(d, ignore_errors=True)
    ctx.run(gen(), body)
