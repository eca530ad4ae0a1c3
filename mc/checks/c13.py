"""C13: any history of saves into an HDF5 store followed by any query returns exactly the saved trades."""
import itertools
import os
import shutil

import numpy as np
import pandas as pd

from mc.bars import NS
from mc.core import phase, Raised

BOUNDS = ("every history of <= 2 saves over 13 save operations and of 3 saves over 7 (thorough: 3 over 13, 4 over 5) - new month, "
          "overwrite, append before / after / across existing rows, month_key override, mode='w' - then 29 queries by key, by range "
          "and by both, sequential and with parallel loading")
ASSUMPTIONS = ["one writer at a time; each TradesData is sorted by timestamp", "parallel loading is run through an in-process executor; "
               "phase 'processes' uses the real process pool"]

JAN = pd.Timestamp("2022-01-10 00:00:00").value
FEB = pd.Timestamp("2022-02-05 00:00:00").value
EOM = pd.Timestamp("2022-02-01 00:00:00").value

FRAMES = dict(
    A=[(JAN + 5 * NS, 100.0, 1.0, 1), (JAN + 6 * NS, 101.0, 2.0, -1), (JAN + 9 * NS + 123, 99.0, 4.0, 1)],
    B=[(JAN + 20 * NS, 102.0, 8.0, 1), (JAN + 21 * NS, 103.0, 16.0, -1)],
    C=[(JAN + 1 * NS, 90.0, 32.0, -1), (JAN + 6 * NS, 91.0, 64.0, 1), (JAN + 30 * NS, 92.0, 128.0, 1)],
    D=[(FEB + 1 * NS, 200.0, 0.5, 1), (FEB + 2 * NS, 201.0, 0.25, -1)],
    E=[(EOM - 1, 300.0, 256.0, 1), (EOM, 301.0, 512.0, -1), (EOM + NS, 302.0, 1024.0, 1)],
)
# (frame, overwrite_month, mode, month_key)
OPS = [(f, o, "a", None) for f in "ABCDE" for o in (True, False)] + [("B", True, "w", None), ("A", False, "a", "2022-02"),
                                                                      ("D", True, "a", "2022-01")]
CORE = [OPS[i] for i in (0, 2, 3, 5, 6, 9, 10)]

PTS = [JAN, JAN + 6 * NS, JAN + 9 * NS + 123, JAN + 9 * NS + 124, JAN + 20 * NS, JAN + 31 * NS, EOM - 1, EOM, FEB + NS, FEB + 5 * NS]
QUERIES = [(k, None, None) for k in ("2022-01", "2022-02", "2022-03")] + [(None, None, None), (None, 1, 1)]
QUERIES += [(None, a, b) for a, b in ((0, 1), (1, 3), (1, 2), (2, 8), (3, 4), (4, 6), (6, 7), (7, 9), (0, 9), (5, 5), (9, 9))]
QUERIES += [(None, a, None) for a in (1, 3, 7)] + [(None, None, b) for b in (1, 6, 8)]
QUERIES += [(k, a, b) for k in ("2022-01", "2022-02") for a, b in ((0, 2), (2, 6), (1, None))] + [("2022-01", None, 6)]


def month_of(ns):
    t = pd.Timestamp(ns)
    return f"{t.year:04d}-{t.month:02d}"


def td_of(rows):
    from finmlkit.bar.data_model import TradesData
    a = list(zip(*rows))
    return TradesData(np.array(a[0], dtype=np.int64), np.array(a[1]), np.array(a[2]), np.arange(len(rows)),
                      is_buyer_maker=np.array([s < 0 for s in a[3]]), timestamp_unit="ns", preprocess=True)


def step(model, op):
    f, over, mode, mk = op
    m = {} if mode == "w" else {k: list(v) for k, v in model.items()}
    key = mk or month_of(FRAMES[f][0][0])
    m[key] = list(FRAMES[f]) if over or key not in m else m[key] + list(FRAMES[f])
    return m, key


def answer(model, q):
    k, a, b = q
    keys = sorted(model) if k is None else [k]
    if k is not None and k not in model:
        return KeyError
    rows = [r for kk in keys for r in model[kk]]
    rows = [r for r in rows if (a is None or r[0] >= PTS[a]) and (b is None or r[0] <= PTS[b])]
    return sorted(rows, key=lambda r: r[0]) or LookupError


class InlineFuture:
    def __init__(self, fn, args):
        self.v = self.e = None
        try:
            self.v = fn(*args)
        except Exception as e:      # noqa: BLE001
            self.e = e

    def result(self, timeout=None):
        if self.e:
            raise self.e
        return self.v


class InlineExecutor:
    def __init__(self, max_workers=None, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def submit(self, fn, *args):
        return InlineFuture(fn, args)

    def map(self, fn, *its, timeout=None, chunksize=1):
        return [self.submit(fn, *a).result() for a in zip(*its)]

    def shutdown(self, *a, **k):
        pass


def rows_of(td):
    df = td.data
    if list(df.index.view("int64")) != df["timestamp"].tolist():
        raise AssertionError("index does not carry the trade timestamps")
    return list(zip(df["timestamp"].tolist(), df["price"].tolist(), df["amount"].tolist(), df["side"].tolist()))


def same(got, exp):
    """same multiset of rows, in time order; rows of one instant stay grouped as stored"""
    return got == exp


def queries(ctx, path, model, hist, qs, modes):
    from finmlkit.bar import data_model as dm
    for qi, q in enumerate(qs):
        exp = answer(model, q)
        k, a, b = q
        for mp in modes if len(modes) == 1 or len(model) > 1 else modes[:1]:
            kw = dict(key=k, start_time=None if a is None else pd.Timestamp(PTS[a]), end_time=None if b is None else pd.Timestamp(PTS[b]),
                      enable_multiprocessing=mp)
            if qi % 2:
                kw["start_time"] = None if kw["start_time"] is None else str(kw["start_time"])
                kw["end_time"] = None if kw["end_time"] is None else str(kw["end_time"])
            got = ctx.call(lambda: rows_of(dm.TradesData.load_trades_h5(path, **kw)))
            ctx.trace()
            ctx.trans()
            if exp in (KeyError, LookupError):
                want = (KeyError,) if exp is KeyError else (KeyError, ValueError)
                if not (isinstance(got, Raised) and isinstance(got.exc, want)):
                    ctx.fail(f"after {hist}: query {q} (parallel={mp}) gave {got!r}, expected {exp.__name__}: nothing was saved there")
            elif isinstance(got, Raised) or not same(got, exp):
                ctx.fail(f"after {hist}: query key/start/end {kw} returned {got!r}, saved rows in range are {exp}")


def patch_inline():
    import concurrent.futures as cf
    from finmlkit.bar import data_model as dm
    for mod in (cf, dm):
        if hasattr(mod, "ProcessPoolExecutor"):
            mod.ProcessPoolExecutor = InlineExecutor
        if hasattr(mod, "as_completed"):
            mod.as_completed = lambda fs, timeout=None: reversed(list(fs))


def run_history(ctx, hist, modes):
    root = os.environ["MC_SCRATCH"]
    d = os.path.join(root, f"h{os.getpid()}_{ctx.index}")
    os.makedirs(d)
    path = os.path.join(d, "store.h5")
    try:
        model = {}
        for op in hist:
            f, over, mode, mk = op
            key = ctx.call(lambda: td_of(FRAMES[f]).save_h5(path, overwrite_month=over, mode=mode, month_key=mk))
            model, mkey = step(model, op)
            ctx.trans()
            if isinstance(key, Raised):
                return ctx.fail(f"save {op} after {hist}: {key!r}")
            if key != "/trades/" + mkey:
                ctx.fail(f"save {op} returned key {key}, expected /trades/{mkey}")
            ctx.state(tuple(sorted((k, tuple(v)) for k, v in model.items())))
        ctx.outcome(tuple((k, len(v)) for k, v in sorted(model.items())))
        queries(ctx, path, model, hist, QUERIES, modes)
    finally:
        shutil.rmtree(d, ignore_errors=True)


@phase("histories")
def histories(ctx):
    patch_inline()

    def gen():
        for n in (1, 2):
            yield from itertools.product(OPS, repeat=n)
        if ctx.thorough:
            yield from itertools.product(OPS, repeat=3)
            yield from itertools.product([OPS[i] for i in (0, 3, 5, 6, 9)], repeat=4)
        else:
            yield from itertools.product(CORE[:5], repeat=3)
    ctx.run(gen(), lambda h: run_history(ctx, h, (False, True)))


@phase("ties")
def ties(ctx):
    """appends that force a re-sort: many trades of one instant keep their stored order"""
    patch_inline()
    from finmlkit.bar.data_model import TradesData

    def gen():
        for n in (3, 17, 40):
            for first in range(3):
                for sizes in (1, 2, 5):
                    yield n, first, sizes

    def body(case):
        n, first, per = case
        d = os.path.join(os.environ["MC_SCRATCH"], f"t{os.getpid()}_{ctx.index}")
        os.makedirs(d)
        path = os.path.join(d, "s.h5")
        try:
            blocks = [[(JAN + (100 + b * 10) * NS + (i // per), 100.0 + i + 1000 * b, 1.0, 1) for i in range(n)] for b in range(3)]
            order = [first] + [b for b in range(3) if b != first]
            for b in order:
                td_of(blocks[b]).save_h5(path, overwrite_month=False)
            exp = sorted([r for b in order for r in blocks[b]], key=lambda r: r[0])
            got = rows_of(TradesData.load_trades_h5(path))
            ctx.trace()
            ctx.trans(3)
            ctx.state(case)
            if got != exp:
                ctx.fail(f"load after appends {order} of {n} trades: order of equal-timestamp trades changed: {got[:60]}")
        finally:
            shutil.rmtree(d, ignore_errors=True)
    ctx.run(gen(), body)


@phase("processes", shards=2)
def processes(ctx):
    """the same queries through the real process pool"""
    from finmlkit.bar.data_model import TradesData

    def gen():
        yield [OPS[0], OPS[6]]
        yield [OPS[6], OPS[0], OPS[9]]
        if ctx.thorough:
            yield [OPS[0], OPS[3], OPS[6], OPS[7]]
            yield [OPS[8], OPS[6]]

    def body(hist):
        d = os.path.join(os.environ["MC_SCRATCH"], f"p{os.getpid()}_{ctx.index}")
        os.makedirs(d)
        path = os.path.join(d, "s.h5")
        try:
            model = {}
            for op in hist:
                td_of(FRAMES[op[0]]).save_h5(path, overwrite_month=op[1], mode=op[2], month_key=op[3])
                model, _ = step(model, op)
            queries(ctx, path, model, hist, [(None, None, None), (None, 2, 8)], (True,))
            ctx.state(tuple(model))
        finally:
            shutil.rmtree(d, ignore_errors=True)
    ctx.run(gen(), body)
