"""C14: loading survives every combination of failing groups, workers and completion orders."""
import itertools
import logging
import os
import shutil

import numpy as np
import pandas as pd

from mc.bars import NS
from mc.core import phase, Raised
from mc.checks.c13 import td_of, rows_of, InlineFuture

LEVEL = "fault_enumeration"
BOUNDS = ("stores of 1..4 monthly groups; every subset of groups that fail x every completion order of the loader tasks x fault kind "
          "(read error inside the worker, worker death, empty result) in parallel mode, every subset in sequential mode, pool "
          "creation / n-th submission / pool shutdown failure; groups sharing their instants")
ASSUMPTIONS = ["a group that cannot be read is skipped with an error report (documented: continue with the other groups)"]

MONTHS = ["2022-01", "2022-02", "2022-03", "2022-04"]


def rows_for(i):
    t = pd.Timestamp(MONTHS[i] + "-03").value
    return [(t + k * NS, 100.0 + 10 * i + k, float(1 << k), 1 if k % 2 else -1) for k in range(2 + i % 2)]


class Log(logging.Handler):
    def __init__(self):
        super().__init__(level=logging.WARNING)
        self.rec = []

    def emit(self, r):
        self.rec.append((r.levelno, r.getMessage()))


class World:
    """controlled scheduler and fault injector for the loader"""

    def __init__(self, order, bad, kind, pool=None):
        self.order, self.bad, self.kind, self.pool = order, bad, kind, pool
        self.futures = []

    def __enter__(self):
        import concurrent.futures as cf
        from concurrent.futures.process import BrokenProcessPool
        from finmlkit.bar import data_model as dm
        w = self
        self.saved = []

        class Fut(InlineFuture):
            pass

        class Ex:
            def __init__(self, max_workers=None, **k):
                if w.pool == "create":
                    raise OSError("cannot start workers")
                if max_workers is not None and max_workers <= 0:
                    raise ValueError("max_workers must be greater than 0")
                self.n = 0

            def __enter__(self):
                return self

            def __exit__(self, *a):
                if w.pool == "exit" and a[0] is None:
                    raise OSError("pool shutdown failed")
                return False

            def submit(self, fn, *args):
                if w.pool == self.n:
                    raise BrokenProcessPool("pool is broken")
                self.n += 1
                f = Fut(fn, args)
                key = [a for a in (args[0] if isinstance(args[0], tuple) else args) if isinstance(a, str) and a.startswith("/trades/")]
                if w.kind == "death" and key and key[0] in w.bad:
                    f.v, f.e = None, BrokenProcessPool("worker died")
                if w.kind == "empty" and key and key[0] in w.bad:
                    f.v, f.e = pd.DataFrame(), None
                w.futures.append(f)
                return f

            def map(self, fn, *its, timeout=None, chunksize=1):
                return (self.submit(fn, *a).result() for a in zip(*its))

            def shutdown(self, *a, **k):
                pass

        def as_completed(fs, timeout=None):
            fs = set(fs)
            return iter([w.futures[i] for i in w.order if i < len(w.futures) and w.futures[i] in fs])
        for mod in (cf, dm):
            for nm, new in (("ProcessPoolExecutor", Ex), ("as_completed", as_completed)):
                if hasattr(mod, nm):
                    self.saved.append((mod, nm, getattr(mod, nm)))
                    setattr(mod, nm, new)
        if self.kind == "read":
            for nm in ("select", "__getitem__", "get"):
                orig = getattr(pd.HDFStore, nm)
                self.saved.append((pd.HDFStore, nm, orig))

                def wrapped(st, key, *a, _o=orig, **k):
                    if key in w.bad:
                        raise OSError(f"HDF5 error reading {key}")
                    return _o(st, key, *a, **k)
                setattr(pd.HDFStore, nm, wrapped)
        return self

    def __exit__(self, *a):
        for mod, nm, v in reversed(self.saved):
            setattr(mod, nm, v)


def build(d, n):
    path = os.path.join(d, f"s{n}.h5")
    for i in reversed(range(n)):
        td_of(rows_for(i)).save_h5(path)
    return path


def judge(ctx, path, n, order, bad, kind, pool, mp, window, need_log, rows_for=rows_for):
    from finmlkit.bar import data_model as dm
    bad = ["/trades/" + MONTHS[i] for i in bad]
    lost = [] if pool is not None and kind is None else bad
    a = pd.Timestamp(rows_for(0)[1][0]) if window else None
    exp = [r for i in range(n) if "/trades/" + MONTHS[i] not in lost for r in rows_for(i) if a is None or r[0] >= a.value]
    exp.sort(key=lambda r: r[0])
    log = Log()
    lg = logging.getLogger()
    lib = dm.logger
    logging.disable(logging.NOTSET)
    lib.addHandler(log)
    lg.addHandler(log)
    try:
        with World(order, bad, kind, pool):
            got = ctx.call(lambda: rows_of(dm.TradesData.load_trades_h5(path, start_time=a, enable_multiprocessing=mp)))
    finally:
        lib.removeHandler(log)
        lg.removeHandler(log)
        logging.disable(logging.CRITICAL)
    ctx.trace()
    ctx.trans(n)
    ctx.state(n, tuple(bad), kind, pool, mp, order[:n])
    ctx.outcome(n, tuple(bad), kind, pool, mp, len(exp))
    where = f"{n} groups, failing {bad} ({kind}), completion order {order}, pool fault {pool}, parallel={mp}"
    if not exp:
        if not (isinstance(got, Raised) and isinstance(got.exc, ValueError)):
            ctx.fail(f"{where}: nothing could be loaded but load gave {got!r}, expected ValueError")
    elif isinstance(got, Raised) or got != exp:
        ctx.fail(f"{where}: loaded {got!r}, the readable groups hold {exp}")
    if need_log:
        for k in bad:
            if not any(lv >= logging.ERROR and k in m for lv, m in log.rec):
                ctx.fail(f"{where}: the loss of {k} was not reported as an error (log: {log.rec[-6:]})")


def subsets(n):
    for r in range(n + 1):
        yield from itertools.combinations(range(n), r)


@phase("faults")
def faults(ctx):
    d = os.path.join(os.environ["MC_SCRATCH"], f"f{os.getpid()}")
    os.makedirs(d, exist_ok=True)
    paths = {n: build(d, n) for n in (1, 2, 3, 4)}

    def gen():
        for n in (2, 3, 4):
            for bad in subsets(n):
                for order in itertools.permutations(range(n)):
                    for kind in ("death", "read", "empty"):
                        if kind == "empty" and n == 4 and not ctx.thorough:
                            continue
                        yield n, bad, order, kind, None, True, sum(order[:2]) % 2
        for n in (1, 2, 3, 4):
            for bad in subsets(n):
                for window in (0, 1):
                    yield n, bad, tuple(range(n)), "read", None, False, window
            for pool in ("create", "exit") + tuple(range(n)):
                for order in (tuple(range(n)), tuple(reversed(range(n)))):
                    yield n, (), order, None, pool, True, 0
                    yield n, (0,), order, "read", pool, True, 0

    def body(case):
        n, bad, order, kind, pool, mp, window = case
        judge(ctx, paths[n], n, order, bad, kind, pool, mp, window, kind in ("death", "read"))
    try:
        ctx.run(gen(), body)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def tied_rows(i):
    """groups that share instants: their order within an instant is the order of the keys, not that of the workers"""
    t = pd.Timestamp("2022-01-03").value
    return [(t + (k + i // 2) * NS, 100.0 + 10 * i + k, float(1 << k), 1 if k % 2 else -1) for k in range(2 + i % 2)]


@phase("ties")
def ties(ctx):
    d = os.path.join(os.environ["MC_SCRATCH"], f"t{os.getpid()}")
    os.makedirs(d, exist_ok=True)
    paths = {}
    for n in (2, 3, 4):
        paths[n] = os.path.join(d, f"t{n}.h5")
        for i in range(n):
            td_of(tied_rows(i)).save_h5(paths[n], month_key=MONTHS[i])

    def gen():
        for n in (2, 3, 4):
            for bad in subsets(n):
                for order in itertools.permutations(range(n)):
                    for window in (0, 1):
                        yield n, bad, order, "death", True, window
                yield n, bad, tuple(range(n)), "read", False, 0

    def body(case):
        n, bad, order, kind, mp, window = case
        judge(ctx, paths[n], n, order, bad, kind, None, mp, window, True, tied_rows)
    try:
        ctx.run(gen(), body)
    finally:
        shutil.rmtree(d, ignore_errors=True)
