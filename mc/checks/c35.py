"""C35: parallel loops give the same result for every schedule of their iterations, because no two iterations touch the same data."""
import importlib
import itertools
import sys

import numpy as np

from mc.bars import NS, T0
from mc.core import Raised, close, phase

NAN = float("nan")
BOUNDS = ("17 functions with parallel loops: every input of up to 4-5 bars, events or trades over small alphabets; each loop is run with a footprint of every array element each iteration reads and "
          "writes (no element written by one iteration may be touched by another: then all interleavings are equivalent) and in every order of its iterations (up to 4; beyond: 6 orders); "
          "compiled: 4 thread counts x 5 chunk sizes on inputs of up to 60 iterations")
ASSUMPTIONS = ["an iteration that rewrites the value already present does not conflict", "differences below 1e-12 relative are rounding of a parallel sum"]


# ------------------------------------------------------------------ arrays that know who touched them
class Log:
    cur = None
    reads, writes = {}, {}
    next = 0
    order = "natural"
    conflicts = []
    loops = []


def note(table, ids):
    if Log.cur is not None:
        table.setdefault(Log.cur, set()).update(np.asarray(ids).ravel().tolist())


def track(a):
    if type(a) is np.ndarray and a.dtype != object and a.ndim:
        t = a.view(Tracked)
        t._id = np.arange(Log.next, Log.next + a.size).reshape(a.shape)
        Log.next += a.size
        return t
    return a


def plain(x):
    """the untracked value; whatever is tracked in it counts as read"""
    if isinstance(x, Tracked):
        if x._id is not None:
            note(Log.reads, x._id)
        return x.view(np.ndarray)
    if type(x) in (list, tuple):
        return type(x)(plain(v) for v in x)
    if type(x) is dict:
        return {k: plain(v) for k, v in x.items()}
    return x


def wrap(r):
    if type(r) is tuple:
        return tuple(wrap(v) for v in r)
    return track(r)


def same(a, b):
    return (a == b) | ((a != a) & (b != b))


class Tracked(np.ndarray):
    def __array_finalize__(self, obj):
        self._id = None

    def __getitem__(self, k):
        k = plain(k)
        r = self.view(np.ndarray)[k]
        if self._id is None:
            return r
        ids = self._id[k]
        if not isinstance(r, np.ndarray) or r.ndim == 0:
            note(Log.reads, ids)
            return r
        if r.base is None:                      # a copy
            note(Log.reads, ids)
            return track(r)
        t = r.view(Tracked)
        t._id = ids
        return t

    def __setitem__(self, k, v):
        k, v = plain(k), plain(v)
        base = self.view(np.ndarray)
        old = np.array(base[k])
        base[k] = v
        if self._id is not None:
            ids = np.asarray(self._id[k])
            note(Log.writes, ids[~same(old, np.asarray(base[k]))])

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        if method == "at" and isinstance(inputs[0], Tracked) and inputs[0]._id is not None:
            note(Log.writes, inputs[0]._id)
        args = [plain(x) for x in inputs]
        kw = plain(kw)
        if out is not None:
            for o in out:
                if isinstance(o, Tracked) and o._id is not None:
                    note(Log.writes, o._id)
            kw["out"] = tuple(o.view(np.ndarray) if isinstance(o, Tracked) else o for o in out)
        r = getattr(ufunc, method)(*args, **kw)
        if out is not None:
            return out[0] if len(out) == 1 else out
        return wrap(r)

    def __array_function__(self, func, types, args, kw):
        if func.__name__ in ("copyto", "put", "place", "putmask", "fill_diagonal"):
            t = args[0]
            if isinstance(t, Tracked) and t._id is not None:
                note(Log.writes, t._id)
        o = kw.get("out")
        if isinstance(o, Tracked) and o._id is not None:
            note(Log.writes, o._id)
        return wrap(func(*plain(args), **plain(kw)))


def method(name, write):
    def f(self, *a, **k):
        if write and self._id is not None:
            note(Log.writes, self._id)
        return wrap(getattr(plain(self), name)(*plain(a), **plain(k)))
    setattr(Tracked, name, f)


for _n in ("copy astype flatten ravel tolist item argsort searchsorted cumsum cumprod take nonzero argmax argmin sum mean std var min max prod any all dot repeat round clip compress "
           "argpartition choose conj diagonal trace ptp swapaxes").split():
    if hasattr(np.ndarray, _n):
        method(_n, False)
for _n in "sort fill partition put itemset".split():
    if hasattr(np.ndarray, _n):
        method(_n, True)


class Numpy:
    """numpy whose new arrays are tracked"""
    NEW = ("empty zeros ones full empty_like zeros_like ones_like full_like array asarray ascontiguousarray arange linspace copy").split()

    def __getattr__(self, name):
        f = getattr(np, name)
        if name in self.NEW:
            def g(*a, **k):
                return track(f(*plain(a), **plain(k)))
        else:
            g = f
        self.__dict__[name] = g
        return g


def orders(n):
    r = list(range(n))
    if n <= 4:
        return [list(p) for p in itertools.permutations(r)]
    return [r, r[::-1], r[n // 2:] + r[:n // 2], r[1::2] + r[::2], r[::2][::-1] + r[1::2], r[-1:] + r[:-1]]


def prange(*a):
    its = list(range(*a))
    if Log.cur is not None:                     # nested parallel loops run serially
        yield from its
        return
    Log.loops.append(len(its))
    po = orders(len(its))
    order = po[Log.order % len(po)] if Log.order != "natural" else range(len(its))
    Log.reads, Log.writes = {}, {}
    try:
        for k in order:
            Log.cur = its[k]
            yield its[k]
    finally:
        Log.cur = None
        owner = {}
        for i, w in Log.writes.items():
            for x in w:
                owner.setdefault(x, set()).add(i)
        for x, own in owner.items():
            if len(own) > 1:
                Log.conflicts.append(f"iterations {sorted(own)[:3]} write the same element")
                break
        for i, rd in Log.reads.items():
            hit = next((x for x in rd if x in owner and owner[x] != {i}), None)
            if hit is not None:
                Log.conflicts.append(f"iteration {i} reads an element written by iteration {sorted(owner[hit] - {i})[0]}")
                break


def instrument():
    import numba
    import numba.misc.special
    numba.prange = numba.misc.special.prange = prange
    for name in MODULES:
        m = importlib.import_module(name)
    for name, m in list(sys.modules.items()):
        if name.startswith("finmlkit."):
            if hasattr(m, "prange"):
                m.prange = prange
            if getattr(m, "np", None) is np:
                m.np = Numpy()


# ------------------------------------------------------------------ functions and inputs
B, C = "finmlkit.bar.base", "finmlkit.feature.core."
F = lambda *x: np.array(x, dtype=np.float64)
I = lambda *x: np.array(x, dtype=np.int64)


def trades(n, ks):
    px = [100.0]
    qty = [1.0]
    for k in ks:
        px.append(px[-1] + (0.5, -1.0, 0.0)[k])
        qty.append((2.0, 0.5, 4.0)[k])
    return np.array(px[:n]), np.array(qty[:n])


def cuts(n, bars):
    """close index vectors with empty bars"""
    for c in itertools.combinations_with_replacement(range(n), bars + 1):
        if c[0] == 0:
            yield I(*c)


def bar_inputs(thorough):
    for ks in itertools.product(range(3), repeat=3):
        px, q = trades(4, ks)
        for nb in (2, 3, 4):
            for c in cuts(4, nb):
                if thorough or (sum(ks) + sum(c)) % 3 == 0:
                    yield px, q, c


def seqs(vals, lo, hi):
    for n in range(lo, hi + 1):
        yield from itertools.product(vals, repeat=n)


def g_ohlcv(t):
    yield from bar_inputs(t)


def g_dir(t):
    for px, q, c in bar_inputs(t):
        yield px, q, c, np.array([1, -1, 1, 1], dtype=np.int8)


def g_size(t):
    for px, q, c in bar_inputs(t):
        yield q, np.linspace(1.0, 2.0, len(c) - 1), c, 1.5


def g_tbm(t):
    ts = I(*(T0 + i * NS for i in range(6)))
    for mv in itertools.product((1.011, 0.99), repeat=5):
        px = 100.0 * np.cumprod((1.0,) + mv)
        for ev in ((0, 1, 2), (0, 0, 3), (1, 2, 3, 4)):
            for hb, side in (((1.0, 1.0), None), ((-np.inf, 2.0), np.array([1, -1, 1, 1][:len(ev)], dtype=np.int8))):
                yield ts, px, I(*ev), np.full(len(ev), 0.012), hb, 2.0, 0.5, side, 0.0


def spans(n):
    S = [(a, b) for a in range(n) for b in range(a, n)]
    for k in (2, 3):
        yield from itertools.product(S, repeat=k)
    for x in S[::2]:
        yield (x, (0, n - 1), (1, 2), x)


def g_unique(t):
    for sp in spans(4):
        yield np.arange(4) * NS, I(*(a for a, _ in sp)), I(*(b for _, b in sp))


def g_attr(t):
    for j, sp in enumerate(spans(4)):
        if t or j % 3 == 0:
            yield I(*(a for a, _ in sp)), I(*(b for _, b in sp)), F(100.0, 101.0, 99.0, 103.0), np.array([1, 2, 3, 1], dtype=np.int16), bool(j % 2)


def g_time(t):
    for g in itertools.product((0, 3600 * NS, 19 * 3600 * NS, 86400 * NS), repeat=3):
        yield (np.cumsum((T0,) + g),)


def g_cusum_roll(t):
    for y in seqs((100.0, 101.0, 98.5), 5, 7 if t else 6):
        for w, u in ((4, 2), (3, 3), (len(y), 2)):
            if w < len(y) or w == len(y):
                yield np.array(y), w, u


def g_cusum_dev(t):
    for y in seqs((0.0, 0.5, -0.25), 4, 6 if t else 5):
        yield np.array(y) + 4.0, 2


def g_profile(t):
    from mc.checks.c27 import FPS, bars
    for seq in seqs(range(len(FPS)), 2, 4 if t else 3):
        if not FPS[seq[0]]:
            continue
        r = bars(seq, (60 * NS,) * (len(seq) - 1), 0.5)
        for w in (60.0, 120.0):
            for nb in (None, 3):
                yield (r[0], r[1], r[2], r[3], r[4], r[5], w, nb, 0.5, 68.34)


def g_flow(t):
    for v in seqs((0.0, 1.0, 3.5, NAN), 2, 5):
        for w, r in ((2, 1), (3, 2)):
            yield np.array(v), w, r


def g_one(*params):
    def g(t):
        for v in seqs((1.0, 1.25, 3.0, NAN), 2, 5 if t else 4):
            for p in params:
                yield (np.array(v),) + p
        for p in params:
            yield (np.array([1.0, 2.0, 1.5, 4.0, 3.0, 2.5, 7.0]),) + p
    return g


def g_tr(t):
    for v in seqs((0, 1, 2), 2, 4):
        c = np.array([(10.0, 12.0, NAN)[k] for k in v])
        yield c + 1.0, c - 1.0, np.roll(c, 1)


def g_lag(t):
    for g in seqs((0, 1, 2, 5), 1, 4):
        ts = np.cumsum((T0,) + tuple(x * NS for x in g))
        for w in (1.0, 2.0):
            for lg in (False, True):
                yield ts, 10.0 + np.arange(len(ts)) % 3, w, lg


def g_filter(t):
    for m in seqs((1.011, 0.985, 1.0), 1, 4):
        px = 100.0 * np.cumprod((1.0,) + m)
        yield px, F(0.01)
        yield px, np.linspace(0.01, 0.02, len(px))


FN = {
    "comp_bar_ohlcv": (B, g_ohlcv), "comp_bar_directional_features": (B, g_dir), "comp_bar_trade_size_features": (B, g_size), "triple_barrier": ("finmlkit.label.tbm", g_tbm),
    "average_uniqueness": ("finmlkit.label.weights", g_unique), "return_attribution": ("finmlkit.label.weights", g_attr), "time_cues": (C + "time", g_time),
    "cusum_test_rolling": (C + "structural_break.cusum", g_cusum_roll), "cusum_test_developing": (C + "structural_break.cusum", g_cusum_dev), "volume_profile_rolling": (C + "volume", g_profile),
    "comp_flow_acceleration": (C + "volume", g_flow), "sma": (C + "ma", g_one((1,), (2,), (3,))), "roc": (C + "momentum", g_one((1,), (2,))), "true_range": (C + "volatility", g_tr),
    "realized_vol": (C + "volatility", g_one((2, True), (3, False))), "comp_lagged_returns": (C + "utils", g_lag), "comp_zscore": (C + "utils", g_one((2, 0), (3, 1))),
    "comp_burst_ratio": (C + "utils", g_one((2,), (3,))), "cusum_filter": ("finmlkit.sampling.filters", g_filter),
}
MODULES = sorted({m for m, _ in FN.values()})


def flat(r):
    if isinstance(r, (tuple, list)):
        return [x for v in r for x in flat(v)]
    a = np.asarray(r)
    return [a.shape] + a.astype(np.float64).ravel().tolist()


def equal(a, b):
    return len(a) == len(b) and all(x == y if isinstance(x, tuple) else close(x, y, 1e-12, 0.0) for x, y in zip(a, b))


def prepared(args):
    return [track(a.copy()) if isinstance(a, np.ndarray) else [track(x.copy()) for x in a] if type(a).__name__ in ("list", "List") else a for a in args]


@phase("schedules")
def schedules(ctx):
    instrument()

    def gen():
        for name, (mod, g) in FN.items():
            for k, args in enumerate(g(ctx.thorough)):
                yield name, k, args

    def body(case):
        name, k, args = case
        f = getattr(importlib.import_module(FN[name][0]), name)
        Log.order, Log.conflicts, Log.loops = "natural", [], []
        ctx.state(name, k)
        r = ctx.call(f, *prepared(args))
        ctx.trace()
        ctx.trans(sum(Log.loops))
        if isinstance(r, Raised):
            ctx.fail(f"{name}{args}: {r}")
            return
        if Log.conflicts:
            ctx.fail(f"{name}{args}: {Log.conflicts[0]}, so the result depends on the schedule of the threads")
            return
        want = flat(plain(r))
        ctx.outcome(name, tuple(Log.loops), tuple(map(str, want)))
        loops = list(Log.loops)
        n = max((len(orders(x)) for x in loops), default=1)
        for o in range(1, n):
            Log.order, Log.conflicts, Log.loops = o, [], []
            r = ctx.call(f, *prepared(args))
            ctx.trace()
            ctx.trans(sum(Log.loops))
            got = None if isinstance(r, Raised) else flat(plain(r))
            if Log.conflicts:
                ctx.fail(f"{name}{args}: {Log.conflicts[0]}")
                return
            if got is None or not equal(got, want):
                ctx.fail(f"{name}{args}: iterations in order {[orders(x)[o % len(orders(x))] for x in loops]} give {r!r}, in natural order {want}")
                return
    ctx.run(gen(), body)


# ------------------------------------------------------------------ compiled
def grown(name):
    """long inputs; values without a pattern a chunk could respect"""
    n = 61
    x = np.array([((i * 37 + 11) % 53) / 8.0 + 1.0 for i in range(n)])
    ts = T0 + np.cumsum([(1 + (i * 7) % 5) * NS for i in range(n)])
    c = np.array([0] + sorted((i * i * 13 + 5 * i) % n for i in range(1, 40)) + [n - 1])
    ev = np.array(sorted((i * 7) % 50 for i in range(30)))
    gen = {
        "comp_bar_ohlcv": [(x, x[::-1].copy(), c)], "comp_bar_directional_features": [(x, x[::-1].copy(), c, np.where(np.arange(n) % 3 == 0, -1, 1).astype(np.int8))],
        "comp_bar_trade_size_features": [(x, np.linspace(1, 3, len(c) - 1), c, 1.5)],
        "triple_barrier": [(ts, x, ev, np.full(len(ev), 0.6), (1.0, 1.0), 12.0, 1.0, None, 0.0)],
        "average_uniqueness": [(ts, ev, np.minimum(ev + 3 + ev % 5, n - 1))], "return_attribution": [(ev, np.minimum(ev + 3 + ev % 5, n - 1), x, (1 + np.arange(n) % 4).astype(np.int16), True)],
        "time_cues": [(T0 + np.cumsum([((i * 7) % 11) * 5000 * NS for i in range(n)]),)], "cusum_test_rolling": [(x, 12, 4), (x, 61, 30), (x, 6, 6)], "cusum_test_developing": [(np.log(x), 4)],
        "comp_flow_acceleration": [(x, 5, 2)], "sma": [(x, 4)], "roc": [(x, 3)], "true_range": [(x + 1, x - 1, np.roll(x, 1))], "realized_vol": [(x, 5, True)],
        "comp_lagged_returns": [(ts, x, 7.0, True)], "comp_zscore": [(x, 5, 1)], "comp_burst_ratio": [(x, 5)], "cusum_filter": [(x, F(0.3)), (x, x / 10)],
    }
    if name == "volume_profile_rolling":
        from mc.checks.c27 import FPS, bars
        from numba.typed import List
        seq = [(i * 7 + i // 5) % len(FPS) for i in range(40)]
        r = bars(seq, (60 * NS,) * 39, 0.5)
        yield r[0], r[1], r[2], List(r[3]), List(r[4]), List(r[5]), 300.0, 4, 0.5, 68.34
        return
    yield from gen[name]


@phase("threads", jit=True, shards=5, threads=4)
def threads(ctx):
    import numba

    def body(case):
        name, k, args = case
        f = getattr(importlib.import_module(FN[name][0]), name)
        want = None
        ctx.state(name, k)
        for th in (1, 2, 3, 4):
            for chunk in (0, 1, 2, 3, 7):
                numba.set_num_threads(min(th, numba.config.NUMBA_NUM_THREADS))
                numba.set_parallel_chunksize(chunk)
                r = ctx.call(f, *[a.copy() if isinstance(a, np.ndarray) else a for a in args])
                ctx.trace()
                ctx.trans()
                if isinstance(r, Raised):
                    ctx.fail(f"{name} with {th} threads and chunks of {chunk}: {r}")
                    return
                got = flat(r)
                if want is None:
                    want = got
                    ctx.outcome(name, tuple(map(str, want)))
                elif not equal(got, want):
                    bad = [i for i, (a, b) in enumerate(zip(got, want)) if not (a == b or close(a, b, 1e-12, 0.0))][:1]
                    ctx.fail(f"{name}: {th} threads with chunks of {chunk} give another result than one thread (flat position {bad}: {[got[i] for i in bad]} instead of {[want[i] for i in bad]})")
                    return
    ctx.run([(n, k, a) for n in FN for k, a in enumerate(grown(n))], body, group=lambda c: c[0])
