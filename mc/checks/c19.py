"""C19: concurrency counts the labels alive at every bar, uniqueness is the mean of its inverse over the label's life."""
import itertools

import numpy as np

from mc.bars import T0, NS
from mc.core import phase, close, Raised
from mc.labels import concurrency, uniqueness

BOUNDS = ("every list of <= 3 labels (any order, repeats allowed) over all intervals of 5 bars, every list of 4 labels over 4 bars "
          "(thorough: 4 over 5), arrays of up to 300 labels with 2-8 threads, and stacks of up to 40 000 simultaneous labels")
ASSUMPTIONS = ["a label lives from its event bar to its touch bar, both inclusive"]


def intervals(n):
    return [(a, b) for a in range(n) for b in range(a, n)]


def compare(ctx, n, iv):
    from finmlkit.label.weights import average_uniqueness
    ev, to = [a for a, _ in iv], [b for _, b in iv]
    r = ctx.call(average_uniqueness, np.arange(n, dtype=np.int64) * NS + T0, np.array(ev, dtype=np.int64), np.array(to, dtype=np.int64))
    ctx.trace()
    ctx.trans(len(iv))
    alive = concurrency(n, ev, to)
    exp = uniqueness(alive, ev, to)
    ctx.state(n, tuple(alive), tuple(exp))
    ctx.outcome(tuple(exp))
    if isinstance(r, Raised):
        return ctx.fail(f"labels {iv} on {n} bars: {r!r}")
    w, c = r
    if [int(x) for x in c] != alive:
        ctx.fail(f"labels {iv} on {n} bars: concurrency {c.tolist()}, expected {alive}")
    elif len(w) != len(exp) or not all(close(a, float(b), 1e-12) for a, b in zip(w, exp)):
        ctx.fail(f"labels {iv} on {n} bars: uniqueness {w.tolist()}, expected {[float(x) for x in exp]}")


@phase("sets")
def sets(ctx):
    def gen():
        for n, ks in ((3, (1, 2, 3)), (4, (4,)), (5, (1, 2, 3) + ((4,) if ctx.thorough else ()))):
            for k in ks:
                for iv in itertools.product(intervals(n), repeat=k):
                    yield n, iv
    ctx.run(gen(), lambda c: compare(ctx, *c))


@phase("mismatch")
def mismatch(ctx):
    from finmlkit.label.weights import average_uniqueness

    def body(case):
        a, b = case
        r = ctx.call(average_uniqueness, np.arange(5), np.zeros(a, dtype=np.int64), np.full(b, 2))
        ctx.trace()
        ctx.trans()
        ctx.state(case)
        if (a != b) != (isinstance(r, Raised) and isinstance(r.exc, ValueError)):
            ctx.fail(f"{a} events with {b} touches: {r!r}")
    ctx.run([(a, b) for a in range(4) for b in range(4)], body)


def stack(ctx, n):
    """n labels over bars 0..2: 16-bit counters wrap at 32768"""
    from finmlkit.label.weights import average_uniqueness
    w, c = average_uniqueness(np.arange(4, dtype=np.int64), np.zeros(n, dtype=np.int64), np.full(n, 2, dtype=np.int64))
    ctx.trace()
    ctx.trans(n)
    ctx.state("stack", n)
    exp = [n, n, n, 0]
    if [int(x) for x in c] == exp and np.allclose(w, 1.0 / n, rtol=1e-9, atol=0):
        return
    wrap = (n + 2 ** 15) % 2 ** 16 - 2 ** 15
    key = None
    if n > 32767 and [int(x) for x in c] == [wrap] * 3 + [0] and np.allclose(w, 1.0 / wrap, rtol=1e-9, atol=0):
        key = "concurrency-int16-overflow"
    ctx.fail(f"{n} simultaneous labels: concurrency {c.tolist()}, uniqueness {w[0]}, expected {exp}, {1.0 / n}", key=key)


@phase("stacks", jit=True, shards=1, threads=4)
def stacks(ctx):
    ctx.run((1, 127, 128, 255, 256, 32767, 32768, 40000), lambda n: stack(ctx, n))


@phase("jit", jit=True, shards=3, threads=4)
def jit(ctx):
    def gen():
        for n, k in ((4, 2), (5, 3 if ctx.thorough else 2), (4, 3)):
            for iv in itertools.product(intervals(n), repeat=k):
                yield n, iv
        for k in (50, 300):
            for m in (7, 13, 31):
                yield 60, tuple(((i * m) % 40, (i * m) % 40 + (i * 5) % 20) for i in range(k))
    ctx.run(gen(), lambda c: compare(ctx, *c))
