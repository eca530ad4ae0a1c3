"""C20: sample weights conserve what they distribute: returns among overlapping labels, decay over age, balance over classes."""
import itertools
import math

import numpy as np
import pandas as pd

from mc.core import phase, close, seq_close, first_diff, Raised
from mc.labels import concurrency, uniqueness, attribution, decay, balance

BOUNDS = ("attribution: every list of <= 3 labels over 4 bars x every path of 3 log moves out of 3; decay: every uniqueness vector of "
          "length <= 5 over {1/4, 1/2, 1} x 9 intercepts; balance: every (label, weight) list of length <= 5 over 3 classes x 3 weights; "
          "final weights: every combination of the optional parts on every vector of length <= 3")
ASSUMPTIONS = ["prices are positive"]
C = (-1.0, -0.75, -0.5, -0.2, 0.0, 0.25, 0.5, 0.9, 1.0)


@phase("attribution")
def attrib(ctx):
    from finmlkit.label.weights import return_attribution
    n = 4
    ivs = [(a, b) for a in range(n) for b in range(a, n)]

    def gen():
        for mv in itertools.product((-0.0311, 0.0117, 0.0537), repeat=n - 1):
            for k in (1, 2) + ((3,) if mv[0] > 0 or ctx.thorough else ()):
                for iv in itertools.product(ivs, repeat=k):
                    yield mv, iv

    def body(case):
        mv, iv = case
        px = [100.0]
        for m in mv:
            px.append(px[-1] * math.exp(m))
        ev, to = [a for a, _ in iv], [b for _, b in iv]
        alive = concurrency(n, ev, to)
        exp = attribution(alive, ev, to, px)
        ctx.state(mv, tuple(alive))
        ctx.trans(len(iv))
        for norm in (False, True):
            r = ctx.call(return_attribution, np.array(ev), np.array(to), np.array(px), np.array(alive, dtype=np.int16), norm)
            ctx.trace()
            e = exp
            if norm:
                s = math.fsum(exp)
                if s <= 1e-15:
                    if not (isinstance(r, Raised) and isinstance(r.exc, ValueError)) and s == 0:
                        ctx.fail(f"normalising zero attribution {case}: {r!r}")
                    continue
                e = [x * len(exp) / s for x in exp]
            if isinstance(r, Raised) or not seq_close(r, e, 1e-9, 1e-13):
                ctx.fail(f"labels {iv}, log moves {mv}, normalize={norm}: {r!r}, expected {e}")
    ctx.run(gen(), body)


def decay_case(ctx, u, c):
    from finmlkit.label.weights import time_decay
    r = ctx.call(time_decay, np.array(u), c)
    ctx.trace()
    ctx.trans(len(u))
    ctx.state("decay", u, c)
    if c == -1.0:
        exp = [0.0] * (len(u) - 1) + [1.0]
        if not isinstance(r, Raised) and seq_close(r, exp):
            return
        bad = (isinstance(r, Raised) and isinstance(r.exc, ZeroDivisionError)) or (not isinstance(r, Raised) and np.isnan(r[-1]))
        return ctx.fail(f"decay of {u} with intercept -1: {r!r}", key="time-decay-intercept-minus-one" if bad else None)
    exp = decay(u, c)
    ctx.outcome(tuple(round(x, 9) for x in exp))
    if isinstance(r, Raised) or not seq_close(r, exp, 1e-9, 1e-12):
        ctx.fail(f"decay of uniqueness {u} with intercept {c}: {r!r}, expected {exp}")


@phase("decay")
def decays(ctx):
    def gen():
        for n in range(1, 6):
            for u in itertools.product((0.25, 0.5, 1.0), repeat=n):
                for c in C:
                    yield u, c
    ctx.run(gen(), lambda k: decay_case(ctx, *k))

    def bad(c):
        from finmlkit.label.weights import time_decay
        for c_, u in ((c, [0.5, 0.5]), (0.5, [0.0, 0.0])):
            r = ctx.call(time_decay, np.array(u), c_)
            ctx.trace()
            if not (isinstance(r, Raised) and isinstance(r.exc, ValueError)):
                ctx.fail(f"time_decay({u}, {c_}) -> {r!r}, expected ValueError")
    ctx.run((-1.5, -1.0001, 1.0001, 2.0), bad)


def balance_case(ctx, labels, w):
    from finmlkit.label.weights import class_balance_weights
    r = ctx.call(class_balance_weights, np.array(labels, dtype=np.int8), np.array(w, dtype=np.float64))
    ctx.trace()
    ctx.trans(len(w))
    exp = balance(labels, w)
    ctx.state(labels, w)
    ctx.outcome(tuple(exp[0]), tuple(round(x, 9) for x in exp[1]))
    if isinstance(r, Raised) or not all(seq_close(a, b, 1e-12) for a, b in zip(r, exp)):
        ctx.fail(f"labels {labels} weights {w}: {r!r}, expected {exp}")


@phase("balance")
def balances(ctx):
    def gen():
        for n in range(1, 5 if not ctx.thorough else 6):
            for labels in itertools.product((-1, 0, 1), repeat=n):
                for w in itertools.product((0.0, 0.5, 3.0), repeat=n):
                    yield labels, w
        for n in (1, 2, 3):
            for labels in itertools.product((-1, 0, 1), repeat=n):
                for w in itertools.product((0.0, 2.0 ** -31, 3 * 2.0 ** -30, 2.0 ** 30), repeat=n):
                    yield labels, w
        for labels in itertools.product((-1, 0, 1), repeat=5):
            for w in ((0.5, 1.0, 2.0, 0.0, 3.0), (1.0,) * 5, (0.0, 0.0, 1.0, 2.0, 0.25)):
                yield labels, w
    ctx.run(gen(), lambda k: balance_case(ctx, *k))


def final_case(ctx, u, c, ra, vt, lab):
    from finmlkit.label.kit import SampleWeights
    idx = pd.date_range("2024-01-01", periods=len(u), freq="7s")
    S = lambda x: None if x is None else pd.Series(list(x), index=idx)
    ins = [S(u), S(ra), S(vt), S(lab)]
    before = [None if s is None else s.copy() for s in ins]
    r = ctx.call(SampleWeights.compute_final_weights, ins[0], c, ins[1], ins[2], ins[3])
    ctx.trace()
    ctx.trans(len(u))
    ctx.state(u, c, ra, vt, lab)
    where = f"uniqueness {u}, intercept {c}, attribution {ra}, vertical {vt}, labels {lab}"
    for a, b in zip(ins, before):
        if a is not None and not a.equals(b):
            return ctx.fail(f"{where}: an input series was modified")
    d = decay(u, c)
    cols = ["time_decay_weights"]
    if ra is not None:
        s = math.fsum(ra)
        base = None if s <= 0 else [x * len(u) / s for x in ra]
    else:
        base = list(u)
    if base is not None:
        comb = [x * y for x, y in zip(d, base)]
        if vt is not None:
            comb = [x * y for x, y in zip(comb, vt)]
        m = math.fsum(comb) / len(u)
    if base is None or m <= 0:
        if not (isinstance(r, Raised) and isinstance(r.exc, ValueError)):
            ctx.fail(f"{where}: weights that sum to zero: {r!r}, expected ValueError")
        return
    exp = dict(time_decay_weights=d)
    if ra is not None:
        exp["return_attribution"] = base
    if vt is not None:
        exp["vertical_touch_weights"] = list(vt)
    w = [x / m for x in comb]
    exp["weights"] = balance(lab, w)[3] if lab is not None else w
    if isinstance(r, Raised) or list(r.columns) != list(exp) or not r.index.equals(idx):
        return ctx.fail(f"{where}: {r!r}, expected columns {list(exp)}")
    for k in exp:
        dd = first_diff(r[k], exp[k], 1e-9, 1e-12)
        if dd:
            return ctx.fail(f"{where}: column {k} {dd}")


@phase("final")
def final(ctx):
    def gen():
        for n in (1, 2, 3):
            for u in itertools.product((0.25, 1.0), repeat=n):
                for c in (-0.5, -0.2, 0.0, 0.5, 1.0):
                    for ra in [None] + list(itertools.product((0.0, 0.01, 0.03), repeat=n)):
                        for vt in [None] + list(itertools.product((0.2, 1.0) if n == 3 else (0.0, 2.0 ** -10, 0.2, 1.0), repeat=n)):
                            for lab in [None] + list(itertools.product((-1, 1), repeat=n)) + ([(0, 1, 0)] if n == 3 else []):
                                yield u, c, ra, vt, lab
    ctx.run(gen(), lambda k: final_case(ctx, *k))


@phase("final-errors")
def final_errors(ctx):
    """series on different indexes are never combined by position"""
    from finmlkit.label.kit import SampleWeights
    idx = pd.date_range("2024-01-01", periods=3, freq="7s")
    good = pd.Series([1.0, 0.5, 0.25], index=idx)
    others = dict(shifted=pd.Series([1.0, 0.5, 0.25], index=idx + pd.Timedelta(seconds=1)), reversed=good[::-1], short=good[:2],
                  array=good.values)

    def body(case):
        pos, what, c = case
        args = [good, 0.5, good, good, pd.Series([1, -1, 1], index=idx)]
        if pos == 1:
            args[1] = c
        else:
            args[pos] = others[what] if pos != 4 else (others[what] > 0.6 if what != "array" else others[what]).astype(np.int8)
        r = ctx.call(SampleWeights.compute_final_weights, *args)
        ctx.trace()
        ctx.trans()
        ctx.state(case)
        if not (isinstance(r, Raised) and isinstance(r.exc, ValueError)):
            ctx.fail(f"argument {pos} = {what or c}: {r!r}, expected ValueError")
    ctx.run([(p, w, None) for p in (2, 3, 4) for w in others] + [(0, "array", None)] + [(1, None, c) for c in (-1.1, 1.5, "x", None)], body)


@phase("jit", jit=True, shards=2, threads=4)
def jit(ctx):
    def gen():
        for n in range(1, 4):
            for u in itertools.product((0.25, 1.0), repeat=n):
                for c in C:
                    yield "d", u, c
            for labels in itertools.product((-1, 0, 1), repeat=n):
                for w in itertools.product((0.0, 0.5, 3.0), repeat=n):
                    yield "b", labels, w
    ctx.run(gen(), lambda k: decay_case(ctx, *k[1:]) if k[0] == "d" else balance_case(ctx, *k[1:]))
    attrib(ctx) if ctx.thorough else None
