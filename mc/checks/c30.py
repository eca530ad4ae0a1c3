"""C30: feature expressions evaluate to the arithmetic of their parts, and caching never changes a value."""
import itertools

import numpy as np
import pandas as pd

from mc import expr
from mc.core import Raised, close, phase

BOUNDS = ("every expression of one and (a subset of the operators) two operations over 9 leaf features, 20 unary functions, 8 constant, 4 min/max-with-constant and 6 binary operations, "
          "both backends, with and without cache, on a frame with zeros, negative and missing values and on a single row; every ordered selection of up to 3 "
          "of 16 features that share parts or column names in a FeatureKit (thorough: 4), both orders of execution and both backends; pairs of 100 "
          "features under their own names that differ in a constant, bound, window, operation or operand")
ASSUMPTIONS = ["two features of a kit that share an output name are given different custom names"]


def small(e):
    return e[0] != "un" or e[1] in ("abs", "clip", "log", "ema", "ema_na", "rmean", "lag1", "same", "square")


def exprs(thorough):
    L = expr.leaves()
    one = list(expr.layer(L)) + list(expr.pairs(L, L))
    yield from L
    yield from one
    few = [("leaf", n) for n in ("ret", "logret", "vol1", "close")]
    base = list(expr.layer(L if thorough else few)) + list(expr.pairs(few, few))
    base = [e for e in base if thorough or small(e) and (len(e) < 4 or e[3] != -2)]
    yield from expr.layer(base, consts=(0.5,) if not thorough else (0.5, 0), unary=("abs", "clip_lo", "log1p", "rsum", "rstd", "ema", "ema_na", "lag2", "apply", "same"))
    yield from expr.pairs(base, few[:2] if not thorough else few)
    yield from expr.pairs(few[:2], base)


def same(a, b):
    return len(a) == len(b) and all(close(x, y, 1e-9, 1e-9) for x, y in zip(a, b))


def check(ctx, what, r, e, n, df):
    want = expr.values(e, expr.data(n))
    if isinstance(r, Raised):
        return ctx.fail(f"{what} of {expr.name(e)}: {r}")
    if not isinstance(r, pd.Series) or not r.index.equals(df.index) or not same(r.tolist(), want):
        return ctx.fail(f"{what} of {expr.name(e)} {e} is {r.tolist()}, by definition {want}")
    if r.name != expr.name(e):
        return ctx.fail(f"{what} of {e} is named {r.name!r}, expected {expr.name(e)!r}")
    ctx.outcome(tuple(None if v != v else round(v, 9) if abs(v) < 1e300 else v for v in want))


@phase("expressions")
def expressions(ctx):
    def body(e):
        ctx.state(e)
        f = ctx.call(expr.build, e)
        if isinstance(f, Raised):
            ctx.fail(f"cannot build {e}: {f}")
            return
        if f.name != expr.name(e):
            ctx.fail(f"{e} is named {f.name!r}, expected {expr.name(e)!r}")
        for n in (7, 1):
            df = expr.frame(n)
            for backend in ("nb", "pd") if n == 7 else ("nb",):
                ctx.trans()
                ctx.trace()
                check(ctx, f"{backend} value", ctx.call(f, df, backend=backend), e, n, df)
            # a cache that holds the parts
            if n == 7 and e[0] != "leaf":
                cached = df.copy()
                for part in e[2:]:
                    if isinstance(part, tuple):
                        cached[expr.name(part)] = expr.values(part, expr.data(n))
                clash = len({expr.name(p) for p in e[2:] if isinstance(p, tuple)}) < len({p for p in e[2:] if isinstance(p, tuple)})
                if not clash:
                    ctx.trace()
                    check(ctx, "value with cached parts", ctx.call(f, cached, cache=cached), e, n, df)
                cached[expr.name(e)] = expr.values(e, expr.data(n))
                ctx.trace()
                check(ctx, "cached value", ctx.call(f, cached, cache=cached), e, n, df)
    ctx.run(exprs(ctx.thorough), body)


R, LR, C, V = ("leaf", "ret"), ("leaf", "logret"), ("leaf", "close"), ("leaf", "vol1")
POOL = [
    R, LR, C, V, ("leaf", "retsma"), ("leaf", "lagret"), ("un", "rmean", R), ("un", "ema", C), ("un", "ema_na", C), ("bin", "sub", R, C),
    ("bin", "sub", LR, C), ("un", "abs", ("un", "ema_na", C)), ("bin", "div", ("un", "ema", C), V), ("un", "same", C), ("un", "lag1", C),
    ("mm", "max", ("bin", "sub", LR, C), ("const", "mul", LR, 2)),
]


@phase("kits")
def kits(ctx):
    """no feature of a kit changes the value of another one, whatever the order"""
    from finmlkit.feature.kit import FeatureKit

    def gen():
        for k in (1, 2, 3) + ((4,) if ctx.thorough else ()):
            for sel in itertools.permutations(range(len(POOL)), k):
                for order in ("defined", "topo"):
                    yield sel, order

    wants = [expr.values(e, expr.data()) for e in POOL]

    def body(case):
        sel, order = case
        ctx.state(case)
        df = expr.frame()
        for shared in (False, True):        # parts as separate but equal objects, or the very same objects
            feats = []
            for i in sel:
                f = expr.build(POOL[i]) if not shared else SHARED(i)
                f.name = f"f{i}"
                feats.append(f)
            out = ctx.call(FeatureKit(feats, retain=["volume"]).build, df, backend="nb" if len(sel) < 3 or sum(sel) % 2 else "pd", order=order)
            ctx.trace()
            ctx.trans(len(sel))
            if isinstance(out, Raised):
                ctx.fail(f"kit of {[expr.name(POOL[i]) for i in sel]} ({order}): {out}")
                return
            for i in sel:
                if f"f{i}" not in out or not same(out[f"f{i}"].tolist(), wants[i]):
                    ctx.fail(f"in a kit of {[POOL[j] for j in sel]} ({order}) the value of {POOL[i]} is "
                             f"{out[f'f{i}'].tolist() if f'f{i}' in out else 'missing'}, alone it is {wants[i]}")
                    return
    ctx.run(gen(), body)


_shared = {}


def SHARED(i):
    """feature i built from operand objects shared by all features"""
    from finmlkit.feature.kit import Feature

    def obj(e):
        if e not in _shared:
            if e[0] == "leaf":
                _shared[e] = expr.build(e)
            elif e[0] == "un":
                _shared[e] = expr.UNARY[e[1]][0](obj(e[2]))
            elif e[0] == "const":
                _shared[e] = expr.BIN[e[1]][0](obj(e[2]), e[3])
            elif e[0] == "bin":
                _shared[e] = expr.BIN[e[1]][0](obj(e[2]), obj(e[3]))
            else:
                _shared[e] = getattr(Feature, e[1])(obj(e[2]), obj(e[3]))
        return _shared[e]
    from finmlkit.feature.kit import Feature as F
    return F(obj(POOL[i]).transform)


NEAR = (1000000.25, 1000000.5, 0.12345671, 0.12345672, 1, 1.0, -1, 3e-9)


@phase("own_names")
def own_names(ctx):
    """features under the names they give themselves: different expressions that differ only in a constant, a bound, a window,
    an operation or an operand are kept apart"""
    from finmlkit.feature.kit import FeatureKit
    pool = []
    for c in NEAR:
        pool += [("const", o, R, c) for o in expr.BIN] + [("rconst", o, R, c) for o in ("rsub", "rdiv")] + [("cmm", "max", R, c)]
    pool += [("un", u, C) for u in expr.UNARY] + [("un", u, R) for u in ("abs", "clip", "clip_lo", "clip_hi", "lag1", "rmean")]
    pool += [("bin", o, C, V) for o in expr.BIN] + [("bin", o, V, C) for o in expr.BIN] + [("mm", o, C, V) for o in ("min", "max")]
    pool += POOL
    pool += [("const", "mul", ("const", "mul", R, a), b) for a in NEAR[:2] for b in NEAR[:2]]

    def gen():
        for i, a in enumerate(pool):
            for j, b in enumerate(pool):
                if i != j and expr.name(a) != expr.name(b) and (ctx.thorough or (i + j) % 2):
                    yield a, b, ("defined", "topo")[(i + j) % 4 == 1]
                elif i != j and expr.name(a) != expr.name(b) and i < j and abs(i - j) < 30:
                    yield a, b, "defined"

    def clash(a, b):
        """different expressions of one name (parts that share a name are each other's cache: out of scope here)"""
        sub, todo = {}, [a, b]
        while todo:
            e = todo.pop()
            if sub.setdefault(expr.name(e), e) != e:
                return True
            todo += [p for p in e[2:] if isinstance(p, tuple)]
        return False

    def body(case):
        a, b, order = case
        if clash(a, b):
            return
        ctx.state(case)
        out = ctx.call(FeatureKit([expr.build(a), expr.build(b)], retain=["volume"]).build, expr.frame(), order=order)
        ctx.trace()
        ctx.trans(2)
        if isinstance(out, Raised):
            return ctx.fail(f"kit of {expr.name(a)} and {expr.name(b)} ({order}): {out}")
        for e in (a, b):
            n = expr.name(e)
            if n not in out or not same(out[n].tolist(), expr.values(e, expr.data())):
                return ctx.fail(f"in a kit of {expr.name(a)} and {expr.name(b)} ({order}) the value of {n} is "
                                f"{out[n].tolist() if n in out else 'missing'}, alone it is {expr.values(e, expr.data())}")
    ctx.run(gen(), body)
