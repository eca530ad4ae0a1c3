"""C32: topological execution respects every dependency, runs every feature once and depends on nothing but the features."""
import hashlib
import itertools
import os
import subprocess
import sys

import numpy as np
import pandas as pd

from mc.core import Raised, close, phase

BOUNDS = ("every labelled DAG of up to 4 features (543 of 4; labels = order of definition), of up to 3 with each feature in one of 4 styles (plain, renamed, two outputs, two renamed "
          "outputs; 4 features: 2 styles), dependencies through columns; every ordered selection of up to 4 of 9 features linked as operands, children or Compose steps; "
          "every directed graph of up to 4 nodes, cycles included; all orders repeated under 3 further string hash seeds (thorough: 15)")
N = 3


def combine(*cols, add=0.0, outs=1):
    s = sum(cols[1:], cols[0] * 0.0 + cols[0]) + add
    return s if outs == 1 else (s, s * 2.0)


combine.__module__ = "mc.checks.c32"


def dags(k):
    """all acyclic edge sets on k labelled nodes"""
    slots = [(i, j) for i in range(k) for j in range(k) if i != j]
    for mask in range(1 << len(slots)):
        if bin(mask).count("1") > k * (k - 1) // 2:
            continue
        e = tuple(s for b, s in enumerate(slots) if mask >> b & 1)
        if acyclic(k, e):
            yield e


def acyclic(k, e):
    left = set(range(k))
    while left:
        free = [n for n in left if not any(b == n and a in left for a, b in e)]
        if not free:
            return False
        left -= set(free)
    return True


def graph_feats(k, edges, styles):
    """real features n0..: feature j reads the (last) output column of each i with an edge i -> j"""
    from finmlkit.feature.kit import Feature
    from finmlkit.feature.transforms import ExternalFunction
    out, cols = [], {i: (f"n{i}",) if styles[i] < 2 else (f"n{i}a", f"n{i}b") for i in range(k)}
    for j in range(k):
        deps = [cols[i][-1] for i, b in edges if b == j]
        f = Feature(ExternalFunction(combine, deps or "raw", list(cols[j]) if len(cols[j]) > 1 else cols[j][0],
                                     kwargs=dict(add=float(10 ** j), outs=len(cols[j]))))
        if styles[j] == 1:
            f.name = f"custom_{j}"
        elif styles[j] == 3:
            f.name = [f"z{9 - j}", f"a{j}"]
        out.append(f)
    return out, cols


def raw():
    return pd.DataFrame({"raw": np.array([1.0, 0.5, -3.0])[:N], "close": np.array([4.0, 5.0, 4.5])[:N]}, index=pd.date_range("2024-01-01", periods=N, freq="min"))


def values(k, edges, styles):
    v = {}

    def val(j):
        if j not in v:
            deps = [i for i, b in edges if b == j]
            base = [sum(col) for col in zip(*[val(i)[-1] for i in deps])] if deps else raw()["raw"].tolist()
            s = [x + 10.0 ** j for x in base]
            v[j] = [s] if styles[j] < 2 else [s, [2 * x for x in s]]
        return v[j]
    for j in range(k):
        val(j)
    return v


def graph_cases(thorough):
    for k in (1, 2, 3):
        for e in dags(k):
            for st in itertools.product(range(4), repeat=k):
                yield k, e, st
    for e in dags(4):
        for st in itertools.product((0, 3) if not thorough else (0, 1, 2, 3), repeat=4):
            yield 4, e, st


@phase("dags")
def all_dags(ctx):
    from finmlkit.feature.kit import FeatureKit

    def body(case):
        k, edges, styles = case
        ctx.state(case)
        feats, cols = graph_feats(k, edges, styles)
        names = [str(f.name) for f in feats]
        kit = FeatureKit(feats, retain=["raw"])
        ctx.trace()
        ctx.trans(k)
        order = ctx.call(kit.topological_order)
        if isinstance(order, Raised) or sorted(order) != sorted(names):
            ctx.fail(f"{case}: order {order} of the features {names}")
            return
        for a, b in edges:
            if order.index(names[a]) > order.index(names[b]):
                ctx.fail(f"{case}: {names[b]} reads a column of {names[a]} but comes first in {order}")
                return
        sort = kit.build_graph().topological_sort()
        if any(sort.index(names[a]) > sort.index(names[b]) for a, b in edges):
            ctx.fail(f"{case}: graph order {sort} breaks {edges}")
        df = raw()
        out = ctx.call(kit.build, df, order="topo")
        ctx.trace()
        if isinstance(out, Raised):
            ctx.fail(f"{case}: {out}")
            return
        flat = {n: ([f.name] if isinstance(f.name, str) else list(f.name)) for n, f in zip(names, feats)}
        want = ["raw"] + [c for n in order for c in flat[n]]
        if list(out.columns) != want:
            ctx.fail(f"{case}: columns {list(out.columns)}, order {order}")
            return
        v = values(k, edges, styles)
        for j, n in enumerate(names):
            for c, x in zip(flat[n], v[j]):
                if out[c].tolist() != x:
                    ctx.fail(f"{case}: {c} is {out[c].tolist()}, by definition {x}")
                    return
        ctx.outcome(tuple(order))
    ctx.run(graph_cases(ctx.thorough), body)


def linked():
    """features that are operands, children or pipeline steps of one another: (features, direct links child -> parent)"""
    from finmlkit.feature import transforms as T
    from finmlkit.feature.kit import Compose, Feature
    ret, close_ = Feature(T.Lag(1)), Feature(T.Identity("close"))
    mean = ret.rolling_mean(2)
    prod = ret * close_
    twice = mean * 2
    comp = Feature(Compose(T.Lag(1), T.SMA(2)))
    top = Feature.max(prod, twice)
    named = twice.abs()
    named.name = "named"
    last = Feature(T.SMA(2, "abs(mul(close_lag1_rmean2,2))"))
    feats = [ret, close_, mean, prod, twice, comp, top, named, last]
    links = [(0, 2), (0, 3), (1, 3), (2, 4), (0, 5), (3, 6), (4, 6), (4, 7), (7, 8)]
    return feats, links


def link_cases(thorough):
    for k in range(1, 5 + thorough):
        yield from itertools.permutations(range(9), k)


@phase("links")
def links(ctx):
    from finmlkit.feature.kit import FeatureKit
    feats, edges = linked()

    def body(sel):
        ctx.state(sel)
        kit = FeatureKit([feats[i] for i in sel])
        names = [feats[i].name for i in sel]
        ctx.trace()
        ctx.trans(len(sel))
        order = ctx.call(kit.topological_order)
        if isinstance(order, Raised) or sorted(order) != sorted(names):
            ctx.fail(f"order {order} of the features {names}")
            return
        for a, b in edges:
            if a in sel and b in sel and order.index(feats[a].name) > order.index(feats[b].name):
                ctx.fail(f"{feats[b].name} is built from {feats[a].name} but comes first in {order}")
                return
        ctx.outcome(tuple(order))
    ctx.run(link_cases(ctx.thorough), body)


@phase("graphs")
def graphs(ctx):
    """ComputationGraph.topological_sort on every directed graph"""
    from finmlkit.feature.utils import ComputationGraph

    def gen():
        for k in range(0, 5):
            slots = [(i, j) for i in range(k) for j in range(k) if i != j]
            for mask in range(1 << len(slots)):
                yield k, tuple(s for b, s in enumerate(slots) if mask >> b & 1)

    def body(case):
        k, edges = case
        ctx.state(case)
        ctx.trans(len(edges))
        ctx.trace()
        for rev in (False, True):
            g = ComputationGraph()
            for n in range(k):
                g.add_node(f"v{n}")
            for a, b in (reversed(edges) if rev else edges):
                g.add_edge(f"v{a}", f"v{b}")
            order = [int(n[1:]) for n in g.topological_sort()]
            # a node is listed exactly if no cycle leads to it
            free, grown = set(), True
            while grown:
                more = {n for n in range(k) if n not in free and all(a in free for a, b in edges if b == n)}
                grown = bool(more)
                free |= more
            if sorted(order) != sorted(free) or any(order.index(a) > order.index(b) for a, b in edges if b in free):
                ctx.fail(f"sort of {edges} on {k} nodes is {order}")
                return
            ctx.outcome(tuple(order))
    ctx.run(gen(), body)


def digest(thorough):
    """digest of every topological order under this process' hash seed, and the orders of a few cases to name a difference"""
    from finmlkit.feature.kit import FeatureKit
    out = []
    for k, e, st in graph_cases(False):
        if k < 4 or sum(st) in (0, 9):
            kit = FeatureKit(graph_feats(k, e, st)[0])
            out.append((("dag", k, e, st), tuple(kit.topological_order()), tuple(kit.build_graph().topological_sort())))
    feats, _ = linked()
    for sel in link_cases(False):
        if len(sel) < 4 or thorough:
            kit = FeatureKit([feats[i] for i in sel])
            out.append((("link", sel), tuple(kit.topological_order()), tuple(kit.build_graph().topological_sort()), kit.to_config() if len(sel) < 3 else None))
    return out


@phase("hash_seeds")
def seeds(ctx):
    cases = digest(ctx.thorough)

    def gen():
        for s in range(1, 4 if not ctx.thorough else 16):
            yield s * 1009

    def body(seed):
        env = dict(os.environ, PYTHONHASHSEED=str(seed))
        code = "import sys; from mc.checks import c32\nfor c in c32.digest(%r): print(repr(c))" % ctx.thorough
        p = subprocess.run([sys.executable, "-c", code], env=env, cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))),
                           capture_output=True, text=True, timeout=600)
        if p.returncode:
            ctx.fail(f"under hash seed {seed}: {p.stderr[-1500:]}")
            return
        lines = [x for x in p.stdout.splitlines() if x.startswith("((")]
        ctx.trace(len(lines))
        ctx.trans(len(lines))
        ctx.state(seed, hashlib.sha1(p.stdout.encode()).hexdigest())
        if len(lines) != len(cases):
            ctx.fail(f"hash seed {seed}: {len(lines)} orders, {len(cases)} here")
            return
        for a, b in zip(lines, cases):
            if a != repr(b):
                ctx.fail(f"the order depends on string hashing: {b} here, {a} under PYTHONHASHSEED={seed}")
                return
    ctx.run(gen(), body)
