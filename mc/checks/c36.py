"""C36: computations neither change what they are given nor depend on what was computed before."""
import itertools
import json

import numpy as np
import pandas as pd

from mc import expr, feat
from mc.bars import T0, NS, trades_data
from mc.core import Raised, phase

NAN = float("nan")
BOUNDS = ("all histories of 2 operations (thorough: 3) over shared inputs: 2 trade sets x 36 bar kit and trade data operations (kits kept between operations, 2 other data sets mixed in), "
          "16 labelling, weighting and sampling operations, every core function of the feature table and every transform (both backends) on one shared frame with missing values, "
          "every one-operation expression and 3-operation histories of 12 feature and kit operations on shared feature objects")
ASSUMPTIONS = ["FootprintData may change the container type (NumPy or numba list) of its arrays, not their contents"]


def freeze(x):
    """comparable deep copy"""
    if isinstance(x, Raised):
        return ("raised", type(x.exc).__name__)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("list",) + tuple(freeze(v) for v in x)
        return ("array", str(x.dtype), x.shape, x.tobytes())
    if isinstance(x, pd.DataFrame):
        return ("frame", tuple(map(str, x.columns)), freeze(x.index), tuple(freeze(x.iloc[:, k]) for k in range(x.shape[1])), tuple(str(x[c].name) for c in x) if x.columns.is_unique else ())
    if isinstance(x, pd.Series):
        return ("series", str(x.name), freeze(x.index), freeze(x.to_numpy()), str(x.dtype))
    if isinstance(x, pd.Index):
        return ("index", str(x.dtype), str(x.name), freeze(x.to_numpy()))
    if isinstance(x, (list, tuple)) or type(x).__name__ == "List":
        return ("list",) + tuple(freeze(v) for v in x)
    if isinstance(x, dict):
        return ("dict",) + tuple((k, freeze(v)) for k, v in x.items())
    if type(x).__name__ == "FootprintData":
        return ("footprint",) + tuple((k, freeze(v)) for k, v in sorted(vars(x).items()))
    if type(x).__name__ == "TradesData":
        return ("trades", freeze(x.data))
    if isinstance(x, float):
        return ("float", repr(x))
    if isinstance(x, (np.generic,)):
        return (str(type(x)), repr(x))
    return repr(x)


def history(ctx, what, setup, ops, seq, fresh):
    """run the operations of seq on one set of inputs; inputs stay as they are, earlier results stay as they are,
    every result is the one of the operation alone on new inputs"""
    env = setup()
    before = {k: freeze(v) for k, v in env["inputs"].items()}
    past = []
    for o in seq:
        r = ctx.call(ops[o], env)
        ctx.trace()
        ctx.trans()
        got = freeze(r)
        if isinstance(r, Raised):
            ctx.fail(f"{what} {seq}: {o} fails with {r.exc!r}")
            return
        for k, v in env["inputs"].items():
            if freeze(v) != before[k]:
                ctx.fail(f"{what} {seq}: {o} changed its input {k}: it is now {v!r}")
                return
        for p, (obj, f) in past:
            if freeze(obj) != f:
                ctx.fail(f"{what} {seq}: {o} changed the earlier result of {p}")
                return
        if o not in fresh:
            fresh[o] = freeze(ctx.call(ops[o], setup()))
        if got != fresh[o]:
            ctx.fail(f"{what} {seq}: {o} after other operations gives {r!r}, alone it gives something else: {ctx.call(ops[o], setup())!r}")
            return
        past.append((o, (r, got)))
    ctx.outcome(what, seq[-1], got)


def histories(names, depth):
    for k in range(1, depth + 1):
        yield from itertools.product(names, repeat=k)


# ------------------------------------------------------------------ bars
SETS = [
    dict(t=(0, 0.4, 1.1, 1.1, 2.7, 5.2, 5.9, 6.0), p=(100.0, 100.5, 100.5, 99.0, 101.0, 101.5, 100.0, 100.25), q=(1.0, 2.0, 0.5, 4.0, 1.5, 3.0, 0.25, 2.0), s=(1, 1, -1, -1, 1, -1, 1, 1)),
    dict(t=(0, 3, 3.5, 4), p=(50.0, 50.0, 51.0, 49.0), q=(2.0, 2.0, 2.0, 2.0), s=(-1, -1, 1, 1)),
]


def bar_setup(n):
    def make():
        d = SETS[n]
        ts = [T0 + int(x * NS) for x in d["t"]]
        td = trades_data(ts, d["p"], d["q"], d["s"])
        k = len(ts)
        sigma = np.array([NAN, 0.004, 0.0001, NAN, 0.003, 0.002, 0.01, 0.0006][:k])
        return dict(inputs=dict(trades=td, sigma=sigma, theta=np.array([1.0, 1.5, 2.0, 0.5][:k // 2]), late=np.array(ts[::-1]), ts=np.array(ts), px=np.array(d["p"]), qty=np.array(d["q"]),
                                ids=np.array([4, 4, 7, 8, 9, 10, 11, 12][:k]), ids_late=np.array([4, 4, 7, 8, 9, 10, 11, 12][:k][::-1]), side=np.array(d["s"], dtype=np.int8), dt=pd.DatetimeIndex(ts, name="datetime"),
                                **{f"ts_{u}": np.array(ts) // m for u, m in (("s", 10**9), ("ms", 10**6), ("us", 1000))}, maker=np.array([s < 0 for s in d["s"]])), kits={}, n=n)
    return make


def bar_ops():
    from finmlkit.bar import kit as K, utils as U
    from finmlkit.bar.data_model import TradesData
    mk = {"time": lambda i: K.TimeBarKit(i["trades"], pd.Timedelta("1s")), "tick": lambda i: K.TickBarKit(i["trades"], 2), "volume": lambda i: K.VolumeBarKit(i["trades"], 3.0),
          "dollar": lambda i: K.DollarBarKit(i["trades"], 250.0), "cusum": lambda i: K.CUSUMBarKit(i["trades"], i["sigma"], 5e-4, 2.0)}
    calls = {"ohlcv": lambda k, i: k.build_ohlcv(), "dir": lambda k, i: k.build_directional_features(), "foot": lambda k, i: k.build_footprints(),
             "closes": lambda k, i: (k.bar_close_indices, k.bar_close_timestamps), "foot2": lambda k, i: k.build_footprints(0.5, 2.0)}
    ops = {}

    def kit(env, name):
        if name not in env["kits"]:
            env["kits"][name] = mk[name](env["inputs"])
        return env["kits"][name]

    for a in mk:
        for b in calls:
            if b != "foot2" or a in ("tick", "cusum"):
                ops[f"{a}.{b}"] = lambda env, a=a, b=b: calls[b](kit(env, a), env["inputs"])
    ops["tick.size"] = lambda env: kit(env, "tick").build_trade_size_features(env["inputs"]["theta"], 2.0)
    ops["new_trades"] = lambda env: TradesData(env["inputs"]["ts"], env["inputs"]["px"], env["inputs"]["qty"], env["inputs"]["ids"],
                                               is_buyer_maker=env["inputs"]["maker"], timestamp_unit="ns", preprocess=True, proc_res="ms")
    ops["new_trades_plain"] = lambda env: TradesData(env["inputs"]["ts"], env["inputs"]["px"], env["inputs"]["qty"], env["inputs"]["ids"], timestamp_unit="ns")
    for u in ("s", "ms", "us"):
        ops[f"new_trades_{u}"] = lambda env, u=u: TradesData(env["inputs"][f"ts_{u}"], env["inputs"]["px"], env["inputs"]["qty"], env["inputs"]["ids"], timestamp_unit=u, preprocess=True)
    ops["new_trades_ms_plain"] = lambda env: TradesData(env["inputs"]["ts_ms"], env["inputs"]["px"], env["inputs"]["qty"], env["inputs"]["ids"], is_buyer_maker=env["inputs"]["maker"], timestamp_unit="ms")
    ops["new_trades_late"] = lambda env: TradesData(env["inputs"]["late"], env["inputs"]["px"], env["inputs"]["qty"], env["inputs"]["ids_late"], is_buyer_maker=env["inputs"]["maker"], preprocess=True)
    ops["new_trades_side"] = lambda env: TradesData(env["inputs"]["ts"], env["inputs"]["px"], env["inputs"]["qty"], side=env["inputs"]["side"], dt_index=env["inputs"]["dt"])
    ops["tick_size"] = lambda env: U.comp_price_tick_size(env["inputs"]["px"])
    ops["sides"] = lambda env: U.comp_trade_side_vector(env["inputs"]["px"])
    ops["sort"] = lambda env: U.fast_sort_trades(env["inputs"]["late"], env["inputs"]["px"], env["inputs"]["qty"], env["inputs"]["maker"])
    ops["merge"] = lambda env: U.merge_split_trades(env["inputs"]["ts"], env["inputs"]["px"], env["inputs"]["qty"], env["inputs"]["maker"])

    def slice_fp(env):
        fp = kit(env, "tick").build_footprints()
        a = fp[1:3]
        b = fp.get_df()
        fp.cast_to_numpy()
        return a, b, fp, fp.memory_usage(), fp.is_valid()
    ops["footprint_views"] = slice_fp
    return ops


@phase("bars")
def bars(ctx):
    ops = bar_ops()
    names = list(ops)
    fresh = [{}, {}]

    def gen():
        for n in (0, 1):
            for seq in histories(names, 2):
                yield n, seq
            if ctx.thorough:
                for seq in itertools.product(names, repeat=3):
                    yield n, seq

    def body(case):
        n, seq = case
        ctx.state(case)
        history(ctx, f"bars of trade set {n}", bar_setup(n), ops, seq, fresh[n])
    ctx.run(gen(), body)


# ------------------------------------------------------------------ labels
def label_setup():
    d = SETS[0]
    ts = [T0 + int(x * NS) for x in d["t"]]
    td = trades_data(ts, d["p"], d["q"], d["s"])
    idx = pd.DatetimeIndex([ts[i] for i in (0, 1, 2, 4)])
    x = pd.DataFrame(dict(tgt=[NAN, 0.004, 0.006, 0.003], f=[0.1, 0.2, 0.3, NAN], side=np.array([1, -1, 1, 1])), index=idx)
    x2 = pd.DataFrame(dict(tgt=[0.002, 0.004, 0.006, 0.003], event_idx=[0, 1, 2, 4]), index=idx)
    lab = pd.DataFrame(dict(event_idx=[0, 1, 4], touch_idx=[2, 4, 7]), index=idx[:3])
    return dict(inputs=dict(trades=td, x=x, x2=x2, lab=lab, ts=np.array(ts), px=np.array(d["p"]), ev=np.array([0, 1, 2, 4]), to=np.array([3, 2, 5, 7]), tg=np.array([0.002, 0.004, 0.006, 0.003]),
                            side=np.array([1, -1, 1, 1], dtype=np.int8), conc=np.array([1.0, 2.0, 3.0, 2.0, 2.0, 2.0, 1.0, 1.0]), u=np.array([0.5, 0.9, 0.25, 1.0]), w=np.array([1.0, 2.0, 0.5, 0.25]),
                            labels=np.array([1, -1, 1, 0], dtype=np.int8), U=pd.Series([0.5, 0.9, 0.25, 1.0], index=idx), R=pd.Series([0.1, 0.2, 0.05, 0.4], index=idx),
                            V=pd.Series([1.0, 0.3, 0.0, 1.0], index=idx), L=pd.Series([1, -1, 1, 1], index=idx), thr=np.array([0.004] * 8), c1=np.array([0.004]),
                            z=np.array([1.0, 1.25, 0.75, 1.0, 9.0, 1.0, -4.0, 1.0, 1.0])), kits={})


def label_ops():
    from finmlkit.label import weights as W
    from finmlkit.label.kit import SampleWeights, TBMLabel
    from finmlkit.label.tbm import triple_barrier
    from finmlkit.sampling.filters import cusum_filter
    mk = {"a": lambda i: TBMLabel(i["x"], "tgt", 0.001, (1.0, 1.5), pd.Timedelta("2s")), "meta": lambda i: TBMLabel(i["x"], "tgt", 0.001, (1.0, 1.0), pd.Timedelta("1s"), is_meta=True),
          "idx": lambda i: TBMLabel(i["x2"], "tgt", 0.0, (-np.inf, 1.0), pd.Timedelta("3s"))}

    def kit(env, n):
        if n not in env["kits"]:
            env["kits"][n] = mk[n](env["inputs"])
        return env["kits"][n]
    ops = {}
    for n in mk:
        ops[f"{n}.labels"] = lambda e, n=n: kit(e, n).compute_labels(e["inputs"]["trades"])

        def weigh(e, n=n):
            k = kit(e, n)
            k.compute_labels(e["inputs"]["trades"])
            return k.compute_weights(e["inputs"]["trades"], normalized=n == "idx"), k.full_output, k.features, k.target_returns
        ops[f"{n}.weights"] = weigh
    I = lambda e: e["inputs"]
    ops["info"] = lambda e: SampleWeights.compute_info_weights(I(e)["trades"], I(e)["lab"], True)
    ops["final"] = lambda e: SampleWeights.compute_final_weights(I(e)["U"], 0.25, I(e)["R"], I(e)["V"], I(e)["L"])
    ops["final_erase"] = lambda e: SampleWeights.compute_final_weights(I(e)["U"], -0.5)
    ops["tbm"] = lambda e: triple_barrier(I(e)["ts"], I(e)["px"], I(e)["ev"], I(e)["tg"], (1.0, 1.0), 2.0, 0.5, None, 0.0)
    ops["tbm_meta"] = lambda e: triple_barrier(I(e)["ts"], I(e)["px"], I(e)["ev"], I(e)["tg"], (1.0, np.inf), np.inf, 0.5, I(e)["side"], 0.001)
    ops["unique"] = lambda e: W.average_uniqueness(I(e)["ts"], I(e)["ev"], I(e)["to"])
    ops["attribution"] = lambda e: W.return_attribution(I(e)["ev"], I(e)["to"], I(e)["px"], I(e)["conc"], True)
    ops["decay"] = lambda e: W.time_decay(I(e)["u"], 0.5)
    ops["balance"] = lambda e: W.class_balance_weights(I(e)["labels"], I(e)["w"])
    ops["cusum"] = lambda e: cusum_filter(I(e)["px"], I(e)["thr"])
    ops["cusum1"] = lambda e: cusum_filter(I(e)["px"], I(e)["c1"])
    return ops


@phase("labels")
def labels(ctx):
    ops = label_ops()
    fresh = {}

    def body(seq):
        ctx.state(seq)
        history(ctx, "labels", label_setup, ops, seq, fresh)
    ctx.run(histories(list(ops), 3 if ctx.thorough else 2), body)


# ------------------------------------------------------------------ features
def table():
    """(name, params index) of the feature table"""
    for n, f in feat.TABLE.items():
        for k in sorted({0, len(f.params) - 1}):
            yield n, k


COLS = None


def feature_setup():
    n = 30
    r = lambda a, b, m: np.array([((i * a + b) % m) / 8.0 for i in range(n)])
    c = 10.0 + r(7, 3, 23)
    d = dict(close=c, open=c + r(3, 2, 5) - 0.25, high=c + 1.0 + r(3, 1, 7), low=c - 1.0 - r(5, 2, 7), volume=r(11, 4, 17), vwap=c + 0.125,
             volume_buy=r(7, 1, 13), volume_sell=r(5, 0, 13), x=c + 0.5, y=r(3, 1, 11) - 0.5, ret=(r(5, 2, 13) - 0.8) / 100, ret1=(r(9, 4, 17) - 0.9) / 100)
    for k, col in enumerate(("close", "x", "y", "ret", "volume", "volume_buy")):
        d[col][k + 3] = NAN
    idx = pd.DatetimeIndex([feat.T0 + 1800 * NS * i + (i % 3) for i in range(n)])
    return dict(inputs=dict(df=pd.DataFrame(d, index=idx), arrays={k: v.copy() for k, v in d.items()}, ts=idx.asi8.copy()), made={})


def feature_ops():
    from finmlkit.feature import transforms as T
    ops = {}

    def made(env, key, fn):
        if key not in env["made"]:
            env["made"][key] = fn()
        return env["made"][key]
    for n, k in table():
        f = feat.TABLE[n]
        p = f.params[k]
        if f.core:
            ops[f"core {n}{k}"] = lambda e, f=f, p=p: f.core(p, [e["inputs"]["arrays"][c] for c in f.cols], e["inputs"]["ts"])
        if f.cls:
            for b in ("nb", "pd") if f.pd else ("nb",):
                ops[f"{b} {n}{k}"] = lambda e, f=f, p=p, b=b, n=n, k=k: made(e, (n, k), lambda: f.transform(p))(e["inputs"]["df"], backend=b)
    ops["nb CUSUMTest"] = lambda e: made(e, "ct", lambda: T.CUSUMTest(8, 4, 3, "open"))(e["inputs"]["df"])
    ops["pd Identity"] = lambda e: made(e, "id", lambda: T.Identity("close"))(e["inputs"]["df"])
    ops["nb modf"] = lambda e: made(e, "mf", lambda: T.ExternalFunction("numpy.modf", "close", ["a", "b"], pass_numpy=True))(e["inputs"]["df"])
    ops["nb cumsum"] = lambda e: made(e, "cs", lambda: T.ExternalFunction("numpy.cumsum", "open", "cs", pass_numpy=False))(e["inputs"]["df"])
    for name, (cols, out) in dict(one=("open", "same"), two=(["open", "high"], ["s1", "s2"]), swap=(["low", "vwap"], ["s1", "s2"]), first=(["high", "low"], "f"), raw=(["open", "x"], ["r1", "r2"])).items():
        ops[f"nb give {name}"] = lambda e, name=name, cols=cols, out=out: made(e, ("give", name), lambda: T.ExternalFunction(GIVE[name], cols, out, pass_numpy=name == "raw"))(e["inputs"]["df"])
    return ops


# functions that hand back what they were given
GIVE = dict(one=lambda a: a, two=lambda a, b: (a, b), swap=lambda a, b: (b, a), first=lambda a, b: a, raw=lambda a, b: (a, b))


@phase("features")
def features(ctx):
    ops = feature_ops()
    fresh = {}
    names = list(ops)

    def gen():
        for a in names:
            yield (a,)
            yield (a, a)
        for i, a in enumerate(names):
            for j, b in enumerate(names):
                if ctx.thorough or (i * 7 + j) % 6 == 0:
                    yield a, b

    def body(seq):
        ctx.state(seq)
        history(ctx, "features", feature_setup, ops, seq, fresh)
    ctx.run(gen(), body)


@phase("core_compiled", jit=True)
def core_compiled(ctx):
    ops = {k: v for k, v in feature_ops().items() if k.startswith("core") or k == "nb CUSUMTest"}
    fresh = {}

    def body(a):
        ctx.state(a)
        history(ctx, "compiled features", feature_setup, ops, (a, a), fresh)
    ctx.run(list(ops), body)


# ------------------------------------------------------------------ expressions and kits
@phase("expressions")
def expressions(ctx):
    def gen():
        L = expr.leaves()
        yield from L
        yield from expr.layer(L)
        yield from expr.pairs(L, L)

    def body(e):
        ctx.state(e)
        f = expr.build(e)
        for cached in (False, True):
            df = expr.frame()
            if cached:
                for part in (e,) + tuple(p for p in e[2:] if isinstance(p, tuple)):
                    df[expr.name(part)] = expr.values(part, expr.data())
            before = freeze(df), [df[c].name for c in df]
            cfg = json.dumps(f.to_config())
            rs = []
            for k in range(2):
                for b in ("nb", "pd"):
                    ctx.trace()
                    ctx.trans()
                    rs.append(freeze(ctx.call(f, df, cache=df if cached else None, backend=b)))
                    if (freeze(df), [df[c].name for c in df]) != before:
                        ctx.fail(f"evaluating {e} ({b}, cache {cached}) changed its input: columns {list(df.columns)}, names {[df[c].name for c in df]}")
                        return
            if rs[2:] != rs[:2]:
                ctx.fail(f"evaluating {e} twice gives different results")
            if json.dumps(f.to_config()) != cfg:
                ctx.fail(f"evaluating {e} changed its configuration")
            ctx.outcome(rs[0])
    ctx.run(gen(), body)


def kit_setup():
    from finmlkit.feature import transforms as T
    from finmlkit.feature.kit import Compose, Feature
    r, c = Feature(T.Return(1)), Feature(T.Identity("close"))
    m = c.rolling_mean(2)
    named = r - m
    named.name = "spread"
    comp = Feature(Compose(T.Return(1), T.SMA(2)))
    return dict(inputs=dict(df=expr.frame(), df3=expr.frame(4)), f=dict(r=r, c=c, m=m, spread=named, comp=comp, multi=Feature(T.TimeCues())))


def kit_ops():
    from finmlkit.feature.kit import Feature, FeatureKit
    K = lambda e, names, retain=(): FeatureKit([e["f"][n] for n in names], retain=list(retain))
    D = lambda e: e["inputs"]["df"]
    return {
        "build": lambda e: K(e, ["r", "c", "m", "spread", "comp"], ["volume"]).build(D(e)),
        "build_topo": lambda e: K(e, ["spread", "comp", "m", "c", "r"], ["close"]).build(D(e), order="topo"),
        "build_short": lambda e: K(e, ["comp", "r", "multi"]).build(e["inputs"]["df3"], backend="pd"),
        "eval_m": lambda e: e["f"]["m"](D(e)),
        "eval_spread": lambda e: e["f"]["spread"](D(e), cache=D(e)),
        "derive": lambda e: ((e["f"]["spread"].abs() + e["f"]["r"]) * 2).lag(1)(D(e), backend="pd"),
        "derive_named": lambda e: [(f.name, f.transform.output_name) for f in (e["f"]["spread"].rolling_mean(3), Feature.max(e["f"]["spread"], e["f"]["m"]), e["f"]["m"].clip(0, 1))],
        "rename_copy": lambda e: setattr(e["f"]["m"] + 0, "name", "other"),
        "config": lambda e: json.dumps(K(e, list(e["f"])).to_config()),
        "graph": lambda e: K(e, list(e["f"])).build_graph().visualize(),
        "order": lambda e: K(e, ["spread", "m", "comp", "c", "r"]).topological_order(),
        "reload": lambda e: FeatureKit.from_dict(json.loads(json.dumps(K(e, ["r", "m", "spread"]).to_config()))).build(D(e)),
    }


@phase("kits")
def kits(ctx):
    ops = kit_ops()
    fresh = {}

    def body(seq):
        ctx.state(seq)
        history(ctx, "feature kits", kit_setup, ops, seq, fresh)
    ctx.run(histories(list(ops), 4 if ctx.thorough else 3), body)
