"""C37: the download pipeline stores exactly the trades of every month that arrived intact, whatever fails, in whatever order months finish."""
import contextlib
import hashlib
import importlib.util
import io
import itertools
import os
import pickle
import queue
import shutil
import sys
import threading
import types
import zipfile

import numpy as np
import pandas as pd

from mc.core import Raised, phase

BOUNDS = ("one symbol, two months: every pair of 7 server behaviours of the archive (complete, missing, cut off once / always, altered once / always, refused) x 3 of the checksum, followed by a run against a "
          "healthy server; processing: up to 3 months (thorough: 4), every order of completion x every subset of months with a failing archive, checksum or write x date filters; every history of up to 3 "
          "runs over 6 date ranges of 4 months, with a failing write in the last run; 2 other markets and symbols beside it; every history of 2 runs (of 3 on 3 markets) over 6 neighbouring symbols and markets; the command line over 5 ticker lists, 4 markets, 4 pairs of dates; archives with and without header, 5-7 columns, 6 spellings of flags, 4 row orders; "
          "all date ranges of 3 years and all spellings of dates and markets")
ASSUMPTIONS = ["the process pool is replaced by one that finishes tasks in every order; requests is replaced by a scripted server", "an archive altered in transit is recognised by its checksum only"]
MONTHS = ["2021-11", "2021-12", "2022-01", "2022-02"]


# ------------------------------------------------------------------ the world around the script
class Down(Exception):
    pass


class Response:
    def __init__(self, status, chunks, total):
        self.status_code, self.chunks, self.headers = status, chunks, {"content-length": str(total)}
        self.ok = status < 400
        self.content = b"".join(c for c in chunks if not isinstance(c, Exception))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def raise_for_status(self):
        if self.status_code >= 400:
            raise Down(f"status {self.status_code}")

    def iter_content(self, chunk_size=1):
        for c in self.chunks:
            if isinstance(c, Exception):
                raise c
            yield c


class Server:
    """files[url] = bytes; script[url] = behaviours of the coming requests, the last one repeats"""

    def __init__(self):
        self.files, self.script, self.log = {}, {}, []

    def get(self, url, **kw):
        name = url.rsplit("/", 1)[1]
        self.log.append(url)
        todo = self.script.get(name, ["ok"])
        how = todo.pop(0) if len(todo) > 1 else todo[0]
        data = self.files.get(url)
        if how == "404" or data is None:
            return Response(404, [b"<html>not found</html>"], 22)
        if how == "500":
            return Response(500, [b"<html>sorry</html>"], 18)
        if how == "refuse":
            raise Down("connection refused")
        if how == "cut":
            return Response(200, [data[:len(data) // 2], Down("connection reset")], len(data))
        if how == "bad":
            k = len(data) // 2
            return Response(200, [data[:k], bytes([data[k] ^ 1]) + data[k + 1:]], len(data))
        return Response(200, [data[:7], b"", data[7:]], len(data))


class Inline:
    """a pool whose tasks finish in the order given by ORDER"""
    ORDER = None

    def __init__(self, *a, **k):
        self.tasks = []

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        self.tasks.append((func, args, kwds or {}, callback, error_callback))

    def close(self):
        pass

    terminate = close

    def join(self):
        todo, self.tasks = self.tasks, []
        order = [i for i in (Inline.ORDER or range(len(todo))) if i < len(todo)]
        order += [i for i in range(len(todo)) if i not in order]
        for i in order:
            func, args, kwds, cb, eb = todo[i]
            try:
                r = pickle.loads(pickle.dumps(func(*args, **kwds)))
            except Exception as e:          # noqa: BLE001
                if eb:
                    eb(e)
                continue
            if cb:
                cb(r)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.join()


class Pickling(queue.Queue):
    def put(self, x, *a, **k):
        super().put(pickle.dumps(x), *a, **k)

    def get(self, *a, **k):
        return pickle.loads(super().get(*a, **k))


class Daemon(threading.Thread):
    """a thread that cannot keep the check from ending"""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.daemon = True

    def join(self, timeout=None):
        super().join(20 if timeout is None else timeout)
        if self.is_alive() and timeout is None:
            raise TimeoutError("the thread does not end")


class Bar:
    def __init__(self, it=None, **kw):
        self.it = it

    def __iter__(self):
        return iter(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def update(self, *a, **k):
        pass

    set_postfix = close = set_description = update


def script():
    if "binance2h5" in sys.modules:
        return sys.modules["binance2h5"]
    import finmlkit
    fake = types.ModuleType("requests")
    fake.Session = type("Session", (), dict(get=lambda self, url, **k: SERVER[0].get(url, **k), close=lambda s: None, mount=lambda *a: None, __enter__=lambda s: s, __exit__=lambda *a: False))
    fake.get = lambda url, **k: SERVER[0].get(url, **k)
    fake.exceptions = types.SimpleNamespace(RequestException=Down, HTTPError=Down, ConnectionError=Down)
    fake.RequestException = fake.HTTPError = Down
    sys.modules["requests"] = fake
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(finmlkit.__file__))), "scripts", "binance2h5.py")
    spec = importlib.util.spec_from_file_location("binance2h5", path)
    m = importlib.util.module_from_spec(spec)
    sys.modules["binance2h5"] = m
    spec.loader.exec_module(m)
    import multiprocessing
    REAL[:] = [multiprocessing.Pool, multiprocessing.Queue]
    m.tqdm = Bar
    m.Pool = Inline
    m.Thread = Daemon
    multiprocessing.Pool = Inline
    multiprocessing.Queue = Pickling
    import time
    time.sleep = lambda s: None                       # a back-off between attempts is allowed
    threading.excepthook = lambda a: None
    from finmlkit.bar.data_model import TradesData
    real = TradesData.save_h5

    def save(self, path, *a, **k):
        if FAIL[0] and pd.to_datetime(self.data["timestamp"].iloc[0], unit="ns").strftime("%Y-%m") in FAIL[0]:
            raise OSError(28, "No space left on device")
        return real(self, path, *a, **k)
    TradesData.save_h5 = save
    return m


SERVER, FAIL, REAL = [None], [()], []


@contextlib.contextmanager
def world(ctx, name):
    m = script()
    d = os.path.join(os.environ["MC_SCRATCH"], f"{name}{os.getpid()}_{ctx.index}")
    os.makedirs(d)
    SERVER[0], FAIL[0], Inline.ORDER = Server(), (), None
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            yield m, d, SERVER[0]
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ data
def rows(month, version=0):
    """(id, price, qty, time ms, buyer is maker); the first two are one split order, the last two share a time"""
    t = pd.Timestamp(month + "-01").value // 10 ** 6 + 1
    k = MONTHS.index(month) if month in MONTHS else 0
    n = 100 * k + 1
    return [(n, 100.0 + k, 1.5, t, False), (n + 1, 100.0 + k, 0.25, t, False), (n + 2, 101.5 + version, 2.0, t + 1200, True), (n + 3, 99.25, 4.0, t + 3100, True), (n + 4, 100.5, 0.5, t + 3100, False)]


def merged(rs):
    """the trades a store should hold: rows by id, consecutive rows of one time and price are one trade"""
    out = []
    for i, p, q, t, maker in sorted(rs):
        if out and out[-1][0] == t * 10 ** 6 and out[-1][1] == p:
            out[-1][2] += q
        else:
            out.append([t * 10 ** 6, p, q, -1 if maker else 1])
    return [tuple(o) for o in out]


def csv(rs, header=False, ncol=7, flag=str, crlf=False):
    names = ["id", "price", "qty", "quote_qty", "time", "is_buyer_maker", "is_best_match"][:ncol]
    lines = [",".join(names)] if header else []
    for i, p, q, t, maker in rs:
        lines.append(",".join([str(i), f"{p:.8f}", f"{q:.8f}", f"{p * q:.8f}", str(t), flag(maker), flag(True)][:ncol]))
    return ("\r\n" if crlf else "\n").join(lines) + "\n"


def archive(month, text, symbol="AAAUSDT"):
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w", zipfile.ZIP_DEFLATED) as z:
        info = zipfile.ZipInfo(f"{symbol}-trades-{month}.csv", (2021, 1, 1, 0, 0, 0))
        z.writestr(info, text)
    return b.getvalue()


def base(market, symbol, month):
    p = "spot" if market == "spot" else f"futures/{market}"
    return f"https://data.binance.vision/data/{p}/monthly/trades/{symbol}/{symbol}-trades-{month}.zip"


def publish(server, months, market="spot", symbol="AAAUSDT", version=0, header=False):
    for mth in months:
        z = archive(mth, csv(rows(mth, version), header=header), symbol)
        server.files[base(market, symbol, mth)] = z
        server.files[base(market, symbol, mth) + ".CHECKSUM"] = f"{hashlib.sha256(z).hexdigest()}  {symbol}-trades-{mth}.zip\n".encode()


def stored(path):
    """month -> trades; month -> sum of the volume of its 1-s bars"""
    if not os.path.exists(path):
        return {}, {}
    with pd.HDFStore(path, mode="r") as st:
        keys = st.keys()
        tr = {k[8:]: [(int(t), float(p), float(a), int(s)) for t, p, a, s in st[k][["timestamp", "price", "amount", "side"]].itertuples(index=False)] for k in keys if k.startswith("/trades/")}
        kl = {k[8:]: float(st[k]["volume"].sum()) for k in keys if k.startswith("/klines/")}
    return tr, kl


def listing(d):
    p = os.path.join(d, "h5")
    return {n: stored(os.path.join(p, n)) for n in sorted(os.listdir(p))} if os.path.isdir(p) else {}


def month(m, s):
    return m.Month(int(s[:4]), int(s[5:]))


def yymm(s):
    return s[2:4] + s[5:]


def run(ctx, m, d, a, b, symbol="AAAUSDT", market="spot", klines=True):
    return ctx.call(m.orchestrate_symbol, symbol, market, month(m, a), month(m, b), d, 2, klines)


# ------------------------------------------------------------------ downloads
ZIP = {"ok": ["ok"], "404": ["404"], "cut1": ["cut", "ok"], "cut": ["cut"], "bad1": ["bad", "ok"], "bad": ["bad"], "500": ["500"]}
CHK = {"ok": ["ok"], "404": ["404"], "cut": ["cut"]}


def check_store(ctx, d, what, want, months, label="SPOT"):
    """exactly the months in want are stored (each intact, with bars of its volume) in the one file of their range"""
    files = listing(d)
    if not months:
        if any(tr for tr, _ in files.values()):
            ctx.fail(f"{what}: nothing arrived but the store holds {list(files)}")
            return False
        return True
    name = f"AAAUSDT_{label}_{yymm(months[0])}-{yymm(months[-1])}.h5"
    tr, kl = files.get(name, ({}, {}))
    if want and name not in files:
        ctx.fail(f"{what}: no file {name}; there are {list(files)}")
        return False
    for mth, rs in want.items():
        if tr.get(mth) != merged(rs):
            ctx.fail(f"{what}: month {mth} holds {tr.get(mth)}; expected {merged(rs)}")
            return False
        if abs(kl.get(mth, -1.0) - sum(r[2] for r in rs)) > 1e-5:
            ctx.fail(f"{what}: bars of month {mth} have volume {kl.get(mth)}, trades {sum(r[2] for r in rs)}")
            return False
    extra = [k for k in tr if k not in want]
    if extra:
        ctx.fail(f"{what}: months {extra} are stored although no intact archive of them exists: {[tr[k] for k in extra]}")
        return False
    return True


@phase("downloads")
def downloads(ctx):
    def gen():
        one = list(itertools.product(ZIP, CHK))
        for a in one:
            for b in one if ctx.thorough else [("ok", "ok"), ("bad", "404"), ("cut", "cut"), a]:
                yield (a, b)

    def body(case):
        ms = MONTHS[:2]
        with world(ctx, "d") as (m, d, server):
            publish(server, ms)
            for mth, (z, c) in zip(ms, case):
                server.script[f"AAAUSDT-trades-{mth}.zip"] = list(ZIP[z])
                server.script[f"AAAUSDT-trades-{mth}.zip.CHECKSUM"] = list(CHK[c])
            ctx.state(case)
            r = run(ctx, m, d, ms[0], ms[1])
            ctx.trace()
            ctx.trans(len(server.log))
            raw = os.path.join(d, "raw", "spot", "trades", "AAAUSDT")
            have, good = [], {}
            for mth in ms:
                p = os.path.join(raw, f"AAAUSDT-trades-{mth}.zip")
                if os.path.exists(p):
                    have.append(mth)
                    with open(p, "rb") as f:
                        data = f.read()
                    if data == server.files[base("spot", "AAAUSDT", mth)]:
                        good[mth] = rows(mth)
                    elif len(data) != len(server.files[base("spot", "AAAUSDT", mth)]):
                        ctx.fail(f"{case}: an unfinished download of {len(data)} bytes is left as {os.path.basename(p)}")
                        return
            ctx.outcome(tuple(have), tuple(good), isinstance(r, Raised))
            for mth, (z, c) in zip(ms, case):
                if not isinstance(r, Raised) and z in ("ok", "cut1", "bad1") and (z != "bad1" or c == "ok") and mth not in good:
                    ctx.fail(f"{case}: month {mth} was served intact ({z}, checksum {c}) but did not arrive")
                    return
            if not isinstance(r, Raised) and not check_store(ctx, d, f"{case}", good, have):
                return
            server.script.clear()
            r = run(ctx, m, d, ms[0], ms[1])
            ctx.trace()
            ctx.trans()
            if isinstance(r, Raised):
                ctx.fail(f"{case}: the next run against a healthy server fails with {r.exc!r}")
                return
            check_store(ctx, d, f"{case}, then a run against a healthy server", {x: rows(x) for x in ms}, ms)
    ctx.run(gen(), body)


# ------------------------------------------------------------------ processing order and failures
@phase("orders")
def orders(ctx):
    def gen():
        for n in (1, 2, 3, 4) if ctx.thorough else (1, 2, 3):
            for order in itertools.permutations(range(n)):
                for bad in itertools.product(("ok", "zip", "sum", "save"), repeat=n):
                    if n < 4 or sum(b != "ok" for b in bad) <= 2:
                        yield order, bad, None
        for order in itertools.permutations(range(3)):
            for k in range(1, 4):
                for dates in itertools.combinations(range(3), k):
                    yield order, ("ok",) * 3, dates

    def body(case):
        order, bad, dates = case
        n = len(order)
        with world(ctx, "o") as (m, d, server):
            raw = os.path.join(d, "raw")
            os.makedirs(raw)
            for k in range(n):
                z = archive(MONTHS[k], csv(rows(MONTHS[k])))
                p = os.path.join(raw, f"AAAUSDT-trades-{MONTHS[k]}.zip")
                with open(p, "wb") as f:
                    f.write(z[:-30] if bad[k] == "zip" else z)
                if bad[k] == "sum" or k % 2 and bad[k] != "zip":
                    h = hashlib.md5(z).hexdigest() if k == 1 else hashlib.sha256(z).hexdigest().upper()
                    with open(p + ".CHECKSUM", "w") as f:
                        other = lambda c: "0" if c != "0" else "1"
                        wrong = h[:-1] + other(h[-1]) if (k + order[0]) % 2 else other(h[0]) + h[1:]
                        f.write(wrong if bad[k] == "sum" else h + "  " + os.path.basename(p) + "\n")
            Inline.ORDER = order
            FAIL[0] = [MONTHS[k] for k in range(n) if bad[k] == "save"]
            path = os.path.join(d, "out.h5")
            ctx.state(case)
            sel = [MONTHS[k] for k in range(n)] if dates is None else [MONTHS[k] for k in dates]
            r = ctx.call(m.process_all, raw, path, None, sel if dates is not None or n % 2 else None, 2)
            ctx.trace()
            ctx.trans(n)
            if isinstance(r, Raised) and all(b == "ok" for b in bad):
                ctx.fail(f"processing {case} fails with {r.exc!r}")
                return
            tr, _ = stored(path)
            want = {MONTHS[k]: merged(rows(MONTHS[k])) for k in range(n) if bad[k] == "ok" and MONTHS[k] in sel}
            ctx.outcome(tuple(tr))
            for k in sorted(set(tr) | set(want)):
                if tr.get(k) != want.get(k):
                    ctx.fail(f"finished in order {order}, months {bad}, dates {dates}: month {k} holds {tr.get(k)}; expected {want.get(k)}")
                    return
    ctx.run(gen(), body)


@phase("processes", shards=1)
def processes(ctx):
    """the same with the real process pool and queue"""
    def body(case):
        n, bad = case
        with world(ctx, "p") as (m, d, server):
            import multiprocessing
            m.Pool, multiprocessing.Pool, multiprocessing.Queue = REAL[0], REAL[0], REAL[1]
            try:
                publish(server, MONTHS[:n])
                FAIL[0] = [MONTHS[0]] if bad == "save" else ()
                if bad == "sum":
                    server.files[base("spot", "AAAUSDT", MONTHS[0]) + ".CHECKSUM"] = b"0" * 64 + b"  x.zip"
                r = run(ctx, m, d, MONTHS[0], MONTHS[n - 1])
            finally:
                m.Pool, multiprocessing.Pool, multiprocessing.Queue = Inline, Inline, Pickling
            ctx.state(case)
            ctx.trace()
            ctx.trans(n)
            if isinstance(r, Raised):
                ctx.fail(f"{case}: {r.exc!r}")
                return
            check_store(ctx, d, f"real processes {case}", {x: rows(x) for x in MONTHS[:n] if bad == "ok" or x != MONTHS[0]}, MONTHS[:n])
    ctx.run([(2, "ok"), (3, "ok"), (3, "save"), (3, "sum")], body)


# ------------------------------------------------------------------ histories of runs
RANGES = [(0, 0), (0, 1), (0, 2), (1, 2), (1, 3), (0, 3)]


@phase("histories")
def histories(ctx):
    def gen():
        for k in (1, 2, 3):
            for seq in itertools.product(range(len(RANGES)), repeat=k):
                for fail in (None, *range(RANGES[seq[-1]][0], RANGES[seq[-1]][1] + 1)):
                    if k < 3 or ctx.thorough or (fail is not None and (seq[0] in (1, 2) and seq[2] in (2, 5))):
                        yield seq, fail

    def body(case):
        seq, fail = case
        with world(ctx, "h") as (m, d, server):
            publish(server, MONTHS)
            publish(server, MONTHS[:2], symbol="AAAUSD")
            publish(server, MONTHS[:1], market="um", version=1, header=True)
            if len(seq) == 2:
                for sym, mk in (("AAAUSD", "spot"), ("AAAUSDT", "um")):
                    r = run(ctx, m, d, MONTHS[0], MONTHS[1], sym, mk)
                    if isinstance(r, Raised):
                        ctx.fail(f"run of {sym} {mk} fails with {r.exc!r}")
                        return
            ctx.state(case)
            for i, k in enumerate(seq):
                a, b = RANGES[k]
                before = listing(d)
                last = i == len(seq) - 1
                FAIL[0] = [MONTHS[fail]] if last and fail is not None else ()
                r = run(ctx, m, d, MONTHS[a], MONTHS[b], klines=bool((i + a) % 2 or last))
                ctx.trace()
                ctx.trans()
                after = listing(d)
                where = f"runs over {[RANGES[x] for x in seq[:i + 1]]}, write of {FAIL[0]} failing"
                if isinstance(r, Raised) and not FAIL[0]:
                    ctx.fail(f"{where}: {r.exc!r}")
                    return
                for name, (tr, kl) in before.items():
                    mine = name.startswith("AAAUSDT_SPOT_")
                    for mth, x in tr.items():
                        if not any((n == name or mine and n.startswith("AAAUSDT_SPOT_")) and t.get(mth) == x and mth in kk for n, (t, kk) in after.items()):
                            ctx.fail(f"{where}: month {mth} of {name} is in no file afterwards: { {n: list(t) for n, (t, _) in after.items()} }")
                            return
                for n, (t, _) in after.items():
                    lo, hi = n[-12:-8], n[-7:-3]
                    if any(not lo <= yymm(x) <= hi for x in t):
                        ctx.fail(f"{where}: {n} holds months {list(t)}")
                        return
                name = f"AAAUSDT_SPOT_{yymm(MONTHS[a])}-{yymm(MONTHS[b])}.h5"
                want = {MONTHS[j]: rows(MONTHS[j]) for j in range(a, b + 1) if MONTHS[j] not in FAIL[0] or MONTHS[j] in before.get(name, ({},))[0]}
                tr, kl = after.get(name, ({}, {}))
                ctx.outcome(tuple(after), tuple(tr))
                for mth, rs in want.items():
                    if tr.get(mth) != merged(rs) or abs(kl.get(mth, -1.0) - sum(r[2] for r in rs)) > 1e-5:
                        ctx.fail(f"{where}: month {mth} of {name} holds {tr.get(mth)} and bars of volume {kl.get(mth)}; expected {merged(rs)}")
                        return
            if len(seq) == 2:
                tr, kl = listing(d).get(f"AAAUSDT_PERPum_{yymm(MONTHS[0])}-{yymm(MONTHS[0])}.h5", ({}, {}))
                ctx.expect(tr == {MONTHS[0]: merged(rows(MONTHS[0], 1))} and list(kl) == [MONTHS[0]], f"futures month with header: {tr} {kl}")
    ctx.run(gen(), body)


@phase("markets")
def markets(ctx):
    """every history of runs over neighbouring symbols and markets: each has its own file and its own trades"""
    who = [("AAAUSDT", "um"), ("AAAUSDT", "cm"), ("AAAUSDT", "spot"), ("AAAUSD", "um"), ("AAUSDT", "um"), ("AAAUSDT_PERP", "cm")]
    spans = [(0, 0), (0, 1), (1, 1)]

    def gen():
        steps = list(itertools.product(range(len(who)), range(len(spans))))
        yield from itertools.product(steps, repeat=2)
        for a, b, c in itertools.product(range(3), repeat=3):
            for r in itertools.product((0, 1), repeat=3):
                yield (a, r[0]), (b, r[1]), (c, r[2])

    def body(case):
        with world(ctx, "m") as (m, d, server):
            for v, (sym, mk) in enumerate(who):
                publish(server, MONTHS[:2], market=mk, symbol=sym, version=v, header=mk == "um")
            ctx.state(case)
            have = {}
            for w, k in case:
                sym, mk = who[w]
                a, b = spans[k]
                r = run(ctx, m, d, MONTHS[a], MONTHS[b], sym, mk)
                ctx.trace()
                ctx.trans()
                if isinstance(r, Raised):
                    return ctx.fail(f"runs {case}: {r.exc!r}")
                have.setdefault(w, []).append((a, b))
            files = listing(d)
            ctx.outcome(tuple(files))
            want = {}
            for w, rs in have.items():
                sym, mk = who[w]
                lab = {"um": "PERPum", "cm": "PERPcm", "spot": "SPOT"}[mk]
                cur = []
                for a, b in rs:
                    if (a, b) not in cur:           # a file of the full range is never replaced, a shorter one is continued
                        cur = [x for x in cur if not (x[0] == a and x[1] < b)] + [(a, b)]
                for a, b in cur:
                    want[f"{sym}_{lab}_{yymm(MONTHS[a])}-{yymm(MONTHS[b])}.h5"] = {MONTHS[j]: merged(rows(MONTHS[j], w)) for j in range(a, b + 1)}
            got = {n: t for n, (t, _) in files.items()}
            if not all(got.get(n) == t for n, t in want.items()):
                return ctx.fail(f"runs {[(who[w], spans[k]) for w, k in case]}: files {got}; expected {want}")
            if set(got) - set(want):
                return ctx.fail(f"runs {[(who[w], spans[k]) for w, k in case]}: unexpected files {sorted(set(got) - set(want))}")
    ctx.run(gen(), body)


@phase("commands")
def commands(ctx):
    """the command line: every list of tickers, spelling of the market and of the dates, with and without rebuilding bars"""
    def gen():
        for tick in (("AAAUSDT",), ("aaausdt",), ("AAAUSDT", "BBBUSDT"), ("bbbusdt", "AaaUsdt"), ("AAAUSDT", "CCCUSDT", "BBBUSDT")):
            for mk in ("spot", "UM", "perpcm", "usdsm"):
                for a, b in (("2021-11", "2021-12"), ("2021_11", "2021-11"), ("2021/11", "2021-11"), ("2021-12", "2022"), ("202111", "2022.1")):
                    for ow in (None, "0", "1"):
                        if "_" not in a and "/" not in a or ow is None:
                            yield tick, mk, a, b, ow

    def body(case):
        tick, mk, a, b, ow = case
        path = {"spot": "spot", "UM": "um", "perpcm": "cm", "usdsm": "um"}[mk]
        lab = {"spot": "SPOT", "um": "PERPum", "cm": "PERPcm"}[path]
        with world(ctx, "c") as (m, d, server):
            for v, sym in enumerate(("AAAUSDT", "BBBUSDT")):
                publish(server, MONTHS[:3], market=path, symbol=sym, version=v)
            argv = sys.argv
            sys.argv = ["binance2h5.py", "--market", mk, "--tickers", *tick, "--start", a, "--end", b, "--workdir", d] + (["--overwrite-klines", ow] if ow else [])
            try:
                r = ctx.call(m.main)
            except SystemExit as e:
                r = Raised(RuntimeError(f"exit {e.code}"))
            finally:
                sys.argv = argv
            ctx.state(case)
            ctx.trace()
            ctx.trans(len(tick))
            ym = lambda s: 12 * int(s[:4]) + int(s[4:].lstrip("-/.") or 1) - 1
            if "_" in a:
                return ctx.expect(isinstance(r, Raised), f"command {case}: start {a} is not a date but {listing(d)}")
            if isinstance(r, Raised):
                return ctx.fail(f"command {case}: {r.exc!r}")
            mths = [x for x in MONTHS[:3] if ym(a) <= ym(x) <= ym(b)]
            want = {f"{s.upper()}_{lab}_{yymm(mths[0])}-{yymm(mths[-1])}.h5": {x: merged(rows(x, v)) for x in mths} for v, s in enumerate(("AAAUSDT", "BBBUSDT")) if s in [t.upper() for t in tick]}
            got = {n: t for n, (t, kl) in listing(d).items() if set(kl) == set(t)}
            ctx.outcome(tuple(got))
            ctx.expect(got == want, f"command {case} stores {got}; expected {want}")
    ctx.run(gen(), body)


# ------------------------------------------------------------------ archives
FLAGS = {"True": str, "true": lambda b: str(b).lower(), "TRUE": lambda b: str(b).upper(), "1": lambda b: str(int(b)), "t": lambda b: "t" if b else "f", "yes": lambda b: "yes" if b else "no"}


@phase("archives")
def archives(ctx):
    def gen():
        for header in (False, True):
            for ncol in (5, 6, 7):
                for flag in FLAGS if ncol > 5 else ["True"]:
                    for order in ("sorted", "reversed", "swapped", "alltrue", "one"):
                        for crlf in (False, True):
                            for us in (1, 1000):            # Binance changed from milliseconds to microseconds
                                yield header, ncol, flag, order, crlf, us

    def body(case):
        header, ncol, flag, order, crlf, us = case
        rs = rows("2021-12")
        rs = {"sorted": rs, "reversed": rs[::-1], "swapped": [rs[2], rs[0], rs[4], rs[1], rs[3]], "alltrue": [r[:4] + (True,) for r in rs], "one": rs[:1]}[order]
        as_us = [r[:3] + (r[3] * us + us // 2,) + r[4:] for r in rs]
        with world(ctx, "z") as (m, d, server):
            p = os.path.join(d, "x-trades-2021-12.zip")
            with open(p, "wb") as f:
                f.write(archive("2021-12", csv(as_us, header, ncol, FLAGS[flag], crlf)))
            ctx.state(case)
            df = ctx.call(m.load_csv_from_zip, p)
            ctx.trace()
            ctx.trans()
            if ncol < 6:
                ctx.expect(isinstance(df, Raised), f"an archive without flags is read as {df!r}")
                return
            if isinstance(df, Raised):
                ctx.fail(f"archive {case} cannot be read: {df.exc!r}")
                return
            got = sorted((int(r.id), float(r.price), float(r.qty), int(r.time), bool(r.is_buyer_maker)) for r in df.itertuples())
            ctx.outcome(tuple(got))
            ctx.expect(got == sorted(as_us), f"archive {case} is read as {got}; expected {sorted(as_us)}")
            ctx.expect(df.time.is_monotonic_increasing and list(df.index) == list(range(len(rs))), f"archive {case}: rows are not in order of time: {df.time.tolist()}")
            r = ctx.call(m._process_task, p, None, None)
            if isinstance(r, Raised):
                ctx.fail(f"archive {case} cannot be processed: {r.exc!r}")
                return
            want = [(t + 500_000 * (us > 1), *x) for t, *x in merged(rs)]
            got = [tuple(x) for x in r[0].data[["timestamp", "price", "amount", "side"]].itertuples(index=False)]
            ctx.expect(r[1] == "2021-12" and [(int(a), float(b), float(c), int(e)) for a, b, c, e in got] == want, f"archive {case} gives trades {got}; expected {want}")
    ctx.run(gen(), body)


# ------------------------------------------------------------------ names and ranges
@phase("names")
def names(ctx):
    def gen():
        ms = [(y, k) for y in (2019, 2020, 2021) for k in range(1, 13)]
        for a in ms:
            for b in ms:
                yield "range", a, b
        for y in (1999, 2020, 2100):
            for k in range(0, 15):
                for fmt in ("{y}-{k}", "{y}-{k:02d}", "{y}/{k:02d}", "{y}.{k}", "{y}{k:02d}", " {y}-{k:02d} ", "{y}", "{y}-", "{k:02d}-{y}", "x{y}"):
                    yield "date", fmt.format(y=y, k=k), None
        for s in ("spot", "SPOT", " Spot", "um", "UM", "usdm", "perp_um", "PERPum", "cm", "coinm", "PERPcm", "x", "", "futures"):
            yield "market", s, None

    def body(case):
        kind, a, b = case
        with world(ctx, "n") as (m, d, server):
            ctx.state(case)
            ctx.trace()
            ctx.trans()
            if kind == "range":
                r = ctx.call(m.month_range, m.Month(*a), m.Month(*b))
                if b < a:
                    ctx.expect(isinstance(r, Raised), f"range {a} to {b} is {r!r}")
                    return
                want = [(y, k) for y in range(a[0], b[0] + 1) for k in range(1, 13) if a <= (y, k) <= b]
                got = r if isinstance(r, Raised) else [(x.year, x.month) for x in r]
                ctx.outcome(len(want))
                ctx.expect(got == want, f"months {a} to {b} are {got}")
                for x, (y, k) in zip(r, want):
                    ctx.expect(x.ym() == f"{y}-{k:02d}" and x.yymm() == f"{y % 100:02d}{k:02d}", f"month {(y, k)} is {x.ym()} {x.yymm()}")
            elif kind == "date":
                import re
                r = ctx.call(m.parse_ym, a)
                s = a.strip()
                k = re.fullmatch(r"(\d{4})(?:[-/.]?(\d{1,2}))?", s)
                want = (int(k[1]), int(k[2] or 1)) if k and 1 <= int(k[2] or 1) <= 12 else None
                got = None if isinstance(r, Raised) else (r.year, r.month)
                ctx.outcome(want is None)
                ctx.expect(got == want, f"date {a!r} is read as {got}; expected {want}")
            else:
                s = a.strip().lower()
                want = {"spot": ("SPOT", "spot"), "um": ("PERPum", "um"), "usdm": ("PERPum", "um"), "perp_um": ("PERPum", "um"), "perpum": ("PERPum", "um"), "cm": ("PERPcm", "cm"), "coinm": ("PERPcm", "cm"),
                        "perpcm": ("PERPcm", "cm")}.get(s)
                r, p = ctx.call(m.market_label, a), ctx.call(m.market_path, a)
                got = None if isinstance(r, Raised) and isinstance(p, Raised) else (r, p)
                ctx.outcome(want)
                ctx.expect(got == want, f"market {a!r} is {got}")
                if want:
                    u = ctx.call(m.build_urls, a, "AAAUSDT", m.Month(2021, 3))
                    ctx.expect(u == (base(want[1], "AAAUSDT", "2021-03"), base(want[1], "AAAUSDT", "2021-03") + ".CHECKSUM"), f"addresses of {a}: {u}")
    ctx.run(gen(), body)
