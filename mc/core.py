"""Core of the bounded exhaustive explorer.

A *phase* enumerates a finite space of cases (input sequences, operation histories, fault points, iteration
orders).  For each case it runs the real code and compares every observable with a reference automaton.  A Ctx
collects the measured coverage: distinct automaton states, transitions (events fed to the automaton), and traces
(complete runs of the implementation compared with the automaton).
"""
import itertools
import math
import mmap
import os
import traceback

MAX_FAILS = 3
_FULL = 1 << 63


class Raised:
    """Outcome of a call to the implementation that raised."""
    def __init__(self, exc):
        self.exc = exc

    def __repr__(self):
        return f"raised {type(self.exc).__name__}: {str(self.exc)[:200]}"


class Stop(Exception):
    pass


class Expect(Exception):
    pass


def phase(name, jit=False, shards=None, threads=2):
    def deco(fn):
        fn.phase = dict(name=name, jit=jit, shards=shards, threads=threads)
        return fn
    return deco


class Ctx:
    def __init__(self, prop, name, tier, shard, nshards, only=None, progress=None, seed=0):
        self.prop, self.name, self.tier = prop, name, tier
        self.thorough = tier == "thorough"
        self.shard, self.nshards, self.only, self.seed = shard, nshards, only, seed
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.cases_run = 0
        self.outcomes = set()
        self.samples = []
        self.fails = []
        self.known = {}
        self.index = -1
        self.case = None
        self._index0 = 0
        self._mm = None
        self.capped = False
        if progress:
            with open(progress, "wb") as f:
                f.write(b"\0" * 8192)
            self._f = open(progress, "r+b")
            self._mm = mmap.mmap(self._f.fileno(), 8192)

    # ---- coverage ----
    def state(self, *key):
        self.states.add(hash((self.name,) + key) & (_FULL - 1))

    def trans(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, *key):
        self.outcomes.add(hash((self.name,) + key) & (_FULL - 1))

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def touch(self, note=""):
        """progress heartbeat, so that a hang is attributed to the case that hangs"""
        if self._mm is not None:
            b = (f"{self.name}|{self.index}|{self.cases_run}|{note}|" + repr(self.case))[:8000].encode("utf8", "replace")
            self._mm[0:len(b)] = b
            self._mm[len(b)] = 0

    # ---- verdicts ----
    def fail(self, msg, key=None, **detail):
        """A violation on the current case.  key names a *class of failing input with its exact wrong behaviour*;
        a key listed in known_findings.json is reported as KNOWN-FINDING instead."""
        if key is not None:
            from mc.known import is_known
            if is_known(self.prop, key):
                self.known.setdefault(key, dict(count=0, case=repr(self.case)[:600], msg=str(msg)[:600]))["count"] += 1
                return
        self.fails.append(dict(phase=self.name, index=self.index, case=repr(self.case)[:4000],
                               message=str(msg)[:3000], detail={k: repr(v)[:1500] for k, v in detail.items()}))
        if len(self.fails) >= MAX_FAILS:
            raise Stop()

    def expect(self, cond, msg, **detail):
        if not cond:
            self.fail(msg() if callable(msg) else msg, **detail)
        return bool(cond)

    def call(self, fn, *a, **k):
        try:
            return fn(*a, **k)
        except Exception as e:      # noqa: BLE001  (outcome of the implementation, judged by the caller)
            return Raised(e)

    # ---- enumeration ----
    def run(self, cases, body, group=None):
        """Enumerate `cases` (deterministic order) and run body(case) on those of this shard; group: cases with the same
        group(case) belong to the same shard (used where each group needs its own compilation)."""
        groups = {}
        for k, case in enumerate(cases):
            idx = self._index0 + k
            if self.only is not None:
                if idx != self.only:
                    continue
            elif (idx if group is None else groups.setdefault(group(case), len(groups))) % self.nshards != self.shard:
                continue
            self.index, self.case = idx, case
            self.cases_run += 1
            if self.cases_run & 15 == 1:
                self.touch()
            if self.cases_run <= 1 or (self.cases_run == 97):
                self.sample(dict(phase=self.name, index=idx, case=repr(case)[:400]))
            try:
                body(case)
            except Stop:
                raise
            except Exception:       # noqa: BLE001
                self.fail("unexpected exception while exploring the case:\n" + traceback.format_exc()[-2500:])
        try:
            self._index0 += k + 1
        except UnboundLocalError:
            pass


# ------------------------------------------------------------------ numeric comparison
def isnan(x):
    try:
        return x != x
    except Exception:
        return False


def close(a, b, rel=1e-9, ab=1e-12):
    a = float(a)
    b = float(b)
    if a != a or b != b:
        return (a != a) and (b != b)
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= max(ab, rel * max(abs(a), abs(b)))


def seq_close(xs, ys, rel=1e-9, ab=1e-12):
    xs = list(xs)
    ys = list(ys)
    return len(xs) == len(ys) and all(close(x, y, rel, ab) for x, y in zip(xs, ys))


def first_diff(xs, ys, rel=1e-9, ab=1e-12):
    xs = list(xs)
    ys = list(ys)
    if len(xs) != len(ys):
        return f"length {len(xs)} != expected {len(ys)}"
    for i, (x, y) in enumerate(zip(xs, ys)):
        if not close(x, y, rel, ab):
            return f"at {i}: {x!r} != expected {y!r}"
    return None


def seqs(alphabet, lo, hi):
    """all sequences over alphabet with lo <= length <= hi, shortest first"""
    for n in range(lo, hi + 1):
        yield from itertools.product(alphabet, repeat=n)


def nondecreasing(n, gaps, start=0):
    """all timestamp vectors of length n whose first element is start and whose gaps are from `gaps`"""
    for g in itertools.product(gaps, repeat=n - 1):
        out = [start]
        for d in g:
            out.append(out[-1] + d)
        yield tuple(out)
