"""Driver: runs every phase of one check in worker processes, merges coverage, writes evidence and the verdict."""
import argparse
import ast
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORES = min(8, os.cpu_count() or 1)
HANG = {"quick": 200, "thorough": 600}
FAILFAST = bool(os.environ.get("MC_FAILFAST"))      # development: stop all workers at the first violation
if FAILFAST:
    HANG["quick"] = 60


def phases_of(prop):
    """(name, options) of the phases of a check, read without importing the code under test"""
    src = open(os.path.join(VERIF, "mc", "checks", prop.lower() + ".py")).read()
    res, meta = [], {}
    tree = ast.parse(src)
    for node in tree.body:
        if isinstance(node, ast.FunctionDef):
            for d in node.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "phase":
                    opts = dict(jit=False, shards=None, threads=2, tiers=None)
                    opts.update({k.arg: ast.literal_eval(k.value) for k in d.keywords})
                    res.append((ast.literal_eval(d.args[0]), opts))
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and \
                node.targets[0].id in ("LEVEL", "ASSUMPTIONS", "BOUNDS"):
            meta[node.targets[0].id] = ast.literal_eval(node.value)
    return res, meta


def launch(spec, opts, scratch):
    env = dict(os.environ)
    env["FMK_CONSOLE_LOGGER_LEVEL"] = "ERROR"
    env["OMP_NUM_THREADS"] = env["OPENBLAS_NUM_THREADS"] = "1"
    env["TMPDIR"] = scratch
    env["HOME"] = scratch
    env["MC_SCRATCH"] = scratch
    env.pop("TQDM_DISABLE", None)
    env["TQDM_DISABLE"] = "1"
    if opts["jit"]:
        env.pop("NUMBA_DISABLE_JIT", None)
        env["NUMBA_NUM_THREADS"] = str(opts["threads"])
    else:
        env["NUMBA_DISABLE_JIT"] = "1"
    log = open(spec["out"] + ".log", "wb")
    p = subprocess.Popen([sys.executable, "-m", "mc.worker", json.dumps(spec)], cwd=scratch, env=env,
                         stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
    log.close()
    return p


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def read_progress(path):
    try:
        b = open(path, "rb").read()
        return b.split(b"\0", 1)[0].decode("utf8", "replace")
    except OSError:
        return ""


def explore(prop, tier, seed, only_phase=None, only=None):
    phases, meta = phases_of(prop)
    scratch = tempfile.mkdtemp(prefix=f"mc_{prop}_")
    jobs = []
    if only_phase is not None:
        opts = dict(phases)[only_phase]
        jobs.append(([only_phase], opts, 0, 1))
    else:
        jit = [(n, o) for n, o in phases if o["jit"] and (not o["tiers"] or tier in o["tiers"])]
        nojit = [(n, o) for n, o in phases if not o["jit"] and (not o["tiers"] or tier in o["tiers"])]
        for n, o in jit:                                    # longest start-up first
            for s in range(o["shards"] or 1):
                jobs.append(([n], o, s, o["shards"] or 1))
        single = [(n, o) for n, o in nojit if o["shards"]]
        for n, o in single:
            for s in range(o["shards"]):
                jobs.append(([n], o, s, o["shards"]))
        group = [(n, o) for n, o in nojit if not o["shards"]]
        if group:
            for s in range(CORES):
                jobs.append(([n for n, _ in group], group[0][1], s, CORES))
    results, running, crashes = [], [], []
    t0 = time.time()
    pending = list(enumerate(jobs))
    try:
        while pending or running:
            while pending and len(running) < CORES + 2:
                k, (names, opts, s, ns) = pending.pop(0)
                d = os.path.join(scratch, f"w{k}")
                os.makedirs(d)
                spec = dict(prop=prop, phases=names, tier=tier, shard=s, nshards=ns, only=only, seed=seed,
                            out=os.path.join(scratch, f"out{k}.json"), progress=os.path.join(scratch, f"prog{k}"))
                running.append(dict(p=launch(spec, opts, d), spec=spec, last="", t=time.time(), names=names))
            time.sleep(0.05)
            for r in list(running):
                if r["p"].poll() is None:
                    pr = read_progress(r["spec"]["progress"])
                    if pr != r["last"]:
                        r["last"], r["t"] = pr, time.time()
                    elif time.time() - r["t"] > HANG[tier]:
                        kill(r["p"])
                        running.remove(r)
                        crashes.append((r, "no progress: the case does not terminate"))
                    continue
                running.remove(r)
                kill(r["p"])
                if os.path.exists(r["spec"]["out"]):
                    res = json.load(open(r["spec"]["out"]))
                    res["states"] = np.load(r["spec"]["out"] + ".states.npy")
                    res["outc"] = np.load(r["spec"]["out"] + ".outc.npy")
                    results.append(res)
                    if FAILFAST and any(p["fails"] for p in res["phases"]):
                        return results, crashes, meta, time.time() - t0
                    if res["error"]:
                        crashes.append((r, "ERROR " + res["error"]))
                else:
                    r["last"] = read_progress(r["spec"]["progress"])
                    tail = open(r["spec"]["out"] + ".log", "rb").read()[-1500:].decode("utf8", "replace")
                    rc = r["p"].returncode
                    crashes.append((r, f"worker died with status {rc}: {tail}" if rc != -9
                                    else f"ERROR worker was killed (memory?): {tail}"))
    finally:
        for r in running:
            kill(r["p"])
        shutil.rmtree(scratch, ignore_errors=True)
    return results, crashes, meta, time.time() - t0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    if a.replay:
        rp = json.load(open(a.replay))
        results, crashes, _, _ = explore(rp["property"], rp["tier"], seed, rp["phase"], rp["index"])
        bad = [f for r in results for p in r["phases"] for f in p["fails"]]
        for f in bad:
            print("case:", f["case"])
            print(f["message"])
            for k, v in f["detail"].items():
                print(f"  {k}: {v}")
        for r, m in crashes:
            print("crash:", m)
        if bad or crashes:
            print(f"VIOLATION property={rp['property']} replay={a.replay}")
            sys.exit(1)
        print("replayed: the case passes")
        sys.exit(0)

    prop = a.prop
    results, crashes, meta, wall = explore(prop, tier, seed)
    fails, known, per = [], {}, {}
    st = [r["states"] for r in results if len(r["states"])]
    states = np.unique(np.concatenate(st)) if st else np.array([])
    oc = [r["outc"] for r in results if len(r["outc"])]
    outc = np.unique(np.concatenate(oc)) if oc else np.array([])
    transitions = traces = 0
    samples = []
    capped = False
    for r in results:
        for p in r["phases"]:
            e = per.setdefault(p["name"], dict(cases=0, transitions=0, traces=0))
            e["cases"] += p["cases"]
            e["transitions"] += p["transitions"]
            e["traces"] += p["traces"]
            transitions += p["transitions"]
            traces += p["traces"]
            fails += p["fails"]
            capped |= p["capped"] or p["stopped"]
            samples += p["samples"]
            for k, v in p["known"].items():
                d = known.setdefault(k, dict(v, count=0))
                d["count"] += v["count"]
    errors = [(r, m) for r, m in crashes if m.startswith("ERROR")]
    for r, m in crashes:
        if not m.startswith("ERROR"):
            parts = (r["last"].split("|", 4) + [""] * 5)[:5]
            try:
                ix = int(parts[1])
            except ValueError:
                ix = None
            fails.append(dict(phase=parts[0] or r["names"][0], index=ix, case=parts[4], message=m, detail={}))
    fails.sort(key=lambda f: (f["index"] is None, f["index"] or 0))
    seen, smp = set(), []
    for s in sorted(samples, key=lambda s: (s["phase"], s["index"])):
        if s["phase"] not in seen or len(smp) < 6:
            seen.add(s["phase"])
            smp.append(s)
    level = meta.get("LEVEL", "model_checking")
    cov = dict(states=int(len(states)), transitions=int(transitions), traces_validated_against_impl=int(traces),
               samples=smp[:12], exhaustive=not capped and not crashes, distinct_outcomes=int(len(outc)),
               phases=per, bounds=meta.get("BOUNDS", ""))
    if level == "fault_enumeration":
        cov["evaluations"] = int(sum(p["cases"] for p in per.values()))
        cov["distinct_nontrivial"] = int(len(outc))
        cov["rule"] = meta.get("BOUNDS", "")
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=meta.get("ASSUMPTIONS", []), wall_s=round(wall, 2), violations=len(fails))
    if known:
        ev["coverage"]["known_findings_hit"] = {k: v["count"] for k, v in known.items()}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    from mc.known import describe
    for k in sorted(known):
        print(f"KNOWN-FINDING: property={prop} {k}: {describe(prop, k)} ({known[k]['count']} explored cases)")
    print(f"{prop} tier={tier} states={len(states)} transitions={transitions} traces={traces} "
          f"outcomes={len(outc)} wall={wall:.1f}s")
    for n, e in per.items():
        print(f"   phase {n}: cases={e['cases']} transitions={e['transitions']} traces={e['traces']}")
    if errors and not fails:
        for r, m in errors[:3]:
            print("check error:", m)
        sys.exit(2)
    if fails:
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        for i, f in enumerate(fails[:5]):
            path = os.path.join(rd, f"{prop}_{i}.json")
            with open(path, "w") as g:
                json.dump(dict(property=prop, tier=tier, **f), g, indent=1)
            print("  ", f["message"].strip()[:1500])
            print("   case:", f["case"][:600])
            for k, v in f["detail"].items():
                print(f"     {k}: {v[:600]}")
            print(f"VIOLATION property={prop} replay={os.path.relpath(path, VERIF)}")
        sys.exit(1)
    if traces == 0:
        print("check error: nothing explored")
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
