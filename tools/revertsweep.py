#!/usr/bin/env python3
"""revertsweep.py [commit…]: undo each registered repair in a scratch copy of /repo and run the check it is registered under; each must raise an alarm again"""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fixed = []
for l in json.load(open(ROOT + "/known_findings.json"))["fixed"]:
    _, prop, commit, what = l.split(" ", 3)
    fixed.append((prop.split("=")[1], commit, what))
if sys.argv[1:]:
    fixed = [f for f in fixed if f[1] in sys.argv[1:]]


def one(f):
    prop, commit, what = f
    w = tempfile.mkdtemp(prefix="revert_", dir="/tmp")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
        r = subprocess.run(["git", "-C", w + "/r", "-c", "user.name=x", "-c", "user.email=x", "revert", "--no-edit", commit], capture_output=True, text=True)
        if r.returncode:
            return f"{prop} {commit} CONFLICT {what}"
        q = subprocess.run([ROOT + "/bin/check", prop], env=dict(os.environ, MC_REPO=w + "/r", MC_FAILFAST="1"), capture_output=True, text=True)
        return f"{prop} {commit} {'caught' if q.returncode == 1 and 'VIOLATION property=' + prop in q.stdout else f'MISSED (exit {q.returncode})'} {what}"
    finally:
        shutil.rmtree(w)


with cf.ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex:
    for r in ex.map(one, fixed):
        print(r, flush=True)
