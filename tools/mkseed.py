#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source).  Writes seeded/ID."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
d = os.path.join(ROOT, "seeded", ns["ID"])
os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp(prefix="/tmp/mkseed_")
try:
    subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
    for f, old, new in ns["EDITS"]:
        p = os.path.join(w, "r", f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", w + "/r", "diff"], text=True)
finally:
    shutil.rmtree(w)
open(d + "/patch.diff", "w").write(diff)
open(d + "/demo.py", "w").write(ns["DEMO"].lstrip())
open(d + "/demo.sh", "w").write('#!/bin/bash\n# exit 0: the property holds; non-zero: it is broken\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 '
    'FMK_CONSOLE_LOGGER_LEVEL=CRITICAL TQDM_DISABLE=1\n%sexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n' % ("" if ns.get("JIT") else "export NUMBA_DISABLE_JIT=1\n"))
json.dump(dict(property=ns["PROP"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
print(diff)
