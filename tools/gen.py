#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from one list (run after adding a check)."""
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B, DM, IO, KIT, U = ("finmlkit/bar/base.py", "finmlkit/bar/data_model.py", "finmlkit/bar/io.py", "finmlkit/bar/kit.py",
                     "finmlkit/bar/utils.py")
LOGIC = "finmlkit/bar/logic.py"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [])))


exec(open(os.path.join(ROOT, "tools", "props.py")).read())


def bounds(pid):
    tree = ast.parse(open(os.path.join(ROOT, "mc", "checks", pid.lower() + ".py")).read())
    out = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("BOUNDS", "LEVEL", "ASSUMPTIONS"):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


checks, na, lines = [], [], []
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    for f in p["anchors"]["files"]:
        assert os.path.exists("/repo/" + f), f
    if not os.path.exists(os.path.join(ROOT, "mc", "checks", p["id"].lower() + ".py")):
        continue
    lines.append(json.dumps(p))
    b = bounds(p["id"])
    checks.append(dict(
        property=p["id"], quick_cmd=f"bin/check {p['id']} --tier quick", thorough_cmd=f"bin/check {p['id']} --tier thorough",
        technique="bounded exhaustive state-space exploration of the real code, every run compared with a reference automaton "
                  "(explicit-state model checking of the implementation)" if b.get("LEVEL", "model_checking") == "model_checking" else
                  "exhaustive fault and completion-order enumeration on the real code under a controlled scheduler",
        level=b.get("LEVEL", "model_checking"), level_note=b["BOUNDS"]))
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    f.write("\n".join(lines) + "\n")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na), f, indent=1)


def section(text, name, body):
    a, b = f"<!-- {name} (generated) -->", f"<!-- /{name} -->"
    pre, rest = text.split(a)
    return pre + a + "\n" + body + "\n" + b + rest.split(b)[1]


path = os.path.join(ROOT, "DESIGN.md")
text = open(path).read()
rows = ["| check | bounds | assumptions |", "|---|---|---|"]
for p in P:
    b = bounds(p["id"])
    rows.append(f"| {p['id']} | {b['BOUNDS']} | {'; '.join(b.get('ASSUMPTIONS', []))} |")
text = section(text, "bounds", "\n".join(rows[:2] + sorted(rows[2:])))
rows = ["| planted bug | property | what it breaks | caught by |", "|---|---|---|---|"]
seeds = os.path.join(ROOT, "seeded")
for d in sorted(os.listdir(seeds)):
    m = json.load(open(os.path.join(seeds, d, "meta.json")))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m.get('caught_by', m['property'])} |")
text = section(text, "seeds", "\n".join(rows))
open(path, "w").write(text)
print(len(checks), "checks")
