"""known_findings.json: genuine defects of the code that are recorded, not repaired.  Read-only at run time."""
import json
import os

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
with open(PATH) as f:
    DATA = json.load(f)
KNOWN = {(e["property"], e["key"]): e for e in DATA["known"]}


def is_known(prop, key):
    return (prop, key) in KNOWN


def describe(prop, key):
    return KNOWN[(prop, key)]["what"]
