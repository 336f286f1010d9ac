"""The properties and how each is checked: single source of
properties.jsonl and MANIFEST.json (run tools/gen.py after editing)."""
import json
import os

COMMON_ASSUMPTIONS = [
    "compiled with g++ 13 at -O1 -DNDEBUG and the libraries of this sandbox",
    "single-threaded execution, as in SMASH itself",
]
_HERE = os.path.dirname(os.path.abspath(__file__))


def closure(harness):
    try:
        with open(os.path.join(_HERE, "closure.json")) as f:
            return json.load(f).get(harness)
    except OSError:
        return None


PROPS = []      # in order
CHECKS = {}     # id -> run specification
NOT_APPLICABLE = []


def prop(pid, title, statement, over, quant, why, files, mech, check=None,
         na=None, state=None, observe=None):
    anchors = {"files": files,
               "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        anchors["state"] = state
    if observe:
        anchors["observe_at"] = observe
    anchors["hook_needed"] = None
    PROPS.append({"id": pid, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": quant},
                  "why_tests_cant": why, "anchors": anchors})
    if check:
        CHECKS[pid] = check
    else:
        NOT_APPLICABLE.append({"property": pid, "reason": na or
                               "not built yet"})


exec(open(os.path.join(_HERE, "propdefs.py"), encoding="utf-8").read())
