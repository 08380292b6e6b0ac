#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, text, why, files, mech, observe, state=None, claimed=True, note="", technique=None, na=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe,
                state=state or [], claimed=claimed, note=note, technique=technique, na=na)

PROPS = []
exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                              observe_at=p["observe"], hook_needed=None))
        if p["state"]:
            d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]]
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")

TECH = "stateless model checking of the implementation (deviation-bounded schedules and exhaustive input/environment enumeration in virtual time)"
NOTE = ("Every execution within the stated bounds is explored on the real code (see the evidence file for bounds and counts) and judged by an "
        "independent oracle; nothing is said beyond the bounds. Trusted: the instrumenting build (scheduling points before statements with "
        "shared effects), the patched Go scheduler with virtual time, sequential consistency.")
man = dict(version=1, setup_cmd="./setup", hooks=dict(guard="none", enable="no hooks are committed in /repo; the checks instrument a copy of the sources through go build -overlay"),
           checks=[], not_applicable=[])
for p in PROPS:
    if p["claimed"]:
        man["checks"].append(dict(property=p["id"], quick_cmd="./check %s quick" % p["id"], thorough_cmd="./check %s thorough" % p["id"],
                                  evidence_file="evidence/%s.json" % p["id"], technique=p["technique"] or TECH, level="model_checking",
                                  level_note=(p["note"] + " " if p["note"] else "") + NOTE))
    else:
        man["not_applicable"].append(dict(property=p["id"], reason=p["na"] or "check not built yet"))
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
