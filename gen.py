#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from vc/units/*.py (PROP) and not_applicable.py."""
import glob, importlib.util, json, os
H = os.path.dirname(os.path.abspath(__file__))
def load(p):
    s = importlib.util.spec_from_file_location("m", p); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
props, checks = [], []
for f in sorted(glob.glob(H + "/vc/units/[A-Z]*.py")):
    pid = os.path.basename(f)[:-3]
    P = getattr(load(f), "PROP", None)
    if not P: continue
    assert len(P["title"]) <= 80, (pid, len(P["title"]))
    props.append(dict(id=pid, title=P["title"], statement=P["statement"],
        quantifier=dict(over=P["over"], text=P["all"]), why_tests_cant=P["why"],
        anchors=dict(files=P["files"], mechanism=[dict(name=a, where=b) for a, b in P["mech"]], hook_needed=None)))
    checks.append(dict(property=pid, quick_cmd="python3 vc/vc.py " + pid, thorough_cmd="python3 vc/vc.py %s --thorough" % pid,
        technique=P.get("technique", "contract-based deductive verification of the real C functions (CBMC: contract harness per function, callee contracts substituted)"),
        level="proof", level_note=P["note"]))
na = load(H + "/not_applicable.py").NA
for n in na:
    props.append(n["entry"])
json.dump(dict(version=1, setup_cmd="python3 vc/vc.py --self-check", hooks=dict(guard="none", enable="no hooks: the checks compile /repo's sources unmodified", source_commits=[]),
    checks=checks, not_applicable=[dict(property=n["entry"]["id"], reason=n["reason"]) for n in na],
    notes="fix: commits in /repo are listed in KNOWN_FINDINGS"), open(H + "/MANIFEST.json", "w"), indent=1)
open(H + "/MANIFEST.json", "a").write("\n")
with open(H + "/properties.jsonl", "w") as o:
    for p in sorted(props, key=lambda p: p["id"]): o.write(json.dumps(p) + "\n")
print(len(checks), "checks", len(na), "not applicable")
