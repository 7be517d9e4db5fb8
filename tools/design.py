"""Development helper: write DESIGN.md from its head, the evidence files and the planted bugs."""

import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(V + "/tools/design_head.md").read()]
props = {json.loads(l)["id"]: json.loads(l) for l in open(V + "/properties.jsonl")}
out.append("## Properties\n\nFor each property: its contracts, what is discharged for all inputs and what is bounded, on the tree as committed (quick tier).\n")
for k in sorted(props):
    p = V + f"/evidence/{k}.json"
    if not os.path.exists(p):
        continue
    e = json.load(open(p))
    c = e["coverage"]
    out.append(f"\n### {k} {props[k]['title']}\n\nOracle: {props[k]['statement'].split('. ')[0]}.\n\n{c['discharged']} obligations discharged, {c['bounded_discharged']} in bounded contracts, {c['solver']['z3_calls']} solver calls ({c['solver']['z3_time_s']} s), {c['concrete_runs']} runs of the real code, {round(e['wall_s'])} s. Why tests do not reach it: {props[k]['why_tests_cant']}.\n\n")
    for x in c["per_contract"]:
        n = sum(o["instances"] for o in x["obligations"].values())
        lab = "proved" if x["level"] == "proof" else "bounded: " + (x.get("unsupported") or "concrete runs only").split("\n")[0][:110]
        names = "; ".join(x["obligations"]) or "; ".join((x.get("concrete") or {}).get("hits", {}))
        out.append(f"* **{x['contract']}** ({lab}; {n} instances, {(x.get('concrete') or {}).get('ok', 0)} runs): {names[:330]}\n")
kf = [json.loads(l) for l in open(V + "/known_findings.jsonl")]
out.append("\n## Defects found\n\nRepaired in /repo (one `fix:` commit each):\n\n")
out += [f"* {x['text'][7:]}\n" for x in kf if x["kind"] == "fixed"]
out.append("\nRecorded, not repaired (the repair changes results users have or is not a small one):\n\n")
out += [f"* {x['property']}, contract '{x['contract']}': {x['what']}\n" for x in kf if x["kind"] == "finding"]
out.append("\n## Planted bugs\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n")
caught = json.load(open(V + "/tools/caught.json"))
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    b = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    out.append(f"| {b} | {m['property']} | {m['needs']} | {caught.get(b, 'not run')} |\n")
tail = V + "/tools/design_tail.md"
if os.path.exists(tail):
    out.append("\n" + open(tail).read())
open(V + "/DESIGN.md", "w").write("".join(out))
