"""contracts/discharged.json from the evidence of the unchanged tree: the
obligations a proof discharges well within the solver's time limits"""

import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {}
for f in sorted(glob.glob(os.path.join(ROOT, "evidence", "V*.json"))):
    ev = json.load(open(f))
    if ev["violations"]:
        raise SystemExit(f"{f} has violations")
    for c in ev["coverage"]["per_contract"]:
        if c["verdict"] != "holds" or (c["unsupported"] and not c["unsupported"].startswith("discharged for")):
            continue
        ks = sorted(k for k, o in c["obligations"].items() if o["status"] == "proved" and o["max_s"] < 4)
        if ks and all(o["status"] == "proved" for o in c["obligations"].values()):
            out.setdefault(ev["property"], {})[c["contract"]] = ks
with open(os.path.join(ROOT, "contracts", "discharged.json"), "w") as fh:
    json.dump(out, fh, indent=1)
    fh.write("\n")
