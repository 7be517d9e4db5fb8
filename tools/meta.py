"""Writes properties.jsonl and MANIFEST.json from the one table below."""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = "contract-based deductive verification: contracts over the real source, obligations generated by symbolic execution of /repo/src with loop summaries, discharged by a polynomial/reduction normaliser and z3"
NOTE = "all inputs and all sizes unless the evidence lists a contract as bounded; floats as reals; library calls through assumed contracts"

PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, note=NOTE):
    PROPS.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=observe),
            _note=note,
        )
    )


S = "src/skfolio/"
exec(open(os.path.join(ROOT, "tools", "props.py")).read())

NOT_APPLICABLE = []


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
        for p in PROPS:
            fh.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    names = os.listdir(os.path.join(ROOT, "contracts"))
    checks, na = [], list(NOT_APPLICABLE)
    for p in PROPS:
        i = p["id"]
        if any(n.startswith(i.lower() + "_") for n in names):
            checks.append(
                dict(
                    property=i,
                    quick_cmd=f"bash run.sh {i} --tier quick",
                    thorough_cmd=f"bash run.sh {i} --tier thorough",
                    technique=TECH,
                    level="proof",
                    level_note=p["_note"],
                    evidence_file=f"evidence/{i}.json",
                )
            )
        elif not any(x["property"] == i for x in na):
            na.append(dict(property=i, reason="contracts not built yet"))
    m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na)
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)


main()
