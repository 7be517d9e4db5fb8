"""Replay a stored counterexample on the real code.

    python -m pyvc.replay work/replay/V01-....json
"""

import json
import sys

from .check import load, replay_inputs


def main():
    r = json.load(open(sys.argv[1]))
    c = next((c for c in load(r["property"]) if c.name == r["contract"]), None)
    if c is None:
        print("no such contract")
        return 2
    print(f"property {r['property']}, contract '{c.name}', targets {c.target}")
    print(f"failed obligation: {r['obligation']}")
    if not r.get("inputs"):
        print("the verifier gave no failing input; its output:")
        print(json.dumps(r.get("verifier"), indent=1))
        return 1
    print("inputs:", json.dumps(r["inputs"])[:2000])
    f, why = replay_inputs(c, r["inputs"])
    if f is None:
        print("not reproduced on this tree:", why)
        return 0
    print(f"reproduced: {f['obligation']}: {f['detail']}")
    return 1


if __name__ == "__main__":
    sys.exit(main())
