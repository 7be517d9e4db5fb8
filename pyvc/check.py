"""Command line: decide one property.

    python -m pyvc.check V01 [--tier quick|thorough] [--only CONTRACT] [-v]

Every run parses the current source under /repo/src, regenerates all proof
obligations and discharges them.  Exit 0: every contract of the property holds.
Exit 1 and a ``VIOLATION property=... replay=...`` line otherwise.
"""

from __future__ import annotations

import argparse
import importlib
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, "evidence")
WORK = os.path.join(ROOT, "work")
sys.path.insert(0, ROOT)

QUICK = dict(sym=150.0, bnd=60.0, runs=40, run_s=15.0, search_runs=600, search_s=60.0)
THOROUGH = dict(sym=600.0, bnd=300.0, runs=1500, run_s=120.0, search_runs=6000, search_s=240.0)


def load(prop):
    """contract modules of a property"""
    from .contract import CONTRACTS

    warnings.simplefilter("ignore")
    cdir = os.path.join(ROOT, "contracts")
    for f in sorted(os.listdir(cdir)):
        if f.endswith(".py") and not f.startswith("_") and f[:-3].split("_")[0].upper() == prop:
            importlib.import_module("contracts." + f[:-3])
    return CONTRACTS.get(prop, [])


def discharged():
    """obligations discharged on the committed tree, well within the solver's limits"""
    try:
        with open(os.path.join(ROOT, "contracts", "discharged.json")) as fh:
            return json.load(fh)
    except FileNotFoundError:
        return {}


# ------------------------------------------------------------- one contract
def concrete_runs(c, seed, n, secs, prover=None, stop=True):
    """run the real code on concrete inputs under the contract"""
    from .contract import Runner

    out = dict(ok=0, discard=0, raised=0, hits={}, fail=None, error=None)
    t0 = time.time()
    r = Runner(c, "RUN", rng=random.Random(seed))
    for k in range(n):
        if time.time() - t0 > secs:
            break
        try:
            kind, inputs, e = r.run_once()
        except Exception as ex:  # the harness itself failed: not a verdict
            out["error"] = f"{type(ex).__name__}: {ex}"
            out["trace"] = traceback.format_exc()[-1500:]
            break
        if kind == "ok":
            out["ok"] += 1
        elif kind == "discard":
            out["discard"] += 1
        elif kind == "raise":
            out["raised"] += 1
        elif kind == "fail":
            out["fail"] = dict(obligation=e.name, detail=e.detail, inputs=inputs)
            if stop:
                break
    out["hits"] = r.hits
    out["time"] = time.time() - t0
    return out


def replay_inputs(c, inputs):
    """one concrete run on given inputs; True when the contract fails"""
    from .contract import Runner

    r = Runner(c, "RUN", given=inputs)
    try:
        kind, used, e = r.run_once()
    except Exception as ex:
        return None, f"{type(ex).__name__}: {ex}"
    if kind == "fail":
        return dict(obligation=e.name, detail=e.detail, inputs=used), None
    return None, kind


def run_contract(c, tier, seed, verbose=False):
    from . import solver
    from .contract import Runner
    from .values import Unsupported

    lim = THOROUGH if tier == "thorough" else QUICK
    opts = c.opts
    res = dict(contract=c.name, targets=c.target, obligations={}, notes=[], verdict="holds", level="proof", functions=[])
    t0 = time.time()
    unsupported = None
    r = None
    if opts.get("sym", True):
        r = Runner(c, "SYM", budget=opts.get("budget", lim["sym"]))
        try:
            r.sym()
        except (Unsupported, RecursionError, NotImplementedError) as e:
            unsupported = f"{type(e).__name__}: {e}"
            if verbose:
                traceback.print_exc()
        except Exception as e:
            unsupported = f"engine error {type(e).__name__}: {e}"
            res["trace"] = traceback.format_exc()[-2500:]
            if verbose:
                traceback.print_exc()
        if r.it is not None:
            res["functions"] = sorted(r.it.inlined)
            res["models"] = sorted(r.it.models_used)
            res["loops"] = len(r.it.loops)
        for k, v in r.obl.items():
            st = "proved" if all(x["status"] == "proved" for x in v) else "open"
            if st == "open" and any(x["status"] == "refuted" for x in v):
                st = "refuted"
            res["obligations"][k] = dict(
                status=st,
                instances=len(v),
                time=sum(x["time"] for x in v),
                max=max(x["time"] for x in v),
                how=sorted({x["how"] for x in v}),
                failing=[x for x in v if x["status"] != "proved"][:2],
            )
        res["paths"] = r.paths
    else:
        unsupported = "bounded by declaration"
    res["sym_s"] = time.time() - t0
    res["unsupported"] = unsupported
    # run-time contract checks on the real code: engine cross-check, reachability
    res["run"] = concrete_runs(c, seed, opts.get("runs", lim["runs"]) if tier == "quick" else lim["runs"], lim["run_s"])
    fail = res["run"]["fail"]
    proved = unsupported is None and all(o["status"] == "proved" for o in res["obligations"].values()) and res["obligations"]
    res["unreached"] = [k for k in res["obligations"] if k not in res["run"]["hits"]]
    # vacuity: every obligation reached in SYM must be reached concretely too
    if unsupported is None and not res["obligations"]:
        unsupported = res["unsupported"] = "no obligation generated (vacuous)"
        proved = False
    if fail is None and not proved:
        res["level"] = "bounded"
        b = Runner(c, "BND", budget=opts.get("bnd_budget", lim["bnd"]))
        err = None
        if opts.get("bnd", True):
            try:
                b.sym()
            except Exception as e:
                err = f"{type(e).__name__}: {e}"
        bnd = {}
        for k, v in b.obl.items():
            bnd[k] = "proved" if all(x["status"] == "proved" for x in v) else ("refuted" if any(x["status"] == "refuted" for x in v) else "open")
        res["bounded"] = dict(obligations=bnd, error=err, paths=b.paths)
        # replay z3 counterexamples against the real code
        refuted = []
        for k, v in b.obl.items():
            for x in v:
                if x["status"] == "refuted":
                    refuted.append((k, x))
        tried = 0
        passed = False
        for k, x in refuted:
            if x.get("inputs") is None or tried >= 25:
                continue
            tried += 1
            f, why = replay_inputs(c, x["inputs"])
            if f is not None:
                fail = f
                break
            passed |= why == "ok"
        if fail is None:
            s = concrete_runs(c, seed + 1000, lim["search_runs"], lim["search_s"])
            res["search"] = {k: s[k] for k in ("ok", "discard", "raised", "time", "error")}
            fail = s["fail"]
        if fail is None and refuted:
            # counterexample at concrete sizes that could not be replayed: a
            # violation unless the real code satisfies the contract on it
            k, x = refuted[0]
            if not passed:
                res["verdict"] = "violated"
                res["nfi"] = True
                res["violation"] = dict(obligation=k, detail=x.get("detail", ""), goal=x.get("goal"), inputs=x.get("inputs"))
    if fail is None and res["verdict"] == "holds" and unsupported is None and not proved:
        # an obligation that is discharged on the committed tree is not any more:
        # once more with four times the solver time, then it has failed
        lost = [k for k, o in res["obligations"].items() if o["status"] != "proved" and k in discharged().get(c.prop, {}).get(c.name, ())]
        if lost:
            again = Runner(c, "SYM", prover=solver.Prover(scale=4), budget=opts.get("budget", lim["sym"]))
            try:
                again.sym()
            except Exception as e:
                lost = []
                res["notes"].append(f"second attempt: {type(e).__name__}: {e}")
            for k in lost:
                bad = [x for x in again.obl.get(k, ()) if x["status"] != "proved"]
                if bad:
                    res["verdict"] = "violated"
                    res["nfi"] = True
                    res["violation"] = dict(obligation=k, detail="not discharged: " + bad[0].get("detail", ""), goal=bad[0].get("goal"), inputs=None)
                    break
    if proved and opts.get("bound"):
        res["level"] = "bounded"
        res["unsupported"] = f"discharged for {opts['bound']}"
    if fail is not None:
        res["verdict"] = "violated"
        res["nfi"] = False
        res["violation"] = fail
    res["z3"] = dict(solver.STATS)
    res["wall"] = time.time() - t0
    return res


def _child(c, tier, seed, verbose, conn):
    sys.setrecursionlimit(20000)
    try:
        import resource

        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception:
        pass
    warnings.simplefilter("ignore")
    try:
        res = run_contract(c, tier, seed, verbose)
    except BaseException as e:
        res = dict(contract=c.name, targets=c.target, obligations={}, verdict="error", level="none", error=f"{type(e).__name__}: {e}", trace=traceback.format_exc()[-3000:], wall=0.0)
    try:
        conn.send(json.loads(json.dumps(res, default=str)))
    except Exception as e:
        conn.send(dict(contract=c.name, targets=c.target, obligations={}, verdict="error", level="none", error=str(e), wall=0.0))
    conn.close()


def run_all(cs, tier, seed, verbose=False, hard=None):
    """one process per contract, eight at a time"""
    ctx = mp.get_context("fork")
    hard = hard or (820.0 if tier == "quick" else 3600.0)
    todo = sorted(cs, key=lambda c: -c.opts.get("cost", 1))
    live = []
    out = []
    t_end = time.time() + hard
    while todo or live:
        while todo and len(live) < 8:
            c = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(c, tier, seed, verbose, b), daemon=True)
            p.start()
            b.close()
            live.append((c, p, a, time.time()))
        nxt = []
        for c, p, a, t in live:
            got = None
            if a.poll(0.02):
                try:
                    got = a.recv()
                except EOFError:
                    got = dict(contract=c.name, targets=c.target, obligations={}, verdict="error", level="none", error="worker died", wall=time.time() - t)
                p.join(5)
            elif time.time() > t_end:
                p.kill()
                p.join()
                got = dict(contract=c.name, targets=c.target, obligations={}, verdict="error", level="none", error="time limit", wall=time.time() - t)
            if got is not None:
                if verbose:
                    print(f"  {c.name}: {got['verdict']} ({got['level']}) {got.get('wall', 0):.1f}s", flush=True)
                out.append(got)
            else:
                nxt.append((c, p, a, t))
        live = nxt
    order = {c.name: k for k, c in enumerate(cs)}
    return sorted(out, key=lambda r: order[r["contract"]])


# --------------------------------------------------------------- reporting
TRUSTED = [
    "the symbolic interpreter in /verif/pyvc (cross-checked on every run by executing the same contracts on the real code)",
    "z3",
    "floating-point arithmetic treated as exact real arithmetic; Python and numpy integers as mathematical integers",
    "divisions are assumed to have non-zero denominators except where a contract states otherwise",
]


def findings():
    p = os.path.join(ROOT, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                out.append(json.loads(line))
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    prop = a.property
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    cs = load(prop)
    if a.only:
        cs = [c for c in cs if a.only in c.name]
    if not cs:
        print(f"no contracts for {prop}", file=sys.stderr)
        return 2
    results = run_all(cs, tier, seed, a.v)
    known = [f for f in findings() if f.get("kind") == "finding" and f["property"] == prop]
    code = 0
    nobl = nproved = 0
    bobl = bproved = 0
    viol = []
    lines = []
    for r in results:
        v = r.get("violation") or {}
        match = [f for f in known if f["contract"] == r["contract"] and f["obligation"] == v.get("obligation")] if r["verdict"] == "violated" else []
        for k, o in r.get("obligations", {}).items():
            if match and k == v["obligation"]:
                continue  # reported as a known finding, not counted
            got = o["instances"] if o["status"] == "proved" else 0
            if r["level"] == "bounded" and r.get("unsupported"):
                bobl, bproved = bobl + o["instances"], bproved + got
            else:
                nobl, nproved = nobl + o["instances"], nproved + got
        for b in (r.get("bounded") or {}).get("obligations", {}).values():
            bobl, bproved = bobl + 1, bproved + (b == "proved")
        if r["verdict"] == "violated":
            if match:
                lines.append(f"KNOWN-FINDING: property={prop} {match[0]['what']}")
                r["known_finding"] = True
                continue
            d = os.path.join(WORK, "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{prop}-{r['contract'].replace(' ', '_').replace('/', '_')}.json")
            with open(path, "w") as fh:
                json.dump(
                    dict(property=prop, contract=r["contract"], targets=r["targets"], obligation=v["obligation"], detail=v.get("detail"), inputs=v.get("inputs"), verifier=r.get("obligations", {}).get(v["obligation"]), how_to_replay=f"cd /verif && /opt/venv/bin/python -m pyvc.replay {path}"),
                    fh,
                    indent=1,
                    default=str,
                )
            line = f"VIOLATION property={prop} replay={path}"
            if r.get("nfi"):
                line += " no-failing-input-found"
            viol.append(dict(contract=r["contract"], obligation=v["obligation"], replay=path, confirmed=not r.get("nfi")))
            lines.append(f"obligation '{v['obligation']}' of contract '{r['contract']}' fails: {str(v.get('detail'))[:300]}")
            lines.append(line)
            code = 1
    # a listed finding that did not show on this tree is still reported only when seen
    bounded = [r["contract"] for r in results if r["level"] == "bounded"]
    errors = [r for r in results if r["verdict"] == "error"]
    full = [r["contract"] for r in results if r["level"] == "proof" and r["verdict"] == "holds"]
    z3t = sum(r.get("z3", {}).get("z3_time", 0.0) for r in results)
    z3c = sum(r.get("z3", {}).get("z3_calls", 0) for r in results)
    fns = sorted({f for r in results for f in r.get("functions", [])})
    assumptions = list(TRUSTED)
    for c in cs:
        assumptions += c.opts.get("assumptions", [])
    models = sorted({m for r in results for m in r.get("models", [])})
    if models:
        assumptions.append("library functions used through assumed contracts: " + ", ".join(models))
    for r in results:
        if r["level"] == "bounded":
            assumptions.append(f"BOUNDED (not proved): contract '{r['contract']}': {r.get('unsupported') or 'open obligations'}")
        if r["verdict"] == "error":
            assumptions.append(f"NOT DECIDED: contract '{r['contract']}': {r.get('error')}")
    ev = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="proof",
        coverage=dict(
            obligations=nobl,
            discharged=nproved,
            bounded_obligations=bobl,
            bounded_discharged=bproved,
            checker_cmd=f"/opt/venv/bin/python -m pyvc.check {prop} --tier {tier}",
            trusted_base=assumptions,
            contracts=len(results),
            contracts_proved=full,
            contracts_bounded=bounded,
            functions_under_contract=sorted({t for r in results for t in r["targets"]}),
            functions_interpreted=fns,
            solver=dict(back_end="term normaliser + z3 (python API)", z3_calls=z3c, z3_time_s=round(z3t, 2)),
            concrete_runs=sum(r.get("run", {}).get("ok", 0) for r in results),
            per_contract=[
                dict(
                    contract=r["contract"],
                    verdict=r["verdict"],
                    level=r["level"],
                    wall_s=round(r.get("wall", 0), 2),
                    paths=r.get("paths"),
                    obligations={k: dict(status=o["status"], instances=o["instances"], time_s=round(o["time"], 3), max_s=round(o.get("max", 0), 3), by=o["how"]) for k, o in r.get("obligations", {}).items()},
                    unsupported=r.get("unsupported"),
                    bounded=r.get("bounded"),
                    concrete={k: r["run"][k] for k in ("ok", "discard", "raised", "error", "hits")} if "run" in r else None,
                    error=r.get("error"),
                )
                for r in results
            ],
        ),
        wall_s=round(time.time() - t0, 2),
        assumptions=assumptions,
        violations=len(viol),
    )
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print(f"{prop}: {len(results)} contracts, {nproved}/{nobl} obligations discharged, {len(bounded)} bounded ({bproved}/{bobl}), {len(errors)} undecided, {len(viol)} violations, {time.time() - t0:.1f} s")
    for r in results:
        if r.get("run", {}).get("error"):
            print(f"  [{r['contract']}] harness error in concrete runs: {r['run']['error']}")
        if a.v or r["verdict"] != "holds" or r["level"] != "proof":
            bad = {k: o["status"] for k, o in r.get("obligations", {}).items() if o["status"] != "proved"}
            print(f"  [{r['contract']}] {r['verdict']} level={r['level']} {r.get('unsupported') or ''} {r.get('error') or ''} open={bad} run={ {k: r['run'][k] for k in ('ok','discard','raised','error')} if 'run' in r else None} bounded={r.get('bounded')}")
            if a.v:
                for k, o in r.get("obligations", {}).items():
                    print(f"      {k}: {o['status']} x{o['instances']} {o['time']:.2f}s {o['how']}")
                    for f in o["failing"]:
                        print("         goal:", f["goal"][:500], "|", f.get("detail", "")[:300])
                if r.get("unreached"):
                    print("      NOT REACHED CONCRETELY:", r["unreached"])
                if r.get("trace"):
                    print(r["trace"])
                if r.get("run", {}).get("trace"):
                    print(r["run"]["trace"])
    for x in lines:
        print(x)
    if code == 0 and errors and not any(r["verdict"] == "holds" for r in results):
        print("no contract could be decided", file=sys.stderr)
        return 2
    return code


if __name__ == "__main__":
    sys.exit(main())
