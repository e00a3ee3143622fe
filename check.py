#!/usr/bin/env python3
"""Decide one property:  check.py C01 [--replay FILE]

Runs under the repository's virtual environment; see DESIGN.md for the verdict policy.
"""

import concurrent.futures as cf
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def env():
    e = dict(os.environ)
    e.update({
        "SPEY_CHECKUPDATE": "OFF", "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1",
        "OPENBLAS_NUM_THREADS": "1", "PYTHONHASHSEED": "0", "PYTHONWARNINGS": "ignore",
        "PYTHONPATH": HERE, "PYVC_VT": VT,
    })
    e.pop("SPEY_OPTIMISER", None)
    return e


def worker(prop, name, mode, opts, timeout):
    """One contract in one mode, in its own process."""
    t0 = time.time()
    code = (
        "import sys; sys.path.append(%r); sys.argv=['worker',%r,%r,%r]; "
        "from pyvc import worker; worker.main()" % (VT, prop, name, mode)
    )
    try:
        p = subprocess.run([PY, "-c", code], input=json.dumps(opts), capture_output=True,
                           text=True, timeout=timeout, env=env(), cwd=opts.get("cwd", HERE))
    except subprocess.TimeoutExpired:
        return {"mode": mode, "contract": name, "failed": f"time limit {timeout:.0f}s",
                "wall_s": time.time() - t0}
    k = p.stdout.rfind("@@REPORT@@")
    if k < 0:
        return {"mode": mode, "contract": name, "wall_s": time.time() - t0,
                "failed": f"worker ended with {p.returncode}: {p.stderr[-1500:]}"}
    return json.loads(p.stdout[k + len("@@REPORT@@"):])


def contracts_of(prop):
    code = (
        "import sys,json; sys.path.append(%r); from pyvc.worker import load_contracts; "
        "print('@@'+json.dumps([dict(name=c.name,functions=c.functions,assumptions=c.assumptions,"
        "symbolic=c.symbolic,concrete=c.concrete,samples=c.samples,doc=c.doc,budget=c.budget,"
        "bounded=c.bounded) for c in load_contracts(%r)]))" % (VT, prop)
    )
    p = subprocess.run([PY, "-c", code], capture_output=True, text=True, env=env(), cwd=HERE)
    if "@@" not in p.stdout:
        raise RuntimeError(p.stderr[-3000:])
    return json.loads(p.stdout[p.stdout.rfind("@@") + 2:])


def load_known(prop):
    out = []
    path = os.path.join(HERE, "known_findings.json")
    if os.path.exists(path):
        for k in json.load(open(path)).get("findings", []):
            if k["property"] == prop:
                out.append(k)
    return out


def is_known(known, contract, viol):
    for k in known:
        if k["contract"] == contract and k["label"] == viol["label"] and (
                not k.get("where") or k["where"] in json.dumps(viol.get("inputs"), default=str)):
            return k
    return None


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        rp = json.load(open(sys.argv[2]))
        r = worker(rp["property"], rp["contract"], "concrete",
                   {"models": [rp["inputs"]], "samples": 0, "seed": 1}, 300)
        print(json.dumps(r, indent=1)[:4000])
        return 1 if r.get("violations") else 0
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"pyvc-{prop}-")
    os.environ["PYVC_SCRATCH"] = scratch
    try:
        return run(prop, tier, seed, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(prop, tier, seed, t0, scratch):
    known = load_known(prop)
    evdir = os.path.join(HERE, "evidence")
    rpdir = os.path.join(evdir, "replays")
    os.makedirs(rpdir, exist_ok=True)
    cts = contracts_of(prop)
    scale = 8 if tier == "thorough" else 1
    sb = 170 if tier == "quick" else 600
    reports = {}
    with cf.ThreadPoolExecutor(max_workers=7) as ex:
        fut = {}
        for c in cts:
            if c["symbolic"]:
                b = min(sb, c["budget"] or sb) if tier == "quick" else sb
                fut[ex.submit(worker, prop, c["name"], "symbolic",
                              {"tier": tier, "budget": b}, b + 60)] = (c, "sym")
            else:
                fut[ex.submit(worker, prop, c["name"], "concrete",
                              {"seed": seed, "samples": c["samples"] * scale,
                               "budget": 100 * scale, "cwd": scratch}, 130 * scale)] = (c, "con")
        pending = set(fut)
        while pending:
            done, pending = cf.wait(pending, return_when=cf.FIRST_COMPLETED)
            for f in done:
                c, kind = fut[f]
                r = f.result()
                reports.setdefault(c["name"], {})[kind] = r
                if kind == "sym":
                    models = [x["model"] for x in r.get("refuted", [])] + r.get(
                        "suspects", []) + r.get("pathmodels", [])
                    nf = ex.submit(worker, prop, c["name"], "concrete",
                                   {"seed": seed, "samples": c["samples"] * scale *
                                    (6 if r.get("refuted") or r.get("suspects") else 1),
                                    "models": models, "budget": 80 * scale, "cwd": scratch},
                                   120 * scale)
                    fut[nf] = (c, "con")
                    pending.add(nf)
    # -- verdict -----------------------------------------------------------------------
    lines, violations, known_hit, n_viol = [], [], [], 0
    tot = dict(ob=0, dis=0, paths=0, undec=0, unsup=0)
    backends, functions, assumptions, bounded, contr = {}, [], [], [], []
    solver_s = 0.0
    from_models = runs = evaluated = 0
    for c in cts:
        rep = reports.get(c["name"], {})
        s, k = rep.get("sym"), rep.get("con")
        functions += [f for f in c["functions"] if f not in functions]
        assumptions += [a for a in c["assumptions"] if a not in assumptions]
        entry = {"contract": c["name"], "doc": c["doc"].split("\n")[0]}
        if c["bounded"]:
            entry["bound"] = c["bounded"]
        concrete_fail = False
        if k:
            entry["concrete"] = {x: k.get(x) for x in
                                 ("runs", "skipped", "evaluated", "distinct", "replayed", "failed",
                                  "wall_s") if k.get(x) is not None}
            runs += k.get("runs", 0)
            evaluated += k.get("evaluated", 0)
            from_models += k.get("replayed", 0)
            if k.get("errors"):
                entry["concrete"]["harness_errors"] = k["errors"][:3]
                lines.append(f"note: {c['name']}: harness error {k['errors'][0]}")
            if k.get("failed"):
                lines.append(f"note: {c['name']}: {k['failed'][-600:]}")
            for i, vio in enumerate(k.get("violations", [])):
                kf = is_known(known, c["name"], vio)
                if kf:
                    if kf not in known_hit:
                        known_hit.append(kf)
                    continue
                concrete_fail = True
                path = os.path.join(rpdir, f"{prop}-{c['name']}-{i}.json")
                with open(path, "w") as fh:
                    json.dump({"property": prop, "contract": c["name"], "label": vio["label"],
                               "detail": vio["detail"], "inputs": vio["inputs"],
                               "found_by": vio["kind"],
                               "replay_cmd": f"{PY} {HERE}/check.py --replay {path}"}, fh, indent=1)
                violations.append((c["name"], vio["label"], path, ""))
        if s:
            if s.get("failed"):
                entry["verifier"] = {"failed": s["failed"][-800:]}
                lines.append(f"note: {c['name']}: verifier {s['failed'][-300:]}")
                tot["undec"] += 1
                tot["ob"] += 1
            else:
                entry["verifier"] = {
                    x: s[x] for x in ("paths", "obligations", "discharged", "by_label",
                                      "backends", "solver_s", "wall_s", "complete",
                                      "invariants")}
                if s["unsupported"]:
                    entry["verifier"]["unsupported"] = s["unsupported"]
                if s["undecided"]:
                    entry["verifier"]["undecided"] = s["undecided"]
                tot["ob"] += s["obligations"] + s["n_unsupported"]
                tot["dis"] += s["discharged"]
                tot["paths"] += s["paths"]
                tot["unsup"] += s["n_unsupported"]
                solver_s += s["solver_s"]
                for b, n in s["backends"].items():
                    backends[b] = backends.get(b, 0) + n
                if s["obligations"] == 0:
                    lines.append(f"note: {c['name']}: zero obligations generated (vacuous)")
                if s["paths"] and not s["pathmodels"]:
                    lines.append(f"note: {c['name']}: no path model found (reachability not shown)")
                if s["refuted"] and not concrete_fail:
                    for i, rf in enumerate(s["refuted"][:2]):
                        vio = {"label": rf["label"], "inputs": rf["model"]}
                        kf = is_known(known, c["name"], vio)
                        if kf:
                            if kf not in known_hit:
                                known_hit.append(kf)
                            continue
                        path = os.path.join(rpdir, f"{prop}-{c['name']}-obligation{i}.json")
                        with open(path, "w") as fh:
                            json.dump({"property": prop, "contract": c["name"],
                                       "label": rf["label"], "failed_obligation": rf["label"],
                                       "verifier_output": rf["detail"], "inputs": rf["model"]},
                                      fh, indent=1)
                        violations.append((c["name"], rf["label"], path, " no-failing-input-found"))
        if not s or s.get("failed") or (s.get("n_unsupported") or s.get("undecided")
                                        or not s.get("complete")):
            bounded.append(c["name"])
        contr.append(entry)
    from pyvc_text import TRUSTED

    level = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    lv = [x["level"] for x in level["checks"] if x["property"] == prop]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": lv[0] if lv else "proof",
        "coverage": {
            "obligations": tot["ob"], "discharged": tot["dis"],
            "checker_cmd": f"{PY} {HERE}/check.py {prop}",
            "trusted_base": TRUSTED,
            "functions_under_contract": functions,
            "paths": tot["paths"], "back_ends": backends, "solver_s": round(solver_s, 2),
            "undecided_or_unsupported": tot["unsup"] + tot["undec"],
            "contracts": contr,
            "bounded_standins": bounded,
            "evaluations": evaluated, "distinct_nontrivial": runs,
            "rule": "run-time evaluation of the same contracts on the unmodified package: verifier "
                    "path models and counterexamples first, then seeded boundary-biased inputs; a "
                    "run is counted only when every assumption held",
            "samples": [r["con"]["sample"] for r in reports.values()
                        if r.get("con") and r["con"].get("sample")][:3],
            "models_replayed": from_models,
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    for ln in lines:
        print(ln)
    for kf in known_hit:
        print(f"KNOWN-FINDING: property={prop} {kf['what']}")
    print(f"{prop}: {tot['dis']}/{tot['ob']} obligations discharged on {tot['paths']} paths; "
          f"{runs} concrete runs ({from_models} verifier models replayed); "
          f"{time.time() - t0:.1f}s")
    if violations:
        seen = set()
        for name, label, path, suffix in violations:
            if (name, label) in seen:
                continue
            seen.add((name, label))
            print(f"violated contract: {name}: {label}")
        violations.sort(key=lambda x: bool(x[3]))
        print(f"VIOLATION property={prop} replay={violations[0][2]}{violations[0][3]}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
