"""Runs one contract in one mode and prints a JSON report on the last line."""

import importlib
import json
import os
import random
import resource
import sys
import time
import traceback

REPO_SRC = os.environ.get("PYVC_REPO_SRC", "/repo/src")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_contracts(prop):
    sys.path.insert(0, HERE)
    importlib.import_module(f"contracts.{prop.lower()}")
    from pyvc.harness import REGISTRY

    return REGISTRY[prop]


def run_symbolic(ct, tier, budget):
    from pyvc import core
    from pyvc.core import Shared, explore
    from pyvc.harness import SymMode
    from pyvc.loader import Loader

    t0 = time.time()
    shared = Shared(max_paths=ct.max_paths, prove_timeout=ct.prove_timeout * (3 if tier == "thorough" else 1),
                    deadline=t0 + budget)
    state = {}

    def run(c):
        if "loader" not in state:
            state["loader"] = Loader()
        v = SymMode(c, state["loader"])
        try:
            ct.fn(v)
        except (core.PathEnd, core.Unsupported, core.Restart):
            raise
        except RecursionError as e:
            raise core.Unsupported(f"recursion limit: {e}")
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb][-3:]
            raise core.Unsupported(f"harness error {type(e).__name__}: {e} at {where}")
        finally:
            v.close()

    res = explore(run, shared)
    obs = res.obligations
    by = {}
    for o in obs:
        d = by.setdefault(o.label, {"n": 0, "discharged": 0, "refuted": 0, "undecided": 0})
        d["n"] += 1
        d[o.status] += 1
    backends = {}
    for o in obs:
        if o.status == "discharged":
            backends[o.backend] = backends.get(o.backend, 0) + 1
    refuted = []
    seen = {}
    for o in obs:
        if o.status == "refuted":
            seen[o.label] = seen.get(o.label, 0) + 1
            if seen[o.label] <= 3:
                refuted.append({"label": o.label, "model": o.model, "detail": o.detail})
    unk = sorted({(o.label, o.detail) for o in obs if o.status == "undecided"})
    return {
        "mode": "symbolic", "contract": ct.name, "paths": res.paths, "ended": res.ended,
        "obligations": len(obs),
        "discharged": sum(o.status == "discharged" for o in obs),
        "suspects": [m for _, m in res.suspects if m][:30],
        "by_label": by, "backends": backends, "refuted": refuted, "undecided": unk[:20],
        "unsupported": sorted(set(res.unsupported))[:20],
        "n_unsupported": len(res.unsupported), "complete": res.complete,
        "pathmodels": res.pathmodels, "solver_s": round(res.solver_s, 3),
        "checks": res.checks, "wall_s": round(time.time() - t0, 3),
        "invariants": shared.loop_stats,
        "files": [os.path.relpath(f, REPO_SRC) for f in
                  (state["loader"].loaded_files if "loader" in state else [])],
    }


def run_concrete(ct, seed, samples, models, budget):
    os.environ.setdefault("SPEY_CHECKUPDATE", "OFF")
    sys.path.insert(0, REPO_SRC)
    import warnings

    warnings.filterwarnings("ignore")
    import logging

    logging.disable(logging.CRITICAL)
    from pyvc.core import PathEnd, Unsupported
    from pyvc.harness import ConMode, Skip, Violation

    logging.getLogger("Spey").setLevel(logging.CRITICAL)
    t0 = time.time()
    rng = random.Random(f"{seed}|{ct.name}")
    out = {"mode": "concrete", "contract": ct.name, "runs": 0, "skipped": 0, "evaluated": 0,
           "violations": [], "errors": [], "replayed": 0, "distinct": 0, "sample": None}
    seen = set()

    def one(inputs, kind):
        v = ConMode(rng, inputs)
        try:
            ct.fn(v)
        except Skip:
            out["skipped"] += 1
            return
        except Violation as e:
            out["violations"].append({"label": e.label, "detail": e.detail, "kind": kind,
                                      "inputs": v.used})
        except (PathEnd, Unsupported) as e:
            out["skipped"] += 1
            return
        except BaseException as e:  # noqa: BLE001
            if isinstance(e, KeyboardInterrupt):
                raise
            tb = traceback.extract_tb(e.__traceback__)
            where = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb][-4:]
            out["errors"].append(f"{type(e).__name__}: {e} at {where} inputs={json.dumps(v.used, default=str)[:300]}")
        finally:
            v.close()
        out["runs"] += 1
        out["evaluated"] += v.evaluated
        key = json.dumps(v.used, sort_keys=True, default=str)
        if key not in seen:
            seen.add(key)
            if out["sample"] is None or len(key) < 400 and out["runs"] < 5:
                out["sample"] = json.loads(key)

    for m in models:
        one(m.get("model") if isinstance(m, dict) and "model" in m else m, "verifier-model")
        out["replayed"] += 1
        if len(out["violations"]) > 3 or time.time() - t0 > budget:
            break
    if ct.concrete:
        n = 0
        while n < samples and time.time() - t0 < budget and len(out["violations"]) <= 3:
            one(None, "generated")
            n += 1
    out["distinct"] = len(seen)
    out["wall_s"] = round(time.time() - t0, 3)
    return out


def main():
    prop, name, mode = sys.argv[1:4]
    opts = json.loads(sys.stdin.read() or "{}")
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    sys.setrecursionlimit(6000)
    ct = [c for c in load_contracts(prop) if c.name == name][0]
    if mode == "symbolic":
        rep = run_symbolic(ct, opts.get("tier", "quick"), opts.get("budget", 120))
    else:
        rep = run_concrete(ct, opts.get("seed", 1), opts.get("samples", 100),
                           opts.get("models", []), opts.get("budget", 60))
    sys.stdout.write("\n@@REPORT@@" + json.dumps(rep, default=str) + "\n")
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
