"""Where a contract's paths fork: forks.py PROP CONTRACT (debugging aid)."""
import collections
import os
import sys
import traceback
import logging

logging.disable(logging.CRITICAL)

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.path.insert(0, HERE)
from pyvc import core, worker  # noqa: E402

cnt = collections.Counter()
orig = core.Ctx._record if hasattr(core, "Ctx") else None
cls = next(c for c in vars(core).values() if isinstance(c, type) and hasattr(c, "_record"))
orig = cls._record


def rec(self, *a, **k):
    fr = [f for f in traceback.extract_stack() if "pyvc" not in f.filename and "tools" not in f.filename]
    cnt[" < ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in fr[-1:-4:-1])] += 1
    return orig(self, *a, **k)


cls._record = rec
for ct in worker.load_contracts(sys.argv[1]):
    if ct.name == sys.argv[2]:
        r = worker.run_symbolic(ct, "quick", float(sys.argv[3]) if len(sys.argv) > 3 else 60)
        print({k: r[k] for k in ("paths", "obligations", "discharged", "unsupported", "undecided", "wall_s")})
for k, n in cnt.most_common(25):
    print(n, k)
