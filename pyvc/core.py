"""Exploration core: path conditions, forking, obligations, axiom instantiation, solver access.

One *path* of the real code is executed at a time by CPython on symbolic proxies (values.py).  A
branch on a symbolic condition calls :meth:`Ctx.decide`, which asks z3 which outcomes are feasible
under the path condition; every feasible outcome is explored by re-executing the harness with a
decision prefix.  ``Ctx.prove`` generates one proof obligation: path condition => condition.
"""

import time
from fractions import Fraction

import z3


class Unsupported(BaseException):
    """A construct outside the verifier's reach (the path stays undecided)."""


class PathEnd(BaseException):
    """The current path ends here (infeasible assumption or loop back-edge)."""


class Restart(BaseException):
    """An invariant candidate was dropped: the exploration restarts with the smaller set."""


CUR = None  # the current Ctx


def ctx():
    if CUR is None:
        raise RuntimeError("no symbolic context")
    return CUR


def q(x):
    """Exact rational z3 value of a python number."""
    if isinstance(x, bool):
        return z3.RealVal(1 if x else 0)
    if isinstance(x, int):
        return z3.RealVal(x)
    fr = Fraction(float(x))
    return z3.RealVal(f"{fr.numerator}/{fr.denominator}")


def is_true(e):
    return z3.is_true(e)


def is_false(e):
    return z3.is_false(e)


class Obligation:
    __slots__ = ("label", "status", "backend", "seconds", "model", "detail", "path")

    def __init__(self, label):
        self.label = label
        self.status = "undecided"
        self.backend = ""
        self.seconds = 0.0
        self.model = None
        self.detail = ""
        self.path = None


class Ctx:
    """State of one symbolic execution path plus what is shared between paths."""

    def __init__(self, shared, prefix):
        self.shared = shared
        self.prefix = prefix
        self.taken = []          # decision values along the path
        self.alts = []           # prefixes still to explore, found on this path
        self.pc = []             # path condition (list of z3 Bool)
        self.solver = z3.Solver()
        self.solver.set("timeout", shared.feas_timeout)
        self.apps = {}           # UF name -> {argkey: (args, result)}
        self.fresh_n = 0
        self.inputs = {}         # name -> descriptor used to rebuild concrete inputs
        self.notes = []
        self.obl = []
        self.events = {}
        self.loop_depth = 0
        self.steps = 0
        self.taint = ""
        self.suspects = []

    # -- symbols ---------------------------------------------------------------
    def fresh(self, base, sort="real"):
        self.fresh_n += 1
        nm = f"{base}!{self.fresh_n}"
        return {"real": z3.Real, "int": z3.Int, "bool": z3.Bool}[sort](nm)

    # -- path condition ---------------------------------------------------------
    def add(self, e):
        if is_true(e):
            return
        self.pc.append(e)
        self.solver.add(e)

    def fact(self, e):
        """A valid fact (axiom instance)."""
        self.add(e)

    def feasible(self, e=None):
        t0 = time.time()
        self.shared.n_checks += 1
        r = self.solver.check(*([e] if e is not None else []))
        self.shared.solver_s += time.time() - t0
        if self.shared.deadline and time.time() > self.shared.deadline:
            raise Unsupported("exploration deadline")
        return r != z3.unsat

    def assume(self, e):
        e = z3.simplify(e)
        if is_true(e):
            return
        if is_false(e):
            raise PathEnd("assume false")
        self.add(e)
        if len(self.taken) >= len(self.prefix):
            if not self.feasible():
                raise PathEnd("assume infeasible")

    def _record(self, value, others):
        pos = len(self.taken)
        for o in others:
            self.alts.append(self.taken[:pos] + [o])
        self.taken.append(value)

    def decide(self, e):
        """Fork on a z3 Bool; returns the python truth value on this path."""
        e = z3.simplify(e)
        if is_true(e):
            return True
        if is_false(e):
            return False
        self.steps += 1
        if self.steps > self.shared.max_steps:
            raise Unsupported("too many decisions on one path")
        pos = len(self.taken)
        if pos < len(self.prefix):
            val = self.prefix[pos]
            self.taken.append(val)
        else:
            ne = z3.simplify(z3.Not(e))
            t = self.feasible(e)
            f = self.feasible(ne) if t else True
            if t and f:
                probe = getattr(self, "loop_probe", None)
                if probe is not None and not probe.cut:
                    from .loader import LoopFork

                    self.taken.append("L")
                    raise LoopFork()
                self._record(True, [False])
                val = True
            else:
                val = bool(t)
                self.taken.append(val)
        self.add(e if val else z3.simplify(z3.Not(e)))
        return val

    def choose(self, n, label=""):
        """Exhaustive finite choice 0..n-1 (an enumerated case split)."""
        if n == 1:
            return 0
        pos = len(self.taken)
        if pos < len(self.prefix):
            val = self.prefix[pos]
            self.taken.append(val)
        else:
            val = 0
            self._record(0, list(range(1, n)))
        return val

    # -- uninterpreted applications with axioms ----------------------------------
    def app(self, name, args, sort="real", axioms=None):
        args = tuple(z3.simplify(a) for a in args)
        key = tuple(a.get_id() for a in args)
        tab = self.apps.setdefault(name, {})
        if key in tab:
            return tab[key][1]
        f = self.shared.func(name, [a.sort() for a in args], sort)
        res = f(*args)
        prev = list(tab.values())
        tab[key] = (args, res)
        self.shared.keep.append(args)
        ax = axioms or self.shared.axioms.get(name)
        if ax is not None:
            for fct in ax(args, res, prev):
                self.fact(z3.simplify(fct))
        return res

    # -- obligations --------------------------------------------------------------
    def prove(self, label, cond, hints=()):
        ob = Obligation(label)
        ob.path = list(self.taken)
        self.obl.append(ob)
        t0 = time.time()
        e = z3.simplify(cond) if z3.is_expr(cond) else z3.BoolVal(bool(cond))
        if is_true(e):
            ob.status, ob.backend = "discharged", "simplifier"
        else:
            from . import solve

            st, be, model, detail = solve.check_valid(self, e, hints)
            ob.status, ob.backend, ob.model, ob.detail = st, be, model, detail
        ob.seconds = time.time() - t0
        self.shared.solver_s += ob.seconds
        if ob.status == "refuted" and self.taint:
            # the path went through an exception a proxy may have caused: only a concrete
            # replay of the model can turn this into a violation
            ob.status = "undecided"
            ob.detail = f"suspect: {self.taint}; {ob.detail}"
            self.suspects.append((label, self.concretise(ob.model) if ob.model is not None else None))
        if ob.status == "refuted":
            ob.detail = ob.detail or "path condition and negated goal satisfiable"
            ob.model = self.concretise(ob.model)
        return ob.status == "discharged"

    def concretise(self, model):
        """Concrete inputs (for replay) from a z3 model."""
        out = {}
        for name, d in self.inputs.items():
            try:
                out[name] = d(model)
            except Exception as exc:  # pragma: no cover - best effort
                out[name] = None
        return out


class Shared:
    """State shared by all paths of one harness exploration."""

    def __init__(self, feas_timeout=3000, prove_timeout=10000, max_paths=4000, max_steps=400,
                 deadline=None):
        self.feas_timeout = feas_timeout
        self.prove_timeout = prove_timeout
        self.max_paths = max_paths
        self.max_steps = max_steps
        self.deadline = deadline
        self.solver_s = 0.0
        self.n_checks = 0
        self.funcs = {}
        self.keep = []
        self.axioms = {}
        self.sums = {}
        self.dropped_invariants = set()
        self.loop_stats = {}
        from . import theory

        theory.install(self)

    def func(self, name, sorts, ret="real"):
        key = (name, tuple(str(s) for s in sorts), ret)
        if key not in self.funcs:
            rs = {"real": z3.RealSort(), "int": z3.IntSort(), "bool": z3.BoolSort()}[ret]
            self.funcs[key] = z3.Function(name, *sorts, rs)
        return self.funcs[key]


class Result:
    def __init__(self):
        self.paths = 0
        self.obligations = []
        self.unsupported = []
        self.complete = True
        self.pathmodels = []
        self.solver_s = 0.0
        self.checks = 0
        self.restarts = 0
        self.suspects = []
        self.ended = 0


def explore(run, shared, want_models=True):
    """Explore every feasible path of ``run(ctx)``.  Returns a Result."""
    global CUR
    while True:
        res = Result()
        work = [[]]
        restart = False
        while work:
            if res.paths >= shared.max_paths or (
                shared.deadline and time.time() > shared.deadline
            ):
                res.complete = False
                res.unsupported.append("path budget or time budget exhausted")
                break
            prefix = work.pop()
            c = Ctx(shared, prefix)
            CUR = c
            try:
                run(c)
                res.paths += 1
            except PathEnd:
                res.ended += 1
            except Restart:
                restart = True
                break
            except Unsupported as exc:
                import traceback

                tb = traceback.extract_tb(exc.__traceback__)
                where = [f"{f.filename}:{f.lineno}" for f in tb if "/spey/" in f.filename]
                res.unsupported.append(
                    f"{exc}" + (f" at {where[-1]}" if where else "")
                )
                res.complete = False
            finally:
                CUR = None
            if want_models and len(res.pathmodels) < 60:
                try:
                    c.solver.set("timeout", 1500)
                    if c.solver.check() == z3.sat:
                        CUR = c
                        res.pathmodels.append(c.concretise(c.solver.model()))
                except Exception:
                    pass
                finally:
                    CUR = None
            res.obligations.extend(c.obl)
            res.suspects.extend(c.suspects)
            work.extend(c.alts)
        if restart:
            continue
        res.solver_s = shared.solver_s
        res.checks = shared.n_checks
        return res
