"""C09: the fit interface (scipy and minuit), pinned parameters, bounds and returned values."""

import os
import types

import numpy as np

from pyvc.harness import contract

OC = "spey.optimizer.core"
OS = "spey.optimizer.scipy_tools"
OM = "spey.optimizer.minuit_tools"
SCIPY = ["scipy.optimize.minimize on success returns a point within the bounds that satisfies the "
         "equality constraints, and the objective value there"]
MINUIT = ["iminuit.Minuit keeps fixed parameters at their start and the others within the limits, "
          "and reports the objective value at the point"]


def value(v, f, grad, x):
    y = f(x)
    return y[0] if grad else y


def npvec(v, xs):
    import numpy as np

    if v.symbolic:
        a = np.empty(len(xs), dtype=object)
        for i, x in enumerate(xs):
            a[i] = x
        return a
    return np.array(xs, dtype=float)


def inside(v, x, b, tol=0.0):
    return v.And(True if b[0] is None else x >= b[0] - tol, True if b[1] is None else x <= b[1] + tol)


def scipy_minimize(v, log, fails=0):
    """The assumed contract of scipy.optimize.minimize; the first ``fails`` calls do not converge."""

    def stub(fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None,
             constraints=(), tol=None, callback=None, options=None):
        t = len(log)
        n = len(x0)
        xs = [v.real(f"x{t}_{i}", np64=True) for i in range(n)]
        vec = npvec(v, xs)
        ok = t >= fails
        bs = [(None, None)] * n if bounds is None else [tuple(b) for b in bounds]
        v.ensure("one bound per parameter", len(bs) == n)
        for x, b in zip(xs, bs):
            v.assume(inside(v, x, b))
        cons = list(constraints) if isinstance(constraints, (list, tuple)) else [constraints]
        if ok:
            for c in cons:
                if isinstance(c, dict) and c["type"] == "eq":
                    v.assume(c["fun"](vec) == 0.0)
                elif isinstance(c, dict):
                    v.assume(c["fun"](vec) >= 0.0)
        log.append(types.SimpleNamespace(fun=fun, x0=list(x0), method=method, jac=jac, hess=hess,
                                         bounds=bs, cons=cons, tol=tol, options=dict(options or {}),
                                         x=vec))
        y = fun(vec)
        return types.SimpleNamespace(x=vec, fun=y[0] if jac is True else y, success=ok,
                                     message="", nit=3)

    return stub


def minuit_class(v, log, state="valid"):
    class Minuit:
        """Assumed contract of iminuit.Minuit."""

        LIKELIHOOD = 0.5

        def __init__(self, fcn, start, grad=None, name=None):
            self.fcn, self.start, self.grad = fcn, list(start), grad
            self.limits = [(None, None)] * len(self.start)
            self.fixed = [False] * len(self.start)
            self.errors = [0.1] * len(self.start)
            self.valid, self.accurate = state in ("valid", "inaccurate"), state == "valid"
            log.append(self)

        def migrad(self, ncall=None, **k):
            self.ncall = ncall
            v.ensure("one limit and one flag per parameter",
                     len(self.limits) == len(self.start) == len(self.fixed))
            xs = []
            for i, s in enumerate(self.start):
                if self.fixed[i]:
                    v.ensure("pinned start inside its limits", inside(v, s, self.limits[i]))
                    xs.append(s)
                else:
                    x = v.real(f"x{i}", np64=True)
                    v.assume(inside(v, x, self.limits[i]))
                    xs.append(x)
            self.values = xs
            self.fval = self.fcn(npvec(v, xs))
            edm = v.real("edm", lo=0.0)
            self.fmin = types.SimpleNamespace(
                has_reached_call_limit=state == "call limit", is_above_max_edm=not self.valid,
                edm=edm, fval=self.fval, is_valid=self.valid, nfcn=3, ngrad=0)
            self.nfcn = 3
            return self

        def simplex(self, ncall=None, **k):
            self.way = "simplex"
            return self.migrad(ncall, **k)

        way = "migrad"

    return Minuit


def objective(v, n, grad=False):
    """An arbitrary objective; concretely a convex quadratic with gradient."""
    if v.symbolic:
        g = v.func("objective", np64=True)
        gr = object()
        return (lambda x: (g(*list(x)), gr)) if grad else (lambda x: g(*list(x)))
    import numpy as np

    c = np.array([v.real(f"centre{i}", lo=-4, hi=6) for i in range(n)])
    w = np.array([v.real(f"weight{i}", lo=0.3, hi=4) for i in range(n)])
    r = v.real("mix", lo=0, hi=0.3)

    def f(x):
        d = np.asarray(x) - c
        val = float(np.sum(w * d ** 2) + r * np.sum(d) ** 2)
        return (val, 2 * w * d + 2 * r * np.sum(d)) if grad else val

    return f


def bound(v, i, tag="b"):
    kind = v.choice(f"{tag}kind{i}", ["both", "none", "low", "high"])
    lo, hi = v.real(f"{tag}lo{i}", lo=-20, hi=20), v.real(f"{tag}hi{i}", lo=-20, hi=20)
    v.assume(lo < hi)
    return (lo if kind in ("both", "low") else None, hi if kind in ("both", "high") else None)


def close(v, label, a, b):
    v.ensure_eq(label, a, b, tol=1e-9 if v.symbolic else 1e-5)


@contract("C09", functions=[f"{OS}.minimize"], assumptions=SCIPY, bounded="one to three parameters")
def scipy_fit(v):
    """Pinned parameters at their start, the rest within bounds, value = objective there."""
    m = v.module(OS)
    n = v.choice("npar", [1, 2, 3])
    grad = v.boolean("gradient")
    f = objective(v, n, grad)
    init = [v.real(f"init{i}", lo=-5, hi=5) for i in range(n)]
    mask = v.choice("fixed", [[False] * n, [i == 0 for i in range(n)],
                              [i == n - 1 for i in range(n)], [True] * n])
    bounds = None if v.boolean("unbounded") else [
        (v.real(f"lo{i}", lo=-20, hi=20), v.real(f"hi{i}", lo=-20, hi=20)) for i in range(n)]
    if bounds is not None:
        for (a, b), x in zip(bounds, init):
            v.assume(v.And(a < b, x >= a, x <= b))
    extra = [{"type": "ineq", "fun": lambda x: x[0] + 100.0}] if v.boolean("constraint") else []
    arg = (list(init), list(mask), None if bounds is None else list(bounds), list(extra))
    log = []
    v.external("scipy.optimize.minimize", scipy_minimize(v, log))
    o = {"poi_index": 0, "tol": 1e-9}
    fun, x = v.ok("call", m.minimize, f, arg[0], arg[1], grad, None, arg[2], arg[3], **o)
    v.ensure("one value per parameter", len(x) == n)
    close(v, "value is the objective at the returned point", fun, value(v, f, grad, x))
    for i in range(n):
        if mask[i]:
            close(v, "pinned parameter keeps its value", x[i], init[i])
        if bounds is not None:
            v.ensure("within its bounds", inside(v, x[i], bounds[i], 1e-7))
    v.ensure("the caller's arguments are unchanged",
             v.And(len(arg[0]) == n, len(arg[3]) == len(extra), list(arg[1]) == list(mask),
                   *[v.eq(a, b) for a, b in zip(arg[0], init)],
                   *([] if bounds is None else [v.And(v.eq(a[0], b[0]), v.eq(a[1], b[1]))
                                                for a, b in zip(arg[2], bounds)])))
    if v.symbolic:
        c = log[-1]
        probe = npvec(v, [v.real(f"probe{i}", np64=True) for i in range(n)])
        for e in extra:
            v.ensure("further constraints are kept", v.Or(False, *[
                v.eq(k["fun"](probe), e["fun"](probe)) for k in c.cons
                if isinstance(k, dict) and k["type"] == "ineq"]))
        v.ensure("the objective itself is minimised", v.And(
            v.eq(value(v, c.fun, c.jac is True, probe), value(v, f, grad, probe)),
            bool(c.jac) is grad))
        v.ensure("tolerance reaches the optimiser", c.tol == 1e-9)
    else:  # the optimum of the free parameters
        for i in range(n):
            if not mask[i]:
                for d in (-1e-2, 1e-2):
                    y = list(x)
                    y[i] += d
                    if bounds is None or bounds[i][0] <= y[i] <= bounds[i][1]:
                        v.ensure("no better point nearby", value(v, f, grad, y) >= fun - 1e-5)


@contract("C09", functions=[f"{OS}.minimize"], assumptions=SCIPY,
          bounded="two parameters, up to three trials")
def scipy_retries(v):
    """Each retry starts at the last point, only ever widens the bounds, and keeps the pins."""
    m = v.module(OS)
    n = 2
    fails = v.choice("failures", [0, 1, 2, 3])
    trials = v.choice("ntrials", [0, 1, 2, 3])
    poi = v.choice("poi", [0, 1])
    f = objective(v, n)
    init = [v.real("init0"), v.real("init1")]
    kind = v.choice("bounds", ["none", "both", "half-open"])
    b0 = (v.real("lo0"), v.real("hi0"))
    b1 = (v.real("lo1"), v.real("hi1")) if kind == "both" else v.choice(
        "open", [(None, v.real("hi1")), (v.real("lo1"), None)])
    bounds = None if kind == "none" else [b0, b1]
    pin = v.boolean("pinned")
    log = []
    v.patched("scipy.optimize.minimize", scipy_minimize(v, log, fails))
    fun, x = v.ok("call", m.minimize, f, init, [False, pin], bounds=bounds, poi_index=poi,
                  ntrials=trials)
    v.ensure("as many trials as needed and allowed", len(log) == min(max(trials, 1), fails + 1))
    close(v, "value is the objective at the returned point", fun, f(log[-1].x))
    v.ensure("the last point is returned", v.And(*[v.eq(a, b) for a, b in zip(x, log[-1].x)]))
    for a, b in zip(log, log[1:]):
        v.ensure("starts where the last trial ended",
                 v.And(*[v.eq(p, q) for p, q in zip(b.x0, a.x)]))
        for i in range(n):
            for s in (0, 1):
                old, new = a.bounds[i][s], b.bounds[i][s]
                if old is None:
                    v.ensure("open side stays open", new is None)
                elif s == 0 and i == poi:
                    v.ensure("lower bound of the signal strength kept", v.eq(new, old))
                else:
                    v.ensure("bounds only widen", new <= old if s == 0 else new >= old)
    if pin and fails < max(trials, 1):
        close(v, "pinned parameter keeps its value", x[1], init[1])
    if bounds is not None:
        v.ensure("the caller's bounds are unchanged", bounds[0] is b0 and bounds[1] is b1)


@contract("C09", functions=[f"{OM}.minimize"], assumptions=MINUIT,
          bounded="one to three parameters")
def minuit_fit(v):
    """The same contract for the minuit back end."""
    m = v.module(OM)
    n = v.choice("npar", [1, 2, 3])
    grad = v.boolean("gradient")
    f = objective(v, n, grad)
    init = [v.real(f"init{i}", lo=-5, hi=5) for i in range(n)]
    mask = v.choice("fixed", [[False] * n, [i == 0 for i in range(n)],
                              [i == n - 1 for i in range(n)]])
    if not v.symbolic:
        v.assume(not all(mask))
    bounds = None if v.boolean("unbounded") else [
        (v.real(f"lo{i}", lo=-20, hi=20), v.real(f"hi{i}", lo=-20, hi=20)) for i in range(n)]
    if bounds is not None:
        for (a, b), x in zip(bounds, init):
            v.assume(v.And(a < b, x >= a, x <= b))
    log = []
    state = v.choice("outcome", ["valid", "inaccurate", "invalid", "call limit"])
    v.external("iminuit.Minuit", minuit_class(v, log, state))
    extra = {} if v.symbolic or state != "call limit" else {"maxiter": 2}
    method = v.choice("method", ["migrad", "simplex"])
    fun, x = v.ok("call", m.minimize, f, list(init), list(mask), grad, None,
                  None if bounds is None else list(bounds), poi_index=0, method=method, **extra)
    v.ensure("one value per parameter", len(x) == n)
    close(v, "value is the objective at the returned point", fun, value(v, f, grad, x))
    for i in range(n):
        if mask[i]:
            close(v, "pinned parameter keeps its value", x[i], init[i])
        if bounds is not None:
            v.ensure("within its bounds", inside(v, x[i], bounds[i], 1e-9))


@contract("C09", functions=[f"{OC}.fit", "spey.base.model_config.ModelConfig.fixed_poi_bounds",
                            "spey.base.model_config.ModelConfig.fixed_poi_bounds_multi"],
          assumptions=SCIPY, bounded="one to three parameters", max_paths=6000)
def fit(v):
    """fit pins what it is told to pin, respects the bounds and evaluates the density at the fit."""
    m = v.module(OC)
    MC = v.module("spey.base.model_config").ModelConfig
    n = v.choice("npar", [1, 2, 3])
    poi = v.choice("poi", list(range(n)))
    f = objective(v, n)
    init = [v.real(f"init{i}", lo=-5, hi=5) for i in range(n)]
    mb = [(v.real(f"mlo{i}", lo=-20, hi=20), v.real(f"mhi{i}", lo=-20, hi=20)) for i in range(n)]
    minpoi = v.real("minimum_poi", lo=-30, hi=0)
    for (a, b), x in zip(mb, init):
        v.assume(v.And(a < b, x >= a, x <= b))
    frozen = v.choice("model pins the last", [None, False, True]) if n > 1 else None
    cfg = MC(poi, minpoi, list(init), list(mb), suggested_fixed=None if frozen is None else
             [False] * (n - 1) + [frozen])
    fixed = v.choice("fixed", ["none", "poi", "several"] if n > 1 else ["none", "poi"])
    val = v.real("fixed value", lo=-25, hi=25)
    v.assume(val >= minpoi)
    want = {} if fixed == "none" else {poi: val}
    if fixed == "several":
        want[(poi + 1) % n] = v.real("other value", lo=-25, hi=25)
    start = [v.real(f"start{i}", lo=-5, hi=5) for i in range(n)] if v.boolean("start") else None
    form, extra = v.choice("given as", [
        (list, None), (tuple, [{"type": "ineq", "fun": lambda x: x[0] + 100.0}]), (np.array, [])])
    bounds = None
    if v.boolean("bounds"):
        bounds = [(v.real(f"lo{i}", lo=-20, hi=20), v.real(f"hi{i}", lo=-20, hi=20))
                  for i in range(n)]
        for i, (a, b) in enumerate(bounds):
            v.assume(a < b)
    simple = fixed == "several" and start is None and bounds is None and not frozen
    back = n if simple and v.boolean("counted from the end") else 0
    arg = None if fixed == "none" else val if fixed == "poi" else {
        k - back: x for k, x in want.items()}
    lp = v.func("logpdf") if v.boolean("density") else None
    pins = dict(want)
    if frozen:
        pins.setdefault(n - 1, (start or init)[n - 1])
    if v.symbolic is False:
        for i in range(n):  # scipy clips a start outside the bounds: a contradictory request
            b = (bounds or mb)[i]
            if bounds is not None or i not in want:
                v.assume(b[0] <= pins.get(i, (start or init)[i]) <= b[1])
    log = []
    v.external("scipy.optimize.minimize", scipy_minimize(v, log))
    sarg, barg = None if start is None else form(start), None if bounds is None else \
        (list if form is np.array else form)(bounds)
    carg = None if extra is None else list(extra)
    fun, x = v.ok("call", m.fit, f, cfg, initial_parameters=sarg, bounds=barg, fixed_poi_value=arg,
                  logpdf=(lambda p: lp(*list(p))) if lp else None, minimizer="scipy", tol=1e-9,
                  constraints=carg)
    v.ensure("the caller's constraints are unchanged", extra is None or len(carg) == len(extra))
    v.ensure("one value per parameter", len(x) == n)
    close(v, "value at the returned point", fun, lp(*list(x)) if lp else f(x))
    for i in range(n):
        if i in pins:
            close(v, "pinned parameter keeps its value", x[i], pins[i])
        b = bounds[i] if bounds is not None else mb[i]
        if bounds is not None or i not in want:
            v.ensure("within its bounds", inside(v, x[i], b, 1e-7))
    same = lambda a, b: v.And(len(a) == len(b), *[v.eq(p, q) for p, q in zip(a, b)])
    flat = lambda b: [y for p in b for y in p]
    v.ensure("the model configuration is unchanged",
             v.And(same(cfg.suggested_init, init), same(flat(cfg.suggested_bounds), flat(mb)),
                   cfg.suggested_fixed == (None if frozen is None else [False] * (n - 1) + [frozen])))
    v.ensure("the caller's start, bounds and pins are unchanged",
             v.And(True if start is None else same(sarg, start),
                   True if bounds is None else same(flat(barg), flat(bounds)),
                   True if fixed != "several" else v.And(
                       len(arg) == len(want), *[v.eq(arg[k - back], want[k]) for k in want])))
    if v.symbolic:
        probe = npvec(v, [v.real(f"probe{i}", np64=True) for i in range(n)])
        v.ensure("the objective itself is fitted", v.eq(log[-1].fun(probe), f(probe)))
        v.ensure("options reach the optimiser", log[0].tol == 1e-9)
        kept = [c for c in log[0].cons if isinstance(c, dict) and c["type"] == "ineq"]
        v.ensure("constraints reach the optimiser", len(kept) == len(extra or []) and (
            not kept or v.eq(kept[0]["fun"](probe), probe[0] + 100.0)))
        v.ensure("the search starts where it is told to", v.And(len(log[0].x0) == n, *[
            v.Implies(inside(v, pins.get(i, (start or init)[i]), log[0].bounds[i]),
                      v.eq(log[0].x0[i], pins.get(i, (start or init)[i]))) for i in range(n)]))


@contract("C09", functions=[f"{OC}.fit", f"{OC}._get_minimizer"], assumptions=SCIPY + MINUIT,
          bounded="two parameters")
def back_ends(v):
    """The named optimiser gets the same objective, start, pins and bounds; unknown names: scipy."""
    m = v.module(OC)
    MC = v.module("spey.base.model_config").ModelConfig
    which = v.choice("minimizer", ["scipy", "minuit", "unknown"])
    f = objective(v, 2)
    b = [(-3.0, 3.0), (None, 9.0)]
    i0, i1 = v.real("init0", lo=-2, hi=2), v.real("init1", lo=-2, hi=2)
    cfg = MC(0, -3.0, [i0, i1], list(b))
    mu = v.real("mu", lo=-2, hi=2) if v.boolean("pinned") else None
    sl, ml = [], []
    v.external("scipy.optimize.minimize", scipy_minimize(v, sl))
    v.external("iminuit.Minuit", minuit_class(v, ml))
    if not v.symbolic:  # keep the optimum of the second parameter off the bound
        v.assume(v.real("centre1x", lo=0, hi=1) >= 0)
    how = v.choice("named by", ["argument", "environment", "both"])
    old = os.environ.pop("SPEY_OPTIMISER", None)
    try:
        if how != "argument":
            os.environ["SPEY_OPTIMISER"] = v.choice("spelling", [which, which.upper()]) \
                if how == "environment" else "scipy"
        opt = {} if how == "environment" else {"minimizer": which}
        fun, x = v.ok("call", m.fit, f, cfg, fixed_poi_value=mu, **opt)
    finally:
        os.environ.pop("SPEY_OPTIMISER", None)
        if old is not None:
            os.environ["SPEY_OPTIMISER"] = old
    if v.symbolic:
        v.ensure("the named optimiser is used", (len(sl), len(ml)) == (
            (0, 1) if which == "minuit" else (1, 0)))
    close(v, "value at the returned point", fun, f(x))
    if mu is not None:
        close(v, "pinned signal strength", x[0], mu)
    for i in range(2):
        v.ensure("within its bounds", inside(v, x[i], b[i], 1e-7))


@contract("C09", functions=[f"{OC}.fit", f"{OS}.minimize", f"{OM}.minimize",
                            "spey.optimizer.ValidateOpts.__call__", "spey.optimizer.ValidateOpts.__post_init__"],
          assumptions=SCIPY + MINUIT)
def settings(v):
    """Every option of the caller reaches the optimiser it is for, others are left out, none is changed."""
    m = v.module(OC)
    back = v.choice("minimizer", ["scipy", "minuit"])
    f = objective(v, 1)
    cfg = v.module("spey.base.model_config").ModelConfig(0, -3.0, [v.real("start", lo=-2, hi=2)], [(-3.0, 3.0)])
    ways = ["SLSQP", "COBYLA"] if back == "scipy" else ["migrad", "simplex"]
    given = {}
    for k, xs in [("method", ways), ("tol", [1e-3]), ("maxiter", [7]), ("disp", [True])] + (
            [("errordef", [1.0]), ("strategy", [2])] if back == "minuit" else []):
        x = v.choice(k, [None, *xs])
        if x is not None:
            given[k] = x
    stray = {"frobnicate": 3} if v.boolean("unknown option") else {}
    log = []
    if back == "scipy":
        v.patched("scipy.optimize.minimize", scipy_minimize(v, log))
    elif v.symbolic:
        v.external("iminuit.Minuit", minuit_class(v, log))
    else:
        v.patched(f"{OM}.Minuit", minuit_class(v, log))
    sent = dict(given, **stray)
    fun, x = v.ok("call", m.fit, f, cfg, minimizer=back, **sent)
    v.ensure("one call", len(log) == 1)
    c = log[0]
    if back == "scipy":
        got = {"method": c.method, "tol": c.tol, **c.options}
        want = {"method": "SLSQP", "tol": 1e-6, "maxiter": 10000, "disp": False, **given}
    else:
        got = {"method": c.way, "tol": c.tol, "maxiter": c.ncall, "disp": c.print_level,
               "errordef": c.errordef, "strategy": c.strategy}
        want = {"method": "migrad", "tol": 1e-6, "maxiter": 10000, "disp": 0, "errordef": 0.5,
                "strategy": 0, **given}
    v.ensure("options", got == want, (got, want))
    v.ensure("the caller's options are unchanged", sent == dict(given, **stray))
    if back == "scipy":
        o = v.outcome(v.module(OS).minimize, f, [0.0], [False], **sent)
        v.ensure("the position of the signal strength is required", o.raised("AssertionError"), o)
    elif v.boolean("unknown way"):
        o = v.outcome(m.fit, f, cfg, minimizer=back, method="no such method")
        v.ensure("unknown methods are refused", o.raised("ValueError"), o)
