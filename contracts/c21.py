"""C21: contour points lie on the chi-square threshold of the (profiled) likelihood and in bounds."""

import math
import types
import warnings

import numpy as np

from pyvc.harness import contract

CT = "spey.multiparameter.contour"
MC = "spey.base.model_config"
STAGES = [f"{CT}.find_contour", f"{CT}._find_mle", f"{CT}._find_basins_contour_subspace",
          f"{CT}._radial_search"]
ASSUMED = ["scipy.optimize.root_scalar: for a sign change on the bracket it returns a root inside "
           "it", "chi-square quantile, autograd and the random generator (arbitrary values)",
           "maximize_likelihood by its contract (C09)",
           "one whitening matrix; the points must not depend on which one is used"]


class Rng:
    """A random generator with arbitrary draws."""

    def __init__(self, v, values=None):
        self.v, self.n, self.draws, self.values = v, 0, [], values

    def _one(self, **kw):
        self.n += 1
        x = self.v.real(f"draw {self.n}", **kw) if self.values is None else self.values[
            (self.n - 1) % len(self.values)]
        self.draws.append(x)
        return x

    def standard_normal(self, size=None, **k):
        if size is None:
            return self._one()
        a = np.empty(size, dtype=object)
        for i in np.ndindex(*a.shape):
            a[i] = self._one()
        return a

    normal = lambda self, loc=0.0, scale=1.0, size=None: self.standard_normal(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        self.n += 1
        x = self.v.real(f"draw {self.n}")
        self.v.assume(self.v.And(x >= low, x <= high))
        return x

    def integers(self, *a, **k):
        self.n += 1
        return self.n


def root_finder(v, roots, fails=None):
    """A root of every sign change; ``fails`` lists the ways in which the search may give up."""
    calls = [0]

    def stub(f, args=(), method=None, bracket=None, **kw):
        a, b = bracket
        fa, fb = f(a, *args), f(b, *args)
        v.ensure("root searched on a sign change",
                 v.Or(v.And(fa <= 0.0, fb >= 0.0), v.And(fa >= 0.0, fb <= 0.0)))
        calls[0] += 1
        how = v.choice(f"root search {calls[0]}", ["found"] + fails) if fails else "found"
        if how == "raises":
            raise ValueError("no root")
        if how == "not converged":
            return types.SimpleNamespace(root=v.real(f"no root {calls[0]}"), converged=False,
                                         flag="convergence error")
        if how == "jump":
            r = v.real(f"jump {calls[0]}")
            v.assume(v.And(r >= v.min(a, b), r <= v.max(a, b)))
            return types.SimpleNamespace(root=r, converged=True, flag="converged")
        r = v.real(f"root {len(roots)}")
        v.assume(v.And(r >= v.min(a, b), r <= v.max(a, b)))
        v.assume(v.eq(f(r, *args), 0.0))
        roots.append(r)
        return types.SimpleNamespace(root=r, converged=True, flag="converged")

    return stub


class World:
    """A model that is only known through its density, its configuration and its fit."""

    def __init__(self, v, npar, poi, names=True, constraints=(), bounds=None, k=None,
                 draws=None):
        self.v, self.npar, self.poi, self.k = v, npar, poi, k
        self.f = v.func("logpdf")
        self.signal = [i for i in range(npar) if i != poi]
        self.mle = {i: v.real(f"mle {i}") for i in self.signal}
        self.bounds = bounds or [(v.real(f"cfg lo {i}"), v.real(f"cfg hi {i}"))
                                 for i in range(npar)]
        self.names = [f"p{i}" for i in range(npar)] if names else None
        self.cfg = v.module(MC).ModelConfig(poi, -10.0, [0.5] * npar, list(self.bounds),
                                            parameter_names=self.names)
        self.constraints = constraints
        self.fits, self.roots, self.rng = [], [], Rng(v, draws)
        self.backend = types.SimpleNamespace(
            get_logpdf_func=lambda *a, **k: self.logpdf,
            get_hessian_logpdf_func=lambda *a, **k: (lambda p: v.token("hessian")))
        self.quantiles = []
        v.external("scipy.optimize.root_scalar", root_finder(v, self.roots))
        v.external("numpy.random.default_rng", self.generator)
        v.external("scipy.stats.chi2.ppf", self.ppf)
        self.seeds = []

    def generator(self, seed=None):
        self.seeds.append(seed)
        return self.rng

    def ppf(self, q, df=1, **k):
        d = self.v.real(f"quantile {len(self.quantiles)}", lo=0.0, lo_open=True)
        self.quantiles.append((q, df, d))
        return d

    def logpdf(self, p):
        p = np.asarray(p, dtype=object)
        self.v.ensure("density evaluated at a full parameter vector", p.shape == (self.npar,))
        return self.f(p)

    def nll(self, pars):
        """NLL of the signal parameters with a unit signal strength."""
        full = np.empty(self.npar, dtype=object)
        full[self.poi] = 1.0
        for i, x in zip(self.signal, pars):
            full[i] = x
        return -self.f(full)

    def config(self, *a, **k):
        return self.cfg

    def prepare_for_fit(self, *a, **k):
        r = {"model_configuration": self.cfg}
        if self.constraints:
            r["constraints"] = list(self.constraints)
        return r

    def maximize_likelihood(self, *a, return_nll=True, poi_indices=None, **kw):
        self.fits.append(kw)
        self.v.ensure("fit asked for its NLL", return_nll is True)
        self.v.ensure_eq("fit at unit signal strength", kw.get("fixed_poi_value"), 1.0)
        return ({i: self.mle[i] for i in poi_indices},
                self.nll([self.mle[i] for i in self.signal]))


def some_whitener(v, m):
    def stub(hessian_fn, theta, contour_indices, profile_indices, k, reg, *a):
        T = np.array([[0.75, 0.0], [-0.25, 1.5]])[:k, :k]
        return np.linalg.inv(T).T, T

    return v.callee(m, "_build_whitener", stub)


def some_bounds(v, k, which):
    if which == "none":
        return None
    if which == "both":
        return [(v.real(f"lo {i}"), v.real(f"hi {i}")) for i in range(k)]
    if which == "lower":
        return [(v.real(f"lo {i}"), None) for i in range(k)]
    return [(None, v.real(f"hi {i}")) if i == 0 else (None, None) for i in range(k)]


def check_points(v, w, r, k, bounds, nll):
    v.ensure("one row per point, one column per contour parameter",
             r.contour_points.shape == (len(r.contour_points), k))
    v.ensure("one origin flag per point", len(r.from_radial) == len(r.contour_points))
    for x in r.contour_points:
        v.ensure_eq("point is on the threshold", nll(list(x)), r.threshold)
        for i, (lo, hi) in enumerate(bounds or []):
            if lo is not None:
                v.ensure("point above the lower bound", x[i] >= lo)
            if hi is not None:
                v.ensure("point below the upper bound", x[i] <= hi)


def check_threshold(v, w, r, k, cl):
    (q, df, d) = w.quantiles[-1]
    v.ensure_eq("quantile of the confidence level", q, cl)
    v.ensure("as many degrees of freedom as contour parameters", df == k)
    v.ensure_eq("threshold half a quantile above the minimum", r.threshold, r.nll_min + 0.5 * d)
    v.ensure_eq("quantile reported", r.delta, d)
    v.ensure_eq("confidence level reported", r.confidence_level, cl)
    v.ensure("degrees of freedom reported", r.dof == k)


@contract("C21", functions=STAGES, assumptions=ASSUMED,
          bounded="one or two contour parameters, one or two rays in given directions, one extra "
          "start of the minimum search")
def rays(v):
    """Radial points of every likelihood: on the threshold, inside the bounds, never invented."""
    if not v.symbolic:
        v.assume(False)
    m = v.module(CT)
    k, poi, which, n, starts, names = v.choice("case", [
        (1, 0, "none", 1, 1, True), (1, 1, "both", 1, 1, False), (1, 0, "lower", 1, 1, True),
        (1, 0, "none", 1, 2, True), (1, 1, "both", 2, 1, True), (2, 1, "upper", 1, 1, True),
        (2, 2, "none", 1, 1, True), (2, 0, "upper", 1, 1, True)])
    w = World(v, k + 1, poi, names=names, draws=v.choice(
        "directions", [[1.0, -2.0]] if k == 1 else [[3.0, 4.0], [-3.0, 4.0], [0.0, -1.0]]))
    bounds = some_bounds(v, k, which)
    used = bounds if bounds is not None else [w.bounds[i] for i in w.signal]
    for lo, hi in used:
        if lo is not None and hi is not None:
            v.assume(lo < hi)
    found = []

    def minimize(fun, x0=None, jac=None, bounds=None, **kw):
        how = v.choice("minimum search", ["ends", "diverges", "nan", "raises"])
        if how == "raises":
            raise ValueError("gave up")
        if how != "ends":
            return types.SimpleNamespace(x=np.full(k, 1e9), success=True,
                                         fun=math.nan if how == "nan" else -math.inf)
        x = np.empty(k, dtype=object)
        for i in range(k):
            x[i] = v.real(f"minimum {i}")
        v.ensure("starts inside the bounds of the search",
                 v.And(*[v.And(True if lo is None else a >= lo, True if hi is None else a <= hi)
                         for a, (lo, hi) in zip(x0, bounds)]))
        y = fun(x)
        v.ensure_eq("minimum searched for the NLL at unit signal strength", y, w.nll(list(x)))
        found.append((x, y))
        return types.SimpleNamespace(x=x, fun=y, success=True)

    v.external("scipy.optimize.minimize", minimize)
    v.external("autograd.grad", lambda f, argnum=0: (lambda *a: np.array([0.0] * k)))
    some_whitener(v, m)
    v.callee(m, "_detect_gap_directions", lambda dirs, *a, **kw: np.empty((0, k)))
    cl = v.real("confidence level", lo=0.0, lo_open=True, hi=1.0, hi_open=True)
    seed = v.choice("seed", [7, 0, None] if names else [0])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = v.ok("find_contour", m.find_contour, w, cl, None, n_radial=n, n_hmc_chains=0,
                 n_multistart=starts, n_coverage_passes=1, n_jobs=1, bounds=bounds, random_seed=seed)
    check_threshold(v, w, r, k, cl)
    v.ensure("seed used", w.seeds[:1] == [seed] and type(w.seeds[0]) is type(seed))
    v.ensure_eq("best fit and its NLL agree", w.nll(list(r.theta_mle)), r.nll_min)
    v.ensure("no start is below the reported minimum",
             v.And(r.nll_min <= w.nll([w.mle[i] for i in w.signal]),
                   *[r.nll_min <= y for _, y in found]))
    v.ensure("names of the contour parameters", r.parameter_names == (
        None if w.names is None else [w.names[i] for i in w.signal]))
    check_points(v, w, r, k, bounds, w.nll)
    v.ensure("radial points only", all(bool(x) for x in r.from_radial))
    v.ensure("no more points than roots", len(r.contour_points) <= len(w.roots))
    if len(r.contour_points) < len(w.roots):
        v.ensure("roots are dropped only because of the bounds", any(
            b is not None for p in used for b in p))


@contract("C21", functions=[f"{CT}.find_contour"], assumptions=ASSUMED + [
    "SLSQP returns an arbitrary point of the profiled parameters"],
    bounded="one contour and one profiled parameter, one ray")
def profiled(v):
    """Parameters that are not mapped are minimised over, under their bounds and constraints."""
    if not v.symbolic:
        v.assume(False)
    m = v.module(CT)
    poi = v.choice("position of the signal strength", [0, 1, 2])
    others = [i for i in range(3) if i != poi]
    c = v.choice("contour parameter", others)
    p = [i for i in others if i != c][0]
    kind = v.choice("constraint", ["none", "dict", "object"])
    g = v.func("constraint")
    con = lambda full: g(np.asarray(full, dtype=object))
    lb = v.real("constraint lb")
    cons = {"none": [], "dict": [{"type": "ineq", "fun": con}],
            "object": [types.SimpleNamespace(fun=con, lb=lb, ub=math.inf, jac="2-point")]}[kind]
    w = World(v, 3, poi, constraints=cons)
    mu = w.signal
    v.assume(w.bounds[c][0] < w.bounds[c][1])
    best = v.func("profile")

    def minimize(fun, x0=None, jac=None, bounds=None, constraints=(), method=None, **kw):
        v.ensure("profile starts from the best fit", len(x0) == 1)
        v.ensure_eq("profile start", x0[0], w.mle[p])
        v.ensure("one bound per profiled parameter", len(bounds) == 1)
        v.ensure_eq("profiled within the bounds of the model", list(bounds[0]), list(w.bounds[p]))
        v.ensure("constraints of the model are kept", len(constraints) == len(cons))
        t = v.real("trial")
        x = np.array([t], dtype=object)
        got = fun(x)
        # the function minimised is the NLL with the contour parameter held
        at = minimize.at
        full = np.empty(3, dtype=object)
        full[poi], full[c], full[p] = 1.0, at, t
        v.ensure_eq("profiled function", got, -w.f(full))
        for q in constraints:
            fun_ = q["fun"] if isinstance(q, dict) else q.fun
            v.ensure_eq("constraint at the full parameter vector", fun_(x), g(full))
            if not isinstance(q, dict):
                v.ensure_eq("constraint bound", q.lb, lb)
        y = np.array([best(at)], dtype=object)
        return types.SimpleNamespace(x=y, fun=fun(y), success=True)

    seen = []

    def spy(nll_scalar, grad_nll, bounds, *a, **k):
        x = v.real("probe")
        minimize.at = x
        full = np.empty(3, dtype=object)
        full[poi], full[c], full[p] = 1.0, x, best(x)
        got = nll_scalar(np.array([x], dtype=object))
        low = 0.0 if kind == "dict" else lb
        if kind == "none" or v.holds(g(full) >= low):
            v.ensure_eq("profiled NLL", got, -w.f(full))
        elif v.holds(g(full) < low - 1e-3):
            v.ensure("no level where the constraints can not be met",
                     isinstance(got, float) and not math.isfinite(got), got)
        else:
            v.ensure("rounding", isinstance(got, float) or v.holds(v.eq(got, -w.f(full))))
        grads = grad_nll(np.array([x], dtype=object))
        v.ensure("one gradient entry", len(grads) == 1)
        G = v.func("gradient")
        v.ensure_eq("gradient at the profiled point", grads[0], -G(float(c), *full))
        v.ensure_eq("bounds of the contour parameter", list(bounds[0]), list(w.bounds[c]))
        seen.append(x)
        raise Done()

    class Done(Exception):
        pass

    def grad(f, argnum=0):
        G = v.func("gradient")
        return lambda full: np.array([G(float(i), *full) for i in range(3)], dtype=object)

    v.external("scipy.optimize.minimize", minimize)
    v.external("autograd.grad", grad)
    if not v.callee(m, "_find_basins_contour_subspace", spy):
        return
    o = v.outcome(m.find_contour, w, 0.9, [c] + v.choice("poi listed", [[], [poi]]), n_radial=1,
                  n_hmc_chains=0, n_multistart=1, n_coverage_passes=1, n_jobs=1)
    v.ensure("reached the contour search", type(o.exc).__name__ == "Done", o)


@contract("C21", functions=[f"{CT}._radial_search"], assumptions=ASSUMED[:2],
          bounded="one or two contour parameters, one or two rays")
def radial(v):
    """Each radial point is a root of NLL - threshold along its own direction and in its reach."""
    if not v.symbolic:
        v.assume(False)
    m = v.module(CT)
    if not hasattr(m, "_radial_search"):
        return
    k, n = v.choice("case", [(1, 1), (1, 2), (2, 1)])
    f, T, R = v.func("nll"), [v.func(f"theta {i}") for i in range(k)], v.func("reach")
    nll = lambda x: f(np.asarray(x, dtype=object))
    to_theta = lambda p: np.array([t(np.asarray(p, dtype=object)) for t in T], dtype=object)
    reach = v.choice("reach", [None, lambda e: R(np.asarray(e, dtype=object))])
    roots = []
    v.external("scipy.optimize.root_scalar", root_finder(v, roots, [
        "not converged", "raises", "jump"]))
    t = v.real("threshold")
    mle = np.array([v.real(f"mle {i}") for i in range(k)], dtype=object)
    top = v.real("largest radius", lo=1.0)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        pts, dirs = v.ok("radial search", m._radial_search, nll, mle, t, to_theta, k, n, top,
                         Rng(v), reach)
    v.ensure("one direction per point", len(pts) == len(dirs))
    for x in pts:
        v.ensure("on the threshold up to rounding", v.Or(
            abs(nll(x) - t) <= 1e-3, abs(nll(x) - t) <= 1e-3 * abs(t)))
    if len(pts) > len(roots):
        return
    v.ensure("no root is lost", len(pts) == len(roots))
    for x, e, r in zip(pts, dirs, roots):
        v.ensure_eq("on the threshold", nll(x), t)
        v.ensure_eq("along its own direction", list(x), list(to_theta(r * e)))
        v.ensure("within the reach", v.And(r <= v.max(top, 1e-8), True if reach is None else
                                           r <= v.max(reach(e), 1e-8)))
        v.ensure_eq("unit direction", sum(y * y for y in e), 1.0)


@contract("C21", functions=[f"{CT}._project_theta"],
          bounded="one or two contour parameters (any number of iterations)")
def projection(v):
    """The projection returns a point on the contour or reports its failure."""
    m = v.module(CT)
    if not hasattr(m, "_project_theta"):
        return
    k = v.choice("dimension", [1, 2])
    if v.symbolic:
        f = v.func("nll")
        fun = lambda x: f(np.asarray(x, dtype=object))
        g = [v.func(f"grad {i}") for i in range(k)]
        grad = lambda x: np.array([h(np.asarray(x, dtype=object)) for h in g], dtype=object)
        v.c.cut_for = True
        x0 = np.array([v.real(f"x{i}") for i in range(k)], dtype=object)
    else:
        a, b = v.real("a", lo=0.01, hi=4), v.real("b", lo=-2, hi=2)
        fun = lambda x: float(a * np.sum(x**2) + b * math.cos(float(np.sum(x))))
        grad = lambda x: 2 * a * x - b * math.sin(float(np.sum(x)))
        x0 = np.array([v.real(f"x{i}") for i in range(k)])
    t = v.real("threshold")
    tol = v.real("tolerance", lo=1e-12, hi=1e-3, pool=[1e-9, 1e-6])
    n = v.int("iterations", lo=0)
    o = v.outcome(m._project_theta, fun, grad, x0, t, tol, n)
    if not o.ok:
        return
    res = abs(fun(o.value) - t)
    v.ensure("projected point is on the contour up to rounding", v.Or(
        res <= tol, res <= 1e-6, res <= 1e-6 * abs(t)))


@contract("C21", functions=[f"{CT}._rattle_walk", f"{CT}._rattle_step", f"{CT}._run_hmc_chains",
                            f"{CT}._find_gap_starts", f"{CT}.find_contour"],
          assumptions=ASSUMED + ["_project_theta by its contract (projection)"],
          bounded="two contour parameters, one ray, one chain of one or two steps", budget=150)
def chains(v):
    """Points of the constrained walks: on the threshold and inside the bounds."""
    if not v.symbolic:
        v.assume(False)
    m = v.module(CT)
    k = 2
    w = World(v, 3, 0, draws=[3.0, 4.0])
    which, steps = v.choice("case", [("upper", 0), ("upper", 1), ("upper", 2), ("none", 0)])
    bounds = some_bounds(v, k, which)
    used = bounds if bounds is not None else [w.bounds[i] for i in w.signal]
    for lo, hi in used:
        if lo is not None and hi is not None:
            v.assume(lo < hi)
    cl = 0.9
    v.external("autograd.grad", lambda f, argnum=0: (lambda x: np.array([1.0, -0.5])))
    some_whitener(v, m)
    count, walked = [0], []

    def project(nll_scalar, grad_nll, theta, threshold, *a, **kw):
        count[0] += 1
        if v.choice(f"projection {count[0]}", ["ok", "fails"]) == "fails":
            raise RuntimeError("not converged")
        x = np.array([v.real(f"on {count[0]} {i}") for i in range(k)], dtype=object)
        v.assume(v.eq(nll_scalar(x), threshold))
        walked.append(x.copy())
        return x

    ok = v.callee(m, "_project_theta", project)
    ok = ok and v.callee(m, "_detect_gap_directions", lambda dirs, *a, **kw: np.array(
        [[-0.6, 0.8]], dtype=object))
    if not ok:
        return
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = v.ok("find_contour", m.find_contour, w, cl, None, n_radial=1, n_hmc_chains=1,
                 n_hmc_steps=steps, n_multistart=1, n_coverage_passes=1, n_jobs=1, bounds=bounds)
    check_points(v, w, r, k, bounds, w.nll)
    for x, ray in zip(r.contour_points, r.from_radial):
        v.ensure("origin of the points", bool(ray) or any(
            all(a is b or v.holds(v.eq(a, b)) for a, b in zip(x, y)) for y in walked))
    v.ensure("as many points of the walks as they visited at most",
             sum(not bool(f) for f in r.from_radial) <= len(walked))


@contract("C21", functions=[f"{CT}.find_contour"])
def refused(v):
    """Confidence levels outside (0,1), ill-sized bounds and empty contour spaces are refused."""
    m = v.module(CT)
    case = v.choice("case", ["level", "bounds", "empty"])
    if v.symbolic:
        w = World(v, 3, 0)
    else:
        w = real_model(v)[0]
    kw = {}
    if case == "level":
        cl = v.real("confidence level", pool=[0.0, 1.0, -0.1, 95.0])
        v.assume(v.Or(cl <= 0.0, cl >= 1.0))
        kw["confidence_level"] = cl
    elif case == "bounds":
        kw["bounds"] = [(None, None)] * v.choice("length", [0, 1, 3, 4])
    else:
        kw["poi_indices"] = v.choice("indices", [[], [0]])
    o = v.outcome(m.find_contour, w, **kw)
    v.ensure("refused with ValueError", o.raised("ValueError"), o)
    if v.symbolic:
        v.ensure("nothing is fitted", not w.fits)


def real_model(v, k=2, kind=None, profile=False):
    """(model, number of signal parameters, NLL at unit signal strength, oracle of the NLL)."""
    import autograd.numpy as anp
    import spey
    from scipy.optimize import minimize

    n = 3
    b = np.array([50.0, 48.0, 30.0])
    s = np.array([v.real(f"s{i}", lo=2, hi=20) for i in range(n)])
    shift = np.array([v.real(f"shift{i}", lo=-8, hi=8) for i in range(n)])
    slope = np.array([[1.0, -2.0, 3.0], [2.0, 1.0, -1.5]])[: max(k - 1, 0)]
    kind = kind or v.choice("signal", ["linear", "quadratic"])
    if kind == "linear":
        sig = lambda p: s * (1.0 + p[0]) + sum(slope[j] * p[j + 1] for j in range(k - 1))
    else:
        sig = lambda p: 0.3 * s * p[0] ** 2 + sum(slope[j] * p[j + 1] for j in range(k - 1))
    data = np.round(b + 0.3 * s + shift)
    common = dict(signal_yields=sig, background_yields=b, data=data, n_signal_parameters=k,
                  analysis="contour")
    if profile:
        m = spey.get_backend("default.uncorrelated_background")(
            absolute_uncertainties=[4.0, 3.0, 2.5], **common)
    else:
        m = spey.get_backend("default.multivariate_normal")(
            covariance_matrix=np.diag([50.0, 40.0, 35.0]), **common)
    return m, sig, b, data


@contract("C21", functions=STAGES + [f"{CT}._build_whitener", f"{CT}._rattle_walk",
                                     f"{CT}._run_hmc_chains", f"{CT}._find_sparse_seeds",
                                     f"{CT}._detect_gap_directions", f"{CT}._find_gap_starts"],
          symbolic=False, samples=25, bounded="generated Gaussian models with one or two parameters")
def regions(v):
    """Whole runs on real models: points, threshold, coverage of the ellipse and reproducibility."""
    from scipy.stats import chi2

    m = v.module(CT)
    k = v.choice("parameters", [1, 2, 2])
    kind = v.choice("signal", ["linear", "linear", "quadratic"])
    model, sig, b, data = real_model(v, k, kind)
    var = np.array([50.0, 40.0, 35.0])
    cl = v.real("confidence level", lo=0.3, hi=0.99, pool=[0.68, 0.95])
    nll = lambda p: 0.5 * float(np.sum((sig(p) + b - data) ** 2 / var)) + 0.5 * float(
        np.sum(np.log(2 * math.pi * var)))
    cut = v.choice("bounds", ["wide", "cut", "one sided"])
    wide = [(-40.0, 40.0)] * k
    seed = v.choice("seed", [0, 1, 7, 999, 2**40])
    kw = dict(n_radial=8, n_hmc_chains=2, n_hmc_steps=v.choice("steps", [0, 6]), n_jobs=1,
              random_seed=seed, hmc_step_size=v.choice("step size", [0.05, 1.0]),
              newton_max_iter=v.choice("newton", [100, 2]), n_coverage_passes=v.choice(
                  "passes", [1, 2, 3]), n_multistart=v.choice("starts", [1, 6]),
              max_radial_bracket=60.0)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        bounds = wide
        if cut != "wide":
            c = v.real("cut", lo=-3, hi=3)
            bounds = [(c, c + 4.0 if cut == "cut" else None)] + [(None, None)] * (k - 1)
        r = v.ok("find_contour", quiet, m.find_contour, model, cl, bounds=bounds, **kw)
        again = v.ok("find_contour again", quiet, m.find_contour, model, cl, bounds=bounds, **kw)
    d = float(chi2.ppf(cl, k))
    v.ensure_eq("quantile", r.delta, d)
    v.ensure_eq("threshold", r.threshold, r.nll_min + d / 2)
    v.ensure("best fit has the reported NLL", abs(nll(r.theta_mle) - r.nll_min) < 1e-6)
    v.ensure("shape", r.contour_points.ndim == 2 and r.contour_points.shape[1] == k
             and len(r.from_radial) == len(r.contour_points))
    for x in r.contour_points:
        v.ensure("point on the threshold", abs(nll(x) - r.threshold) < 1e-5,
                 (x, nll(x), r.threshold))
        for i, (lo, hi) in enumerate(bounds):
            v.ensure("point inside the bounds", (lo is None or x[i] >= lo - 1e-12) and (
                hi is None or x[i] <= hi + 1e-12), (x, bounds))
    v.ensure("reproducible", np.array_equal(r.contour_points, again.contour_points)
             and r.threshold == again.threshold)
    if kind == "linear" and cut == "wide":
        X = [(sig(np.eye(k)[i]) - sig(np.zeros(k))) for i in range(k)]
        A = np.array(X).T / np.sqrt(var)[:, None]
        y = (data - b - sig(np.zeros(k))) / np.sqrt(var)
        th, *_ = np.linalg.lstsq(A, y, rcond=None)
        F = np.linalg.inv(A.T @ A)
        reach = np.sqrt(d * np.diag(F)) + np.abs(th)
        if np.all(reach < 35.0) and np.linalg.cond(A) < 1e3:
            v.ensure("minimum is the global one", abs(r.nll_min - nll(th)) < 1e-4 * (1 + abs(d)),
                     (r.nll_min, nll(th)))
            v.ensure("every ray meets the contour",
                     int(np.sum(r.from_radial)) >= kw["n_radial"], r.from_radial)
            if k == 1:
                z = (r.contour_points[:, 0] - th[0]) / math.sqrt(d * F[0, 0])
                v.ensure("ends of the interval", np.all(np.abs(np.abs(z) - 1.0) < 1e-3), z)


@contract("C21", functions=STAGES + [f"{CT}._rattle_walk", f"{CT}._run_hmc_chains",
                                     f"{CT}._find_gap_starts"],
          symbolic=False, samples=12, bounded="generated Gaussian models, every third search fails")
def failing(v):
    """Whole runs in which root and minimum searches fail: no point is invented."""
    import scipy.optimize as so

    m = v.module(CT)
    k = v.choice("parameters", [1, 2])
    model, sig, b, data = real_model(v, k, "linear")
    var = np.array([50.0, 40.0, 35.0])
    nll = lambda p: 0.5 * float(np.sum((sig(p) + b - data) ** 2 / var)) + 0.5 * float(
        np.sum(np.log(2 * math.pi * var)))
    how = v.choice("failure", ["none", "not converged", "raises", "jump", "diverges", "nan",
                             "no minimum"])
    every = v.choice("every", [1, 3])
    calls, rays = [0], []

    def root_scalar(f, *a, bracket=None, **kw):
        calls[0] += 1
        if calls[0] % every == 0 and how in ("not converged", "raises", "jump"):
            if how == "raises":
                raise ValueError("no root")
            return types.SimpleNamespace(root=0.3 * bracket[0] + 0.7 * bracket[1],
                                         converged=how == "jump",
                                         flag="convergence error")
        return so.root_scalar(f, *a, bracket=bracket, **kw)

    def minimize(fun, x0=None, method=None, **kw):
        calls[0] += 1
        if calls[0] % every == 0 and method != "SLSQP":
            if how == "no minimum":
                raise ValueError("gave up")
            if how in ("diverges", "nan"):
                return types.SimpleNamespace(x=np.full(k, 1e6), success=True, message="",
                                             fun=math.nan if how == "nan" else -math.inf)
        return so.minimize(fun, x0=x0, method=method, **kw)

    for name, x in list(vars(m).items()):
        if x is so.root_scalar:
            v.patched(f"{CT}.{name}", root_scalar)
        elif x is so.minimize:
            v.patched(f"{CT}.{name}", minimize)
        elif name == "_radial_search":
            def spy(*a, _real=x, **kw):
                r = _real(*a, **kw)
                rays.extend(np.array(r[0]).tolist())
                return r

            v.patched(f"{CT}.{name}", spy)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = v.ok("find_contour", quiet, m.find_contour, model, 0.9, n_radial=6, n_hmc_chains=2,
                 n_hmc_steps=3, n_jobs=1, random_seed=v.int("seed", lo=0, hi=99), n_multistart=4,
                 bounds=[(-40.0, 40.0)] * k)
    v.ensure("finite minimum", math.isfinite(r.nll_min))
    v.ensure("best fit has the reported NLL", abs(nll(r.theta_mle) - r.nll_min) < 1e-6)
    for x in r.contour_points:
        v.ensure("point on the threshold", abs(nll(x) - r.threshold) < 1e-5,
                 (x, nll(x), r.threshold))
    if how in ("not converged", "raises") and every == 1 and k == 1:
        v.ensure("no root, no point", len(r.contour_points) == 0, r.contour_points)
    if rays:
        v.ensure("origin of the points", all(
            x.tolist() in rays for x, f in zip(r.contour_points, r.from_radial) if f))


@contract("C21", functions=[f"{CT}.find_contour", f"{CT}._find_basins_contour_subspace"],
          symbolic=False, samples=6, bounded="generated models with two mirrored minima")
def mirrored(v):
    """Both components of the region of a signal that is even in its parameter are mapped."""
    m = v.module(CT)
    model, sig, b, data = real_model(v, 1, "quadratic")
    excess = data - b
    s = sig(np.array([1.0]))
    var = np.array([50.0, 40.0, 35.0])
    v.assume(np.sum(excess * s / var) > 0.5 * np.sum(s * s / var))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = v.ok("find_contour", quiet, m.find_contour, model, 0.68, n_radial=6, n_jobs=1,
                 random_seed=v.int("seed", lo=0, hi=999), bounds=[(-30.0, 30.0)], n_multistart=20)
    x = r.contour_points[:, 0]
    v.ensure("both sides are mapped", len(x) and x.min() < 0 < x.max(), x)
    v.ensure("the region is even", abs(abs(x.min()) - abs(x.max())) < 1e-3, (x.min(), x.max()))


def quiet(f, *a, **k):
    import contextlib
    import io

    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


@contract("C21", functions=[f"{CT}.find_contour"], symbolic=False, samples=6,
          bounded="generated counting models with three nuisance parameters")
def marginal(v):
    """Whole runs where the nuisance parameters are profiled."""
    from scipy.optimize import minimize
    from scipy.stats import chi2

    m = v.module(CT)
    k = v.choice("parameters", [1, 2])
    model, sig, b, data = real_model(v, k, "linear", profile=True)
    f = model.backend.get_logpdf_func()
    which = list(range(1, k + 1))[:v.choice("mapped", [1, 2])]
    rest = [i for i in range(1, k + 4) if i not in which]
    start = model.maximize_likelihood(return_nll=False, poi_indices=rest, fixed_poi_value=1.0)[0] \
        if False else None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = v.ok("find_contour", quiet, m.find_contour, model, 0.68, which, n_radial=4,
                 n_hmc_chains=1, n_hmc_steps=2, n_jobs=1, random_seed=v.int("seed", lo=0, hi=99),
                 n_multistart=2, n_coverage_passes=1, bounds=[(-20.0, 20.0)] * len(which))
        v.ensure_eq("threshold", r.threshold, r.nll_min + 0.5 * float(chi2.ppf(0.68, len(which))))
        v.ensure("names", r.parameter_names == [model.config().parameter_names[i] for i in which])
        for x in r.contour_points[:3]:
            def g(q):
                p = np.ones(k + 4)
                p[which], p[rest] = x, q
                return float(-f(p))

            best = min(minimize(g, np.zeros(len(rest)), method="Nelder-Mead", options=dict(
                maxiter=20000, maxfev=20000, xatol=1e-7, fatol=1e-9, adaptive=True)).fun,
                minimize(g, np.zeros(len(rest)), method="BFGS").fun)
            v.ensure("point on the profiled threshold", abs(best - r.threshold) < 5e-3,
                     (x, best, r.threshold))


@contract("C21", functions=[f"{CT}.find_contour", f"{CT}._find_mle"], symbolic=False, samples=10,
          bounded="generated quadratic likelihoods, one mapped and one profiled parameter")
def restricted(v):
    """Bounds and constraints of the profiled parameter hold at every point, wherever it stands."""
    import autograd.numpy as anp
    from scipy.optimize import NonlinearConstraint
    from scipy.stats import chi2
    import spey
    from spey.base.model_config import ModelConfig

    m = v.module(CT)
    poi = v.choice("position of the signal strength", [0, 1, 2])
    others = [i for i in range(3) if i != poi]
    c = v.choice("mapped parameter", others)
    p = [i for i in others if i != c][0]
    centre = np.array([v.real(f"centre {i}", lo=-1, hi=1) for i in range(3)])
    cov = v.real("slope", lo=-0.6, hi=0.6)
    A = np.eye(3) * np.array([2.0, 3.0, 1.5])
    A[c, p] = A[p, c] = cov
    lo = v.real("lower", lo=-1.5, hi=0.5)
    hi = lo + v.real("width", lo=0.05, hi=1.0)
    bounds = [(-9.0, 9.0)] * 3
    bounds[p] = (lo, hi)
    kind = v.choice("constraint", ["none", "dict", "object"])
    cut = v.real("cut", lo=0.2, hi=0.9)
    lift = lambda x: x[p] - (lo + cut * (hi - lo)) + 0.05 * x[c]
    cons = {"none": [], "dict": [{"type": "ineq", "fun": lift}],
            "object": [NonlinearConstraint(lift, 0.0, np.inf)]}[kind]

    class Model(spey.BackendBase):
        name, version, author, spey_requires = "c21", "1", "me", ">=0.0.1"

        @property
        def is_alive(self):
            return True

        constraints = cons

        def config(self, allow_negative_signal=True, poi_upper_bound=10.0):
            init = [0.5 * (a + b) for a, b in bounds]
            init[poi] = 1.0
            return ModelConfig(poi, -9.0, init, list(bounds))

        def expected_data(self, pars):
            return [0.0]

        def get_logpdf_func(self, expected=None, data=None):
            return lambda x: -0.5 * anp.dot(x - centre, anp.dot(A, x - centre))

        def get_hessian_logpdf_func(self, expected=None, data=None):
            return lambda x: -A

    real = spey.interface.statistical_model.StatisticalModel(Model(), "c21")
    f = Model().get_logpdf_func()

    def profile(x):
        """The smallest NLL at this value of the mapped parameter."""
        a = max(lo, lo + cut * (hi - lo) - 0.05 * x) if cons else lo
        if a > hi + 1e-9:
            return None
        full = np.ones(3)
        full[c] = x
        best = centre[p] - (A[p, c] * (x - centre[c]) + A[p, poi] * (1.0 - centre[poi])) / A[p, p]
        full[p] = min(max(best, a), hi)
        return float(-f(full))

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = v.ok("find_contour", quiet, m.find_contour, real, 0.68, [c], n_radial=6, n_jobs=1,
                 random_seed=3, n_multistart=3)
    v.ensure_eq("threshold", r.threshold, r.nll_min + 0.5 * float(chi2.ppf(0.68, 1)))
    best = min(y for y in map(profile, np.linspace(-9, 9, 12001)) if y is not None)
    v.ensure("minimum", -1e-3 < best - r.nll_min < 2e-2, (r.nll_min, best))
    v.ensure("found", len(r.contour_points) > 0)
    for x in r.contour_points[:, 0]:
        y = profile(x)
        v.ensure("point on the restricted threshold", y is None or abs(y - r.threshold) < 1e-3,
                 (x, y, r.threshold))
