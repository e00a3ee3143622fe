"""C12: a statistical model hands the right data, hypothesis and options to its back end's fits."""

import math

import numpy as np

from pyvc.harness import Token, contract

SM = "spey.interface.statistical_model"
CLS = f"{SM}.StatisticalModel"
FIT = "spey.optimizer.core.fit by its contract (C09): returns the log-density at the point found, " \
      "which has the pinned values at the pinned positions"
NAMES = ["mu", "theta", "phi"]


def flat(x):
    """(numbers, tag) of a data argument."""
    if x is None:
        return [], "none"
    if isinstance(x, Token):
        return list(x.nums), x.name
    x = list(x)
    return x, f"list{len(x)}"


def text(x):
    if x is None:
        return "none"
    if isinstance(x, (list, tuple, np.ndarray)):
        return "[" + ",".join(text(y) for y in x) + "]"
    if isinstance(x, dict):
        return "{" + ",".join(f"{k}:{text(x[k])}" for k in sorted(x, key=str)) + "}"
    return repr(float(x)) if isinstance(x, (int, float)) and not isinstance(x, bool) else str(x)


class World:
    """A back end with an arbitrary density, and the contract of the fit."""

    def __init__(self, v, npar=2, native=(), named=True, grad=True, constraints=("backend",),
                 optional=("expected_data", "get_sampler", "get_hessian_logpdf_func")):
        self.v, self.npar = v, npar
        B = v.module("spey.base.backend_base")
        MC = v.module("spey.base.model_config")
        self.poi = npar - 1 if npar > 1 else 0
        self.names = NAMES[:npar] if named else None
        self.L, self.P = v.func("logpdf"), v.func("fitted")
        self.fits = []
        self.hessian = v.matrix("hessian", npar, symmetric=True) \
            if "hessian" in optional else None
        w = self

        class Backend(B.BackendBase):
            name, version, author, spey_requires = "fake", "1.0.0", "nobody", ">=0.0.1"

            def config(self, allow_negative_signal=True, poi_upper_bound=10.0):
                bounds = [(-5.0, 5.0)] * npar
                bounds[w.poi] = (-7.0 if allow_negative_signal else 0.0, poi_upper_bound)
                return MC.ModelConfig(w.poi, -7.0, [1.0] * npar, bounds,
                                      parameter_names=None if w.names is None else list(w.names))

            def get_logpdf_func(self, expected=w.E("observed"), data=None):
                return lambda pars: w.density(pars, expected, data)

        def objective(self, expected=w.E("observed"), data=None, do_grad=True):
            if do_grad:
                return lambda pars: (-w.density(pars, expected, data), Token("gradient"))
            return lambda pars: -w.density(pars, expected, data)

        if grad:
            Backend.get_objective_function = objective
        if "expected_data" in optional:
            Backend.expected_data = lambda self, pars: w.asimov(pars)
        if "get_sampler" in optional:
            Backend.get_sampler = lambda self, pars: lambda size: ("sample", list(pars), size)
        if "hessian" in optional:
            def get_hessian(self, expected=w.E("observed"), data=None):
                w.hess_for = (expected, data)

                def h(pars):
                    w.hess_at = list(pars)
                    return -w.hessian

                return h

            Backend.get_hessian_logpdf_func = get_hessian
        for k, f in native:
            setattr(Backend, k, f)
        if constraints:
            Backend.constraints = [Token(c) for c in constraints]
        self.constraints = list(constraints)
        self.cls = Backend
        self.backend = Backend()
        self.backend_constraints = list(Backend.constraints) if constraints else []
        sub = v.callee if v.symbolic else (lambda m, n, s: v.patched(f"{m}.{n}", s))
        sub(SM, "fit", self.fit)

    def E(self, name):
        return getattr(self.v.module("spey.utils").ExpectationType, name)

    def model(self, **kw):
        return self.v.module(SM).StatisticalModel(self.backend, "analysis", **kw)

    def density(self, pars, expected, data):
        nums, tag = flat(data)
        return self.L(*list(pars), *nums, f"E={expected}", tag)

    def asimov(self, pars):
        t = Token("asimov")
        t.nums = list(pars)
        return t

    def best(self, expected, data, neg, fixed, init, bounds, constraints, options):
        """The point a fit ends at: an arbitrary function of everything that enters it."""
        nums, tag = flat(data)
        tags = [f"E={expected}", tag, f"neg={neg}", text(init), text(bounds),
                "c=" + ",".join(sorted(constraints)), text(options),
                "fix=" + ",".join(str(k) for k in sorted(fixed))]
        return [fixed[i] if i in fixed else
                self.P(*nums, *[fixed[k] for k in sorted(fixed)], f"p{i}", *tags)
                for i in range(self.npar)]

    def fit(self, func, model_configuration, do_grad=False, hessian=None, initial_parameters=None,
            bounds=None, fixed_poi_value=None, logpdf=None, constraints=None, **options):
        v = self.v
        fixed = fixed_poi_value
        if fixed is None:
            fixed = {}
        elif not isinstance(fixed, dict):
            fixed = {model_configuration.poi_index: fixed}
        v.ensure("parameters are pinned by position", all(
            isinstance(k, int) and 0 <= k < self.npar for k in fixed))
        probe = [v.real(f"probe{len(self.fits)}_{i}") for i in range(self.npar)]
        self.fits.append(1)
        val = func(np.array(probe) if not v.symbolic else probe)
        v.ensure("the gradient flag matches the objective", isinstance(val, tuple) == bool(do_grad))
        val = val[0] if isinstance(val, tuple) else val
        expected, data = self.asked
        v.ensure_eq("the objective is minus the requested log-density", val,
                    -self.density(probe, expected, data))
        neg = model_configuration.suggested_bounds[self.poi][0] < 0.0
        x = self.best(expected, data, neg, fixed, initial_parameters, bounds,
                      [c.name for c in constraints or []], options)
        pars = np.array(x, dtype=object) if v.symbolic else np.array(x)
        return (-val if logpdf is None else logpdf(pars)), pars


def any_data(v):
    return v.choice("data", [None, [3.0, 4.0]])


def expectation(v):
    E = v.module("spey.utils").ExpectationType
    return getattr(E, v.choice("expected", ["observed", "apriori", "aposteriori"]))


def fit_options(v, w=None):
    k = v.choice("options", ["none", "all"] + (["constraint"] if w else []))
    if k == "constraint":
        w.user = [Token("user")]
        w.constraints = w.constraints + ["user"]
    if k != "all":
        return {}, None, None
    return {"maxiter": 50, "tol": 0.25}, [0.5, 0.5], [(0.0, 1.0), (0.0, 2.0)]


def call_kw(kw, init, bounds, w=None):
    out = dict(kw)
    if getattr(w, "user", None):
        out["constraints"] = w.user
    if init is not None:
        out.update(init_pars=list(init), par_bounds=list(bounds))
    return out


def hypothesis(v, w):
    """(argument, the pinned positions and values)."""
    kinds = ["value"] + (["by name", "by index", "all"] if w.npar > 1 else [])
    k = v.choice("hypothesis", kinds)
    a = v.real("tested value")
    oth = 0 if w.poi else 1
    if k == "value":
        return a, {w.poi: a}
    if k == "by name":
        return {NAMES[oth]: a}, {oth: a}
    if k == "by index":
        return {oth: a}, {oth: a}
    b = v.real("second value")
    return {w.poi: a, NAMES[oth]: b}, {w.poi: a, oth: b}


@contract("C12", max_paths=20000, functions=[f"{CLS}.likelihood", f"{CLS}.prepare_for_fit",
                            f"{CLS}._resolve_poi_test"], assumptions=[FIT])
def fixed_hypothesis(v):
    """Likelihood of a hypothesis: profiled on the requested data, by value, name or position."""
    w = World(v, npar=v.choice("npar", [1, 2]), grad=v.boolean("gradient available"),
              constraints=v.choice("constraints", [(), ("backend",)]))
    m = w.model()
    E, data = expectation(v), any_data(v)
    w.asked = (E, data)
    kw, init, bounds = fit_options(v)
    test, fixed = hypothesis(v, w)
    user = [Token("user")] if v.boolean("user constraint") else None
    args = call_kw(kw, init, bounds)
    if user is not None:
        args["constraints"] = user
    if v.boolean("do_grad given"):
        args["do_grad"] = False
    nll, rp = v.boolean("return_nll"), v.boolean("return_parameters")
    sent = dict(test) if isinstance(test, dict) else test
    r = v.ok("call", m.likelihood, sent, E, nll, data, rp, **args)
    x = w.best(E, data, True, fixed, init, bounds,
               w.constraints + (["user"] if user else []), kw)
    want = w.density(x, E, data)
    val = r[0] if rp else r
    v.ensure_eq("likelihood", val, -want if nll else v.exp(want))
    if rp:
        v.ensure_eq("fitted parameters", list(r[1]), x)
    v.ensure("the caller's objects are unchanged", v.And(
        user is None or (len(user) == 1 and user[0].name == "user"),
        len(getattr(w.cls, "constraints", [])) == len(w.constraints),
        not isinstance(test, dict) or (list(sent) == list(test))))


@contract("C12", functions=[f"{CLS}.maximize_likelihood"], assumptions=[FIT])
def best_fit(v):
    """Maximum likelihood: the primary or the requested parameters at the best fit."""
    w = World(v, npar=2, grad=v.boolean("gradient available"))
    m = w.model()
    E, data = expectation(v), any_data(v)
    w.asked = (E, data)
    neg, nll = v.boolean("allow_negative_signal"), v.boolean("return_nll")
    kw, init, bounds = fit_options(v, w)
    args = call_kw(kw, init, bounds, w)
    fixed = {}
    pin = v.choice("pinned", ["nothing", "by name", "by index", "value"])
    if pin != "nothing":
        a = v.real("pinned value")
        fixed = {w.poi: a} if pin == "value" else {0: a}
        args["fixed_poi_value"] = {"by name": {"mu": a}, "by index": {0: a}, "value": a}[pin]
    which = v.choice("poi_indices", [None, ["theta"], [0, "theta"], [1], []])
    r = v.ok("call", m.maximize_likelihood, nll, E, neg, data, poi_indices=which, **args)
    x = w.best(E, data, neg, fixed, init, bounds, w.constraints, kw)
    want = w.density(x, E, data)
    v.ensure("a pair", len(r) == 2)
    v.ensure_eq("maximum", r[1], -want if nll else v.exp(want))
    if which is None:
        v.ensure_eq("best fit value of the signal strength", r[0], x[w.poi])
    else:
        v.ensure("the requested parameters", list(r[0]) == which)
        for k in which:
            v.ensure_eq("best fit value of the parameter", r[0][k],
                        x[NAMES.index(k) if isinstance(k, str) else k])
    again = v.ok("call again", m.maximize_likelihood, nll, E, neg, data, poi_indices=which, **args)
    v.ensure_eq("the same answer again", again[1], r[1])


def asimov_point(w, E, stat, init, bounds, kw):
    neg = stat in ("q", "qmu")
    w.asked = (E, None)
    return w.best(E, None, neg, {w.poi: 1.0 if stat == "q0" else 0.0}, init, bounds,
                  w.constraints, kw)


STATS = ["qtilde", "qmutilde", "q", "qmu", "q0"]


@contract("C12", functions=[f"{CLS}.generate_asimov_data"], assumptions=[FIT])
def asimov_data(v):
    """Asimov data: expected data where the background-only (signal, for q0) hypothesis fits best."""
    w = World(v, npar=v.choice("npar", [1, 2]))
    m = w.model()
    E, stat = expectation(v), v.choice("statistic", STATS)
    kw, init, bounds = fit_options(v, w)
    args = call_kw(kw, init, bounds, w)
    if v.boolean("stray value"):
        args["fixed_poi_value"] = 3.0
    pt = asimov_point(w, E, stat, init, bounds, kw)
    r = v.ok("call", m.generate_asimov_data, E, stat, **args)
    v.ensure_eq("the point the data are generated at", r.nums, pt)


class Two(World):
    """Asimov fit first, then the fit to its data."""

    def fit(self, *a, **k):
        self.asked = self.queue[min(len(self.fits), len(self.queue) - 1)]
        return World.fit(self, *a, **k)


@contract("C12", functions=[f"{CLS}.asimov_likelihood", f"{CLS}.generate_asimov_data"],
          assumptions=[FIT])
def asimov_hypothesis(v):
    """Likelihood of a hypothesis on the Asimov data of the same statistic, expectation, options."""
    w = Two(v, npar=2)
    m = w.model()
    E, stat, nll = expectation(v), v.choice("statistic", STATS), v.boolean("return_nll")
    kw, init, bounds = fit_options(v, w)
    test, fixed = hypothesis(v, w)
    pt = asimov_point(w, E, stat, init, bounds, kw)
    data = w.asimov(pt)
    w.queue = [(E, None), (E, data)]
    r = v.ok("call", m.asimov_likelihood, test, E, nll, stat, **call_kw(kw, init, bounds, w))
    x = w.best(E, data, True, fixed, init, bounds, w.constraints, kw)
    want = w.density(x, E, data)
    v.ensure_eq("likelihood", r, -want if nll else v.exp(want))


@contract("C12", functions=[f"{CLS}.maximize_asimov_likelihood", f"{CLS}.generate_asimov_data"],
          assumptions=[FIT])
def asimov_best_fit(v):
    """Best fit to the Asimov data; negative signals only where the statistic allows them."""
    w = Two(v, npar=2)
    m = w.model()
    E, stat, nll = expectation(v), v.choice("statistic", STATS), v.boolean("return_nll")
    kw, init, bounds = fit_options(v, w)
    which = v.choice("poi_indices", [None, ["mu"], [1]])
    pt = asimov_point(w, E, stat, init, bounds, kw)
    data = w.asimov(pt)
    w.queue = [(E, None), (E, data)]
    r = v.ok("call", m.maximize_asimov_likelihood, nll, E, stat, poi_indices=which,
             **call_kw(kw, init, bounds, w))
    x = w.best(E, data, stat in ("q", "qmu"), {}, init, bounds, w.constraints, kw)
    want = w.density(x, E, data)
    v.ensure_eq("maximum", r[1], -want if nll else v.exp(want))
    if which is None:
        v.ensure_eq("best fit value of the signal strength", r[0], x[w.poi])
    else:
        v.ensure("the requested parameters", list(r[0]) == which)
        k = which[0]
        v.ensure_eq("best fit value", r[0][k], x[0 if k == "mu" else 1])


@contract("C12", functions=[f"{CLS}.fixed_poi_sampler"], assumptions=[FIT])
def sampling(v):
    """Samples are drawn at the parameters that fit best under the hypothesis."""
    has = v.boolean("sampler available")
    w = World(v, npar=v.choice("npar", [1, 2]), optional=("get_sampler",) if has else ())
    m = w.model()
    E = expectation(v)
    w.asked = (E, None)
    kw, init, bounds = fit_options(v, w)
    test, fixed = hypothesis(v, w)
    size = v.choice("size", [None, 7, np.int64(7), 0])
    o = v.outcome(m.fixed_poi_sampler, test, size, E, **call_kw(kw, init, bounds, w))
    if not has:
        v.ensure("refused without a sampler", o.raised("MethodNotAvailable"), o)
        return
    v.ensure("no exception", o.ok, o)
    if not o.ok:
        return
    r = o.value
    if size is None:
        v.ensure("a sampler", callable(r))
        if not callable(r):
            return
        r, size = r(5), 5
    v.ensure("a sample of the requested size", isinstance(r, tuple) and r[0] == "sample"
             and r[2] == size)
    if isinstance(r, tuple):
        v.ensure_eq("drawn at the fitted parameters", r[1],
                    w.best(E, None, True, fixed, init, bounds, w.constraints, kw))


@contract("C12", functions=[f"{CLS}.sigma_mu_from_hessian"],
          assumptions=[FIT, "numpy.linalg.inv (uninterpreted function of the matrix)"])
def variance(v):
    """Uncertainty from the Hessian: root of the inverse of minus the Hessian at the POI."""
    has = v.boolean("hessian available")
    w = World(v, npar=2, optional=("hessian",) if has else ())
    m = w.model()
    E = expectation(v)
    w.asked = (E, None)
    kw, init, bounds = fit_options(v, w)
    test, fixed = hypothesis(v, w)
    if has and not v.symbolic:
        v.assume(abs(np.linalg.det(w.hessian)) > 1e-6)
    o = v.outcome(m.sigma_mu_from_hessian, test, E, **call_kw(kw, init, bounds, w))
    if not has:
        v.ensure("refused without a Hessian", o.raised("MethodNotAvailable"), o)
        return
    v.ensure("no exception", o.ok, o)
    if not o.ok:
        return
    v.ensure("Hessian of the requested density", w.hess_for[0] == E and w.hess_for[1] is None)
    v.ensure_eq("taken at the fitted parameters", w.hess_at,
                w.best(E, None, True, fixed, init, bounds, w.constraints, kw))
    cov = v.inv(v.table(2, 2, lambda i, j: v.at(w.hessian, (i, j))))
    var = v.at(cov, (w.poi, w.poi))
    if v.holds(var >= 0.0):
        v.ensure_eq("standard deviation", o.value, v.tsqrt(var))


@contract("C12", functions=[f"{CLS}.likelihood", f"{CLS}.maximize_likelihood",
                            f"{CLS}.asimov_likelihood", f"{CLS}.maximize_asimov_likelihood"])
def native(v):
    """A back end's own likelihood gets the caller's arguments, its (NLL, parameters) are converted."""
    got = []

    def answer(name):
        def f(self, *a, **k):
            got.append((name, a, k))
            return nll, pars

        return f

    nll, pars = v.real("nll"), v.array("fitted", 2) if not v.symbolic else [v.real("p0"), v.real("p1")]
    which = v.choice("method", ["negative_loglikelihood", "minimize_negative_loglikelihood",
                                "asimov_negative_loglikelihood",
                                "minimize_asimov_negative_loglikelihood"])
    w = World(v, npar=2, native=[(which, answer(which))])
    m = w.model()
    E, stat = expectation(v), v.choice("statistic", STATS)
    a, minus = v.real("tested value"), v.boolean("return_nll")
    data, idx = any_data(v), v.choice("poi_indices", [None, ["theta"], [0, "theta"], []])
    common = dict(init_pars=[1.0, 1.0], par_bounds=[(0.0, 1.0)] * 2, tol=0.25)
    rp = False
    if which == "negative_loglikelihood":
        rp = v.boolean("return_parameters")
        r = v.ok("call", m.likelihood, a, E, minus, data, rp, **common)
        want = dict(common, poi_test=a, expected=E, data=data)
    elif which == "minimize_negative_loglikelihood":
        neg = v.boolean("allow_negative_signal")
        r = v.ok("call", m.maximize_likelihood, minus, E, neg, data, poi_indices=idx, **common)
        want = dict(common, expected=E, allow_negative_signal=neg, data=data)
    elif which == "asimov_negative_loglikelihood":
        r = v.ok("call", m.asimov_likelihood, a, E, minus, stat, **common)
        want = dict(common, poi_test=a, expected=E, test_statistics=stat)
    else:
        r = v.ok("call", m.maximize_asimov_likelihood, minus, E, stat, poi_indices=idx, **common)
        want = dict(common, expected=E, test_statistics=stat)
    best = which.startswith("minimize")
    if best or rp:
        v.ensure("a pair", isinstance(r, tuple) and len(r) == 2)
    v.ensure_eq("the back end's value with the sign asked for", r[1] if best else r[0] if rp else r,
                nll if minus else v.exp(-nll))
    if rp:
        v.ensure_eq("the back end's parameters", list(r[1]), list(pars))
    if best and idx is None:
        v.ensure_eq("best fit value of the signal strength", r[0], pars[w.poi])
    elif best:
        v.ensure("the requested parameters", list(r[0]) == idx)
        for k in idx:
            v.ensure_eq("best fit value of the parameter", r[0][k],
                        pars[NAMES.index(k) if isinstance(k, str) else k])
    v.ensure("asked once", len(got) == 1 and got[0][1] == ())
    k = got[0][2]
    for key, x in want.items():
        v.ensure("argument passed on", key in k)
        y = k.get(key)
        v.ensure("argument passed on unchanged",
                 v.eq(x, y) if key == "poi_test" else x == y)


@contract("C12", functions=[f"{CLS}.excluded_cross_section", f"{CLS}.s95exp", f"{CLS}.s95obs"])
def cross_section(v):
    """Excluded cross section: 95% upper limit times the cross section, which has to be known."""
    w = World(v, npar=1)
    S = v.module(SM).StatisticalModel
    U = v.func("upper_limit", np64=True)

    class Model(S):
        def poi_upper_limit(self, expected=w.E("observed"), confidence_level=0.95, **kw):
            return U(confidence_level, f"E={expected}", **kw)

    known = v.boolean("known")
    x = v.real("xsection", lo=0.0) if known else math.nan
    m = Model(w.backend, "analysis", xsection=x)
    E = expectation(v)
    how = v.choice("how", ["method", "s95exp", "s95obs"])
    o = v.outcome(lambda: m.excluded_cross_section(E) if how == "method" else getattr(m, how))
    if not known:
        v.ensure("refused without a cross section", o.raised("UnknownCrossSection"), o)
        return
    v.ensure("no exception", o.ok, o)
    if o.ok:
        e = {"method": E, "s95exp": w.E("apriori"), "s95obs": w.E("observed")}[how]
        v.ensure_eq("limit times cross section", o.value, U(0.95, f"E={e}") * x)


@contract("C12", functions=[f"{CLS}.is_asymptotic_calculator_available",
                            f"{CLS}.is_toy_calculator_available", f"{CLS}.available_calculators",
                            f"{CLS}.is_chi_square_calculator_available",
                            f"{CLS}.is_alive", f"{CLS}.config"])
def calculators(v):
    """A calculator is offered exactly when the back end implements what it needs."""
    B = v.module("spey.base.backend_base")
    have = [k for k in ("expected_data", "get_sampler", "asimov_negative_loglikelihood",
                        "minimize_asimov_negative_loglikelihood") if v.boolean(k)]
    inherited = v.boolean("inherited")
    w = World(v, npar=1, optional=(), native=[(k, lambda self, *a, **kw: None) for k in have])
    cls = w.cls
    if inherited:
        class cls(w.cls):
            pass
    if v.boolean("alive is overridden"):
        cls.is_alive = property(lambda self: False)
        alive = False
    else:
        alive = True
    b = cls()
    m = v.ok("model", v.module(SM).StatisticalModel, b, "analysis")
    asy = "expected_data" in have or ("asimov_negative_loglikelihood" in have and
                                      "minimize_asimov_negative_loglikelihood" in have)
    toy = "get_sampler" in have
    v.ensure("asymptotic", bool(m.is_asymptotic_calculator_available) == asy)
    v.ensure("toys", bool(m.is_toy_calculator_available) == toy)
    v.ensure("chi-square is always there", bool(m.is_chi_square_calculator_available))
    want = {"chi_square"} | ({"asymptotic"} if asy else set()) | ({"toy"} if toy else set())
    got = list(m.available_calculators)
    v.ensure("the list", set(got) == want and len(got) == len(want))
    v.ensure("alive", bool(m.is_alive) == alive)
    v.ensure("configuration of the back end", m.config().poi_index == w.poi)


@contract("C12", functions=[f"{SM}.statistical_model_wrapper", f"{CLS}.__init__",
                            "spey.base.backend_base.BackendBase.get_objective_function"])
def construction(v):
    """A wrapped back end keeps its arguments; its default objective is minus its density."""
    w = World(v, npar=2, grad=False)
    got = []

    class Made(w.cls):
        def __init__(self, *a, **k):
            got.append((a, k))

    x, n = v.real("xsection"), v.int("ntoys", lo=1)
    mk = v.ok("wrap", v.module(SM).statistical_model_wrapper, Made)
    if v.boolean("options given"):
        m = v.ok("call", mk, 1.0, 2.0, analysis="A", xsection=x, ntoys=n, extra=3)
        v.ensure_eq("cross section", m.xsection, x)
        v.ensure("name and number of toys", v.And(m.analysis == "A", m.ntoys == n))
    else:
        m = v.ok("call", mk, 1.0, 2.0, extra=3)
        v.ensure("unknown cross section", math.isnan(m.xsection))
        v.ensure("default number of toys", m.ntoys == 1000)
    v.ensure("constructed once from the other arguments", got == [((1.0, 2.0), {"extra": 3})])
    v.ensure("the model's back end", isinstance(m.backend, w.cls))
    E, data = expectation(v), any_data(v)
    o = v.outcome(m.backend.get_objective_function, E, data, True)
    v.ensure("no gradient by default", o.raised("NotImplementedError"), o)
    f = v.ok("objective", m.backend.get_objective_function, E, data, False)
    p = [v.real("p0"), v.real("p1")]
    v.ensure_eq("minus the log-density", f(p), -w.density(p, E, data))
