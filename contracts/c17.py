"""C17: a combination of uncorrelated models is the product of its models' likelihoods."""

import math
import warnings

import numpy as np

from pyvc.harness import Token, contract

from contracts.c12 import STATS, expectation, text

UC = "spey.combiner.uncorrelated_statistics_combiner"
CLS = f"{UC}.UnCorrStatisticsCombiner"
SM = "spey.interface.statistical_model"
MODELS = "the models by their contract (C12): likelihood, Asimov data and fits of one model"
FIT = "spey.optimizer.core.fit by its contract (C09): evaluates the objective at a point it returns"
BOUND = "one to three models; the number of models is the only bound"
TYPES = ["default.type", "default.type.B"]


def tag(data):
    if data is None:
        return "observed"
    return data.name if isinstance(data, Token) else text(data)


def make(v, names, types, raising=(), nan=(), inf=()):
    """Models with arbitrary likelihoods; model i raises or answers nan where asked to."""
    S = v.module(SM).StatisticalModel
    X = v.module("spey.system.exceptions")
    MC = v.module("spey.base.model_config").ModelConfig
    L = v.func("nll", np64=True)
    calls = []

    class Config:
        def __init__(self, lo):
            self.lo = lo

        def config(self, *a, **k):
            return MC(0, self.lo, [1.0], [(self.lo, 10.0)])

    class Model(S):
        def __init__(self, name, kind):
            self.analysis, self._kind = name, kind
            self._backend = Config(v.real(f"minimum of {name}", hi=0.0))
            self.calls = []

        @property
        def backend(self):
            return self._backend

        @property
        def backend_type(self):
            return self._kind

        def likelihood(self, poi_test=1.0, expected=None, return_nll=True, data=None,
                       return_parameters=False, **kw):
            calls.append(self.analysis)
            if self.analysis in raising:
                raise X.NegativeExpectedYields("negative yields")
            if self.analysis in nan:
                return np.float64("nan")
            if self.analysis in inf:
                return np.float64("inf") if return_nll else np.float64(0.0)
            r = nll(self, poi_test, expected, data, kw)
            return r if return_nll else v.exp(-r)

        def generate_asimov_data(self, expected=None, test_statistic="qtilde", **kw):
            return asimov(self, expected, test_statistic, kw)

        def maximize_likelihood(self, return_nll=True, expected=None, allow_negative_signal=True,
                                data=None, poi_indices=None, **kw):
            if start[0] == "refused":
                raise ValueError("no fit")
            return v.real(f"best of {self.analysis}", np64=True), v.real("value")

        def sigma_mu(self, poi_test=1.0, expected=None, test_statistics="qtilde", **kw):
            return {"nan": np.float64("nan"), "zero": np.float64(0.0)}.get(
                start[0]) if start[0] in ("nan", "zero") else \
                v.real(f"sigma of {self.analysis}", lo=0.0, lo_open=True, np64=True)

    def nll(model, poi, expected, data, kw):
        if isinstance(poi, dict):
            return L(*[poi[k] for k in sorted(poi)], model.analysis, f"E={expected}", tag(data),
                     text(kw), "at " + ",".join(sorted(poi)))
        return L(poi, model.analysis, f"E={expected}", tag(data), text(kw), "at poi")

    def asimov(model, expected, stat, kw):
        return Token(f"asimov {model.analysis} {expected} {stat} {text(kw)}")

    start = ["good"]
    ms = [Model(n, t) for n, t in zip(names, types)]
    return ms, nll, asimov, calls, start


A, B = TYPES


def setting(v, small=False, **kw):
    types = v.choice("models", [[A], [B, A], [A, B, A]] if small else
                     [[A], [B], [A, A], [A, B], [B, A], [B, B, A], [A, B, A]])
    names = {(A, A): ["ana-1", "ana-2"], (A, B): ["ana", "Ana"], (B, A): ["ana ", "ana"],
             (A, B, A): ["sr_10", "sr_1", "sr"]}.get(tuple(types), ["ana", "bob", "cat"][:len(types)])
    ms, nll, asimov, calls, start = make(v, names, types, **kw)
    comb = v.ok("combine", v.module(UC).UnCorrStatisticsCombiner, *ms)
    return ms, nll, asimov, calls, start, comb


def options(v, small=False):
    """(statistical_model_options, the options of a model type, common options)."""
    k = v.choice("options", ["none", "both types"] if small else
                 ["none", "common", "per type", "both types"])
    common = {"tol": 0.5} if k != "none" else {}
    per = {"per type": {A: {"init_pars": [1.0, 2.0]}},
           "both types": {A: {"init_pars": [1.0]}, B: {"maxiter": 7}}}.get(k)
    return per, (lambda m: dict((per or {}).get(m.backend_type, {}), **common)), common



def poi_of(v):
    a = v.real("tested value")
    return {"mu": a} if v.boolean("dictionary") else a


def some_data(v, ms):
    k = v.choice("data", ["none", "all", "first"])
    if k == "none":
        return None
    return {m.analysis: [float(i), 3.0] for i, m in enumerate(ms) if k == "all" or i == 0}


@contract("C17", functions=[f"{CLS}.likelihood"], assumptions=[MODELS], bounded=BOUND)
def likelihood(v):
    """The combined likelihood is the product of every model's, each on its data and options."""
    ms, nll, _, calls, _, comb = setting(v)
    E, poi, data = expectation(v), poi_of(v), some_data(v, ms)
    per, own, common = options(v)
    ret = v.boolean("return_nll")
    before = (text(data), text(per))
    kw = {}
    if data is not None:
        kw["data"] = data
    if per is not None:
        kw["statistical_model_options"] = per
    r = v.ok("call", comb.likelihood, poi, E, ret, **kw, **common)
    total = 0.0
    for m in ms:
        total = total + nll(m, poi, E, (data or {}).get(m.analysis), own(m))
    v.ensure_eq("sum of the models' log-likelihoods", r, total if ret else v.exp(-total))
    v.ensure("the caller's dictionaries are unchanged", (text(data), text(per)) == before)
    again = v.ok("again", comb.likelihood, poi, E, ret, **kw, **common)
    v.ensure_eq("the same answer again", again, r)


@contract("C17", functions=[f"{CLS}.likelihood"], assumptions=[MODELS], bounded=BOUND)
def negative_yields(v):
    """A hypothesis with negative yields in any model has no likelihood: nan, not an error."""
    bad = v.choice("which", ["ana", "bob", "cat"])
    raising = v.boolean("raises")
    n = v.choice("number of models", [1, 2, 3])
    names = ["ana", "bob", "cat"][:n]
    ms, nll, _, calls, _ = make(v, names, [TYPES[0]] * n, raising=(bad,) if raising else (),
                                nan=() if raising else (bad,))
    comb = v.ok("combine", v.module(UC).UnCorrStatisticsCombiner, *ms)
    E, poi, ret = expectation(v), poi_of(v), v.boolean("return_nll")
    if isinstance(poi, dict) or not v.boolean("tested value as array element"):
        sent = poi
    else:
        sent = poi if v.symbolic else np.float64(poi)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = v.ok("call", comb.likelihood, sent, E, ret)
    if bad in names:
        v.ensure("no likelihood", isinstance(r, float) and math.isnan(r))
        v.ensure("reported", not raising or any(
            issubclass(x.category, RuntimeWarning) for x in w))
    else:
        total = 0.0
        for m in ms:
            total = total + nll(m, poi, E, None, {})
        v.ensure_eq("sum of the models' log-likelihoods", r, total if ret else v.exp(-total))


@contract("C17", functions=[f"{CLS}.likelihood"], assumptions=[MODELS], bounded=BOUND)
def impossible(v):
    """Infinite likelihood values add up; one undefined model leaves the combination undefined."""
    names = ["ana", "bob", "cat"]
    kinds = {n: v.choice(n, ["finite", "inf", "nan", "raises"]) for n in names}
    ms, nll, _, calls, _ = make(v, names, [A, B, A], raising=[n for n in names if kinds[n] == "raises"],
                                nan=[n for n in names if kinds[n] == "nan"],
                                inf=[n for n in names if kinds[n] == "inf"])
    comb = v.ok("combine", v.module(UC).UnCorrStatisticsCombiner, *ms)
    E, ret = expectation(v), v.boolean("return_nll")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = v.ok("call", comb.likelihood, v.real("tested value"), E, ret)
    if {"nan", "raises"} & set(kinds.values()):
        v.ensure("no likelihood", isinstance(r, float) and math.isnan(r), r)
    elif "inf" in kinds.values():
        v.ensure("excluded by one model", r == (math.inf if ret else 0.0), r)


@contract("C17", functions=[f"{CLS}.generate_asimov_data"], assumptions=[MODELS], bounded=BOUND)
def asimov_data(v):
    """Asimov data of every model under its own name, of the requested statistic."""
    ms, _, asimov, _, _, comb = setting(v, True)
    E, stat = expectation(v), v.choice("statistic", STATS)
    per, own, common = options(v)
    d = v.ok("call", comb.generate_asimov_data, E, stat, statistical_model_options=per, **common)
    v.ensure("one entry per model", list(d) == [m.analysis for m in ms])
    for m in ms:
        v.ensure("its own Asimov data", d[m.analysis].name == asimov(m, E, stat, own(m)).name)


@contract("C17", functions=[f"{CLS}.asimov_likelihood", f"{CLS}.generate_asimov_data",
                            f"{CLS}.likelihood"], assumptions=[MODELS], bounded=BOUND)
def asimov_likelihood(v):
    """Combined likelihood on every model's own Asimov data."""
    ms, nll, asimov, _, _, comb = setting(v, True)
    E, poi, stat = expectation(v), poi_of(v), v.choice("statistic", STATS)
    per, own, common = options(v)
    ret = v.boolean("return_nll")
    r = v.ok("call", comb.asimov_likelihood, poi, E, ret, stat, statistical_model_options=per,
             **common)
    total = 0.0
    for m in ms:
        total = total + nll(m, poi, E, asimov(m, E, stat, own(m)), own(m))
    v.ensure_eq("sum of the models' log-likelihoods", r, total if ret else v.exp(-total))


class Fit:
    """The contract of the fit, recording what it was asked to minimise."""

    def __init__(self, v, want):
        self.v, self.want, self.n, self.got = v, want, 0, None
        sub = v.callee if v.symbolic else (lambda m, n, s: v.patched(f"{m}.{n}", s))
        sub(UC, "fit", self.fit)

    def fit(self, func, model_configuration, **kw):
        v = self.v
        self.n += 1
        self.config, self.kw = model_configuration, kw
        x = v.real("probe", np64=True)
        forms = ["array"] if v.symbolic else ["array", "float", "list"]
        arg = {"array": np.array([x], dtype=object) if v.symbolic else np.array([x]),
               "float": float(x) if not v.symbolic else x, "list": [x]}[v.choice("form", forms)]
        v.ensure_eq("the objective is twice the combined log-likelihood", func(arg),
                    2.0 * self.want(x))
        best = v.real("fitted", np64=True)
        self.best = best
        return func([best]), np.array([best], dtype=object) if v.symbolic else np.array([best])


def check_fit(v, f, ms, par_bounds, neg, init, common):
    cfg = f.config
    v.ensure("one fit of one parameter", f.n == 1 and cfg.poi_index == 0
             and len(cfg.suggested_init) == 1 and len(cfg.suggested_bounds) == 1)
    low = ms[0].backend.lo
    for m in ms[1:]:
        low = v.max(low, m.backend.lo)
    v.ensure_eq("smallest signal strength allowed by every model", cfg.minimum_poi, low)
    lo, hi = cfg.suggested_bounds[0]
    if par_bounds is not None:
        v.ensure("the requested bounds", v.And(v.eq(lo, par_bounds[0][0]),
                                               v.eq(hi, par_bounds[0][1])))
    else:
        v.ensure_eq("lower end", lo, low if neg else 0.0)
        v.ensure("the range covers the usual one", v.ge(hi, 10.0))
    x = cfg.suggested_init[0]
    if init is not None:
        v.ensure_eq("requested start", x, init)
    if par_bounds is None and init is None:
        v.ensure("the range reaches the start", v.ge(hi, x))
    v.ensure("a finite start", not isinstance(x, float) or math.isfinite(x))
    v.ensure("options of the fit", {k: y for k, y in f.kw.items() if k in common} ==
             {k: y for k, y in common.items() if k != "init_pars"} and "init_pars" not in f.kw
             and "data" not in f.kw)


def check_result(v, r, f, which, want, ret):
    v.ensure("a pair", len(r) == 2)
    v.ensure_eq("maximum likelihood", r[1], want(f.best) if ret else v.exp(-want(f.best)))
    if which is None:
        v.ensure_eq("best fit", r[0], f.best)
    else:
        v.ensure("the requested parameters", list(r[0]) == which)
        for k in which:
            v.ensure_eq("best fit", r[0][k], f.best)


def fit_request(v):
    par_bounds = [(v.real("b0"), v.real("b1"))] if v.boolean("bounds given") else None
    ret, which = v.choice("answer", [(True, None), (False, ["mu", 1]), (True, []), (False, None)])
    return ret, par_bounds, which


@contract("C17", functions=[f"{CLS}.maximize_likelihood", f"{CLS}.likelihood",
                            f"{CLS}.minimum_poi"],
          assumptions=[MODELS, FIT], bounded=BOUND, max_paths=30000)
def best_fit(v):
    """Best fit: minimum of the combined likelihood of the requested data in the common range."""
    ms, nll, _, _, start, comb = setting(v, True)
    E, data = expectation(v), some_data(v, ms)
    per, own, common = options(v, True)
    neg = v.boolean("allow_negative_signal")
    ret, par_bounds, which = fit_request(v)
    init = v.choice("start", [None, "given"]) and v.real("start value")
    want = lambda x: sum((nll(m, x, E, (data or {}).get(m.analysis), own(m)) for m in ms[1:]),
                         nll(ms[0], x, E, (data or {}).get(ms[0].analysis), own(ms[0])))
    f = Fit(v, want)
    before = (text(data), text(per))
    r = v.ok("call", comb.maximize_likelihood, ret, E, neg, data, init, par_bounds, per, which,
             **common)
    check_fit(v, f, ms, par_bounds, neg, init, common)
    check_result(v, r, f, which, want, ret)
    v.ensure("the caller's dictionaries are unchanged", (text(data), text(per)) == before)


@contract("C17", functions=[f"{CLS}.maximize_likelihood"], assumptions=[MODELS, FIT],
          bounded=BOUND)
def start_of_the_fit(v):
    """The fit starts at a finite value inside its range whatever the models' estimates are."""
    ms, nll, _, _, start, comb = setting(v)
    E, neg = expectation(v), v.boolean("allow_negative_signal")
    start[0] = v.choice("uncertainties", ["good", "nan", "zero", "refused"])
    want = lambda x: sum((nll(m, x, E, None, {}) for m in ms[1:]), nll(ms[0], x, E, None, {}))
    f = Fit(v, want)
    r = v.ok("call", comb.maximize_likelihood, True, E, neg)
    check_fit(v, f, ms, None, neg, None, {})
    check_result(v, r, f, None, want, True)


@contract("C17", functions=[f"{CLS}.maximize_asimov_likelihood", f"{CLS}.generate_asimov_data",
                            f"{CLS}.likelihood", f"{CLS}.minimum_poi"],
          assumptions=[MODELS, FIT], bounded=BOUND, max_paths=30000)
def asimov_best_fit(v):
    """Best fit to every model's own Asimov data; negative signals only for the plain statistic."""
    ms, nll, asimov, _, _, comb = setting(v, True)
    E, stat = expectation(v), v.choice("statistic", ["qtilde", "qmu", "q0", "q"])
    per, own, common = options(v, True)
    ret, par_bounds, which = fit_request(v)
    init = v.choice("start", [None, "given"]) and v.real("start value")
    want = lambda x: sum((nll(m, x, E, asimov(m, E, stat, own(m)), own(m)) for m in ms[1:]),
                         nll(ms[0], x, E, asimov(ms[0], E, stat, own(ms[0])), own(ms[0])))
    f = Fit(v, want)
    r = v.ok("call", comb.maximize_asimov_likelihood, ret, E, stat, init, par_bounds, per, which,
             **common)
    check_fit(v, f, ms, par_bounds, stat in ("q", "qmu"), init, common)
    check_result(v, r, f, which, want, ret)
