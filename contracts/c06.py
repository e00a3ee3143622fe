"""C06: upper limits are roots of 1-CLs(mu) = confidence level."""

import math
import types

from pyvc.harness import contract
from contracts.c05 import expectation, optimiser_kwargs
from contracts.fakes import HB, make_model

UL = "spey.hypothesis_testing.upper_limits"
SM = "spey.interface.statistical_model"
ROOT = ["scipy.optimize.toms748: for a < b with f(a), f(b) of opposite sign it returns r in [a,b] "
        "with f(r) = 0 (tolerances and non-convergence not modelled)"]


def toms748(v):
    """Contract of the root finder; its precondition is an obligation of the caller."""

    def stub(f, a, b, args=(), k=1, xtol=2e-12, rtol=1e-4, maxiter=100, full_output=False,
             disp=True, **kw):
        fa, fb = f(a, *args), f(b, *args)
        v.ensure("root finder called with an ordered bracket", a < b)
        v.ensure("root finder called with a sign change",
                 v.Or(v.And(fa <= 0.0, fb >= 0.0), v.And(fa >= 0.0, fb <= 0.0)))
        stub.n += 1
        r = v.real(f"root{stub.n}")
        v.assume(v.And(r >= a, r <= b))
        v.assume(v.eq(f(r, *args), 0.0))
        return (r, types.SimpleNamespace(converged=True, root=r)) if full_output else r

    stub.n = 0
    return stub


def stub_limits(v, m, low, hig):
    """Contract of find_root_limits (see ``bracket``), for an arbitrary bracket."""

    def limits(computer, loc=0.0, low_ini=1.0, hig_ini=1.0, low_bound=1e-10, hig_bound=1e5):
        v.ensure("searched range covers [1e-10, 1e5]", v.And(low_bound <= 1e-10, hig_bound >= 1e5))
        v.ensure_eq("level searched is zero", loc, 0.0)
        v.ensure_eq("search starts at the requested points", [low_ini, hig_ini], [low, hig])
        k = len(limits.seen)
        a, b = v.real(f"a{k}", lo=1e-10), v.real(f"b{k}", hi=1e5)
        v.assume(v.And(a <= low_ini, b >= hig_ini))
        lo, hi = m.ComputerWrapper(computer), m.ComputerWrapper(computer)
        fa, fb = lo(a), hi(b)
        v.assume(v.And(v.Or(fa <= loc, a <= low_bound), v.Or(fb >= loc, b >= hig_bound)))
        limits.seen.append((a, b))
        return lo, hi

    limits.seen = []
    v.callee(m, "find_root_limits", limits)
    return limits


@contract("C06", functions=[f"{UL}.find_root_limits", f"{UL}.ComputerWrapper.__call__",
                            f"{UL}.ComputerWrapper.get_value", f"{UL}.ComputerWrapper.__getitem__"],
          assumptions=["termination of the bracket search is not proved (it is exercised)"])
def bracket(v):
    """The bracket encloses the level or has reached its bounds, for every function."""
    m = v.module(UL)
    f = v.func("f")
    loc = v.real("loc")
    lo, hi = v.real("low_ini", lo=0, lo_open=True, pool=[1.0, 0.5, 3.0]), v.real(
        "hig_ini", lo=0, lo_open=True, pool=[1.0, 0.5, 3.0])
    lb, hb = v.real("low_bound", lo=0, lo_open=True, pool=[1e-10, 1e-3]), v.real(
        "hig_bound", lo=0, lo_open=True, pool=[1e5, 100.0])
    v.assume(v.And(lb <= lo, hi <= hb))
    low, hig = v.ok("find_root_limits", m.find_root_limits, f, loc, lo, hi, lb, hb)
    a, b = low.get_value(-1), hig.get_value(-1)
    v.ensure_eq("low value is the function there", low[-1], f(a))
    v.ensure_eq("high value is the function there", hig[-1], f(b))
    v.ensure("low end below the level or at its bound", v.Or(f(a) <= loc, a <= lb))
    v.ensure("high end above the level or at its bound", v.Or(f(b) >= loc, b >= hb))
    v.ensure("low end only moves down, not past its bound", v.And(a <= lo, a >= lb))
    v.ensure("high end only moves up, not past its bound", v.And(b >= hi, b <= hb))


@contract("C06", functions=[f"{UL}.find_poi_upper_limit", f"{UL}.find_root_limits"],
          assumptions=ROOT + ["test statistics and p-values enter by their contracts (C02, C03)"],
          budget=170)
def upper_limit(v):
    """Each entry is a root of 1-CLs = CL for its band, or inf when no sign change exists."""
    m = v.module(UL)
    E = expectation(v)
    band = v.choice("expected_pvalue", ["nominal", "1sigma", "2sigma"])
    neg = v.boolean("allow_negative_signal")
    st = "q" if neg else "qtilde"
    cl = v.real("confidence_level", lo=0.0, hi=1.0, pool=[0.95, 0.9, 0.99])
    ml, aml = (v.real("muhat"), v.real("minnll")), (v.real("muhatA"), v.real("minnllA"))
    lp, alp = v.func("logpdf"), v.func("asimov_logpdf")
    low, hig = v.real("low_init", lo=0.001, hi=10, pool=[1.0]), v.real(
        "hig_init", lo=0.001, hi=1000, pool=[1.0])
    v.assume(low <= hig)
    idx = [None] if E.name == "observed" else {
        "nominal": [2], "1sigma": [1, 2, 3], "2sigma": [0, 1, 2, 3, 4]}[band]
    if v.symbolic:
        # one band of the loop is arbitrary, the others are fixed: the bands are independent calls
        j = v.choice("band", range(len(idx)))
        degenerate = len(idx) == 1 and v.choice("degenerate", [False, True])
        S, A, D, Z = v.func("sq"), v.func("sqA"), v.func("delta"), v.func("zero")
        pobs, pexp = v.func("p_obs"), v.func("p_exp")

        def ts(mu, maximum_likelihood, logpdf, maximum_asimov_likelihood, asimov_logpdf, teststat):
            v.ensure("test statistic from the fits and densities given",
                     v.And(*[v.eq(x, y) for x, y in zip(
                         (*maximum_likelihood, *maximum_asimov_likelihood, logpdf(mu),
                          asimov_logpdf(mu)), (*ml, *aml, lp(mu), alp(mu)))]))
            t = "q" if teststat in ("q", "qmu") else "qtilde" if teststat in (
                "qtilde", "qmutilde") else teststat
            if degenerate and v.holds(Z(mu, t) > 0.0):
                raise v.module("spey.system.exceptions").AsimovTestStatZero()
            return S(mu, t), A(mu, t), D(mu, t)

        def cls(sqrt_qmuA, delta_test_statistic, test_stat="qtilde"):
            t = "q" if test_stat in ("q", "qmu") else test_stat
            e = [2.0] * 5
            if E.name != "observed":
                e[idx[j]] = pexp(sqrt_qmuA, delta_test_statistic, t, f"band{idx[j]}")
            return [pobs(sqrt_qmuA, delta_test_statistic, t)], e

        v.callee(m, "compute_teststatistics", ts)
        v.callee(m, "compute_asymptotic_confidence_level", cls)
        stub_limits(v, m, low, hig)

        def level(mu, i):
            if i != idx[j]:
                return -1.0
            if degenerate and v.holds(Z(mu, st) > 0.0):
                return 0.0
            a = (A(mu, st), D(mu, st), st)
            return 1.0 - (pobs(*a) if i is None else pexp(*a, f"band{i}"))
    else:
        import numpy as np

        t = v.module("spey.hypothesis_testing.test_statistics")
        ac = v.module("spey.hypothesis_testing.asymptotic_calculator")
        # maxima consistent with the densities: an upside-down parabola plus noise-free offset
        w, c = v.real("w", lo=0.05, hi=3), v.real("c", lo=-3, hi=3)
        wa = v.real("wa", lo=0.05, hi=3)
        ml, aml = (c, 4.0), (0.0, 5.0)
        lp = lambda x: -4.0 - w * (x - c) ** 2
        alp = lambda x: -5.0 - wa * x ** 2

        def level(mu, i):
            try:
                _, sA, d = t.compute_teststatistics(mu, ml, lp, aml, alp, st)
            except Exception as e:
                if type(e).__name__ == "AsimovTestStatZero":
                    return 0.0
                raise
            o, e = ac.compute_asymptotic_confidence_level(sA, d, st)
            return 1.0 - (o[0] if i is None else e[i])

    v.external("scipy.optimize.toms748", toms748(v))
    r = v.ok("find_poi_upper_limit", m.find_poi_upper_limit, ml, lp, aml, alp, E, cl, neg, low, hig,
             band)
    if len(idx) == 1:
        v.ensure("single value", not isinstance(r, (list, tuple)))
        r = [r]
    v.ensure("one limit per band", len(r) == len(idx))
    for x, i in zip(r, idx):
        if not v.symbolic:
            x = float(x)
            if math.isinf(x):
                a, b = level(1e-10, i) - cl, level(1e5, i) - cl
                v.ensure("inf only when the level is not reached", x > 0 and (a > 0) == (b > 0))
            else:
                a, b = level(x * (1 - 3e-4), i) - cl, level(x * (1 + 3e-4), i) - cl
                v.ensure("limit solves 1-CLs = CL", a * b <= 1e-9, (x, i, a, b))
                v.ensure("limit inside the search range", 0.0 <= x <= 1e5)
        elif isinstance(x, float) and not math.isfinite(x):
            v.ensure("no limit is reported as +inf", x == math.inf)
        else:
            v.ensure_eq("limit solves 1-CLs = CL for its own band", level(x, i), cl)
            v.ensure("limit inside the search range", v.And(x >= 1e-10, x <= 1e5))


@contract("C06", functions=[f"{UL}.find_poi_upper_limit"], assumptions=ROOT)
def infinite(v):
    """inf is returned exactly when the searched bracket has no sign change."""
    m = v.module(UL)
    E = expectation(v, values=("observed", "apriori"))
    cl = v.real("confidence_level", lo=0.01, hi=1.0)
    p = v.func("pval")
    if not v.symbolic:
        v.assume(False)

    limits = stub_limits(v, m, 1.0, 1.0)
    v.callee(m, "compute_teststatistics", lambda mu, *a: (mu, mu, mu))
    v.callee(m, "compute_asymptotic_confidence_level",
             lambda s, d, t="q": ([p(s, "o")], [p(s, i) for i in range(5)]))
    v.external("scipy.optimize.toms748", toms748(v))
    r = v.ok("find_poi_upper_limit", m.find_poi_upper_limit, (0.0, 0.0), None, (0.0, 0.0), None, E,
             cl)
    if not limits.seen:
        return
    a, b = limits.seen[-1]
    key = ("o",) if E.name == "observed" else (2,)
    f = lambda x: 1.0 - p(x, *key) - cl
    inf = isinstance(r, float) and not math.isfinite(r)
    v.ensure("inf iff both ends are on the same side",
             v.Or(v.And(f(a) > 0.0, f(b) > 0.0), v.And(f(a) < 0.0, f(b) < 0.0)) if inf else
             v.Not(v.Or(v.And(f(a) > 0.0, f(b) > 0.0), v.And(f(a) < 0.0, f(b) < 0.0))))


@contract("C06", functions=[f"{UL}.bracket_and_solve"], assumptions=ROOT)
def bracketed_root(v):
    """bracket_and_solve returns a root between the two ends it reports, or nan."""
    m = v.module(UL)
    f = v.func("f")
    inner, outer = v.real("inner", pool=[1.0, 2.0]), v.real("outer", pool=[1.0, 3.0])
    stop_o, stop_i = v.real("stop_o", pool=[1e5]), v.real("stop_i", lo=0, hi=1, pool=[1e-5])
    if not v.symbolic:
        v.assume(0 < stop_o < 1e7 and stop_i > 1e-9 and 0 < inner <= outer)
    retry = v.choice("retry", [False, True])
    kw = {}
    if retry:
        kw = {"retry_inner": v.real("retry_inner", pool=[0.5]), "retry_stop": lambda x: x <= stop_i}
        if not v.symbolic:
            v.assume(kw["retry_inner"] > 0)
    if v.symbolic:
        v.assume(inner < outer)
        if retry:
            v.assume(kw["retry_inner"] < outer)
        v.external("scipy.optimize.toms748", lambda f, a, b, **k: toms(f, a, b, **k))
        base = toms748(v)

        def toms(f, a, b, **k):
            v.assume(a < b)  # order of the ends is the expander/contractor's business
            return base(f, a, b, **k)
    o = v.outcome(m.bracket_and_solve, f, inner, outer, lambda h: h * 2.0, lambda l: l * 0.5,
                  lambda h: h >= stop_o, lambda l: l <= stop_i, **kw)
    if not v.symbolic and not o.ok:
        v.assume(not o.raised("ValueError"))  # coinciding ends
    v.ensure("no exception", o.ok, o)
    if not o.ok:
        return
    i, h, x = o.value
    if isinstance(x, float) and math.isnan(x):
        v.ensure("nan only without a sign change", v.Or(
            v.And(f(i) > 0.0, f(h) > 0.0), v.And(f(i) < 0.0, f(h) < 0.0),
            v.And(v.eq(f(i), 0.0), v.eq(f(h), 0.0))))
        return
    if v.symbolic:
        v.ensure_eq("root", f(x), 0.0)
    else:
        d = 1e-3 * (abs(x) + 1e-6)
        v.ensure("root", f(x - d) * f(x + d) <= 1e-9)
    v.ensure("root between the ends", v.And(v.ge(x, v.min(i, h)), v.le(x, v.max(i, h))))


@contract("C06", functions=[f"{HB}.HypothesisTestingBase.poi_upper_limit"],
          assumptions=["find_poi_upper_limit enters by its contract"])
def forwarding(v):
    """poi_upper_limit hands its own fits (with the optimiser options) to the limit search."""
    k = make_model(v)
    E = expectation(v)
    band = v.choice("expected_pvalue", ["nominal", "1sigma", "2sigma"])
    kw = optimiser_kwargs(v)
    cl = v.real("confidence_level", lo=0.0, hi=1.0)
    lo, hi = v.real("low_init", lo=0.1, hi=9), v.real("hig_init", lo=0.1, hi=9)
    seen = []

    def stub(**a):
        seen.append(a)
        return v.token("limit")

    if not v.symbolic:
        H = v.module(HB)
        old = H.find_poi_upper_limit
        H.find_poi_upper_limit = stub
    else:
        v.callee(HB, "find_poi_upper_limit", stub)
    try:
        r = v.ok("call", k.model.poi_upper_limit, E, cl, lo, hi, band, optimiser_arguments=kw)
    finally:
        if not v.symbolic:
            H.find_poi_upper_limit = old
    if not seen:
        return
    a = seen[0]
    v.ensure("result returned unchanged", getattr(r, "name", None) == "limit")
    v.ensure_eq("maximum likelihood", list(a["maximum_likelihood"]), list(k.ML(E, False, **kw)))
    v.ensure_eq("Asimov maximum", list(a["maximum_asimov_likelihood"]),
                list(k.AML(E, "qtilde", **kw)))
    x = v.real("x")
    v.ensure_eq("density", a["logpdf"](x), -k.L(x, E, **kw))
    v.ensure_eq("Asimov density", a["asimov_logpdf"](x), -k.AL(x, E, "qtilde", **kw))
    v.ensure_eq("confidence level", a["confidence_level"], cl)
    v.ensure("q-tilde convention", a.get("allow_negative_signal") is False)
    v.ensure("expectation", a["expected"] == E)
    v.ensure("band", E.name == "observed" or a["expected_pvalue"] == band)
    v.ensure_eq("low start", a["low_init"], lo)
    v.ensure_eq("high start", a["hig_init"], hi)


@contract("C06", functions=[f"{HB}.HypothesisTestingBase.poi_upper_limit"])
def no_signal(v):
    """A model without signal yields cannot be bounded: inf, once per requested band."""
    k = make_model(v, alive=False)
    E = expectation(v)
    band = v.choice("expected_pvalue", ["nominal", "1sigma", "2sigma"])
    r = v.ok("call", k.model.poi_upper_limit, E, v.real("cl", lo=0, hi=1), expected_pvalue=band)
    n = 1 if E.name == "observed" else {"nominal": 1, "1sigma": 3, "2sigma": 5}[band]
    r = [r] if n == 1 else r
    v.ensure("inf for every band", len(r) == n and all(x == math.inf for x in r))


@contract("C06", functions=[f"{HB}.HypothesisTestingBase.poi_upper_limit"])
def invalid_level(v):
    """A confidence level outside [0,1] is rejected before anything is fitted."""
    k = make_model(v)
    cl = v.real("cl", pool=[-0.5, 1.5, 95.0])
    v.assume(v.Or(cl < 0.0, cl > 1.0))
    o = v.outcome(k.model.poi_upper_limit, confidence_level=cl)
    v.ensure("rejected", o.raised("AssertionError"), o)
    v.ensure("nothing fitted", not k.calls)
