"""C05: exclusion confidence level (dispatch, forwarding, 1-p, number and order of the values)."""

from pyvc.harness import contract
from contracts.c01 import spec
from contracts.c03 import SIG
from contracts.fakes import HB, clean, make_model

F = f"{HB}.HypothesisTestingBase.exclusion_confidence_level"
P = f"{HB}.HypothesisTestingBase._prepare_for_hypotest"
ASSUME = ["likelihoods and their maxima are arbitrary finite functions of the arguments they are "
          "called with (model stand-in)"]


def expectation(v, name="expected", values=("observed", "apriori", "aposteriori")):
    return getattr(v.module("spey.utils").ExpectationType, v.choice(name, list(values)))


def optimiser_kwargs(v):
    """Optimiser arguments that must reach every likelihood evaluation."""
    return v.choice("optimiser", [{}, {"init_pars": (1.0, 2.0), "par_bounds": ((0, 1), (0, 2))}])


def check_cls(v, label, res, clsb, clb):
    """res = 1 - CLs+b/CLb"""
    if v.holds(clb == 0.0):
        v.ensure_eq(label, res, 1.0)
    else:
        v.ensure_eq(label, (1.0 - res) * clb, clsb, tol=1e-9)


@contract("C05", functions=[F, P], assumptions=ASSUME)
def asymptotic(v):
    """1-CLs from (sqrt qA, Delta) of this model's own fits, for every likelihood function."""
    k = make_model(v)
    E = expectation(v)
    neg = v.boolean("allow_negative_signal")
    kw = optimiser_kwargs(v)
    mu = v.real("poi_test")
    # contracts of the callees: established by C02 and C03
    st = "q" if neg else "qtilde"
    muhat, mn = k.ML(E, neg, **kw)
    muhatA, mnA = k.AML(E, st, **kw)
    q = spec(v, st, mu, muhat, -mn, lambda x: -k.L(x, E, **kw))
    qA = spec(v, st, mu, muhatA, -mnA, lambda x: -k.AL(x, E, st, **kw))
    o = v.outcome(k.model.exclusion_confidence_level, mu, E, neg, **kw)
    v.ensure("no exception", o.ok, o)
    if not o.ok:
        return
    r = o.value
    obs = E.name == "observed"
    v.ensure("one value observed, five expected", len(r) == (1 if obs else 5))
    if st == "qtilde" and v.holds(v.And(qA == 0.0, q > 0.0)):
        for x in r:
            v.ensure_eq("no exclusion when the Asimov statistic vanishes", x, 0.0)
        return
    sq, sA = v.sqrt(q), v.sqrt(qA)
    if not obs:
        for i, n in enumerate(SIG):
            check_cls(v, "expected exclusion at the background quantile", r[i], v.Phi(-sA - n),
                      v.Phi(-n))
        return
    d = sq - sA if st == "q" or v.holds(sq <= sA) else (q - qA) / (2.0 * sA)
    check_cls(v, "observed exclusion", r[0], v.Phi(-sA - d), v.Phi(-d))


@contract("C05", functions=[F], assumptions=ASSUME)
def everything_at_once(v):
    """expected="all" returns the observed value and the five expected ones."""
    k = make_model(v)
    mu = v.real("poi_test")
    neg = v.boolean("allow_negative_signal")
    st = "q" if neg else "qtilde"
    muhat, mn = k.ML("all", neg)
    muhatA, mnA = k.AML("all", st)
    q = spec(v, st, mu, muhat, -mn, lambda x: -k.L(x, "all"))
    qA = spec(v, st, mu, muhatA, -mnA, lambda x: -k.AL(x, "all", st))
    obs, exp = v.ok("call", k.model.exclusion_confidence_level, mu, "all", neg)
    v.ensure("one observed and five expected values", len(obs) == 1 and len(exp) == 5)
    if st == "qtilde" and v.holds(v.And(qA == 0.0, q > 0.0)):
        return
    sq, sA = v.sqrt(q), v.sqrt(qA)
    d = sq - sA if st == "q" or v.holds(sq <= sA) else (q - qA) / (2.0 * sA)
    check_cls(v, "observed exclusion", obs[0], v.Phi(-sA - d), v.Phi(-d))
    for i, n in enumerate(SIG):
        check_cls(v, "expected exclusion", exp[i], v.Phi(-sA - n), v.Phi(-n))


@contract("C05", functions=[F], assumptions=ASSUME)
def chi_square(v):
    """The chi-square calculator: CLs from the s+b and background-only likelihood ratios."""
    k = make_model(v)
    E = expectation(v)
    neg = v.boolean("allow_negative_signal")
    kw = optimiser_kwargs(v)
    mu = v.real("poi_test")
    st = "q" if neg else "qtilde"
    muhat, mn = k.ML(E, neg, **kw)
    lp = lambda x: -k.L(x, E, **kw)
    qs = spec(v, st, mu, muhat, -mn, lp)
    top = -mn if st == "q" or v.holds(muhat >= 0.0) else lp(0.0)
    qb = v.max(0.0, -2.0 * (lp(0.0) - top))
    o = v.outcome(k.model.exclusion_confidence_level, mu, E, neg, "chi_square", **kw)
    v.ensure("no exception", o.ok, o)
    if not o.ok:
        return
    r = o.value
    obs = E.name == "observed"
    v.ensure("one value observed, five expected", len(r) == (1 if obs else 5))
    ss, sb = v.sqrt(qs), v.sqrt(qb)
    if not obs:
        for i, n in enumerate(SIG):
            check_cls(v, "expected exclusion", r[i], v.Phi(-ss - n), v.Phi(-n))
        return
    d = sb - ss if st == "q" or v.holds(ss <= sb) else (qb - qs) / (2.0 * ss)
    check_cls(v, "observed exclusion", r[0], v.Phi(-ss - d), v.Phi(-d))


@contract("C05", functions=[F], assumptions=ASSUME, bounded="two pseudo-experiments per hypothesis")
def toys(v):
    """Toy calculator: every toy is fitted and tested with its own data, s+b and b separately."""
    sig = [v.token("s0"), v.token("s1")]
    bkg = [v.token("b0"), v.token("b1")]
    mu = v.real("poi_test")
    if not v.symbolic:
        v.assume(mu != 0.0)
    asked = []

    def samplers(poi, size):
        asked.append((poi, size))
        return bkg if isinstance(poi, float) and poi == 0.0 else sig

    k = make_model(v, samplers=samplers)
    E = expectation(v, values=("observed", "apriori"))
    neg = v.boolean("allow_negative_signal")
    kw = optimiser_kwargs(v)
    st = "q" if neg else "qtilde"
    got = []

    def stub(signal_like_test_statistic, background_like_test_statistic, test_statistic,
             test_stat="qtilde"):
        got.append((list(signal_like_test_statistic), list(background_like_test_statistic),
                    test_statistic, test_stat))
        return [v.real("p_obs", lo=0, hi=1)], [v.real(f"p{i}", lo=0, hi=1) for i in range(5)]

    v.callee(HB, "compute_toy_confidence_level", stub)
    r = v.ok("call", k.model.exclusion_confidence_level, mu, E, neg, "toy", verbose=False, **kw)
    v.ensure("one value observed, five expected", len(r) == (1 if E.name == "observed" else 5))

    def tstat(data):
        mh, mn = k.ML(E, neg, data, **kw)
        return spec(v, st, mu, mh, -mn, lambda x: -k.L(x, E, data, **kw))

    S, B, x = [tstat(d) for d in sig], [tstat(d) for d in bkg], tstat(None)
    if got:
        g = got[-1]
        v.ensure_eq("signal-like statistics", g[0], S)
        v.ensure_eq("background-like statistics", g[1], B)
        v.ensure_eq("observed statistic", g[2], x)
        v.ensure("same statistic", g[3] in ({"q", "qmu"} if neg else {"qtilde", "qmutilde"}))
        want = [v.real("p_obs")] if E.name == "observed" else [v.real(f"p{i}") for i in range(5)]
        for a, b in zip(r, want):
            v.ensure_eq("1 - p-value", a, 1.0 - b)
    elif not v.symbolic:
        tc = v.module("spey.hypothesis_testing.toy_calculator")
        p = tc.compute_toy_confidence_level(S, B, x, st)[0 if E.name == "observed" else 1]
        for a, b in zip(r, p):
            v.ensure_eq("1 - p-value", a, 1.0 - min(max(b, 0.0), 1.0))
    v.ensure("the sampler is asked for ntoys toys of each hypothesis",
             len(asked) == 2 and all(s == 2 for _, s in asked))
    draws = [c for c in k.calls if c[0] == "sampler"]
    v.ensure("one hypothesis is the tested one, the other one vanishing signal", v.Or(
        v.And(v.eq(draws[0][1], mu), v.eq(draws[1][1], 0.0)),
        v.And(v.eq(draws[1][1], mu), v.eq(draws[0][1], 0.0))))
    v.ensure("both are drawn for this expectation", all(c[3] == f"{E}" for c in draws))
    v.ensure("with these optimiser arguments", all(c[4] == clean(kw) for c in draws))


@contract("C05", functions=[F])
def unavailable(v):
    """A calculator the model does not offer raises, whatever else is available."""
    flags = tuple(v.boolean(f"flag{i}") for i in range(3))
    i = v.choice("calculator", range(3))
    v.assume(not flags[i])
    k = make_model(v, available=flags)
    o = v.outcome(k.model.exclusion_confidence_level, v.real("mu"),
                  calculator=["asymptotic", "toy", "chi_square"][i])
    v.ensure("calculator not available", o.raised("CalculatorNotAvailable"), o)
    v.ensure("nothing was fitted", not k.calls)


@contract("C05", functions=[F])
def unknown_calculator(v):
    """A calculator name that does not exist raises."""
    k = make_model(v)
    o = v.outcome(k.model.exclusion_confidence_level, v.real("mu"),
                  calculator=v.choice("name", ["Asymptotic", "toys", "chi2", "", "frequentist"]))
    v.ensure("rejected", o.raised("CalculatorNotAvailable"), o)


@contract("C05", functions=[P], assumptions=ASSUME)
def preparation(v):
    """Fits use q-convention signs: only q leaves the signal free; logpdfs are minus the NLL."""
    k = make_model(v)
    E = expectation(v)
    st = v.choice("stat", ["qtilde", "q", "q0", "qmu"])
    kw = optimiser_kwargs(v)
    a, lp, b, alp = v.ok("call", k.model._prepare_for_hypotest, E, st, **kw)
    v.ensure_eq("maximum likelihood", list(a), list(k.ML(E, st in ("q", "qmu"), **kw)))
    v.ensure_eq("Asimov maximum likelihood", list(b), list(k.AML(E, st, **kw)))
    x = v.real("x")
    v.ensure_eq("log-density of the data", v.ok("logpdf", lp, x), -k.L(x, E, **kw))
    v.ensure_eq("log-density of the Asimov data", v.ok("alogpdf", alp, x), -k.AL(x, E, st, **kw))
