"""C07: chi-square, pull, width of the signal-strength estimate and discovery significance."""

from pyvc.harness import contract
from contracts.c01 import spec
from contracts.c03 import SIG
from contracts.c05 import ASSUME, expectation
from contracts.fakes import HB, make_model

C = f"{HB}.HypothesisTestingBase"
NUM = {"minimizer": "scipy", "tol": 1e-3}
DEN = {"maxiter": 7}


def settings(v):
    """(keyword arguments of the call, of the numerator fits, of the denominator fit)."""
    common = v.choice("optimiser", [{}, {"init_pars": (1.0, 2.0), "par_bounds": ((0, 1), (0, 2))}])
    call, num, den = dict(common), dict(common), dict(common)
    if v.boolean("likelihood_kwargs"):
        call["likelihood_kwargs"] = dict(NUM)
        num.update(NUM)
    if v.boolean("mle_kwargs"):
        call["mle_kwargs"] = dict(DEN)
        den.update(DEN)
    return call, num, den


def denominator(v, k, E, neg, den):
    """(argument, value) of the reference likelihood."""
    kind = v.choice("denominator", ["maximum", "value", "dict"])
    if kind == "maximum":
        return None, k.ML(E, neg, **den)[1]
    d = v.real("poi_denominator")
    d = d if kind == "value" else {0: d, 3: v.real("nuisance_denominator")}
    return d, k.L(d, E, **den)


@contract("C07", functions=[f"{C}.chi2"], assumptions=ASSUME)
def chi2_value(v):
    """chi2 = 2 (NLL at the tested point - NLL of the reference), for one tested point."""
    k = make_model(v)
    E = expectation(v)
    neg = v.boolean("allow_negative_signal")
    call, num, den = settings(v)
    ref, dval = denominator(v, k, E, neg, den)
    mu = v.real("poi_test", np64=v.boolean("np64"))
    if v.boolean("several parameters"):
        mu = {0: mu, "theta": v.real("theta")}
    r = v.ok("call", k.model.chi2, mu, ref, E, neg, **call)
    v.ensure_eq("twice the log-likelihood difference", r, 2.0 * (k.L(mu, E, **num) - dval))


@contract("C07", functions=[f"{C}.chi2"], assumptions=ASSUME,
          bounded="scans of one to three points")
def chi2_scan(v):
    """A list of tested points gives the same value, in order, as testing each of them."""
    k = make_model(v)
    E = expectation(v)
    neg = v.boolean("allow_negative_signal")
    call, num, den = settings(v)
    ref, dval = denominator(v, k, E, neg, den)
    pts = [v.real(f"poi{i}") for i in range(v.choice("points", [1, 2, 3]))]
    other = v.choice("scanned", ["poi", "one of several parameters"])
    if other == "poi":
        arg, each = pts, list(pts)
    else:
        th = v.real("theta")
        arg = {"mu": pts, "theta": th}
        each = [{"mu": p, "theta": th} for p in pts]
    r = v.ok("call", k.model.chi2, arg, ref, E, neg, **call)
    v.ensure("one value per point", len(r) == len(pts))
    for i, p in enumerate(each):
        v.ensure_eq("value of this point", r[i], 2.0 * (k.L(p, E, **num) - dval))
    if other != "poi":
        v.ensure("the caller's dictionary is unchanged", arg["mu"] is pts and arg["theta"] is th
                 and len(arg) == 2)


@contract("C07", functions=[f"{C}.chi2"])
def chi2_two_scans(v):
    """Scanning two parameters at once is refused."""
    k = make_model(v)
    o = v.outcome(k.model.chi2, {0: [v.real("a"), v.real("b")], 1: [v.real("c")]})
    v.ensure("refused", o.raised("NotImplementedError"), o)


@contract("C07", functions=[f"{C}.pull"], assumptions=ASSUME)
def pull(v):
    """pull^2 is the likelihood-ratio statistic, its sign that of muhat - mu."""
    k = make_model(v)
    E = expectation(v)
    neg = v.boolean("allow_negative_signal")
    kw = v.choice("optimiser", [{}, {"init_pars": (1.0, 2.0)}])
    mu = v.real("poi_test", np64=v.boolean("np64"))
    muhat, mn = k.ML(E, neg, **kw)
    nll = k.L(mu, E, **kw)
    r = v.ok("call", k.model.pull, mu, E, neg, **kw)
    want = v.If(muhat == mu, 0.0, v.max(0.0, 2.0 * (nll - mn)))
    v.ensure_eq("square of the pull", r * r, want)
    v.ensure("sign of the pull", v.And(v.Implies(muhat >= mu, r >= 0.0),
                                       v.Implies(muhat <= mu, r <= 0.0)))


@contract("C07", functions=[f"{C}.sigma_mu"],
          assumptions=ASSUME + ["the Asimov best fit of q and q-tilde is the background-only one "
                                "(mu' = 0), of q0 mu' is not used"])
def sigma_mu(v):
    """sigma = mu/sqrt(q_A) on Asimov data; 1 when q_A vanishes; the Hessian has priority."""
    hess = v.choice("hessian", ["absent", "available", "unavailable"])
    extra, want = {}, None
    E = expectation(v)
    kw = v.choice("optimiser", [{}, {"init_pars": (1.0, 2.0), "par_bounds": ((0, 1), (0, 2))}])
    mu = v.real("poi_test", np64=v.boolean("np64"))
    st = v.choice("stat", ["qtilde", "q", "q0", "qmu", "qmutilde"])
    if hess != "absent":
        exc = v.module("spey.system.exceptions").MethodNotAvailable
        sig = v.func("hessian_sigma")
        asked = []

        def from_hessian(self, poi_test, expected=None, **a):
            asked.append((poi_test, expected, a))
            if hess == "unavailable":
                raise exc()
            return sig(poi_test, f"E={expected}")

        extra["sigma_mu_from_hessian"] = from_hessian
        want = sig(mu, f"E={E}") if hess == "available" else None
    k = make_model(v, extra=extra)
    if hess != "available":
        muhatA, mnA = k.AML(E, st, **kw)
        qA = spec(v, {"qmu": "q", "qmutilde": "qtilde"}.get(st, st), mu, muhatA, -mnA,
                  lambda x: -k.AL(x, E, st, **kw))
    r = v.ok("call", k.model.sigma_mu, mu, E, st, **kw)
    if hess != "absent":
        v.ensure("optimiser arguments reach the Hessian", len(asked) == 1 and asked[0][2] == kw)
    if want is not None:
        v.ensure_eq("the Hessian estimate is used when there is one", r, want)
    elif v.holds(qA <= 0.0):
        v.ensure_eq("unit width when the statistic vanishes", r, 1.0)
    else:
        v.ensure_eq("sigma^2 q_A = mu^2", r * r * qA, mu * mu, tol=1e-9)
        v.ensure("sign", v.Implies(mu >= 0.0, r >= 0.0))


@contract("C07", functions=[f"{C}.significance", f"{C}._prepare_for_hypotest"], assumptions=ASSUME)
def significance(v):
    """Observed and Asimov sqrt(q0) and the p-values of the discovery statistic."""
    k = make_model(v)
    E = expectation(v)
    kw = v.choice("optimiser", [{}, {"init_pars": (1.0, 2.0), "par_bounds": ((0, 1), (0, 2))}])
    muhat, mn = k.ML(E, False, **kw)
    muhatA, mnA = k.AML(E, "q0", **kw)
    q = spec(v, "q0", 0.0, muhat, -mn, lambda x: -k.L(x, E, **kw))
    qA = spec(v, "q0", 0.0, muhatA, -mnA, lambda x: -k.AL(x, E, "q0", **kw))
    sA, s, obs, exp = v.ok("call", k.model.significance, E, **kw)
    v.ensure_eq("Asimov significance squared", sA * sA, qA)
    v.ensure_eq("observed significance squared", s * s, q)
    v.ensure("significances are non-negative", v.And(s >= 0.0, sA >= 0.0))
    v.ensure("one observed p-value, five expected", len(obs) == 1 and len(exp) == 5)
    v.ensure_eq("observed p-value is the tail of the observed significance", obs[0], v.Phi(-s),
                tol=1e-9)
    for p, n in zip(exp, SIG):
        v.ensure_eq("expected p-value at the background quantile", p, v.Phi(-sA - n), tol=1e-9)


def containers():
    """Ways to give the values of a scan."""
    import numpy as np

    return {"list": list, "tuple": tuple, "array": np.array, "column": lambda x: np.array(
        [[y, -y] for y in x])[:, 0], "numpy numbers": lambda x: [np.float64(y) for y in x],
        "one-element array": lambda x: np.array(x[:1]), "integers": lambda x: [int(y) for y in x],
        "integer array": lambda x: np.array([int(y) for y in x])}


@contract("C07", functions=[f"{C}.chi2"], symbolic=False,
          bounded="sampled values; lists, tuples and arrays of numbers of any kind")
def chi2_containers(v):
    """The values of a scan may be a list, a tuple or an array of any kind of numbers."""
    k = make_model(v)
    f = lambda p: 0.5 * (1.7 * p["a"] - 0.3 * p["b"]) ** 2 if isinstance(p, dict) else \
        0.5 * (1.7 * p - 0.3) ** 2
    k.cls.likelihood = lambda self, poi_test=1.0, **kw: float(f(poi_test))
    k.cls.maximize_likelihood = lambda self, **kw: (0.1, -0.25)
    kind = v.choice("container", list(containers()) + ["generator", "range", "iterator"])
    pts = [v.real(f"x{i}", lo=-5, hi=9) for i in range(v.choice("points", [1, 2, 4]))]
    several = v.boolean("several parameters")
    lazy = {"generator": lambda x: (y for y in x), "iterator": iter, "range": lambda x: range(3)}
    if kind in lazy:
        v.assume(not several)
        arg = lazy[kind](pts)
        pts = list(range(3)) if kind == "range" else pts
    else:
        arg = containers()[kind](pts)
        pts = [float(x) for x in arg]
    b = v.choice("other", [1.0, 2, -0.5, v.real("theta", lo=-3, hi=3)])
    order = v.boolean("scanned first")
    call = arg if not several else {"a": arg, "b": b} if order else {"b": b, "a": arg}
    r = v.ok("call", k.model.chi2, call)
    v.ensure("one value per point", len(r) == len(pts))
    for x, p in zip(r, pts):
        v.ensure_eq("value of this point", float(x), 2.0 * (
            f({"a": p, "b": b} if several else p) + 0.25))
