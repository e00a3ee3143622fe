"""C01: profile-likelihood test statistics equal their definitions."""

from pyvc.harness import contract

TS = "spey.hypothesis_testing.test_statistics"

# name -> which statistic it denotes
NAMES = {"qmu": "q", "q": "q", "qtilde": "qtilde", "qmutilde": "qtilde", "q0": "q0",
         "qmu_left": "left"}


def spec(v, which, mu, muhat, maxlp, lp):
    """The definition, from the documentation (arXiv:1007.1727)."""
    if which == "qtilde":
        d = v.If(muhat < 0.0, lp(mu) - lp(0.0), lp(mu) - maxlp)
        zero = muhat > mu
    elif which == "q":
        d, zero = lp(mu) - maxlp, muhat > mu
    elif which == "left":
        d, zero = lp(mu) - maxlp, muhat < mu
    else:
        d, zero = lp(0.0) - maxlp, muhat < 0.0
    return v.If(zero, 0.0, v.max(0.0, -2.0 * d))


def inputs(v):
    np64 = v.boolean("np64")
    mu = v.real("mu", np64=np64)
    muhat = v.real("muhat", np64=np64)
    maxlp = v.real("maxlp", np64=np64)
    lp = v.func("logpdf", np64=np64)
    return mu, muhat, maxlp, lp


@contract("C01", functions=[f"{TS}.qmu", f"{TS}.qmu_tilde", f"{TS}.q0", f"{TS}.qmu_left",
                            f"{TS}.get_test_statistic"],
          assumptions=["logpdf is an arbitrary finite real function"])
def definitions(v):
    """Each named statistic returns its definition, and is non-negative, for every input."""
    m = v.module(TS)
    name = v.choice("name", sorted(NAMES))
    mu, muhat, maxlp, lp = inputs(v)
    f = v.ok("lookup of a documented statistic", m.get_test_statistic, name)
    val = v.ok("statistic", f, mu, muhat, maxlp, lp)
    v.ensure_eq(f"{name} equals its definition", val, spec(v, NAMES[name], mu, muhat, maxlp, lp))
    v.ensure(f"{name} is non-negative", val >= 0.0)


@contract("C01", functions=[f"{TS}.qmu", f"{TS}.qmu_tilde", f"{TS}.q0", f"{TS}.qmu_left"])
def functions_direct(v):
    """The four functions called directly agree with the definitions."""
    m = v.module(TS)
    which = v.choice("which", ["q", "qtilde", "q0", "left"])
    mu, muhat, maxlp, lp = inputs(v)
    f = {"q": m.qmu, "qtilde": m.qmu_tilde, "q0": m.q0, "left": m.qmu_left}[which]
    val = v.ok("statistic", f, mu, muhat, maxlp, lp)
    v.ensure_eq(f"{which} equals its definition", val, spec(v, which, mu, muhat, maxlp, lp))


@contract("C01", functions=[f"{TS}.get_test_statistic"])
def unknown_name(v):
    """A name that is not one of the documented ones is rejected, never mapped to something."""
    m = v.module(TS)
    name = v.choice("name", ["", "Q", "qmut", "q1", "qtilde ", "QTILDE", "qmu_right", "q_0", "left",
                             "qmutilde0", "t", "tmu", " q", "qmu ", "q\n", "qTilde", "qmu_tilde", "Q0",
                             "QMU", "q00", "qmu-left", "qmuleft", None, 0, True, b"q", ("q",)])
    o = v.outcome(m.get_test_statistic, name)
    v.ensure("unknown statistic rejected", o.raised("UnknownTestStatistics"), o)


@contract("C01", functions=[f"{TS}.qmu", f"{TS}.qmu_tilde", f"{TS}.q0", f"{TS}.qmu_left"],
          symbolic=False, bounded="generated values; one hypothesis without any likelihood")
def impossible(v):
    """An impossible hypothesis is infinitely disfavoured, an unknown likelihood stays unknown."""
    m = v.module(TS)
    inf, nan = float("inf"), float("nan")
    which = v.choice("which", ["q", "qtilde", "q0", "left"])
    f = {"q": m.qmu, "qtilde": m.qmu_tilde, "q0": m.q0, "left": m.qmu_left}[which]
    mu, muhat, best = v.real("mu", lo=0.1, hi=5), v.real("muhat", lo=-5, hi=5), v.real("best", lo=-9, hi=9)
    at = 0.0 if which == "q0" else mu
    zero = {"q": muhat > mu, "qtilde": muhat > mu, "q0": muhat < 0.0, "left": muhat < mu}[which]
    bad = v.choice("likelihood at the hypothesis", [-inf, nan])
    y = float(v.ok("statistic", f, mu, muhat, best, lambda x: bad if x == at else best - 1.0))
    v.ensure("zero on the excluded side", not zero or y == 0.0)
    v.ensure("infinite when impossible", zero or bad == bad and y == inf or bad != bad and y != y, y)


@contract("C01", functions=[f"{TS}.qmu", f"{TS}.qmu_tilde", f"{TS}.q0", f"{TS}.qmu_left"])
def once(v):
    """Nothing is remembered: the same values give the same result after any other call."""
    m = v.module(TS)
    which = v.choice("which", ["q", "qtilde", "q0", "left"])
    f = {"q": m.qmu, "qtilde": m.qmu_tilde, "q0": m.q0, "left": m.qmu_left}[which]
    g = v.func("other")
    lp = v.func("logpdf")
    if v.choice("before", ["same function", "other"]) == "other":
        v.ok("before", f, v.real("mu0"), v.real("muhat0"), v.real("maxlp0"), g)
        mu, muhat, maxlp = v.real("mu"), v.real("muhat"), v.real("maxlp")
    else:
        mu, muhat, maxlp = v.real("mu"), v.real("muhat"), v.real("maxlp")
        h = lambda x: g(x)
        v.ok("before", f, mu, muhat, v.real("maxlp0"), h)
    val = v.ok("statistic", f, mu, muhat, maxlp, lp)
    v.ensure_eq(f"{which} equals its definition", val, spec(v, which, mu, muhat, maxlp, lp))
