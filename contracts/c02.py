"""C02: the triple sqrt(q), sqrt(q_A), Delta."""

from pyvc.harness import contract
from contracts.c01 import NAMES, TS, spec


def run(v, name):
    m = v.module(TS)
    np64 = v.boolean("np64")
    mu = v.real("mu", np64=np64)
    muhat, nll = v.real("muhat", np64=np64), v.real("min_nll", np64=np64)
    muhatA, nllA = v.real("muhatA", np64=np64), v.real("min_nllA", np64=np64)
    lp, lpA = v.func("logpdf", np64=np64), v.func("asimov_logpdf", np64=np64)
    o = v.outcome(m.compute_teststatistics, mu, (muhat, nll), lp, (muhatA, nllA), lpA, name)
    q = spec(v, NAMES[name], mu, muhat, -nll, lp)
    qA = spec(v, NAMES[name], mu, muhatA, -nllA, lpA)
    return o, q, qA


@contract("C02", functions=[f"{TS}.compute_teststatistics", f"{TS}.get_test_statistic",
                            f"{TS}.qmu", f"{TS}.qmu_tilde", f"{TS}.q0"],
          assumptions=["logpdf and asimov_logpdf are arbitrary finite real functions"])
def triple(v):
    """(sqrt q, sqrt qA, Delta) from the statistic on observed and Asimov data, all inputs."""
    name = v.choice("name", ["q", "qmu", "q0", "qtilde", "qmutilde"])
    o, q, qA = run(v, name)
    if name in ("qtilde", "qmutilde") and v.holds(v.And(qA == 0.0, q > 0.0)):
        v.ensure("degenerate Asimov statistic is reported", o.raised("AsimovTestStatZero"), o)
        return
    v.ensure("no exception", o.ok, o)
    if not o.ok:
        return
    sq, sqA, delta = o.value
    v.ensure("sqrt q is non-negative", sq >= 0.0)
    v.ensure("sqrt qA is non-negative", sqA >= 0.0)
    v.ensure_eq("sqrt q squared is the observed statistic", sq * sq, q)
    v.ensure_eq("sqrt qA squared is the Asimov statistic", sqA * sqA, qA)
    if name in ("q", "qmu", "q0") or v.holds(q <= qA):
        v.ensure_eq("Delta is the difference of the roots", delta, sq - sqA, tol=1e-7)
    else:
        v.ensure_eq("Delta follows the non-linear regime (1007.1727 eq. 66)",
                    delta * (2.0 * sqA), q - qA, tol=1e-7)


@contract("C02", functions=[f"{TS}.compute_teststatistics"])
def unknown_statistic(v):
    """An undocumented statistic name never produces numbers."""
    name = v.choice("name", ["", "Q", "qtild", "q_mu", "Q0", "qtilde ", " q", "QTILDE", None, 1])
    m = v.module(TS)
    mu, muhat, nll = v.real("mu"), v.real("muhat"), v.real("nll")
    lp = v.func("logpdf")
    o = v.outcome(m.compute_teststatistics, mu, (muhat, nll), lp, (muhat, nll), lp, name)
    v.ensure("rejected", o.raised("UnknownTestStatistics"), o)


@contract("C02", functions=[f"{TS}.compute_teststatistics"])
def asimov_and_data_not_mixed(v):
    """Identical observed and Asimov inputs give Delta = 0 and equal roots."""
    name = v.choice("name", ["q", "q0", "qtilde"])
    m = v.module(TS)
    mu, muhat, nll = v.real("mu"), v.real("muhat"), v.real("nll")
    lp = v.func("logpdf")
    sq, sqA, d = v.ok("call", m.compute_teststatistics, mu, (muhat, nll), lp, (muhat, nll), lp, name)
    v.ensure_eq("equal roots", sq, sqA)
    v.ensure_eq("Delta is zero", d, 0.0)


@contract("C02", functions=[f"{TS}.compute_teststatistics"], symbolic=False,
          bounded="generated values; one hypothesis without any likelihood")
def impossible(v):
    """A hypothesis that the data exclude completely is infinitely far, on its own data set only."""
    m = v.module(TS)
    inf = float("inf")
    name = v.choice("name", ["q", "qmu", "qtilde", "qmutilde"])
    mu, muhat = v.real("mu", lo=1.0, hi=5), v.real("muhat", lo=-2, hi=0.9)
    a, b, r = v.real("nll", lo=-9, hi=9), v.real("nllA", lo=-9, hi=9), v.real("q_A", lo=0.1, hi=9)
    obs = v.choice("excluded by", ["data", "Asimov data"]) == "data"
    bad = lambda x: -inf if x == mu else -a - 1.0
    good = lambda x: -b - 0.5 * r if x == mu else -b
    pair = (mu, (muhat, a), bad, (0.0, b), good) if obs else (mu, (0.0, b), good, (muhat, a), bad)
    sq, sqA, d = v.ok("triple", m.compute_teststatistics, *pair, name)
    v.ensure("infinite root", (sq if obs else sqA) == inf, (sq, sqA, d))
    v.ensure("finite root", abs((sqA if obs else sq) - r**0.5) < 1e-9, (sq, sqA, d))
    v.ensure("infinite difference", d == (inf if obs else -inf), (sq, sqA, d))


def left_sided(v, above):
    m = v.module(TS)
    mu, s = v.real("mu", lo=-4, hi=4), v.real("sigma", lo=0.2, hi=3)
    hat, hatA = v.real("muhat", lo=-6, hi=6), v.real("muhatA", lo=-6, hi=6)
    lp = lambda c: lambda x: -0.5 * ((x - c) / s) ** 2
    v.assume(abs(hat - mu) > 1e-3 and abs(hatA - mu) > 1e-3)
    sq, sA = (hat > mu) * (hat - mu) / s, (hatA > mu) * (hatA - mu) / s
    v.assume((sq > sA) == above)
    o = v.outcome(m.compute_teststatistics, mu, (hat, 0.0), lp(hat), (hatA, 0.0), lp(hatA),
                  "qmu_left")
    v.ensure("Delta is the difference of the roots", o.ok and abs(o.value[2] - (sq - sA)) < 1e-6,
             o)


@contract("C02", functions=[f"{TS}.compute_teststatistics"], symbolic=False,
          bounded="generated parabolic likelihoods")
def left_tail(v):
    """The left-sided statistic, not above its Asimov value."""
    left_sided(v, False)


@contract("C02", functions=[f"{TS}.compute_teststatistics"], symbolic=False,
          bounded="generated parabolic likelihoods")
def left_tail_above(v):
    """The left-sided statistic has no non-linear regime above its Asimov value."""
    left_sided(v, True)
