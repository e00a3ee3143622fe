"""C03: asymptotic p-values."""

from pyvc.harness import contract

AC = "spey.hypothesis_testing.asymptotic_calculator"
HU = "spey.hypothesis_testing.utils"
DI = "spey.hypothesis_testing.distributions"
FNS = [f"{AC}.compute_asymptotic_confidence_level", f"{HU}.pvalues", f"{HU}.expected_pvalues",
       f"{DI}.AsymptoticTestStatisticsDistribution.pvalue",
       f"{DI}.AsymptoticTestStatisticsDistribution.expected_value"]
SIG = [2.0, 1.0, 0.0, -1.0, -2.0]
POOL = [0.0, 1e-6, 0.3, 1.0, 1.64, 2.0, 5.0, 8.0, 20.0, 37.0, 60.0, 1e3]


@contract("C03", functions=FNS, assumptions=["scipy.stats.norm.cdf is Phi"])
def observed(v):
    """CLs = Phi(-sqrtqA-Delta)/Phi(-Delta); discovery statistic returns Phi(-sqrtqA-Delta)."""
    m = v.module(AC)
    np64 = v.boolean("np64")
    sA = v.real("sqrt_qmuA", lo=0.0, np64=np64, pool=POOL)
    d = v.real("delta", np64=np64, pool=POOL + [-x for x in POOL])
    ts = v.choice("test_stat", ["qtilde", "q", "q0", "qmu"])
    obs, _ = v.ok("call", m.compute_asymptotic_confidence_level, sA, d, ts)
    v.ensure("one observed p-value", len(obs) == 1)
    p = obs[0]
    clsb, clb = v.Phi(-sA - d), v.Phi(-d)
    if ts == "q0":
        v.ensure("observed p-value is CLs+b", v.eq_rel(p, clsb))
    elif v.holds(clb == 0.0):
        v.ensure_eq("CLs is zero when CLb vanishes", p, 0.0)
    else:
        v.ensure("CLs * CLb = CLs+b", v.eq_rel(p * clb, clsb))
        v.ensure("CLs is not below CLs+b", v.ge(p, clsb))
    v.ensure("p-value in [0,1]", v.And(p >= 0.0, v.le(p, 1.0)))


@contract("C03", functions=FNS, assumptions=["scipy.stats.norm.cdf is Phi",
                                             "Phi(x-s)/Phi(x) is increasing in x for s>=0 "
                                             "(log-concavity of Phi)"])
def expected(v):
    """Five expected p-values at background quantiles 2,1,0,-1,-2 sigma, ordered, in [0,1]."""
    m = v.module(AC)
    sA = v.real("sqrt_qmuA", lo=0.0, np64=v.boolean("np64"), pool=POOL)
    d = v.real("delta", pool=POOL + [-x for x in POOL])
    ts = v.choice("test_stat", ["qtilde", "q", "q0"])
    _, exp = v.ok("call", m.compute_asymptotic_confidence_level, sA, d, ts)
    v.ensure("five expected p-values", len(exp) == 5)
    num = [v.Phi(-sA - n) for n in SIG]
    den = [v.Phi(-n) for n in SIG]
    if ts != "q0":
        for i in range(4):
            v.assume(v.le(num[i] * den[i + 1], num[i + 1] * den[i]))
    for i, n in enumerate(SIG):
        if ts == "q0":
            v.ensure("expected p-value is CLs+b at the background quantile",
                     v.eq_rel(exp[i], num[i]))
        else:
            v.ensure("expected CLs times CLb is CLs+b at the background quantile",
                     v.eq_rel(exp[i] * den[i], num[i]))
        v.ensure("expected p-value in [0,1]", v.And(exp[i] >= 0.0, v.le(exp[i], 1.0)))
    for i in range(4):
        v.ensure("expected band is ordered", v.le(exp[i], exp[i + 1]))


@contract("C03", functions=FNS)
def monotone(v):
    """A larger observed excess over the Asimov expectation never raises CLs+b or CLb."""
    m = v.module(HU)
    D = v.module(DI).AsymptoticTestStatisticsDistribution
    sA = v.real("sqrt_qmuA", lo=0.0, pool=POOL)
    d1 = v.real("d1", lo=-20, hi=20)
    d2 = v.real("d2", lo=-20, hi=20)
    v.assume(d1 <= d2)
    a = v.ok("pvalues", m.pvalues, d1, D(-sA), D(0.0))
    b = v.ok("pvalues", m.pvalues, d2, D(-sA), D(0.0))
    v.ensure("CLs+b does not increase", v.le(b[0], a[0]))
    v.ensure("CLb does not increase", v.le(b[1], a[1]))


@contract("C03", functions=[f"{DI}.AsymptoticTestStatisticsDistribution.pvalue",
                            f"{DI}.AsymptoticTestStatisticsDistribution.logcdf",
                            f"{DI}.AsymptoticTestStatisticsDistribution.expected_value"])
def distribution(v):
    """Tail probability and quantile of the shifted normal, with and without a cutoff."""
    D = v.module(DI).AsymptoticTestStatisticsDistribution
    shift, x, ns = v.real("shift"), v.real("value"), v.real("nsigma")
    d = D(shift)
    v.ensure("tail probability", v.eq_rel(v.ok("pvalue", d.pvalue, x), v.Phi(shift - x)))
    v.ensure_eq("quantile", v.ok("expected_value", d.expected_value, ns), ns + shift)
    cut = v.real("cutoff")
    d = D(shift, cut)
    v.ensure_eq("quantile clipped at the cutoff", v.ok("expected_value", d.expected_value, ns),
                v.max(ns + shift, cut))
    lo = v.And(shift - x >= -30.0, shift - x <= 5.0)
    if v.holds(lo):
        r = v.ok("logcdf", D(shift).logcdf, x)
        v.ensure("logarithm of the tail probability", v.eq_rel(r, v.log(v.Phi(shift - x)), 1e-6))
        p = v.Phi(shift - x)
        r = v.ok("pvalue", D(shift, cut).pvalue, x)
        if v.holds(v.And(p >= cut + 1e-9)):
            v.ensure("tail probability above the cutoff", v.eq_rel(r, p))
        elif v.holds(p <= cut - 1e-9):
            v.ensure("none below the cutoff", r != r)
