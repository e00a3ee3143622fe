"""C04: p-values from toy samples."""

from pyvc.harness import contract
from contracts.c03 import DI, HU, SIG

TC = "spey.hypothesis_testing.toy_calculator"
FNS = [f"{TC}.compute_toy_confidence_level", f"{HU}.pvalues", f"{HU}.expected_pvalues",
       f"{DI}.EmpricTestStatisticsDistribution.pvalue",
       f"{DI}.EmpricTestStatisticsDistribution.expected_value"]


def frac_ge(v, arr, n, x):
    """Fraction of toys at least as extreme as x."""
    cnt = v.Sum(n, lambda i: v.tif(v.at(arr, i) >= x, 1.0, 0.0))
    return cnt, n


def quantile(v, arr, n, ns):
    if v.symbolic:
        from pyvc.facade import np_percentile

        return np_percentile(arr, v.Phi(ns) * 100.0)
    import numpy as np

    return float(np.percentile(arr, v.Phi(ns) * 100.0))


class AnyDist:
    """A test-statistic distribution known only by its contract: a tail probability in [0,1]."""

    def __init__(self, v, name):
        self.v, self.name = v, name
        self.p, self.q = v.func(f"p_{name}", np64=True), v.func(f"q_{name}", np64=True)

    def pvalue(self, x):
        p = self.p(x)
        if not self.v.symbolic:
            p = type(p)(abs(p) % 1.0)
        self.v.assume(self.v.And(p >= 0.0, p <= 1.0))
        return p

    def expected_value(self, ns):
        return self.q(ns)


def check_triple(v, t, SB, B, x):
    psb, pb = SB.pvalue(x), B.pvalue(x)
    v.ensure_eq("CLs+b", t[0], psb)
    v.ensure_eq("CLb", t[1], pb)
    if v.holds(pb == 0.0):
        v.ensure_eq("CLs is zero when CLb is zero", t[2], 0.0)
    else:
        v.ensure_eq("CLs is CLs+b/CLb", t[2] * pb, psb)


@contract("C04", functions=[f"{HU}.pvalues"])
def pvalues(v):
    """pvalues = (CLs+b, CLb, CLs+b/CLb or 0 when CLb = 0) of the value, for any distributions."""
    SB, B = AnyDist(v, "sb"), AnyDist(v, "b")
    x = v.real("x")
    check_triple(v, v.ok("pvalues", v.module(HU).pvalues, x, SB, B), SB, B, x)


@contract("C04", functions=[f"{HU}.expected_pvalues", f"{HU}.pvalues"])
def expected_pvalues(v):
    """expected_pvalues = pvalues at the background-only quantiles 2,1,0,-1,-2 sigma, by column."""
    SB, B = AnyDist(v, "sb"), AnyDist(v, "b")
    e = v.ok("expected_pvalues", v.module(HU).expected_pvalues, SB, B)
    v.ensure("three columns", len(e) == 3)
    for i, ns in enumerate(SIG):
        check_triple(v, [e[0][i], e[1][i], e[2][i]], SB, B, B.expected_value(ns))
    v.ensure("five entries each", all(len(c) == 5 for c in e))


def infinite(v, *arrays):
    """Concrete runs only (the solver's reals are finite): toys without any likelihood at the tested
    value have an infinite statistic and still count."""
    for i, a in enumerate(arrays):
        how = v.choice(f"infinite{i}", [None, 0, -1])
        if how is not None:
            a[how] = float("inf")


@contract("C04", functions=FNS, assumptions=["numpy.percentile(samples, 100*Phi(n)) is the "
                                             "n-sigma quantile of the samples"])
def observed(v):
    """Toy p-values are the fractions of toys >= the observed statistic; CLs is their ratio."""
    m = v.module(TC)
    v.callee(m, "expected_pvalues", lambda *a: [[v.real(f"e{i}{j}") for j in range(5)]
                                                for i in range(3)])
    n, k = v.length("n_sb"), v.length("n_b")
    sb, b = v.array("sb", n), v.array("b", k)
    x = v.real("test_statistic")
    if not v.symbolic:
        infinite(v, sb, b)
        x = v.choice("tie", [x, float(sb[0]), float(b[-1]), sb[0], b[-1]])
    ts = v.choice("test_stat", ["qtilde", "q", "q0"])
    wrap = (lambda a: a) if v.symbolic else list
    o, _ = v.ok("call", m.compute_toy_confidence_level, wrap(sb), wrap(b), x, ts)
    v.ensure("one observed p-value", len(o) == 1)
    c1, _ = frac_ge(v, sb, n, x)
    c2, _ = frac_ge(v, b, k, x)
    if ts == "q0":
        v.ensure_eq("observed p-value is the signal+background tail fraction", o[0] * n, c1)
    elif v.holds(c2 == 0.0):
        v.ensure_eq("CLs is zero when no background toy is as extreme", o[0], 0.0)
    else:
        v.ensure_eq("CLs is the ratio of the tail fractions", o[0] * c2 * n, c1 * k)
    v.ensure("p-value is non-negative", v.ge(o[0], 0.0))


@contract("C04", functions=FNS)
def expected(v):
    """Expected band: the same p-values at the background toys' 2,1,0,-1,-2 sigma quantiles."""
    m = v.module(TC)
    n, k = v.length("n_sb"), v.length("n_b")
    sb, b = v.array("sb", n), v.array("b", k)
    x = v.real("test_statistic")
    ts = v.choice("test_stat", ["qtilde", "q", "q0"])
    wrap = (lambda a: a) if v.symbolic else list
    seen = []
    columns = [[v.real(f"e{i}{j}") for j in range(5)] for i in range(3)] if v.symbolic else None

    def stub(SB, B):  # contract of expected_pvalues, established separately
        seen.append((SB, B))
        return columns

    v.callee(m, "pvalues", lambda *a: tuple(v.real(f"p{i}") for i in range(3)))
    v.callee(m, "expected_pvalues", stub)
    _, e = v.ok("call", m.compute_toy_confidence_level, wrap(sb), wrap(b), x, ts)
    v.ensure("five expected p-values", len(e) == 5)
    if seen:
        SB, B = seen[-1]
        y, ns = v.real("y"), v.choice("nsigma", SIG)
        v.ensure_eq("signal+background tail", SB.pvalue(y) * n, frac_ge(v, sb, n, y)[0])
        v.ensure_eq("background tail", B.pvalue(y) * k, frac_ge(v, b, k, y)[0])
        v.ensure_eq("background quantile", B.expected_value(ns), quantile(v, b, k, ns))
        v.ensure_eq("returned column", e, columns[0 if ts == "q0" else 2])
        return
    for j, ns in enumerate(SIG):
        t = quantile(v, b, k, ns)
        c1, _ = frac_ge(v, sb, n, t)
        c2, _ = frac_ge(v, b, k, t)
        if ts == "q0":
            v.ensure_eq("expected p-value is the tail fraction at the quantile", e[j] * n, c1)
        elif v.holds(c2 == 0.0):
            v.ensure_eq("expected CLs is zero when CLb is zero", e[j], 0.0)
        else:
            v.ensure_eq("expected CLs is the ratio at the quantile", e[j] * c2 * n, c1 * k)


@contract("C04", functions=[f"{DI}.EmpricTestStatisticsDistribution.pvalue"])
def tail(v):
    """pvalue(x) = #{toys >= x}/N, between 0 and 1."""
    D = v.module(DI).EmpricTestStatisticsDistribution
    n = v.length("n")
    a = v.array("a", n)
    x = v.real("x")
    if not v.symbolic:  # a threshold equal to a toy counts that toy
        infinite(v, a)
        x = v.choice("tie", [x, float(a[0]), a[0]])
    p = v.ok("pvalue", D(a).pvalue, x)
    c, _ = frac_ge(v, a, n, x)
    v.ensure_eq("tail fraction", p * n, c)
    if not v.symbolic:
        v.ensure("in [0,1]", 0.0 <= p <= 1.0)


@contract("C04", functions=FNS, symbolic=False, bounded="samples of up to 70000 toys")
def large(v):
    """Large samples are counted exactly, and a toy without a statistic is not an extreme one."""
    import numpy as np

    D = v.module(DI).EmpricTestStatisticsDistribution
    n = v.choice("toys", [127, 128, 255, 256, 300, 1000, 32768, 65536, 70000])
    rng = np.random.default_rng(v.int("seed", lo=0, hi=9999))
    a = np.round(rng.chisquare(1, n), v.choice("digits", [2, 12]))
    b = np.round(rng.chisquare(1, n // 2 + 1), 2)
    x = float(a[0]) if v.boolean("tie") else v.real("x", lo=0, hi=4)
    keep = a.copy()
    c, d = sum(1 for y in a.tolist() if y >= x), sum(1 for y in b.tolist() if y >= x)
    v.ensure_eq("tail fraction", D(a).pvalue(x), c / n)
    obs, exp = v.ok("call", v.module(TC).compute_toy_confidence_level, a, b, x, "qtilde")
    v.ensure_eq("CLs", obs[0], (c / n) / (d / len(b)) if d else 0.0)
    v.ensure("samples are left alone", np.array_equal(a, keep))
    lost = v.int("without statistic", lo=1, hi=100)
    a[:lost] = float("nan")
    v.ensure_eq("not extreme", D(a).pvalue(x), sum(1 for y in a.tolist() if y >= x) / n)
