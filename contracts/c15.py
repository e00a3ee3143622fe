"""C15: skewed and asymmetric backgrounds follow their published parametrisations."""

import math

import numpy as np
import z3

from contracts.c10 import (AG, DI, DP, Model, expected, functions_agree, mvn_term, numbers, own_copies,
                           pick_data, poisson_term, positivity)
from pyvc.core import Unsupported
from pyvc.harness import contract
from pyvc.values import SymReal, bool_expr

TM = f"{DP}.third_moment"
PI43 = 4.0 * math.pi / 3.0


def skew(v, sig, m):
    """arXiv:1809.05548 eq. 2.9 for one bin; zero when the moment is too large."""
    if v.symbolic:
        d = v.tdiv(8.0 * sig * sig * sig, m * m) - 1.0
        a = v.arctan(v.tsqrt(d))
        sign = v.tif(m > 0, 1.0, v.tif(m < 0, -1.0, 0.0))
        return -sign * v.tsqrt(2.0 * sig) * v.cos(PI43 + (1.0 / 3.0) * a)
    if m == 0.0 or 8.0 * sig**3 < m**2:
        return 0.0
    a = math.atan(math.sqrt(max(8.0 * sig**3 / m**2 - 1.0, 0.0)))
    return -math.copysign(1.0, m) * math.sqrt(2.0 * sig) * math.cos(PI43 + a / 3.0)


def objects(x):
    """A symbolic numpy array of known shape: the elements are numpy scalars."""
    x = np.array(x, dtype=object)
    for i in np.ndindex(x.shape):
        x[i] = SymReal(x[i].e, True) if isinstance(x[i], SymReal) else np.float64(x[i])
    return x


class Moments:
    """First three moments of a background, third ones within the documented range."""

    def __init__(self, v, n):
        self.v, self.n = v, n
        self.b = v.array("background", n, lo=0.0, lo_open=True)
        self.cov = v.matrix("covariance", n, symmetric=True, posdiag=True)
        if v.symbolic:
            self.m = v.array("third moments", n)
            i = v.fresh_index(n)
            s, m = v.at(self.cov, (i, i)), v.at(self.m, i)
            k = i.e
            f = lambda e: z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n.e), e))
            v.c.assume(f(bool_expr(8.0 * s * s * s >= m * m)))
        else:
            f = v.array("skewness", n)
            self.m = np.array([math.tanh(f[i]) * math.sqrt(8.0 * self.cov[i, i] ** 3)
                               for i in range(n)])

    def C(self, i):
        return skew(self.v, self.v.at(self.cov, (i, i)), self.v.at(self.m, i))

    def B(self, i):
        return self.v.tsqrt(self.v.at(self.cov, (i, i)) - 2.0 * self.C(i) * self.C(i))

    def A(self, i):
        return self.v.at(self.b, i) - self.C(i)


@contract("C15", functions=[f"{TM}.third_moment_expansion"])
def expansion(v):
    """The linear and quadratic coefficients for any number of bins."""
    n = v.length("bins", lo=1)
    k = Moments(v, n)
    r = v.ok("expansion", v.module(TM).third_moment_expansion, k.b, k.cov, k.m)
    v.ensure("three coefficients", len(r) == 3)
    i = v.fresh_index(n)
    A, B, C = (v.at(x, i) for x in r)
    if v.symbolic:
        v.ensure_eq("quadratic coefficient", C, k.C(i))
        # |C| is at most sqrt(variance / 2), see moments()
        v.assume(v.at(k.cov, (i, i)) - 2.0 * k.C(i) * k.C(i) >= 0.0)
        v.ensure_eq("linear coefficient", B, k.B(i))
        v.ensure_eq("constant", A, k.A(i))
        return
    s, m = k.cov[i, i], k.m[i]
    v.ensure("quadratic coefficient", abs(C - k.C(i)) <= 1e-6 * math.sqrt(s))
    v.ensure("constant", abs(A + C - k.b[i]) <= 1e-9 * (abs(k.b[i]) + abs(C)))
    v.ensure("variance reproduced", abs(B * B + 2 * C * C - s) <= 1e-7 * s)
    v.ensure("third moment reproduced",
             abs(6 * B * B * C + 8 * C**3 - m) <= 1e-5 * s**1.5)


@contract("C15", functions=[f"{TM}.third_moment_expansion"],
          assumptions=["for t = arctan(sqrt(x)), x >= 0: the middle root c = cos(4 pi/3 + t/3) of "
                       "4c^3 - 3c = 1/sqrt(1 + x), -1/2 <= c <= 0 (trigonometry)"], concrete=False)
def moments(v):
    """Lemma: the expansion has the given variance and third moment."""
    if not v.symbolic:
        return
    n = v.length("bins", lo=1)
    k = Moments(v, n)
    A, B, C = v.ok("expansion", v.module(TM).third_moment_expansion, k.b, k.cov, k.m)
    i = v.fresh_index(n)
    s, m = v.at(k.cov, (i, i)), v.at(k.m, i)
    v.assume(v.Not(v.eq(m, 0.0)))
    v.assume(8.0 * s * s * s >= m * m)
    x = v.tdiv(8.0 * s * s * s, m * m) - 1.0
    a = PI43 + (1.0 / 3.0) * v.arctan(v.tsqrt(x))
    c = v.cos(a)
    r = v.tsqrt(2.0 * s)
    v.assume(v.And(r >= 0.0, v.eq(r * r, 2.0 * s)))  # square root
    v.assume(v.And(c <= 0.0, c >= -0.5))
    sg = v.tif(m > 0, 1.0, -1.0)
    # cos(t) = |m| / sqrt(8 s^3) and sqrt(8 s^3) = 2 s sqrt(2 s)
    v.assume(v.eq((4.0 * c * c * c - 3.0 * c) * 2.0 * s * r, sg * m))
    b2 = s - 2.0 * v.at(C, i) * v.at(C, i)
    b = v.at(B, i)
    v.ensure("the variance is large enough", b2 >= 0.0)
    v.assume(v.Implies(b2 >= 0.0, v.And(v.tsqrt(b2) >= 0.0, v.eq(v.tsqrt(b2) * v.tsqrt(b2), b2))))
    v.ensure_eq("square of the linear coefficient", b, v.tsqrt(b2))
    v.ensure_eq("quadratic coefficient", v.at(C, i), -sg * r * c)
    e = -sg * r * c
    v.ensure_eq("third moment", 6.0 * (s - 2.0 * e * e) * e + 8.0 * e * e * e, m)


@contract("C15", functions=[f"{TM}.third_moment_expansion"])
def unphysical(v):
    """A third moment beyond the documented range leaves that bin Gaussian, and only that bin."""
    s = [v.real(f"variance {i}", lo=0.01, hi=100.0) for i in range(2)]
    m = [v.real(f"moment {i}") for i in range(2)]
    v.assume(8.0 * s[0] * s[0] * s[0] < m[0] * m[0])
    cov = [[s[0], 0.0], [0.0, s[1]]]
    mk = objects if v.symbolic else np.array
    A, B, C = v.ok("expansion", v.module(TM).third_moment_expansion, mk([5.0, 7.0]), mk(cov), mk(m))
    v.ensure_eq("no quadratic term", C[0], 0.0)
    v.ensure_eq("no shift", A[0], 5.0)
    if v.symbolic:
        v.ensure_eq("Gaussian width", B[0], v.sqrt(s[0]))
    else:
        v.ensure_eq("Gaussian width", B[0] ** 2, s[0])
    if v.holds(8.0 * s[1] * s[1] * s[1] > 1.001 * m[1] * m[1]) and not v.symbolic:
        v.ensure("the other bin", abs(C[1] - skew(v, s[1], m[1])) <= 1e-6 * math.sqrt(s[1]))


@contract("C15", functions=[f"{TM}.third_moment_expansion"], bounded="up to three bins")
def correlation(v):
    """The modified correlation matrix solves its defining equation for every pair of bins."""
    n = v.choice("few bins", [1, 2, 3])
    k = Moments(v, n) if not v.symbolic else None
    m = v.module(TM)
    if v.symbolic:
        b = np.array([v.real(f"b{i}", lo=0.0, lo_open=True) for i in range(n)], dtype=object)
        cov = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(i, n):
                cov[i, j] = cov[j, i] = v.real(f"v{i}{j}", **({"lo": 0.0, "lo_open": True}
                                                              if i == j else {}))
        # any coefficients: the matrix is checked against whatever the code computed for them
        third = np.array([0.0] * n)
        which = v.choice("moments", ["zero", "large", "any"][: 3 if n == 1 else 2])
        if which == "any":
            third = np.array([v.real(f"m{i}") for i in range(n)], dtype=object)
            for i in range(n):
                v.assume(v.Not(v.eq(third[i], 0.0)))
                v.assume(8.0 * cov[i, i] * cov[i, i] * cov[i, i] >= third[i] * third[i])
        if which == "large":
            third = np.array([v.real(f"m{i}", lo=0.0, lo_open=True) for i in range(n)], dtype=object)
            for i in range(n):
                v.assume(8.0 * cov[i, i] * cov[i, i] * cov[i, i] < third[i] * third[i])
        b, cov, third = objects(b), objects(cov), objects(third)
    else:
        w = np.array([10.0**v.real(f"scale {i}", lo=-4.0, hi=4.0) for i in range(n)])
        zero = v.choice("Gaussian bins", ["none", "first", "all"])
        b, cov, third = k.b, k.cov * np.outer(w, w), k.m * w**3
        third = third * {"none": 1.0, "first": np.arange(n) > 0, "all": 0.0}[zero]
    r = v.ok("expansion", m.third_moment_expansion, b, cov, third, True)
    v.ensure("four results", len(r) == 4)
    A, B, C, rho = r
    for i in range(n):
        for j in range(n):
            bb, cc, V = B[i] * B[j], C[i] * C[j], cov[i, j]
            d = bb * bb + 8.0 * cc * V
            if not v.holds(d >= 0.0):
                continue  # no real solution
            q = v.sqrt(d)
            if not v.holds(q + bb > 0.0):
                continue
            if v.symbolic:
                v.ensure_eq("defining equation", bb * rho[i, j] + 2.0 * cc * rho[i, j] * rho[i, j], V)
                v.ensure("the root which is continuous in the moments",
                         v.Implies(v.Not(v.eq(V, 0.0)), v.eq(rho[i, j] * (q + bb), 2.0 * V)))
            else:
                big = math.sqrt(cov[i, i] * cov[j, j])
                v.ensure("correlation", abs(rho[i, j] * (q + bb) - 2.0 * V) <= 1e-4 * big,
                         (rho[i, j], 2.0 * V / (q + bb)))
    if not v.symbolic:
        for i in range(n):
            v.ensure("unit diagonal", abs(rho[i, i] - 1.0) <= 1e-4, rho[i, i])


def valid(v, cond):
    """Decided by the prover without splitting the path."""
    s = z3.Solver()
    s.set("timeout", 4000)
    s.add(*v.c.pc)
    s.add(z3.Not(bool_expr(cond)))
    return s.check() == z3.unsat


def third(v, u, d):
    """Third moment of the bifurcated Gaussian in closed form."""
    return 4.0 / math.sqrt(2.0 * math.pi) * (u - d) * (u * u + d * d)


@contract("C15", functions=[f"{TM}.compute_third_moments"],
          assumptions=["scipy.integrate.quad integrates (exactly) the function it is given",
                       "the third moment of a bifurcated Gaussian is 4/sqrt(2 pi) (u - d)(u^2 + d^2)"])
def third_moments(v):
    """The third moments of bifurcated Gaussians, for uncertainties of any size and sign, also
    one-sided and vanishing ones."""
    n = v.choice("bins", [1, 2])
    if v.symbolic:
        us = [v.real(f"upper {i}") for i in range(n)]
        ds = [v.real(f"lower {i}") for i in range(n)]
    else:
        pool = [1e-6, 1e-3, 1e4, 0.0]
        us = [v.real(f"upper {i}", lo=0.0, hi=1e3, pool=pool) for i in range(n)]
        ds = [v.real(f"lower {i}", lo=0.0, hi=1e3, pool=pool) for i in range(n)]
        s = v.choice("sign", [1.0, -1.0])
        ds = [s * x for x in ds]
    calls = []

    def quad(f, a, b, args=(), **kw):
        if kw or a != -math.inf or b != math.inf:
            raise Unsupported("integral over another range")
        i = len(calls)
        u, d = abs(us[i]), abs(ds[i])
        big = v.max(u, d)
        if v.holds(v.eq(big, 0.0)):
            big = 1.0
        x, z = v.real(f"point above {i}", lo=0.0, lo_open=True), v.real(f"point below {i}", hi=0.0, hi_open=True)
        above, below = f(x, *args), f(z, *args)

        def density(x, p, q, side):
            # the density vanishes on the side without a width
            if v.holds(v.eq(side, 0.0)):
                return 0.0
            return 2.0 / (p + q) * side * x * x * x * (v.app("phi", x / side) / side)

        for s in (1.0, big, u, d, u + d):
            if v.holds(v.eq(s, 0.0)):
                continue
            p, q = u / s, d / s
            if valid(v, v.And(v.eq(above, density(x, p, q, p)), v.eq(below, density(z, p, q, q)))):
                calls.append(s)
                return third(v, p, q), 0.0
        raise Unsupported("integrand not recognised")

    v.external("scipy.integrate.quad", quad)
    err = v.boolean("with integration error")
    r = v.ok("third moments", v.module(TM).compute_third_moments, us, ds,
             **({"return_integration_error": True} if err else {}))
    if err:
        v.ensure("moments and errors", len(r) == 2 and len(r[1]) == n)
        r = r[0]
    v.ensure("one per bin", len(r) == n)
    for i in range(n):
        w = third(v, abs(us[i]), abs(ds[i]))
        if v.symbolic:
            v.ensure_eq("third moment", r[i], w)
        else:
            size = max(abs(us[i]), abs(ds[i])) ** 3
            v.ensure("third moment", abs(r[i] - w) <= 1e-6 * size, (r[i], w))


class Skewed(Model):
    """The third-moment model against the contract of the expansion."""

    def __init__(self, v, nsp):
        n = v.length("bins", lo=1)
        Model.__init__(self, v, n, nsp)
        k = Moments(v, n) if not v.symbolic else None
        if v.symbolic:
            self.cov = v.matrix("covariance", n, symmetric=True, posdiag=True)
            self.m = v.array("third moments", n)
            self.coef = [v.array(x, n) for x in ("A", "B", "C")]
            self.rho = v.matrix("rho", n)
        else:
            self.cov, self.m = k.cov, k.m
        self.called = []
        v.callee(DP, "third_moment_expansion", self.expand)

    def expand(self, expectation_value, covariance_matrix, third_moment=None,
               return_correlation_matrix=False):
        v = self.v
        self.called.append(1)
        v.ensure_eq("moments of this background", expectation_value, self.b)
        v.ensure_eq("its covariance", covariance_matrix, self.cov)
        v.ensure_eq("its third moments", third_moment, self.m)
        c = tuple(self.coef)
        return c + (self.rho,) if return_correlation_matrix else c

    def finish(self):
        v = self.v
        if self.called:
            return
        if v.symbolic:
            raise Unsupported("the expansion is reached another way")
        r = v.module(TM).third_moment_expansion(self.b, self.cov, self.m, True)
        self.coef, self.rho = r[:3], r[3]

    def bkg(self, i):
        v = self.v
        A, B, C = (v.at(x, i) for x in self.coef)
        return A + B * self.th(i) + C * self.th(i) * self.th(i)

    def lam(self, i):
        return self.bkg(i) + self.mu() * self.sig(i)


def skewed(v):
    k = Skewed(v, v.choice("signal parameters", [0, 2]))
    model = v.ok("model", v.module(DP).ThirdMomentExpansion, k.signal, k.b, k.d, k.cov, k.m,
                 **k.kwargs())
    k.finish()
    return k, model


@contract("C15", functions=[f"{DP}.ThirdMomentExpansion.__init__", f"{DI}.MultivariateNormal.log_prob"],
          assumptions=AG + ["numpy.linalg.inv and slogdet (uninterpreted functions of the matrix)"])
def skewed_likelihood(v):
    """Poisson counts of the quadratic rates times the normal of the modified correlation matrix."""
    k, model = skewed(v)
    if not v.symbolic and not np.all(np.linalg.eigvalsh(k.rho) > 1e-6):
        return
    E, data, dat = pick_data(v, k)
    want = poisson_term(v, k.n, k.lam, dat) + mvn_term(v, k.n, k.th, k.rho)
    functions_agree(v, model, k, E, data, want)


@contract("C15", functions=[f"{DP}.ThirdMomentExpansion.__init__"], assumptions=AG)
def skewed_data(v):
    """Its expected data and positivity constraint."""
    k, model = skewed(v)
    expected(v, model, k, k.lam)
    positivity(v, model, k, k.bkg)


class Asymmetric(Model):
    def __init__(self, v, nsp):
        n = v.choice("few bins", [1, 2])
        Model.__init__(self, v, n, nsp)
        self.env = v.matrix("envelopes", n, 2)
        self.rho = v.matrix("correlation", n, symmetric=True, posdiag=True)

    def width(self, i):
        v = self.v
        u, d = v.abs(v.at(self.env, (i, 0))), v.abs(v.at(self.env, (i, 1)))
        return v.tsqrt(v.tclip(u * d + (u - d) * (self.th(i) - v.at(self.b, i)), 1e-10))

    def bkg(self, i):
        return self.v.at(self.b, i) + self.width(i) * self.th(i)

    def lam(self, i):
        return self.bkg(i) + self.mu() * self.sig(i)


def asymmetric(v):
    k = Asymmetric(v, v.choice("signal parameters", [0, 2]))
    model = v.ok("model", v.module(DP).EffectiveSigma, k.signal, k.b, k.d, k.rho, k.env,
                 **k.kwargs())
    return k, model


@contract("C15", functions=[f"{DP}.EffectiveSigma.__init__"], bounded="up to two bins",
          assumptions=AG + ["numpy.linalg.inv and slogdet (uninterpreted functions of the matrix)"])
def asymmetric_likelihood(v):
    """Poisson counts of the rates with effective widths times the normal of the correlations."""
    k, model = asymmetric(v)
    E, data, dat = pick_data(v, k)
    want = poisson_term(v, k.n, k.lam, dat) + mvn_term(v, k.n, k.th, k.rho)
    functions_agree(v, model, k, E, data, want)


@contract("C15", functions=[f"{DP}.EffectiveSigma.__init__"], assumptions=AG,
          bounded="up to two bins")
def asymmetric_data(v):
    """Its expected data and positivity constraint."""
    k, model = asymmetric(v)
    expected(v, model, k, k.lam)
    positivity(v, model, k, k.bkg)


@contract("C15", functions=[f"{DP}.EffectiveSigma.__init__"])
def refused(v):
    """Envelopes and correlations of another size than the background are refused."""
    n = 2
    case = v.choice("case", ["envelopes", "correlation"])
    env = [(1.0, 2.0)] * (3 if case == "envelopes" else n)
    size = 3 if case == "correlation" else n
    corr = [[1.0 if i == j else 0.0 for j in range(size)] for i in range(size)]
    o = v.outcome(v.module(DP).EffectiveSigma, [1.0, 1.0], [5.0, 5.0], [4.0, 4.0], corr, env)
    v.ensure("refused", o.raised("AssertionError"), o)


@contract("C15", functions=[f"{DP}.ThirdMomentExpansion.__init__", f"{DP}.EffectiveSigma.__init__",
                            f"{TM}.third_moment_expansion"], symbolic=False,
          bounded="sampled inputs with up to three bins")
def own_inputs(v):
    """A model never changes the arrays it was given, nor changes with them."""
    n = v.choice("bins", [1, 2, 3])
    s, b, d, u, w = numbers(v, n, "upper", "lower")
    m = v.module(DP)
    pars = np.array([v.real(f"parameter {i}", lo=-0.5, hi=0.5) for i in range(n + 1)])
    if v.boolean("third moments"):
        cov, third = np.diag(u * u) + 0.1 * np.outer(u, u), u**3 * 0.5
        model, inputs = v.ok("model", m.ThirdMomentExpansion, s, b, d, cov, third), [cov, third]
    else:
        corr = np.full((n, n), 0.2) + 0.8 * np.eye(n)
        env = np.stack([u, w], axis=1)
        model, inputs = v.ok("model", m.EffectiveSigma, s, b, d, corr, env), [corr, env]
    own_copies(v, model, [s, b, d, *inputs], pars)
