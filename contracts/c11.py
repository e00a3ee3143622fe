"""C11: simple likelihoods, their building blocks and sampling."""

import math

import numpy as np

from contracts.c10 import (AG, DI, DP, L2PI, Model, functions_agree, len_of, numbers, own_copies,
                           pick_data, poisson_term)
from pyvc.harness import contract

SP = "spey.backends.default_pdf.simple_pdf"
BASE = [f"{SP}.SimplePDFBase.{k}" for k in (
    "__init__", "get_objective_function", "get_logpdf_func", "get_hessian_logpdf_func",
    "expected_data", "main_model")]


def data_for(v, k):
    E = v.module("spey.utils").ExpectationType
    kind = v.choice("data taken", ["observed", "aposteriori", "apriori", "given"])
    at = lambda a: (lambda i: v.at(a, i))
    if kind == "given":
        g = v.array("given", k.n, lo=0.0)
        return v.choice("expected", [E.observed, E.apriori]), g, at(g)
    return getattr(E, kind), None, at(k.b if kind == "apriori" else k.d)


class Simple(Model):
    """Parameters: signal strength, signal parameters, then (optionally) one per bin."""

    def __init__(self, v, n, nsp=0, nuisances=False):
        Model.__init__(self, v, n, nsp)
        if not nuisances:
            self.p = v.array("parameters", 1 + nsp)

    def lam(self, i):
        return self.mu() * self.sig(i) + self.v.at(self.b, i)


def normal_term(v, n, x, loc, scale):
    def body(i):
        z = v.tdiv(x(i) - loc(i), scale(i))
        return -0.5 * (z * z) - v.tlog(scale(i))

    return v.Sum(n, body) - 0.5 * L2PI * n


def mvn_term(v, n, x, inv, logdet):
    q = v.Sum(n, lambda i: x(i) * v.Sum(n, lambda j: v.at(inv, (i, j)) * x(j)))
    return -0.5 * q - 0.5 * (n * L2PI + logdet)


def expected(v, model, k, lam):
    r = v.ok("expected data", model.expected_data, k.p)
    v.ensure("one entry per bin", len_of(v, r) == k.n)
    i = v.fresh_index(k.n)
    v.ensure_eq("expected yield", v.at(r, i), lam(i))


@contract("C11", functions=BASE + [f"{SP}.Poisson.__init__", f"{DI}.Poisson.log_prob",
                                   f"{DI}.Poisson.expected_data", f"{DI}.MainModel.__init__"],
          assumptions=AG)
def poisson(v):
    """Product of Poisson terms, with and without per-bin shifts of the rates."""
    n = v.length("bins", lo=1)
    shifts = v.boolean("uncertainties")
    k = Simple(v, n, 0, nuisances=shifts)
    m = v.module(SP)
    lam = k.lam
    if shifts:
        u = v.array("uncertainty", n, lo=0.0, lo_open=True)
        model = v.ok("model", m.Poisson, k.s, k.b, k.d, u)
        bkg = lambda i: v.at(k.b, i) + k.th(i) * v.at(u, i)
        lam = lambda i: k.mu() * k.sig(i) + bkg(i)
        cs = list(model.constraints)
        v.ensure("one constraint", len(cs) == 1)
        v.ensure("non-negative, no upper end", cs[0].lb == 0.0 and cs[0].ub == math.inf)
        r = v.ok("constraint", cs[0].fun, k.p)
        i = v.fresh_index(n)
        v.ensure_eq("the background stays positive", v.at(r, i), bkg(i))
        if v.symbolic:
            v.ensure("jacobian", cs[0].jac.kind == "jacobian")
            v.ensure_eq("of the same function", v.at(cs[0].jac.f(k.p), i), bkg(i))
    else:
        model = v.ok("model", m.Poisson, k.s, k.b, k.d)
        v.ensure("no constraint", len(list(model.constraints)) == 0)
    E, data, dat = data_for(v, k)
    functions_agree(v, model, k, E, data, poisson_term(v, n, lam, dat))
    expected(v, model, k, lambda i: v.tclip(lam(i), 1e-20))


@contract("C11", functions=BASE + [f"{SP}.Gaussian.__init__", f"{DI}.Normal.__init__",
                                   f"{DI}.Normal.log_prob", f"{DI}.Normal.expected_data"],
          assumptions=AG)
def gaussian(v):
    """Product of Gaussians; the widths may depend on the parameters."""
    n = v.length("bins", lo=1)
    k = Simple(v, n, v.choice("signal parameters", [0, 2]))
    u = v.array("uncertainty", n, lo=0.0, lo_open=True)
    width = lambda i: v.at(u, i)
    arg = u
    if v.boolean("widths depend on the parameters"):
        fac = lambda p: 1.0 + p[0] * p[0] + p[-1] * p[-1]
        arg = lambda p: u * fac(p)
        last = v.at(k.p, k.nsp)
        width = lambda i: v.at(u, i) * (1.0 + k.mu() * k.mu() + last * last)
    model = v.ok("model", v.module(SP).Gaussian, k.signal, k.b, k.d, arg, **k.kwargs())
    E, data, dat = data_for(v, k)
    functions_agree(v, model, k, E, data, normal_term(v, n, dat, k.lam, width))
    expected(v, model, k, k.lam)
    v.ensure("no constraint", len(list(model.constraints)) == 0)


@contract("C11", functions=BASE + [f"{SP}.MultivariateNormal.__init__",
                                   f"{DI}.MultivariateNormal.__init__",
                                   f"{DI}.MultivariateNormal.log_prob",
                                   f"{DI}.MultivariateNormal.expected_data"],
          assumptions=AG + ["numpy.linalg.inv and slogdet (uninterpreted functions of the matrix)"])
def multivariate(v):
    """Multivariate normal; the covariance may depend on all parameters."""
    n = v.length("bins", lo=1)
    k = Simple(v, n, v.choice("signal parameters", [0, 2]))
    cov = v.matrix("covariance", n, symmetric=True, posdiag=True)
    arg, used = cov, cov
    if v.boolean("covariance depends on the parameters"):
        amp = lambda p: 1.0 + p[0] * p[0] + p[-1] * p[-1]
        arg = lambda p: cov * amp(p)
        last = v.at(k.p, k.nsp)
        f = 1.0 + k.mu() * k.mu() + last * last
        used = v.table(n, n, lambda i, j: v.at(cov, (i, j)) * f)
    model = v.ok("model", v.module(SP).MultivariateNormal, k.signal, k.b, k.d, arg, **k.kwargs())
    E, data, dat = data_for(v, k)
    want = mvn_term(v, n, lambda i: dat(i) - k.lam(i), v.inv(used), v.logdet(used))
    functions_agree(v, model, k, E, data, want)
    expected(v, model, k, k.lam)
    if k.nsp == 0 and v.boolean("evaluated elsewhere in between"):
        q = v.array("other parameters", 1)
        f = v.ok("density", model.get_logpdf_func, E, data)
        v.ok("other point", f, q)
        v.near("the first point again", f(k.p), want, scale=n)


@contract("C11", functions=[f"{SP}.MultivariateNormal.__init__", f"{DI}.MainModel.__init__",
                            f"{DI}.ConstraintModel.__init__"])
def refused(v):
    """Inconsistent inputs are refused."""
    m, d = v.module(SP), v.module(DI)
    case = v.choice("case", ["covariance", "main", "no covariance", "constraint"])
    if case == "covariance":
        o = v.outcome(m.MultivariateNormal, [1.0, 1.0], [2.0, 2.0], [2.0, 2.0],
                      [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]])
        v.ensure("wrong size of the covariance", o.raised("InvalidInput"), o)
    elif case == "main":
        o = v.outcome(d.MainModel, lambda p: p, np.ones(2), "cauchy")
        v.ensure("unknown density", o.raised("DistributionError"), o)
    elif case == "no covariance":
        o = v.outcome(d.MainModel, lambda p: p, None, v.choice("kind", [
            "normal", "multivariate_normal"]))
        v.ensure("missing covariance", o.raised("DistributionError"), o)
    else:
        o = v.outcome(d.ConstraintModel, [{"distribution_type": "cauchy", "args": [0.0, 1.0]}])
        v.ensure("unknown constraint", not o.ok, o)


def two_terms(v):
    """A constraint with an independent and a correlated part, each on its own parameters."""
    n, m = v.length("n"), v.length("m", lo=1)
    p = v.array("pars", 1 + n + m)
    loc, sc = v.array("centre", n), v.array("scale", n, lo=0.0, lo_open=True)
    mean, cov = v.array("mean", m), v.matrix("covariance", m, symmetric=True, posdiag=True)
    fn = v.boolean("callable")
    upper = v.boolean("upper case")
    name = lambda s: s.upper() if upper else s
    # widths that depend on their own parameters
    wide, full = (lambda x: sc * (1.0 + x * x)), (lambda x: cov * (1.0 + x[0] * x[0]))
    a = {"distribution_type": name("normal"), "args": [loc, wide if fn else sc],
         "kwargs": {"domain": slice(1, 1 + n)}}
    b = {"distribution_type": name("multivariatenormal"), "args": [mean, full if fn else cov],
         "kwargs": {"domain": slice(1 + n, 1 + n + m)}}
    sq = lambda i: 1.0 + v.at(p, i) * v.at(p, i) if fn else 1.0
    width = lambda i: v.at(sc, i) * sq(1 + i)
    return n, m, p, loc, width, mean, v.table(m, m, lambda i, j: v.at(cov, (i, j)) * sq(1 + n)), a, b


@contract("C11", functions=[f"{DI}.ConstraintModel.log_prob", f"{DI}.ConstraintModel.expected_data",
                            f"{DI}.Normal.log_prob", f"{DI}.MultivariateNormal.log_prob"],
          assumptions=["numpy.linalg.inv and slogdet (uninterpreted functions of the matrix)"])
def constraints(v):
    """The constraint density is the sum over its terms, each on its own parameters."""
    n, m, p, loc, sc, mean, cov, a, b = two_terms(v)
    C = v.module(DI).ConstraintModel
    which = v.choice("terms", ["first", "second", "both"])
    c = v.ok("model", C, {"first": [a], "second": [b], "both": [a, b]}[which])
    v.ensure("number of terms", len(c) == (2 if which == "both" else 1))
    want, size = 0.0, 0
    if which != "second":
        want = want + normal_term(v, n, lambda i: v.at(p, 1 + i), lambda i: v.at(loc, i), sc)
        size = size + n
    if which != "first":
        want = want + mvn_term(v, m, lambda i: v.at(p, 1 + n + i) - v.at(mean, i), v.inv(cov),
                               v.logdet(cov))
        size = size + m
    v.near("log-density", v.ok("log_prob", c.log_prob, p), want, scale=n + m)
    e = v.ok("expected", c.expected_data)
    v.ensure("one centre per parameter", len_of(v, e) == size)
    if which != "second":
        i = v.fresh_index(n)
        v.ensure_eq("centre of the first", v.at(e, i), v.at(loc, i))
    if which != "first":
        i = v.fresh_index(m)
        off = n if which == "both" else 0
        v.ensure_eq("centre of the second", v.at(e, off + i), v.at(mean, i))


@contract("C11", functions=[f"{DI}.Poisson.log_prob", f"{DI}.Normal.log_prob",
                            f"{DI}.MultivariateNormal.log_prob"], symbolic=False,
          bounded="sampled counts, widths and covariances over many orders of magnitude")
def magnitudes(v):
    """The densities are those documented also for very small and very large numbers."""
    d = v.module(DI)
    n = v.choice("bins", [1, 3, 20])
    x = np.array([v.real(f"x{i}", lo=-1.0, hi=1.0) for i in range(n)])
    scale = 10.0 ** v.choice("order of magnitude", [-12, -6, 0, 6, 12])
    kind = v.choice("density", ["poisson", "normal", "multivariate_normal"])
    if kind == "poisson":
        lam = 10.0 ** v.real("rate", lo=-6, hi=9) * (1.2 + x)
        k = np.floor(lam * (1.0 + 1e-3 * x)) if v.boolean("near") else np.floor(5.0 * np.abs(x))
        want = sum(a * math.log(b) - b - math.lgamma(a + 1.0) for a, b in zip(k, lam))
        got = d.MainModel(lambda p: lam).log_prob(np.zeros(1), k)
        error = 1e-12 * float(np.sum(k * np.abs(np.log(lam)) + k + lam))
        v.ensure("log-density", abs(float(got) - want) <= 1e-9 + error, (got, want))
    elif kind == "normal":
        s = scale * (1.1 + x)
        want = sum(-0.5 * a * a - math.log(b) - 0.5 * L2PI for a, b in zip(x, s))
        got = d.MainModel(lambda p: 3.0 * scale * x, s, "normal").log_prob(
            np.zeros(1), 3.0 * scale * x + s * x)
        v.ensure_eq("log-density", got, want, tol=1e-9)
    else:
        low = np.tril(0.3 * np.outer(x, np.cos(x)), -1) + np.diag(1.1 + 0.5 * x)
        want = (-0.5 * float(x @ x) - sum(math.log(a) for a in np.diag(low))
                - n * (0.5 * L2PI + math.log(scale)))
        m = d.MainModel(lambda p: np.zeros(n), scale * scale * (low @ low.T), "multivariate_normal")
        got = v.ok("density", m.log_prob, np.zeros(1), scale * (low @ x))
        v.ensure_eq("log-density", got, want, tol=1e-7)


@contract("C11", functions=BASE + [f"{SP}.Poisson.__init__", f"{SP}.Gaussian.__init__",
                                   f"{SP}.MultivariateNormal.__init__"], symbolic=False,
          bounded="sampled inputs with up to three bins")
def own_inputs(v):
    """A model never changes the arrays it was given, nor changes with them."""
    n = v.choice("bins", [1, 2, 3])
    s, b, d, u = numbers(v, n, "uncertainty")
    m = v.module(SP)
    kind = v.choice("model", ["poisson", "shifted", "gaussian", "multivariate"])
    pars = np.array([v.real(f"parameter {i}", lo=-0.5, hi=0.5)
                     for i in range(n + 1 if kind == "shifted" else 1)])
    cov = np.diag(u * u) + 0.1 * np.outer(u, u)
    f, a = {"poisson": (m.Poisson, []), "shifted": (m.Poisson, [u]), "gaussian": (m.Gaussian, [u]),
            "multivariate": (m.MultivariateNormal, [cov])}[kind]
    own_copies(v, v.ok("model", f, s, b, d, *a), [s, b, d, *a], pars)


# -- sampling ------------------------------------------------------------------------
class Draws:
    """scipy.stats by contract: an array of the requested shape, the request is recorded."""

    def __init__(self, v):
        self.v, self.log = v, []
        sub = v.callee if v.symbolic else (lambda m, n, x: v.patched(f"{m}.{n}", x))
        for n in ("poisson", "norm", "multivariate_normal"):
            sub(DI, n, self.dist(n))

    def dist(self, name):
        keys = {"poisson": ["mu", "loc"], "norm": ["loc", "scale"],
                "multivariate_normal": ["mean", "cov"]}[name]

        def draw(a, k, size):
            k = dict(zip(keys, a), **k)
            size = list(size) if isinstance(size, (list, tuple)) else [size]
            if name == "multivariate_normal":
                size = size + [len_of(self.v, k["mean"])]
            r = self.v.matrix(f"draw{len(self.log)}", *size)
            if name == "poisson" and self.v.symbolic:
                r = r.astype("int64")
            elif name == "poisson":
                r = np.abs(r * 1e3).astype(np.int64) ** 3  # counts, also very large ones
            self.log.append((name, k, size, r))
            if name != "multivariate_normal":
                return r
            # scipy drops the axes of length one: of a single draw, of a single bin
            one, single = bool(size[0] == 1), bool(size[1] == 1)
            return (r[0, 0] if one and single else r[0] if one else r[:, 0] if single else r)

        class Dist:
            def __init__(self, *a, **k):
                self.a, self.k = a, k

            def rvs(self, *a, size=None, random_state=None, **k):
                if isinstance(self, Dist):
                    a, k = self.a, self.k
                return draw(a, k, size)

        return Dist


def check_draw(v, entry, name, size, **want):
    got, k, s, _ = entry
    v.ensure("distribution", got == name and set(k) == set(want))
    v.ensure("shape of the sample", v.And(len(s) == 2, v.eq(s[0], size[0]), v.eq(s[1], size[1])))
    for key, f in want.items():
        if key not in k:
            continue
        if key == "cov":
            i, j = v.fresh_index(size[1]), v.fresh_index(size[1])
            v.ensure_eq("covariance", v.at(k[key], (i, j)), f(i, j))
        else:
            i = v.fresh_index(size[1])
            v.ensure_eq("parameter of the distribution", v.at(k[key], i), f(i))


def by_bin(v, r, N, n):
    shape = getattr(r, "shape", ())
    v.ensure("a row for each draw, a column for each value",
             len(shape) == 2 and v.And(v.eq(shape[0], N), v.eq(shape[1], n)))


@contract("C11", functions=[f"{SP}.SimplePDFBase.get_sampler", f"{DI}.MainModel.sample",
                            f"{DI}.Poisson.sample", f"{DI}.Normal.sample",
                            f"{DI}.MultivariateNormal.sample"],
          assumptions=["scipy.stats distributions sample what they are asked for"])
def sampling(v):
    """Pseudo-data of the simple models follow the density at the given parameters."""
    n, N = v.length("bins"), v.length("sample size")
    k = Simple(v, n, 0)
    w = Draws(v)
    m = v.module(SP)
    kind = v.choice("model", ["poisson", "norm", "multivariate_normal"])
    if kind == "poisson":
        model = m.Poisson(k.s, k.b, k.d)
        want = dict(mu=lambda i: v.tclip(k.lam(i), 1e-20))
    elif kind == "norm":
        u = v.array("uncertainty", n, lo=0.0, lo_open=True)
        model = m.Gaussian(k.s, k.b, k.d, u)
        want = dict(loc=k.lam, scale=lambda i: v.at(u, i))
    else:
        cov = v.matrix("covariance", n, symmetric=True, posdiag=True)
        model = m.MultivariateNormal(k.s, k.b, k.d, cov)
        want = dict(mean=k.lam, cov=lambda i, j: v.at(cov, (i, j)))
    s = v.ok("sampler", model.get_sampler, k.p)
    r = v.ok("draw", s, N)
    v.ensure("one draw", len(w.log) == 1)
    check_draw(v, w.log[0], kind, (N, n), **want)
    by_bin(v, r, N, n)
    v.ensure_eq("the sample is returned", r, w.log[0][3])


@contract("C11", functions=[f"{DP}.DefaultPDFBase.get_sampler", f"{DI}.ConstraintModel.sample"],
          assumptions=["scipy.stats distributions sample what they are asked for"])
def sampling_with_constraints(v):
    """Pseudo-data of the background models: counts, then the constraint's own pseudo-data."""
    n, N = v.length("bins"), v.length("sample size")
    k = Model(v, n, 0)
    w = Draws(v)
    m = v.module(DP)
    corr = v.boolean("correlated")
    if corr:
        cov = v.matrix("covariance", n, symmetric=True, posdiag=True)
        model = v.ok("model", m.CorrelatedBackground, k.s, k.b, k.d, cov)
        sd = lambda i: v.tsqrt(v.at(cov, (i, i)))
    else:
        u = v.array("uncertainty", n, lo=0.0, lo_open=True)
        model = v.ok("model", m.UncorrelatedBackground, k.s, k.b, k.d, u)
        sd = lambda i: v.at(u, i)
    lam = lambda i: v.at(k.b, i) + sd(i) * k.th(i) + k.mu() * k.sig(i)
    s = v.ok("sampler", model.get_sampler, k.p)
    aux = v.choice("auxiliary", [None, True, False])
    r = v.ok("draw", s, N, **({} if aux is None else {"include_auxiliary": aux}))
    v.ensure("number of draws", len(w.log) == (1 if aux is False else 2))
    check_draw(v, w.log[0], "poisson", (N, n), mu=lambda i: v.tclip(lam(i), 1e-20))
    by_bin(v, r, N, n if aux is False else n + n)
    if aux is False:
        v.ensure_eq("the sample is returned", r, w.log[0][3])
        return
    if corr:
        check_draw(v, w.log[1], "multivariate_normal", (N, n), mean=lambda i: 0.0,
                   cov=lambda i, j: v.tdiv(1.0, sd(i)) * v.at(cov, (i, j)) * v.tdiv(1.0, sd(j)))
    else:
        check_draw(v, w.log[1], "norm", (N, n), loc=lambda i: 0.0, scale=lambda i: 1.0)
    i, j = v.fresh_index(N), v.fresh_index(n)
    v.ensure_eq("counts first", v.at(r, (i, j)), v.at(w.log[0][3], (i, j)))
    v.ensure_eq("then the constraint", v.at(r, (i, n + j)), v.at(w.log[1][3], (i, j)))


@contract("C11", functions=[f"{DI}.ConstraintModel.sample", f"{DI}.Normal.sample",
                            f"{DI}.MultivariateNormal.sample"],
          assumptions=["scipy.stats distributions sample what they are asked for"])
def sampling_of_constraints(v):
    """Auxiliary data of every term, of the widths at its own parameters, side by side."""
    n, m, p, loc, sc, mean, cov, a, b = two_terms(v)
    N = v.length("sample size")
    w = Draws(v)
    which = v.choice("terms", ["first", "second", "both"])
    c = v.ok("model", v.module(DI).ConstraintModel,
             {"first": [a], "second": [b], "both": [a, b]}[which])
    r = v.ok("draw", c.sample, p, N)
    v.ensure("one draw per term", len(w.log) == (2 if which == "both" else 1))
    i, off = v.fresh_index(N), 0
    if which != "second":
        check_draw(v, w.log[0], "norm", (N, n), loc=lambda i: v.at(loc, i), scale=sc)
        j = v.fresh_index(n)
        v.ensure_eq("the first term", v.at(r, (i, j)), v.at(w.log[0][3], (i, j)))
        off = n
    if which != "first":
        check_draw(v, w.log[-1], "multivariate_normal", (N, m), mean=lambda i: v.at(mean, i),
                   cov=lambda i, j: v.at(cov, (i, j)))
        j = v.fresh_index(m)
        v.ensure_eq("the second term", v.at(r, (i, off + j)), v.at(w.log[-1][3], (i, j)))
    by_bin(v, r, N, {"first": n, "second": m, "both": n + m}[which])


@contract("C11", functions=[f"{DI}.Poisson.log_prob"], bounded="two bins, five data sets",
          assumptions=["autograd's poisson logpmf is the documented density"])
def integer_data(v):
    """Integer and floating point counts give the same likelihood."""
    lam = v.array("rates", 2, lo=0.0, lo_open=True)
    d = v.choice("counts", [[0, 0], [3, 4], [1, 0], [100, 7], [0, 2]])
    P = v.module(DI).Poisson
    kind = v.choice("type", ["int64", "int32", "list", "float64"])
    arg = d if kind == "list" else np.array(d, dtype=kind)
    r = v.ok("log_prob", v.ok("model", P, lam).log_prob, arg)
    for i in range(2):
        x = v.at(lam, i)
        x = v.tclip(x, 1e-20)
        v.near("log-probability of a count", v.at(r, i),
               d[i] * v.tlog(x) - x - math.lgamma(d[i] + 1.0), scale=1.0)
