"""C10: likelihoods of the default models with uncorrelated or correlated background."""

import math

import numpy as np

from pyvc.harness import contract

DP = "spey.backends.default_pdf"
DI = "spey.backends.distributions"
L2PI = math.log(2.0 * math.pi)
AG = ["autograd differentiates correctly (value_and_grad, hessian, jacobian)"]


def poisson_term(v, n, lam, dat):
    """sum_i d_i log(l_i) - l_i - log Gamma(d_i + 1), rates clipped from below."""
    clip = lambda i: v.tclip(lam(i), 1e-20)
    return v.Sum(n, lambda i: dat(i) * v.tlog(clip(i)) - clip(i) - v.tgammaln(dat(i) + 1.0))


def gauss_term(v, n, th):
    return v.Sum(n, lambda i: -0.5 * th(i) * th(i)) - 0.5 * L2PI * n


def mvn_term(v, n, th, corr):
    inv = v.inv(corr)
    q = v.Sum(n, lambda i: th(i) * v.Sum(n, lambda j: v.at(inv, (i, j)) * th(j)))
    return -0.5 * q - 0.5 * (n * L2PI + v.logdet(corr))


class Model:
    """The inputs of a model and its documented likelihood."""

    def __init__(self, v, n, nsp=0):
        self.v, self.n, self.nsp = v, n, nsp
        self.s = v.array("signal", n)
        self.b = v.array("background", n, lo=0.0, lo_open=True)
        self.d = v.array("data", n, lo=0.0)
        self.p = v.array("pars", n + 1 + nsp)
        self.signal = self.s
        if nsp:
            fs = v.func("signal_function") if v.symbolic else (
                lambda x, y: 1.0 + 0.3 * x - 0.2 * x * y + 0.1 * y * y)  # differentiable
            self.asked = []

            def signal(x):
                self.asked.append(x)
                v.ensure("signal function of the signal parameters", len_of(v, x) == nsp)
                if not v.symbolic:
                    return self.s * self.amp(x)
                return v.vector(n, lambda i: v.at(self.s, i) * self.amp(x))

            self.amp = lambda x: fs(x[0], x[1])
            self.signal = signal

    def elsewhere(self):
        """Another point, which may share any of the parameters."""
        v, p = self.v, self.p
        q = v.array("elsewhere", p.shape[0])
        if not v.symbolic:
            for i in range(len(p)):
                q[i] = p[i] if v.boolean(f"shared {i}") else q[i]
        return q

    def mu(self):
        return self.v.at(self.p, 0)

    def sig(self, i):
        y = self.v.at(self.s, i)
        if self.nsp:
            y = y * self.amp([self.v.at(self.p, 1), self.v.at(self.p, 2)])
        return y

    def th(self, i):
        return self.v.at(self.p, i + 1 + self.nsp)

    def kwargs(self):
        return {"n_signal_parameters": self.nsp} if self.nsp else {}


def pick_data(v, k):
    """(expected, data argument, the counts that enter)."""
    E = v.module("spey.utils").ExpectationType
    kind = v.choice("data taken", ["observed", "aposteriori", "apriori", "given", "given with auxiliary"])
    at = lambda a: (lambda i: v.at(a, i))
    if kind == "given":
        g = v.array("given", k.n, lo=0.0)
        return v.choice("expected", [E.observed, E.apriori]), g, at(g)
    if kind == "given with auxiliary":
        g = v.array("given", k.n + k.n, lo=0.0)
        return E.observed, g, at(g)
    return getattr(E, kind), None, at(k.b if kind == "apriori" else k.d)


def functions_agree(v, model, k, E, data, want):
    """log-density, objective (with and without gradient) and Hessian are of the same function."""
    p, n = k.p, k.n
    f = v.ok("density", model.get_logpdf_func, E, data)
    q = k.elsewhere()
    v.ok("density elsewhere", f, q)
    r = v.ok("density at a point", f, p)
    v.near("logarithm of the density", r, want, scale=n)
    v.ok("density elsewhere", f, q)
    v.near("the first point again", v.ok("density at the first point", f, p), want, scale=n)
    o = v.ok("objective", model.get_objective_function, E, data, False)
    v.near("objective is minus the logarithm", v.ok("objective at a point", o, p), -want, scale=n)
    g = v.ok("objective with gradient", model.get_objective_function, E, data, True)
    val, grad = v.ok("its value", g, p)
    v.near("value of the objective with gradient", val, -want, scale=n)
    h = v.ok("hessian", model.get_hessian_logpdf_func, E, data)
    if v.symbolic:
        v.ensure("derivatives with respect to the parameters", g.argnum == 0)
        v.ensure("hessian, not another derivative", h.kind == "hessian")
        v.near("hessian of the log-density", h.f(p), want, scale=n)
        v.near("gradient of the objective", grad.f(p), -want, scale=n)
    else:
        import autograd

        v.ensure_eq("gradient of the objective", grad, -autograd.grad(f)(p), tol=1e-7)
        v.ensure_eq("hessian of the log-density", h(p), autograd.hessian(f)(p), tol=1e-7)


def expected(v, model, k, lam, aux=None):
    """Expected data: the (clipped) rates, then the central values of the constraint terms."""
    inc = v.choice("auxiliary", [None, True, False])
    r = v.ok("expected data", model.expected_data, k.p, **({} if inc is None else
                                                           {"include_auxiliary": inc}))
    aux = k.n if aux is None else aux
    v.ensure("number of entries", len_of(v, r) == (k.n if inc is False else k.n + aux))
    i = v.fresh_index(k.n)
    v.ensure_eq("expected yield", v.at(r, i), v.tclip(lam(i), 1e-20))
    if inc is not False:
        v.ensure_eq("expected auxiliary data", v.at(r, k.n + i), 0.0)


def len_of(v, r):
    from pyvc.loader import pv_len

    return pv_len(r)


def positivity(v, model, k, bkg):
    """The registered constraint keeps the background rates non-negative."""
    cs = list(model.constraints)
    v.ensure("one constraint", len(cs) == 1)
    c = cs[0]
    v.ensure("lower end is zero, no upper end", c.lb == 0.0 and c.ub == math.inf)
    r = v.ok("constraint", c.fun, k.p)
    i = v.fresh_index(k.n)
    v.ensure_eq("constrained background", v.at(r, i), bkg(i))
    if v.symbolic:
        v.ensure("jacobian of the constraint", c.jac.kind == "jacobian")
        v.ensure_eq("jacobian of the constraint function", v.at(c.jac.f(k.p), i), bkg(i))


def uncorrelated_model(v, nsp):
    n = v.length("bins", lo=1)
    k = Model(v, n, nsp)
    u = v.array("uncertainty", n, lo=0.0, lo_open=True)
    m = v.module(DP)
    model = v.ok("model", m.UncorrelatedBackground, k.signal, k.b, k.d, u, **k.kwargs())
    bkg = lambda i: v.at(k.b, i) + k.th(i) * v.at(u, i)
    lam = lambda i: bkg(i) + k.mu() * k.sig(i)
    return k, model, bkg, lam, u


@contract("C10", functions=[f"{DP}.UncorrelatedBackground.__init__",
                            f"{DP}.DefaultPDFBase.get_logpdf_func",
                            f"{DP}.DefaultPDFBase.get_objective_function",
                            f"{DP}.DefaultPDFBase.get_hessian_logpdf_func",
                            f"{DI}.Poisson.log_prob", f"{DI}.Normal.log_prob",
                            f"{DI}.MainModel", f"{DI}.ConstraintModel.log_prob"], assumptions=AG)
def uncorrelated(v):
    """Poisson counts times unit Gaussians for any number of bins and any parameters."""
    k, model, bkg, lam, u = uncorrelated_model(v, v.choice("signal parameters", [0, 2]))
    E, data, dat = pick_data(v, k)
    want = poisson_term(v, k.n, lam, dat) + gauss_term(v, k.n, k.th)
    functions_agree(v, model, k, E, data, want)


@contract("C10", functions=[f"{DP}.UncorrelatedBackground.__init__",
                            f"{DP}.DefaultPDFBase.expected_data",
                            f"{DP}.DefaultPDFBase._register_positivity_constraint"],
          assumptions=AG)
def uncorrelated_data(v):
    """Its expected data are the rates and the constraint's centre; its background stays positive."""
    k, model, bkg, lam, u = uncorrelated_model(v, v.choice("signal parameters", [0, 2]))
    expected(v, model, k, lam)
    positivity(v, model, k, bkg)


def correlated_model(v, nsp):
    n = v.length("bins", lo=1)
    k = Model(v, n, nsp)
    cov = v.matrix("covariance", n, symmetric=True, posdiag=True)
    m = v.module(DP)
    model = v.ok("model", m.CorrelatedBackground, k.signal, k.b, k.d, cov, **k.kwargs())
    sd = lambda i: v.tsqrt(v.at(cov, (i, i)))
    bkg = lambda i: v.at(k.b, i) + sd(i) * k.th(i)
    lam = lambda i: bkg(i) + k.mu() * k.sig(i)
    corr = v.table(n, n, lambda i, j: v.tdiv(1.0, sd(i)) * v.at(cov, (i, j)) * v.tdiv(1.0, sd(j)))
    return k, model, bkg, lam, corr


@contract("C10", functions=[f"{DP}.CorrelatedBackground.__init__",
                            f"{DP}.DefaultPDFBase.main_model",
                            f"{DP}.DefaultPDFBase.constraint_model",
                            f"{DI}.MultivariateNormal.log_prob",
                            "spey.helper_functions.covariance_to_correlation"],
          assumptions=AG + ["numpy.linalg.inv and slogdet (uninterpreted functions of the matrix)"])
def correlated(v):
    """Poisson counts times the multivariate normal of the correlation matrix."""
    k, model, bkg, lam, corr = correlated_model(v, v.choice("signal parameters", [0, 2]))
    E, data, dat = pick_data(v, k)
    want = poisson_term(v, k.n, lam, dat) + mvn_term(v, k.n, k.th, corr)
    functions_agree(v, model, k, E, data, want)


@contract("C10", functions=[f"{DP}.CorrelatedBackground.__init__",
                            f"{DP}.DefaultPDFBase.expected_data"], assumptions=AG)
def correlated_data(v):
    """Its expected data and positivity constraint."""
    k, model, bkg, lam, corr = correlated_model(v, v.choice("signal parameters", [0, 2]))
    expected(v, model, k, lam)
    positivity(v, model, k, bkg)


def own_copies(v, model, inputs, pars):
    """A model owns its numbers: it never writes to the caller's arrays nor follows their changes."""
    def state():
        cfg = model.config()
        return [model.get_logpdf_func()(pars), model.get_objective_function(do_grad=False)(pars),
                np.array(model.expected_data(pars)), cfg.minimum_poi, list(cfg.suggested_init),
                *[np.array(c.fun(pars)) for c in model.constraints]]

    kept = [np.array(a) for a in inputs]
    first = v.ok("first evaluation", state)
    for a, b in zip(inputs, kept):
        v.ensure("the caller's array is unchanged", bool(np.array_equal(a, b)))
    for a in inputs:
        a *= 0.5  # the caller uses his arrays for something else
    for a, b in zip(v.ok("second evaluation", state), first):
        v.ensure_eq("the model is as it was", a, b)


def numbers(v, n, *more):
    """signal, background, data and further positive arrays, all owned by the caller."""
    arr = lambda name, lo, hi: np.array([v.real(f"{name} {i}", lo=lo, hi=hi) for i in range(n)])
    return [arr("signal", 0.5, 4.0), arr("background", 5.0, 50.0), arr("data", 1.0, 60.0),
            *[arr(x, 0.2, 1.5) for x in more]]


@contract("C10", functions=[f"{DP}.DefaultPDFBase.__init__", f"{DP}.UncorrelatedBackground.__init__",
                            f"{DP}.CorrelatedBackground.__init__"], symbolic=False,
          bounded="sampled inputs with up to three bins")
def own_inputs(v):
    """A model never changes the arrays it was given, nor changes with them."""
    n = v.choice("bins", [1, 2, 3])
    s, b, d, u = numbers(v, n, "uncertainty")
    m = v.module(DP)
    pars = np.array([v.real(f"parameter {i}", lo=-0.5, hi=0.5) for i in range(n + 1)])
    if v.boolean("correlated"):
        cov = np.diag(u * u) + 0.1 * np.outer(u, u)
        own_copies(v, v.ok("model", m.CorrelatedBackground, s, b, d, cov), [s, b, d, cov], pars)
    else:
        own_copies(v, v.ok("model", m.UncorrelatedBackground, s, b, d, u), [s, b, d, u], pars)


@contract("C10", functions=["spey.math.value_and_grad", "spey.math.hessian"],
          assumptions=AG + ["the model's own objective and Hessian (contract `uncorrelated`)"])
def derivatives(v):
    """The public helpers give the NLL with its gradient and the Hessian of the NLL, on any data."""
    k, model, bkg, lam, u = uncorrelated_model(v, v.choice("signal parameters", [0, 2]))
    stat = v.ok("statistical model", v.module("spey.interface.statistical_model").StatisticalModel,
                model, "analysis")
    E, data, dat = pick_data(v, k)
    p, n, m = k.p, k.n, v.module("spey.math")
    want = poisson_term(v, n, lam, dat) + gauss_term(v, n, k.th)
    args = {} if E == v.module("spey.utils").ExpectationType.observed and v.boolean("default") \
        else {"expected": E}
    if data is not None:
        args["data"] = data if v.symbolic or v.boolean("array") else [float(x) for x in data]
    sent = p if v.symbolic or v.boolean("array of parameters") else [float(x) for x in p]
    g = v.ok("value and gradient", m.value_and_grad, stat, **args)
    h = v.ok("hessian", m.hessian, stat, **args)
    val, grad = v.ok("at a point", g, sent)
    hess = v.ok("hessian at a point", h, sent)
    v.near("negative log-likelihood", val, -want, scale=n)
    f = model.get_logpdf_func(E, data)
    if v.symbolic:
        v.near("gradient of the same function", grad.f(p), -want, scale=n)
        v.near("hessian of the same function", hess.scale * hess.f(hess.a), -want, scale=n)
        v.ensure("hessian", hess.kind == "hessian")
    else:
        import autograd

        v.ensure_eq("gradient of the same function", grad, -autograd.grad(f)(p), tol=1e-7)
        v.ensure_eq("hessian of the same function", hess, -autograd.hessian(f)(p), tol=1e-7)
