"""C14: signal uncertainties multiply the signal by the documented log-normal factors."""

import math

import numpy as np
import z3

from contracts.c10 import (AG, DI, DP, L2PI, Model, expected, functions_agree, gauss_term, len_of,
                           mvn_term, numbers, own_copies, pick_data, poisson_term, positivity)
from contracts.c11 import Draws, check_draw
from pyvc.core import Unsupported
from pyvc.harness import contract
from pyvc.symlist import SymList

US = f"{DP}.uncertainty_synthesizer"
SYN = [f"{US}.signal_uncertainty_synthesizer", f"{US}._validate_delta"]
ONE_PER_BIN = {"shape", "asymmetric shape"}
KINDS = [[], ["norm"], ["asymmetric norm"], ["norm", "asymmetric norm"], ["shape"],
         ["asymmetric shape"], ["asymmetric norm", "shape"], ["shape", "norm", "norm"],
         ["norm", "norm", "asymmetric norm", "norm"], ["norm", "shape", "shape"],
         ["norm", "norm", "norm", "asymmetric shape"]]
ANY = ["norm", "asymmetric norm", "shape", "asymmetric shape"]


class Modifiers:
    """A list of modifiers with arbitrary uncertainties, and their documented effect."""

    def __init__(self, v, n, kinds, named=True):
        self.v, self.n, self.kinds = v, n, kinds
        self.config, self.sig, self.names = [], [], []
        for k, kind in enumerate(kinds):
            asym = kind.startswith("asym")
            u = v.matrix(f"uncertainty {k}", n, 2) if asym else v.array(f"uncertainty {k}", n)
            self.sig.append((lambda i, u=u: (v.at(u, (i, 0)), v.at(u, (i, 1)))) if asym else
                            (lambda i, u=u: (v.at(u, i), v.at(u, i))))
            shape = kind in ONE_PER_BIN
            c = {"type": "shape" if shape else "normalization", "uncertainties": u}
            name = f"mod{k}"
            if named and k == 0:
                name = c["name"] = "pdf"
            self.config.append(c)
            self.names += [f"theta_sig_{name}_{i}" for i in range(n)] if shape else \
                [f"theta_sig_{name}"]

    def count(self):
        """Number of nuisance parameters."""
        r = 0
        for kind in self.kinds:
            r = r + (self.n if kind in ONE_PER_BIN else 1)
        return r

    def log_factor(self, i, s, p, start):
        """Sum over the modifiers of theta * log(1 + relative variation), never below zero."""
        v, at, out = self.v, start, 0.0
        for kind, sig in zip(self.kinds, self.sig):
            shape = kind in ONE_PER_BIN
            th = v.at(p, at + i if shape else at)
            at = at + (self.n if shape else 1)
            y = v.at(s, i)
            up, dn = sig(i)

            def ln(u):
                if not v.symbolic and y == 0.0:
                    return 0.0
                return v.tlog(v.tclip(1.0 + v.tif(y != 0.0, v.tdiv(u, y), 0.0), 1.0))

            lu, ld = ln(up), ln(dn)
            out = out + th * v.tif(th >= 0, lu, ld)
        return out

    def factor(self, i, s, p, start):
        return self.v.texp(self.log_factor(i, s, p, start)) if self.kinds else 1.0

    def constraint(self, p, start):
        """Unit Gaussian for each nuisance parameter."""
        v, at, out = self.v, start, 0.0
        for kind in self.kinds:
            m = self.n if kind in ONE_PER_BIN else 1
            out = out + gauss_term(v, m, lambda i, at=at: v.at(p, at + i))
            at = at + m
        return out


def bins(v, kinds):
    """Any number of bins; a stated number where a modifier has one parameter per bin."""
    if any(k in ONE_PER_BIN for k in kinds):
        return v.choice("few bins", [1, 2, 3][: 3 if len(kinds) < 3 else 1])
    return v.length("bins", lo=1)


CALLEES = [f"{DI}.ConstraintModel.log_prob", f"{DI}.Normal.log_prob"]


@contract("C14", functions=SYN + CALLEES)
def normalization(v):
    """Factor, constraint terms, number and names of the parameters; any number of bins."""
    synthesizer(v, [k for k in KINDS if not ONE_PER_BIN & set(k)])


@contract("C14", functions=SYN + CALLEES, bounded="up to three bins")
def per_bin(v):
    """The same with one parameter per bin (1, 2 or 3 bins) and for mixed lists."""
    synthesizer(v, [k for k in KINDS if ONE_PER_BIN & set(k)])


def synthesizer(v, which):
    """Factor, constraint terms, number and names of the parameters of each kind of modifier."""
    kinds = v.choice("modifiers", which)
    n = bins(v, kinds)
    s = v.array("signal", n)
    layouts = ["default", "signal parameters", "explicit"]
    layout = v.choice("layout", layouts if len(kinds) < 3 else layouts[:1])
    check_synthesizer(v, kinds, n, s, layout)


@contract("C14", functions=SYN + CALLEES, symbolic=False)
def lists(v):
    """The same for long lists of modifiers, sampled."""
    kinds = [v.choice(f"modifier {i}", ANY) for i in range(v.choice("how many", range(1, 8)))]
    n = v.length("bins", lo=1)
    s = v.array("signal", n)
    check_synthesizer(v, kinds, n, s, v.choice("layout", ["default", "signal parameters", "explicit"]))


def check_synthesizer(v, kinds, n, s, layout):
    m = Modifiers(v, n, kinds)
    kw, start = {}, n + 1
    if layout == "signal parameters":
        k = v.int("number of signal parameters", lo=1, hi=3)
        kw, start = {"n_signal_parameters": k}, n + 1 + k
    elif layout == "explicit":
        k = v.int("first index", lo=0, hi=9)
        kw, start = {"domain_start": k, "n_signal_parameters": 2}, k
    p = v.array("parameters", start + m.count() + 1)
    r = v.ok("synthesizer", v.module(US).signal_uncertainty_synthesizer, s, m.config, **kw)
    v.ensure("number of parameters", r["n_parameters"] == m.count())
    v.ensure("names of the parameters", list(r["parameter_names"]) == m.names)
    f = v.ok("factor", r["lambda"], p)
    i = v.fresh_index(n)
    got = f if isinstance(f, float) else v.at(f, i)
    v.ensure_eq("factor of a bin", got, m.factor(i, s, p, start))
    if not kinds:
        v.ensure("no constraint", len(r["constraint"]) == 0)
        return
    cm = v.module(DI).ConstraintModel(r["constraint"])
    v.near("constraint terms", v.ok("constraint model", cm.log_prob, p), m.constraint(p, start))
    if len(kinds) > 1 or layout != "default":
        return
    q = v.array("other parameters", start + m.count())
    v.ok("factor elsewhere", r["lambda"], q)
    f = v.ok("the first point again", r["lambda"], p)
    v.ensure_eq("factor of the first point", v.at(f, i), m.factor(i, s, p, start))


@contract("C14", functions=SYN)
def refused(v):
    """Unknown types, a wrong number of bins and unsupported shapes are refused."""
    f = v.module(US).signal_uncertainty_synthesizer
    n = v.length("bins", lo=1)
    s, u = v.array("signal", n), v.array("uncertainty", n)
    good = {"type": v.choice("of type", ["normalization"]), "uncertainties": u}
    case = v.choice("case", ["unknown type", "no type", "too many", "too few", "dimension"])
    bad = dict(good)
    if case == "unknown type":
        bad["type"] = v.choice("type", ["Normalization", "norm", "shapesys", None, ""])
    elif case == "no type":
        del bad["type"]
    elif case == "dimension":
        s, good, bad = [1.0, 2.0], {"type": "normalization", "uncertainties": [0.1, 0.2]}, {
            "type": v.choice("type", ["normalization", "shape"]),
            "uncertainties": [[[0.1]], [[0.2]]]}
    else:
        asym = v.boolean("asymmetric")
        k = n + 1 if case == "too many" else n - 1
        v.assume(k >= 1)
        bad["type"] = v.choice("type", ["normalization", "shape"])
        bad["uncertainties"] = v.matrix("wrong", k, 2) if asym else v.array("wrong", k)
    o = v.outcome(f, s, [good, bad] if v.boolean("second") else [bad])
    v.ensure("refused", o.raised("InvalidUncertaintyDefinition"), o)


def same_term(a, b):
    k = z3.Int("same_term")
    return a.ndim == b.ndim == 1 and z3.eq(z3.simplify(a.elt(k)), z3.simplify(b.elt(k)))


class Signal(Model):
    """A model whose signal carries uncertainties.

    The caller is checked against the synthesizer's contract: a factor per bin and point, a number
    of parameters, and a unit Gaussian for each of them.
    """

    def __init__(self, v):
        kinds = v.choice("modifiers", KINDS[1:4] + [["asymmetric shape", "norm"]] if not v.symbolic
                         else [["norm"]])
        n = bins(v, kinds)
        Model.__init__(self, v, n)
        self.m = Modifiers(v, n, kinds)
        self.extra = v.length("extra parameters", lo=0) if v.symbolic else self.m.count()
        self.p = v.array("parameters", n + 1 + self.extra)
        self.F = v.array("factors", n) if v.symbolic else None
        self.G = v.array("factors elsewhere", n) if v.symbolic else None
        self.q, self.called = None, []
        v.callee(DP, "signal_uncertainty_synthesizer", self.synthesizer)

    def synthesizer(self, signal_yields, modifiers, n_signal_parameters=0, domain_start=None):
        v, n = self.v, self.n
        self.called.append(modifiers)
        v.ensure_eq("uncertainties of the given signal", signal_yields, self.s)
        v.ensure("the given modifiers", modifiers is self.m.config)
        v.ensure("position of their parameters", domain_start is None and n_signal_parameters == 0)

        def factor(p):
            if self.q is not None and same_term(p, self.q):
                return v.vector(n, lambda i: v.at(self.G, i))
            v.ensure_eq("factor at the given point", p, self.p)
            return v.vector(n, lambda i: v.at(self.F, i))

        m, np = self.extra, v.loader.ext["numpy"]
        one = {"distribution_type": "normal", "args": [np.zeros(m), np.ones(m)],
               "kwargs": {"domain": slice(n + 1, n + 1 + m)}}
        return {"lambda": factor, "constraint": [one], "n_parameters": m,
                "parameter_names": SymList([(m, lambda i: "theta_sig")])}

    def elsewhere(self):
        self.q = Model.elsewhere(self)
        return self.q

    def sig(self, i):
        if self.called:
            return Model.sig(self, i) * self.v.at(self.F, i)
        return Model.sig(self, i) * self.m.factor(i, self.s, self.p, self.n + 1)

    def build(self, name, *args):
        v = self.v
        model = v.ok("model", getattr(v.module(DP), name), self.s, self.b, self.d, *args,
                     modifiers=self.m.config)
        if v.symbolic and not self.called:
            raise Unsupported("the synthesizer is reached another way")
        return model

    def constraint(self):
        if self.called:
            return gauss_term(self.v, self.extra, lambda i: self.v.at(self.p, self.n + 1 + i))
        return self.m.constraint(self.p, self.n + 1)


@contract("C14", functions=SYN + [f"{DP}.UncorrelatedBackground.__init__",
                                  f"{DP}.DefaultPDFBase.__init__"], assumptions=AG)
def uncorrelated(v):
    """The signal of an uncorrelated-background model is multiplied and the terms are constrained."""
    k = Signal(v)
    u = v.array("background uncertainty", k.n, lo=0.0, lo_open=True)
    model = k.build("UncorrelatedBackground", u)
    bkg = lambda i: v.at(k.b, i) + k.th(i) * v.at(u, i)
    lam = lambda i: bkg(i) + k.mu() * k.sig(i)
    what = v.choice("what", ["likelihood", "expected data"])
    if what == "likelihood":
        E, data, dat = pick_data(v, k)
        want = poisson_term(v, k.n, lam, dat) + gauss_term(v, k.n, k.th) + k.constraint()
        functions_agree(v, model, k, E, data, want)
    else:
        expected(v, model, k, lam, aux=k.n + k.extra)
        positivity(v, model, k, bkg)


@contract("C14", functions=SYN + [f"{DP}.CorrelatedBackground.__init__",
                                  f"{DP}.DefaultPDFBase.main_model",
                                  f"{DP}.DefaultPDFBase.constraint_model"],
          assumptions=AG + ["numpy.linalg.inv and slogdet (uninterpreted functions of the matrix)"])
def correlated(v):
    """The same for a correlated background."""
    k = Signal(v)
    cov = v.matrix("covariance", k.n, symmetric=True, posdiag=True)
    model = k.build("CorrelatedBackground", cov)
    sd = lambda i: v.tsqrt(v.at(cov, (i, i)))
    bkg = lambda i: v.at(k.b, i) + sd(i) * k.th(i)
    lam = lambda i: bkg(i) + k.mu() * k.sig(i)
    what = v.choice("what", ["likelihood", "expected data"])
    if what == "likelihood":
        corr = v.table(k.n, k.n, lambda i, j: v.tdiv(1.0, sd(i)) * v.at(cov, (i, j))
                       * v.tdiv(1.0, sd(j)))
        E, data, dat = pick_data(v, k)
        want = poisson_term(v, k.n, lam, dat) + mvn_term(v, k.n, k.th, corr) + k.constraint()
        functions_agree(v, model, k, E, data, want)
    else:
        expected(v, model, k, lam, aux=k.n + k.extra)
        positivity(v, model, k, bkg)


@contract("C14", functions=SYN + [f"{DP}.DefaultPDFBase.get_sampler", f"{DI}.ConstraintModel.sample"],
          assumptions=["scipy.stats distributions sample what they are asked for"])
def sampling(v):
    """Pseudo-data: counts of the modified rates, then those of each constraint term in order."""
    k = Signal(v)
    N = v.length("sample size")
    u = v.array("background uncertainty", k.n, lo=0.0, lo_open=True)
    model = k.build("UncorrelatedBackground", u)
    lam = lambda i: v.at(k.b, i) + k.th(i) * v.at(u, i) + k.mu() * k.sig(i)
    w = Draws(v)
    s = v.ok("sampler", model.get_sampler, k.p)
    aux = v.choice("auxiliary", [None, True, False])
    r = v.ok("draw", s, N, **({} if aux is None else {"include_auxiliary": aux}))
    check_draw(v, w.log[0], "poisson", (N, k.n), mu=lambda i: v.tclip(lam(i), 1e-20))
    if aux is False:
        v.ensure("number of draws", len(w.log) == 1)
        v.ensure_eq("the sample is returned", r, w.log[0][3])
        return
    i, j = v.fresh_index(N), v.fresh_index(k.n)
    v.ensure_eq("counts first", v.at(r, (i, j)), v.at(w.log[0][3], (i, j)))
    off = k.n
    for name, kw, size, out in w.log[1:]:
        v.ensure("unit Gaussian", name == "norm")
        width = size[1]
        check_draw(v, (name, kw, size, out), "norm", (N, width), loc=lambda q: 0.0,
                   scale=lambda q: 1.0)
        if v.symbolic and not v.holds(width >= 1):
            continue
        q = v.fresh_index(width)
        v.ensure_eq("then the constraint terms in order", v.at(r, (i, off + q)), v.at(out, (i, q)))
        off = off + width
    v.ensure("one column per parameter", off == k.n + k.n + k.extra)


@contract("C14", functions=[f"{DP}.DefaultPDFBase.__init__", f"{DP}.DefaultPDFBase.config"] + SYN,
          bounded="up to three bins")
def configuration(v):
    """Names, initial values and bounds of all parameters, in the order of the parameter vector."""
    n = v.choice("few bins", [1, 2, 3])
    kinds = v.choice("modifiers", KINDS)
    m = Modifiers(v, n, kinds)
    s = v.array("signal", n, lo=0.0, lo_open=True)
    b = v.array("background", n, lo=0.0, lo_open=True)
    u = v.array("background uncertainty", n, lo=0.0, lo_open=True)
    model = v.ok("model", v.module(DP).UncorrelatedBackground, s, b, b, u, modifiers=m.config)
    cfg = v.ok("configuration", model.config)
    names = ["mu"] + [f"theta_bkg_{i}" for i in range(n)] + m.names
    if kinds:
        v.ensure("names in order", list(cfg.parameter_names) == names)
    v.ensure("number of parameters", cfg.npar == len(names) == len(cfg.suggested_bounds))
    v.ensure("free nuisance parameters",
             [tuple(x) for x in cfg.suggested_bounds[1:]] == [(None, None)] * (len(names) - 1))


@contract("C14", functions=[f"{DP}.DefaultPDFBase.__init__"])
def callable_signal(v):
    """Uncertainties of a signal given as a function are refused, by every model."""
    n = 2
    m = v.module(DP)
    kind = v.choice("model", ["UncorrelatedBackground", "CorrelatedBackground",
                              "ThirdMomentExpansion", "EffectiveSigma"])
    one = [[1.0, 0.0], [0.0, 1.0]]
    args = {"UncorrelatedBackground": ([1.0, 1.0],), "CorrelatedBackground": (one,),
            "ThirdMomentExpansion": (one, [0.1, 0.1]),
            "EffectiveSigma": (one, [(1.0, 1.0), (1.0, 1.0)])}[kind]
    mods = v.choice("modifiers", [[{"type": "normalization", "uncertainties": [0.1, 0.1]}], []])
    o = v.outcome(getattr(m, kind), lambda p: p[0] * [1.0, 2.0], [5.0, 5.0], [4.0, 4.0], *args,
                  modifiers=mods, n_signal_parameters=1)
    v.ensure("refused", o.raised("ValueError"), o)


@contract("C14", functions=SYN + [f"{DP}.DefaultPDFBase.__init__"], symbolic=False,
          bounded="sampled inputs with up to three bins and three sources")
def own_inputs(v):
    """A model never changes its inputs, nor changes with what the caller does with them."""
    n, kinds = v.choice("bins", [1, 2, 3]), v.choice("sources", [
        ["norm"], ["shape"], ["norm", "shape"], ["shape", "norm", "norm"]])
    s, b, d, u, *unc = numbers(v, n, "uncertainty", *[f"source {i}" for i in range(len(kinds))])
    unc = [np.stack([x, 0.5 * x], axis=1) if v.boolean(f"asymmetric {i}") else x
           for i, x in enumerate(unc)]
    config = [{"type": "shape" if k == "shape" else "normalization", "uncertainties": x, "name": str(i)}
              for i, (k, x) in enumerate(zip(kinds, unc))]
    m = v.module(DP)
    extra = sum(n if k == "shape" else 1 for k in kinds)
    pars = np.array([v.real(f"parameter {i}", lo=-0.5, hi=0.5) for i in range(1 + n + extra)])
    cov = np.diag(u * u) + 0.1 * np.outer(u, u)
    f, a = (m.CorrelatedBackground, cov) if v.boolean("correlated") else (m.UncorrelatedBackground, u)
    model = v.ok("model", f, s, b, d, a, modifiers=config)
    v.ensure("the caller's list is unchanged", len(config) == len(kinds) and all(
        sorted(c) == ["name", "type", "uncertainties"] and c["uncertainties"] is x
        for c, x in zip(config, unc)))
    own_copies(v, model, [s, b, d, a, *unc], pars)
