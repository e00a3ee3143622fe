"""C13: parameter bounds, fixed-parameter bookkeeping and names of the model configuration."""

import math

import z3

from pyvc.harness import contract
from pyvc.values import SymInt, bool_expr, mkbool, real_expr

MC = "spey.base.model_config"
CLS = f"{MC}.ModelConfig"
DP = "spey.backends.default_pdf"
SP = "spey.backends.default_pdf.simple_pdf"


def a_bound(v, name):
    kind = v.choice(f"{name} kind", ["both", "none", "low", "high"])
    lo = v.real(f"{name} lower") if kind in ("both", "low") else None
    hi = v.real(f"{name} upper") if kind in ("both", "high") else None
    if kind == "both":
        v.assume(lo < hi)
    return (lo, hi)


def inside(v, x, b):
    return v.And(True if b[0] is None else b[0] <= x, True if b[1] is None else x <= b[1])


def strictly(v, x, b):
    return v.And(True if b[0] is None else b[0] < x, True if b[1] is None else x < b[1])


def same_bound(v, a, b):
    return v.And(*[(p is None and q is None) if (p is None or q is None) else v.eq(p, q)
                   for p, q in zip(a, b)])


def configuration(v, names=None, npars=(1, 2, 3)):
    m = v.module(MC)
    n = v.choice("npar", npars)
    poi = v.choice("poi", list(range(n)))
    mn = v.real("minimum_poi", hi=0.0) if v.boolean("bounded from below") else -math.inf
    bounds = [a_bound(v, f"b{i}") if i == poi or i == (poi + 1) % n
              else (v.real(f"b{i} lower"), v.real(f"b{i} upper")) for i in range(n)]
    init = [v.real(f"init{i}") for i in range(n)]
    cfg = m.ModelConfig(poi, mn, list(init), list(bounds), parameter_names=names)
    return n, poi, mn, init, bounds, cfg


def untouched(v, cfg, init, bounds):
    v.ensure("the suggested bounds and start are unchanged", v.And(
        len(cfg.suggested_bounds) == len(bounds),
        *[same_bound(v, a, b) for a, b in zip(cfg.suggested_bounds, bounds)],
        v.eq(cfg.suggested_init, init)))


@contract("C13", functions=[f"{CLS}.fixed_poi_bounds"], bounded="one to three parameters")
def pin_one(v):
    """Bounds for a fixed signal strength contain it; an interior value changes nothing."""
    n, poi, mn, init, bounds, cfg = configuration(v)
    val = v.real("value", np64=v.boolean("np64"))
    v.assume(val >= mn)
    r = v.ok("call", cfg.fixed_poi_bounds, val)
    v.ensure("one bound per parameter", len(r) == n)
    v.ensure("contains the fixed value", inside(v, val, r[poi]))
    v.ensure("never below the smallest allowed signal strength", True if r[poi][0] is None else
             v.Or(r[poi][0] >= mn, same_bound(v, r[poi], bounds[poi])))
    v.ensure("an interior value changes nothing",
             v.Implies(strictly(v, val, bounds[poi]), same_bound(v, r[poi], bounds[poi])))
    v.ensure("unbounded above stays so", bounds[poi][1] is not None or r[poi][1] is None)
    for i in range(n):
        if i != poi:
            v.ensure("other parameters keep their bounds", same_bound(v, r[i], bounds[i]))
    untouched(v, cfg, init, bounds)


@contract("C13", functions=[f"{CLS}.fixed_poi_bounds_multi"], bounded="one to three parameters",
          max_paths=12000)
def pin_several(v):
    """The same for several fixed parameters at once."""
    n, poi, mn, init, bounds, cfg = configuration(v)
    which = v.choice("pinned", ["poi", "other", "both"] if n > 1 else ["poi"])
    oth = (poi + 1) % n
    pins = {}
    if which in ("other", "both"):
        pins[oth] = v.real("other value")
    if which in ("poi", "both"):
        pins[poi] = v.real("value")
        v.assume(pins[poi] >= mn)
    back = n if v.boolean("counted from the end") else 0
    arg = {k - back: x for k, x in pins.items()}
    r = v.ok("call", cfg.fixed_poi_bounds_multi, arg)
    v.ensure("one bound per parameter", len(r) == n)
    for i in range(n):
        if i in pins:
            v.ensure("contains the fixed value", inside(v, pins[i], r[i]))
            v.ensure("an interior value changes nothing",
                     v.Implies(strictly(v, pins[i], bounds[i]), same_bound(v, r[i], bounds[i])))
        else:
            v.ensure("other parameters keep their bounds", same_bound(v, r[i], bounds[i]))
        if i != poi and bounds[i][0] is not None and i in pins:
            v.ensure("nuisance bounds are only widened", v.And(
                r[i][0] <= bounds[i][0], True if bounds[i][1] is None else r[i][1] >= bounds[i][1]))
    if poi in pins:
        v.ensure("never below the smallest allowed signal strength", True if r[poi][0] is None else
                 v.Or(r[poi][0] >= mn, same_bound(v, r[poi], bounds[poi])))
    v.ensure("the caller's dictionary is unchanged",
             v.And(len(arg) == len(pins), *[v.eq(arg[k - back], pins[k]) for k in pins]))
    untouched(v, cfg, init, bounds)


@contract("C13", functions=[f"{CLS}.fixed_poi_bounds_multi"], bounded="up to five parameters")
def pin_many(v):
    """The same for any subset of up to five parameters, pinned in any order."""
    m = v.module(MC)
    n = v.choice("npar", [3, 4, 5] if v.symbolic else [2, 3, 4, 5, 6])
    poi = v.choice("poi", [0, n - 1])
    mn = v.real("minimum_poi", hi=0.0)
    low = [v.real(f"b{i} lower") for i in range(n)]
    bounds = [(a, a + v.real(f"b{i} width", lo=0.0, lo_open=True)) for i, a in enumerate(low)]
    init = [v.real(f"init{i}") for i in range(n)]
    if v.symbolic:
        order = v.choice("pinned", [[poi, (poi + 1) % n, (poi + 2) % n],
                                    [(poi + 2) % n, poi, (poi + 1) % n], list(range(n))[::-1]])
    else:
        order = [i for i in v.choice("order", [list(range(n)), list(range(n))[::-1]])
                 if v.boolean(f"pinned{i}")]
    out = v.choice("outside", order or [0])  # every other value is an interior one
    pins = {}
    for i in order:
        pins[i] = v.real(f"value{i}")
        if i != out and v.symbolic:
            v.assume(strictly(v, pins[i], bounds[i]))
        elif i != out:
            pins[i] = 0.5 * (bounds[i][0] + bounds[i][1])
        elif i == poi:
            v.assume(pins[i] >= mn)
    cfg = m.ModelConfig(poi, mn, list(init), list(bounds))
    r = v.ok("call", cfg.fixed_poi_bounds_multi, dict(pins))
    v.ensure("one bound per parameter", len(r) == n)
    for i in range(n):
        if i not in pins or i != out:
            v.ensure("other parameters keep their bounds", same_bound(v, r[i], bounds[i]))
            continue
        v.ensure("contains the fixed value", inside(v, pins[i], r[i]))
        v.ensure("an interior value changes nothing",
                 v.Implies(strictly(v, pins[i], bounds[i]), same_bound(v, r[i], bounds[i])))
        if i != poi:
            v.ensure("nuisance bounds are only widened",
                     v.And(r[i][0] <= bounds[i][0], r[i][1] >= bounds[i][1]))
        else:
            v.ensure("never below the smallest allowed signal strength",
                     v.Or(r[i][0] >= mn, same_bound(v, r[i], bounds[i])))
    untouched(v, cfg, init, bounds)


@contract("C13", functions=[f"{CLS}.fixed_poi_bounds", f"{CLS}.fixed_poi_bounds_multi"])
def pin_nothing(v):
    """Nothing fixed: the suggested bounds."""
    n, poi, mn, init, bounds, cfg = configuration(v)
    r = cfg.fixed_poi_bounds(None)
    s = cfg.fixed_poi_bounds_multi(v.choice("empty", [None, {}]))
    for x in (r, s):
        v.ensure("the suggested bounds", v.And(len(x) == n, *[
            same_bound(v, a, b) for a, b in zip(x, bounds)]))


@contract("C13", functions=[f"{CLS}.rescale_poi_bounds"])
def rescale(v):
    """Only the signal-strength bounds change: lower by sign convention, upper as requested."""
    n, poi, mn, init, bounds, cfg = configuration(v)
    neg = v.boolean("allow_negative_signal")
    up = v.real("upper", lo=0.0, lo_open=True) if v.boolean("upper given") else None
    r = v.ok("call", cfg.rescale_poi_bounds, neg, up)
    v.ensure("one bound per parameter", len(r) == n and len(r[poi]) == 2)
    v.ensure_eq("lower end", r[poi][0], mn if neg else 0.0)
    v.ensure("upper end", same_bound(v, (None, r[poi][1]),
                                     (None, bounds[poi][1] if up is None else up)))
    for i in range(n):
        if i != poi:
            v.ensure("other parameters keep their bounds", same_bound(v, r[i], bounds[i]))
    untouched(v, cfg, init, bounds)


# names that are different only in case, white space, an index, a prefix or a suffix
TRICKY = [["theta_1", "theta_10", "theta"], ["s[0]", "s[1]", "s[2]"], ["Mu", "mu", "MU"],
          ["a", " a", "a "], ["ch1_mu", "mu_ch1", "mu"], ["0", "1", "2"], ["x.1", "x.2", "x"],
          ["", "b", "a"], ["a:1", "a-1", "a_1"]]


@contract("C13", functions=[f"{CLS}.resolve_poi_indices"])
def resolve(v):
    """A number fixes the signal strength; keys are indices or names; unknown names are refused."""
    m = v.module(MC)
    names = v.choice("names", [None, ["mu", "a", "b"], ["x", "mu", "y"], *TRICKY])
    poi = v.choice("poi", [0, 1, 2])
    cfg = m.ModelConfig(poi, -1.0, [1.0] * 3, [(0, 1)] * 3, parameter_names=names)
    x, y = v.real("x", np64=v.boolean("np64")), v.real("y")
    kind = v.choice("kind", ["number", "index", "name", "last name", "mixed", "unknown"])
    if kind == "number":
        arg, want = x, {poi: x}
    elif kind == "index":
        arg, want = {2: x, 0: y}, {2: x, 0: y}
    else:
        nm = names or ["mu", "a", "b"]
        arg, want = {
            "name": ({nm[1]: x, nm[0]: y}, {1: x, 0: y}),
            "last name": ({nm[2]: x}, {2: x}),
            "mixed": ({0: y, nm[2]: x}, {0: y, 2: x}),
            "unknown": ({nm[0]: y, v.choice("unknown name", ["nope", nm[0] + "_", "(" + nm[1]]): x},
                        None)}[kind]
        if names is None:
            want = None
    o = v.outcome(cfg.resolve_poi_indices, arg)
    if want is None:
        v.ensure("refused", o.raised("ValueError"), o)
    else:
        v.ensure("accepted", o.ok, o)
        v.ensure("same parameters", o.ok and sorted(o.value) == sorted(want))
        for k in want:
            v.ensure_eq("value of the parameter", o.value[k], want[k])


RENAMES = [
    ({"a": "z"}, ["mu", "z", "b"]),
    ({"a": "b", "b": "a"}, ["mu", "b", "a"]),
    ({"mu": "a", "a": "b", "b": "mu"}, ["a", "b", "mu"]),
    ({"mu": "q", "b": "w"}, ["q", "a", "w"]),
    ({"a": "b"}, None), ({"a": "x", "b": "x"}, None), ({"nope": "x"}, None),
    ({"mu": "b", "a": "mu", "b": "a"}, ["b", "mu", "a"]),
    ({"a": "mu"}, None), ({"a": "a"}, ["mu", "a", "b"]), ({}, ["mu", "a", "b"]),
]


@contract("C13", functions=[f"{CLS}.change_parameter_names"], bounded="three named parameters")
def rename(v):
    """Names change simultaneously, stay unique, and a refused change leaves them alone."""
    m = v.module(MC)
    cfg = m.ModelConfig(0, -1.0, [1.0] * 3, [(0, 1)] * 3, parameter_names=["mu", "a", "b"])
    change, want = v.choice("change", RENAMES)
    o = v.outcome(cfg.change_parameter_names, dict(change))
    if want is None:
        v.ensure("refused", o.raised("ValueError"), o)
        v.ensure("names unchanged", list(cfg.parameter_names) == ["mu", "a", "b"])
    else:
        v.ensure("accepted", o.ok, o)
        v.ensure("new names", list(cfg.parameter_names) == want, cfg.parameter_names)


def make_backend(v, kind, n, sig, bkg, data, unc, nsp, sbounds):
    m = v.module(DP)
    s = v.module(SP)
    kw = {} if nsp == 0 else {"n_signal_parameters": nsp, "signal_parameter_bounds": sbounds}
    if kind == "uncorrelated":
        return m.UncorrelatedBackground(sig, bkg, data, unc, **kw), nsp + n
    if kind == "normal":
        return s.Gaussian(sig, bkg, data, unc, **kw), nsp
    if kind == "poisson":
        return s.Poisson(sig, bkg, data), 0
    return s.Poisson(sig, bkg, data, unc), n


@contract("C13", functions=[f"{DP}.DefaultPDFBase.__init__", f"{DP}.DefaultPDFBase.config",
                            f"{SP}.SimplePDFBase.__init__", f"{SP}.SimplePDFBase.config",
                            f"{SP}.Poisson.__init__"], bounded="two bins")
def backends(v):
    """config(): consistent lengths; the POI range follows the sign choice, the yields and the cap."""
    n = 2
    kind = v.choice("backend", ["uncorrelated", "normal", "poisson", "poisson with uncertainties"])
    alive = v.choice("signal bins", ["both", "one", "none", "negative"])
    s = [v.real(f"s{i}", lo=0.0, lo_open=True, hi=50.0) for i in range(n)]
    b = [v.real(f"b{i}", lo=0.0, lo_open=True, hi=500.0) for i in range(n)]
    sig = {"both": s, "one": [0.0, s[1]], "none": [0.0, 0.0], "negative": [-1.0, s[1]]}[alive]
    nsp = v.choice("signal parameters", [0, 2]) if kind in ("uncorrelated", "normal") else 0
    sb = v.choice("signal bounds", [None, [None, (-2.0, 5.0)]]) if nsp else None
    model, extra = make_backend(v, kind, n, list(sig), list(b), [3.0, 4.0], [1.0, 2.0], nsp, sb)
    neg = v.boolean("allow_negative_signal")
    ask = v.choice("cap", ["default", "ten", "other"])
    cap = v.real("upper", lo=0.5, hi=200.0) if ask == "other" else 10.0
    args = (neg,) if ask == "default" else (neg, cap)
    before = model.config()
    b0, i0 = [tuple(x) for x in before.suggested_bounds], list(before.suggested_init)
    cfg = v.ok("call", model.config, *args)
    npar = 1 + extra
    v.ensure("one start value and bound per parameter",
             cfg.npar == npar and len(cfg.suggested_bounds) == npar
             and cfg.poi_index == 0
             and (cfg.parameter_names is None or len(cfg.parameter_names) == npar
                  and len(set(cfg.parameter_names)) == npar))
    if alive in ("both",):
        low = v.max(-b[0] / s[0], -b[1] / s[1])
    elif alive == "none":
        low = -math.inf
    else:
        low = -b[1] / s[1]
    v.ensure_eq("smallest allowed signal strength", cfg.minimum_poi, low)
    v.ensure_eq("lower end", cfg.suggested_bounds[0][0], low if neg else 0.0)
    v.ensure_eq("upper end", cfg.suggested_bounds[0][1], cap)
    want = [(None, None)] * extra
    if sb:
        want[1] = (-2.0, 5.0)
    v.ensure("other bounds", [tuple(x) for x in cfg.suggested_bounds[1:]] == want)
    again = model.config()
    v.ensure("asking changes nothing", v.And(
        v.eq(again.suggested_init, i0), len(again.suggested_bounds) == npar,
        *[same_bound(v, p, q) for p, q in zip(again.suggested_bounds, b0)]))


@contract("C13", functions=[f"{DP}.DefaultPDFBase.__init__", f"{SP}.SimplePDFBase.__init__",
                            f"{DP}.DefaultPDFBase.is_alive", f"{SP}.SimplePDFBase.is_alive"])
def lowest(v):
    """The smallest signal strength is the largest one at which a yield vanishes; any bin count."""
    n = v.length("bins", lo=1)
    s, b = v.array("signal", n), v.array("background", n, lo=0.0, lo_open=True)
    d, u = v.array("data", n, lo=0.0), v.array("uncertainty", n, lo=0.0, lo_open=True)
    kind = v.choice("backend", ["UncorrelatedBackground", "CorrelatedBackground", "Poisson", "Gaussian"])
    args = [u]
    if kind == "CorrelatedBackground":
        args = [v.matrix("covariance", n, symmetric=True, posdiag=True)]
    m = v.module(SP if kind in ("Poisson", "Gaussian") else DP)
    model = v.ok("model", getattr(m, kind), s, b, d, *([] if kind == "Poisson" else args))
    alive = v.ok("alive", lambda: model.is_alive)
    low = v.ok("configuration", model.config).minimum_poi
    i = v.fresh_index(n)
    if not v.holds(alive):
        v.ensure("no signal", v.Not(v.at(s, i) > 0.0))
        v.ensure("no limit", low == -math.inf)
        return
    v.ensure("every yield stays non-negative",
             v.Implies(v.at(s, i) > 0.0, v.at(b, i) + low * v.at(s, i) >= -1e-9 * v.at(b, i)))
    v.ensure("negative signals are allowed down to there", low < 0.0)
    v.ensure("a yield vanishes there", attained(v, n, s, b, low))


def attained(v, n, s, b, low):
    if not v.symbolic:
        return any(s[i] > 0.0 and abs(b[i] + low * s[i]) <= 1e-9 * b[i] for i in range(n))
    k = z3.Int("attained")
    f = v.at(b, SymInt(k)) + low * v.at(s, SymInt(k))
    return mkbool(z3.Exists([k], z3.And(k >= 0, k < n.e, bool_expr(v.at(s, SymInt(k)) > 0.0),
                                        real_expr(f) == 0)))
