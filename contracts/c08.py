"""C08: likelihood-ratio intervals (chi2_test), crossings of a profile, re-anchored minimum."""

import math
import types

from pyvc.harness import contract
from contracts.c05 import expectation
from contracts.fakes import HB, make_model

BU = "spey.base.utils"
C = f"{HB}.HypothesisTestingBase"
ROOT = ["scipy.optimize.toms748 returns a root inside an interval with a sign change or reports "
        "failure"]
MIN = ["scipy.optimize.minimize_scalar(bounded) returns a point of the interval and its value"]


def toms748(v, converge=None):
    def stub(f, a, b, args=(), k=1, xtol=2e-12, rtol=1e-4, maxiter=100, full_output=False,
             disp=True):
        fa, fb = f(a), f(b)
        v.ensure("root finder called with an ordered interval", a < b)
        v.ensure("root finder called with a sign change",
                 v.Or(v.And(fa <= 0.0, fb >= 0.0), v.And(fa >= 0.0, fb <= 0.0)))
        x = v.real("root", np64=False)
        v.assume(v.And(x >= a, x <= b))
        v.assume(f(x) == 0.0)
        r = types.SimpleNamespace(converged=True, flag="", iterations=3, function_calls=5)
        return (x, r) if full_output else x

    return stub


def profile(v, name="f"):
    """An arbitrary function; concretely a parabola with ripples (several crossings)."""
    if v.symbolic:
        return v.func(name)
    a, b = v.real(name + "_a", lo=0.05, hi=2), v.real(name + "_b", lo=-3, hi=3)
    d, w = v.real(name + "_d", lo=0, hi=4, pool=[0.0]), v.real(name + "_w", lo=0.1, hi=3)
    return lambda x, *_: a * (x - b) ** 2 + d * math.cos(w * x)


@contract("C08", functions=[f"{BU}._enumerate_crossings_1d"], assumptions=ROOT,
          bounded="grids of 3 to 5 points")
def crossings(v):
    """Ascending roots in the interval, at least one in every grid cell with a sign change."""
    m = v.module(BU)
    g, off = profile(v), v.real("level", lo=-2, hi=8)
    f = lambda x: g(x) - off
    lo, hi = v.real("lo", lo=-10, hi=10), v.real("hi", lo=-10, hi=10)
    n = v.choice("n_scan", [0, 3, 4, 5])
    v.external("scipy.optimize.toms748", toms748(v))
    out = v.ok("call", m._enumerate_crossings_1d, f, lo, hi, n_scan=n)
    if v.holds(hi <= lo):
        v.ensure("empty interval has no crossings", len(out) == 0)
        return
    n = max(n, 3)
    for i, r in enumerate(out):
        v.ensure("inside the interval", v.And(v.ge(r, lo), v.le(r, hi)))
        if v.symbolic:
            v.ensure_eq("is a root", f(r), 0.0)
        else:
            d = 1e-6 + 3e-4 * abs(r)
            v.ensure("is a root", f(r - d) * f(r + d) <= 1e-9)
        if i:
            v.ensure("ascending, without repetition", out[i - 1] < r)
    xs = [lo + (hi - lo) * (i / (n - 1)) for i in range(n - 1)] + [hi]
    for a, b in zip(xs, xs[1:]):
        fa, fb = f(a), f(b)
        crosses = v.Or(v.And(fa < 0.0, fb > 0.0), v.And(fa > 0.0, fb < 0.0))
        tol = 1e-6  # results closer than the deduplication distance are one result
        v.ensure("crossing of this cell reported", v.Implies(
            crosses, v.Or(False, *[v.And(r >= a - tol, r <= b + tol) for r in out])))
        v.ensure("root on a grid point reported", v.Implies(
            fa == 0.0, v.Or(False, *[v.And(r >= a - tol, r <= a + tol) for r in out])))
    # the function may vanish on the whole last cell, which is one result
    v.ensure("root at the end of the interval reported", v.Implies(
        fb == 0.0, v.Or(False, *[v.And(r >= a - tol, r <= b + tol) for r in out])
        if v.symbolic and v.holds(fa == 0.0) else
        v.Or(fa == 0.0, *[v.And(r >= b - tol, r <= b + tol) for r in out])))


@contract("C08", functions=[f"{BU}._refine_global_min_1d"], assumptions=MIN,
          bounded="2 to 4 scan points")
def reanchored_minimum(v):
    """The anchor is never above the fit nor above any scanned point, and is attained."""
    m = v.module(BU)
    f = profile(v)
    lo, hi = v.real("lo", lo=-10, hi=10), v.real("hi", lo=-10, hi=10)
    ref = v.real("reference", lo=-10, hi=10)
    m0 = v.real("minimum", lo=-5, hi=5)
    n = v.choice("n_samples", [1, 2, 3, 4])

    def minimize_scalar(fun, bracket=None, bounds=None, args=(), method=None, tol=None,
                        options=None):
        v.ensure("bounded minimisation", method == "bounded" and bounds[0] < bounds[1])
        x = v.real("xmin", np64=True)
        v.assume(v.And(x >= bounds[0], x <= bounds[1]))
        return types.SimpleNamespace(x=x, fun=fun(x), success=True)

    v.external("scipy.optimize.minimize_scalar", minimize_scalar)
    a, x = v.ok("call", m._refine_global_min_1d, f, m0, ref, lo, hi, n)
    v.ensure("anchor not above the fit", v.le(a, m0))
    if v.holds(v.And(a == m0, x == ref)):
        pass
    else:
        v.ensure_eq("anchor is the value at its position", a, f(x))
        v.ensure("position inside the scanned range", v.And(v.ge(x, lo), v.le(x, hi)))
    if n >= 2 and v.holds(hi > lo):
        for i in range(n):
            y = lo + (hi - lo) * (i / (n - 1)) if i < n - 1 else hi
            v.ensure("anchor not above a scanned point", a <= f(y) + 1e-8)


def interval_checks(v, out, f, anchor, ref, thr, kind, enumerated, hard):
    """f(x) - anchor = thr/2 for every returned x that is not a bound of the search."""
    lo, hi = hard

    def good(x):
        if isinstance(x, float) and math.isnan(x):
            return True
        if v.symbolic:
            solves = v.eq(2.0 * (f(x) - anchor), thr)
        else:
            d = 1e-5 + 1e-3 * abs(x)
            solves = (2.0 * (f(x - d) - anchor) - thr) * (2.0 * (f(x + d) - anchor) - thr) <= 1e-6
        return v.Or(solves, x == lo, x == hi)

    for x in out:
        v.ensure("statistic equals the threshold at every returned value", good(x))


@contract("C08", functions=[f"{C}.chi2_test"],
          assumptions=ROOT + ["profile minimum, crossings and bracket search enter by their "
                              "contracts"], bounded="up to three crossings per search window")
def poi_interval(v):
    """Signal-strength interval: values where chi2 relative to the minimum is the threshold."""
    k, E, kind, cl, neg, out, calls = poi_run(v)
    if out is None:
        return
    from scipy.stats import chi2

    thr = float(chi2.isf(1.0 - cl, df=1))
    allow = bool(neg) or kind in ("two-sided", "left")
    hard = (-1e5 if allow else 0.0, 1e5)
    f = lambda x: k.L(x, E)
    if v.symbolic:
        anchor, ref = calls["refine"][-1]
        v.ensure("the fit uses the sign convention of the limit type",
                 calls["fit"] == [(k.ML(E, allow)[1])] or v.eq(calls["fit"][0], k.ML(E, allow)[1]))
        roots = calls["cross"][-1]
        left = [r for r in roots if v.holds(r < ref - 1e-12)]
        right = [r for r in roots if v.holds(r > ref + 1e-12)]
        if kind == "left" and left:
            v.ensure("left limits: all crossings below the minimum", v.And(
                len(out) == len(left), *[v.eq(a, b) for a, b in zip(out, left)]))
        if kind == "right" and right:
            v.ensure("right limits: all crossings above the minimum", v.And(
                len(out) == len(right), *[v.eq(a, b) for a, b in zip(out, right)]))
        if kind == "two-sided" and left and right:
            v.ensure("two-sided: every crossing, ascending", v.And(
                len(out) == len(roots), *[v.eq(a, b) for a, b in zip(out, roots)]))
        if kind == "two-sided" and (not left or not right):
            v.ensure("two-sided: one value per side", len(out) == 2)
            if left:
                v.ensure("outermost left crossing kept", v.eq(out[0], left[0]))
            if right:
                v.ensure("outermost right crossing kept", v.eq(out[1], right[-1]))
    else:
        anchor, ref = calls["min"]
    interval_checks(v, out, f, anchor, ref, thr, kind, None, hard)
    if not v.symbolic:
        v.ensure("ascending", all(a < b for a, b in zip(out, out[1:]) if not
                                  (math.isnan(a) or math.isnan(b))))
        inside = [x for x in out if abs(x) < 1e5 and not math.isnan(x)]
        if kind == "left":
            v.ensure("left of the minimum", all(x < ref for x in inside))
        if kind == "right":
            v.ensure("right of the minimum", all(x > ref for x in inside))
        if kind == "two-sided" and len(inside) >= 2:
            v.ensure("minimum inside", inside[0] < ref < inside[-1])


# (number of crossings, how many of them are below the minimum)
SIDES = [(0, 0), (2, 1), (2, 0), (2, 2), (3, 1), (3, 2)]


def poi_run(v):
    kind = v.choice("limit_type", ["two-sided", "left", "right"])
    E, cl, neg, bracketed, where = v.choice("setting", [
        ("observed", 0.95, None, "root", 1), ("apriori", 0.68, True, "at the walls", -1),
        ("observed", 0.68, None, "none", 0), ("observed", 0.9, True, "root", -1),
        ("apriori", 0.95, None, "at the walls", 1)])
    E = getattr(v.module("spey.utils").ExpectationType, E)
    extra = {"sigma_mu": lambda self, poi_test, expected, **kw: v.real("sigma", np64=True)}
    calls = {"refine": [], "cross": [], "fit": []}
    if v.symbolic:
        k = make_model(v, extra=extra)
        muhat = k.ML(E, bool(neg) or kind in ("two-sided", "left"))[0]
        v.assume(muhat >= 1e-6 if where > 0 else muhat <= -1e-6 if where < 0 else
                 v.And(muhat < 1e-6, muhat > -1e-6))
        if where != 0:  # the search window stays clear of the walls
            v.assume(v.And(muhat < 100.0, muhat > -100.0, v.real("sigma", np64=True) < 100.0))
        calls["wall"] = lambda o: v.If(o < 0.0, -1e5, 1e5)

        def refine(nll_fn, mllhd, reference, lo, hi, n_samples=9):
            calls["fit"].append(mllhd)
            a, x = v.real("anchor"), v.real("ref")
            v.assume(a <= mllhd)
            v.assume(v.And(lo <= x, x <= hi))
            v.ensure("minimum searched in the profile itself",
                     v.eq(nll_fn(x), k.L(x, E)))
            calls["refine"].append((a, x))
            return a, x

        def crossings(f, lo, hi, n_scan=121, xtol=2e-12, rtol=1e-4, maxiter=10000):
            t = len(calls["cross"])
            # a wider window shows what the previous one did, or both sides
            n, k_left = calls["sides"] = v.choice(
                f"crossings{t}", SIDES if not t else sorted({calls["sides"], SIDES[1]}))
            rs, ref = [], calls["refine"][-1][1]
            for i in range(n):
                r = v.real(f"r{t}_{i}")
                v.assume(v.And(r >= lo, r <= hi, f(r) == 0.0))
                v.assume(r < ref - 1e-11 if i < k_left else r > ref + 1e-11)
                if rs:
                    v.assume(r > rs[-1])
                rs.append(r)
            if t:
                v.ensure("search window only grows", v.And(lo <= calls["win"][0],
                                                           hi >= calls["win"][1]))
            calls["win"] = (lo, hi)
            calls["cross"].append(rs)
            return list(rs)

        def bas(f, inner, outer, *a, **kw):
            o = v.real("outer")
            if bracketed == "root":
                x = v.real("legacy")
                v.assume(f(x) == 0.0)
                return v.real("inner"), o, x
            v.assume(v.And(o > -1e5, o < 1e5) if bracketed == "none" else
                     v.eq(o, calls["wall"](outer)))
            return v.real("inner"), o, math.nan

        v.callee(HB, "_refine_global_min_1d", refine)
        v.callee(HB, "_enumerate_crossings_1d", crossings)
        v.callee(HB, "bracket_and_solve", bas)
    else:
        k = make_model(v, extra=extra)
        f = profile(v, "nll")
        xs = [i * 0.003 - 12 for i in range(8001)]
        x0 = min((x for x in xs if kind != "right" or neg or x >= 0), key=f)
        calls["min"] = (f(x0), x0)
        sg = v.real("sigma_true", lo=0.3, hi=3)
        k.cls.likelihood = lambda self, poi_test=1.0, expected=None, **kw: f(poi_test)
        k.cls.maximize_likelihood = lambda self, **kw: (x0, f(x0))
        k.cls.sigma_mu = lambda self, poi_test, expected, **kw: sg
        k.L = lambda x, *_: f(x)
    out = v.ok("call", k.model.chi2_test, E, cl, kind, neg)
    v.ensure("at least one value per requested side", len(out) >= (2 if kind == "two-sided" else 1))
    return k, E, kind, cl, neg, list(out), calls


@contract("C08", functions=[f"{C}.chi2_test"])
def invalid(v):
    """Levels outside [0,1] and unknown interval types are refused before anything is fitted."""
    k = make_model(v)
    if v.boolean("bad level"):
        cl = v.real("confidence_level")
        v.assume(v.Or(cl < 0.0, cl > 1.0))
        o = v.outcome(k.model.chi2_test, confidence_level=cl)
    else:
        o = v.outcome(k.model.chi2_test, limit_type=v.choice("type", ["", "both", "Left", "upper"]))
    v.ensure("refused", o.raised("AssertionError"), o)
    v.ensure("nothing fitted", not k.calls)


@contract("C08", functions=[f"{C}.chi2_test", f"{BU}.resolve_parameter_index"],
          assumptions=["profile minimum and crossings enter by their contracts"],
          bounded="two crossings")
def nuisance_interval(v):
    """Profiling a nuisance parameter pins the signal strength and scans that parameter only."""
    E = expectation(v, values=("observed", "apriori"))
    kind = v.choice("limit_type", ["two-sided", "left", "right"])
    named = v.boolean("by name")
    pv = v.choice("poi_value", ["default", "given", "free"])
    MC = v.module("spey.base.model_config").ModelConfig
    b = v.choice("bounds", [(None, None), (-7.0, 9.0), (None, 8.0)])
    cfg = MC(1, 0.0, [0.0, 0.0, 0.0], [(None, None), (0, 10), b],
             parameter_names=["a", "mu", "theta"])
    par = "theta" if named else 2
    k = make_model(v)
    poi = {"default": 1.0, "given": v.real("poi"), "free": None}[pv]
    that, mn = v.real("theta_hat", lo=-6, hi=7), v.real("minimum")
    asked, calls = [], {}
    narrow = v.symbolic and v.boolean("first window too narrow") and b == (None, 8.0)
    if narrow:  # there is room to grow on the left
        v.assume(v.And(that > -1000.0, that < 1000.0))

    def maxim(self, return_nll=True, expected=None, allow_negative_signal=True, **kw):
        asked.append((expected, allow_negative_signal, kw))
        return {par: that}, mn

    f = None if v.symbolic else profile(v, "nll")
    L = (lambda d: k.L(d, E)) if v.symbolic else (lambda d: f(d[2]) + (d.get(1, 0.0) or 0.0) * 0.1)
    if not v.symbolic:
        xs = [i * 0.003 - 12 for i in range(8001)]
        that = min((x for x in xs if (b[0] is None or x >= b[0]) and (b[1] is None or x <= b[1])),
                   key=f)
        mn = L({2: that, 1: poi})
        seen = []

        def like(self, poi_test=1.0, expected=None, **kw):
            seen.append((dict(poi_test), expected))
            return L(poi_test)

        k.cls.likelihood = like
    k.cls.maximize_likelihood = maxim
    k.cls.backend = types.SimpleNamespace(config=lambda **kw: cfg)
    point = lambda x: {2: x} if poi is None else {1: poi, 2: x}
    if v.symbolic:
        def refine(nll_fn, mllhd, reference, lo, hi, n_samples=9):
            a, x = v.real("anchor"), v.real("ref")
            v.assume(v.And(a <= mllhd, lo <= x, x <= hi))
            v.ensure_eq("profile at the pinned signal strength", nll_fn(x), L(point(x)))
            v.ensure_eq("starts from the fit", [mllhd, reference], [mn, that])
            v.ensure("inside the parameter's bounds", v.And(
                True if b[0] is None else lo >= b[0], True if b[1] is None else hi <= b[1]))
            calls["refine"] = (a, x)
            return a, x

        def crossings(f, lo, hi, n_scan=121, xtol=2e-12, rtol=1e-4, maxiter=10000):
            v.ensure("searched inside the parameter's bounds", v.And(
                True if b[0] is None else lo >= b[0], True if b[1] is None else hi <= b[1]))
            x = calls["refine"][1]
            v.ensure("the minimum is inside the window", v.And(lo <= x, x <= hi))
            if "window" in calls:
                v.ensure("search window only grows", v.And(lo <= calls["window"][0],
                                                           hi >= calls["window"][1]))
            elif narrow:
                calls["window"] = (lo, hi)
                v.assume(v.And(x > lo + 0.1, x < hi - 0.1))
                return []
            r0, r1 = v.real("r0"), v.real("r1")
            x = calls["refine"][1]
            v.assume(v.And(r0 < x - 1e-6, r1 > x + 1e-6, f(r0) == 0.0, f(r1) == 0.0))
            calls["roots"] = [r0, r1]
            return [r0, r1]

        v.callee(HB, "_refine_global_min_1d", refine)
        v.callee(HB, "_enumerate_crossings_1d", crossings)
    cl = v.choice("confidence_level", [0.95, 0.68])
    kw = {} if pv == "default" else {"poi_value": poi}
    out = v.ok("call", k.model.chi2_test, E, cl, kind, parameter=par, **kw)
    from scipy.stats import chi2

    thr = float(chi2.isf(1.0 - cl, df=1))
    v.ensure("one fit, of this expectation, signal strength pinned", len(asked) == 1
             and asked[0][0] == E and asked[0][2].get("fixed_poi_value") is poi
             or v.eq(asked[0][2].get("fixed_poi_value"), poi))
    v.ensure("the fit reports the profiled parameter", list(asked[0][2]["poi_indices"]) == [par])
    anchor = calls["refine"][0] if v.symbolic else mn
    hard = (-1e5 if b[0] is None else b[0], 1e5 if b[1] is None else b[1])
    interval_checks(v, out, lambda x: L(point(x)), anchor, None, thr, kind, None, hard)
    if v.symbolic:
        r0, r1 = calls["roots"]
        want = {"two-sided": [r0, r1], "left": [r0], "right": [r1]}[kind]
        v.ensure("the crossings of the requested side", v.And(
            len(out) == len(want), *[v.eq(x, y) for x, y in zip(out, want)]))
    else:
        v.ensure("only the signal strength is pinned", all(
            set(p) == ({2} if poi is None else {1, 2}) and (poi is None or p[1] == poi)
            and e == E for p, e in seen))
        v.ensure("searched inside the parameter's bounds", all(
            (b[0] is None or p[2] >= b[0] - 1e-9) and (b[1] is None or p[2] <= b[1] + 1e-9)
            for p, _ in seen))


@contract("C08", functions=[f"{BU}.resolve_parameter_index"])
def parameter_lookup(v):
    """Nuisance parameters are found by index or name; anything else is refused."""
    m = v.module(BU)
    MC = v.module("spey.base.model_config").ModelConfig
    n = v.choice("npar", [1, 2, 3])
    poi = v.choice("poi", range(n))
    names = v.choice("names", [None, ["p0", "p1", "p2"][:n]])
    cfg = MC(poi, 0.0, [0.0] * n, [(0, 1)] * n, parameter_names=names)
    if v.boolean("by name"):
        q = v.choice("name", ["p0", "p1", "p2", "P1", ""])
        o = v.outcome(m.resolve_parameter_index, q, cfg)
        if n > 1 and names and q in names and names.index(q) != poi:
            v.ensure("position of the name", o.ok and o.value == names.index(q), o)
        else:
            v.ensure("unknown name, signal strength or no nuisances refused",
                     o.raised("ValueError"), o)
    else:
        q = v.int("index") if v.symbolic else v.choice("i", [-2, -1, 0, 1, 2, 3])
        o = v.outcome(m.resolve_parameter_index, q, cfg)
        if n > 1 and v.holds(v.And(q >= 0, q < n, q != poi)):
            v.ensure("index returned unchanged", o.ok and v.holds(o.value == q), o)
        else:
            v.ensure("out of range, signal strength or no nuisances refused",
                     o.raised("ValueError"), o)


@contract("C08", functions=[f"{C}.chi2_test", f"{BU}._enumerate_crossings_1d"], symbolic=False,
          bounded="sampled profiles with up to seven crossings, all on one side of the minimum")
def one_sided_profile(v):
    """Crossings on one side only: the outermost one ends a two-sided interval, all of them are
    reported for that side."""
    side = v.choice("side", [1.0, -1.0])
    c, w, n = v.real("origin", lo=-2, hi=2), v.real("width", lo=0.5, hi=2), v.choice(
        "hills", [1, 2, 3])
    cl = v.choice("confidence_level", [0.95, 0.68])
    kind = v.choice("limit_type", ["two-sided", "right" if side > 0 else "left"])
    from scipy.stats import chi2

    half = float(chi2.isf(1.0 - cl, df=1)) / 2.0

    def nll(mu):
        x = side * (mu - c) / w  # flat, then hills of height 1.5 thresholds, then a rise
        if x <= 0.0:
            return -7.0
        if x <= n:
            return -7.0 + half * 1.5 * math.sin(math.pi * x) ** 2
        return -7.0 + half * 1.5 * (x - n) ** 2

    k = make_model(v)
    k.cls.likelihood = lambda self, poi_test=1.0, **kw: nll(poi_test)
    k.cls.maximize_likelihood = lambda self, **kw: (c, nll(c))
    k.cls.sigma_mu = lambda self, poi_test, **kw: (n + 3.0) * w / 6.0
    out = v.ok("call", k.model.chi2_test, confidence_level=cl, limit_type=kind,
               allow_negative_signal=True, n_scan=801)
    s = math.asin(math.sqrt(2.0 / 3.0)) / math.pi
    xs = sorted([i + s for i in range(n)] + [i + 1 - s for i in range(n)] + [
        n + math.sqrt(2.0 / 3.0)])
    want = sorted(c + side * w * x for x in xs)
    near = lambda a, b: abs(a - b) <= 1e-3 * (1.0 + abs(b))
    if kind == "two-sided":
        end = out[1] if side > 0 else out[0]
        v.ensure("one value per side", len(out) == 2)
        v.ensure("the outermost crossing ends the interval", near(
            end, want[-1] if side > 0 else want[0]), [out, want])
        other = out[0] if side > 0 else out[1]
        v.ensure("the flat side ends at the wall or nowhere",
                 math.isnan(other) or abs(other) >= 1e5, other)
    else:
        v.ensure("every crossing of this side, ascending", len(out) == len(want) and all(
            near(a, b) for a, b in zip(out, want)), [out, want])
