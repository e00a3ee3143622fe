"""C18: a combination is an ordered collection of distinct models; what it offers follows from them."""

import numpy as np

from pyvc.harness import contract

UC = "spey.combiner.uncorrelated_statistics_combiner"
CLS = f"{UC}.UnCorrStatisticsCombiner"
SM = "spey.interface.statistical_model"
NAMES = ["ana", "bob", "cat"]
LIKE = [["ana", "Ana", "ana "], ["sr-1", "sr-10", "sr"], ["0", "1", "-1"], ["", "None", "a"]]


def renamed(v, *models):
    """The names of this run: ordinary ones, or distinct ones that look alike."""
    NAMES[:] = v.choice("names", [["ana", "bob", "cat"], *LIKE])
    BY.update(zip(["ana", "bob", "cat"], NAMES))


BY = {}


def model_class(v):
    S = v.module(SM).StatisticalModel
    MC = v.module("spey.base.model_config").ModelConfig

    class Model(S):
        """A model known by its name, tag and what it offers."""

        def __init__(self, name, tag="", **offer):
            self.analysis, self.tag, self.offer = name, tag, offer

        @property
        def backend(self):
            lo = self.offer["lo"]

            class Backend:
                def config(self, *a, **k):
                    return MC(0, lo, [1.0], [(lo, 10.0)])

            return Backend()

        @property
        def s95exp(self):
            return self.offer["s95"]

        @property
        def is_alive(self):
            return self.offer["alive"]

        @property
        def is_asymptotic_calculator_available(self):
            return self.offer["asymptotic"]

        @property
        def is_chi_square_calculator_available(self):
            return self.offer["chi_square"]

        @property
        def is_toy_calculator_available(self):
            return self.offer["toy"]

    return Model


def same(a, b):
    return (a.analysis, a.tag) == (b.analysis, b.tag)


def check_view(v, comb, view):
    """Everything observable about the collection agrees with the list ``view`` of models."""
    n = len(view)
    seq = lambda x: len(x) == n and all(same(p, q) for p, q in zip(x, view))
    v.ensure("number of models", len(comb) == n)
    v.ensure("names in order", list(comb.analyses) == [m.analysis for m in view])
    v.ensure("iteration in order", seq(list(comb)))
    v.ensure("models in order", seq(comb.statistical_models))
    items = list(comb.items())
    v.ensure("items in order", [k for k, _ in items] == [m.analysis for m in view]
             and seq([m for _, m in items]))
    for i in range(-n, n):
        o = v.outcome(lambda: comb[i])
        v.ensure("by position", o.ok and same(o.value, view[i]), o)
    for i in (n, n + 3, -n - 1, -n - 4):
        o = v.outcome(lambda: comb[i])
        v.ensure("positions out of range are refused", o.raised("AnalysisQueryError"), o)
    for name in NAMES + ["ANA", "sr-", None, (NAMES[0],)]:
        o = v.outcome(lambda: comb[name])
        hit = [m for m in view if m.analysis == name]
        if hit:
            v.ensure("by name", o.ok and same(o.value, hit[0]), o)
        else:
            v.ensure("unknown names are refused", o.raised("AnalysisQueryError"), o)
    for s in (slice(0, 2), slice(None, None, -1), slice(-1, None)):
        o = v.outcome(lambda: comb[s])
        w = view[s]
        v.ensure("by slice", o.ok and len(o.value) == len(w)
                 and all(same(p, q) for p, q in zip(o.value, w)), o)


def step(v, k, Model, comb, view, wrong):
    """One operation and its effect on the view; returns the combination to go on with."""
    C = v.module(UC).UnCorrStatisticsCombiner
    op = v.choice(f"operation {k}", ["append", "append wrong type", "remove", "@ model", "@ combination",
                                     "@ wrong type", "once more"])
    if op == "append":
        m = Model(v.choice(f"name {k}", NAMES), f"step {k}")
        o = v.outcome(comb.append, m)
        if m.analysis in [x.analysis for x in view]:
            v.ensure("a second model of the same name is refused", o.raised("AnalysisQueryError"), o)
        else:
            v.ensure("appended", o.ok, o)
            view.append(m)
    elif op == "once more":
        how = v.choice(f"how {k}", ["append", "@ model", "@ combination", "@ itself"])
        own = view[-1] if view else Model(NAMES[0], f"step {k}")
        new = Model(BY["cat"], f"step {k}")
        rhs = comb if how == "@ itself" else own
        if how == "@ combination":
            rhs = C(*([own] if own.analysis == new.analysis else [new, own]))
        o = v.outcome(comb.append, rhs) if how == "append" else v.outcome(lambda: comb @ rhs)
        if view:
            v.ensure("the same model once more is refused", o.raised("AnalysisQueryError"), o)
        else:
            v.ensure("accepted", o.ok, o)
            view += [own] if how == "append" else []
    elif op == "append wrong type":
        o = v.outcome(comb.append, wrong)
        v.ensure("only models are accepted", o.raised("TypeError"), o)
    elif op == "remove":
        name = v.choice(f"name {k}", NAMES + [0, None])
        o = v.outcome(comb.remove, name)
        if name in [x.analysis for x in view]:
            v.ensure("removed", o.ok, o)
            view[:] = [x for x in view if x.analysis != name]
        else:
            v.ensure("unknown names are refused", o.raised("AnalysisQueryError"), o)
    elif op == "@ wrong type":
        o = v.outcome(lambda: comb @ wrong)
        v.ensure("only models and combinations combine", o.raised("ValueError") or o.raised("TypeError"),
                 o)
    else:
        if op == "@ model":
            other = [Model(v.choice(f"name {k}", NAMES), f"step {k}")]
            rhs = other[0]
        else:
            names = v.choice(f"names {k}", [[], ["cat"], ["bob", "cat"]])
            other = [Model(BY[x], f"step {k}") for x in names]
            rhs = C(*other)
        o = v.outcome(lambda: comb @ rhs)
        if {m.analysis for m in other} & {m.analysis for m in view}:
            v.ensure("a second model of the same name is refused", o.raised("AnalysisQueryError"), o)
        else:
            v.ensure("combined", o.ok, o)
            if o.ok:
                check_view(v, comb, view)
                if op == "@ combination":
                    check_view(v, rhs, other)
                return o.value, view + other
    return comb, view


@contract("C18", functions=[f"{CLS}.append", f"{CLS}.remove", f"{CLS}.__getitem__",
                            f"{CLS}.__iter__", f"{CLS}.__len__", f"{CLS}.items",
                            f"{CLS}.analyses", f"{CLS}.statistical_models", f"{CLS}.__matmul__",
                            f"{CLS}.__init__"], max_paths=20000,
          bounded="histories of two operations from collections of up to three models")
def history(v):
    """After every history the collection is the list of models it was given, in order."""
    Model = model_class(v)
    renamed(v)
    view = [Model(BY[n], "initial") for n in v.choice("initial", [[], ["ana"], ["bob", "ana"],
                                                              ["cat", "bob", "ana"]])]
    given = list(view)
    comb = v.ok("combination", v.module(UC).UnCorrStatisticsCombiner, *given)
    wrong = v.choice("wrong", [NAMES[0], None])
    check_view(v, comb, view)
    for k in range(v.choice("length", [1, 2]) if not v.symbolic else 2):
        comb, view = step(v, k, Model, comb, view, wrong)
        check_view(v, comb, view)


@contract("C18", functions=[f"{CLS}.__init__", f"{CLS}.append"])
def construction(v):
    """Models given at construction obey the same rules."""
    Model = model_class(v)
    C = v.module(UC).UnCorrStatisticsCombiner
    renamed(v)
    names = [v.choice(f"name {i}", NAMES) for i in range(v.choice("number", [0, 1, 2, 3]))]
    o = v.outcome(C, *[Model(n, str(i)) for i, n in enumerate(names)])
    if len(set(names)) < len(names):
        v.ensure("a second model of the same name is refused", o.raised("AnalysisQueryError"), o)
    else:
        v.ensure("accepted", o.ok, o)
        check_view(v, o.value, [Model(n, str(i)) for i, n in enumerate(names)])
    o = v.outcome(C, *([Model("ana")] + [v.choice("wrong", [NAMES[1], 1, None])]))
    v.ensure("only models are accepted", o.raised("TypeError"), o)


@contract("C18", functions=[f"{CLS}.find_most_sensitive"],
          bounded="up to three models; expected limits arbitrary reals or infinite")
def most_sensitive(v):
    """The most sensitive model has the smallest expected excluded cross section."""
    Model = model_class(v)
    renamed(v)
    n = v.choice("number", [1, 2, 3])
    inf = v.choice("infinite", [None, 0, 1, 2])
    s = [np.float64("inf") if i == inf else v.real(f"s95 {i}", lo=0.0, np64=True)
         for i in range(n)]
    ms = [Model(NAMES[i], s95=s[i]) for i in range(n)]
    comb = v.ok("combination", v.module(UC).UnCorrStatisticsCombiner, *ms)
    best = v.ok("call", comb.find_most_sensitive)
    v.ensure("one of the models", best.analysis in NAMES[:n])
    k = NAMES.index(best.analysis)
    for i in range(n):
        if i == inf:
            continue
        v.ensure("no other model expects a smaller limit", k != inf)
        if k != inf:
            v.ensure("no other model expects a smaller limit", s[k] <= s[i])


@contract("C18", functions=[f"{CLS}.is_alive", f"{CLS}.is_asymptotic_calculator_available",
                            f"{CLS}.is_toy_calculator_available", f"{CLS}.minimum_poi",
                            f"{CLS}.is_chi_square_calculator_available"],
          bounded="one to three models")
def offers(v):
    """Calculators need every model, signal needs one; the range is the common one."""
    Model = model_class(v)
    renamed(v)
    n = v.choice("number", [1, 2, 3])
    what = v.choice("what", ["alive", "asymptotic", "chi_square", "toy", "both", "lo"])
    ms = []
    for i in range(n):
        on = v.boolean(f"offered by {i}")
        both = v.boolean(f"also {i}") if what == "both" else True
        ms.append(Model(NAMES[i], lo=v.real(f"lo {i}"), alive=on if what in ("alive", "lo") else True,
                        asymptotic=on if what in ("asymptotic", "both") else True,
                        chi_square=both if what == "both" else on if what == "chi_square" else True,
                        toy=on if what == "toy" else True))
    comb = v.ok("combination", v.module(UC).UnCorrStatisticsCombiner, *ms)
    if what == "lo":
        m = v.ok("call", lambda: comb.minimum_poi)
        v.ensure("allowed by every model", v.And(*[m >= x.offer["lo"] for x in ms]))
        v.ensure("no smaller than needed", v.Or(*[m == x.offer["lo"] for x in ms]))
        return
    v.ensure("signal in any model", bool(comb.is_alive) == any(x.offer["alive"] for x in ms))
    asy = all(x.offer["asymptotic"] for x in ms)
    chi = all(x.offer["chi_square"] for x in ms)
    v.ensure("asymptotic needs all", bool(comb.is_asymptotic_calculator_available) == asy)
    v.ensure("chi-square needs all", bool(comb.is_chi_square_calculator_available) == chi)
    v.ensure("no toys for combinations", not comb.is_toy_calculator_available)


@contract("C18", functions=[f"{SM}.StatisticalModel.combine", f"{SM}.StatisticalModel.__matmul__"])
def backend_combination(v):
    """Models combine through their back end where it can; otherwise that is reported."""
    B = v.module("spey.base.backend_base").BackendBase
    S = v.module(SM).StatisticalModel
    kind = v.choice("kind", ["combines", "default", "not a back end", "other error"])
    got = []

    class Backend(B):
        name, version, author, spey_requires = "fake", "1.0.0", "nobody", ">=0.0.1"

        def __init__(self, tag):
            self.tag = tag

        def config(self, *a, **k):
            return None

        def get_logpdf_func(self, *a, **k):
            return None

    if kind != "default":
        def combine(self, other, **kw):
            got.append((self.tag, other.tag, kw))
            if kind == "other error":
                raise RuntimeError("broken")
            return Backend("both") if kind == "combines" else "text"

        Backend.combine = combine
    a, b = S(Backend("left"), "ana"), S(Backend("right"), "bob")
    how = v.choice("how", ["combine", "@", "with options"])
    o = v.outcome(lambda: a @ b if how == "@" else a.combine(b, extra=3) if how == "with options"
                  else a.combine(b))
    if kind == "combines":
        v.ensure("combined", o.ok, o)
        v.ensure("a model of the combined back end", isinstance(o.value, S)
                 and o.value.backend.tag == "both")
        v.ensure("asked once with both and the options", got == [
            ("left", "right", {"extra": 3} if how == "with options" else {})])
        v.ensure("named after both", "ana" in o.value.analysis and "bob" in o.value.analysis)
    elif kind == "default":
        v.ensure("not available", o.raised("CombinerNotAvailable"), o)
    else:
        v.ensure("refused", not o.ok and not o.raised("CombinerNotAvailable"), o)
    v.ensure("operands unchanged", a.backend.tag == "left" and b.backend.tag == "right"
             and a.analysis == "ana" and b.analysis == "bob")
