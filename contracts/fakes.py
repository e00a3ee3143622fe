"""Stand-ins for callees that are known only by their contract (arbitrary functions)."""

import types

HB = "spey.base.hypotest_base"
STAT_TAG = {"qmu": "q", "q": "q", "qtilde": "qtilde", "qmutilde": "qtilde", "q0": "q0", None: None}


def clean(kw):
    """Keyword arguments that carry information (defaults that mean 'not given' are dropped)."""
    return {k: x for k, x in kw.items() if x is not None and x != {} or isinstance(x, bool)}


def poi_args(poi):
    """(tag, numbers) of a parameter-of-interest argument."""
    if isinstance(poi, dict):
        return "{" + ",".join(f"{k}" for k in sorted(poi, key=str)) + "}", [
            poi[k] for k in sorted(poi, key=str)]
    return "", [poi]


def make_model(v, alive=True, available=(True, True, True), ntoys=2, samplers=None, extra=None,
               np64=True):
    """A hypothesis-testing model whose likelihoods are arbitrary functions of their arguments."""
    H = v.module(HB)
    nll, mle, mle_nll = v.func("nll", np64=np64), v.func("muhat", np64=np64), v.func(
        "minnll", np64=np64)
    anll, amle, amle_nll = v.func("asimov_nll", np64=np64), v.func("asimov_muhat", np64=np64), \
        v.func("asimov_minnll", np64=np64)
    calls = []

    def L(poi, expected, data=None, **kw):
        t, nums = poi_args(poi)
        return nll(*nums, t, f"E={expected}", *([] if data is None else [data]), **clean(kw))

    def ML(expected, allow_negative_signal=True, data=None, **kw):
        a = (f"E={expected}", f"neg={bool(allow_negative_signal)}",
             *([] if data is None else [data]))
        return mle(*a, **clean(kw)), mle_nll(*a, **clean(kw))

    def AL(poi, expected, stat, **kw):
        t, nums = poi_args(poi)
        return anll(*nums, t, f"E={expected}", f"S={STAT_TAG.get(stat, stat)}", **clean(kw))

    def AML(expected, stat, **kw):
        a = (f"E={expected}", f"S={STAT_TAG.get(stat, stat)}")
        return amle(*a, **clean(kw)), amle_nll(*a, **clean(kw))

    class Model(H.HypothesisTestingBase):
        @property
        def is_alive(self):
            return alive

        @property
        def is_asymptotic_calculator_available(self):
            return available[0]

        @property
        def is_toy_calculator_available(self):
            return available[1]

        @property
        def is_chi_square_calculator_available(self):
            return available[2]

        def likelihood(self, poi_test=1.0, expected="observed", return_nll=True, data=None,
                       return_parameters=False, **kw):
            calls.append(("likelihood", poi_test))
            x = L(poi_test, expected, data, **kw)
            assert return_nll and not return_parameters, "the stand-in only returns nll"
            return x

        def maximize_likelihood(self, return_nll=True, expected="observed",
                                allow_negative_signal=True, data=None, **kw):
            calls.append(("maximize_likelihood", allow_negative_signal))
            assert return_nll, "the stand-in only returns nll"
            return ML(expected, allow_negative_signal, data, **kw)

        def asimov_likelihood(self, poi_test=1.0, expected="observed", return_nll=True,
                              test_statistics="qtilde", **kw):
            assert return_nll, "the stand-in only returns nll"
            return AL(poi_test, expected, test_statistics, **kw)

        def maximize_asimov_likelihood(self, return_nll=True, expected="observed",
                                       test_statistics="qtilde", **kw):
            assert return_nll, "the stand-in only returns nll"
            return AML(expected, test_statistics, **kw)

        def fixed_poi_sampler(self, poi_test, size=None, expected="observed", **kw):
            calls.append(("sampler", poi_test, size, f"{expected}", clean(kw)))
            return samplers(poi_test, size)

    for k, f in (extra or {}).items():
        setattr(Model, k, f)
    m = Model(ntoys=ntoys)
    return types.SimpleNamespace(model=m, L=L, ML=ML, AL=AL, AML=AML, calls=calls, cls=Model)
