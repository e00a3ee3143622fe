"""Axioms for the external mathematics.  Each entry is an assumption, listed in the evidence."""

import z3

from . import core

AXIOM_TEXT = {
    "sqrt": "sqrt: for a>=0, r>=0 and r*r=a; strictly increasing",
    "Phi": "scipy.stats.norm.cdf = Phi: values in (0,1), strictly increasing, Phi(0)=1/2, "
           "Phi(-x)=1-Phi(x), Phi(a-s)/Phi(a) increasing in a for s>=0 (log-concavity)",
    "exp": "exp: positive, strictly increasing, exp(0)=1",
    "log": "log: strictly increasing on (0,inf), log(1)=0",
}


def ax_sqrt(args, r, prev):
    (a,) = args
    yield z3.Implies(a >= 0, z3.And(r >= 0, r * r == a))
    yield z3.Implies(a > 0, r > 0)
    yield z3.Implies(a == 0, r == 0)
    for (b,), s in prev:
        yield z3.Implies(z3.And(a >= 0, b >= 0), z3.And((a < b) == (r < s), (a == b) == (r == s)))


def ax_phi(args, r, prev):
    (a,) = args
    if z3.is_rational_value(a):
        x = float(a.as_fraction())
        if abs(x) < 30:
            from scipy.stats import norm

            p = float(norm.cdf(x))
            if x != 0.0:
                yield z3.And(r > core.q(p * (1 - 1e-12)), r < core.q(p * (1 + 1e-12)))
            else:
                yield r == z3.Q(1, 2)
    yield z3.And(r > 0, r < 1)
    yield (a < 0) == (r < z3.Q(1, 2))
    yield (a > 0) == (r > z3.Q(1, 2))
    for (b,), s in prev:
        yield (a < b) == (r < s)
        yield (a == b) == (r == s)
        yield (a == -b) == (r + s == 1)


def ax_exp(args, r, prev):
    (a,) = args
    yield r > 0
    yield (a < 0) == (r < 1)
    yield (a > 0) == (r > 1)
    for (b,), s in prev:
        yield (a < b) == (r < s)
        yield (a == b) == (r == s)


def ax_log(args, r, prev):
    (a,) = args
    yield z3.Implies(a > 0, z3.And((a < 1) == (r < 0), (a > 1) == (r > 0)))
    for (b,), s in prev:
        yield z3.Implies(z3.And(a > 0, b > 0), z3.And((a < b) == (r < s), (a == b) == (r == s)))


def install(shared):
    shared.axioms.update({"sqrt": ax_sqrt, "Phi": ax_phi, "exp": ax_exp, "log": ax_log})
