"""C16: correlation/covariance conversions and the merging of bins."""

import numpy as np
import z3

from contracts.c15 import objects
from pyvc.harness import contract

HF = "spey.helper_functions"


def root(v, x):
    """Facts on the square root of x > 0."""
    r = v.tsqrt(x)
    v.assume(v.And(x > 0.0, r > 0.0, v.eq(r * r, x)))


def positive_diagonal(v, name, n):
    return v.matrix(name, n, symmetric=True, posdiag=True)


@contract("C16", functions=[f"{HF}.correlation_to_covariance"])
def to_covariance(v):
    """Each entry is the correlation times both standard deviations."""
    n = v.length("bins", lo=1)
    rho = v.matrix("correlation", n)
    sig = v.array("standard deviations", n, lo=0.0)
    r = v.ok("call", v.module(HF).correlation_to_covariance, rho, sig)
    v.ensure("square", v.And(v.eq(r.shape[0], n), v.eq(r.shape[1], n)))
    i, j = v.fresh_index(n), v.fresh_index(n)
    v.ensure_eq("entry", v.at(r, (i, j)), v.at(rho, (i, j)) * v.at(sig, i) * v.at(sig, j))


@contract("C16", functions=[f"{HF}.covariance_to_correlation"])
def to_correlation(v):
    """Each entry is the covariance over both standard deviations; the diagonal is one."""
    n = v.length("bins", lo=1)
    cov = positive_diagonal(v, "covariance", n)
    r = v.ok("call", v.module(HF).covariance_to_correlation, cov)
    v.ensure("square", v.And(v.eq(r.shape[0], n), v.eq(r.shape[1], n)))
    i, j = v.fresh_index(n), v.fresh_index(n)
    a, b = v.at(cov, (i, i)), v.at(cov, (j, j))
    sa, sb = v.tsqrt(a), v.tsqrt(b)
    if v.symbolic:
        root(v, a)
        root(v, b)
    v.ensure_eq("entry", v.at(r, (i, j)) * sa * sb, v.at(cov, (i, j)))
    v.ensure_eq("diagonal", v.at(r, (i, i)), 1.0)


@contract("C16", functions=[f"{HF}.correlation_to_covariance", f"{HF}.covariance_to_correlation"])
def there(v):
    """A covariance is recovered from its correlations and standard deviations."""
    n = v.length("bins", lo=1)
    m = v.module(HF)
    cov = positive_diagonal(v, "covariance", n)
    rho = v.ok("to correlation", m.covariance_to_correlation, cov)
    sig = v.vector(n, lambda k: v.tsqrt(v.at(cov, (k, k))))
    back = v.ok("to covariance", m.correlation_to_covariance, rho, sig)
    i, j = v.fresh_index(n), v.fresh_index(n)
    if v.symbolic:
        for k in (i, j):
            root(v, v.at(cov, (k, k)))
    v.ensure_eq("covariance", v.at(back, (i, j)), v.at(cov, (i, j)))


@contract("C16", functions=[f"{HF}.correlation_to_covariance", f"{HF}.covariance_to_correlation"])
def back(v):
    """Correlations are recovered from the covariance they give."""
    n = v.length("bins", lo=1)
    m = v.module(HF)
    sig = v.array("standard deviations", n, lo=0.01, hi=1000.0)
    c = positive_diagonal(v, "matrix", n)
    if v.symbolic:
        k = z3.Int("rho_k")
        v.c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n.e), c.elt(k, k) == 1)))
        rho = c
    else:
        rho = c / np.sqrt(np.outer(np.diag(c), np.diag(c)))
    cov = v.ok("to covariance", m.correlation_to_covariance, rho, sig)
    r = v.ok("to correlation", m.covariance_to_correlation, cov)
    i, j = v.fresh_index(n), v.fresh_index(n)
    if v.symbolic:
        for k in (i, j):
            v.assume(v.eq(v.at(rho, (k, k)), 1.0))
            root(v, v.at(cov, (k, k)))
            s = v.tsqrt(v.at(cov, (k, k)))
            v.assume(v.at(sig, k) > 0.0)
            v.ensure("standard deviation", v.eq(s, v.at(sig, k)))
            v.assume(v.eq(s, v.at(sig, k)))
    v.ensure_eq("correlation", v.at(r, (i, j)), v.at(rho, (i, j)))


def groups_of(v, n):
    """Disjoint groups of distinct bins in any order, not necessarily all of them."""
    left, groups = list(range(n)), []
    while left and v.boolean(f"another group {len(groups)}"):
        g = []
        while left and (not g or v.boolean(f"larger group {len(groups)} {len(g)}")):
            g.append(left.pop(v.choice(f"bin {len(groups)} {len(g)} of {len(left)}",
                                       list(range(len(left))))))
        groups.append(g)
    return groups


class Histogram:
    def __init__(self, v, n):
        one = lambda name: [v.real(f"{name} {i}") for i in range(n)]
        self.b, self.d, self.s = one("background"), one("data"), one("signal")
        self.c = [[v.real(f"covariance {i} {j}") for j in range(n)] for i in range(n)]
        if v.symbolic:
            self.args = objects(self.b), objects(self.d), objects(self.c)
            self.signal = objects(self.s)
            return
        dt = {"real": float, "wide": np.int64, "narrow": np.uint8}
        x = []
        for k in "bdcs":  # counts can be stored as integers
            t = dt[v.choice(f"numbers of {k}", ["real", "real", *dt])]
            y = np.array(getattr(self, k), dtype=float)
            x.append(y if t is float else (np.abs(y) * 40 % 255).astype(t))
            setattr(self, k, x[-1].astype(float).tolist())
        self.args, self.signal = tuple(x[:3]), x[3]


@contract("C16", functions=[f"{HF}.merge_correlated_bins"], bounded="up to four bins, every grouping")
def merge(v):
    """Merged bins hold the sums of their members; every bin ends up in exactly one of them."""
    n = v.choice("bins", [1, 2, 3, 4] if v.symbolic else [1, 2, 3, 4, 5, 6])
    groups = groups_of(v, n)
    h = Histogram(v, n)
    signal, indices = v.boolean("with signal"), v.boolean("with indices")
    given = [list(g) for g in groups]
    r = v.ok("merge", v.module(HF).merge_correlated_bins, *h.args, groups,
             signal_yields=h.signal if signal else None, return_group_indices=indices)
    v.ensure("the groups of the caller are unchanged", groups == given)
    full = given + [[i] for i in range(n) if not any(i in g for g in given)]
    v.ensure("results", set(r) == {"background_yields", "data", "covariance_matrix"}
             | ({"signal_yields"} if signal else set()) | ({"group_indices"} if indices else set()))
    if indices:
        v.ensure("group indices", [list(map(int, g)) for g in r["group_indices"]] == full)
    m = len(full)
    for name, x in [("background_yields", h.b), ("data", h.d)] + (
            [("signal_yields", h.s)] if signal else []):
        v.ensure(f"size of {name}", len(r[name]) == m)
        for a, g in enumerate(full):
            v.near(name, r[name][a], total(x[i] for i in g), scale=total(abs(x[i]) for i in g)
                   if not v.symbolic else 1.0)
    c = r["covariance_matrix"]
    v.ensure("shape of the covariance", c.shape == (m, m))
    for a, g in enumerate(full):
        for b, k in enumerate(full):
            v.near("covariance", c[a, b], total(h.c[i][j] for i in g for j in k),
                   scale=total(abs(h.c[i][j]) for i in g for j in k) if not v.symbolic else 1.0)


def total(xs):
    t = 0.0
    for x in xs:
        t = t + x
    return t


@contract("C16", functions=[f"{HF}.merge_correlated_bins"])
def refused(v):
    """Overlapping groups, bins that do not exist and inputs of different lengths are refused."""
    n = v.choice("bins", [2, 3])
    h = Histogram(v, n)
    b, d, c = h.args
    s, groups = h.signal, [[0, 1]]
    what = v.choice("what", ["overlap", "twice", "unknown", "negative", "data", "background", "covariance",
                             "signal", "square"])
    if what == "overlap":
        groups = [[0, 1], [n - 1, 0]]
    elif what == "twice":
        groups = [[1, 1]]
    elif what == "unknown":
        groups = [[0, n]]
    elif what == "negative":
        groups = [[0, -v.choice("which", list(range(1, n + 2)))]]
    elif what == "data":
        d = d[:-1]
    elif what == "background":
        b = b[1:]
    elif what == "covariance":
        c = c[1:, 1:]
    elif what == "signal":
        s = s[:-1]
    else:
        c = c[:, :-1]
    o = v.outcome(v.module(HF).merge_correlated_bins, b, d, c, groups, s)
    v.ensure("refused", o.raised("AssertionError"), o)
