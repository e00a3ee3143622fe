"""Contract harnesses run in two modes over the same specification text.

* ``Sym``: inputs are unconstrained symbols (restricted only by ``assume``), the code is the
  mechanically extracted repository code, ``ensure`` generates a proof obligation per path;
* ``Con``: inputs are concrete (taken from a counterexample, a path model or a seeded generator),
  the code is the unmodified repository package, ``ensure`` evaluates the contract at run time.
"""

import hashlib
import importlib
import math
import os
import random
import sys
import traceback

import numpy as np
import z3

from . import core
from . import values as V
from .arrays import SymArr, as_sym, dim, dim_e, forall, mk_sum
from .core import PathEnd, Unsupported, ctx
from .values import Sym, SymBool, SymInt, SymReal, is_sym, mkbool, mkreal, real_expr, bool_expr

REGISTRY = {}
_ABSENT = object()
PROXY_ERRORS = (TypeError, AttributeError, LookupError, NameError, ImportError, ValueError,
                NotImplementedError)


class Contract:
    def __init__(self, fn, prop, functions, assumptions, symbolic, concrete, max_paths, samples,
                 prove_timeout, doc, weight=1.0, budget=None, bounded=""):
        self.fn, self.prop, self.name = fn, prop, fn.__name__
        self.functions, self.assumptions = functions, assumptions
        self.symbolic, self.concrete = symbolic, concrete
        self.max_paths, self.samples, self.prove_timeout = max_paths, samples, prove_timeout
        self.doc = doc
        self.weight = weight
        self.budget = budget
        self.bounded = bounded


def contract(prop, functions=(), assumptions=(), symbolic=True, concrete=True, max_paths=3000,
             samples=200, prove_timeout=8000, budget=None, bounded=""):
    def deco(fn):
        for p in ([prop] if isinstance(prop, str) else prop):
            REGISTRY.setdefault(p, []).append(
                Contract(fn, p, list(functions), list(assumptions), symbolic, concrete, max_paths,
                         samples, prove_timeout, (fn.__doc__ or "").strip(), budget=budget,
                         bounded=bounded))
        return fn

    return deco


class Violation(Exception):
    def __init__(self, label, detail=""):
        super().__init__(f"{label}: {detail}")
        self.label, self.detail = label, detail


class Skip(Exception):
    pass


class Outcome:
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    def raised(self, name):
        """True when an exception of (a subclass of) that class name was raised."""
        return self.exc is not None and any(
            k.__name__ == name for k in type(self.exc).__mro__)

    def __repr__(self):
        return f"returned {self.value!r}" if self.ok else f"raised {type(self.exc).__name__}({self.exc})"


def _tag(x):
    """Stable text for the non-numeric part of an uninterpreted application."""
    if x is None or isinstance(x, (str, bool)):
        return repr(x)
    if isinstance(x, (int, float, np.number)):
        return repr(float(x))
    if isinstance(x, Token):
        return f"<{x.name}>"
    if isinstance(x, dict):
        return "{" + ",".join(f"{k}:{_tag(v)}" for k, v in sorted(x.items(), key=str)) + "}"
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(_tag(v) for v in x) + "]"
    nm = getattr(x, "name", None)
    if type(x).__name__ == "ExpectationType":
        return f"ET.{nm}"
    return f"{type(x).__name__}"


class Token:
    """An opaque value (data set, parameter vector, ...) compared by identity."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<{self.name}>"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class Base:
    def outcome(self, f, *a, **k):
        try:
            return Outcome(f(*a, **k))
        except (Violation, Skip, AssertionError) as e:
            if isinstance(e, AssertionError):
                return Outcome(exc=e)
            raise
        except Exception as e:  # noqa: BLE001 - the outcome is the observation
            return Outcome(exc=e)

    def ok(self, label, f, *a, **k):
        """Call that must not raise."""
        o = self.outcome(f, *a, **k)
        self.ensure(label + ": no exception", o.ok, o)
        if not o.ok:
            raise PathEnd("exception") if self.symbolic else Skip()
        return o.value

    def boolean(self, name):
        return self.choice(name, [False, True])


class SymMode(Base):
    symbolic = True

    def __init__(self, c, loader):
        self.c = c
        self.loader = loader
        self.undo = []
        self.stubbed = []

    def module(self, name):
        return self.loader.module(name)

    def outcome(self, f, *a, **k):
        o = super().outcome(f, *a, **k)
        if o.exc is not None and isinstance(o.exc, PROXY_ERRORS):
            tb = traceback.extract_tb(o.exc.__traceback__)
            at = [f"{os.path.basename(t.filename)}:{t.lineno}" for t in tb][-2:]
            self.c.taint = self.c.taint or f"{type(o.exc).__name__}: {o.exc} at {at}"
        return o

    def callee(self, module, name, stub):
        """Check the caller against the callee's contract: ``module.name`` becomes ``stub``."""
        m = module if not isinstance(module, str) else self.module(module)
        if hasattr(m, name):
            self.undo.append((m, name, m.__dict__.get(name, _ABSENT)))
            setattr(m, name, stub)
            return True
        return False

    def external(self, name, stub):
        """Assumed contract of a dependency, e.g. ``scipy.optimize.toms748``."""
        from .loader import STUBS

        STUBS[name] = stub
        self.stubbed.append(name)

    patched = external  # in concrete runs too: the real code with the dependency replaced

    def close(self):
        from .loader import STUBS

        for name in self.stubbed:
            STUBS.pop(name, None)
        self.stubbed = []
        for m, name, old in reversed(self.undo):
            if old is _ABSENT:
                delattr(m, name)
            else:
                setattr(m, name, old)
        self.undo = []

    # inputs -----------------------------------------------------------------------
    def real(self, name, lo=None, hi=None, np64=False, lo_open=False, hi_open=False, pool=None):
        e = z3.Real(name)
        self.c.inputs[name] = lambda m, e=e: _frac(m.eval(e, model_completion=True))
        if lo is not None:
            self.c.assume(e > core.q(lo) if lo_open else e >= core.q(lo))
        if hi is not None:
            self.c.assume(e < core.q(hi) if hi_open else e <= core.q(hi))
        return SymReal(e, np64)

    def int(self, name, lo=None, hi=None):
        e = z3.Int(name)
        self.c.inputs[name] = lambda m, e=e: m.eval(e, model_completion=True).as_long()
        if lo is not None:
            self.c.assume(e >= lo)
        if hi is not None:
            self.c.assume(e <= hi)
        return SymInt(e)

    def length(self, name, lo=1):
        return self.int(name, lo=lo)

    def choice(self, name, options):
        options = list(options)
        k = self.c.choose(len(options), name)
        self.c.inputs[name] = lambda m, k=k: {"index": k}
        return options[k]

    def token(self, name):
        return Token(name)

    def func(self, name, np64=False, extra_axioms=None):
        """Uninterpreted real function of any numeric arguments (tagged by the other ones)."""
        c = self.c
        tables = {}

        def f(*args, **kw):
            nums, tags = [], []
            for a in args:
                if isinstance(a, (SymReal, SymInt, float, int, np.number)) and not isinstance(a, bool):
                    if not is_sym(a) and not math.isfinite(a):
                        tags.append(repr(float(a)))
                    else:
                        nums.append(real_expr(a))
                elif isinstance(a, np.ndarray):
                    for v in a.flat:
                        nums.append(real_expr(v))
                    tags.append("arr")
                else:
                    tags.append(_tag(a))
            for k in sorted(kw):
                if isinstance(kw[k], (SymReal, SymInt)):
                    nums.append(real_expr(kw[k]))
                    tags.append(f"{k}=#")
                else:
                    tags.append(f"{k}={_tag(kw[k])}")
            uf = name + ("" if not tags else "[" + ";".join(tags) + "]")
            if not nums:
                nums = [z3.RealVal(0)]
            r = c.app(uf, nums, axioms=extra_axioms)
            tables.setdefault(uf, []).append((nums, r))
            return SymReal(r, np64)

        def conc(m):
            out = {}
            for uf, rows in tables.items():
                out[uf] = [
                    ([_frac(m.eval(x, model_completion=True)) for x in nums],
                     _frac(m.eval(r, model_completion=True)))
                    for nums, r in rows
                ]
            return out

        c.inputs[name] = conc
        f.__pv_name__ = name
        return f

    def array(self, name, n, lo=None, lo_open=False, hi=None, integer=False):
        f = self.c.shared.func(name, [z3.IntSort()])
        n = dim(n)
        arr = SymArr((n,), lambda i: f(i))
        for b, op in ((lo, "lo"), (hi, "hi")):
            if b is not None:
                bb = core.q(b)
                body = (lambda i: f(i) > bb if lo_open else f(i) >= bb) if op == "lo" else (
                    lambda i: f(i) <= bb)
                self.c.assume(self._forall_pat(n, body, f))
        self.c.inputs[name] = lambda m: [
            _frac(m.eval(f(z3.IntVal(i)), model_completion=True))
            for i in range(_len_of(m, n))]
        return arr

    def _forall_pat(self, n, body, f):
        k = self.c.fresh("qi", "int")
        return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < dim_e(n)), body(k)), patterns=[f(k)])

    def matrix(self, name, n, m=None, symmetric=False, posdiag=False):
        m = n if m is None else m
        f = self.c.shared.func(name, [z3.IntSort(), z3.IntSort()])
        n, m_ = dim(n), dim(m)
        if symmetric:
            elt = lambda i, j: f(z3.If(i <= j, i, j), z3.If(i <= j, j, i))
        else:
            elt = lambda i, j: f(i, j)
        if posdiag:
            k = self.c.fresh("qi", "int")
            self.c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < dim_e(n)), f(k, k) > 0),
                                    patterns=[f(k, k)]))
        self.c.inputs[name] = lambda mod: [
            [_frac(mod.eval(elt(z3.IntVal(i), z3.IntVal(j)), model_completion=True))
             for j in range(_len_of(mod, m_))] for i in range(_len_of(mod, n))]
        return SymArr((n, m_), elt)

    # logic ------------------------------------------------------------------------
    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond:
                raise PathEnd("assume false")
            return
        self.c.assume(bool_expr(cond))

    def ensure(self, label, cond, info=None):
        if isinstance(cond, (bool, np.bool_)):
            cond = z3.BoolVal(bool(cond))
            self.c.prove(label, cond)
        else:
            self.c.prove(label, bool_expr(cond))
        if info is not None and self.c.obl[-1].status == "refuted":
            self.c.obl[-1].detail = repr(info)[:400]

    def ensure_eq(self, label, a, b, tol=1e-9):
        self.ensure(label, self.eq(a, b), None)
        if self.c.obl[-1].status == "refuted":
            self.c.obl[-1].detail = f"{_short(a)} != {_short(b)}"

    def eq(self, a, b, tol=None):
        a, b = _unwrap(a), _unwrap(b)
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)) or (
                isinstance(a, np.ndarray) and a.ndim) or (isinstance(b, np.ndarray) and b.ndim):
            if isinstance(a, SymArr) or isinstance(b, SymArr):
                return self.arr_eq(a, b)
            a, b = list(a), list(b)
            if len(a) != len(b):
                return False
            return self.And(*[self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, SymArr) or isinstance(b, SymArr):
            return self.arr_eq(a, b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (float, np.floating)) and not math.isfinite(x):
                if is_sym(y):
                    return False
                return (math.isnan(x) and isinstance(y, (float, np.floating)) and math.isnan(y)) \
                    or x == y
        if isinstance(a, (str, type(None), Token)) or isinstance(b, (str, type(None), Token)):
            return a is b or (isinstance(a, str) and a == b)
        return mkbool(real_expr(a) == real_expr(b))

    def eq_rel(self, a, b, rel=1e-9):
        return self.eq(a, b)

    def arr_eq(self, a, b):
        """Extensional equality at a fresh index (sound: proved for an arbitrary position)."""
        a, b = as_sym(a), as_sym(b)
        if a.ndim != b.ndim:
            return False
        ks = [self.c.fresh("ix", "int") for _ in a.dims]
        dims = z3.And(*[dim_e(x) == dim_e(y) for x, y in zip(a.dims, b.dims)])
        rng = z3.And(*[z3.And(k >= 0, k < dim_e(d)) for k, d in zip(ks, a.dims)])
        body = a.relt(*ks) == b.relt(*ks)
        return mkbool(z3.And(dims, z3.Implies(rng, body)))

    def holds(self, cond):
        """Case split inside a specification."""
        return cond if isinstance(cond, bool) else bool(cond)

    def If(self, c, a, b):
        if isinstance(c, (bool, np.bool_)):
            return a if c else b
        for v in (a, b):
            if not is_sym(v) and not (isinstance(v, (int, float)) and math.isfinite(v)):
                return a if bool(c) else b
        return mkreal(z3.If(bool_expr(c), real_expr(a), real_expr(b)), True)

    def And(self, *cs):
        return mkbool(z3.And(*[bool_expr(c) for c in cs])) if cs else True

    def Or(self, *cs):
        return mkbool(z3.Or(*[bool_expr(c) for c in cs])) if cs else False

    def Not(self, c):
        return mkbool(z3.Not(bool_expr(c)))

    def Implies(self, a, b):
        return mkbool(z3.Implies(bool_expr(a), bool_expr(b)))

    def ge(self, a, b, tol=None):
        return a >= b

    def le(self, a, b, tol=None):
        return a <= b

    # mathematics ------------------------------------------------------------------
    def max(self, a, b):
        return V.sym_max(a, b) if (is_sym(a) or is_sym(b)) else max(a, b)

    def min(self, a, b):
        return V.sym_min(a, b) if (is_sym(a) or is_sym(b)) else min(a, b)

    def abs(self, a):
        return abs(a)

    def sqrt(self, a):
        return V.sym_sqrt(a) if is_sym(a) else math.sqrt(a)

    def log(self, a):
        return V.sym_log(a) if is_sym(a) else math.log(a)

    def exp(self, a):
        return V.sym_exp(a) if is_sym(a) else math.exp(a)

    def Phi(self, a):
        return mkreal(self.c.app("Phi", [real_expr(a)]), True)

    def app(self, name, *args):
        return mkreal(self.c.app(name, [real_expr(a) for a in args]), True)

    def Sum(self, n, f):
        n = dim(n)
        return SymReal(mk_sum(n, lambda i: real_expr(f(SymInt(i)))), True)

    def at(self, arr, i):
        """Element of an array at a (bound) index, without bounds forks."""
        arr = as_sym(arr)
        i = i if isinstance(i, tuple) else (i,)
        return SymReal(arr.relt(*[V.int_expr(k) for k in i]), True)

    # term-level functions usable under Sum
    def tlog(self, x):
        f = self.c.shared.func("log", [z3.RealSort()])
        return SymReal(f(z3.simplify(real_expr(x))), True)

    def texp(self, x):
        f = self.c.shared.func("exp", [z3.RealSort()])
        return SymReal(f(z3.simplify(real_expr(x))), True)

    def tgammaln(self, x):
        f = self.c.shared.func("gammaln", [z3.RealSort()])
        return SymReal(f(z3.simplify(real_expr(x))), True)

    def tsqrt(self, x):
        f = self.c.shared.func("sqrt", [z3.RealSort()])
        return SymReal(f(z3.simplify(real_expr(x))), True)

    def cos(self, x):
        f = self.c.shared.func("cos", [z3.RealSort()])
        return SymReal(f(z3.simplify(real_expr(x))), True)

    def arctan(self, x):
        f = self.c.shared.func("arctan", [z3.RealSort()])
        return SymReal(f(z3.simplify(real_expr(x))), True)

    def tdiv(self, a, b):
        from .arrays import term_recip

        return SymReal(real_expr(a) * term_recip(real_expr(b)), True)

    def tclip(self, x, lo):
        e = real_expr(x)
        l = real_expr(lo)
        return SymReal(z3.If(e >= l, e, l), True)

    def tif(self, c, a, b):
        return SymReal(z3.If(bool_expr(c), real_expr(a), real_expr(b)), True)

    def vector(self, n, f):
        """The array of a given length whose i-th element is f(i) (specification side)."""
        return SymArr((n,), lambda i: real_expr(f(SymInt(i))))

    def table(self, n, m, f):
        return SymArr((n, m), lambda i, j: real_expr(f(SymInt(i), SymInt(j))))

    def inv(self, m):
        from .facade import opaque_matrix_fn

        return opaque_matrix_fn("inv")(as_sym(m))

    def logdet(self, m):
        from .facade import opaque_matrix_fn

        return opaque_matrix_fn("logdet", "scalar")(as_sym(m))

    def near(self, label, a, b, scale=1.0):
        """Equality up to rounding of constants, proportional to ``scale``."""
        d = a - b
        t = scale * 1e-9
        self.ensure(label, self.And(d <= t, d >= -t))
        if self.c.obl[-1].status == "refuted":
            self.c.obl[-1].detail = f"{_short(a)} != {_short(b)}"

    def forall_idx(self, arr, pred):
        """pred(i) at a fresh arbitrary position of arr (for obligations)."""
        arr = as_sym(arr)
        ks = [self.c.fresh("ix", "int") for _ in arr.dims]
        rng = z3.And(*[z3.And(k >= 0, k < dim_e(d)) for k, d in zip(ks, arr.dims)])
        return mkbool(z3.Implies(rng, bool_expr(pred(*[SymInt(k) for k in ks]))))

    def fresh_index(self, n):
        if isinstance(n, int) and 1 <= n <= 4:
            return self.c.choose(n, "ix")
        k = self.c.fresh("ix", "int")
        self.c.assume(z3.And(k >= 0, k < dim_e(dim(n))))
        return SymInt(k)


def _short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "..."


def _unwrap(x):
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return x.item()
    return x


def _len_of(m, n):
    if z3.is_expr(n):
        v = m.eval(n, model_completion=True).as_long()
        return max(0, min(v, 12))
    return n


def _frac(v):
    try:
        if z3.is_algebraic_value(v):
            v = v.approx(30)
        if z3.is_int_value(v):
            return float(v.as_long())
        fr = v.as_fraction()
        return float(fr)
    except Exception:
        return 0.0


class ConMode(Base):
    """Concrete mode; ``inputs`` (from the verifier) take precedence over the generator."""

    symbolic = False

    def __init__(self, rng, inputs=None):
        self.rng = rng
        self.inputs = inputs or {}
        self.used = {}
        self.undo = []
        self.evaluated = 0
        self.labels = {}

    def module(self, name):
        return importlib.import_module(name)

    def callee(self, module, name, stub):
        return False

    def external(self, name, stub):
        return False

    def patched(self, name, stub):
        mod, _, attr = name.rpartition(".")
        mod = importlib.import_module(mod)
        self.undo.append((mod, attr, getattr(mod, attr)))
        setattr(mod, attr, stub)

    def close(self):
        for m, name, old in reversed(self.undo):
            setattr(m, name, old)
        self.undo = []

    SPECIAL = [0.0, 1.0, -1.0, 0.5, 2.0, 1e-3, 10.0, -0.5, 3.0, 1e-8]

    def real(self, name, lo=None, hi=None, np64=False, lo_open=False, hi_open=False, pool=None):
        if name in self.inputs and self.inputs[name] is not None:
            x = float(self.inputs[name])
        else:
            r = self.rng
            for _ in range(100):
                k = r.random()
                if pool and k < 0.5:
                    x = r.choice(pool)
                elif k < 0.15:
                    x = r.choice(self.SPECIAL)
                elif k < 0.3 and self.used:
                    prev = [v for v in self.used.values() if isinstance(v, float)]
                    x = r.choice(prev) if prev else 0.0
                elif lo is not None and hi is not None:
                    x = r.uniform(lo, hi) if k < 0.9 else r.choice([lo, hi])
                elif lo is not None:
                    x = lo + abs(r.gauss(0, 1)) * 10 ** r.uniform(-2, 1.5)
                elif hi is not None:
                    x = hi - abs(r.gauss(0, 1)) * 10 ** r.uniform(-2, 1.5)
                else:
                    x = r.gauss(0, 1) * 10 ** r.uniform(-2, 1.5)
                if lo is not None and (x < lo or lo_open and x == lo):
                    continue
                if hi is not None and (x > hi or hi_open and x == hi):
                    continue
                break
            else:
                raise Skip()
        if lo is not None and (x < lo or (lo_open and x <= lo)):
            raise Skip()
        if hi is not None and (x > hi or (hi_open and x >= hi)):
            raise Skip()
        self.used[name] = float(x)
        return np.float64(x) if np64 else float(x)

    def int(self, name, lo=None, hi=None):
        if name in self.inputs and self.inputs[name] is not None:
            x = int(self.inputs[name])
        else:
            a = lo if lo is not None else -3
            b = hi if hi is not None else a + 5
            x = self.rng.randint(a, b)
        if (lo is not None and x < lo) or (hi is not None and x > hi):
            raise Skip()
        self.used[name] = x
        return x

    def length(self, name, lo=1):
        if name in self.inputs and self.inputs[name] is not None:
            x = int(self.inputs[name])
            if x > 12 or x < lo:
                raise Skip()
        else:
            x = self.rng.randint(lo, lo + 4)
        self.used[name] = x
        return x

    def choice(self, name, options):
        options = list(options)
        v = self.inputs.get(name)
        k = v["index"] if isinstance(v, dict) and "index" in v and v["index"] < len(options) \
            else self.rng.randrange(len(options))
        self.used[name] = {"index": k}
        return options[k]

    def token(self, name):
        return Token(name)

    def func(self, name, np64=False, extra_axioms=None):
        table = self.inputs.get(name) or {}
        seed = table.get("__seed") if isinstance(table, dict) else None
        if seed is None:
            seed = self.rng.getrandbits(32)
        rows_used = {"__seed": seed}
        rows_used.update({k: v for k, v in table.items() if k != "__seed"})
        self.used[name] = rows_used

        def f(*args, **kw):
            nums, tags = [], []
            for a in args:
                if isinstance(a, (float, int, np.number)) and not isinstance(a, bool):
                    if not math.isfinite(a):
                        tags.append(repr(float(a)))
                    else:
                        nums.append(float(a))
                elif isinstance(a, np.ndarray):
                    nums.extend(float(v) for v in a.flat)
                    tags.append("arr")
                else:
                    tags.append(_tag(a))
            for k in sorted(kw):
                tags.append(f"{k}={_tag(kw[k])}")
            uf = name + ("" if not tags else "[" + ";".join(tags) + "]")
            if not nums:
                nums = [0.0]
            for row, val in table.get(uf, []):
                if len(row) == len(nums) and all(
                        abs(x - y) <= 1e-9 * (1 + abs(x)) for x, y in zip(row, nums)):
                    return np.float64(val) if np64 else val
            h = hashlib.sha256(f"{seed}|{uf}".encode()).digest()
            rr = random.Random(h)
            c0, val = rr.gauss(-5, 3), 0.0
            for x in nums:
                a, b = rr.uniform(0.05, 2.0), rr.gauss(0.5, 1.0)
                val += -a * (x - b) ** 2
            val += c0
            return np.float64(val) if np64 else val

        f.__pv_name__ = name
        return f

    def array(self, name, n, lo=None, lo_open=False, hi=None, integer=False):
        if name in self.inputs and self.inputs[name] is not None:
            xs = [float(v) for v in self.inputs[name]]
            if len(xs) != n:
                raise Skip()
        else:
            xs = []
            for _ in range(n):
                for _t in range(50):
                    k = self.rng.random()
                    x = (self.rng.choice([0.0, 1.0, 2.0, 5.0]) if k < 0.15 else
                         abs(self.rng.gauss(0, 1)) * 10 ** self.rng.uniform(-1, 1.5)
                         if lo is not None else self.rng.gauss(0, 1) * 10 ** self.rng.uniform(-1, 1))
                    if integer:
                        x = float(round(x))
                    if (lo is None or x > lo or (x == lo and not lo_open)) and (hi is None or x <= hi):
                        break
                xs.append(x)
        for x in xs:
            if lo is not None and (x < lo or (lo_open and x == lo)) or (hi is not None and x > hi):
                raise Skip()
        self.used[name] = xs
        return np.array(xs, dtype=np.float64)

    def matrix(self, name, n, m=None, symmetric=False, posdiag=False):
        m = n if m is None else m
        if name in self.inputs and self.inputs[name] is not None:
            xs = np.array(self.inputs[name], dtype=float)
            if xs.shape != (n, m):
                raise Skip()
        else:
            r = np.random.default_rng(self.rng.getrandbits(32))
            xs = r.normal(size=(n, m))
            if symmetric:
                xs = xs @ xs.T + 0.3 * np.eye(n)
        if posdiag and not all(xs[i, i] > 0 for i in range(n)):
            raise Skip()
        if posdiag and symmetric:  # a covariance: invertible in floating point
            w = np.linalg.eigvalsh(xs)
            if not w[0] > 1e-8 * w[-1]:
                raise Skip()
        self.used[name] = xs.tolist()
        return xs

    # logic
    def assume(self, cond):
        if not bool(cond):
            raise Skip()

    def ensure(self, label, cond, info=None):
        self.evaluated += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        if not bool(cond):
            raise Violation(label, "" if info is None else repr(info)[:400])

    def ensure_eq(self, label, a, b, tol=1e-9):
        self.ensure(label, self.eq(a, b, tol), f"{_short(a)} != {_short(b)}")

    def eq(self, a, b, tol=1e-9):
        a, b = _unwrap(a), _unwrap(b)
        if isinstance(a, (str, type(None), Token)) or isinstance(b, (str, type(None), Token)):
            return a is b or (isinstance(a, str) and isinstance(b, str) and a == b)
        la = isinstance(a, (list, tuple, np.ndarray))
        lb = isinstance(b, (list, tuple, np.ndarray))
        if la or lb:
            if not (la and lb):
                return False
            a, b = list(a), list(b)
            return len(a) == len(b) and all(self.eq(x, y, tol) for x, y in zip(a, b))
        try:
            a, b = float(a), float(b)
        except Exception:
            return a == b
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= tol * (1.0 + abs(a) + abs(b))

    arr_eq = eq

    def eq_rel(self, a, b, rel=1e-9):
        """Equal to a relative accuracy (for quantities that may be tiny)."""
        a, b = float(a), float(b)
        return a == b or abs(a - b) <= rel * max(abs(a), abs(b)) + 1e-300

    def holds(self, cond):
        return bool(cond)

    def If(self, c, a, b):
        return a if c else b

    def And(self, *cs):
        return all(bool(c) for c in cs)

    def Or(self, *cs):
        return any(bool(c) for c in cs)

    def Not(self, c):
        return not bool(c)

    def Implies(self, a, b):
        return (not bool(a)) or bool(b)

    def ge(self, a, b, tol=1e-9):
        return a >= b - tol * (1 + abs(a) + abs(b))

    def le(self, a, b, tol=1e-9):
        return a <= b + tol * (1 + abs(a) + abs(b))

    def max(self, a, b):
        return a if a >= b else b

    def min(self, a, b):
        return a if a <= b else b

    abs = staticmethod(lambda a: abs(a))

    def sqrt(self, a):
        return math.sqrt(a) if a >= 0 else float("nan")

    def log(self, a):
        return math.log(a) if a > 0 else (-math.inf if a == 0 else math.nan)

    def exp(self, a):
        try:
            return math.exp(a)
        except OverflowError:
            return math.inf

    def Phi(self, a):
        from scipy.stats import norm

        return float(norm.cdf(a))

    def app(self, name, *args):
        raise Skip()

    def Sum(self, n, f):
        return math.fsum(float(f(i)) for i in range(int(n)))

    def at(self, arr, i):
        return float(np.asarray(arr)[i])

    tlog = log
    texp = exp
    tsqrt = sqrt

    def tgammaln(self, x):
        from scipy.special import gammaln

        return float(gammaln(x))

    def tdiv(self, a, b):
        return a / b

    def tclip(self, x, lo):
        return max(x, lo)

    def tif(self, c, a, b):
        return a if c else b

    def vector(self, n, f):
        return np.array([float(f(i)) for i in range(int(n))])

    def table(self, n, m, f):
        return np.array([[float(f(i, j)) for j in range(int(m))] for i in range(int(n))])

    def inv(self, m):
        return np.linalg.inv(np.asarray(m))

    def logdet(self, m):
        return np.linalg.slogdet(np.asarray(m))[1]

    def near(self, label, a, b, scale=1.0):
        self.ensure_eq(label, a, b, tol=1e-8)

    def forall_idx(self, arr, pred):
        arr = np.asarray(arr)
        return all(bool(pred(*i)) for i in np.ndindex(*arr.shape))

    def fresh_index(self, n):
        if n < 1:
            raise Skip()
        return self.rng.randrange(n)
