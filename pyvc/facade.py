"""Facades for numpy / autograd.numpy / scipy seen by the code under verification.

Every function either handles symbolic operands explicitly, or falls through to the real library
when all operands are concrete, or raises Unsupported.
"""

import math
import types

import numpy as _np
import z3

from . import core
from . import values as V
from .arrays import (SymArr, arr_all, arr_any, arr_max, arr_min, arr_sum, as_sym, dim, dim_e,
                     dim_out, ew, forall, matmul, mk_sum, term_pow, term_recip, tmp_index, unary,
                     wrap0, _atom)
from .core import Unsupported, ctx
from .values import Sym, SymBool, SymInt, SymReal, is_sym, mkbool, mkreal, real_expr, bool_expr


def deep_sym(x, depth=0):
    if isinstance(x, Sym):
        return True
    if depth > 4:
        return False
    if isinstance(x, (list, tuple, set)):
        return any(deep_sym(v, depth + 1) for v in x)
    if isinstance(x, dict):
        return any(deep_sym(v, depth + 1) for v in x.values())
    if isinstance(x, _np.ndarray) and x.dtype == object:
        return any(deep_sym(v, depth + 1) for v in x.flat)
    return hasattr(x, "__pv_symbolic__")


def native(x):
    """Map builtin stand-ins back to the native types (for dtype arguments)."""
    return getattr(x, "__pv_native__", x) if isinstance(x, type) else x


class Facade(types.SimpleNamespace):
    pass


class ModuleFacade:
    """Attribute access: overrides first, then guarded pass-through to the real module."""

    def __init__(self, real, overrides, name):
        self.__dict__["_real"] = real
        self.__dict__["_over"] = overrides
        self.__dict__["__name__"] = name

    def __getattr__(self, item):
        over = self.__dict__["_over"]
        if item in over:
            return over[item]
        real = self.__dict__["_real"]
        if real is None:
            raise AttributeError(item)
        val = getattr(real, item)
        if isinstance(val, type) or not callable(val):
            return val
        return guarded(val, f"{self.__dict__['__name__']}.{item}")


def guarded(f, name):
    def g(*a, **k):
        if deep_sym(a) or deep_sym(k):
            raise Unsupported(f"{name} on symbolic operands")
        a = [native(x) for x in a]
        k = {kk: native(v) for kk, v in k.items()}
        return f(*a, **k)

    g.__name__ = name
    g.__pv_real__ = f
    return g


# -- numpy -----------------------------------------------------------------------


def is_objarr(x):
    return isinstance(x, _np.ndarray) and x.dtype == object and x.ndim > 0


def elementwise(scalar_f, term_f, real_f):
    def f(x, *rest, **kw):
        if isinstance(x, SymArr):
            return unary(term_f, x)
        if isinstance(x, Sym):
            return scalar_f(x)
        if is_objarr(x) or (isinstance(x, (list, tuple)) and deep_sym(x)):
            x = np_array(x)
            if isinstance(x, SymArr):
                return unary(term_f, x)
            out = _np.empty(x.shape, dtype=object)
            for i in _np.ndindex(*x.shape):
                out[i] = scalar_f(x[i])
            return out
        return real_f(x, *rest, **kw)

    return f


EXACT = {("log", 1): 0, ("exp", 0): 1, ("sqrt", 0): 0, ("sqrt", 1): 1, ("gammaln", 1): 0,
         ("gammaln", 2): 0}


def uf_term(name):
    def f(e):
        e = z3.simplify(e)
        if z3.is_rational_value(e):
            k = (name, e.as_fraction())
            if k in EXACT:
                return z3.RealVal(EXACT[k])
        return ctx().shared.func(name, [z3.RealSort()])(e)

    return f


def np_array(x, dtype=None, **kw):
    nm = V.dtype_name(dtype) if dtype is not None and dtype is not object else None
    if isinstance(x, SymArr):
        return x.astype(dtype) if nm in ("float64", "float32") else x.copy()
    if isinstance(x, Sym):
        return V.cast(x, dtype) if nm in ("float64", "float32") else x
    if hasattr(x, "__pv_asarr__"):
        return x.__pv_asarr__()
    if deep_sym(x):
        if isinstance(x, (list, tuple)) and any(isinstance(v, SymArr) for v in x):
            return np_stack(list(x))
        a = _np.array(x, dtype=object)
        if nm in ("float32",):
            a = _np.vectorize(lambda v: V.cast(v, "float32") if is_sym(v) else _np.float32(v),
                              otypes=[object])(a)
        return a
    return _np.array(x, dtype=native(dtype) if dtype is not None else None, **kw)


def np_stack(rows):
    rows = [as_sym(r) for r in rows]
    base = rows[0]
    from .arrays import dims_equal

    for r in rows[1:]:
        if r.ndim != base.ndim or not all(dims_equal(a, b) for a, b in zip(r.dims, base.dims)):
            raise ValueError("inhomogeneous shape")

    def elt(i, *rest):
        i = z3.simplify(i)
        if z3.is_int_value(i):
            return rows[i.as_long()].relt(*rest)
        out = rows[0].relt(*rest)
        for k in range(1, len(rows)):
            out = z3.If(i == k, rows[k].relt(*rest), out)
        return out

    return SymArr((len(rows),) + base.dims, elt)


def np_clip(x, a_min=None, a_max=None, **kw):
    a_min = kw.pop("min", a_min)
    a_max = kw.pop("max", a_max)

    def noinf(v, sign):
        return None if v is not None and not is_sym(v) and not isinstance(v, (_np.ndarray, list)) \
            and v == sign * V.INF else v

    if isinstance(x, SymArr) or isinstance(a_min, SymArr) or isinstance(a_max, SymArr):
        a_min, a_max = noinf(a_min, -1), noinf(a_max, 1)
        r = as_sym(x)
        if a_min is not None:
            r = np_maximum(r, a_min)
        if a_max is not None:
            r = np_minimum(r, a_max)
        return r
    if deep_sym((x, a_min, a_max)):
        if isinstance(x, (list, tuple)) or is_objarr(x):
            arr = np_array(x)
            out = _np.empty(arr.shape, dtype=object)
            for i in _np.ndindex(*arr.shape):
                out[i] = V.sym_clip(arr[i], a_min, a_max)
            return out
        return V.sym_clip(x, a_min, a_max)
    return _np.clip(x, a_min, a_max, **kw)


def _binary_term(f):
    def g(a, b):
        a, b = as_sym(a), as_sym(b)
        from .arrays import broadcast, _combine_masks

        dims, fa, fb = broadcast(a, b)
        return wrap0(SymArr(dims, lambda *i: f(a.relt(*fa(i)), b.relt(*fb(i))), "real",
                            _combine_masks(a, b)))

    return g


def np_maximum(a, b, **kw):
    if isinstance(a, SymArr) or isinstance(b, SymArr):
        return _binary_term(lambda x, y: z3.If(x >= y, x, y))(a, b)
    if deep_sym((a, b)):
        return V.sym_max(a, b)
    return _np.maximum(a, b, **kw)


def np_minimum(a, b, **kw):
    if isinstance(a, SymArr) or isinstance(b, SymArr):
        return _binary_term(lambda x, y: z3.If(x <= y, x, y))(a, b)
    if deep_sym((a, b)):
        return V.sym_min(a, b)
    return _np.minimum(a, b, **kw)


def np_where(cond, *rest):
    if not rest:
        if isinstance(cond, Sym):
            return (SelIndex(cond),)
        return _np.where(cond)
    x, y = rest
    if isinstance(cond, SymArr) or isinstance(x, SymArr) or isinstance(y, SymArr):
        c, a, b = as_sym(cond), as_sym(x), as_sym(y)
        from .arrays import broadcast

        dims, fc, fab = broadcast(c, SymArr(broadcast(a, b)[0], None))
        d2, fa, fb = broadcast(a, b)
        ce = c.elt if c.kind == "bool" else (lambda *i: c.relt(*i) != 0)
        return wrap0(SymArr(dims, lambda *i: z3.If(ce(*fc(i)), a.relt(*fa(fab(i))),
                                                   b.relt(*fb(fab(i)))), "real"))
    if isinstance(cond, Sym):
        if is_sym(x) or is_sym(y):
            return mkreal(z3.If(bool_expr(cond), real_expr(x), real_expr(y)), True)
        return x if bool(cond) else y
    if deep_sym((cond, x, y)):
        cond = _np.asarray(cond)
        xs, ys = _np.broadcast_arrays(_np.asarray(x, dtype=object), _np.asarray(y, dtype=object))
        if cond.ndim == 0:
            return x if bool(cond.item()) else y
        xs, ys, cs = _np.broadcast_arrays(xs, ys, cond)
        out = _np.empty(cs.shape, dtype=object)
        for i in _np.ndindex(*cs.shape):
            out[i] = xs[i] if bool(cs[i]) else ys[i]
        return out
    return _np.where(cond, x, y)


class SelIndex(Sym):
    """The positions selected by a symbolic mask (np.where(mask)[0]); only rendered in logs."""

    __slots__ = ("m",)

    def __init__(self, m):
        self.m = m

    def tolist(self):
        return self

    def __format__(self, s):
        return "<positions>"

    def __pv_len__(self):
        m = self.m
        return SymInt(z3.ToInt(mk_sum(m.dims[0], lambda i: z3.If(m.elt(i), z3.RealVal(1),
                                                                 z3.RealVal(0)))))


def np_sum(x, axis=None, **kw):
    if isinstance(x, SymArr):
        return arr_sum(x, axis)
    if isinstance(x, Sym):
        return x
    if deep_sym(x):
        a = np_array(x)
        if isinstance(a, SymArr):
            return arr_sum(a, axis)
        return _np.sum(a, axis=axis)
    return _np.sum(x, axis=axis, **kw)


def np_true_divide(a, b, dtype=None, **kw):
    if kw:
        raise Unsupported("true_divide with extra arguments")
    if deep_sym((a, b)):
        a = SymReal(a.e, True) if isinstance(a, SymReal) else _np.float64(a) if isinstance(
            a, (int, float)) else a
        r = a / b
        return r if dtype is None else (V.cast(r, dtype) if isinstance(r, SymReal) else r)
    return _np.true_divide(a, b, dtype=native(dtype) if dtype is not None else None)


def np_any(x, axis=None, **kw):
    if isinstance(x, SymArr):
        return arr_any(x)
    if isinstance(x, Sym):
        return bool(x)
    if deep_sym(x):
        return any(bool(v) for v in _np.asarray(x, dtype=object).flat)
    return _np.any(x, axis=axis, **kw)


def np_all(x, axis=None, **kw):
    if isinstance(x, SymArr):
        return arr_all(x)
    if isinstance(x, Sym):
        return bool(x)
    if deep_sym(x):
        return all(bool(v) for v in _np.asarray(x, dtype=object).flat)
    return _np.all(x, axis=axis, **kw)


def _const_bool(val):
    def f(x):
        if isinstance(x, SymArr):
            return SymArr(x.dims, lambda *i: z3.BoolVal(val), "bool", x.mask)
        if isinstance(x, Sym):
            return val
        return None

    return f


def np_isnan(x):
    r = _const_bool(False)(x)
    if r is not None:
        return r
    if deep_sym(x) or is_objarr(x):
        return _np.vectorize(lambda v: False if is_sym(v) else bool(_np.isnan(v)))(
            np_array(x)).astype(bool)
    return _np.isnan(x)


def np_isfinite(x):
    r = _const_bool(True)(x)
    if r is not None:
        return r
    if deep_sym(x) or is_objarr(x):
        return _np.vectorize(lambda v: True if is_sym(v) else bool(_np.isfinite(v)))(
            np_array(x)).astype(bool)
    return _np.isfinite(x)


def np_isinf(x):
    r = _const_bool(False)(x)
    if r is not None:
        return r
    if deep_sym(x) or is_objarr(x):
        return _np.vectorize(lambda v: False if is_sym(v) else bool(_np.isinf(v)))(
            np_array(x)).astype(bool)
    return _np.isinf(x)


def np_isclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    if not deep_sym((a, b)):
        return _np.isclose(a, b, rtol=rtol, atol=atol, **kw)
    if isinstance(a, SymArr) or isinstance(b, SymArr):
        raise Unsupported("isclose on symbolic arrays")
    for v in (a, b):
        if not is_sym(v) and not math.isfinite(v):
            return False
    d = abs(a - b)
    return d <= atol + rtol * abs(b)


def np_sign(x):
    if isinstance(x, SymArr):
        return unary(lambda e: z3.If(e > 0, z3.RealVal(1), z3.If(e < 0, z3.RealVal(-1),
                                                                 z3.RealVal(0))), x)
    if isinstance(x, Sym):
        return V.sym_sign(x)
    return _np.sign(x)


def np_abs(x):
    if isinstance(x, Sym):
        return abs(x)
    return _np.abs(x)


def np_power(a, b):
    if deep_sym((a, b)):
        return a ** b
    return _np.power(a, b)


def np_square(a):
    return a * a if deep_sym(a) else _np.square(a)


def _len(x):
    if hasattr(x, "__pv_len__"):
        return x.__pv_len__()
    return len(x)


def shape_dims(shape):
    if isinstance(shape, (SymInt, int, _np.integer)):
        shape = (shape,)
    return tuple(dim(s) for s in shape)


def np_filled(val):
    def f(shape, dtype=None, **kw):
        if deep_sym(shape):
            return SymArr(shape_dims(shape), lambda *i: z3.RealVal(val))
        return (_np.zeros if val == 0 else _np.ones)(shape, **(
            {"dtype": native(dtype)} if dtype is not None else {}))

    return f


def np_full(shape, fill, dtype=None, **kw):
    if deep_sym(shape):
        if not is_sym(fill) and not math.isfinite(fill):
            raise Unsupported("symbolic-length array of non-finite values")
        e = real_expr(fill)
        return SymArr(shape_dims(shape), lambda *i: e)
    if deep_sym(fill):
        a = _np.empty(shape, dtype=object)
        a.fill(fill)
        return a
    a = _np.full(shape, fill, dtype=native(dtype) if dtype is not None else None)
    return a.astype(object)


def np_zeros_like(x, **kw):
    if isinstance(x, SymArr):
        return SymArr(x.dims, lambda *i: z3.RealVal(0), "real", x.mask)
    return _np.zeros_like(x, **kw)


def np_ones_like(x, **kw):
    if isinstance(x, SymArr):
        return SymArr(x.dims, lambda *i: z3.RealVal(1), "real", x.mask)
    return _np.ones_like(x, **kw)


def np_arange(*args, **kw):
    if deep_sym(args):
        if kw:
            raise Unsupported("arange with keyword arguments")
        lo, hi = (0, args[0]) if len(args) == 1 else args[:2]
        if len(args) > 2:
            raise Unsupported("arange with a step")
        lo_e, hi_e = V.int_expr(lo), V.int_expr(hi)
        n = z3.simplify(hi_e - lo_e)
        if not ctx().decide(n >= 0):
            n = z3.IntVal(0)
        return SymArr((n,), lambda i: lo_e + i, "int")
    return _np.arange(*args, **kw)


def np_diag(x):
    if isinstance(x, SymArr):
        if x.ndim == 1:
            e = x.relt
            return SymArr((x.dims[0], x.dims[0]),
                          lambda i, j: z3.If(i == j, e(i), z3.RealVal(0)), "real", None,
                          ("diag", e))
        if x.ndim == 2:
            if x.meta and x.meta[0] == "diag":
                return SymArr((x.dims[0],), x.meta[1])
            return SymArr((x.dims[0],), lambda i: x.elt(i, i), x.kind)
    if deep_sym(x):
        return _np.diag(_np.asarray(x, dtype=object))
    return _np.diag(x)


def np_outer(a, b):
    if isinstance(a, SymArr) or isinstance(b, SymArr):
        a, b = as_sym(a), as_sym(b)
        return SymArr((a.dims[0], b.dims[0]), lambda i, j: a.relt(i) * b.relt(j))
    return _np.outer(a, b)


def np_matmul(a, b):
    if deep_sym((a, b)):
        return matmul(as_sym(a), as_sym(b))
    return _np.matmul(a, b)


def np_eye(n, *a, **k):
    if is_sym(n):
        return SymArr((n, n), lambda i, j: z3.If(i == j, z3.RealVal(1), z3.RealVal(0)), "real",
                      None, ("diag", lambda i: z3.RealVal(1)))
    return _np.eye(n, *a, **k)


def np_hstack(parts):
    parts = list(parts)
    if not deep_sym(parts):
        return _np.hstack(parts)
    if not any(isinstance(p, SymArr) for p in parts):
        return _np.hstack([_np.asarray(p, dtype=object) for p in parts])
    parts = [as_sym(p) if not (is_sym(p) and not isinstance(p, SymArr)) else as_sym([p])
             for p in parts]
    return np_concatenate(parts, axis=1 if parts[0].ndim == 2 else 0)


def np_concatenate(parts, axis=0, **kw):
    parts = list(parts)
    if not deep_sym(parts):
        return _np.concatenate(parts, axis=axis, **kw)
    if not any(isinstance(p, SymArr) for p in parts):
        return _np.concatenate([_np.asarray(p, dtype=object) for p in parts], axis=axis)
    parts = [as_sym(p) for p in parts]
    nd = parts[0].ndim
    if any(p.ndim != nd for p in parts) or nd not in (1, 2):
        raise Unsupported("concatenation of arrays of these dimensions")
    axis = axis % nd if isinstance(axis, int) else None
    if axis is None:
        raise Unsupported("concatenation along this axis")
    if nd == 2:
        for p in parts[1:]:
            if not ctx().decide(dim_e(p.dims[1 - axis]) == dim_e(parts[0].dims[1 - axis])):
                raise ValueError("all the input array dimensions except for the concatenation "
                                 "axis must match exactly")
    offs, tot = [], z3.IntVal(0)
    for p in parts:
        offs.append(tot)
        tot = z3.simplify(tot + dim_e(p.dims[axis]))

    def elt(*ix):
        def at(p, o):
            return p.relt(*[k - o if a == axis else k for a, k in enumerate(ix)])

        def pick(ps):
            (p, o), rest = ps[0], ps[1:]
            if not rest:
                return at(p, o)
            c = z3.simplify(ix[axis] < o + dim_e(p.dims[axis]))
            if z3.is_true(c):
                return at(p, o)
            return pick(rest) if z3.is_false(c) else z3.If(c, at(p, o), pick(rest))

        return pick(list(zip(parts, offs)))

    return SymArr((tot,) if nd == 1 else
                  ((tot, parts[0].dims[1]) if axis == 0 else (parts[0].dims[0], tot)), elt)


class _R:
    def __getitem__(self, key):
        keys = key if isinstance(key, tuple) else (key,)
        if deep_sym(keys):
            if any(isinstance(k, slice) for k in keys):
                if len(keys) == 1:
                    return np_arange(keys[0].start or 0, keys[0].stop)
                raise Unsupported("np.r_ of mixed slices")
            if all(isinstance(k, (SymInt, int)) for k in keys):
                es = [V.int_expr(k) for k in keys]

                def elt(i):
                    out = es[-1]
                    for n in range(len(es) - 2, -1, -1):
                        out = z3.If(i == n, es[n], out)
                    return out

                return SymArr((len(es),), elt, "int")
            return np_hstack([k if not is_sym(k) or isinstance(k, SymArr) else as_sym([k])
                              for k in keys])
        return _np.r_[key]


def np_atleast_1d(x):
    if isinstance(x, SymArr):
        return x if x.ndim else SymArr((1,), lambda i: x.relt())
    if isinstance(x, Sym):
        a = _np.empty((1,), dtype=object)
        a[0] = x
        return a
    if deep_sym(x):
        return np_array(x)
    return _np.atleast_1d(x)


def np_atleast_2d(x):
    if not deep_sym(x):
        return _np.atleast_2d(x)
    x = as_sym(x)
    return x if x.ndim >= 2 else x[None, :] if x.ndim == 1 else x.reshape(1, 1)


def np_reshape(x, shape=None, *a, **kw):
    if not deep_sym(x) and not deep_sym(shape):
        return _np.reshape(x, shape, *a, **kw)
    if a or any(k not in ("shape", "newshape", "order") for k in kw) or kw.get("order", "C") != "C":
        raise Unsupported("reshape")
    shape = kw.get("shape", kw.get("newshape")) if shape is None else shape
    return as_sym(x).reshape(*(shape if isinstance(shape, (tuple, list)) else [shape]))


def np_squeeze(x, axis=None):
    if not deep_sym(x):
        return _np.squeeze(x, axis)
    if axis is not None:
        raise Unsupported("squeeze of given axes")
    return as_sym(x).squeeze()


def np_fromiter(it, dtype=None, count=-1, **kw):
    vals = list(it)
    if deep_sym(vals):
        return np_array([V.cast(v, dtype) if is_sym(v) else v for v in vals])
    return _np.fromiter(vals, native(dtype))


class CastArr(_np.ndarray):
    """Object array that remembers a narrow float dtype and rounds what is stored into it."""


def np_empty(shape, dtype=None, **kw):
    if deep_sym(shape):
        raise Unsupported("np.empty of symbolic length")
    a = _np.empty(shape, dtype=object)
    nm = V.dtype_name(dtype) if dtype is not None else "float64"
    if nm == "float64":
        return a
    return RoundingArray(a, nm)


class RoundingArray:
    """Fixed-length array of a narrower float type: every store rounds."""

    def __init__(self, a, nm):
        self.a, self.nm = a, nm

    def __setitem__(self, k, v):
        self.a[k] = V.cast(v, self.nm) if is_sym(v) else _np.dtype(self.nm).type(v)

    def __getitem__(self, k):
        return self.a[k]

    def __len__(self):
        return len(self.a)

    def __iter__(self):
        return iter(self.a)

    def __sub__(self, o):
        return self.a - o

    def __add__(self, o):
        return self.a + o

    def __mul__(self, o):
        return self.a * o

    @property
    def shape(self):
        return self.a.shape


def opaque_matrix_fn(name, ret="matrix"):
    """An uninterpreted function of a whole symbolic matrix (e.g. its inverse)."""

    def f(m, *a, **k):
        if isinstance(m, SymArr):
            t1 = tmp_index()
            n = dim_e(m.dims[0])
            i, j = z3.Int("m!i"), z3.Int("m!j")
            body = z3.simplify(m.relt(i, j) if m.ndim == 2 else m.relt(i), som=True)
            sh = ctx().shared
            tab = sh.__dict__.setdefault("matfn", {})
            from .arrays import _vars_of

            free = [z3.Int(v) for v in sorted(_vars_of(body)) if v.startswith(("k!", "t!"))]
            canon = [(p, z3.Int(f"p!{x}")) for x, p in enumerate(free)]
            key = (name, n.get_id(), (z3.substitute(body, *canon) if canon else body).get_id())
            if key not in tab:
                tab[key] = f"{name}#{len(tab)}"
                sh.keep.append((body, n))
            nm = tab[key]
            if ret == "matrix":
                fn = sh.func(nm, [z3.IntSort()] * (2 + len(free)))
                return SymArr(m.dims, lambda a_, b_: fn(a_, b_, *free))
            if free:
                return SymReal(sh.func(nm, [z3.IntSort()] * len(free))(*free), True)
            return SymReal(z3.Real(nm), True)
        if deep_sym(m):
            return small_matrix(name, _np.asarray(m, dtype=object))
        return getattr(_np.linalg, name)(m, *a, **k)

    return f


def small_matrix(name, m):
    n = m.shape[0]
    if name == "inv" and n <= 3:
        d = small_matrix("det", m)
        if n == 1:
            return _np.array([[1.0 / m[0, 0]]], dtype=object)
        out = _np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                minor = _np.delete(_np.delete(m, i, 0), j, 1)
                out[j, i] = (-1) ** (i + j) * small_matrix("det", minor) / d
        return out
    if name == "det":
        if n == 1:
            return m[0, 0]
        r = 0.0
        for j in range(n):
            minor = _np.delete(_np.delete(m, 0, 0), j, 1)
            r = r + (-1) ** j * m[0, j] * small_matrix("det", minor)
        return r
    raise Unsupported(f"linalg.{name} of a fixed-size symbolic matrix")


def np_vstack(rows):
    rows = list(rows)
    if not deep_sym(rows):
        return _np.vstack(rows)
    if any(isinstance(r, SymArr) for r in rows):
        if any(as_sym(r).ndim != 1 for r in rows):
            raise Unsupported("vstack of symbolic matrices")
        return np_stack(rows)
    return _np.vstack([np_array(r) for r in rows])


def np_norm(x, ord=None, axis=None, **kw):
    if not deep_sym(x):
        return _np.linalg.norm(x, ord, axis, **kw)
    x = np_array(x)
    if isinstance(x, SymArr) or x.ndim != 1 or ord not in (None, 2) or axis is not None or kw:
        raise Unsupported("norm of this array")
    return NUMPY.sqrt(np_sum(x * x))


def np_slogdet(m):
    if deep_sym(m):
        return (1.0, opaque_matrix_fn("logdet", "scalar")(m))
    return _np.linalg.slogdet(m)


def _quantile(a, frac, method="linear", **kw):
    """The frac-quantile of symbolic samples: an opaque function, non-decreasing in frac."""
    if kw or (isinstance(frac, SymArr)) or deep_sym(method):
        raise Unsupported("quantile of symbolic samples with extra arguments")
    a = as_sym(a)
    if a.ndim != 1:
        raise Unsupported("quantile of a matrix")
    key = a.relt(z3.Int("k!canon")).sexpr() + "|" + dim_e(a.dims[0]).sexpr()
    f = real_expr(frac)

    def ax(args, r, prev):
        for (b,), s in prev:
            yield z3.Implies(args[0] <= b, r <= s)
            yield z3.Implies(args[0] >= b, r >= s)

    return mkreal(ctx().app(f"quantile[{method}]{key}", [f], axioms=ax), True)


def np_percentile(a, qv, *args, **kw):
    if deep_sym((a, qv)):
        if args:
            raise Unsupported("percentile with positional options")
        return _quantile(a, qv / 100.0, **kw)
    return _np.percentile(a, qv, *args, **kw)


def np_quantile(a, qv, *args, **kw):
    if deep_sym((a, qv)):
        if args:
            raise Unsupported("quantile with positional options")
        return _quantile(a, qv, **kw)
    return _np.quantile(a, qv, *args, **kw)


def np_float64(x=0.0):
    if isinstance(x, SymReal):
        return SymReal(x.e, True)
    if isinstance(x, SymInt):
        return SymReal(z3.ToReal(x.e), True)
    return _np.float64(x)


def np_allclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    if deep_sym((a, b)):
        a, b = as_sym(a), as_sym(b)
        d = abs(a - b)
        return arr_all(as_sym(d <= as_sym(abs(b)) * rtol + atol))
    return _np.allclose(a, b, rtol=rtol, atol=atol, **kw)


def np_linspace(a, b, n=50, **kw):
    if deep_sym((a, b, n)):
        if is_sym(n):
            raise Unsupported("linspace with symbolic length")
        n = int(n)
        out = _np.empty((n,), dtype=object)
        for i in range(n):
            out[i] = a + (b - a) * (i / (n - 1)) if n > 1 else a
            if isinstance(out[i], SymReal):
                out[i] = SymReal(out[i].e, True)
        if n > 1:
            out[n - 1] = SymReal(b.e, True) if isinstance(b, SymReal) else _np.float64(b)
        return out
    return _np.linspace(a, b, n, **kw)


def np_argmin(x, **kw):
    if isinstance(x, (list, tuple, _np.ndarray)) and deep_sym(x):
        best = 0
        xs = list(x)
        for i in range(1, len(xs)):
            if bool(xs[i] < xs[best]):
                best = i
        return best
    if isinstance(x, Sym):
        raise Unsupported("argmin of a symbolic-length array")
    return _np.argmin(x, **kw)


def np_argmax(x, **kw):
    if isinstance(x, (list, tuple, _np.ndarray)) and deep_sym(x):
        best = 0
        xs = list(x)
        for i in range(1, len(xs)):
            if bool(xs[i] > xs[best]):
                best = i
        return best
    if isinstance(x, Sym):
        raise Unsupported("argmax of a symbolic-length array")
    return _np.argmax(x, **kw)


def np_minmax(kind):
    def f(x, **kw):
        if isinstance(x, SymArr):
            return arr_min(x) if kind == "min" else arr_max(x)
        if deep_sym(x):
            xs = list(_np.asarray(x, dtype=object).flat)
            r = xs[0]
            for v in xs[1:]:
                r = V.sym_min(r, v) if kind == "min" else V.sym_max(r, v)
            return r
        return getattr(_np, kind)(x, **kw)

    return f


def np_expand(x, axis):
    if isinstance(x, SymArr):
        return x[:, None] if axis in (1, -1) else x[None, :]
    return _np.expand_dims(x, axis)


def np_logical(name, zf):
    def f(a, b):
        if isinstance(a, SymArr) or isinstance(b, SymArr):
            return ew("and" if name == "logical_and" else "or", as_sym(a), as_sym(b))
        if deep_sym((a, b)):
            return mkbool(zf(bool_expr(a), bool_expr(b)))
        return getattr(_np, name)(a, b)

    return f


NP_CLASSES = {}


def build_numpy():
    sqrt = elementwise(V.sym_sqrt, lambda e: ctx().shared.func("sqrt", [z3.RealSort()])(
        z3.simplify(e)), _np.sqrt)
    o = {
        "array": np_array, "asarray": np_array, "clip": np_clip, "maximum": np_maximum,
        "minimum": np_minimum, "where": np_where, "sum": np_sum, "true_divide": np_true_divide,
        "divide": np_true_divide, "any": np_any, "all": np_all, "isnan": np_isnan,
        "isfinite": np_isfinite, "isinf": np_isinf, "isclose": np_isclose, "sign": np_sign,
        "abs": np_abs, "fabs": np_abs, "absolute": np_abs, "power": np_power,
        "square": np_square, "zeros": np_filled(0), "ones": np_filled(1), "full": np_full,
        "zeros_like": np_zeros_like, "ones_like": np_ones_like, "arange": np_arange,
        "diag": np_diag, "outer": np_outer, "matmul": np_matmul, "dot": np_matmul,
        "eye": np_eye, "identity": np_eye, "hstack": np_hstack, "concatenate": np_concatenate,
        "r_": _R(), "atleast_1d": np_atleast_1d, "atleast_2d": np_atleast_2d,
        "reshape": np_reshape, "squeeze": np_squeeze, "fromiter": np_fromiter, "empty": np_empty,
        "percentile": np_percentile, "quantile": np_quantile, "allclose": np_allclose, "linspace": np_linspace,
        "argmin": np_argmin, "argmax": np_argmax, "min": np_minmax("min"),
        "max": np_minmax("max"), "amin": np_minmax("min"), "amax": np_minmax("max"),
        "expand_dims": np_expand, "logical_and": np_logical("logical_and", z3.And),
        "logical_or": np_logical("logical_or", z3.Or),
        "sqrt": sqrt,
        "log": elementwise(V.sym_log, uf_term("log"), _np.log),
        "exp": elementwise(V.sym_exp, uf_term("exp"), _np.exp),
        "cos": elementwise(V.sym_app("cos"), uf_term("cos"), _np.cos),
        "sin": elementwise(V.sym_app("sin"), uf_term("sin"), _np.sin),
        "arctan": elementwise(V.sym_app("arctan"), uf_term("arctan"), _np.arctan),
        "arccos": elementwise(V.sym_app("arccos"), uf_term("arccos"), _np.arccos),
        "linalg": ModuleFacade(_np.linalg, {
            "inv": opaque_matrix_fn("inv"), "slogdet": np_slogdet,
            "norm": np_norm,
            "det": opaque_matrix_fn("det", "scalar")}, "numpy.linalg"),
        "stack": lambda rows, axis=0: np_stack(list(rows)) if deep_sym(rows) and axis == 0
        else guarded(_np.stack, "stack")(rows, axis=axis),
        "vstack": np_vstack,
        "transpose": lambda x: x.T if isinstance(x, SymArr) else _np.transpose(x),
        "logical_not": lambda x: ~x,
        "subtract": lambda a, b: a - b, "add": lambda a, b: a + b, "multiply": lambda a, b: a * b,
        "negative": lambda a: -a,
        "copy": lambda x: x.copy(), "ravel": lambda x: x.flatten() if isinstance(x, SymArr)
        else _np.ravel(x),
        "float64": Float64, "float32": _np.float32,
        "isscalar": lambda x: True if isinstance(x, Sym) else _np.isscalar(x),
        "ndim": lambda x: 0 if isinstance(x, Sym) else
        (x.ndim if hasattr(x, "ndim") else guarded(_np.ndim, "ndim")(x)),
        "shape": lambda x: () if isinstance(x, Sym) else
        (x.shape if hasattr(x, "shape") else guarded(_np.shape, "shape")(x)),
        "size": lambda x: 1 if isinstance(x, Sym) else
        (x.size if hasattr(x, "size") else guarded(_np.size, "size")(x)),
        "mean": lambda x, **kw: np_sum(x) / (x.size if hasattr(x, "size") else len(x))
        if deep_sym(x) and not kw else guarded(_np.mean, "mean")(x, **kw),
        "greater": lambda a, b: a > b, "greater_equal": lambda a, b: a >= b,
        "less": lambda a, b: a < b, "less_equal": lambda a, b: a <= b,
        "equal": lambda a, b: a == b, "not_equal": lambda a, b: a != b,
        "reciprocal": lambda x: np_true_divide(1.0, x),
        "positive": lambda x: x,
        "finfo": lambda t=float: _np.finfo(native(t)), "iinfo": lambda t=int: _np.iinfo(native(t)),
        "full_like": lambda a, v, **kw: np_ones_like(a) * v if deep_sym((a, v))
        else _np.full_like(a, v, **kw),
        "array_equal": lambda a, b: np_all(np_array(a) == np_array(b)) if deep_sym((a, b))
        else _np.array_equal(a, b),
        "append": lambda a, b, axis=None: np_concatenate([np_atleast_1d(a), np_atleast_1d(b)])
        if deep_sym((a, b)) and axis is None else guarded(_np.append, "append")(a, b, axis),
        "count_nonzero": lambda a: np_sum(np_where(a, 1, 0)) if deep_sym(a)
        else _np.count_nonzero(a),
        "float_power": np_power, "inner": np_matmul, "vdot": np_matmul,
        "nan_to_num": lambda x, **kw: x if deep_sym(x) else _np.nan_to_num(x, **kw),
        "log1p": lambda x: NUMPY.log(1.0 + x) if deep_sym(x) else _np.log1p(x),
        "expm1": lambda x: NUMPY.exp(x) - 1.0 if deep_sym(x) else _np.expm1(x),
        "fmax": np_maximum, "fmin": np_minimum,
        "average": lambda x, **kw: np_sum(x) / (x.size if hasattr(x, "size") else len(x))
        if deep_sym(x) and not kw else guarded(_np.average, "average")(x, **kw),
    }
    o.update(NP_CLASSES)
    return ModuleFacade(_np, o, "numpy")


class _F64Meta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, _np.float64) or (isinstance(o, SymReal) and o.isnp)

    def __call__(cls, x=0.0):
        return np_float64(x)


class Float64(metaclass=_F64Meta):
    __pv_native__ = _np.float64


def _np_class(real, test):
    """A numpy scalar class whose isinstance check also accepts matching proxies."""

    class Meta(type):
        def __instancecheck__(cls, o):
            return isinstance(o, real) or test(o)

        def __call__(cls, *a, **k):
            return real(*a, **k)

    return Meta(real.__name__, (), {"__pv_native__": real})


for _n, _t in (("floating", lambda o: isinstance(o, SymReal) and o.isnp),
               ("number", lambda o: isinstance(o, SymReal) and o.isnp),
               ("generic", lambda o: isinstance(o, SymReal) and o.isnp),
               ("inexact", lambda o: isinstance(o, SymReal) and o.isnp)):
    NP_CLASSES[_n] = _np_class(getattr(_np, _n), _t)


# -- scipy -----------------------------------------------------------------------


def _concrete_phi(*a):
    """True when Phi of these arguments is evaluated by the real scipy."""
    return not deep_sym(a) and not (core.CUR is not None and all(
        isinstance(x, (int, float)) and _np.isfinite(x) for x in a))


class NormFacade:
    def cdf(self, x, loc=0.0, scale=1.0):
        if _concrete_phi(x, loc, scale):
            import scipy.stats

            return scipy.stats.norm.cdf(x, loc, scale)
        z = (x - loc) / scale if not (not is_sym(loc) and loc == 0.0 and not is_sym(scale)
                                     and scale == 1.0) else x
        return mkreal(ctx().app("Phi", [real_expr(z)]), True)

    def sf(self, x, loc=0.0, scale=1.0):
        if _concrete_phi(x, loc, scale):
            import scipy.stats

            return scipy.stats.norm.sf(x, loc, scale)
        return 1.0 - self.cdf(x, loc, scale)

    def logcdf(self, x):
        if not deep_sym(x):
            import scipy.stats

            return scipy.stats.norm.logcdf(x)
        return V.sym_log(self.cdf(x))

    def pdf(self, x, loc=0.0, scale=1.0):
        if not deep_sym((x, loc, scale)):
            import scipy.stats

            return scipy.stats.norm.pdf(x, loc, scale)
        z = (x - loc) / scale
        return mkreal(ctx().app("phi", [real_expr(z)]), True) / scale

    def logpdf(self, x, loc=0.0, scale=1.0):
        return norm_logpdf(x, loc, scale)

    def __getattr__(self, item):
        import scipy.stats

        return guarded(getattr(scipy.stats.norm, item), f"scipy.stats.norm.{item}")

    def __call__(self, *a, **k):
        return FrozenDist("norm", a, k)


class FrozenDist:
    """A frozen scipy distribution; sampling it is recorded, never executed symbolically."""

    def __init__(self, name, a, k):
        self.name, self.a, self.k = name, a, k

    def rvs(self, size=None, **kw):
        return SampleOf(self.name, self.a, self.k, size)


class SampleOf(Sym):
    __slots__ = ("name", "a", "k", "size")

    def __init__(self, name, a, k, size):
        self.name, self.a, self.k, self.size = name, a, k, size


LOG_2PI = _np.log(2.0 * _np.pi)


def norm_logpdf(x, loc=0.0, scale=1.0):
    if not deep_sym((x, loc, scale)):
        from autograd.scipy.stats.norm import logpdf as real_logpdf

        return real_logpdf(x, loc, scale)
    npf = NUMPY
    z = (x - loc) / scale
    half_log = float(_np.log(_np.sqrt(2.0 * _np.pi)))
    return z * z * (-0.5) - half_log - npf.log(scale)


def gammaln(x):
    if not deep_sym(x):
        import scipy.special

        return scipy.special.gammaln(x)
    if isinstance(x, SymArr):
        return unary(uf_term("gammaln"), x)
    if isinstance(x, Sym):
        return mkreal(ctx().app("gammaln", [real_expr(x)]), True)
    return elementwise(V.sym_app("gammaln"), uf_term("gammaln"), None)(x)


def poisson_logpmf(k, mu):
    if not deep_sym((k, mu)):
        from autograd.scipy.stats.poisson import logpmf

        return logpmf(k, mu)
    return k * NUMPY.log(mu) - mu - gammaln(k + 1.0)


NUMPY = build_numpy()
