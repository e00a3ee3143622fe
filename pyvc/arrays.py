"""Symbolic arrays of unbounded (symbolic) length: a shape plus a generic-element term."""

import math

import numpy as _np
import z3

from .core import Unsupported, ctx, q
from .values import (Sym, SymBool, SymInt, SymReal, bool_expr, int_expr, is_sym, mkbool, mkreal,
                     real_expr)


def dim(x):
    """Normalise a dimension to python int or z3 Int."""
    if isinstance(x, SymInt):
        x = x.e
    if z3.is_expr(x):
        x = z3.simplify(x)
        if z3.is_int_value(x):
            return x.as_long()
        return x
    return int(x)


def dim_e(x):
    return x if z3.is_expr(x) else z3.IntVal(int(x))


def dim_out(x):
    return SymInt(x) if z3.is_expr(x) else x


def dims_equal(a, b):
    if not z3.is_expr(a) and not z3.is_expr(b):
        return a == b
    return ctx().decide(dim_e(a) == dim_e(b))


_TMP = [0]


def tmp_index():
    _TMP[0] += 1
    return z3.Int(f"t!{_TMP[0]}")


class SymArr(Sym):
    __slots__ = ("dims", "elt", "kind", "mask", "meta")
    __pv_array__ = True
    __array_ufunc__ = None
    __array_priority__ = 2000

    def __init__(self, dims, elt, kind="real", mask=None, meta=None):
        self.dims = tuple(dim(d) for d in dims)
        self.elt = elt
        self.kind = kind
        self.mask = mask  # index -> Bool: only these positions are present
        self.meta = meta

    # structure
    @property
    def shape(self):
        if self.mask is not None:
            raise Unsupported("shape of a masked symbolic array")
        return tuple(dim_out(d) for d in self.dims)

    @property
    def ndim(self):
        return len(self.dims)

    @property
    def size(self):
        r = 1
        for d in self.dims:
            r = r * dim_out(d)
        return r

    @property
    def dtype(self):
        return _np.dtype({"real": "float64", "bool": "bool", "int": "int64"}[self.kind])

    @property
    def T(self):
        if self.ndim == 1:
            return self
        if self.ndim == 2:
            e = self.elt
            return SymArr((self.dims[1], self.dims[0]), lambda i, j: e(j, i), self.kind)
        raise Unsupported("transpose of a >2-d symbolic array")

    def transpose(self, *a):
        return self.T

    def __pv_len__(self):
        if not self.dims:
            raise TypeError("len() of unsized object")
        if self.mask is not None:
            raise Unsupported("len of a masked symbolic array")
        return dim_out(self.dims[0])

    def __len__(self):
        if not self.dims:
            raise TypeError("len() of unsized object")
        d = self.dims[0]
        if z3.is_expr(d):
            raise Unsupported("native len() of a symbolic-length array")
        return d

    def __iter__(self):
        d = self.dims[0]
        if z3.is_expr(d):
            raise Unsupported("native iteration over a symbolic-length array")
        return iter([self[i] for i in range(d)])

    def __deepcopy__(self, memo):
        return SymArr(self.dims, self.elt, self.kind, self.mask, self.meta)

    def __copy__(self):
        return self.__deepcopy__({})

    def copy(self):
        return self.__deepcopy__({})

    def __hash__(self):
        return id(self)

    def __bool__(self):
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __format__(self, spec):
        return "<symarr>"

    def __repr__(self):
        return f"<symarr{self.dims}>"

    def astype(self, dtype):
        from .values import dtype_name

        nm = dtype_name(dtype)
        if nm in ("float64", None):
            return SymArr(self.dims, self.relt, "real", self.mask)
        if nm in ("float32", "float16"):
            f = ctx().shared.func(f"round_{nm}", [z3.RealSort()])
            return SymArr(self.dims, lambda *i: f(self.relt(*i)), "real", self.mask)
        if nm == "int64":
            if self.kind == "int":
                return self
            return SymArr(self.dims, lambda *i: z3.If(self.relt(*i) >= 0, z3.ToInt(self.relt(*i)),
                                                      -z3.ToInt(-self.relt(*i))), "int", self.mask)
        raise Unsupported(f"astype {nm} on a symbolic array")

    def tolist(self):
        raise Unsupported("tolist of a symbolic-length array")

    def relt(self, *i):
        e = self.elt(*i)
        if self.kind == "bool":
            return z3.If(e, z3.RealVal(1), z3.RealVal(0))
        if self.kind == "int":
            return z3.ToReal(e)
        return e

    # indexing
    def __getitem__(self, key):
        if isinstance(key, tuple):
            return self._multi(key)
        return self._multi((key,))

    def _multi(self, keys):
        if len(keys) == 1 and isinstance(keys[0], SymArr) and keys[0].kind == "bool":
            m = keys[0]
            if m.ndim != 1 or self.ndim != 1:
                raise Unsupported("boolean mask on a 2-d symbolic array")
            if not dims_equal(m.dims[0], self.dims[0]):
                raise IndexError("boolean index did not match indexed array")
            return SymArr(self.dims, self.elt, self.kind, mask=_mask_fn(m, self))
        if self.mask is not None:
            raise Unsupported("indexing a masked symbolic array")
        n_ax = sum(1 for k in keys if k is not None and k is not Ellipsis)
        if Ellipsis in [k for k in keys if not is_sym(k) and not isinstance(k, _np.ndarray)]:
            pos = [i for i, k in enumerate(keys) if k is Ellipsis][0]
            fill = self.ndim - n_ax
            keys = keys[:pos] + (slice(None),) * fill + keys[pos + 1:]
        else:
            keys = keys + (slice(None),) * (self.ndim - n_ax)
        outdims, plan, ax = [], [], 0
        for k in keys:
            if k is None:
                plan.append(("new",))
                outdims.append(1)
                continue
            if ax >= self.ndim:
                raise IndexError("too many indices for array")
            d = self.dims[ax]
            if isinstance(k, slice):
                start, stop = norm_slice(k, d)
                plan.append(("slice", start))
                outdims.append(dim(z3.simplify(dim_e(stop) - dim_e(start))))
            elif isinstance(k, SymArr):
                if k.kind == "bool":
                    raise Unsupported("mask inside a multi-index")
                if k.ndim != 1:
                    raise Unsupported("fancy index of rank > 1")
                plan.append(("gather", k))
                outdims.append(k.dims[0])
            elif isinstance(k, (list, _np.ndarray)) and not (
                isinstance(k, _np.ndarray) and k.ndim == 0
            ):
                arr = as_sym(k)
                plan.append(("gather", arr))
                outdims.append(arr.dims[0])
            else:
                plan.append(("int", norm_index(k, d)))
            ax += 1
        elt = self.elt

        def new(*idx):
            src, p = [], 0
            for st in plan:
                if st[0] == "new":
                    p += 1
                elif st[0] == "slice":
                    src.append(z3.simplify(dim_e(st[1]) + idx[p]))
                    p += 1
                elif st[0] == "gather":
                    g = st[1].elt(idx[p])
                    src.append(g if g.sort() == z3.IntSort() else z3.ToInt(g))
                    p += 1
                else:
                    src.append(dim_e(st[1]))
            return elt(*src)

        if not outdims:
            e = new()
            return wrap_elt(e)
        return SymArr(outdims, new, self.kind)

    def __setitem__(self, key, val):
        keys = key if isinstance(key, tuple) else (key,)
        if len(keys) != self.ndim or any(isinstance(k, slice) for k in keys):
            raise Unsupported("slice assignment on a symbolic array")
        idx = [dim_e(norm_index(k, d)) for k, d in zip(keys, self.dims)]
        old = self.elt
        v = real_expr(val) if self.kind == "real" else (
            bool_expr(val) if self.kind == "bool" else int_expr(val))
        self.elt = lambda *i: z3.If(z3.And(*[a == b for a, b in zip(i, idx)]), v, old(*i))

    # operators
    def _b(self, op, o, swap=False):
        o = as_sym(o)
        return ew(op, o, self) if swap else ew(op, self, o)

    def __add__(self, o): return self._b("add", o)
    def __radd__(self, o): return self._b("add", o, True)
    def __sub__(self, o): return self._b("sub", o)
    def __rsub__(self, o): return self._b("sub", o, True)
    def __mul__(self, o): return self._b("mul", o)
    def __rmul__(self, o): return self._b("mul", o, True)
    def __truediv__(self, o): return self._b("truediv", o)
    def __rtruediv__(self, o): return self._b("truediv", o, True)
    def __pow__(self, o): return self._b("pow", o)
    def __rpow__(self, o): return self._b("pow", o, True)
    def __lt__(self, o): return self._b("lt", o)
    def __le__(self, o): return self._b("le", o)
    def __gt__(self, o): return self._b("gt", o)
    def __ge__(self, o): return self._b("ge", o)
    def __eq__(self, o): return self._b("eq", o)
    def __ne__(self, o): return self._b("ne", o)
    def __and__(self, o): return self._b("and", o)
    def __or__(self, o): return self._b("or", o)
    def __matmul__(self, o): return matmul(self, as_sym(o))
    def __rmatmul__(self, o): return matmul(as_sym(o), self)

    def __neg__(self):
        return unary(lambda e: -e, self)

    def __abs__(self):
        return unary(lambda e: z3.If(e < 0, -e, e), self)

    def __invert__(self):
        e = self.elt
        return SymArr(self.dims, lambda *i: z3.Not(e(*i)), "bool", self.mask)

    # reductions
    def sum(self, axis=None):
        return arr_sum(self, axis)

    def any(self):
        return arr_any(self)

    def all(self):
        return arr_all(self)

    def min(self):
        return arr_min(self)

    def max(self):
        return arr_max(self)

    def dot(self, o):
        return matmul(self, as_sym(o))

    def flatten(self):
        if self.ndim == 1:
            return self.copy()
        raise Unsupported("flatten")

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape_units(self, shape)

    def squeeze(self):
        return reshape_units(self, [dim_out(d) for d in self.dims if not dims_equal(d, 1)])


def reshape_units(a, shape):
    """Reshapes which only insert or drop axes of length one."""
    if a.mask is not None:
        raise Unsupported("reshape of a masked symbolic array")
    want = [dim(x) for x in shape]
    keep = [i for i, d in enumerate(a.dims) if not dims_equal(d, 1)]
    wild = [i for i, d in enumerate(want) if not z3.is_expr(d) and d == -1]
    if len(wild) > 1:
        raise ValueError("can only specify one unknown dimension")
    src = {}                       # axis of the result -> axis of the source
    rest = list(keep)

    def take(order, pos):
        for i in order:
            if i in wild:
                return
            if rest and dims_equal(a.dims[rest[pos]], want[i]):
                src[i] = rest.pop(pos)
            elif not dims_equal(want[i], 1):
                raise Unsupported("reshape")

    take(range(len(want)), 0)
    if wild:
        take(range(len(want) - 1, -1, -1), -1)
        if len(rest) > 1:
            raise Unsupported("reshape")
        if rest:
            src[wild[0]] = rest.pop()
        want[wild[0]] = a.dims[src[wild[0]]] if wild[0] in src else 1
    if rest:
        raise Unsupported("reshape")
    back = {v: k for k, v in src.items()}
    e = a.elt

    def elt(*ix):
        return e(*[ix[back[i]] if i in back else z3.IntVal(0) for i in range(len(a.dims))])

    return SymArr(want, elt, a.kind)


def wrap_elt(e):
    e = z3.simplify(e)
    if e.sort() == z3.BoolSort():
        return mkbool(e)
    if e.sort() == z3.IntSort():
        return e.as_long() if z3.is_int_value(e) else SymInt(e)
    return SymReal(e, True)


def _mask_fn(m, base):
    e = m.elt
    return lambda i: e(i)


def norm_slice(s, d):
    """(start, stop) as z3/py ints; step must be 1."""
    if s.step is not None and not (not is_sym(s.step) and s.step == 1):
        raise Unsupported("strided slice of a symbolic array")

    def edge(v, default):
        if v is None:
            return default
        e = dim(int_expr(v)) if is_sym(v) else int(v)
        if not z3.is_expr(e) and not z3.is_expr(d):
            return max(0, min(d, e + d if e < 0 else e))
        ee, de = dim_e(e), dim_e(d)
        c = ctx()
        if c.decide(ee < 0):
            ee = z3.simplify(ee + de)
            if c.decide(ee < 0):
                return 0
        if c.decide(ee > de):
            return d
        return dim(ee)

    start = edge(s.start, 0)
    stop = edge(s.stop, d)
    if not z3.is_expr(start) and not z3.is_expr(stop):
        stop = max(start, stop)
    elif not ctx().decide(dim_e(start) <= dim_e(stop)):
        stop = start
    return start, stop


def norm_index(k, d):
    if isinstance(k, (bool,)) or isinstance(k, (float, SymReal)):
        raise IndexError("only integers, slices are valid indices")
    e = dim(int_expr(k)) if is_sym(k) else int(k)
    if not z3.is_expr(e) and not z3.is_expr(d):
        if e < -d or e >= d:
            raise IndexError("index out of bounds")
        return e + d if e < 0 else e
    ee, de = dim_e(e), dim_e(d)
    c = ctx()
    if c.decide(ee < 0):
        ee = z3.simplify(ee + de)
        if c.decide(ee < 0):
            raise IndexError("index out of bounds")
    if not c.decide(ee < de):
        raise IndexError("index out of bounds")
    return dim(ee)


def as_sym(x):
    if isinstance(x, SymArr):
        return x
    if isinstance(x, (list, tuple)):
        x = [as_scalar(v) if not isinstance(v, (list, tuple, _np.ndarray)) else v for v in x]
        x = _np.array(x, dtype=object) if any(is_sym(v) for v in x) else _np.array(x)
    if isinstance(x, _np.ndarray):
        if x.ndim == 0:
            return as_sym(x.item())
        arr = x

        kind = "bool" if arr.dtype == bool else (
            "int" if arr.dtype.kind in "iu" else "real")

        def elt(*i):
            i = [z3.simplify(k) for k in i]
            if all(z3.is_int_value(k) for k in i):
                return _term(arr[tuple(k.as_long() for k in i)], kind)
            # If-chain over concrete positions
            out = None
            for pos in _np.ndindex(*arr.shape):
                t = _term(arr[pos], kind)
                cond = z3.And(*[k == p for k, p in zip(i, pos)])
                out = t if out is None else z3.If(cond, t, out)
            if out is None:
                raise Unsupported("element of an empty array")
            return out

        return SymArr(arr.shape, elt, kind)
    # scalar
    if isinstance(x, (SymBool, bool, _np.bool_)):
        e = bool_expr(x)
        return SymArr((), lambda: e, "bool")
    if isinstance(x, (SymInt, int, _np.integer)):
        e = int_expr(x)
        return SymArr((), lambda: e, "int")
    if isinstance(x, (SymReal, float, _np.floating)):
        if isinstance(x, (float, _np.floating)) and not math.isfinite(x):
            raise Unsupported("non-finite scalar mixed into a symbolic array")
        e = real_expr(x)
        return SymArr((), lambda: e, "real")
    if hasattr(x, "__pv_asarr__"):
        return x.__pv_asarr__()
    raise Unsupported(f"array from {type(x).__name__}")


def as_scalar(v):
    return v


def _term(v, kind):
    if kind == "bool":
        return bool_expr(v)
    if kind == "int":
        return int_expr(v)
    return real_expr(v)


def broadcast(a, b):
    """-> dims, fa, fb (index adaptors)"""
    n = max(a.ndim, b.ndim)
    da = (1,) * (n - a.ndim) + a.dims
    db = (1,) * (n - b.ndim) + b.dims
    out, sa, sb = [], [], []
    for i, (x, y) in enumerate(zip(da, db)):
        if not z3.is_expr(x) and x == 1:
            out.append(y); sa.append(False); sb.append(True)
        elif not z3.is_expr(y) and y == 1:
            out.append(x); sa.append(True); sb.append(False)
        elif dims_equal(x, y):
            out.append(x); sa.append(True); sb.append(True)
        else:
            raise ValueError("operands could not be broadcast together")
    offa, offb = n - a.ndim, n - b.ndim

    def fa(i):
        return [i[k] if sa[k] else z3.IntVal(0) for k in range(offa, n)]

    def fb(i):
        return [i[k] if sb[k] else z3.IntVal(0) for k in range(offb, n)]

    return out, fa, fb


def _combine_masks(a, b):
    if a.mask is None:
        return b.mask if a.ndim == 0 or b.mask is None else "bad"
    if b.mask is None:
        return a.mask if b.ndim == 0 else "bad"
    k = tmp_index()
    if z3.simplify(a.mask(k)).eq(z3.simplify(b.mask(k))):
        return a.mask
    # numpy compacts: equal masks semantically are required
    s = z3.Solver()
    s.set("timeout", 3000)
    s.add(*ctx().pc)
    s.add(k >= 0, k < dim_e(a.dims[0]), a.mask(k) != b.mask(k))
    if s.check() == z3.unsat:
        return a.mask
    return "bad"


def ew(op, a, b):
    mask = _combine_masks(a, b)
    if isinstance(mask, str):
        raise Unsupported("elementwise operation between different selections")
    dims, fa, fb = broadcast(a, b)
    if op in ("and", "or"):
        f = z3.And if op == "and" else z3.Or
        return SymArr(dims, lambda *i: f(a.elt(*fa(i)), b.elt(*fb(i))), "bool", mask)
    if op in ("lt", "le", "gt", "ge", "eq", "ne"):
        def cmp(*i):
            x, y = a.relt(*fa(i)), b.relt(*fb(i))
            return {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y,
                    "eq": x == y, "ne": x != y}[op]
        return wrap0(SymArr(dims, cmp, "bool", mask))
    if op == "pow":
        if b.ndim == 0:
            c = z3.simplify(b.relt())
            if z3.is_rational_value(c):
                fr = c.as_fraction()
                return unary(lambda e: term_pow(e, fr), a)
        raise Unsupported("array ** array")

    if a.kind == "int" and b.kind == "int" and op in ("add", "sub", "mul"):
        def iar(*i):
            x, y = a.elt(*fa(i)), b.elt(*fb(i))
            return {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y}[op]()
        return wrap0(SymArr(dims, iar, "int", mask))

    def ar(*i):
        x, y = a.relt(*fa(i)), b.relt(*fb(i))
        if op == "add":
            return x + y
        if op == "sub":
            return x - y
        if op == "mul":
            return x * y
        return x * term_recip(y)

    return wrap0(SymArr(dims, ar, "real", mask))


def wrap0(a):
    return wrap_elt(a.elt()) if a.ndim == 0 else a


def term_recip(y):
    y = z3.simplify(y)
    if z3.is_rational_value(y) and y.as_fraction() != 0:
        fr = 1 / y.as_fraction()
        return z3.RealVal(f"{fr.numerator}/{fr.denominator}")
    # products of reciprocals keep sums of products canonical
    if z3.is_mul(y):
        r = z3.RealVal(1)
        for c in y.children():
            r = r * term_recip(c)
        return r
    return z3.RealVal(1) / y


def term_pow(e, fr):
    from fractions import Fraction

    if fr.denominator == 1 and abs(fr.numerator) <= 8:
        r = z3.RealVal(1)
        for _ in range(abs(fr.numerator)):
            r = r * e
        return term_recip(r) if fr < 0 else r
    if fr.denominator == 2:
        f = ctx().shared.func("sqrt", [z3.RealSort()])
        return term_pow(f(e), Fraction(fr.numerator))
    f = ctx().shared.func(f"pow[{fr}]", [z3.RealSort()])
    return f(e)


def unary(f, a):
    if not isinstance(a, SymArr):
        a = as_sym(a)
    e = a.relt
    return wrap0(SymArr(a.dims, lambda *i: f(e(*i)), "real", a.mask))


# -- sums -------------------------------------------------------------------------


class SumInfo:
    __slots__ = ("n", "body", "var", "kind", "params")

    def __init__(self, n, body, var, kind="sum", params=()):
        self.n, self.body, self.var, self.kind, self.params = n, body, var, kind, list(params)


def _vars_of(e):
    out, seen, st = set(), set(), [e]
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(t.decl().name())
        st.extend(t.children())
    return out


def _bound(d):
    return z3.Int(f"k!{d}")


def reduce_atom(kind, n, body_fn):
    """Canonical term for a reduction of body over 0..n-1 (no splitting)."""
    t = tmp_index()
    body = z3.simplify(body_fn(t), som=True)
    return _atom(kind, n, body, t)


def _atom(kind, n, body, t):
    sh = ctx().shared
    used = _vars_of(body) | (_vars_of(n) if z3.is_expr(n) else set())
    d = 0
    while f"k!{d}" in used:
        d += 1
    b = _bound(d)
    body = z3.substitute(body, (t, b))
    body = z3.simplify(body, som=True)
    ne = dim_e(n)
    free = sorted(v for v in used if v.startswith("k!") or v.startswith("t!"))
    free = [v for v in free if v != t.decl().name()]
    # temporaries belonging to an enclosing reduction are parameters of the atom
    params = [z3.Int(v) for v in free]
    # abstract the enclosing temporaries so that the atom name does not depend on them
    canon = [(p, z3.Int(f"p!{i}")) for i, p in enumerate(params)]
    cb = z3.substitute(body, *canon) if canon else body
    cn = z3.substitute(ne, *canon) if canon else ne
    key = (kind, cn.get_id(), cb.get_id(), d)
    tab = sh.__dict__.setdefault("sum_keys", {})
    if key not in tab:
        nm = f"{kind}#{len(tab)}"
        tab[key] = nm
        sh.keep.append((cb, cn))
        sh.sums[nm] = SumInfo(ne, body, b, kind, params)
    nm = tab[key]
    if not params:
        atom = z3.Real(nm)
        if kind == "sum" and _nonneg(body):
            seen = ctx().__dict__.setdefault("nonneg_sums", set())
            if nm not in seen:
                seen.add(nm)
                ctx().fact(atom >= 0)
        return atom
    f = z3.Function(nm, *[z3.IntSort()] * len(params), z3.RealSort())
    sh.keep.append(f)
    return f(*params)


def _nonneg(e):
    """Syntactically non-negative term (indicator sums)."""
    if z3.is_rational_value(e):
        return e.as_fraction() >= 0
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        return _nonneg(e.arg(1)) and _nonneg(e.arg(2))
    return False


def factors(e):
    if z3.is_mul(e):
        out = []
        for c in e.children():
            out.extend(factors(c))
        return out
    if z3.is_app_of(e, z3.Z3_OP_UMINUS):
        return [z3.RealVal(-1)] + factors(e.arg(0))
    return [e]


def addends(e):
    if z3.is_add(e):
        out = []
        for c in e.children():
            out.extend(addends(c))
        return out
    if z3.is_sub(e):
        ch = e.children()
        out = addends(ch[0])
        for c in ch[1:]:
            out.extend(-x for x in addends(c))
        return out
    return [e]


def mk_sum(n, body_fn):
    """Sum_{0<=k<n} body_fn(k), linear in its monomials."""
    if not z3.is_expr(n):
        r = z3.RealVal(0)
        for k in range(n):
            r = r + body_fn(z3.IntVal(k))
        return z3.simplify(r)
    t = tmp_index()
    body = z3.simplify(body_fn(t), som=True)
    tn = t.decl().name()
    groups = {}
    out = z3.RealVal(0)
    for m in addends(body):
        inside, outside = [], z3.RealVal(1)
        for f in factors(m):
            if tn in _vars_of(f):
                inside.append(f)
            else:
                outside = outside * f
        if not inside:
            out = out + outside * z3.ToReal(n)
            continue
        inner = inside[0]
        for f in inside[1:]:
            inner = inner * f
        inner = z3.simplify(inner, som=True)
        g = groups.setdefault(inner.get_id(), [inner, z3.RealVal(0)])
        g[1] = g[1] + outside
    for inner, coef in groups.values():
        out = out + coef * _atom("sum", n, inner, t)
    return z3.simplify(out, som=True)


def arr_sum(a, axis=None):
    if not isinstance(a, SymArr):
        a = as_sym(a)
    if a.mask is not None:
        m = a.mask
        base = a.relt
        return SymReal(mk_sum(a.dims[0], lambda i: z3.If(m(i), base(i), z3.RealVal(0))), True)
    if a.ndim == 0:
        return wrap_elt(a.relt())
    if axis is None:
        if a.ndim == 1:
            return SymReal(mk_sum(a.dims[0], a.relt), True)
        if a.ndim == 2:
            return SymReal(
                mk_sum(a.dims[0], lambda i: mk_sum(a.dims[1], lambda j: a.relt(i, j))), True)
        raise Unsupported("sum of a 3-d array")
    if a.ndim == 1 and axis in (0, -1):
        return SymReal(mk_sum(a.dims[0], a.relt), True)
    if a.ndim == 2:
        axis = axis % 2
        if axis == 1:
            return SymArr((a.dims[0],), lambda i: mk_sum(a.dims[1], lambda j: a.relt(i, j)))
        return SymArr((a.dims[1],), lambda j: mk_sum(a.dims[0], lambda i: a.relt(i, j)))
    raise Unsupported("sum along an axis")


def matmul(a, b):
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    k1, k2 = a.dims[-1], b.dims[0] if b.ndim == 1 else b.dims[-2]
    if not dims_equal(k1, k2):
        raise ValueError("matmul: dimension mismatch")
    if a.ndim == 1 and b.ndim == 1:
        # (x @ M) @ y and x @ (M @ y) are the same double sum
        if a.meta and a.meta[0] == "vm":
            return quad(a.meta[1], a.meta[2], b)
        if b.meta and b.meta[0] == "mv":
            return quad(a, b.meta[1], b.meta[2])
        return SymReal(mk_sum(k1, lambda k: a.relt(k) * b.relt(k)), True)
    if a.ndim == 2 and b.ndim == 1:
        return SymArr((a.dims[0],), lambda i: mk_sum(k1, lambda k: a.relt(i, k) * b.relt(k)),
                      meta=("mv", a, b))
    if a.ndim == 1 and b.ndim == 2:
        return SymArr((b.dims[1],), lambda j: mk_sum(k1, lambda k: a.relt(k) * b.relt(k, j)),
                      meta=("vm", a, b))
    if a.ndim == 2 and b.ndim == 2:
        da = getattr(a, "meta", None)
        if a.meta and a.meta[0] == "diag":
            return SymArr((a.dims[0], b.dims[1]), lambda i, j: a.meta[1](i) * b.relt(i, j))
        if b.meta and b.meta[0] == "diag":
            return SymArr((a.dims[0], b.dims[1]), lambda i, j: a.relt(i, j) * b.meta[1](j))
        return SymArr((a.dims[0], b.dims[1]),
                      lambda i, j: mk_sum(k1, lambda k: a.relt(i, k) * b.relt(k, j)))
    raise Unsupported("matmul of high rank")


def quad(x, m, y):
    """x M y as one double sum (outer over rows)."""
    return SymReal(mk_sum(m.dims[0], lambda i: x.relt(i) * mk_sum(
        m.dims[1], lambda j: m.relt(i, j) * y.relt(j))), True)


# -- quantified reductions ----------------------------------------------------------


def forall(n, body, extra=()):
    k = z3.Int(f"q!{ctx().fresh_n}")
    ctx().fresh_n += 1
    return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < dim_e(n)), body(k)))


def exists_decide(dims, body):
    """Decide whether some index satisfies body; facts are skolemised."""
    c = ctx()
    if all(not z3.is_expr(d) for d in dims):
        import itertools

        idx = itertools.product(*[range(d) for d in dims])
        e = z3.Or(*[body(*[z3.IntVal(i) for i in t]) for t in idx]) if 0 not in dims else z3.BoolVal(False)
        return c.decide(e)
    ks = [z3.Int(f"sk!{c.fresh_n + i}") for i in range(len(dims))]
    c.fresh_n += len(dims)
    rng = z3.And(*[z3.And(k >= 0, k < dim_e(d)) for k, d in zip(ks, dims)])
    b = c.fresh("any", "bool")
    # b  <=> exists k. body ;  skolemised on the true side, quantified on the false side
    c.fact(z3.Implies(b, z3.And(rng, body(*ks))))
    qs = [z3.Int(f"qa!{c.fresh_n + i}") for i in range(len(dims))]
    c.fresh_n += len(dims)
    rq = z3.And(*[z3.And(k >= 0, k < dim_e(d)) for k, d in zip(qs, dims)])
    val = c.decide(b)
    if not val:
        c.fact(z3.ForAll(qs, z3.Implies(rq, z3.Not(body(*qs)))))
        if len(c.taken) >= len(c.prefix) and not c.feasible():
            from .core import PathEnd

            raise PathEnd("no element")
    return val


def arr_any(a):
    if not isinstance(a, SymArr):
        return a
    if a.mask is not None:
        raise Unsupported("any() of a selection")
    return exists_decide(a.dims, lambda *i: a.elt(*i) if a.kind == "bool" else a.relt(*i) != 0)


def arr_all(a):
    if not isinstance(a, SymArr):
        return a
    return not exists_decide(
        a.dims, lambda *i: z3.Not(a.elt(*i)) if a.kind == "bool" else a.relt(*i) == 0)


def _extremum(a, kind):
    if not isinstance(a, SymArr):
        a = as_sym(a)
    if a.ndim == 0:
        return wrap_elt(a.relt())
    c = ctx()
    m = a.mask
    if a.ndim == 2:
        sel = lambda *i: z3.BoolVal(True)
    else:
        sel = (lambda i: m(i)) if m is not None else (lambda i: z3.BoolVal(True))
    if not exists_decide(a.dims, lambda *i: sel(*i)):
        raise ValueError("zero-size array to reduction operation has no identity")
    if all(not z3.is_expr(d) for d in a.dims) and a.mask is None and a.ndim == 1:
        r = a.relt(z3.IntVal(0))
        for k in range(1, a.dims[0]):
            x = a.relt(z3.IntVal(k))
            r = z3.If(x < r, x, r) if kind == "min" else z3.If(x > r, x, r)
        return mkreal(r, True)
    if a.ndim == 1:
        t = tmp_index()
        body = z3.simplify(z3.If(sel(t), a.relt(t), z3.RealVal(0)), som=True)
        r = _atom(kind, dim_e(a.dims[0]), body, t)
        mb = z3.simplify(sel(t))
        # the selection is part of the identity of the extremum
        r = ctx().app(f"{kind}_of", [r, _atom("sel", dim_e(a.dims[0]),
                                              z3.If(mb, z3.RealVal(1), z3.RealVal(0)), t)])
    else:
        r = c.fresh(kind)
    done = c.events.setdefault("extrema", set())
    if r.get_id() not in done:
        done.add(r.get_id())
        c.shared.keep.append(r)
        ks = [c.fresh("arg", "int") for _ in a.dims]
        c.fact(z3.And(*[z3.And(k >= 0, k < dim_e(d)) for k, d in zip(ks, a.dims)], sel(*ks),
                      a.relt(*ks) == r))
        qs = [c.fresh("qx", "int") for _ in a.dims]
        rng = z3.And(*[z3.And(k >= 0, k < dim_e(d)) for k, d in zip(qs, a.dims)], sel(*qs))
        bound = a.relt(*qs) >= r if kind == "min" else a.relt(*qs) <= r
        c.fact(z3.ForAll(qs, z3.Implies(rng, bound)))
    return SymReal(r, True)


def arr_min(a):
    return _extremum(a, "min")


def arr_max(a):
    return _extremum(a, "max")
