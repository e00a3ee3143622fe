"""Symbolic proxies for Python/numpy scalars."""

import math
import operator

import numpy as _np
import z3

from . import core
from .core import Unsupported, ctx, q

INF, NAN = float("inf"), float("nan")


def is_sym(x):
    return isinstance(x, Sym)


class Sym:
    """Base class of every proxy."""

    __slots__ = ()


def real_expr(x):
    """z3 Real term of a scalar (finite)."""
    if isinstance(x, SymReal):
        return x.e
    if isinstance(x, SymInt):
        return z3.ToReal(x.e)
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, (bool, int, float, _np.integer, _np.floating, _np.bool_)):
        return q(float(x) if isinstance(x, (float, _np.floating)) else int(x))
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return real_expr(x.item())
    raise Unsupported(f"no real term for {type(x).__name__}")


def int_expr(x):
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (bool, int, _np.integer)):
        return z3.IntVal(int(x))
    raise Unsupported(f"no int term for {type(x).__name__}")


def bool_expr(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, (bool, _np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, SymReal):
        return x.e != 0
    if isinstance(x, SymInt):
        return x.e != 0
    if z3.is_expr(x):
        return x
    raise Unsupported(f"no bool term for {type(x).__name__}")


def _special(x):
    return isinstance(x, (float, _np.floating)) and not math.isfinite(x)


def _scalar(x):
    return isinstance(x, (SymReal, SymInt, SymBool, bool, int, float, _np.number, _np.bool_))


def _isnp(x):
    if isinstance(x, SymReal):
        return x.isnp
    return isinstance(x, _np.generic)


def mkreal(e, isnp=False):
    e = z3.simplify(e)
    if z3.is_rational_value(e) and False:
        return e
    return SymReal(e, isnp)


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def sign_fork(x):
    """-1, 0 or 1 for a symbolic real (forks)."""
    if ctx().decide(x > 0):
        return 1
    if ctx().decide(x < 0):
        return -1
    return 0


_DEFER = object()


def _each(f, op, a, b):
    """Scalar and array of symbolic scalars: entry by entry, with numpy scalars' semantics."""
    left = isinstance(a, _np.ndarray)
    arr, x = (a, b) if left else (b, a)
    x = SymReal(x.e, True) if isinstance(x, SymReal) else x
    out = _np.empty(arr.shape, dtype=object)
    for i in _np.ndindex(*arr.shape):
        out[i] = f(op, arr[i], x) if left else f(op, x, arr[i])
    # numpy compares arrays of objects entry by entry and keeps the truth values
    return out if f is arith else out.astype(bool)


def arith(op, a, b):
    """a op b for scalars, at least one symbolic."""
    if hasattr(a, "__pv_array__") or hasattr(b, "__pv_array__"):
        return NotImplemented
    if isinstance(a, _np.ndarray) and a.ndim > 0 or isinstance(b, _np.ndarray) and b.ndim > 0:
        from .arrays import as_sym, ew

        if any(isinstance(x, _np.ndarray) and x.dtype == object for x in (a, b)):
            return _each(arith, op, a, b)
        return ew(op, as_sym(a), as_sym(b))
    if not _scalar(a) or not _scalar(b):
        return NotImplemented
    isnp = _isnp(a) or _isnp(b)
    if _special(a) or _special(b):
        return special_arith(op, a, b, isnp)
    if isinstance(a, (SymInt, int, bool, SymBool, _np.integer)) and isinstance(
        b, (SymInt, int, bool, SymBool, _np.integer)
    ):
        if op in ("add", "sub", "mul"):
            x, y = int_expr(a), int_expr(b)
            return SymInt(z3.simplify({"add": x + y, "sub": x - y, "mul": x * y}[op]))
        if op in ("floordiv", "mod"):
            x, y = int_expr(a), int_expr(b)
            if ctx().decide(y == 0):
                raise ZeroDivisionError("integer division or modulo by zero")
            if not ctx().decide(y > 0):
                raise Unsupported("floor division by a negative integer")
            return SymInt(z3.simplify(x / y if op == "floordiv" else x % y))
    x, y = real_expr(a), real_expr(b)
    if op == "add":
        return mkreal(x + y, isnp)
    if op == "sub":
        return mkreal(x - y, isnp)
    if op == "mul":
        return mkreal(x * y, isnp)
    if op == "truediv":
        return div(x, y, isnp)
    if op == "pow":
        return power(a, b, isnp)
    raise Unsupported(f"operator {op} on symbolic scalars")


def div(x, y, isnp):
    if ctx().decide(y == 0):
        if not isnp:
            raise ZeroDivisionError("float division by zero")
        s = sign_fork(x)
        return _np.float64(INF if s > 0 else -INF if s < 0 else NAN)
    # introduce the quotient as a fresh symbol constrained multiplicatively: r*y = x
    r = quotient(x, y)
    return mkreal(r, isnp)


def quotient(x, y):
    y = z3.simplify(y)
    if z3.is_rational_value(y):
        return x / y
    return x / y


def power(a, b, isnp):
    if not is_sym(b):
        bb = float(b)
        x = real_expr(a)
        if bb == int(bb) and abs(bb) <= 8:
            n = int(abs(bb))
            r = z3.RealVal(1)
            for _ in range(n):
                r = r * x
            if bb < 0:
                return div(z3.RealVal(1), r, isnp)
            return mkreal(r, isnp)
        if bb * 2 == int(bb * 2):
            s = sym_sqrt(a)
            if not is_sym(s):
                return _np.float64(s) ** (2 * bb)
            return power(s, 2 * bb, isnp)
        return mkreal(ctx().app(f"pow[{bb}]", [x]), isnp)
    return mkreal(ctx().app("pow", [real_expr(a), real_expr(b)]), isnp)


def special_arith(op, a, b, isnp):
    """one operand is inf/nan."""
    va, vb = a, b
    if _special(a) and math.isnan(a) or _special(b) and math.isnan(b):
        return _np.float64(NAN) if isnp else NAN
    if op in ("add", "sub"):
        va = 0.0 if is_sym(a) else a
        vb = 0.0 if is_sym(b) else b
    elif op in ("mul", "truediv"):
        if op == "truediv" and is_sym(a):
            return _np.float64(0.0) if isnp else 0.0  # finite / inf
        va = float(sign_fork(real_expr(a))) if is_sym(a) else a
        vb = float(sign_fork(real_expr(b))) if is_sym(b) else b
        if op == "truediv" and vb == 0.0:
            if not isnp:
                raise ZeroDivisionError("float division by zero")
            return _np.float64(INF if va > 0 else -INF)
    else:
        raise Unsupported(f"{op} with a non-finite operand")
    r = {"add": operator.add, "sub": operator.sub, "mul": operator.mul,
         "truediv": operator.truediv}[op](float(va), float(vb))
    return _np.float64(r) if isnp else r


def compare(op, a, b):
    if hasattr(a, "__pv_array__") or hasattr(b, "__pv_array__"):
        return NotImplemented
    if isinstance(a, _np.ndarray) and a.ndim > 0 or isinstance(b, _np.ndarray) and b.ndim > 0:
        from .arrays import as_sym, ew

        if any(isinstance(x, _np.ndarray) and x.dtype == object for x in (a, b)):
            return _each(compare, op, a, b)
        return ew(op, as_sym(a), as_sym(b))
    if not _scalar(a) or not _scalar(b):
        if op == "eq":
            return False
        if op == "ne":
            return True
        return NotImplemented
    if _special(a) or _special(b):
        va = 0.0 if is_sym(a) else float(a)
        vb = 0.0 if is_sym(b) else float(b)
        return getattr(operator, op)(va, vb)
    if isinstance(a, (SymInt, int, bool, SymBool, _np.integer)) and isinstance(
        b, (SymInt, int, bool, SymBool, _np.integer)
    ):
        x, y = int_expr(a), int_expr(b)
    else:
        x, y = real_expr(a), real_expr(b)
    return mkbool({"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y,
                   "eq": x == y, "ne": x != y}[op])


class SymNum(Sym):
    __slots__ = ()
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __add__(self, o): return arith("add", self, o)
    def __radd__(self, o): return arith("add", o, self)
    def __sub__(self, o): return arith("sub", self, o)
    def __rsub__(self, o): return arith("sub", o, self)
    def __mul__(self, o): return arith("mul", self, o)
    def __rmul__(self, o): return arith("mul", o, self)
    def __truediv__(self, o): return arith("truediv", self, o)
    def __rtruediv__(self, o): return arith("truediv", o, self)
    def __pow__(self, o): return arith("pow", self, o)
    def __rpow__(self, o): return arith("pow", o, self)
    def __floordiv__(self, o): return arith("floordiv", self, o)
    def __rfloordiv__(self, o): return arith("floordiv", o, self)
    def __mod__(self, o): return arith("mod", self, o)
    def __rmod__(self, o): return arith("mod", o, self)
    def __lt__(self, o): return compare("lt", self, o)
    def __le__(self, o): return compare("le", self, o)
    def __gt__(self, o): return compare("gt", self, o)
    def __ge__(self, o): return compare("ge", self, o)
    def __eq__(self, o): return compare("eq", self, o)
    def __ne__(self, o): return compare("ne", self, o)
    def __pos__(self): return self
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def copy(self): return self
    def __format__(self, spec): return f"<{self.e}>" if not spec else "<sym>"
    def __repr__(self): return f"<{self.e}>"
    def __reduce__(self): raise Unsupported("pickling a symbolic value")


class SymReal(SymNum):
    """A finite float with a z3 Real term."""

    __slots__ = ("e", "isnp")
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, e, isnp=False):
        self.e = e
        self.isnp = isnp

    def __hash__(self):
        return hash(("pvreal", self.e.get_id()))

    def __neg__(self):
        return mkreal(-self.e, self.isnp)

    def __abs__(self):
        return mkreal(z3.If(self.e < 0, -self.e, self.e), self.isnp)

    def __bool__(self):
        return ctx().decide(self.e != 0)

    def reshape(self, *shape, **kw):
        from .arrays import as_sym

        return as_sym(self).reshape(*shape, **kw)

    def __float__(self):
        raise Unsupported("float() of a symbolic real by native code")

    def __int__(self):
        raise Unsupported("int() of a symbolic real")

    def __index__(self):
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __round__(self, n=None):
        raise Unsupported("round of a symbolic real")

    def astype(self, dtype):
        return cast(self, dtype)

    def item(self):
        return SymReal(self.e)

    def tolist(self):
        return SymReal(self.e)

    def sum(self, *a, **k):
        return self

    def is_integer(self):
        return mkbool(z3.IsInt(self.e))

    @property
    def dtype(self):
        return _np.dtype("float64")

    @property
    def real(self):
        return self


def cast(x, dtype):
    nm = dtype_name(dtype)
    if nm in ("float64", "float", None):
        return SymReal(x.e, True) if isinstance(x, SymReal) else x
    if nm in ("float32", "float16"):
        return SymReal(ctx().app(f"round_{nm}", [real_expr(x)]), True)
    raise Unsupported(f"cast to {nm}")


def dtype_name(dtype):
    if dtype is None:
        return None
    if isinstance(dtype, str):
        return _np.dtype(dtype).name
    pv = getattr(dtype, "__pv_native__", None)
    if pv is not None:
        dtype = pv
    return _np.dtype(dtype).name


class SymInt(SymNum):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __hash__(self):
        return hash(("pvint", self.e.get_id()))

    def __neg__(self):
        return SymInt(z3.simplify(-self.e))

    def __abs__(self):
        return SymInt(z3.simplify(z3.If(self.e < 0, -self.e, self.e)))

    def __bool__(self):
        return ctx().decide(self.e != 0)

    def __float__(self):
        raise Unsupported("float() of a symbolic int by native code")

    def __int__(self):
        return self.__index__()

    def __index__(self):
        """Concretise by case split over the feasible values (bounded)."""
        c = ctx()
        if z3.is_int_value(z3.simplify(self.e)):
            return z3.simplify(self.e).as_long()
        for k in c.shared.int_range if hasattr(c.shared, "int_range") else range(-4, 13):
            if c.decide(self.e == k):
                return k
        raise Unsupported("unbounded symbolic integer used as a concrete index")


class SymBool(SymNum):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __hash__(self):
        return hash(("pvbool", self.e.get_id()))

    def __bool__(self):
        return ctx().decide(self.e)

    def __mul__(self, o):
        return o * int(bool(self)) if isinstance(o, (str, list, tuple)) else arith("mul", self, o)

    __rmul__ = __mul__

    def __and__(self, o):
        return mkbool(z3.And(self.e, bool_expr(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.e, bool_expr(o)))

    __ror__ = __or__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, bool_expr(o)))

    def any(self):
        return self

    def all(self):
        return self


# -- scalar mathematics ---------------------------------------------------------


def sym_sqrt(x):
    if not is_sym(x):
        return _np.sqrt(x)
    e = real_expr(x)
    if ctx().decide(e < 0):
        return _np.float64(NAN)
    return mkreal(ctx().app("sqrt", [e]), True)


def sym_log(x):
    if not is_sym(x):
        return _np.log(x)
    e = real_expr(x)
    if ctx().decide(e > 0):
        return mkreal(ctx().app("log", [e]), True)
    if ctx().decide(e == 0):
        return _np.float64(-INF)
    return _np.float64(NAN)


def sym_exp(x):
    if not is_sym(x):
        return _np.exp(x)
    return mkreal(ctx().app("exp", [real_expr(x)]), True)


def sym_app(name):
    def f(x):
        if not is_sym(x) and not math.isfinite(x):
            return getattr(_np, name, lambda y: _np.float64(NAN))(x)
        return mkreal(ctx().app(name, [real_expr(x)]), True)

    return f


def sym_min(a, b):
    if _special(a) or _special(b):
        return b if bool(compare("lt", b, a)) else a
    if not is_sym(a) and not is_sym(b):
        return min(a, b)
    if isinstance(a, (SymInt, int)) and isinstance(b, (SymInt, int)):
        x, y = int_expr(a), int_expr(b)
        return SymInt(z3.simplify(z3.If(y < x, y, x)))
    x, y = real_expr(a), real_expr(b)
    return mkreal(z3.If(y < x, y, x), _isnp(a) or _isnp(b))


def sym_max(a, b):
    if _special(a) or _special(b):
        return b if bool(compare("gt", b, a)) else a
    if not is_sym(a) and not is_sym(b):
        return max(a, b)
    if isinstance(a, (SymInt, int)) and isinstance(b, (SymInt, int)):
        x, y = int_expr(a), int_expr(b)
        return SymInt(z3.simplify(z3.If(y > x, y, x)))
    x, y = real_expr(a), real_expr(b)
    return mkreal(z3.If(y > x, y, x), _isnp(a) or _isnp(b))


def sym_clip(x, lo, hi):
    if _special(x) and math.isnan(x):
        return _np.float64(NAN)
    if lo is not None:
        x = sym_max(x, lo)
    if hi is not None:
        x = sym_min(x, hi)
    if isinstance(x, SymReal):
        return SymReal(x.e, True)
    if isinstance(x, (int, float)) and not isinstance(x, bool):
        return _np.float64(x)
    return x


def sym_sign(x):
    if not is_sym(x):
        return _np.sign(x)
    e = real_expr(x)
    return mkreal(z3.If(e > 0, z3.RealVal(1), z3.If(e < 0, z3.RealVal(-1), z3.RealVal(0))), True)


import numbers as _numbers

_numbers.Real.register(SymReal)
_numbers.Integral.register(SymInt)
