"""Lists with a symbolic number of repeated (or computed) entries: ``[x] * n``, ``[f(i) for i in
range(n)]`` and concatenations of them with ordinary lists."""

import z3

from .arrays import SymArr, as_sym, dim, dim_e
from .core import Unsupported, ctx
from .values import Sym, SymInt, int_expr, is_sym, mkbool


class SymRange:
    __pv_range__ = True

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def __pv_len__(self):
        n = self.hi - self.lo
        return n if ctx().decide(int_expr(n) >= 0) else 0

    def __iter__(self):
        """Enumerates the feasible lengths (bounded, see SymInt.__index__)."""
        i = self.lo
        while True:
            if not bool(i < self.hi):
                return
            yield i
            i = i + 1
            self.count = getattr(self, "count", 0) + 1
            if self.count > 12:
                raise Unsupported("iteration over a symbolic range")


def pv_range(*args):
    if not any(isinstance(a, SymInt) for a in args):
        return range(*args)
    if len(args) == 1:
        return SymRange(0, args[0])
    if len(args) == 2:
        return SymRange(args[0], args[1])
    raise Unsupported("range with a step")


class SymList(Sym):
    """Concatenation of parts: python lists and (count, index -> element) runs."""

    def __init__(self, parts):
        self.parts = []
        for p in parts:
            if isinstance(p, list):
                if not p:
                    continue
                if self.parts and isinstance(self.parts[-1], list):
                    self.parts[-1] = self.parts[-1] + list(p)
                else:
                    self.parts.append(list(p))
            else:
                self.parts.append(p)

    def __pv_len__(self):
        n = z3.IntVal(0)
        for p in self.parts:
            n = n + (len(p) if isinstance(p, list) else dim_e(dim(p[0])))
        n = z3.simplify(n)
        return n.as_long() if z3.is_int_value(n) else SymInt(n)

    def __len__(self):
        n = self.__pv_len__()
        if isinstance(n, SymInt):
            raise Unsupported("native len() of a list of symbolic length")
        return n

    def __iter__(self):
        for p in self.parts:
            if isinstance(p, list):
                yield from p
            else:
                for i in SymRange(0, SymInt(dim_e(dim(p[0])))):
                    yield p[1](i)

    def __bool__(self):
        n = self.__pv_len__()
        return bool(n != 0)

    def __add__(self, o):
        if isinstance(o, SymList):
            return SymList(self.parts + o.parts)
        if isinstance(o, (list, tuple)) and isinstance(o, list):
            return SymList(self.parts + [o])
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, list):
            return SymList([o] + self.parts)
        return NotImplemented

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported("slice of a symbolic list with a step")
            out = SymList(self.parts)
            if k.stop is not None:
                if isinstance(k.stop, int) and k.stop >= 0 and out.parts and isinstance(
                        out.parts[0], list) and len(out.parts[0]) >= k.stop:
                    return out.parts[0][k]
                raise Unsupported("slice end of a symbolic list")
            a = k.start or 0
            if isinstance(a, int) and a >= 0:
                parts = list(out.parts)
                while a > 0 and parts and isinstance(parts[0], list):
                    t = min(a, len(parts[0]))
                    parts[0] = parts[0][t:]
                    a -= t
                    if not parts[0]:
                        parts.pop(0)
                if a == 0:
                    return SymList(parts)
            raise Unsupported("slice start of a symbolic list")
        if isinstance(k, SymInt) or isinstance(k, int):
            i = k
            n = self.__pv_len__()
            if bool(i < 0):
                i = n + i
            if bool(i < 0) or not bool(i < n):
                raise IndexError("list index out of range")
            for p in self.parts:
                m = len(p) if isinstance(p, list) else dim(p[0])
                m = SymInt(m) if z3.is_expr(m) else m
                if bool(i < m):
                    if isinstance(p, list):
                        for j, x in enumerate(p):
                            if bool(i == j):
                                return x
                    return p[1](i)
                i = i - m
        raise TypeError("list indices must be integers or slices")

    def __setitem__(self, k, v):
        if isinstance(k, int) and k >= 0 and self.parts and isinstance(self.parts[0], list) \
                and k < len(self.parts[0]):
            self.parts[0][k] = v
            return
        raise Unsupported("assignment into a symbolic list")

    def __deepcopy__(self, memo):
        return SymList([list(p) if isinstance(p, list) else p for p in self.parts])

    __copy__ = copy = lambda self: self.__deepcopy__({})

    def __contains__(self, x):
        raise Unsupported("membership in a symbolic list")

    def __eq__(self, o):
        if self is o:
            return True
        raise Unsupported("comparison of symbolic lists")

    __hash__ = None

    def __repr__(self):
        return "<symlist>"

    def __format__(self, spec):
        return "<symlist>"

    def __pv_asarr__(self):
        parts = [as_sym(p) if isinstance(p, list) else
                 SymArr((p[0],), lambda i, p=p: as_sym(p[1](SymInt(i))).relt()) for p in self.parts]
        from .facade import np_concatenate

        return np_concatenate(parts)


def pv_repeat(a, b):
    """``a * b`` where one operand is a list display."""
    if isinstance(a, list) and isinstance(b, SymInt):
        a, b = b, a
    if isinstance(b, list) and isinstance(a, SymInt):
        n = a if ctx().decide(a.e >= 0) else 0
        if isinstance(n, int):
            return []
        if len(b) == 1:
            x = b[0]
            return SymList([(n, lambda i: x)])
        m = z3.IntVal(len(b))
        xs = list(b)

        def at(i):
            j = SymInt(z3.simplify(int_expr(i) % m))
            for k, x in enumerate(xs):
                if bool(j == k):
                    return x

        return SymList([(SymInt(z3.simplify(n.e * m)), at)])
    return a * b


def pv_comp(f, it):
    """``[f(i) for i in it]``."""
    if isinstance(it, SymRange):
        n = it.__pv_len__()
        if isinstance(n, int):
            return [f(it.lo + k) for k in range(n)]
        return SymList([(n, lambda i: f(it.lo + i))])
    return [f(x) for x in it]
