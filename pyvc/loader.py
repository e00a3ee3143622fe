"""Mechanical extraction of the code under verification.

Every run reads the current source below /repo/src/spey, parses it and executes it under CPython in
a parallel package whose imports resolve to the facades.  What the extraction changes:

* ``while`` loops are routed through :class:`WhileLoop` (unrolled while the test is decided by the
  path condition; cut at an inductive invariant when the test forks);
* builtins ``float``, ``int``, ``len``, ``max``, ``min`` and imports of numpy / scipy / autograd /
  math / collections.deque / tqdm / iminuit are replaced by stand-ins that accept symbolic values;
* ``[...] * n`` and ``[f(i) for i in range(n)]`` become calls that accept a symbolic ``n``;
* nothing else: no statement is dropped and every intra-repository call runs the repository's code.
"""

import ast
import builtins
import collections
import copy
import importlib
import math as _math
import os
import sys
import types

import numpy as _np
import z3

from . import core
from . import values as V
from .arrays import SymArr, as_sym
from .core import PathEnd, Restart, Unsupported, ctx
from .facade import (NUMPY, ModuleFacade, NormFacade, deep_sym, gammaln, guarded, native,
                     norm_logpdf, poisson_logpmf, FrozenDist)
from .symlist import SymList, SymRange, pv_comp, pv_range, pv_repeat
from .values import Sym, SymBool, SymInt, SymReal, is_sym

REPO_SRC = os.environ.get("PYVC_REPO_SRC", "/repo/src")


# -- builtins stand-ins ------------------------------------------------------------


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (float, SymReal))

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __call__(cls, x=0.0):
        if isinstance(x, SymReal):
            return SymReal(x.e, False)
        if isinstance(x, (SymInt, SymBool)):
            return SymReal(V.real_expr(x), False)
        if isinstance(x, _np.ndarray) and x.dtype == object and x.size == 1:
            return PVFloat(x.reshape(-1)[0])
        if isinstance(x, SymArr):
            raise Unsupported("float() of a symbolic array")
        return float(x)

    def __repr__(cls):
        return "<class 'float'>"


class PVFloat(metaclass=_FloatMeta):
    __pv_native__ = float
    fromhex = float.fromhex


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (int, SymInt, SymBool))

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __call__(cls, x=0, *a):
        if isinstance(x, (SymInt, SymBool)):
            return SymInt(V.int_expr(x))
        if isinstance(x, SymReal):
            c = ctx()
            fl = z3.ToInt(x.e)
            return SymInt(z3.simplify(z3.If(x.e >= 0, fl, -z3.ToInt(-x.e))))
        return int(x, *a) if a else int(x)

    def __repr__(cls):
        return "<class 'int'>"


class PVInt(metaclass=_IntMeta):
    __pv_native__ = int


class _NDMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (_np.ndarray, SymArr))


class PVNdarray(metaclass=_NDMeta):
    __pv_native__ = _np.ndarray


NUMPY._over["ndarray"] = PVNdarray


def pv_len(x):
    if hasattr(x, "__pv_len__"):
        return x.__pv_len__()
    return len(x)


def _ext(kind):
    nat = max if kind == "max" else min
    symf = V.sym_max if kind == "max" else V.sym_min

    def f(*args, **kw):
        if kw or not deep_sym(args):
            return nat(*args, **kw)
        xs = list(args[0]) if len(args) == 1 else list(args)
        if not xs:
            return nat(xs)
        r = xs[0]
        for v in xs[1:]:
            r = symf(r, v)
        return r

    f.__name__ = kind
    return f


class PVDeque(collections.deque):
    """collections.deque whose older content can become unknown (loop cut)."""

    appends = 0

    def append(self, x):
        self.appends += 1
        collections.deque.append(self, x)

    def poison(self):
        self.clear()
        self._known_from_here = True

    def __getitem__(self, i):
        if getattr(self, "_known_from_here", False) and isinstance(i, int):
            if i >= 0 or -i > collections.deque.__len__(self):
                raise Unsupported("deque entry from before a loop cut")
        return collections.deque.__getitem__(self, i)


# -- while loops --------------------------------------------------------------------


class LoopFork(BaseException):
    pass


class Poison(Sym):
    """Value of a local that is unknown after a loop cut."""

    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __getattr__(self, k):
        raise Unsupported(f"local {object.__getattribute__(self, 'name')} is unknown after a loop cut")

    def _bad(self, *a):
        raise Unsupported(f"local {self.name} is unknown after a loop cut")

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = _bad
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __bool__ = __call__ = _bad
    __getitem__ = __iter__ = __len__ = __neg__ = _bad
    __hash__ = object.__hash__


HAVOC = object()
UNB = object()


def _reach(objs, out, depth=0):
    for o in objs:
        if id(o) in out or isinstance(o, (str, bytes, int, float, type(None), Sym, type,
                                          types.ModuleType, types.FunctionType)):
            continue
        if depth > 5:
            continue
        if isinstance(o, (list, tuple, set, collections.deque)):
            out[id(o)] = o
            _reach(list(collections.deque.__iter__(o)) if isinstance(o, PVDeque) else list(o),
                   out, depth + 1)
        elif isinstance(o, dict):
            out[id(o)] = o
            _reach(list(o.values()), out, depth + 1)
        elif isinstance(o, _np.ndarray):
            out[id(o)] = o
        elif type(o).__module__.startswith("spey"):
            out[id(o)] = o
            _reach(list(_attrs(o).values()), out, depth + 1)


def _attrs(o):
    d = dict(getattr(o, "__dict__", {}) or {})
    for k in type(o).__mro__:
        sl = k.__dict__.get("__slots__", ())
        for s in ([sl] if isinstance(sl, str) else sl):
            if hasattr(o, s):
                d[s] = getattr(o, s)
    return d


def _ident(v):
    if isinstance(v, (SymReal, SymInt, SymBool)):
        return ("z", v.e.get_id())
    if isinstance(v, (int, float, str, bool)):
        return ("c", repr(v))
    return ("o", id(v))


def _finger(out):
    fp = {}
    for k, o in out.items():
        if isinstance(o, PVDeque):
            fp[k] = (o.appends,) + tuple(_ident(v) for v in collections.deque.__iter__(o))
            continue
        if isinstance(o, dict):
            fp[k] = tuple((kk if isinstance(kk, (str, int)) else id(kk), _ident(v))
                          for kk, v in o.items())
        elif isinstance(o, _np.ndarray):
            fp[k] = tuple(_ident(v) for v in o.flat)
        elif isinstance(o, (list, tuple, collections.deque)):
            fp[k] = tuple(_ident(v) for v in o)
        elif isinstance(o, set):
            fp[k] = tuple(sorted(repr(v) for v in o))
        else:
            fp[k] = tuple((kk, _ident(v)) for kk, v in _attrs(o).items())
    return fp


def _num_e(v):
    """z3 term of a finite numeric local, or None."""
    if isinstance(v, (SymReal, SymInt)):
        return V.real_expr(v)
    if isinstance(v, bool):
        return None
    if isinstance(v, (int, float, _np.floating, _np.integer)) and _math.isfinite(v):
        return V.real_expr(v)
    return None


class WhileLoop:
    MAX_UNROLL = 60

    def __init__(self, loop_id, modified):
        self.id = loop_id
        self.modified = modified
        self.cut = False
        self.n = 0

    # candidates: (name, op, kind, other)
    def _candidates(self, cur, entry, consts):
        sh = ctx().shared
        out = []
        for v in self.modified:
            if v not in cur or v not in entry:
                continue
            c, e = cur[v], entry[v]
            base = [("entry<=", c >= e), ("entry>=", c <= e), (">0", c > 0), (">=0", c >= 0),
                    ("<0", c < 0), ("<=0", c <= 0)]
            for w, we in consts.items():
                base.append((f">={w}", c >= we))
                base.append((f"<={w}", c <= we))
            for nm, t in base:
                key = (self.id, v, nm)
                if key not in sh.dropped_invariants:
                    out.append((key, t))
        return out

    def _check(self, cands, where):
        c = ctx()
        sh = c.shared
        bad = []
        from . import solve

        for key, t in cands:
            t = z3.simplify(t)
            if z3.is_true(t):
                continue
            s = z3.Solver()
            s.set("timeout", 2000)
            s.add(*c.pc)
            s.add(z3.Not(t))
            if s.check() != z3.unsat:
                bad.append(key)
        if bad:
            sh.dropped_invariants.update(bad)
            raise Restart()
        return len(cands)

    def test(self, thunk, loc):
        c = ctx()
        self.n += 1
        if self.n > self.MAX_UNROLL:
            raise Unsupported("loop unrolling limit")
        if self.cut:
            return bool(thunk())
        saved = getattr(c, "loop_probe", None)
        c.loop_probe = self
        try:
            pos = len(c.taken)
            if pos < len(c.prefix) and c.prefix[pos] == "L":
                c.taken.append("L")
                raise LoopFork()
            return bool(thunk())
        except LoopFork:
            self._loc = dict(loc)
            return HAVOC
        finally:
            c.loop_probe = saved

    def havoc(self, loc):
        c = ctx()
        self.cut = True
        entry = {v: _num_e(loc[v]) for v in self.modified if v in loc}
        entry = {k: e for k, e in entry.items() if e is not None}
        self.entry = entry
        self.consts = {}
        for w, val in loc.items():
            if w in self.modified or w.startswith("__pv"):
                continue
            e = _num_e(val)
            if e is not None and not isinstance(val, (bool,)):
                self.consts[w] = e
        self.entry_vals = dict(loc)
        self.arrs = {}
        self._check(self._candidates(dict(entry), entry, self.consts), "entry")
        reach = {}
        _reach(list(loc.values()), reach)
        for j, o in enumerate(reach.values()):
            if isinstance(o, PVDeque) and (self.id, "deque", j) in c.shared.dropped_invariants:
                o.poison()
        self.reach = reach
        self.fp = _finger(reach)
        new, cur = [], {}
        for v in self.modified:
            if v not in loc:
                new.append(Poison(v))
                continue
            val = loc[v]
            if v in entry:
                if isinstance(val, (int, SymInt)) and not isinstance(val, bool):
                    k = c.fresh(f"h_{v}", "int")
                    new.append(SymInt(k))
                    cur[v] = z3.ToReal(k)
                else:
                    k = c.fresh(f"h_{v}")
                    new.append(SymReal(k, V._isnp(val)))
                    cur[v] = k
            elif isinstance(val, _np.ndarray) and val.ndim and val.size <= 64 and (
                    val.dtype == object or val.dtype.kind == "f"):
                self.arrs[v] = val.shape
                a = _np.empty(val.shape, dtype=object)
                for i in _np.ndindex(*val.shape):
                    a[i] = SymReal(c.fresh(f"h_{v}"), True)
                new.append(a)
            else:
                new.append(Poison(v))
        cands = self._candidates(cur, entry, self.consts)
        for key, t in cands:
            c.add(z3.simplify(t))
        st = c.shared.loop_stats.setdefault(self.id, {})
        st["invariants"] = sorted({f"{k[1]} {k[2]}" for k, _ in cands})
        return tuple(new)

    def back(self, loc):
        if not self.cut:
            return
        cur = {}
        for v in self.entry:
            e = _num_e(loc.get(v, UNB))
            if e is None:
                raise Unsupported(f"local {v} is not a finite number at the loop back-edge")
            cur[v] = e
        for v, shape in self.arrs.items():
            a = loc.get(v)
            if not isinstance(a, _np.ndarray) or a.shape != shape or any(
                    _num_e(x) is None for x in a.flat):
                raise Unsupported(f"array {v} changes its shape inside a cut loop")
        n = self._check(self._candidates(cur, self.entry, self.consts), "preservation")
        fp = _finger(self.reach)
        if fp != self.fp:
            grown = set()
            for j, (k, o) in enumerate(self.reach.items()):
                if isinstance(o, PVDeque) and fp[k] != self.fp[k]:
                    grown.add((self.id, "deque", j))
            if grown - ctx().shared.dropped_invariants:
                ctx().shared.dropped_invariants.update(grown)
                raise Restart()
            fp = {k: x for k, x in fp.items() if not isinstance(self.reach[k], PVDeque)}
            old = {k: x for k, x in self.fp.items() if not isinstance(self.reach[k], PVDeque)}
        else:
            old = fp
        if fp != old:
            raise Unsupported("heap mutated inside a cut loop")
        from .core import Obligation

        ob = Obligation(f"loop invariant preserved [{self.id}]")
        ob.status, ob.backend, ob.path = "discharged", "z3", list(ctx().taken)
        ctx().obl.append(ob)
        raise PathEnd("loop back-edge")


class _LoopRewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.n = 0
        self.fn = []
        self.uid = 0
        self.local = [set()]

    def visit_FunctionDef(self, node):
        self.fn.append(node.name)
        shared = {n for st in node.body for x in _walk_scope(st)
                  if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
        self.local.append(_assigned(node.body) - shared)
        self.generic_visit(node)
        self.local.pop()
        self.fn.pop()
        return node

    def visit_Assign(self, node):
        """``x[i] = v`` for a local ``x``: a numeric array takes a symbolic entry."""
        self.generic_visit(node)
        t = node.targets[0]
        if len(node.targets) == 1 and isinstance(t, ast.Subscript) and isinstance(
                t.value, ast.Name) and t.value.id in self.local[-1] and not any(
                isinstance(x, ast.Slice) for x in ast.walk(t.slice)):
            call = ast.Call(ast.Name("__pv_set__", ast.Load()),
                            [node.value, ast.Name(t.value.id, ast.Load()), t.slice], [])
            return ast.copy_location(
                ast.Assign([ast.Name(t.value.id, ast.Store())], call), node)
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_BinOp(self, node):
        """``[...] * n`` and ``n * [...]``: a symbolic count gives a symbolic list."""
        self.generic_visit(node)
        if isinstance(node.op, ast.Mult) and (isinstance(node.left, ast.List)
                                              or isinstance(node.right, ast.List)):
            return ast.copy_location(ast.Call(ast.Name("__pv_repeat__", ast.Load()),
                                              [node.left, node.right], []), node)
        return node

    def visit_ListComp(self, node):
        """``[f(i) for i in range(...)]`` over a plain name: evaluated per index."""
        self.generic_visit(node)
        g = node.generators[0]
        if len(node.generators) == 1 and not g.ifs and not g.is_async and isinstance(
                g.target, ast.Name) and isinstance(g.iter, ast.Call) and isinstance(
                g.iter.func, ast.Name) and g.iter.func.id == "range" and not any(
                isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom))
                for x in ast.walk(node)):
            lam = ast.Lambda(ast.arguments(posonlyargs=[], args=[ast.arg(g.target.id)],
                                           kwonlyargs=[], kw_defaults=[], defaults=[]), node.elt)
            return ast.copy_location(ast.Call(ast.Name("__pv_comp__", ast.Load()),
                                              [lam, g.iter], []), node)
        return node

    def visit_For(self, node):
        """``for i in range(n)`` with a symbolic ``n``: a counted loop that may be cut."""
        if node.orelse or not (isinstance(node.iter, ast.Call) and isinstance(
                node.iter.func, ast.Name) and node.iter.func.id == "range") or any(
                isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(node)):
            self.generic_visit(node)
            return node
        self.uid += 1
        it, at = f"__pvF{self.uid}", f"pvF{self.uid}_at"
        tmpl = ast.parse(
            f"{it} = None\n"
            f"if __pv_cuts__({it}):\n"
            f"    {at} = {it}.lo\n"
            f"    while {at} < {it}.hi:\n"
            f"        {at} = {at} + 1\n"
            "else:\n"
            f"    for _ in {it}:\n"
            "        pass\n").body
        tmpl[0].value = self.visit(node.iter)
        loop = tmpl[1].body[1]
        loop.body = [ast.Assign([copy.deepcopy(node.target)], ast.Name(at, ast.Load()))] + \
            loop.body + copy.deepcopy(node.body)
        for s in tmpl:
            ast.copy_location(s, node)
            ast.fix_missing_locations(s)
        tmpl[1].body = [tmpl[1].body[0]] + self.visit_While(loop)
        self.generic_visit(node)
        node.iter = ast.copy_location(ast.Name(it, ast.Load()), node)
        tmpl[1].orelse = [node]
        return tmpl

    def visit_While(self, node):
        # rewrite `continue` of this loop before the nested loops are rewritten
        self.n += 1
        self.uid += 1
        lid = f"{self.mod}:{'.'.join(self.fn)}#{self.n}"
        var = f"__pvL{self.uid}"
        mod = sorted(_assigned(node.body) | _assigned_expr(node.test))
        self.generic_visit(node)
        tmpl = ast.parse(
            f"{var} = __pv_while__({lid!r}, {mod!r})\n"
            "while True:\n"
            f"    {var}c = {var}.test(lambda: 0, locals())\n"
            f"    if {var}c is __pv_HAVOC__:\n"
            f"        __HAVOC__\n"
            f"        {var}c = {var}.test(lambda: 0, locals())\n"
            f"    if not {var}c:\n"
            "        break\n"
            f"    {var}.back(locals())\n"
        ).body
        loop = tmpl[1]
        lam = ast.Lambda(
            args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
            body=node.test)
        loop.body[0].value.args[0] = lam
        hv = loop.body[1]
        if mod:
            tgt = ast.Tuple([ast.Name(m, ast.Store()) for m in mod], ast.Store())
            hv.body[0] = ast.Assign([tgt], ast.parse(f"{var}.havoc(locals())", mode="eval").body)
        else:
            hv.body[0] = ast.Expr(ast.parse(f"{var}.havoc(locals())", mode="eval").body)
        hv.body[1].value.args[0] = lam
        back = loop.body.pop()
        if node.orelse:
            loop.body[2].body = list(node.orelse) + [ast.Break()]
        body = [_Cont(back).visit(s) for s in node.body]
        loop.body += body + [back]
        for s in tmpl:
            ast.copy_location(s, node)
            ast.fix_missing_locations(s)
        return tmpl


class _Cont(ast.NodeTransformer):
    """continue -> back-edge bookkeeping + continue (own loop only)."""

    def __init__(self, back):
        self.back = back

    def visit_While(self, n):
        return n

    visit_For = visit_FunctionDef = visit_Lambda = visit_ClassDef = visit_While

    def visit_Continue(self, n):
        return [self.back, n]


def _assigned(stmts):
    out = set()
    for s in stmts:
        for n in _walk_scope(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
    return {v for v in out if not v.startswith("__pvL")}


def _assigned_expr(e):
    return {n.target.id for n in ast.walk(e) if isinstance(n, ast.NamedExpr)}


def _walk_scope(node):
    yield node
    for ch in ast.iter_child_nodes(node):
        if isinstance(ch, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            if hasattr(ch, "name"):
                yield ast.Name(ch.name, ast.Store())
            continue
        if isinstance(ch, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            continue
        yield from _walk_scope(ch)


def pv_cuts(it):
    """True when a loop over ``it`` is to be cut at an invariant (asked for by the contract)."""
    return isinstance(it, SymRange) and getattr(ctx(), "cut_for", False)


def pv_set(value, x, i):
    """``x[i] = value``; a fresh, unshared numeric array becomes an array of objects if needed."""
    if type(x) is _np.ndarray and x.dtype != object and deep_sym(value):
        if sys.getrefcount(x) > 3 or x.base is not None:
            raise Unsupported("symbolic entry of a shared numeric array")
        x = x.astype(object)
    x[i] = value
    return x


# -- the package loader -------------------------------------------------------------


class Loader:
    def __init__(self, externals=None):
        self.mods = {}
        self.ext = default_externals()
        if externals:
            self.ext.update(externals)
        self.builtins = dict(vars(builtins))
        self.builtins.update({
            "float": PVFloat, "int": PVInt, "len": pv_len, "max": _ext("max"),
            "min": _ext("min"), "__import__": self._import, "__pv_while__": WhileLoop,
            "__pv_HAVOC__": HAVOC, "range": pv_range, "__pv_repeat__": pv_repeat, "__pv_comp__": pv_comp,
            "__pv_set__": pv_set, "__pv_cuts__": pv_cuts,
        })
        self.loaded_files = []

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        path = os.path.join(REPO_SRC, *name.split("."))
        if os.path.isdir(path):
            file, pkg = os.path.join(path, "__init__.py"), name
        else:
            file, pkg = path + ".py", name.rpartition(".")[0]
        if not os.path.exists(file):
            raise ImportError(f"No module named {name!r}")
        with open(file, encoding="utf-8") as fh:
            src = fh.read()
        tree = ast.parse(src, file)
        tree = _LoopRewriter(name).visit(tree)
        ast.fix_missing_locations(tree)
        m = types.ModuleType(name)
        m.__file__ = file
        m.__package__ = pkg
        if os.path.isdir(path):
            m.__path__ = [path]
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        self.loaded_files.append(file)
        try:
            exec(compile(tree, file, "exec"), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        par, _, leaf = name.rpartition(".")
        if par in self.mods:
            setattr(self.mods[par], leaf, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = f"{pkg}.{name}" if name else pkg
        if name == "spey" or name.startswith("spey."):
            m = self.module(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f):
                        try:
                            setattr(m, f, self.module(f"{name}.{f}"))
                        except ImportError:
                            pass
                return m
            self.module("spey") if "spey" not in self.mods else None
            return self.mods["spey"]
        if name in self.ext:
            if fromlist:
                return self.ext[name]
            return self.ext[name.split(".")[0]] if name.split(".")[0] in self.ext else \
                builtins.__import__(name)
        return builtins.__import__(name, {}, {}, fromlist, 0)


class _Tqdm:
    def __init__(self, iterable=None, *a, **k):
        self.it = iterable

    def __iter__(self):
        return iter(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def update(self, *a):
        pass

    def close(self):
        pass


class GradPair:
    """autograd.value_and_grad(f): value from the real f, gradient as an opaque token."""

    def __init__(self, f, argnum=0):
        self.f, self.argnum = f, argnum

    def __call__(self, *a, **k):
        return self.f(*a, **k), GradOf(self.f, a)


class GradOf(Sym):
    __slots__ = ("f", "a")

    def __init__(self, f, a):
        self.f, self.a = f, a


class DerivedFn:
    """autograd's gradient, Hessian or Jacobian of f; at a point it stays a token (its meaning is
    autograd's), which can be scaled by a number and nothing else."""

    def __init__(self, kind, f):
        self.kind, self.f = kind, f

    def __call__(self, *a, **k):
        if k or len(a) != 1:
            raise Unsupported(f"evaluating the {self.kind} of a function of more than one argument")
        return DerivedAt(self.kind, self.f, a[0])


class DerivedAt(Sym):
    """scale * (derivative of `kind` of f, taken at a)."""

    __slots__ = ("kind", "f", "a", "scale")
    __array_ufunc__ = None

    def __init__(self, kind, f, a, scale=1):
        self.kind, self.f, self.a, self.scale = kind, f, a, scale

    def __mul__(self, c):
        if isinstance(c, bool) or not isinstance(c, (int, float)):
            return NotImplemented
        return DerivedAt(self.kind, self.f, self.a, self.scale * c)

    __rmul__ = __mul__

    def __neg__(self):
        return self * -1

    def __truediv__(self, c):
        if isinstance(c, bool) or not isinstance(c, (int, float)) or c == 0:
            return NotImplemented
        return DerivedAt(self.kind, self.f, self.a, self.scale / c)


STUBS = {}


def dispatch(key, real):
    """External function with an assumable contract: the harness may install a stub."""

    def f(*a, **k):
        if key in STUBS:
            return STUBS[key](*a, **k)
        return guarded(real, key)(*a, **k)

    f.__name__ = key.rpartition(".")[2]
    f.__wrapped__ = real
    return f


class DispatchClass:
    """External class with an assumable contract (constants pass through)."""

    def __init__(self, key, real):
        self.__dict__.update(key=key, real=real)

    def __call__(self, *a, **k):
        if self.key in STUBS:
            return STUBS[self.key](*a, **k)
        raise Unsupported(f"{self.key} without a contract")

    def __getattr__(self, name):
        return getattr(self.real, name)


def default_externals():
    import scipy
    import scipy.integrate
    import scipy.optimize
    import scipy.stats
    import autograd

    norm = NormFacade()

    def frozen(name):
        def f(*a, **k):
            if deep_sym((a, k)):
                return FrozenDist(name, a, k)
            return getattr(scipy.stats, name)(*a, **k)

        return f

    stats = ModuleFacade(scipy.stats, {"norm": norm, "poisson": frozen("poisson"),
                                       "multivariate_normal": frozen("multivariate_normal"),
                                       "chi2": ModuleFacade(scipy.stats.chi2, {
                                           "ppf": dispatch("scipy.stats.chi2.ppf",
                                                           scipy.stats.chi2.ppf)}, "chi2")},
                         "scipy.stats")
    opt = ModuleFacade(scipy.optimize, {
        "NonlinearConstraint": NLC,
        **{n: dispatch(f"scipy.optimize.{n}", getattr(scipy.optimize, n)) for n in
           ("toms748", "brentq", "brenth", "bisect", "ridder", "root_scalar", "newton",
            "minimize", "minimize_scalar", "differential_evolution", "dual_annealing", "shgo",
            "basinhopping")},
    }, "scipy.optimize")
    integ = ModuleFacade(scipy.integrate, {
        "quad": dispatch("scipy.integrate.quad", scipy.integrate.quad)}, "scipy.integrate")
    sp = ModuleFacade(scipy, {"stats": stats, "optimize": opt, "integrate": integ}, "scipy")
    ag_norm = ModuleFacade(None, {"logpdf": norm_logpdf}, "autograd.scipy.stats.norm")
    ag_pois = ModuleFacade(None, {"logpmf": poisson_logpmf}, "autograd.scipy.stats.poisson")
    ag_sp = ModuleFacade(None, {"gammaln": gammaln}, "autograd.scipy.special")
    ag = ModuleFacade(autograd, {
        "numpy": NUMPY,
        "value_and_grad": lambda f, argnum=0: GradPair(f, argnum),
        "grad": lambda f, argnum=0: STUBS["autograd.grad"](f, argnum) if "autograd.grad" in STUBS
        else DerivedFn("gradient", f),
        "hessian": lambda f, argnum=0: DerivedFn("hessian", f),
        "jacobian": lambda f, argnum=0: DerivedFn("jacobian", f),
    }, "autograd")
    NUMPY.__dict__["_over"]["random"] = ModuleFacade(_np.random, {
        "default_rng": dispatch("numpy.random.default_rng", _np.random.default_rng)},
        "numpy.random")
    coll = ModuleFacade(collections, {"deque": PVDeque}, "collections")
    m = ModuleFacade(_math, {
        "sqrt": lambda x: _pymath(NUMPY.sqrt, _math.sqrt, x),
        "log": lambda x, *b: _pymath(NUMPY.log, _math.log, x, *b),
        "exp": lambda x: _pymath(NUMPY.exp, _math.exp, x),
        "isnan": lambda x: False if is_sym(x) else _math.isnan(x),
        "isfinite": lambda x: True if is_sym(x) else _math.isfinite(x),
        "isinf": lambda x: False if is_sym(x) else _math.isinf(x),
        "fabs": lambda x: abs(x),
    }, "math")
    tq = ModuleFacade(None, {"tqdm": _Tqdm}, "tqdm")
    extra = {}
    try:
        import iminuit

        extra["iminuit"] = ModuleFacade(
            iminuit, {"Minuit": DispatchClass("iminuit.Minuit", iminuit.Minuit)}, "iminuit")
    except ImportError:
        pass
    return {
        "numpy": NUMPY, "scipy": sp, "scipy.stats": stats, "scipy.optimize": opt, "scipy.integrate": integ,
        "autograd": ag, "autograd.numpy": NUMPY, "autograd.scipy.stats.norm": ag_norm,
        "autograd.scipy.stats.poisson": ag_pois, "autograd.scipy.special": ag_sp,
        "collections": coll, "math": m, "tqdm": tq, **extra,
    }


def _pymath(symf, realf, x, *a):
    if is_sym(x):
        if a:
            raise Unsupported("math function with a base")
        return symf(x)
    return realf(x, *a)


class NLC:
    def __init__(self, fun, lb, ub, jac=None, **k):
        self.fun, self.lb, self.ub, self.jac = fun, lb, ub, jac
