"""C19: cached results are indistinguishable from computed ones, also between threads."""

import copy
import random
import threading

import numpy as np

from contracts.sched import Sched
from pyvc.harness import Outcome, contract

MOD = "spey.system.cache"
CR = f"{MOD}.cache_results"
PI = f"{MOD}._PerInstanceCacheDescriptor"
MUT = "results are lists; every caller changes the one it was given"


class Key:
    """A hashable argument with an arbitrary value; equality is decided by the values."""

    def __init__(self, v, x):
        self.v, self.x = v, x

    def __hash__(self):
        return 7

    def __eq__(self, o):
        return isinstance(o, Key) and self.v.holds(self.v.eq(self.x, o.x))

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f"Key({self.x!r})"


class Oops(Exception):
    pass


class Stop(BaseException):
    """Like KeyboardInterrupt: not an ordinary error."""


# -- one thread ----------------------------------------------------------------------
def decorated(v, how, fn, opts):
    """The cached function as a plain callable of one argument."""
    cr = v.module(MOD).cache_results
    if how == "function":
        return cr(**opts)(lambda x: fn(x))
    if how == "named":
        def named(x):
            return fn(x)

        return cr(**opts)(named)
    if how == "method":
        class Owner:
            @cr(**opts)
            def compute(self, x):
                return fn(x)
    elif how == "slots":
        class Owner:
            __slots__ = ("__weakref__",)

            @cr(per_instance=True, **opts)
            def compute(self, x):
                return fn(x)
    o = Owner()

    class Proxy:
        keep = o

        def __call__(self, x):
            return o.compute(x)

        def __getattr__(self, k):
            return getattr(o.compute, k)

    return Proxy()


HOW = ["function", "method", "slots"]


HISTORIES = ["ABC", "ABAC", "ABCA", "ABACB", "AxAA", "ABxAB", "A-AB", "AB-BA", "xAAB", "AAAAB", "AXAA",
             "XAAB"]
LONG = ["".join(random.Random(i).choices("AABBCC-xX", k=5 + i % 20)) for i in range(400)]


@contract("C19", max_paths=20000, functions=[CR, f"{PI}._build_wrapper"], bounded="histories of five operations",
          assumptions=[MUT])
def history(v):
    """Every history of calls, failures and clears: values are the function's, entries are bounded."""
    how = v.choice("kind", HOW)
    maxsize = v.choice("maxsize", [0, 1, 2, None])
    f = v.func("function")
    count = [0]
    fail = [False]

    def fn(k):
        count[0] += 1
        if fail[0]:
            raise fail[0]()
        return [f(k.x), count[0]]

    c = decorated(v, how, fn, {"maxsize": maxsize, "copy_on_return": True})
    model = []  # (value, serial number), oldest first
    keys = [Key(v, v.real(f"x{i}")) for i in range(3)]
    v.ensure("nothing is stored at first", c.cache_info()["size"] == 0)
    for op in v.choice("history", HISTORIES if v.symbolic else HISTORIES + LONG):
        if op == "-":
            c.cache_clear()
            model = []
            v.ensure("clearing removes every entry", c.cache_info()["size"] == 0)
            continue
        fail[0] = {"x": Oops, "X": Stop}.get(op)
        k = keys[2 if fail[0] else "ABC".index(op)]
        hit = [m for m in model if v.holds(v.eq(m[0], k.x))]
        before = count[0]
        try:
            o = v.outcome(c, k)
        except Stop as e:
            o = Outcome(exc=e)
        if fail[0] and not hit:
            v.ensure("the function's exception reaches the caller",
                     isinstance(o.exc, fail[0]), o)
            v.ensure("a failure leaves no entry", c.cache_info()["size"] == len(model))
            continue
        v.ensure("no exception", o.ok, o)
        if not o.ok:
            return
        r = o.value
        v.ensure("shape of the result", isinstance(r, list) and len(r) == 2)
        v.ensure_eq("the function's value at this argument", r[0], f(k.x))
        if hit:
            v.ensure("a stored value is not computed again", count[0] == before)
            v.ensure("it is the stored one", r[1] == hit[0][1])
        else:
            v.ensure("computed once", count[0] == before + 1 and r[1] == count[0])
            model.append((k.x, count[0]))
            if maxsize is not None:
                model = model[len(model) - min(maxsize, len(model)):]
        v.ensure("number of entries", c.cache_info()["size"] == len(model))
        r.append("changed by the caller")
        r[0] = None


# -- arguments -----------------------------------------------------------------------
class Plain:
    """Unhashable, with a faithful repr."""

    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        return isinstance(o, Plain) and self.x == o.x

    __hash__ = None

    def __repr__(self):
        return f"Plain({self.x!r})"


def arguments():
    a = np.array([[1.0, 2.0], [3.0, 4.0]])
    return [
        ("none", None), ("true", True), ("zero", 0), ("two", 2.0), ("string", "two"),
        ("empty string", ""), ("tuple", (1.0, 2.0)), ("list same as tuple", [1.0, 2.0]),
        ("nested list", [1.0, [2.0]]), ("nested other way", [[1.0], 2.0]), ("empty list", []),
        ("dict", {"a": 1.0, "b": 2.0}), ("same dict, other order", {"b": 2.0, "a": 1.0}),
        ("swapped dict", {"a": 2.0, "b": 1.0}), ("dict as pairs", [("a", 1.0), ("b", 2.0)]),
        ("dict as a set of pairs", frozenset({("a", 1.0), ("b", 2.0)})),
        ("empty dict", {}), ("mixed keys", {0: 1.0, "mu": 2.0}), ("mixed keys 2", {0: 2.0, "mu": 1.0}),
        ("dict of lists", {"a": [1.0, 2.0]}), ("dict of lists 2", {"a": [2.0, 1.0]}),
        ("set", {1.0, 2.0}), ("frozen set", frozenset({2.0, 1.0})),
        ("array", a), ("same array", a.copy()), ("same array, other layout", np.asfortranarray(a)),
        ("transposed", a.T), ("flat", a.ravel()), ("row", a.reshape(1, 4)),
        ("column", a.reshape(4, 1)), ("integers", a.astype(np.int64)),
        ("single precision", a.astype(np.float32)), ("one value changed", a + np.eye(2) * 1e-12),
        ("view", np.arange(8.0).reshape(2, 4)[:, ::2]),
        ("same as view", np.array([[0.0, 2.0], [4.0, 6.0]])), ("empty array", np.zeros((0, 2))),
        ("other empty array", np.zeros((2, 0))), ("long", np.arange(5000.0)),
        ("long, middle changed", np.where(np.arange(5000) == 2500, -1.0, np.arange(5000.0))),
        ("array in list", [a, 1.0]), ("array in dict", {"x": a}), ("other in dict", {"x": a.T}),
        ("plain", Plain(1)), ("other plain", Plain(2)), ("list of dicts", [{"a": 1.0}, {"a": 2.0}]),
        ("list of dicts, swapped", [{"a": 2.0}, {"a": 1.0}]), ("bounds", [(0.0, 1.0), (None, 2.0)]),
        ("other bounds", [(None, 1.0), (0.0, 2.0)]),
    ]


SAME = [{"tuple", "list same as tuple"}, {"dict", "same dict, other order"},
        {"set", "frozen set"}, {"array", "same array", "same array, other layout"},
        {"view", "same as view"}]


@contract("C19", functions=[f"{MOD}._make_token", f"{MOD}._build_key"], max_paths=20000,
          bounded="pairs from 48 representative arguments")
def distinct_arguments(v):
    """Arguments with different content never share an entry; equal content does."""
    args = arguments()
    i = v.choice("first", list(range(len(args))))
    how = v.choice("kind", ["positional", "keyword", "variadic"])
    cr = v.module(MOD).cache_results
    seen = []

    def fn(x, y=0):
        seen.append(1)
        return len(seen)

    def vf(*xs, **kw):
        seen.append(1)
        return len(seen)

    c = cr(maxsize=None)(vf if how == "variadic" else fn)
    call = {"positional": lambda x: c(x), "keyword": lambda x: c(x=x),
            "variadic": lambda x: c(1, x, z=x)}[how]
    name, x = args[i]
    r1 = v.ok("first call", call, x)
    for other, y in args:
        n = len(seen)
        r2 = v.ok("second call", call, y)
        if other == name or any(name in s and other in s for s in SAME):
            v.ensure("equal arguments share the entry", r2 == r1 and len(seen) == n)
        else:
            v.ensure("different arguments do not", r2 != r1)
    v.ensure("the first value is still there", v.ok("again", call, x) == r1)


class Series:
    """An unhashable array-like whose text is abbreviated, as those of pandas and jax."""

    def __init__(self, x):
        self.x = np.array(x, dtype=float)

    def __array__(self, dtype=None, copy=None):
        return np.array(self.x, dtype=dtype)

    def __eq__(self, o):
        return self.x == o.x

    __hash__ = None

    def __repr__(self):
        return f"Series(... {len(self.x)} numbers ...)"


def changing():
    """(name, argument, change of its content by its owner, the content as text)."""
    ob = np.empty(2, dtype=object)
    ob[:] = [[1.0], [2.0]]
    num = np.array([1000.5, 2000.5], dtype=object)
    ma = np.ma.array([1.0, 2.0], mask=[False, True])
    st = np.array([(1.0, 2.0)], dtype=[("a", float), ("b", float)])
    day = np.array(["2020-01-01", "2021-01-01"], dtype="M8[D]")
    lst, dct, nest = [1.0, 2.0], {"a": 1.0}, {"a": [{"b": [1.0]}]}
    arr, view, big = np.arange(4.0), np.arange(8.0)[::2], np.arange(3000.0)
    ser, dele, st_ = Series(np.arange(3000.0)), {"a": 1.0, "b": None}, {1.0, 2.0}
    pl = Plain([1.0])
    huge, tail, text = np.arange(200000.0), np.arange(200000.0), "x" * 100000
    rows, words = np.zeros((400, 500)), [text, text]

    def put(x, i, y):
        return lambda: x.__setitem__(i, y)

    return [
        ("array", arr, put(arr, 2, -1.0), lambda: str(arr)),
        ("view", view, put(view, 1, 9.0), lambda: str(view)),
        ("long array", big, put(big, 1500, -1.0), lambda: str(big[1500])),
        ("start of a huge array", huge, put(huge, 0, -1.0), lambda: str(huge[0])),
        ("end of a huge array", tail, put(tail, -1, -1.0), lambda: str(tail[-1])),
        ("middle of a huge table", rows, put(rows, (200, 250), -1.0), lambda: str(rows[200, 250])),
        ("end of a long text", words, put(words, 1, text[:-1] + "y"), lambda: words[1][-1]),
        ("objects in an array", ob, lambda: ob[0].append(3.0), lambda: str(ob)),
        ("numbers in an array of objects", num, put(num, 0, 1001.5), lambda: str(num)),
        ("mask", ma, put(ma, 0, np.ma.masked), lambda: str(ma)),
        ("record", st, put(st, 0, (2.0, 1.0)), lambda: str(st)),
        ("dates", day, put(day, 1, np.datetime64("2022-01-01")), lambda: str(day)),
        ("array-like", ser, put(ser.x, 1500, -1.0), lambda: str(ser.x[1500])),
        ("list", lst, lambda: lst.append(3.0), lambda: str(lst)),
        ("dict", dct, put(dct, "a", 2.0), lambda: str(dct)),
        ("nested", nest, lambda: nest["a"][0]["b"].append(2.0), lambda: str(nest)),
        ("removed entry", dele, lambda: dele.pop("b"), lambda: str(dele)),
        ("set", st_, lambda: st_.add(3.0), lambda: str(st_)),
        ("plain object", pl, lambda: pl.x.append(2.0), lambda: str(pl)),
    ]


@contract("C19", functions=[f"{MOD}._make_token", f"{MOD}._build_key"], max_paths=20000,
          bounded="19 kinds of argument")
def changed_arguments(v):
    """An argument its owner changes is a new argument, whatever it is; one left alone is not."""
    all_ = changing()
    i = v.choice("argument", list(range(len(all_))))
    _, x, change, text = all_[i]
    n = []

    def fn(a, b=0):
        n.append(1)
        return text()

    c = decorated(v, v.choice("kind", HOW), fn, {"maxsize": 8})
    wrap = v.choice("given", [lambda y: y, lambda y: [y, 1.0], lambda y: {"k": y}, lambda y: (0, [y])])
    for _ in range(2):
        v.ensure("the value for this content", v.ok("call", c, wrap(x)) == text())
    v.ensure("computed once", len(n) == 1)
    change()
    for _ in range(2):
        v.ensure("the value for the content it has now", v.ok("call", c, wrap(x)) == text())
    v.ensure("computed once more", len(n) == 2)


@contract("C19", functions=[f"{MOD}._build_key", CR])
def spelling(v):
    """Positional, keyword and default spellings of one call share an entry, others do not."""
    cr = v.module(MOD).cache_results
    seen = []
    method = v.boolean("method")
    if method:
        class Owner:
            @cr
            def g(self, a, b=2.0, *, c="x", **kw):
                seen.append((a, b, c, kw))
                return len(seen)

        g = Owner().g
    else:
        @cr
        def g(a, b=2.0, *, c="x", **kw):
            seen.append((a, b, c, kw))
            return len(seen)

    same = [lambda: g(1.0), lambda: g(1.0, 2.0), lambda: g(a=1.0), lambda: g(b=2.0, a=1.0),
            lambda: g(1.0, c="x"), lambda: g(c="x", b=2.0, a=1.0)]
    diff = [lambda: g(2.0, 1.0), lambda: g(1.0, c=2.0), lambda: g(1.0, d=2.0), lambda: g(1.0, 3.0),
            lambda: g(1.0, d="x"), lambda: g(1.0, d=2.0, e=1.0), lambda: g(1.0, d=1.0, e=2.0)]
    first = v.ok("first", v.choice("first", same))
    for s in same:
        v.ensure("one entry", v.ok("call", s) == first)
    got = [first] + [v.ok("call", d) for d in diff]
    v.ensure("separate entries", len(set(got)) == len(got))
    o = v.outcome(g)
    v.ensure("a wrong call is still a TypeError", o.raised("TypeError"), o)
    v.ensure("metadata", g.__name__ == "g" and callable(g.cache_clear))


# -- instances -----------------------------------------------------------------------
@contract("C19", functions=[f"{PI}.__get__", f"{PI}._get_fallback", f"{PI}.__set__",
                            f"{PI}.__delete__", f"{PI}.__set_name__"])
def instances(v):
    """Instances, copies and subclasses never see each other's results."""
    cr = v.module(MOD).cache_results
    kind = v.choice("kind", ["dict", "slots", "bare slots", "inherited", "overridden", "extended",
                             "extended slots"])
    log = []

    class A:
        if kind in ("slots", "extended slots"):
            __slots__ = ("tag", "__weakref__")
        if kind == "bare slots":
            __slots__ = ("tag",)

        def __init__(self, tag):
            self.tag = tag

        @cr(maxsize=4, per_instance=True)
        def f(self, x):
            log.append(self.tag)
            return [self.tag, x]

    B = A
    if kind in ("inherited", "overridden", "extended", "extended slots"):
        class B(A):
            if kind == "extended slots":
                __slots__ = ()
            if kind.startswith("extended"):
                @cr(maxsize=4, per_instance=True)
                def f(self, x):
                    return ["sub"] + super().f(x)
            if kind == "overridden":
                @cr(maxsize=4, per_instance=True)
                def f(self, x):
                    return ["sub"] + A.f(self, x)

    a, b = A("a"), B("b")
    pre = ["sub"] if kind in ("overridden", "extended", "extended slots") else []
    # a method that waits for itself would never finish
    done = []
    t = threading.Thread(target=lambda: done.append(b.f(0)), daemon=True)
    t.start()
    t.join(20)
    v.ensure("every call finishes", done == [pre + ["b", 0]], done)
    if v.boolean("copied after use"):
        v.ok("call", a.f, 1)
        v.ok("call", b.f, 1)
    how = v.choice("third", ["copy", "deepcopy", "new"])
    c = A("c") if how == "new" else v.ok("copy", copy.copy if how == "copy" else copy.deepcopy, a)
    c.tag = "c"
    for k in range(2):
        for o, want in ((a, ["a"]), (b, pre + ["b"]), (c, ["c"])):
            r = v.ok("call", o.f, 1)
            v.ensure("the instance's own result", r == want + [1])
            r[0] = "changed"
    a.f.cache_clear()
    n = len(log)
    v.ensure("others keep their entries", v.ok("call", c.f, 1) == ["c", 1] and len(log) == n)
    v.ensure("cleared", v.ok("call", a.f, 1) == ["a", 1] and len(log) == n + 1)
    for t in range(30):
        v.ensure("a new instance in the place of an old one", v.ok("call", A(t).f, 1) == [t, 1])
        v.ensure("its own result", v.ok("call", B(t).f, 1) == pre + [t, 1])
    n = len(log)
    v.ensure("the plain function is reachable through the class", A.f(a, 2) == ["a", 2])
    v.ensure("uncached through the class", len(log) == n + 1 and A.f(a, 2) == ["a", 2]
             and len(log) == n + 2)


@contract("C19", functions=[CR])
def without_copies(v):
    """copy_on_return=False returns the stored object itself; True always an independent one."""
    how = v.choice("kind", HOW)
    deep = v.boolean("copies")
    t = [[1.0], {"a": [2.0]}]
    c = decorated(v, how, lambda x: copy.deepcopy(t), {"maxsize": 4, "copy_on_return": deep})
    r = [v.ok("call", c, 1) for _ in range(3)]
    v.ensure("value", all(x == t for x in r))
    v.ensure("same object exactly without copies", (r[0] is r[1] and r[1] is r[2]) == (not deep))
    if deep:
        r[0][0].append("x")
        r[1][1]["a"].append("x")
        v.ensure("nested parts are independent too", v.ok("call", c, 1) == t and r[2] == t)
        g = c.get_cache()
        for k in g:
            g[k][0].append("x")
        v.ensure("the exported cache is a copy", v.ok("call", c, 1) == t)


# -- threads -------------------------------------------------------------------------
class Run:
    """Threads calling one cached function; the record of what each of them saw."""

    def __init__(self, v, how, maxsize, preemptions, fails=(), lines=True, nested=None):
        self.v = v
        self.s = s = Sched(v, ("system/cache.py",), preemptions, lines,
                           skip=("_make_token", "_build_key", "<genexpr>", "decorator",
                                 "cache_info", "get_cache"))
        self.sub = v.callee if v.symbolic else (lambda m, n, x: v.patched(f"{m}.{n}", x))
        ns = s.namespace()
        m = v.module(MOD)
        for n in ("threading", "Lock", "RLock", "Event", "Condition"):
            if hasattr(m, n):
                self.sub(MOD, n, ns if n == "threading" else getattr(ns, n))
        self.calls, self.runs, self.clears = [], [], []
        self.fails = list(fails)
        self.failure = Stop if how == "method" else Oops

        def fn(k):
            i = len(self.runs)
            rec = dict(key=k, start=self.tick(), by=s.current, ok=False)
            self.runs.append(rec)
            s.point()
            if k in self.fails:
                self.fails.remove(k)
                raise self.failure()
            s.point()
            rec["ok"], rec["end"] = True, self.tick()
            return [k, i]

        self.c = decorated(v, how, fn, {"maxsize": maxsize, "copy_on_return": True})
        self.maxsize = maxsize

    def tick(self):
        self.s.clock += 1
        return self.s.clock

    def call(self, k):
        rec = dict(key=k, start=self.tick(), by=self.s.current, r=None, e=None)
        self.calls.append(rec)
        try:
            r = self.c(k)
            rec["r"] = copy.deepcopy(r)
            r.append("changed")
            r[0] = None
        except Stop as e:
            rec["e"] = e
        except Exception as e:  # noqa: BLE001
            rec["e"] = e
        rec["end"] = self.tick()
        if self.maxsize is not None:
            budget, self.s.budget = self.s.budget, 0
            # every call under way holds at most one unfinished entry
            size = self.c.cache_info()["size"]
            busy = sum("end" not in x for x in self.calls)
            self.s.budget = budget
            self.v.ensure("the number of finished entries is bounded at all times",
                          size - busy <= self.maxsize)

    def clear(self):
        rec = dict(start=self.tick())
        self.c.cache_clear()
        rec["end"] = self.tick()
        self.clears.append(rec)

    def go(self, *scripts):
        for sc in scripts:
            def body(sc=sc):
                for op in sc:
                    self.clear() if op == "-" else self.call(op)

            self.s.spawn(body)
        done = self.s.run()
        v = self.v
        v.ensure("every call comes to an end", done)
        if not done:
            return False
        v.ensure("only the function's exceptions", all(
            x["e"] is None or isinstance(x["e"], (Oops, Stop)) for x in self.calls),
            [x["e"] for x in self.calls])
        good = own = fresh = True
        for x in self.calls:
            if x["e"] is not None:
                own = own and any(not r["ok"] and r["by"] is x["by"] and r["key"] == x["key"] and
                                  x["start"] < r["start"] < x["end"] for r in self.runs)
                continue
            r = x["r"]
            ok = isinstance(r, list) and len(r) == 2 and r[0] == x["key"] and \
                self.runs[r[1]]["ok"] and self.runs[r[1]]["key"] == x["key"]
            good = good and ok
            if ok:
                src = self.runs[r[1]]
                fresh = fresh and src["start"] < x["end"] and not any(
                    src["start"] < q["start"] and q["end"] < x["start"] for q in self.clears)
        v.ensure("every caller gets the function's value, unchanged by others", good,
                 self.calls)
        v.ensure("exceptions reach the caller whose computation failed", own)
        v.ensure("nothing computed before a clear is returned after it", fresh)
        return True

    def after(self, once=True):
        """The state left behind is usable, bounded and has no unfinished entries."""
        v = self.v
        keys = sorted({x["key"] for x in self.calls})
        if once:
            v.ensure("each argument is computed once", all(
                sum(r["key"] == k and r["ok"] for r in self.runs) <= 1 for k in keys), self.runs)
        size = self.c.cache_info()["size"]
        v.ensure("the number of entries is bounded",
                 self.maxsize is None or size <= self.maxsize)
        n = len(self.runs)
        g = v.ok("stored results", self.c.get_cache)
        v.ensure("no unfinished entries are left", all(
            isinstance(x, list) and len(x) == 2 for x in g.values()) and len(g) == size)
        for k in keys:
            o = v.outcome(self.c, k)
            v.ensure("later calls succeed", o.ok and o.value[0] == k, o)
        if once and not self.fails and all(x["e"] is None for x in self.calls):
            v.ensure("later calls reuse the results", len(self.runs) == n)
        for k in keys:
            n = len(self.runs)
            self.c(k)
            self.c(k)
            v.ensure("a repeated call is not computed again", len(self.runs) <= n + 1)


TH = dict(max_paths=60000, samples=400,
          assumptions=[MUT, "threads switch only between source lines of the cache and inside the "
                       "cached function (interpreter-level atomicity of single lines)"])


@contract("C19", functions=[CR, f"{PI}._build_wrapper", f"{PI}.__get__", f"{PI}._get_fallback"],
          bounded="two threads, one call each, two preemptions at any line", **TH)
def same_call(v):
    """Two threads, the same argument: one computation, two independent results."""
    r = Run(v, v.choice("kind", HOW), 4, 2)
    if r.go("a", "a"):
        r.after()


@contract("C19", functions=[CR, f"{PI}._build_wrapper"],
          bounded="three threads, one preemption at any line", **TH)
def three_callers(v):
    """Three threads, the same argument, the first computation may fail."""
    fails = v.choice("fails", [(), ("a",)])
    r = Run(v, v.choice("kind", ["function", "method"]), 4, 1, fails=fails)
    if r.go("a", "a", "a"):
        r.after()


@contract("C19", functions=[CR, f"{PI}._build_wrapper"],
          bounded="two or three threads, up to two calls each, two preemptions at any line", **TH)
def eviction(v):
    """More arguments than room: evictions never drop a result somebody waits for."""
    sc = v.choice("scripts", [("ab", "a"), ("ab", "ba"), ("ab", "c"), ("a", "b", "a")])
    r = Run(v, v.choice("kind", ["function", "method"]), 1, 1 if len(sc) == 3 else 2,
            lines=v.choice("points", ["locks"]) == "lines")
    if r.go(*sc):
        r.after(once=False)


@contract("C19", functions=[CR, f"{PI}._build_wrapper"],
          bounded="two or three threads, two preemptions at synchronisation points", **TH)
def clearing(v):
    """Clearing while a computation is under way."""
    sc = v.choice("scripts", [("a", "-a"), ("a-a", "a"), ("a", "a", "-a"), ("a", "-", "a")])
    r = Run(v, v.choice("kind", ["function", "method"]), 2, 2, lines=False,
            fails=v.choice("fails", [(), ("a",)]))
    if r.go(*sc):
        r.after(once=False)


@contract("C19", functions=[CR, f"{PI}._build_wrapper"],
          bounded="two threads, two preemptions at any line", **TH)
def different_calls(v):
    """Different arguments do not wait for each other and do not mix."""
    r = Run(v, v.choice("kind", ["function", "method"]), v.choice("maxsize", [4, 1]), 2)
    if r.go("a", "b"):
        r.after(once=r.maxsize > 1)
