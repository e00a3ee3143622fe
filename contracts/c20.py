"""C20: the registry of back ends."""

import abc
import importlib.metadata
import itertools
import math

from contracts.c12 import World
from pyvc.harness import Token, contract

SP = "spey"
FRESH = itertools.count()
NEEDS = [">=0.0.1", "same", ">=99.0", "<0.0.1", "!=same", ">=0.0.1,<99.0"]
FAULTS = ["abstract", "incompatible", "no requirement"]
KINDS = ["plain", "converter"] + FAULTS + [f"{x} converter" for x in FAULTS]


def tuple_of(version):
    return [int(x) for x in version.partition("-")[0].split(".")]


def compatible(need, version):
    """Whether this release satisfies the requirement; a pre-release precedes its release."""
    pre = "-" in version
    v = tuple_of(version)
    for part in need.split(","):
        op = part.rstrip("0123456789.-abcr")
        w = part[len(op):]
        same = w == version
        u = tuple_of(w)
        less = v < u or (v == u and pre and "-" not in w)
        if not {">=": not less, "<": less, "==": same, "!=": not same}[op]:
            return False
    return True


class Plugins:
    """A view of the registry as a dictionary, next to the real one."""

    def __init__(self, v):
        self.v, self.m, self.n = v, v.module(SP), next(FRESH)
        self.view = {k: "shipped" for k in self.m.AvailableBackends()}
        self.installed = []
        real = importlib.metadata.entry_points

        class Found(list):
            def select(s, group=None, name=None, **kw):
                return Found(x for x in s if group in (None, x.group) and name in (None, x.name))

            def get(s, group, default=None):
                return s.select(group=group)

        def entry_points(**kw):
            r = Found(self.installed)
            return r.select(**kw) if kw else r

        for k, x in list(vars(self.m).items()):
            if x is real or getattr(x, "__wrapped__", None) is real:
                if v.symbolic:
                    v.callee(self.m, k, entry_points)
                else:
                    v.patched(f"{SP}.{k}", entry_points)

    def name(self, i):
        return f"plugin.{self.n}.{i}"

    def cls(self, kind, name, need=">=0.0.1"):
        base, w = self.v.module("spey.base"), World(self.v, 1)
        made = []
        kind, converter = kind.replace(" converter", ""), kind.endswith("converter")
        if kind == "abstract" and converter:
            class Model(base.ConverterBase):
                @abc.abstractmethod
                def __call__(self, *a, **k):
                    """To be filled."""
        elif converter:
            class Model(base.ConverterBase):
                def __call__(self, *a, **k):
                    b = w.cls()
                    b.args = (a, k)
                    made.append(b)
                    return b
        elif kind == "abstract":
            class Model(base.BackendBase):
                def config(self, **kw):
                    return None
        else:
            class Model(w.cls):
                def __init__(self, *a, **k):
                    self.args = (a, k)
                    made.append(self)

                spey_requires = None

            del Model.spey_requires
        Model.made, Model.kind = made, kind
        if kind != "no requirement":
            Model.spey_requires = ">=99.0" if kind == "incompatible" else need
        elif kind == "no requirement":
            w.cls.spey_requires = None
            del w.cls.spey_requires
        if name is not None:
            Model.name = name
        return Model

    def entry(self, name, cls):
        class Entry:
            group = "spey.backend.plugins"

            def load(s):
                return cls

        e = Entry()
        e.name = name
        return e

    def install(self, name, cls):
        self.installed.append(self.entry(name, cls))

    def check(self, label=""):
        v = self.v
        got = self.m.AvailableBackends()
        v.ensure(f"{label}: available back ends", sorted(got) == sorted(self.view), (got, self.view))


REASON = {"abstract": "AbstractModel", "incompatible": "PluginError", "no requirement": "AssertionError"}


def served(v, p, name, cls):
    """get_backend hands out exactly this back end, or refuses it for the right reason."""
    o = v.outcome(p.m.get_backend, name)
    if cls.kind in REASON:
        v.ensure(f"refused: {cls.kind}", o.raised(REASON[cls.kind]), o)
        return
    v.ensure("served", o.ok, o)
    if not o.ok:
        return
    a, b, ntoys = v.token("argument"), v.token("keyword"), v.int("ntoys", lo=1, hi=10)
    xs = v.real("cross section", lo=0.0)
    args = (a, None, 0, "", [])
    kw = {"key": b, "nothing": None, "no": False, "zero": 0, "empty": (), "name": "n", "func": a,
          "backend": b, "self": None}
    m = v.ok("construct", o.value, *args, analysis="name", xsection=xs, ntoys=ntoys, **{
        k: x for k, x in kw.items() if k != "self"})
    kw.pop("self")
    mc = v.module("spey.interface.statistical_model").StatisticalModel
    v.ensure("a statistical model", type(m) is mc)
    v.ensure("of this back end", len(cls.made) > 0 and m.backend is cls.made[-1])
    v.ensure("with the arguments given", m.backend.args == (args, kw), m.backend.args)
    v.ensure("the very objects given", all(x is y for x, y in zip(m.backend.args[0], args)))
    v.ensure("analysis", m.analysis == "name")
    v.ensure("cross section", v.eq(m.xsection, xs))
    v.ensure("toys", v.eq(m.ntoys, ntoys))
    d = v.ok("construct", o.value, a)
    v.ensure("a new back end each time", d.backend is not m.backend)
    v.ensure("documented defaults", d.analysis == "__unknown_analysis__" and d.ntoys == 1000)
    v.ensure("no more arguments than given", d.backend.args == ((a,), {}), d.backend.args)
    v.ensure("no cross section by default", isinstance(d.xsection, float) and math.isnan(d.xsection))


@contract("C20", functions=["spey.get_backend", "spey.register_backend", "spey.AvailableBackends",
                            "spey.interface.statistical_model.statistical_model_wrapper"])
def local(v):
    """A registered model is listed and served; a model that can not be served is not registered."""
    p = Plugins(v)
    kind = v.choice("kind", KINDS + ["not a model", "no name"])
    name = p.name(0)
    cls = object if kind == "not a model" else p.cls("plain" if kind == "no name" else kind,
                                                     None if kind == "no name" else name)
    if kind == "no name" and hasattr(cls, "name"):
        for k in cls.__mro__:
            if "name" in vars(k):
                delattr(k, "name")
    o = v.outcome(p.m.register_backend, cls)
    want = {"not a model": "AssertionError", "no name": "MissingMetaData", **REASON,
            "no requirement": "MissingMetaData"}.get(kind.replace(" converter", ""))
    v.ensure("refused" if want else "registered", o.raised(want) if want else o.ok, o)
    if want is None:
        v.ensure("the class itself is returned", o.value is cls)
        p.view[name] = cls
    p.check("registration")
    u = v.outcome(p.m.get_backend, name)
    if want is None:
        served(v, p, name, cls)
    else:
        v.ensure("unknown", u.raised("PluginError"), u)


@contract("C20", functions=["spey.get_backend", "spey.get_backend_metadata", "spey.reset_backend_entries"])
def installed(v):
    """An installed plugin is found after a rescan and served when it can be."""
    p = Plugins(v)
    kind = v.choice("kind", KINDS + ["wrong name", "no name"])
    name = v.choice("spelling", [p.name(0), p.name(0).title().replace(".", "-", 1)])
    wrong = v.choice("wrong name", [p.name(1), name.swapcase(), name + " ", "default." + name, name[:-1],
                                    name.replace(".", "_"), "other" + name[name.index("."):],
                                    name.rpartition(".")[2]]) if kind == "wrong name" else None
    inner = {"wrong name": wrong, "no name": None}.get(kind, name)
    cls = p.cls("plain" if kind in ("wrong name", "no name") else kind, inner)
    if kind == "no name":
        for k in cls.__mro__:
            if "name" in vars(k):
                delattr(k, "name")
    o = v.outcome(p.m.get_backend, name)
    v.ensure("unknown before", o.raised("PluginError"), o)
    o = v.outcome(p.m.get_backend_metadata, name)
    v.ensure("no metadata before", o.raised("PluginError"), o)
    p.install(name, cls)
    p.m.reset_backend_entries()
    p.view[name] = cls
    p.check("rescan")
    if kind == "wrong name":
        o = v.outcome(p.m.get_backend, name)
        v.ensure("refused: wrong name", o.raised("AssertionError"), o)
        return
    served(v, p, name, cls)
    served(v, p, name, cls)


@contract("C20", functions=["spey.get_backend", "spey.register_backend"])
def requirements(v):
    """A back end is served by exactly the releases it asks for."""
    p = Plugins(v)
    name = p.name(0)
    need = v.choice("requirement", NEEDS)
    need = need.replace("!=same", "!=" + p.m.version()).replace("same", "==" + p.m.version()
                                                                 if need == "same" else "same")
    cls = p.cls("plain", name, need)
    fine = compatible(need, p.m.version())
    if v.boolean("local"):
        o = v.outcome(p.m.register_backend, cls)
        v.ensure("registered" if fine else "refused", o.ok if fine else o.raised("PluginError"), o)
    else:
        p.install(name, cls)
        p.m.reset_backend_entries()
        o = v.outcome(p.m.get_backend, name)
        v.ensure("served" if fine else "refused", o.ok if fine else o.raised("PluginError"), o)


@contract("C20", functions=["spey.get_backend", "spey.register_backend", "spey.reset_backend_entries",
                            "spey.AvailableBackends"],
          bounded="histories of three operations on two names")
def histories(v):
    """After any history each name stands for the model it was given first; nothing is lost."""
    p = Plugins(v)
    models = {}
    for step in range(3):
        op = v.choice(f"operation {step}", ["register", "install", "reset", "get"]
                      + (["again"] if step else []))
        i = v.choice(f"name {step}", [0, 1]) if op != "reset" else 0
        name = p.name(i)
        if op == "again":
            if name not in p.view:
                continue
            o = v.outcome(p.m.register_backend, p.view[name])
            v.ensure("a class is registered once", o.raised("ValueError"), o)
        if op == "register":
            bad = v.boolean(f"bad {step}")
            cls = p.cls("incompatible" if bad else "plain", name)
            o = v.outcome(p.m.register_backend, cls)
            if name in p.view:
                v.ensure("a name is registered once", o.raised("ValueError"), o)
            elif bad:
                v.ensure("refused", o.raised("PluginError"), o)
            else:
                v.ensure("registered", o.ok, o)
                p.view[name] = cls
        elif op == "install":
            if name in p.view or any(e.name == name for e in p.installed):
                continue
            p.install(name, p.cls("plain", name))
        elif op == "again":
            pass
        elif op == "reset":
            p.m.reset_backend_entries()
            for e in p.installed:
                p.view[e.name] = e.load()
        else:
            o = v.outcome(p.m.get_backend, name)
            v.ensure("served if known", o.ok if name in p.view else o.raised("PluginError"), o)
            if o.ok:
                n = len(p.view[name].made)
                m = v.ok("construct", o.value)
                v.ensure("the model of this name", len(p.view[name].made) == n + 1
                         and m.backend is p.view[name].made[-1])
        p.check(f"after {op}")


@contract("C20", functions=["spey.get_backend", "spey.get_backend_metadata", "spey.get_backend_bibtex"])
def near(v):
    """A name that is not exactly a listed one is unknown, and asking for it changes nothing."""
    p = Plugins(v)
    name = p.name(0) + ".Near"
    cls = p.cls("plain", name)
    if v.boolean("local"):
        v.ok("register", p.m.register_backend, cls)
    else:
        p.install(name, cls)
        p.m.reset_backend_entries()
    p.view[name] = cls
    other = v.choice("name asked for", [
        name + " ", " " + name, name + "\n", name.lower(), name.upper(), name[:-1], name[1:],
        name + "x", name.replace(".", "_"), name.replace(".", "-"), name.rpartition(".")[2],
        name.rpartition(".")[0], "default." + name, "", "default", ".", None, 0])
    for f in (p.m.get_backend, p.m.get_backend_metadata, p.m.get_backend_bibtex):
        o = v.outcome(f, other)
        v.ensure(f"{f.__name__} refuses", o.raised("PluginError"), o)
    p.check("afterwards")
    served(v, p, name, cls)


META = ["author", "version", "doi", "arXiv", "zenodo"]


@contract("C20", functions=["spey.get_backend_metadata"])
def metadata(v):
    """Metadata are the ones of the class, with the documented stand-ins."""
    p = Plugins(v)
    name = p.name(0)
    cls = p.cls("plain", name)
    unknown = {"author": "__unknown_author__", "version": "__unknown_version__"}
    want = {"name": name, "spey_requires": cls.spey_requires}
    for k in META:
        for c in cls.__mro__:
            if k in vars(c) and c is not object:
                delattr(c, k)
        if v.boolean(f"has {k}"):
            x = "1.2.3" if k in unknown else ["a", "b"]
            if k == "arXiv" and v.boolean("tuple"):
                x = tuple(x)
            setattr(cls, k, x)
            want[k] = x if k in unknown else list(x)
        else:
            want[k] = unknown.get(k, [])
    if v.boolean("local"):
        v.ok("register", p.m.register_backend, cls)
    else:
        p.install(name, cls)
        p.m.reset_backend_entries()
    r = v.ok("metadata", p.m.get_backend_metadata, name)
    v.ensure("metadata", r == want, (r, want))
    for k in ("doi", "arXiv", "zenodo"):
        r[k].append("changed")
    v.ensure("a copy", p.m.get_backend_metadata(name) == want)
    v.ensure("never constructed", cls.made == [])


@contract("C20", functions=["spey.get_backend_bibtex"])
def references(v):
    """Every reference found is reported once under its source; a dead connection is not an error."""
    p = Plugins(v)
    name = p.name(0)
    cls = p.cls("plain", name)
    ids = {k: [f"{k}{i}" for i in range(v.choice(f"number of {k}", [0, 1, 2] if k == "doi" else [0, 1]))]
           for k in ("arXiv", "doi", "zenodo")}
    for k, x in ids.items():
        setattr(cls, k, x)
    asks = [("inspire/arxiv", x) for x in ids["arXiv"]] + [("inspire/doi", x) for x in ids["doi"]] \
        + [("doi", x) for x in ids["doi"]] + [("zenodo", x) for x in ids["zenodo"]]
    known = {q: f"entry {q}" if v.boolean(f"{q} known") else "" for q in asks}
    dead = v.choice("connection lost at", [None] + asks)
    err = v.module("spey.system.webutils").ConnectionError
    asked = []

    def get_bibtex(home, identifier, timeout=5):
        asked.append((home, identifier))
        if (home, identifier) == dead:
            raise err("no connection")
        return known[home, identifier]

    if v.symbolic:
        if not v.callee(p.m, "get_bibtex", get_bibtex):
            return
    else:
        if not hasattr(p.m, "get_bibtex"):
            return
        v.patched(f"{SP}.get_bibtex", get_bibtex)
    v.ok("register", p.m.register_backend, cls)
    r = v.ok("bibtex", p.m.get_backend_bibtex, name)
    v.ensure("sources", set(r) == {"inspire", "doi.org", "zenodo"})
    got = {k: sorted(x.strip() for x in xs) for k, xs in r.items()}
    inspire = [known["inspire/arxiv", x] for x in ids["arXiv"]] + [known["inspire/doi", x] for x in ids["doi"]]
    org = [known["doi", x] for x in ids["doi"] if known["inspire/doi", x] == ""]
    zen = [known["zenodo", x] for x in ids["zenodo"]]
    want = {k: sorted(x for x in xs if x) for k, xs in
            (("inspire", inspire), ("doi.org", org), ("zenodo", zen))}
    if dead is None or dead not in asked:
        v.ensure("all references", got == want, (got, want))
    else:
        v.ensure("no invented references", all(set(got[k]) <= set(want[k]) for k in want))
