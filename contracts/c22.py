"""C22: side services (logging, update check, references, switches) never disturb an analysis."""

import io
import json
import logging
import os
import pathlib
import shutil
import tempfile
import time
import warnings
import sys

from pyvc.harness import contract

LG = "spey.system.logger"
WU = "spey.system.webutils"


def internet(v, get):
    """requests.get becomes ``get`` for the module under test, however it is spelled there."""
    import requests

    class Requests:
        def __getattr__(self, name):
            return get if name == "get" else getattr(requests, name)

    proxy, m = Requests(), v.module(WU)
    for k, x in list(vars(m).items()):
        if x is requests:
            replace(v, WU, k, proxy)
        elif x is requests.get:
            replace(v, WU, k, get)


class Boom(Exception):
    pass


def replace(v, module, name, stub):
    """A module's global, in both modes; nothing happens when it has no such global."""
    m = v.module(module)
    if not hasattr(m, name):
        return False
    if v.symbolic:
        v.callee(m, name, stub)
    else:
        v.patched(f"{module}.{name}", stub)
    return True


def state():
    g = logging.getLogger("Spey")
    return (logging.root.manager.disable, g.level, g.propagate, list(g.handlers), g.disabled,
            list(logging.root.handlers))


def restore(keep):
    g = logging.getLogger("Spey")
    logging.disable(keep[0])
    g.setLevel(keep[1])
    g.propagate = keep[2]
    g.handlers[:] = keep[3]


class Recorder(logging.Handler):
    def __init__(self):
        super().__init__()
        self.got = []

    def emit(self, record):
        self.got.append(record.getMessage())


@contract("C22", max_paths=30000, functions=[f"{LG}.disable_logging", f"{LG}.capture_logs"],
          bounded="nesting of up to three contexts, up to three messages")
def contexts(v):
    """Logging contexts restore everything they touched, however they are left; captured messages
    are written once each, in order, and nothing else is."""
    m = v.module(LG)
    g = logging.getLogger("Spey")
    keep = state()
    rec = Recorder()
    extra = v.choice("own handlers", [0, 2])
    try:
        off = v.choice("disabled before", [logging.NOTSET, logging.ERROR])
        logging.disable(off)
        g.handlers[:] = []
        for _ in range(extra):
            g.addHandler(Recorder())
        g.addHandler(rec)
        g.setLevel(v.choice("level", [logging.DEBUG, logging.ERROR, logging.NOTSET]))
        g.propagate = v.boolean("propagate")
        before = state()
        outs, wants = [], []

        def nest(depth, quiet, level):
            if depth == 3:
                kind = "leaf"
            else:
                kind = v.choice(f"context {depth}", ["leaf", "disable", "capture"])
            if kind == "leaf":
                w, o = (logging.WARNING, "same"), (logging.INFO, "other")
                a, b = (logging.WARNING, "part %s of 2", "one"), (logging.WARNING, "part %s of 2", "two")
                for lv, text, *args in v.choice("messages", [[], [w, o, w], [o, w, o], [a, b, a]]):
                    g.log(lv, text, *args)
                    text = text % tuple(args)
                    if lv > quiet and wants and lv >= level and text not in wants[-1]:
                        wants[-1].append(text)
                if v.boolean("raises"):
                    raise Boom()
                return
            inside = state()
            if kind == "disable":
                highest = v.choice(f"highest level {depth}", [logging.CRITICAL, logging.INFO])
                try:
                    with (m.disable_logging() if highest == logging.CRITICAL
                          else m.disable_logging(highest)):
                        nest(depth + 1, highest, level)
                finally:
                    v.ensure("restored after disabling", state() == inside)
                return
            lv = v.choice(f"capture level {depth}", [logging.INFO, logging.WARNING])
            out, want = io.StringIO(), []
            outs.append((out, want))
            wants.append(want)
            left = False
            try:
                with m.capture_logs(lv, out):
                    nest(depth + 1, quiet, lv)
                left = True
            finally:
                wants.pop()
                v.ensure("restored after capturing", state() == inside)
                lines = [x for x in out.getvalue().split("\n") if x]
                if left:
                    v.ensure("each message once", len(lines) == len(want), (lines, want))
                    v.ensure("in order", all(w in x for w, x in zip(want, lines)), (lines, want))

        try:
            nest(0, off, logging.CRITICAL + 1)
            # a context that follows another one starts afresh
            out = io.StringIO()
            with m.capture_logs(logging.INFO, out):
                g.warning("same")
            v.ensure("messages are captured anew", out.getvalue().count("same") == (not off))
            raised = False
        except Boom:
            raised = True
        v.ensure("restored", state() == before)
        g.log(logging.CRITICAL, "afterwards")
        v.ensure("logging works again", rec.got and "afterwards" in rec.got[-1])
        return raised
    finally:
        restore(keep)


@contract("C22", functions=[f"{LG}.ColoredFormatter.format"], bounded="up to three handlers")
def formatting(v):
    """A message reaches every handler once and as it was written, whichever handlers came before."""
    m = v.module(LG)
    g = logging.Logger("Spey.own")
    kinds = [v.choice(f"handler {i}", ["spey", "plain"]) for i in range(v.choice("handlers", [1, 2, 3]))]
    outs = [io.StringIO() for _ in kinds]
    for kind, out in zip(kinds, outs):
        h = logging.StreamHandler(out)
        h.setFormatter(m.ColoredFormatter("%(message)s") if kind == "spey"
                       else logging.Formatter("%(message)s"))
        g.addHandler(h)
    level = v.choice("level", [5, 10, 20, 30, 40, 50])
    text, args = v.choice("message", [("plain text", ()), ("part %s of %d", ("one", 2)),
                                      ("100%", ()), (ValueError("an object"), ())])
    want = str(text) % args if args else str(text)
    times, off = v.choice("times", [1, 2]), logging.root.manager.disable
    logging.disable(logging.NOTSET)
    try:
        for _ in range(times):
            for out in outs:
                out.truncate(out.seek(0))
            g.log(level, text, *args)
            for kind, out in zip(kinds, outs):
                got = out.getvalue()
                v.ensure("written once", got.count(want) == 1 and got.count("Spey") == (kind == "spey"),
                         (kinds, got))
                v.ensure("as written", kind == "spey" or got == want + "\n", (kinds, got))
    finally:
        logging.disable(off)
    # the same text whichever handlers there are
    spey = {out.getvalue() for kind, out in zip(kinds, outs) if kind == "spey"}
    v.ensure("the same for all", len(spey) <= 1, spey)


@contract("C22", functions=["spey.system.exceptions.warning_tracker"])
def tracked(v):
    """A function under the warning tracker returns, raises and receives exactly what it would alone."""
    m = v.module("spey.system.exceptions")
    a, b, r = v.token("a"), v.token("b"), v.token("result")
    seen = []
    fails, warns = v.boolean("fails"), v.choice("warnings", [0, 2])

    def f(*args, **kw):
        seen.append((args, kw))
        for i in range(warns):
            warnings.warn(f"warning {i}")
        if fails:
            raise Boom("from the function")
        return r

    g = m.warning_tracker(f)
    with warnings.catch_warnings():
        warnings.simplefilter(v.choice("filter of the user", ["default", "error", "ignore", "always"]))
        filters, show = list(warnings.filters), warnings.showwarning
        with warnings.catch_warnings(record=True):
            alone = v.outcome(f, a, key=b)
        seen.clear()
        for _ in range(v.choice("calls", [1, 2])):
            o = v.outcome(g, a, key=b)
            v.ensure("same outcome", type(o.exc) is type(alone.exc) and o.value is alone.value, o)
        v.ensure("called once with the arguments each time", all(
            x == ((a,), {"key": b}) for x in seen) and len(seen) in (1, 2))
        v.ensure("warnings work as before",
                 warnings.filters == filters and warnings.showwarning is show)
    v.ensure("name", g.__name__ == "f")


RELEASES = {"older": "0.0.1", "newer": "99.0.0", "same": None, "not a version": "latest", "missing": False}


def days(x):
    return x * 86400.0


class Web:
    """A scratch home directory and an arbitrary web server."""

    def __init__(self, v):
        self.v, self.calls = v, []
        self.root = pathlib.Path(tempfile.mkdtemp(prefix="c22-"))
        self.home = self.root / ".spey"
        import requests
        self.requests = requests

    def info(self, kind):
        if kind == "list":
            return [1, 2]
        if kind == "no info":
            return {"info": None}
        if kind == "odd version":
            return {"info": {"version": 5, "requires_python": ">=3.8"}}
        if kind == "odd python":
            return {"info": {"version": "0.0.1", "requires_python": "~snake"}}
        if kind == "null":
            return None
        if kind == "empty":
            return {}
        ver = RELEASES[kind]
        return {"info": {"version": self.v.module("spey").version() if ver is None else ver,
                         "requires_python": ">=3.8"}}

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)


KINDS = ["older", "newer", "same", "not a version", "missing", "list", "null", "empty", "no info",
         "odd version", "odd python"]


@contract("C22", functions=[f"{WU}.check_updates", f"{WU}._get_pypi_info", f"{WU}._load_cached_pypi_info",
                            f"{WU}._save_pypi_info"],
          bounded="one or two cached answers")
def updates(v):
    """The update check never raises, asks at most once, and not at all when a recent answer is at
    hand; it announces a newer release."""
    w = Web(v)
    try:
        reply = v.choice("server", KINDS + ["no connection", "timeout", "not json", "any error"])
        calls = []

        class Reply:
            status_code, encoding, text = 200, None, "text"

            def json(s):
                if reply == "not json":
                    raise ValueError("no json")
                return w.info(reply)

        def get(url, **kw):
            calls.append((url, kw))
            if reply == "no connection":
                raise w.requests.ConnectionError("none")
            if reply == "timeout":
                raise w.requests.exceptions.ReadTimeout("late")
            if reply == "any error":
                raise RuntimeError("surprise")
            return Reply()

        if not replace(v, WU, "_SPEY_DIR", w.home):
            return
        internet(v, get)
        disk = v.choice("cache", ["none", "empty", "a file in its place", "fresh", "stale", "broken",
                                  "stale and fresh", "broken and fresh", "a folder named like one"])
        now, fresh = time.time(), None
        if disk == "a file in its place":
            w.home.write_text("hello")
        elif disk != "none":
            w.home.mkdir()
        if "fresh" in disk:
            fresh = v.choice("cached answer", KINDS)
            f = w.home / "pypi_latest_20260102_000000.json"
            f.write_text(json.dumps(w.info(fresh)))
            age = v.choice("age", [days(0.5), 0.0, days(1) - 600]) if fresh == "older" else days(0.5)
            os.utime(f, (now - age, now - age))
        if disk.startswith("stale"):
            f = w.home / "pypi_latest_20260101_000000.json"
            f.write_text(json.dumps(w.info("newer")))
            age = v.choice("old age", [days(1.5), days(1) + 600, days(30.3)]) if disk == "stale" \
                else days(1.5)
            os.utime(f, (now - age, now - age))
        if disk.startswith("broken"):
            f = w.home / "pypi_latest_20260103_000000.json"
            f.write_bytes(b"\xff{not json")
        if disk.startswith("a folder"):
            (w.home / "pypi_latest_20260103_000000.json").mkdir()
        rec = Recorder()
        g = logging.getLogger("Spey")
        keep = state()
        g.handlers[:] = [rec]
        try:
            logging.disable(logging.NOTSET)
            g.setLevel(logging.INFO)
            o = v.outcome(v.module(WU).check_updates)
        finally:
            restore(keep)
        v.ensure("never raises", o.ok, o)
        usable = fresh not in (None, "null")
        v.ensure("asks at most once", len(calls) <= 1)
        v.ensure("a recent answer is not asked for again", not (usable and calls))
        v.ensure("asked otherwise", usable or len(calls) == 1)
        v.ensure("does not wait for ever", all(k.get("timeout") for _, k in calls))
        known = fresh if usable else reply
        if known == "newer":
            v.ensure("a newer release is announced",
                     any("99.0.0" in x for x in rec.got), rec.got)
        elif known in ("older", "same"):
            v.ensure("no announcement of an older release",
                     not any("newer version" in x for x in rec.got))
        # what the server said is at hand the next time
        if calls and reply in ("older", "newer", "same") and not disk.startswith("a "):
            o = v.outcome(v.module(WU).check_updates)
            v.ensure("the answer is kept for a day", o.ok and len(calls) == 1)
            v.ensure("one answer is kept", len(list(w.home.glob("pypi_latest_*.json"))) == 1)
    finally:
        w.close()


@contract("C22", functions=[f"{WU}.get_bibtex"])
def bibtex(v):
    """A reference is the server's text for any successful status, nothing otherwise; only a dead
    connection raises."""
    m = v.module(WU)
    status = v.int("status", lo=100, hi=599)
    fail = v.choice("failure", [None, "ConnectionError", "ConnectTimeout", "ReadTimeout", "other", "url"])
    home, url = v.choice("home", [("inspire/arxiv", "inspirehep.net/api/arxiv/"), ("doi", "doi.org/"),
                                  ("inspire/doi", "inspirehep.net/api/doi/"),
                                  ("zenodo", "zenodo.org/api/records/"), ("nowhere", None)])
    calls, text = [], v.token("text")
    import requests as R

    class Reply:
        status_code, encoding = status, None

    def get(u, **kw):
        calls.append((u, kw))
        if fail in ("ConnectionError", "ConnectTimeout", "ReadTimeout"):
            raise getattr(R.exceptions, fail)("gone")
        if fail == "other":
            raise RuntimeError("surprise")
        if fail == "url":
            raise R.exceptions.InvalidURL("bad")
        r = Reply()
        r.text = text
        return r

    internet(v, get)
    o = v.outcome(m.get_bibtex, home, "12.34/56")
    if url is None:
        v.ensure("unknown source", o.ok and o.value == "" and not calls, o)
        return
    v.ensure("asked the right place", len(calls) == 1 and url + "12.34/56" in calls[0][0], calls)
    v.ensure("does not wait for ever", calls[0][1].get("timeout") is not None)
    if fail in ("ConnectionError", "ConnectTimeout", "ReadTimeout"):
        v.ensure("connection lost", o.exc is not None and type(o.exc) is m.ConnectionError, o)
        return
    v.ensure("never raises otherwise", o.ok, o)
    good = fail is None and v.holds(v.And(status >= 200, status <= 299))
    v.ensure("text of a success, nothing otherwise", o.value is text if good else o.value == "", o)


@contract("C22", functions=["spey.set_optimiser", "spey.set_log_level", "spey.cite"])
def switches(v):
    """Unknown names leave the settings alone."""
    m = v.module("spey")
    keep = os.environ.get("SPEY_OPTIMISER")
    g = logging.getLogger("Spey")
    level = g.level
    try:
        start = v.choice("set before", [None, "scipy", "minuit"])
        os.environ.pop("SPEY_OPTIMISER", None)
        if start:
            os.environ["SPEY_OPTIMISER"] = start
        name = v.choice("name", ["scipy", "minuit", "iminuit", "Scipy", "bfgs", ""])
        have = v.boolean("iminuit is installed")
        if not replace(v, "spey", "find_spec", lambda *a, **k: object() if have else None):
            return
        v.ok("optimiser", m.set_optimiser, name)
        want = "scipy" if name == "scipy" else \
            "minuit" if name in ("minuit", "iminuit") and have else start
        v.ensure("optimiser", os.environ.get("SPEY_OPTIMISER") == want)
        n = v.choice("level", [0, 1, 2, 3, 4, -1])
        o = v.outcome(m.set_log_level, n)
        lv = {0: logging.ERROR, 1: logging.WARNING, 2: logging.INFO, 3: logging.DEBUG}
        if n in lv:
            v.ensure("level", o.ok and g.level == lv[n])
        else:
            v.ensure("unknown level", not o.ok and g.level == level)
    finally:
        g.setLevel(level)
        os.environ.pop("SPEY_OPTIMISER", None)
        if keep is not None:
            os.environ["SPEY_OPTIMISER"] = keep


@contract("C22", functions=["spey.utils.ExpectationType.__eq__"])
def expectations(v):
    """An expectation equals itself, its name and its truth value, nothing else."""
    E = v.module("spey.utils").ExpectationType
    names = ["apriori", "aposteriori", "observed"]
    a = v.choice("left", names)
    b = v.choice("right", names + [None, True, False, "other", "", "OBSERVED", "Apriori", "obs",
                                   " observed", "observed ", "aposteriori.", "ExpectationType.observed",
                                   1, 0, 2, 0.0, (), ["observed"]])
    x = getattr(E, a)
    v.ensure("text", str(x) == a)
    v.ensure("one of each", getattr(E, a) is x and E[a] is x)
    if b in names and isinstance(b, str):
        v.ensure("members", (x == getattr(E, b)) == (a == b) and (x != getattr(E, b)) == (a != b))
        v.ensure("names", (x == b) == (a == b))
        v.ensure("hash", a != b or hash(x) == hash(getattr(E, b)))
    elif isinstance(b, bool):
        v.ensure("truth values", (x == b) == (a == ("apriori" if b else "observed")))
    else:
        o = v.outcome(lambda: bool(x == b))
        v.ensure("nothing else", o.raised("ValueError") or o.ok and o.value is False, (a, b, o))
        v.ensure("texts and None are compared quietly", o.ok or not (b is None or isinstance(b, str)))
