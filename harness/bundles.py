"""Runs a history of operations on bundles and records it for BundleTrace.tla.

A case: {"src": [texts], "bundles": [{"locs", "iso", "funs": [[name, what it does]]}],
"args": [[[name, value description]]], "ops": [...]} (see BundleTrace.tla)."""
import threading

from astenc import enc
from common import cp, guarded, uncp
from together import Schedule
import values


class Custom(Exception):
    pass


ERRORS = {"RuntimeError": RuntimeError, "ValueError": ValueError, "TypeError": TypeError, "KeyError": KeyError, "Custom": Custom,
          "LookupError": LookupError, "AttributeError": AttributeError, "ZeroDivisionError": ZeroDivisionError, "RecursionError": RecursionError,
          "StopIteration": StopIteration, "AssertionError": AssertionError, "OSError": OSError}


def number_nodes(n, counter):
    """Patterns are identified by their position in the tree."""
    counter[0] += 1
    n["a"], n["b"] = counter[0], 0
    for f in n["k"]:
        for y in f:
            number_nodes(y, counter)
    return n


def entries(res):
    return [number_nodes(enc(e), [0]) if type(e).__name__ in ("Message", "Term") else {"t": "x", "k": []} for e in res.body]


class Frames(threading.local):
    """What functions do during the calls under way, innermost last: their calls, and what those gave that format themselves."""

    LIMIT = 40

    def __init__(self):
        self.calls, self.given, self.raised, self.count = [], [], [], 0

    def push(self):
        self.calls.append([])
        self.given.append([])
        if len(self.calls) == 1:
            self.count = 0
            del self.raised[:]

    def pop(self):
        return self.calls.pop(), self.given.pop()


def passed(args, kwargs):
    """The arguments a function passes on: what it was given, without dates."""
    import datetime

    out = {"x": args[0]} if args else {}
    out.update(kwargs)
    return {k: v for k, v in out.items() if not isinstance(v, datetime.date)}


def function(name, what, frames, inner=None):
    do = what["do"]
    value = values.make(what["v"]) if do == "const" else None
    once = ERRORS[what["cls"]](what["msg"]) if do == "raise" and what.get("same") else None

    def f(*args, **kwargs):
        frames.calls[-1].append((name, list(args), dict(kwargs)))
        if do == "arg":
            return args[what["i"] - 1]
        if do == "kw":
            return kwargs[uncp(what["name"])]
        if do == "const":
            return value
        if do == "given":
            frames.count += 1
            text = "deep" if len(frames.calls) > 2 or frames.count > frames.LIMIT else inner(what, passed(args, kwargs))
            frames.given[-1].append(cp(text))
            return text
        e = once or ERRORS[what["cls"]](what["msg"])
        frames.raised.append(e)
        raise e

    return FalseFunction(f) if what.get("false") else f


class FalseFunction:
    """A function object that is false, and has no name."""

    def __init__(self, f):
        self.f = f

    def __call__(self, *args, **kwargs):
        return self.f(*args, **kwargs)

    def __len__(self):
        return 0


def framed(frames, fn, *args):
    """-> result, what was raised, the calls made, what was given.  Only the outermost call is timed."""
    outermost = not frames.calls
    frames.push()
    try:
        if outermost and threading.current_thread() is threading.main_thread():
            r, bad = guarded(fn, *args)
        else:
            try:
                r, bad = fn(*args), ""
            except Exception as e:
                r, bad = None, type(e).__name__
    finally:
        calls, given = frames.pop()
    return r, bad, calls, given


def error(e, raised):
    for r in raised:
        if r is e:
            return {"c": type(e).__name__, "m": cp(e.args[0])}
    c = type(e).__name__
    return {"c": c, "m": cp(str(e))}


def snapshot(args):
    out = {}
    for k, v in args.items():
        out[k] = (id(v), type(v), repr(v), repr(getattr(v, "options", None)))
    return out


def record(case):
    import warnings

    from fluent.runtime import FluentBundle, FluentResource

    warnings.simplefilter("ignore")

    frames = Frames()
    try:
        res = [FluentResource(uncp(s)) for s in case["src"]]
        argsets = [{uncp(n): values.make(v) for n, v in a} for a in case["args"]]
        if any(type(e).__name__ == "Junk" for r in res for e in r.body):
            return "skip"
        before = [[enc(e) for e in r.body] for r in res]
        dates = []
        rec = {"res": [entries(r) for r in res],
               "args": [[[n, values.described(v, dates)] for n, v in a] for a in case["args"]],
               "bundles": [], "ops": []}
        for b in case["bundles"]:
            fs = [[n, dict(f, v=values.returned(f["v"], dates)) if f["do"] == "const" else {k: (cp(v) if k == "msg" else v) for k, v in f.items()}] for n, f in b["funs"]]
            rec["bundles"].append({"locs": b["locs"], "iso": b["iso"], "funs": fs})
        tags = sorted({next((t for t in b["locs"] if t in values.KNOWN), "(default)") for b in case["bundles"]})
        rec["dates"] = values.date_table(dates, tags, case.get("tzs", values.TZS if dates else [""]))
    except Exception:
        return "skip"
    held = [snapshot(a) for a in argsets]

    shared = {}

    def inner(what, kw):
        h = get({"b": what["b"], "id": what["id"]})
        m = handles[h]
        if m is None or m[1].value is None:
            return "gone"
        return fmt({"attr": [], "args": -1, "argv": [[cp(k), values.see(v)] for k, v in kw.items()]}, h, kw)

    def fn(b, n, f):
        if f["do"] == "given":
            return function(n, dict(f, b=b), frames, inner)
        return shared.setdefault(repr((n, f)), function(n, f, frames))

    bundles, handles, asked, lock = [], [], [], threading.Lock()

    def start():
        for i, b in enumerate(case["bundles"]):
            bundles.append(FluentBundle(b["locs"], functions={uncp(n): fn(i + 1, n, f) for n, f in b["funs"]}, use_isolating=b["iso"]))

    def get(op):
        o = {"op": "get", "b": op["b"], "id": op["id"], "out": "ok", "value": False, "attrs": [], "name": []}
        with lock:
            rec["ops"].append(o)
            handles.append(None)
            h = len(handles) - 1
        try:
            m = bundles[op["b"] - 1].get_message(uncp(op["id"]))
            handles[h] = (bundles[op["b"] - 1], m)
            o["value"] = m.value is not None
            o["attrs"] = [cp(a) for a in m.attributes]
            o["name"] = cp(m.id.name)
        except LookupError:
            o["out"] = "missing"
        except Exception as e:
            o["out"] = type(e).__name__
        return h

    def fmt(op, h, args):
        b, m = handles[h]
        attr = uncp(op["attr"])
        pattern = m.attributes.get(attr) if attr else m.value
        if pattern is None:
            return "gone"
        o = {"op": "fmt", "h": h + 1, "attr": op["attr"], "args": op["args"], "argv": op.get("argv", []), "text": [], "kind": "", "errs": [], "calls": [], "given": [], "raised": ""}
        r, o["raised"], calls, o["given"] = framed(frames, b.format_pattern, pattern, *([] if args is None else [args]))
        text = "failed"
        if not o["raised"]:
            try:
                text, errs = r
                o["kind"] = "str" if isinstance(text, str) and isinstance(errs, list) and all(isinstance(e, Exception) for e in errs) else "%s, %s" % (type(text).__name__, type(errs).__name__)
                if o["kind"] == "str":
                    o["text"] = cp(text)
                    o["errs"] = [error(e, frames.raised) for e in errs]
                    o["calls"] = [{"f": n, "args": [values.see(x) for x in a], "kw": [[cp(x), values.see(y)] for x, y in k.items()]} for n, a, k in calls]
            except (TypeError, ValueError) as e:
                o["kind"] = type(e).__name__
        rec["ops"].append(o)
        return text if isinstance(text, str) else "failed"

    _, bad = guarded(start)
    if bad:
        return dict(rec, ops=[{"op": "get", "b": 1, "id": [], "out": "new bundle: " + bad, "value": False, "attrs": [], "name": []}])
    def use(op):
        """Ask for a message and format it."""
        h = get(op)
        if handles[h] is not None:
            fmt(op, h, argsets[op["args"] - 1] if op["args"] else None)

    def has(op):
        out, bad = (guarded(bundles[op["b"] - 1].has_message, uncp(op["id"])) if threading.current_thread() is threading.main_thread()
                    else (bundles[op["b"] - 1].has_message(uncp(op["id"])), ""))
        rec["ops"].append(dict(op, out=("yes" if out else "no") if not bad and isinstance(out, bool) else "raised " + bad))

    def together(op):
        fs = [lambda t=t: [has(o) if o["op"] == "has" else use(o) for o in t] for t in op["tasks"]]
        if not Schedule(op["plan"], fs).run():
            rec["ops"].append({"op": "has", "b": 1, "id": [], "out": "no answer"})

    for op in case["ops"]:
        k = op["op"]
        if k == "together":
            together(op)
        elif k == "use":
            use(op)
        elif k == "add":
            _, bad = guarded(bundles[op["b"] - 1].add_resource, res[op["r"] - 1], op["over"])
            rec["ops"].append(dict(op) if not bad else {"op": "has", "b": op["b"], "id": [], "out": "raised " + bad})
        elif k == "has":
            has(op)
        elif k == "get":
            asked.append(get(op))
        elif k == "fmt":
            h = asked[op["h"] - 1]
            if handles[h] is not None:
                fmt(op, h, argsets[op["args"] - 1] if op["args"] else None)
        elif k == "tags":
            out, bad = guarded(lambda: [str(t) for t in bundles[op["b"] - 1].locales])
            rec["ops"].append(dict(op, out=out if not bad else ["raised " + bad]))
        elif k == "end":
            intact = before == [[enc(e) for e in r.body] for r in res] and held == [snapshot(a) for a in argsets]
            rec["ops"].append({"op": "end", "intact": intact})
    return rec
