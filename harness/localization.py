"""Runs requests on localizations and records them for LocalizationTrace.tla.

A case: {"src": [texts], "locs": [{"locales", "offer": [{"sets": [[resource numbers]], "fails": bool}],
"iso", "funs", "loader": "generator" | "list" | "files"}], "args", "ops": [{"loc", "id", "args"}]}."""
import os
import shutil
import tempfile

from astenc import enc
from bundles import Frames, entries, framed, function
from common import cp, guarded, uncp
from rtgen import R
import values


class LoaderFailed(Exception):
    pass


class Scratch:
    def __enter__(self):
        self.dirs = []
        return self

    def new(self):
        d = tempfile.mkdtemp(prefix="ftl-loc-")
        self.dirs.append(d)
        return d

    def __exit__(self, *a):
        for d in self.dirs:
            shutil.rmtree(d, ignore_errors=True)


def loader_class():
    from fluent.runtime import AbstractResourceLoader

    class Loader(AbstractResourceLoader):
        def __init__(self, spec, res, asked):
            self.spec, self.res, self.asked = spec, res, asked

        def offered(self, locale):
            return self.spec["offer"][self.spec["locales"].index(locale)]

        def check(self, locale, resource_ids):
            self.asked.append(locale if resource_ids == ["a.ftl", "b.ftl"] else "with other resource ids")

    class Generated(Loader):
        def resources(self, locale, resource_ids):
            self.check(locale, resource_ids)
            o = self.offered(locale)
            for s in o["sets"]:
                yield [self.res[i - 1] for i in s]
            if o["fails"]:
                raise LoaderFailed

    class Listed(Loader):
        def resources(self, locale, resource_ids):
            self.check(locale, resource_ids)
            o = self.offered(locale)
            if o["fails"]:
                raise LoaderFailed
            return [tuple(self.res[i - 1] for i in s) for s in o["sets"]]

    return {"generator": Generated, "list": Listed}


def files_loader(spec, src, asked, scratch):
    """The library's own loader on files that make it offer the same; resources of a
    set in ascending order; the failure of a locale is a file in another encoding."""
    from fluent.runtime import FluentResourceLoader

    base = scratch.new()
    depth = max([len(o["sets"]) + 1 for o in spec["offer"]] or [1])
    roots = [os.path.join(base, "root%d" % i, "{locale}") for i in range(depth)]
    for loc, o in zip(spec["locales"], spec["offer"]):
        for i, s in enumerate(o["sets"] + ([None] if o["fails"] else [])):
            d = roots[i].format(locale=loc)
            os.makedirs(d)
            for r in s or []:
                with open(os.path.join(d, "r%d.ftl" % r), "w", encoding="utf-8", newline="") as f:
                    f.write(src[r - 1])
            if s is None:
                with open(os.path.join(d, "r1.ftl"), "wb") as f:
                    f.write(b"a = \xff\n")

    class Files(FluentResourceLoader):
        def resources(self, locale, resource_ids):
            asked.append(locale)
            return super().resources(locale, resource_ids)

    return Files(roots), ["r%d.ftl" % (i + 1) for i in range(len(src))]


def record(case):
    import warnings

    warnings.simplefilter("ignore")
    with Scratch() as scratch:
        return record_in(case, scratch)


def record_in(case, scratch):
    from fluent.runtime import FluentBundle, FluentLocalization, FluentResource

    frames = Frames()
    try:
        src = [uncp(s) for s in case["src"]]
        res = [FluentResource(s) for s in src]
        argsets = [{uncp(n): values.make(v) for n, v in a} for a in case["args"]]
        if any(type(e).__name__ == "Junk" for r in res for e in r.body):
            return "skip"
        dates = []
        rec = {"res": [entries(r) for r in res], "args": [[[n, values.described(v, dates)] for n, v in a] for a in case["args"]], "locs": [], "ops": []}
        tags = set()
        for L in case["locs"]:
            fs = [[n, dict(f, v=values.returned(f["v"], dates)) if f["do"] == "const" else {k: (cp(v) if k == "msg" else v) for k, v in f.items()}] for n, f in L["funs"] or []]
            rec["locs"].append({"locales": L["locales"], "offer": L["offer"], "iso": L["iso"] is True, "funs": fs})
            for i in range(len(L["locales"])):
                tags.add(next((t for t in L["locales"][i:] if t in values.KNOWN), "(default)"))
        rec["dates"] = values.date_table(dates, sorted(tags), values.TZS if dates else [""])
        classes = loader_class()
        asked = [[] for _ in case["locs"]]
        made = [[] for _ in case["locs"]]
        loaders = []
        for L, a in zip(case["locs"], asked):
            if L["loader"] == "files":
                loaders.append(files_loader(L, src, a, scratch))
            else:
                loaders.append((classes[L["loader"]](L, res, a), ["a.ftl", "b.ftl"]))
    except Exception:
        return "skip"

    def recording(out):
        class Recorded(FluentBundle):
            def __init__(self, *a, **k):
                super().__init__(*a, **k)
                out.append({"locs": list(self.locales), "iso": self.use_isolating})

        return Recorded

    locs = []

    def inner(what, kw):
        return request({"loc": what["loc"], "id": what["id"], "args": -1, "argv": [[cp(k), values.see(v)] for k, v in kw.items()]}, kw)[1]

    def start():
        for L, (loader, ids), m in zip(case["locs"], loaders, made):
            k = {}
            if L["iso"] is not None:
                k["use_isolating"] = L["iso"]
            if L["funs"] is not None:
                k["functions"] = {uncp(n): function(n, f, frames, inner) for n, f in L["funs"]}
            locs.append(FluentLocalization(L["locales"], ids, loader, bundle_class=recording(m), **k))

    _, bad = guarded(start)
    if bad:
        return dict(rec, ops=[{"loc": 1, "id": [], "args": 0, "text": [], "raised": "new localization: " + bad, "asked": [], "made": [], "argv": [], "inner": [], "given": []}])
    pending = []

    def request(op, args):
        i = op["loc"] - 1
        o = dict(op, text=[], raised="", argv=op.get("argv", []), inner=[], given=[])
        before = len(asked[i]), len(made[i])

        def searched():
            if "asked" not in o:
                o["asked"], o["made"] = asked[i][before[0]:], made[i][before[1]:]

        if pending:
            pending[-1][0]()
            pending[-1][1].append(o)
        pending.append((searched, o["inner"]))
        try:
            r, o["raised"], _, o["given"] = framed(frames, locs[i].format_value, uncp(op["id"]), *([] if args is None else [args]))
        finally:
            pending.pop()
            searched()
        if o["raised"] in ("LoaderFailed", "UnicodeDecodeError"):
            o["raised"] = "loader"
        elif not o["raised"]:
            if isinstance(r, str):
                o["text"] = cp(r)
                return o, r
            o["raised"] = "gave a " + type(r).__name__
        return o, "failed"

    for op in case["ops"]:
        rec["ops"].append(request(op, argsets[op["args"] - 1] if op["args"] else None)[0])
    return rec


def inputs(rng, n, tags=None):
    """tags(rng): the list of locales of a localization."""
    out = []
    for i in range(n):
        g = R(rng, depth=2, unknown=0.06, weights={"select": 1, "msg": 4}, funs=["NUMBER", "DATETIME", "ARG", "KW", "STR", "FAIL", "NONE"] + ["INNER"] * (i % 3))
        nr = rng.randrange(2, 6)
        src = []
        for _ in range(nr):
            s = "".join(x for x in (g.message(m) for m in g.msgs) if rng.random() < 0.35) + "".join(g.term(t) for t in g.terms if rng.random() < 0.4)
            if rng.random() < 0.35:
                s += rng.choice(g.msgs) + " = " + rng.choice(['{ "" }', "{ $missing }", "{ nosuch }", "{ $x }", "x{ $y }", "{ $x ->\n [one] 1\n [few] f\n *[other] o\n }", "{ FAIL() }", "\n    .a = only"]) + "\n"
            src.append(cp(s or rng.choice(g.msgs) + " = v\n"))
        locs = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            locales = tags(rng) if tags else rng.sample(values.LOCALES + ["xx", "zz-ZZ"], rng.choice([0, 1, 2, 2, 3, 3, 4]))
            loader = rng.choice(["generator", "generator", "list", "files"])
            offer = []
            for _ in locales:
                sets = []
                for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
                    s = rng.sample(range(1, nr + 1), rng.choice([1, 1, 2, 3]) if nr > 2 else 1)
                    if loader == "files":
                        s.sort()
                    elif rng.random() < 0.05:
                        s = []
                    sets.append(s)
                fails = rng.random() < 0.1
                offer.append({"sets": [] if fails and loader == "list" else sets, "fails": fails})
            b = g.bundle()
            locs.append({"locales": locales, "offer": offer, "iso": rng.choice([None, True, False]), "funs": rng.choice([None, b["funs"], b["funs"]]), "loader": loader})
        for L in locs:
            for _, f in L["funs"] or []:
                if f["do"] == "given":
                    f["loc"] = rng.randrange(len(locs)) + 1
        ops = []
        for _ in range(rng.randrange(2, 9)):
            ops.append({"loc": rng.randrange(len(locs)) + 1, "id": cp(rng.choice(g.msgs * 4 + ["nosuch", "t", "-t", "", "m.a"])), "args": rng.choice([0, 1, 2, 2])})
        out.append({"src": src, "locs": locs, "args": [g.args(), g.args()], "ops": ops})
    return out


# ---- behaviours of LocalizationMC

MC_RES = ["a = A\n", "b = B\n-a = T\n", "a =\n    .x = X\n", "b = ab { a }\n"]


def replay(case):
    from fluent.runtime import FluentBundle, FluentLocalization, FluentResource

    n = len(case["offer"])
    spec = {"locales": ["en-US", "pl", "fr"][:n], "offer": case["offer"]}
    asked, made = [], []

    class Recorded(FluentBundle):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            made.append(list(self.locales))

    def work():
        res = [FluentResource(s) for s in MC_RES]
        loc = FluentLocalization(spec["locales"], ["a.ftl", "b.ftl"], loader_class()["generator"](spec, res, asked), bundle_class=Recorded)
        chain = [spec["locales"][i:] for i, o in enumerate(case["offer"]) for _ in o["sets"]]
        for k, h in enumerate(case["hist"]):
            name = uncp(h["id"])
            try:
                text, raised = loc.format_value(name), False
            except LoaderFailed:
                text, raised = None, True
            want = uncp(h["text"])
            if raised != h["raised"] or not raised and text != want:
                return {"why": "outcome", "at": k + 1, "got": [text, raised], "want": [want, h["raised"]]}
            if asked != spec["locales"][:h["asked"]]:
                return {"why": "locales asked for", "at": k + 1, "got": asked, "want": h["asked"]}
            if made != chain[:h["loaded"]]:
                return {"why": "bundles created", "at": k + 1, "got": made, "want": chain[:h["loaded"]]}

    out, bad = guarded(work)
    return {"why": "raised " + bad} if bad else out
