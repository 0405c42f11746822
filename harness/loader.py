"""Runs the file loader on scratch file systems and records it for LoaderTrace.tla.

A case: {"roots": [texts], "single": bool, "cwd": path text, "ops": [...]}; the scratch
directory plays the root directory, so absolute paths get its name in front."""
import os
import shutil
import tempfile

from astenc import enc
from common import cp, guarded, uncp
import ftlgen


def strip(n):
    return dict(n, a=-1, b=-1, k=[[strip(x) for x in f] for f in n["k"]])


def body(res):
    return [strip(enc(e)) for e in res.body]


def real(base, text):
    return base + text if text.startswith("/") else text


def names(path):
    return [cp(x) for x in path.split("/") if x]


def put(base, path, node):
    p = base + path
    if os.path.islink(p) or os.path.isfile(p):
        os.unlink(p)
    if node["t"] == "file":
        with open(p, "wb") as f:
            f.write(bytes(node["b"]))
    elif node["t"] == "dir":
        os.makedirs(p, exist_ok=True)
    elif node["t"] == "link":
        os.symlink(real(base, uncp(node["to"])), p)


def cut(base, path):
    p = base + path
    if os.path.islink(p) or os.path.isfile(p):
        os.unlink(p)
    elif os.path.isdir(p):
        os.rmdir(p)


def load(loader, requests, convert):
    """Run requests, a set of each in turn; of each: the sets when they came, what they are in the end, what was raised."""
    runs = [{"it": None, "sets": [], "kept": [], "bad": "", "on": True} for _ in requests]
    while any(x["on"] for x in runs):
        for (locale, ids), x in zip(requests, runs):
            def work():
                if x["it"] is None:
                    x["it"] = iter(loader.resources(locale, ids))
                s = next(x["it"], None)
                if s is None:
                    x["on"] = False
                else:
                    x["kept"].append(s)
                    x["sets"].append([convert(r) for r in s])

            if x["on"]:
                _, x["bad"] = guarded(work)
                if x["bad"]:
                    x["on"] = False
    return [(x["sets"], [[convert(r) for r in s] for s in x["kept"]], "unicode" if x["bad"] == "UnicodeDecodeError" else x["bad"]) for x in runs]


class scratch:
    def __enter__(self):
        self.base = os.path.realpath(tempfile.mkdtemp(prefix="ftl-loader-"))
        return self.base

    def __exit__(self, *a):
        os.chdir("/")
        shutil.rmtree(self.base, ignore_errors=True)


def record(case):
    import warnings

    from fluent.runtime import FluentResourceLoader
    from fluent.syntax import FluentParser

    warnings.simplefilter("ignore")
    texts = {}
    rec = {"roots": [cp(r) for r in case["roots"]], "cwd": names(case["cwd"]), "ops": []}
    with scratch() as base:
        try:
            for op in case["ops"]:
                if op["op"] == "put" and op["node"]["t"] == "file":
                    try:
                        t = bytes(op["node"]["b"]).decode("utf-8")
                        texts[t] = body(FluentParser(with_spans=False).parse(t))
                    except UnicodeDecodeError:
                        pass
            roots = [real(base, r) for r in case["roots"]]
            loader = FluentResourceLoader(roots[0] if case["single"] else roots)
        except Exception:
            return "skip"
        for op in case["ops"]:
            if op["op"] == "put":
                put(base, op["path"], op["node"])
                rec["ops"].append({"op": "put", "path": names(op["path"]), "node": op["node"]})
                if op["path"] == case["cwd"]:
                    os.chdir(base + op["path"])
            elif op["op"] == "cut":
                cut(base, op["path"])
                rec["ops"].append({"op": "cut", "path": names(op["path"])})
            else:
                os.chdir(base + case["cwd"])
                reqs = op.get("pair") or [[op["locale"], op["ids"]]]
                for (l, ids), (sets, kept, bad) in zip(reqs, load(loader, [(l, [real(base, i) for i in ids]) for l, ids in reqs], body)):
                    rec["ops"].append({"op": "load", "locale": cp(l), "ids": [cp(i) for i in ids], "sets": sets, "kept": kept, "raised": bad})
    rec["parsed"] = [[cp(t), b] for t, b in texts.items()]
    return rec


def content(r, gen):
    k = r.random()
    if k < 0.08:
        return list(r.choice([b"a = \xff\n", b"# \xed\xa0\x80\n", b"a = \xc0\xaf\n", b"\xf4\x90\x80\x80 = x\n", "a = é\n".encode("latin-1"), "a = é\n".encode("utf-16")]))
    if k < 0.16:
        return list(r.choice([b"", b"\n", b"a = 1\r\nb = 2\r\n  c\r\n", b"a = x\n  y\r z\n", b"a = v\x00w\n", "k = \u2028 x\x85y\n  z\x0bt\n".encode(), "é = \U0001f600\n".encode(), "m = \U0010ffff\u07ff\u0800\n".encode(), b"a = 1\nb = \x1a2\nc = 3\n",
                              b"\r\na = 1\r\n\r\n", b"  a = 1\n", b"\ta = 1\nb = \t2\t\n", "\u2028a = 1\n\x0cb = 2\n".encode()]))
    if k > 0.9995:     # more than a buffer
        return list(("# " + "\u00e9x" * r.choice([1365, 2731, 2730]) + "\r\na = 1\r\nb = 2\n").encode())
    t = gen(r)
    if k < 0.24:        # a mark at the start, or elsewhere
        i = r.choice([0, 0, r.randrange(len(t) + 1), len(t)])
        t = t[:i] + "\ufeff" * r.choice([1, 1, 2]) + t[i:]
    return list(t.encode("utf-8", "ignore"))


def small(r):
    out = ""
    for _ in range(r.randrange(1, 4)):
        out += r.choice(["a", "b", "-t", "# c", "m"]) + r.choice([" = ", " =\n    "]) + r.choice(["v", "é", "{ $x }", "x\n  y", "{", "日本", "w  "]) + r.choice(["\n", "\n", "\r\n", ""])
    return out


NAMES = ["a.ftl", "b.ftl", "main.ftl", "é.ftl"]
LOCALES = ["en", "de-AT", "fr", "x/y"]


def inputs(rng, n):
    out = []
    for _ in range(n):
        r = rng
        cwd = r.choice(["/w", "/w", "/w/d"])
        base = r.choice(["loc/{locale}", "loc/{locale}/", "loc", "{locale}", "/top/{locale}/ftl", "/top", "", ".", "../w/loc", "/w/../top/{locale}", "lnk/{locale}", "//top//{locale}"])
        roots = [base] + [r.choice(["loc/{locale}", "/top/{locale}", "/top", "other", "lnk/{locale}/x", base]) for _ in range(r.choice([0, 1, 1, 2]))]
        ids = r.sample(NAMES, r.choice([2, 3])) + r.sample(["{locale}.ftl", "sub/a.ftl", "x-{locale}/a{locale}.ftl", "/top/abs.ftl", "../a.ftl", "./b.ftl", "a.ftl/", "a.ftl/.", "sub//a.ftl", "", "."], r.choice([0, 1, 2]))
        locs = r.sample(LOCALES[:4], r.choice([1, 2]))
        # plausible places of files
        places = []
        for root in roots:
            for i in ids:
                for l in locs:
                    p = os.path.join(root, i).replace("{locale}", l)
                    p = p if p.startswith("/") else cwd + "/" + p
                    p = os.path.normpath(p.replace("/lnk/", "/loc/"))
                    p = "/" + p.lstrip("/")
                    if p not in places and p != "/":
                        places.append(p)
        ops, made = [], {}

        def mkdirs(p):
            parts = p.split("/")[1:]
            for k in range(1, len(parts) + 1):
                d = "/" + "/".join(parts[:k])
                if d not in made:
                    made[d] = "dir"
                    ops.append({"op": "put", "path": d, "node": {"t": "dir"}})
                elif made[d] != "dir":
                    return False
            return True

        def place(p):
            if not mkdirs(os.path.dirname(p)) or made.get(p) == "dir":
                return
            k = r.random()
            if k < 0.72:
                node = {"t": "file", "b": content(r, small)}
            elif k < 0.82:
                files = [x for x in made if made[x] == "file"]
                to = r.choice(files + [p, "nowhere"] + ([os.path.relpath(r.choice(files), os.path.dirname(p))] if files else []))
                node = {"t": "link", "to": cp(to)}
            elif p in made:
                made.pop(p)
                ops.append({"op": "cut", "path": p})
                return
            elif k < 0.9:
                node = {"t": "dir"}
            else:
                return
            made[p] = node["t"]
            ops.append({"op": "put", "path": p, "node": node})

        mkdirs(cwd)
        mkdirs(cwd + "/loc")
        if r.random() < 0.5 or "lnk" in "".join(roots):
            mkdirs(cwd)
            made[cwd + "/lnk"] = "link"
            ops.append({"op": "put", "path": cwd + "/lnk", "node": {"t": "link", "to": cp(r.choice(["loc", cwd + "/loc", "./loc/."]))}})
        for p in places:
            if r.random() < 0.6:
                place(p)
        for _ in range(r.choice([1, 2, 3])):
            if r.random() < 0.2:
                ops.append({"op": "load", "pair": [[r.choice(locs), r.sample(ids, r.randrange(1, len(ids) + 1))] for _ in "ab"]})
                continue
            ops.append({"op": "load", "locale": r.choice(locs), "ids": r.sample(ids, r.randrange(1, len(ids) + 1)) + ([r.choice(ids)] if r.random() < 0.1 else [])})
            if r.random() < 0.6:
                for p in r.sample(places, min(len(places), 2)):
                    place(p)
        ops.append({"op": "load", "locale": r.choice(locs), "ids": list(ids)})
        out.append({"roots": roots[:1] if r.random() < 0.2 else roots, "single": False, "cwd": cwd, "ops": ops})
        out[-1]["single"] = len(out[-1]["roots"]) == 1 and r.random() < 0.7
    return out


# ---- behaviours of LoaderMC

SLOTS = ["/1/en/a", "/1/fr/a", "/1/en/b", "/2/a", "/2/en.c"]


def replay(case):
    from fluent.runtime import FluentResourceLoader
    from fluent.syntax import FluentParser

    def work():
        with scratch() as base:
            os.chdir(base)
            for d in ("/1/en", "/1/fr", "/2"):
                os.makedirs(base + d)
            loader = FluentResourceLoader([real(base, uncp(r)) for r in case["roots"]])
            for n, h in enumerate(case["hist"]):
                if h["op"] != "load":
                    continue
                for p, node in zip(SLOTS, h["has"]):
                    cut(base, p)
                for p, node in zip(SLOTS, h["has"]):
                    put(base, p, node)
                want = [[body(FluentParser().parse(uncp(t))) for t in s] for s in h["sets"]]
                got, kept, bad = load(loader, [(uncp(h["loc"]), [real(base, uncp(i)) for i in h["ids"]])], body)[0]
                if kept != got:
                    return {"why": "sets change when others are made", "at": n + 1}
                if h["fails"] and (bad != "unicode" or got != want[: len(got)]) or not h["fails"] and (bad or got != want):
                    return {"why": "yields", "at": n + 1, "raised": bad, "got": len(got), "want": len(want)}

    out, bad = guarded(work)
    os.chdir("/")
    return {"why": "raised " + bad} if bad else out
