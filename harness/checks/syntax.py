"""C01-C07, C14: the parser against FluentSyntax/FluentResource (SyntaxTrace.tla)."""
import re

from astenc import MAX_DEPTH, depth, enc
from common import cp, guarded, uncp
import ftlgen


def _parse(src, with_spans=True, parser=None):
    from fluent.syntax import FluentParser

    p = parser or FluentParser(with_spans=with_spans)
    return p.parse(src)


def _body(src, **kw):
    return [enc(e) for e in _parse(src, **kw).body]


def record(inp):
    prop, src = inp["view"], uncp(inp["src"])
    rec = {"src": inp["src"], "body": [], "raised": ""}
    res, rec["raised"] = guarded(_parse, src)
    if not rec["raised"]:
        rec["body"] = [enc(e) for e in res.body]
        if any(depth(n) > MAX_DEPTH for n in rec["body"]):
            return "skip"
    if prop == "C01":
        rec["again"] = []
        if not rec["raised"]:
            def again():
                from fluent.syntax import FluentParser

                p = FluentParser()
                p.parse(uncp(inp["before"]))
                try:
                    p.parse_entry(uncp(inp["before"]))
                finally:
                    return [enc(e) for e in p.parse(src).body]

            rec["again"], rec["raised"] = guarded(again)
            if not rec["raised"]:
                _, rec["raised"] = guarded(_entry, src)
            rec["again"] = rec["again"] or []
    elif prop == "C04":
        rec["ns"], rec["end"] = [], -1
        if not rec["raised"]:
            rec["end"] = res.span.end if res.span is not None and res.span.start == 0 else -1
            rec["ns"], rec["raised"] = guarded(lambda: _body(src, with_spans=False))
            rec["ns"] = rec["ns"] or []
    elif prop == "C07":
        rec["crlf"] = []
        if not rec["raised"]:
            rec["crlf"], rec["raised"] = guarded(_body, uncp(inp["crlf"]))
            rec["crlf"] = rec["crlf"] or []
    elif prop == "C14":
        rec["entry"] = {"t": "none", "a": -1, "b": -1, "v": [], "k": []}
        if not rec["raised"]:
            e, rec["raised"] = guarded(_entry, src)
            if e is not None:
                rec["entry"] = e
    return rec


def _entry(src):
    from fluent.syntax import FluentParser

    return enc(FluentParser().parse_entry(src))


MIX = {
    "C01": {"alike": 2, "pumped": 0.4, "valid": 2, "crlf": 2, "junk": 3, "mutated": 4, "fixture": 2, "tokens": 4, "comments": 2},
    "C02": {"alike": 3, "pumped": 0.5, "valid": 4, "deep": 2, "crlf": 1, "junk": 2, "mutated": 4, "fixture": 2, "tokens": 3},
    "C03": {"alike": 3, "pumped": 0.5, "junk": 5, "mutated": 4, "fixture": 1, "tokens": 4},
    "C04": {"alike": 1, "pumped": 0.7, "valid": 4, "crlf": 2, "junk": 1, "mutated": 2, "comments": 2, "indents": 2},
    "C05": {"alike": 1, "pumped": 0.7, "comments": 8, "valid": 1, "mutated": 1},
    "C06": {"alike": 1, "pumped": 0.7, "indents": 6, "valid": 3, "deep": 1, "crlf": 1, "fixture": 1},
    "C07": {"alike": 1, "pumped": 0.7, "valid": 3, "junk": 3, "mutated": 3, "comments": 2, "indents": 2, "tokens": 2},
    "C14": {"alike": 1, "pumped": 0.7, "comments": 4, "valid": 2, "junk": 4, "mutated": 2, "tokens": 2},
}
COUNT = {"C01": (6000, 60000), "C02": (4000, 60000), "C03": (5000, 60000), "C04": (3000, 40000), "C05": (6000, 60000),
         "C06": (5000, 60000), "C07": (4000, 50000), "C14": (5000, 50000)}


def small_texts(prop, thorough):
    """Exhaustive: every short sequence of tokens from an alphabet chosen for the property."""
    import itertools

    spec = {
        "C01": ([" ", "\n", "\r", "a", "=", "{", "#", "-"], 4, 5),
        "C02": (["a", " ", "=", "{", "}", "$", "-", "1", "\"", "(", ")"], 3, 4),
        "C03": (["a = ", "a", "\n", "{", "}", " ", "-", "//", "[["], 4, 5),
        "C04": (["a = ", "b", "\n", "\r\n", " ", "{1}", "# c"], 4, 5),
        "C05": (["#", "##", " ", "\n", "x", "m = v", "\r\n"], 4, 6),
        "C06": (["\n", " ", "  ", "t", "{1}", "[", "\r\n"], 4, 5),
        "C07": (["\n", " ", "a = ", "b", "#", "{", "}"], 4, 5),
        "C14": (["#", "\n", " x", "a = b", "{", "-t = y"], 4, 6),
    }
    alpha, q, t = spec[prop]
    prefix = {"C06": "a ="}.get(prop, "")
    for n in range(0, (t if thorough else q) + 1):
        for c in itertools.product(alpha, repeat=n):
            yield prefix + "".join(c)


def relineend(rng, t):
    k = rng.random()
    if k < 0.5:
        return t.replace("\n", "\r\n")
    return "".join("\r\n" if c == "\n" and rng.random() < 0.5 else c for c in t)


def inputs(ctx):
    prop, rng = ctx.prop, ctx.rng
    texts = ftlgen.texts(rng, ctx.pick(*COUNT[prop]), MIX[prop])
    small = sorted(set(small_texts(prop, ctx.thorough)))
    near, exprs = ftlgen.neighbours(), ftlgen.expressions()
    alike = ftlgen.lookalikes()
    part = {"C02": (9000, 5000, 5000), "C03": (5000, 1500, 5000), "C01": (4000, 800, 800), "C04": (4000, 1500, 800), "C07": (2500, 800, 800)}.get(prop, (3000, 600, 500))
    if ctx.thorough:
        part = (len(near), len(exprs), len(alike))
    if prop in ("C02", "C03"):
        small += ftlgen.escapes()
    ctx.extra["exhaustive_small_texts"] = len(small)
    ctx.extra["single_edits_of_seeds"] = "%d of %d" % (min(part[0], len(near)), len(near))
    ctx.extra["expressions_in_places"] = "%d of %d" % (min(part[1], len(exprs)), len(exprs))
    ctx.extra["lookalikes"] = "%d of %d" % (min(part[2], len(alike)), len(alike))
    out = []
    for t in texts + small + ftlgen.sample(rng, alike, part[2]) + ftlgen.sample(rng, near, part[0]) + ftlgen.sample(rng, exprs, part[1]):
        i = {"view": prop, "src": cp(t)}
        if prop == "C01":
            i["before"] = cp(rng.choice(texts)[:200])
        if prop == "C07":
            t = re.sub("\r+\n", "\n", t)
            i["src"], i["crlf"] = cp(t), cp(relineend(rng, t))
        out.append(i)
    return out


def run(ctx):
    ctx.model_check("SyntaxMC", env={"DEPTH": str(ctx.pick(3, 4)), "ALPHA": ctx.prop})
    ctx.conform("parser", "SyntaxTrace", record, inputs(ctx), env={"VIEW": ctx.prop}, batch=20000, show=lambda i: uncp(i["src"]))
    ctx.assumptions = ["AST nesting up to %d levels (the trace format's limit)" % MAX_DEPTH]
