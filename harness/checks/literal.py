"""C13: literal values against FluentLiterals (LiteralTrace.tla), and in formatted messages (BundleTrace.tla)."""
import decimal
import json
import math
import os
import tempfile

import bundles
import values
from common import cp, guarded, uncp
from rtgen import R


def numbers(src):
    """How the real code reads a number literal: parse() and as part of a resource."""
    from fluent.syntax import ast, parse

    def work():
        a = ast.NumberLiteral(src).parse()
        ast.NumberLiteral(src).parse().clear()      # what was given is the caller's
        lit = parse("m = { %s }\n" % src).body[0].value.elements[0].expression
        return a, lit.parse(), lit.value

    got, raised = guarded(work)
    if not raised:
        (a, b, v) = got
        if repr(a) != repr(b) or v != src:
            raised = "another value when parsed in a message"
    if raised:
        return {"kind": "n", "raised": raised}
    f = a["value"]
    o = {"kind": "n", "raised": "", "prec": a["precision"], "n": values.num(f), "exact": isinstance(f, int), "src": cp(src)}
    if isinstance(f, float):
        ctx = decimal.Context(prec=1200)
        x = decimal.Decimal(abs(f))
        for k, y in (("lo", math.nextafter(abs(f), 0)), ("hi", math.nextafter(abs(f), math.inf))):
            o[k] = values.num(ctx.divide(ctx.add(x, decimal.Decimal(y)), decimal.Decimal(2)))
    return o


def strings(src):
    from fluent.syntax import ast, parse

    def work():
        given = ast.StringLiteral(src).parse()
        a = given["value"]
        given["value"] = "another"
        lit = parse('m = { "%s" }\n' % src).body[0].value.elements[0].expression
        return a, lit.parse()["value"]

    got, raised = guarded(work)
    if not raised and got[0] != got[1]:
        raised = "another value when parsed in a message"
    return {"kind": "s", "src": cp(src), "out": cp(got[0]) if not raised else [], "raised": raised}


def record(inp):
    return {"ops": [numbers(s) for s in inp["numbers"]] + [strings(s) for s in inp["strings"]]}


def number(r):
    k = r.randrange(5)
    n = r.choice([1, 1, 2, 3, 5, 8, 14, 17, 25])
    i = "".join(r.choice("0123456789") for _ in range(n)) if k else r.choice(["0", "00", "007", "1", "000000"])
    f = ""
    if r.random() < 0.65:
        f = "." + "".join(r.choice("0001234569") for _ in range(r.choice([1, 1, 2, 3, 4, 7, 12, 17, 30])))
    return ("-" if r.random() < 0.3 else "") + i + f


def string(r):
    out = ""
    for _ in range(r.choice([0, 1, 2, 3, 5, 9])):
        k = r.randrange(10)
        if k == 0:
            out += "\\\\"
        elif k == 1:
            out += '\\"'
        elif k == 2:
            out += "\\u%04x" % r.choice([0, 0x41, 0x5C, 0x22, 0x7B, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFFFD, 0xFFFF, r.randrange(0x10000)])
        elif k == 3:
            out += "\\U%06X" % r.choice([0x41, 0x5C, 0x1F602, 0xD800, 0xDFFF, 0x10FFFF, 0x110000, 0xFFFFFF, r.randrange(0x110000)])
        elif k == 4:
            out += r.choice(["u0041", "U01F602", "41", "0", "n", "t", "x41", "{", "}", "\\\\u0041", "\\\\\\\\", "\\u005cu0041", "\\u005c\\u005c"])
        else:
            out += r.choice(["a", "é", "\U0001f600", " ", "\t", "\r", "�", "b c", "\u2028", "%", "$1", "\\u00e9".upper().replace("\\U", "\\u")])
    return out


def replay(c):
    got = strings(uncp(c["src"]))
    if got["raised"] or got["out"] != c["out"]:
        return {"why": "value of the string", "got": got, "want": c["out"]}


def formatted(rng, n):
    out = []
    for i in range(n):
        g = R(rng, weights={"string": 10, "number": 10, "fun": 1, "msg": 1, "term": 1, "var": 1, "select": 1, "text": 3}, depth=1, msgs=["m", "n", "o"], terms=["t"])
        g.lits = [x for x in (number(rng) for _ in range(20)) if "." not in x or len(x.strip("-0").replace(".", "")) <= 15][:8] or ["1"]
        g.string = lambda: '"' + string(rng) + '"'
        c = g.once(g.resource(), g.bundle(locs=["en-US"] if i % 2 else None), 1)
        out.append(c)
    return out


def run(ctx):
    rng = ctx.rng
    r = ctx.model_check("LiteralMC", env={"SIZE": str(ctx.pick(3, 4)), "EVERY": str(ctx.pick(2, 8))})
    ctx.replay("literals", [json.loads(x) for x in r.prints], replay, lambda c: uncp(c["src"]))
    ins = [{"numbers": [number(rng) for _ in range(20)], "strings": [s for s in (string(rng) for _ in range(25)) if "\n" not in s]} for _ in range(ctx.pick(400, 6000))]
    ctx.conform("parse", "LiteralTrace", record, ins)
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "locales.json")
        with open(path, "w") as f:
            json.dump(values.locale_data(), f)
        ctx.conform("format", "BundleTrace", bundles.record, formatted(rng, ctx.pick(1200, 15000)), env={"VIEW": ctx.prop, "LOCALES": path}, batch=5000)
