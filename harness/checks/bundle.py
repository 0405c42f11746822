"""C15 - C24: bundles and formatting against FluentBundle/FluentResolver (BundleTrace.tla)."""
import decimal
import json
import os
import tempfile

import bundles
import ftlgen
import robust
import together
import values
from astenc import dec
from common import cp, guarded, uncp
from rtgen import R, beside

NUMS = (("num", 9), ("str", 1))
FUNS = ["NUMBER", "DATETIME", "ARG", "KW", "STR", "FAIL", "NONE"]


def histories(rng, n):
    return [R(rng, unknown=0.05, depth=2, weights={"select": 1}, funs=FUNS + ["INNER"] * (i % 3)).history(nb=rng.choice([1, 2, 3]), nr=rng.choice([2, 3]), nops=rng.choice([8, 14, 20])) for i in range(n)]


def general(rng, n, **w):
    out = []
    for i in range(n):
        g = R(rng, acyclic=i % 2 == 0, **w)
        out.append(g.once(g.resource(), g.bundle(), 2))
    return out


def references(rng, n):
    return general(rng, n, weights={"fun": 0.3, "msg": 8, "term": 5, "var": 5, "select": 1, "number": 1}, unknown=0.15)


def selects(rng, n):
    out = []
    for i in range(n):
        if i % 3 == 0:
            g = R(rng, acyclic=True, weights={"select": 20, "fun": 2}, funs=["NUMBER", "NUMBER", "DATETIME", "ARG", "VAL", "RAW", "STR", "NONE", "FAIL"])
            out.append(g.once(g.resource(), g.bundle(), 2))
            continue
        # one select per message, all arguments numbers or strings
        g = R(rng, funs=["NUMBER", "ARG", "VAL", "RAW", "NONE", "FAIL"], hard=0.15 if i % 6 == 1 else 1)
        src = "-t = T\n    .a = %s\n    .b = { $x }\n" % rng.choice(["one", "x", "{ 1 }", "{ \"other\" }"])
        vals = [g.value(NUMS) for _ in range(3)]
        if i % 3 == 1:
            lits = [v["v"] for v in vals if v["py"] in ("int", "float", "dec") and "E" not in str(v["v"]).upper()]
            g.lits = rng.sample(g.lits, 1 if g.hard < 1 else 3) + [rng.choice(beside(x, rng)) for x in lits for _ in range(4)]
        for m in g.msgs:
            sel = rng.choice(["$x", "$x", "$y", "$z", "NUMBER($x)", 'NUMBER($x, type: "ordinal")', 'NUMBER($y, type: "cardinal")', "NUMBER($z, minimumFractionDigits: 1)", "$missing",
                              "-t.a", "-t.b(x: %s)" % rng.choice(g.lits), rng.choice(g.lits), g.string(), "ARG($x)", "VAL()", "RAW()", "NONE()", "FAIL()", 'NUMBER(VAL(), type: "ordinal")'])
            keys = rng.sample(g.keys, rng.randrange(0, 6)) + ftlgen.sample(rng, sorted(set(g.lits)), rng.randrange(0, 4) + (3 if g.hard < 1 else 0))
            rng.shuffle(keys)
            keys = keys or ["other"]
            d = rng.randrange(len(keys))
            src += m + " = " + rng.choice(["", "a ", "{ $y }"]) + "{ " + sel + " ->\n"
            src += "".join("    %s[%s] %s%s\n" % ("*" if j == d else "", k, "v%d" % j, rng.choice(["", "", " { $x }", " { nosuch }"])) for j, k in enumerate(keys)) + "  }\n"
        c = g.once(src, g.bundle(), 1)
        c["args"] = [[[cp(v), x] for v, x in zip("xyz", vals)]]
        if i % 2:       # equal numbers of other kinds, too
            c["args"].append(g.twins(c["args"][0]))
            c["ops"][-1:] = [dict(o, args=2) for o in c["ops"] if o["op"] == "fmt"] + c["ops"][-1:]
        out.append(c)
    return out


def terms(rng, n):
    return general(rng, n, weights={"term": 10, "var": 7, "msg": 2, "fun": 1, "select": 2, "number": 1, "string": 1}, unknown=0.04, funs=["ARG", "KW", "NUMBER", "FAIL"])


def isolation(rng, n):
    out = []
    for i in range(n):
        g = R(rng, acyclic=i % 2 == 0, weights={"string": 3, "nest": 3, "fun": 2}, unknown=0.05, funs=["ARG", "STR", "NONE", "NUMBER", "VAL", "RAW"])
        c = g.once(g.resource(), g.bundle(iso=True), 1)
        other = dict(c["bundles"][0], iso=False)
        c["bundles"].append(other)
        k = sum(o["op"] == "get" for o in c["ops"])
        ops = c["ops"][:-1]
        c["ops"] = ops + [dict(o, **({"h": o["h"] + k} if o["op"] == "fmt" else {"b": 2})) for o in ops] + [{"op": "end"}]
        out.append(c)
    return out


def cycles(rng, n):
    """Small graphs in which everything refers to everything."""
    out = [chain(rng) for _ in range(n // 12)]
    for _ in range(n - len(out)):
        g = R(rng, msgs=["m", "n", "o"], terms=["t", "u"], unknown=0.02, depth=2, weights={"text": 2, "msg": 10, "term": 8, "var": 1, "fun": 2, "select": 4, "string": 0.5, "number": 0.5},
              funs=["ARG", "STR", "NONE", "NUMBER", "INNER"])
        out.append(g.once(g.resource(), g.bundle(), 1))
    return out


def chain(rng):
    """A long chain of references, that may lead back into itself."""
    g = R(rng)
    k = rng.choice([2, 3, 5, 8, 9, 15, 16, 17, 20, 31, 32, 33, 34, 40])
    names = [rng.choice(["m%d", "m%d", "-t%d", "m%d.a"]) % i for i in range(k)] + [rng.choice(["m0", "m0", "nosuch", "-nosuch", "m1", "m%d" % (k // 2), "end", "end"])]
    names[0] = "m0"
    src = "end = " + rng.choice(["e", "{ $x }", "e{ $x }"]) + "\n"
    for i in range(k):
        to = names[i + 1]
        ways = ["{ %s }" % to, "a{ %s }" % to, "{ { %s } }" % to, "{ %s }{ $x }" % to, "{ $x ->\n   *[a] { %s }\n  }" % to, "{ ARG(%s) }" % to]
        if rng.random() < 0.1:
            ways = ["{ %s }{ %s }" % (to, to)]
        if to[0] == "-" and rng.random() < 0.5:
            ways = ['{ %s(x: "v") }' % to, '{ %s(y: 1) }b' % to]
        p = rng.choice(ways)
        me = names[i]
        src += (me + " = " + p if "." not in me else me[:-2] + " =\n    .a = " + p) + "\n"
    g.msgs = ["m0", rng.choice([n for n in names[:k] if n[0] == "m" and "." not in n]), "end"]
    return g.once(src, g.bundle(), 1)


def exhaust(rng, g):
    """Patterns whose sizes add up to about the limit, and small ones after that."""
    sizes, left = [], 1000 + rng.choice([-3, -2, -1, 0, 0, 0, 1])
    while left > 0 and len(sizes) < 6:
        sizes.append(left if len(sizes) == 5 else min(left, rng.choice([1, 2, 10, 100, 250, 333, 499, 500, 600, 990, left, left])))
        left -= sizes[-1]
    src = ""
    for i, k in enumerate(sizes):
        src += "s%d = %s\n" % (i, "".join(rng.choice(["{ $x }", "{ $x }", "{ $y }"]) if j % 2 == 0 or rng.random() < 0.5 else "b" for j in range(k)) .replace("bb", "b{ $x }"))
    small = rng.sample(["{ n }", "{ n.a }", "{ -t }", "{ $y ->\n *[a] { $x }\n }", "{ $y ->\n *[a] b\n }", "{ n.b }", '{ "s" }', "{ ARG(n) }", "b", "{ $x }"], rng.choice([1, 2, 3]))
    refs = ["{ s%d }" % i for i in range(len(sizes))]
    if rng.random() < 0.5:
        refs = ["{ r%d }" % i for i in range(len(sizes))]
        src += "".join("r%d = { s%d }\n" % (i, i) for i in range(len(sizes)))
    src += "n = { $x }\n    .a = b{ $x }\n    .b = b\n-t = { $x }\n"
    src += "m = " + "".join(refs + small) + "\no = " + "".join(small[:1] + refs + small) + "\np = { m }\n"
    return src


def limits(rng, n):
    out = []
    for _ in range(n):
        g = R(rng, msgs=["m", "n", "o", "p"], terms=["t", "u", "m"])
        k = rng.randrange(4)
        near = rng.choice([998, 999, 1000, 1000, 1001, 1001, 1002, 500, 501, 334])
        long_ = rng.choice([2497, 2498, 2499, 2500, 2500, 2501, 2502, 2503, 1250, 1251, 833, 834])
        piece = rng.choice(["{ $x }", "a{ $x }", "{ -t }", "{ n }", "{ $y ->\n *[a] { $x }\n }", "{ $y ->\n *[a] b{ $x }\n }", "{ $y ->\n [s] { n }\n *[a] b\n }", "{ ARG(n) }", "{ \"s\" }", "{ \"s\" }{ $x }", "{ INNER() }", "{ INNER() }{ $x }"])
        g.funs = g.funs + ["INNER"]
        src = ""
        if k == 0:      # parts in one pattern, or spread
            per = {"a{ $x }": 2}.get(piece, 1)
            leaf = rng.choice([1, 2, 3, 5, 10])
            cost = 1 if "n" not in piece and "-t" not in piece else leaf
            total = rng.choice([near, near, max(1, near // max(1, cost)), max(1, near // max(1, cost + per))])
            src = "m = x" + piece * max(1, total // per - rng.choice([0, 1, 2])) + "\n"
            src += "n = " + "".join(rng.choice(["{ $x }", "{ $x }", "{ $y }"]) + ("b" if i % 2 and leaf > 2 else "") for i in range(leaf)) + "\n"
            src += "-t = " + "{ $x }" * leaf + "\n"
            src += "o = { m }\n    .a = { m }{ m }\n    .b = { m }{ n }{ n }\n"
            src += "p = { n }{ o.a }\n"
            args = [[[cp("x"), {"py": "str", "v": cp(rng.choice(["", "s"]))}], [cp("y"), {"py": "str", "v": cp("s")}]]]
        elif k == 1:    # long strings
            src = "m = " + rng.choice(["{ $x }", "a{ $x }", "{ $x }{ $x }", "a{ { $x } }", "{ ARG($x) }", "{ $y ->\n *[a] { $x }\n }", "{ $y ->\n *[a] b{ $x }\n }", "{ $x ->\n *[a] c\n }"]) + "\n"
            src += "n = { m }\n    .a = a{ m }\n    .b = { m }{ m }\no = a{ n.b }\np = " + "x" * long_ + rng.choice(["", "{ $y }", "{ \"a\" }"]) + "\n"
            src += "-t = " + "y" * long_ + "\n    .a = { \"a\" }" + "z" * (long_ - 1) + "\no = { -t }{ p }\n    .a = { -t.a ->\n *[x] v\n }\n    .b = " + rng.choice(["{ -t.a }", "{ -t }", "b{ -t }"]) + "\n"
            args = [[[cp("x"), {"py": "str", "v": cp("é" * long_)}], [cp("y"), {"py": "str", "v": cp("s" * rng.choice([1, 2500, 2501]))}]]]
        elif k == 3:
            src = exhaust(rng, g)
            args = [[[cp("x"), {"py": "str", "v": cp(rng.choice(["", "s"]))}], [cp("y"), {"py": "str", "v": cp("s")}]]]
        else:           # doubling
            depth = rng.randrange(5, 12)
            ids = ["l%d" % i for i in range(depth)]
            width = rng.choice([2, 3])
            src = "l0 = " + rng.choice(["a", "a{ $x }", "{ $x }", "{ \"a\" }b"]) + "\n"
            for i in range(1, depth):
                src += "l%d = %s\n" % (i, rng.choice(["{ l%d }" % (i - 1)]) * width)
            src += "m = { l%d }\nn = b{ l%d }\n    .a = { l2 }{ l3 }\n    .b = { $x ->\n      [s] { l1 }\n     *[t] { l%d }\n    }\n" % (depth - 1, depth - 2, depth - 1)
            args = [[[cp("x"), {"py": "str", "v": cp(rng.choice(["s", "t", "abc"]))}], [cp("y"), {"py": "str", "v": cp("s")}]]]
        c = g.once(src, g.bundle(), 1)
        c["args"] = args
        c["ops"] = [dict(o, args=1) if o["op"] == "fmt" else o for o in c["ops"]]
        out.append(c)
    return out


def functions(rng, n):
    return general(rng, n, weights={"fun": 12, "var": 5, "msg": 2, "term": 2, "select": 2}, unknown=0.05,
                   funs=["ARG", "ARG", "KW", "STR", "FAIL", "NONE", "VAL", "RAW", "NUMBER", "DATETIME", "INNER"])


PIECES = ["Ax ", ' { "A" }', "{ $x }", '{ -t(x: "A") }', "{ A0 }", "{ -t }", '{ ARG("A", $x) }', '{ KW(k: "A") }', "{ nope-A }", "{ NUMBER(A1, minimumFractionDigits: 2) }",
          '{ "A" ->\n    [A] { -t(y: "A") }\n   *[o] A\n }', "{ m.a }", "{ -t.a }"]


def twins(rng, n):
    """Messages of the same shape with other texts, used in lockstep or nearly so."""
    out = []
    for i in range(n):
        g = R(rng, funs=["ARG", "KW", "NUMBER"])
        one = "".join(rng.choice(PIECES[:2] if i % 3 == 0 else PIECES) for _ in range(rng.choice([2, 2, 3, 4])))
        src = "".join("%s = %s\n    .a = %s\n" % (m, one.replace("A", "%d" % d), one.replace("A", "%d" % (d + 1)).replace("m.a", "n")) for m, d in (("m", 1), ("n", 3), ("o", 5)))
        src += '-t = { $x } T { $y }\n    .a = u\n'
        c = g.once(src, g.bundle(), 2)
        c["ops"] = c["ops"][:1]
        tasks = [[{"op": "use", "b": 1, "id": cp(m), "attr": cp(rng.choice(["", "", "a"])), "args": rng.randrange(len(c["args"]) + 1)}] for m in rng.sample(["m", "n", "o"], rng.choice([2, 2, 3]))]
        plan = rng.choice([{"word": [], "by": "line", "turn": rng.choice([1, 1, 2, 3, 5])}, together.plan(rng, len(tasks)),
                           together.meetings(rng, len(tasks), rng.choice([10, 40, 100]))])
        c["ops"] += [{"op": "together", "tasks": tasks, "plan": plan}, {"op": "end"}]
        out.append(c)
    return out


def concurrent(rng, n):
    """Several tasks that use the same bundles at the same time."""
    out = []
    for i in range(n):
        k = i % 4
        if k == 0:
            g = R(rng, msgs=["m", "n", "o"], terms=["t", "u"], unknown=0.03, depth=2, weights={"text": 2, "msg": 10, "term": 8, "var": 2, "fun": 2, "select": 3})
        elif k == 1 and i % 8 == 1:
            g = R(rng, acyclic=True, unknown=0.05, weights={"term": 6, "msg": 6, "var": 6})
        elif k == 1:
            g = R(rng, depth=1, unknown=0.03, weights={"text": 6, "string": 8, "number": 2, "msg": 3, "term": 3, "var": 1, "fun": 1, "select": 1})
        else:
            g = R(rng, depth=2, unknown=0.05, funs=FUNS + ["INNER"] * (k - 2))
        if k == 3:
            c = g.history(nb=2, nr=2, nops=rng.choice([1, 2, 4, 8]))
            c["ops"] = [o for o in c["ops"] if o["op"] != "end"]
            if rng.random() < 0.7:
                c["ops"] = [o for o in c["ops"] if o["op"] == "add"]
        else:
            c = g.once(g.resource(), g.bundle(), 2)
            c["ops"] = c["ops"][:1]
        for _ in range(rng.choice([1, 1, 2])):
            tasks = []
            some = [rng.choice(g.msgs) for _ in range(2)]
            for _ in range(rng.choice([2, 2, 2, 3, 4])):
                t = []
                for _ in range(rng.choice([1, 1, 2, 3])):
                    b, x = rng.randrange(len(c["bundles"])) + 1, cp(rng.choice(some if rng.random() < 0.6 else g.msgs))
                    if rng.random() < 0.1:
                        t.append({"op": "has", "b": b, "id": x})
                    else:
                        t.append({"op": "use", "b": b, "id": x, "attr": cp(rng.choice(["", "", ""] + g.attrs)), "args": rng.randrange(len(c["args"]) + 1)})
                tasks.append(t)
            if rng.random() < 0.4:      # entries that are compiled already
                c["ops"] += [o for t in tasks for o in t if o["op"] == "use"][:3]
            c["ops"].append({"op": "together", "tasks": tasks, "plan": together.plan(rng, len(tasks))})
        c["ops"].append({"op": "end"})
        out.append(c)
    return out + twins(rng, n // 5)


MAKERS = {"C35": concurrent, "C15": histories, "C16": general, "C17": references, "C18": selects, "C19": terms, "C20": isolation, "C21": cycles, "C22": limits, "C23": histories, "C24": functions}
SIZE = {"C22": (240, 3000)}


# ---- behaviours generated from the specification (ResolverMC, BundleMC), replayed

MC_ARGS = [{}, {"x": "one"}, {"x": 1}]


def resource(nodes):
    from fluent.syntax import ast

    return ast.Resource([dec(n) for n in nodes])


def text_of(nodes):
    from fluent.syntax import FluentSerializer

    s = FluentSerializer()
    return "".join(s.serialize_entry(dec(n)) for n in nodes)


def same(got, text, errs):
    got_text, got_errs = got
    seen = [[type(e).__name__, str(e)] for e in got_errs]
    want = [[e["c"], uncp(e["m"])] for e in errs]
    alike = len(seen) == len(want) and all(w[0] in ("?", s[0]) and (s[1] == w[1] if w[0].startswith("Fluent") else s[1].startswith(w[1])) for s, w in zip(seen, want))
    if got_text != uncp(text) or not alike:
        return {"why": "text or errors", "got": [str(got_text), seen], "want": [uncp(text), want]}


def custom_functions():
    def fail(*a, **k):
        raise bundles.Custom("boom")

    return {"ARG": lambda *a, **k: a[0], "FAIL": fail}


def replay_world(case):
    from fluent.runtime import FluentBundle

    def work():
        b = FluentBundle(["en-US"], functions=custom_functions(), use_isolating=case["iso"])
        b.add_resource(resource(case["entries"]))
        args = MC_ARGS[case["args"] - 1]
        m = b.get_message("m").value
        return same(b.format_pattern(m, args), case["text"], case["errs"]) or same(b.format_pattern(m, args), case["text"], case["errs"])

    out, bad = guarded(work)
    return {"why": "raised " + bad} if bad else out


def expr_values():
    """The list Values of ExprMC."""
    from fluent.runtime.types import FluentNone, fluent_number as n

    return ["one", "1", "other", "", FluentNone("x"), [1], 1, 0, 2, -1, 1.5, n(1, type="ordinal"), n(2, type="ordinal"), n(3, type="ordinal"), 5,
            n(11, type="ordinal"), decimal.Decimal("1.0")]


def replay_expression(case):
    from fluent.runtime import FluentBundle

    def work():
        log = []

        def logged(name, f):
            def g(*a, **k):
                log.append(name)
                return f(*a, **k)
            return g

        fs = dict(custom_functions(), KW=lambda *a, **k: k["x"], CONST=lambda *a, **k: "const")
        b = FluentBundle([case["tag"]], functions={n: logged(n, f) for n, f in fs.items()}, use_isolating=False)
        b.add_resource(resource(case["nodes"]))
        return same(b.format_pattern(b.get_message("o").value, {"x": expr_values()[case["val"] - 1]}), case["text"], case["errs"]) or (
            None if log == [uncp(c) for c in case["calls"]] else {"why": "function calls", "got": log, "want": [uncp(c) for c in case["calls"]]})

    out, bad = guarded(work)
    return {"why": "raised " + bad} if bad else out


def replay_threads(case):
    """The tasks of ThreadsMC with its schedule, every step of which becomes a few steps of the code."""
    from fluent.runtime import FluentBundle

    def once(by, steps):
        b = FluentBundle(["en-US"], use_isolating=case["iso"])
        b.add_resource(resource(case["entries"]))
        out = [None] * len(case["jobs"])

        def task(i):
            j = case["jobs"][i]
            try:
                r = same(b.format_pattern(b.get_message(j["msg"]).value, MC_ARGS[j["args"] - 1]), j["text"], j["errs"])
                out[i] = dict(r, task=i + 1) if r else "ok"
            except Exception as e:
                out[i] = {"why": "raised %s: %s" % (type(e).__name__, e), "task": i + 1}

        word = [[p - 1, steps] for p in case["sched"]]
        if not together.Schedule({"word": word, "by": by}, [lambda i=i: task(i) for i in range(len(out))]).run():
            return {"why": "no answer"}
        return next((dict(o, by=by, steps=steps) for o in out if o != "ok"), None)

    return next(filter(None, (once(*how) for how in [("call", 1), ("call", 2), ("line", 2), ("line", 5)])), None)


RESOURCES = [["a = a1\n", "-a = t1\n"], ["a = a2 { b }\n", "# c\n\n", "a = dup\n", "b = b2 { -a }\n    .x = x2\n"], ["b = b3 { b.x }\n", "-a = t3\n    .x = y\n", "-a = t4\n"]]


def replay_history(hist):
    from fluent.runtime import FluentBundle, FluentResource

    def work():
        res = [FluentResource("".join(r)) for r in RESOURCES]
        b = FluentBundle(["en-US"], use_isolating=False)
        for n, op in enumerate(hist):
            if op["op"] == "add":
                b.add_resource(res[op["r"] - 1], op["over"])
                continue
            name = uncp(op["id"])
            if b.has_message(name) != (op["op"] == "use"):
                return {"why": "has_message", "at": n + 1}
            try:
                m = b.get_message(name)
            except LookupError:
                m = None
            if (m is not None) != (op["op"] == "use"):
                return {"why": "get_message", "at": n + 1}
            if m is not None:
                bad = same(b.format_pattern(m.value), op["text"], op["errs"])
                if bad:
                    return dict(bad, at=n + 1)

    out, bad = guarded(work)
    return {"why": "raised " + bad} if bad else out


def design(ctx, env):
    if ctx.prop in ("C18", "C24"):
        kind = {"C18": "select", "C24": "call"}[ctx.prop]
        for tag in ctx.pick(["en-US"], ["en-US", "pl", "ar", "fr"]):
            r = ctx.model_check("ExprMC", env=dict(env, TAG=tag, KIND=kind, SIZE="2" if ctx.tier == "quick" or tag != "en-US" else "3",
                                                   EVERY=str(ctx.pick({"C18": 10, "C24": 8}[ctx.prop], 60 if tag == "en-US" else 4))), timeout=3000)
            ctx.replay("expressions-" + tag, [dict(json.loads(x), tag=tag) for x in r.prints], replay_expression,
                       lambda c: {"src": text_of(c["nodes"]), "x": repr(expr_values()[c["val"] - 1]), "locale": c["tag"]})
    if ctx.prop == "C35":
        for level, every in ctx.pick([("quick", 25)], [("quick", 1), ("three", 5), ("wide", 40)]):
            r = ctx.model_check("ThreadsMC", env={"LEVEL": level, "MODE": "keep", "EVERY": str(every)}, timeout=3000)
            ctx.replay("tasks-" + level, [json.loads(x) for x in r.prints], replay_threads,
                       lambda c: {"src": text_of(c["entries"]), "jobs": [[j["msg"], MC_ARGS[j["args"] - 1]] for j in c["jobs"]], "iso": c["iso"], "sched": c["sched"]})
    if ctx.prop in ("C15", "C23"):
        r = ctx.model_check("BundleMC", env={"SIZE": str(ctx.pick(5, 6)), "EVERY": str(ctx.pick(8, 12))})
        ctx.replay("histories", [json.loads(x) for x in r.prints], replay_history, lambda h: [[o["op"], o["r"], o["over"], uncp(o["id"])] for o in h])
    elif ctx.prop in ("C16", "C17", "C19", "C20", "C21", "C22"):
        for level, every in ctx.pick([("quick", 5)], [("quick", 1), ("wide", 60), ("odd", 40), ("other", 100)]):
            r = ctx.model_check("ResolverMC", env={"LEVEL": level, "EVERY": str(every)}, timeout=3000)
            ctx.replay("worlds-" + level, [json.loads(x) for x in r.prints], replay_world,
                       lambda c: {"src": text_of(c["entries"]), "args": MC_ARGS[c["args"] - 1], "iso": c["iso"]})


def run(ctx):
    env = {"VIEW": ctx.prop}
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "locales.json")
        with open(path, "w") as f:
            json.dump(values.locale_data(), f)
        env["LOCALES"] = path
        design(ctx, env)
        cases = MAKERS[ctx.prop](ctx.rng, ctx.pick(*SIZE.get(ctx.prop, (2500, 30000))))
        ctx.conform("format", "BundleTrace", bundles.record, cases, env=env, batch=5000)
    if ctx.prop == "C16":
        ctx.conform("anything", "RobustTrace", robust.record, robust.inputs(ctx.rng, ctx.pick(4000, 60000)), batch=20000)
