"""C36: one parser, serializer or highlighter used by several threads at the same time (SharedMC; SyntaxTrace,
SerializerTrace, HighlightTrace: what each thread got is what the specification gives for its text alone)."""
import json
import re

import ftlgen
import together
from astenc import MAX_DEPTH, depth, enc
from common import cp, guarded, uncp
from highlight import tokens
from serializer import writable


def side_by_side(inp, mine, others):
    """mine() as task 0, the others along with it, in the schedule's order."""
    out = {"raised": "(no answer)", "value": None}

    def me():
        try:
            out["value"], out["raised"] = mine(), ""
        except Exception as e:
            out["raised"] = type(e).__name__

    def quiet(f):
        def run():
            try:
                f()
            except Exception:
                pass           # its own turn to be judged comes in another case
        return run

    together.Schedule(inp["plan"], [me] + [quiet(f) for f in others]).run()
    return out["value"], out["raised"]


def parsed(inp):
    from fluent.syntax import FluentParser

    p = FluentParser()
    rec = {"src": inp["src"], "body": []}
    does = {"parse": p.parse, "entry": p.parse_entry}
    res, rec["raised"] = side_by_side(inp, lambda: p.parse(uncp(inp["src"])), [lambda o=o: does[o["do"]](uncp(o["src"])) for o in inp["others"]])
    if not rec["raised"]:
        rec["body"] = [enc(e) for e in res.body]
        if any(depth(n) > MAX_DEPTH for n in rec["body"]):
            return "skip"
    return rec


def serialized(inp):
    import fluent.syntax as fs

    src = uncp(inp["src"])
    try:
        res = fs.parse(src)
        more = [fs.parse(uncp(o["src"])) for o in inp["others"]]
        rec = {"body": [enc(e) for e in res.body], "text": [], "junk": inp["junk"]}
    except Exception:
        return "skip"
    if any(depth(n) > MAX_DEPTH or not writable(n) for n in rec["body"]):
        return "skip"
    s = fs.FluentSerializer(with_junk=inp["junk"])

    def other(o, r):
        if o["do"] == "same":
            return lambda: s.serialize(res)
        if o["do"] == "entry" and r.body:
            return lambda: s.serialize_entry(r.body[0])
        return lambda: s.serialize(r)

    text, rec["raised"] = side_by_side(inp, lambda: s.serialize(res), [other(o, r) for o, r in zip(inp["others"], more)])
    if not rec["raised"]:
        rec["text"] = cp(text)
    rec["after"] = [enc(e) for e in res.body]
    return rec


def highlighted(inp):
    from fluent.pygments.lexer import FluentLexer

    lexer = FluentLexer()
    got, raised = side_by_side(inp, lambda: tokens(lexer, uncp(inp["src"])), [lambda o=o: tokens(lexer, uncp(o["src"])) for o in inp["others"]])
    return {"src": inp["src"], "tokens": got or [], "again": got or [], "raised": raised}


def twin(rng, t):
    """A text of the same shape with something else in it."""
    t = re.sub(r"(?m)^ +(?=[^ \n])", lambda m: " " * (len(m[0]) + more), t) if (more := rng.choice([0, 1, 2, 3])) else t
    if rng.random() < 0.5:
        t = re.sub(r"[0-9]", lambda m: str((int(m[0]) + 1) % 10), t)
    if rng.random() < 0.5:
        t = re.sub(r"[b-y]", lambda m: chr(ord(m[0]) + 1), t)
    return t


def cases(ctx, n, mix, does, **more):
    rng = ctx.rng
    texts = [t[:400] for t in ftlgen.texts(rng, n, mix)]
    out = []
    for t in texts:
        others = [{"src": cp(rng.choice(texts) if rng.random() < 0.8 else t), "do": rng.choice(does)} for _ in range(rng.choice([1, 1, 2, 3]))]
        plan = together.plan(rng, 1 + len(others))
        if rng.random() < 0.4:
            others = [dict(o, src=cp(twin(rng, t)), do=does[0]) for o in others[:1]]
            plan = rng.choice([{"word": [], "by": "line", "turn": rng.choice([1, 1, 2, 3, 5])}, together.plan(rng, 2),
                               together.meetings(rng, 2, rng.choice([10, 40, 100]))])
        out.append({"src": cp(t), "others": others, "plan": plan, **{k: rng.choice(v) for k, v in more.items()}})
    return out


def replay(b):
    """Two texts that one parser object takes in turns, an entry's worth of steps at a time."""
    from fluent.syntax import FluentParser

    def once(by, steps):
        p, out = FluentParser(), [None, None]

        def task(i):
            try:
                out[i] = [enc(e) for e in p.parse(uncp(b["texts"][i])).body]
            except Exception as e:
                out[i] = "raised " + type(e).__name__

        word = [[i - 1, steps] for i in b["sched"]]
        together.Schedule({"word": word, "by": by}, [lambda i=i: task(i) for i in range(2)]).run()
        for i in range(2):
            if out[i] != b["bodies"][i]:
                return {"why": "text %d" % (i + 1), "specified": b["bodies"][i], "real": out[i], "by": by, "steps": steps}

    return next(filter(None, (once(*how) for how in [("call", 5), ("call", 15), ("line", 20), ("line", 60)])), None)


VALID = {"valid": 5, "pumped": 0.3, "deep": 1, "crlf": 1, "indents": 2, "comments": 2, "fixture": 1, "junk": 2, "mutated": 1}


def run(ctx):
    r = ctx.model_check("SharedMC", env={"SIZE": str(ctx.pick(2, 3)), "EVERY": str(ctx.pick(7, 40))}, timeout=3000)
    ctx.replay("turns", [json.loads(x) for x in r.prints], replay, lambda b: {"texts": [uncp(t) for t in b["texts"]], "sched": b["sched"]})
    show = lambda i: {"src": uncp(i["src"]), "others": [uncp(o["src"]) for o in i["others"]], "plan": i["plan"]}  # noqa
    env = {"VIEW": ctx.prop}
    ctx.conform("parser", "SyntaxTrace", parsed, cases(ctx, ctx.pick(1500, 20000), dict(VALID, junk=5, mutated=4, tokens=2), ["parse", "parse", "entry"]),
                env=env, batch=20000, show=show)
    ctx.conform("serializer", "SerializerTrace", serialized, cases(ctx, ctx.pick(1500, 20000), VALID, ["text", "same", "entry"], junk=[False, True]),
                env=env, batch=20000, show=show)
    ctx.conform("highlighter", "HighlightTrace", highlighted, cases(ctx, ctx.pick(800, 10000), VALID, ["text"]), batch=20000, show=show)
    ctx.assumptions = ["switches between threads happen between lines or calls of the code under test", "AST nesting up to %d" % MAX_DEPTH]
