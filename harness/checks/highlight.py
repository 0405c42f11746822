"""C31: the highlighter against FluentHighlight (HighlightMC, HighlightTrace.tla)."""
import json

import ftlgen
from common import cp, guarded, uncp

MIX = {"valid": 4, "deep": 2, "crlf": 2, "junk": 2, "mutated": 3, "fixture": 2, "tokens": 2, "comments": 2, "indents": 2}


def tokens(lexer, src):
    return [{"a": a, "c": str(c), "s": cp(s)} for a, c, s in lexer.get_tokens_unprocessed(src)]


def record(inp):
    from fluent.pygments.lexer import FluentLexer

    src = uncp(inp["src"])
    lexer = FluentLexer()
    rec = {"src": inp["src"], "again": []}
    rec["tokens"], rec["raised"] = guarded(tokens, lexer, src)
    if not rec["raised"]:
        rec["again"], rec["raised"] = guarded(lambda: (list(lexer.get_tokens_unprocessed("x = { y\n")), tokens(lexer, src))[1])
    return rec


def replay(b):
    from fluent.pygments.lexer import FluentLexer

    got, bad = guarded(tokens, FluentLexer(), uncp(b["src"]))
    return None if got == b["tokens"] else {"specified": b["tokens"], "real": bad or got}


def run(ctx):
    for alpha, size, every in ctx.pick([("expr", 3, 4), ("entries", 4, 2)], [("expr", 4, 10), ("entries", 6, 40)]):
        r = ctx.model_check("HighlightMC", env={"ALPHA": alpha, "SIZE": str(size), "EVERY": str(every)}, timeout=3000)
        ctx.replay("generated-" + alpha, [json.loads(x) for x in r.prints], replay, lambda b: uncp(b["src"]))
    texts = ftlgen.texts(ctx.rng, ctx.pick(5000, 60000), MIX, lone_cr=True)
    ctx.conform("highlighter", "HighlightTrace", record, [{"src": cp(t)} for t in texts], batch=20000, show=lambda i: uncp(i["src"]))
