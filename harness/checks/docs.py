"""C32: documentation builds against FluentDocs (DocsMC, DocsTrace.tla)."""
import json

import docsite


def run(ctx):
    for size, every in ctx.pick([(5, 40)], [(5, 1), (6, 40)]):
        r = ctx.model_check("DocsMC", env={"SIZE": str(size), "EVERY": str(every)}, timeout=3000)
        ctx.replay("generated-%d" % size, [json.loads(x) for x in r.prints], docsite.replay)
    ctx.conform("builds", "DocsTrace", docsite.record, docsite.cases(ctx.rng, ctx.pick(400, 6000)), batch=5000)
