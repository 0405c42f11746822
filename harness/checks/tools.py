"""C34: the command-line tools against FluentTools (ToolsMC, ToolsTrace.tla)."""
import json
import os
import tempfile

import ftlgen
import toolruns
from common import uncp

MIX = {"valid": 4, "deep": 1, "crlf": 2, "junk": 2, "mutated": 3, "fixture": 2, "comments": 2, "indents": 2, "tokens": 1}


def run(ctx):
    r = ctx.model_check("ToolsMC", env={"SIZE": str(ctx.pick(3, 4)), "EVERY": str(ctx.pick(2, 3))}, timeout=3000)
    ctx.replay("generated", [json.loads(x) for x in r.prints], toolruns.replay, lambda h: {"text": uncp(h[0]["in"]), "tools": [x["op"] for x in h]})
    texts = ftlgen.texts(ctx.rng, ctx.pick(4500, 50000), MIX, lone_cr=True)
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "styles.json")
        with open(path, "w") as f:
            json.dump(toolruns.styles(), f)
        ctx.conform("tools", "ToolsTrace", toolruns.record, toolruns.cases(ctx.rng, texts, ctx.pick(60, 500)), env={"STYLES": path}, batch=3000)
