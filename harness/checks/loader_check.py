"""C27: the file loader against FluentLoader (LoaderTrace.tla)."""
import json

import loader
from common import uncp


def run(ctx):
    for size, wide, every in ctx.pick([(1, "no", 1)], [(2, "no", 5), (1, "yes", 2)]):
        r = ctx.model_check("LoaderMC", env={"SIZE": str(size), "WIDE": wide, "EVERY": str(every)}, timeout=3000)
        ctx.replay("histories-%d-%s" % (size, wide), [json.loads(x) for x in r.prints], loader.replay,
                   lambda c: {"roots": [uncp(x) for x in c["roots"]], "hist": c["hist"]})
    ctx.conform("files", "LoaderTrace", loader.record, loader.inputs(ctx.rng, ctx.pick(2500, 30000)), batch=5000)
