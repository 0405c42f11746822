"""C25, C26: localizations against FluentLocalization (LocalizationTrace.tla)."""
import json
import os
import tempfile

from common import uncp
import localization
import values


def run(ctx):
    env = {"VIEW": ctx.prop}
    with tempfile.TemporaryDirectory() as tmp:
        env["LOCALES"] = os.path.join(tmp, "locales.json")
        with open(env["LOCALES"], "w") as f:
            json.dump(values.locale_data(), f)
        for size, wide, every in ctx.pick([(2, "no", 1)], [(3, "no", 4), (2, "yes", 8)]):
            r = ctx.model_check("LocalizationMC", env={"SIZE": str(size), "WIDE": wide, "EVERY": str(every)}, timeout=3000)
            ctx.replay("histories-%d-%s" % (size, wide), [json.loads(x) for x in r.prints], localization.replay,
                       lambda c: {"offer": c["offer"], "requests": [uncp(h["id"]) for h in c["hist"]]})
        ctx.conform("requests", "LocalizationTrace", localization.record, localization.inputs(ctx.rng, ctx.pick(2500, 30000)), env=env, batch=5000)
