"""C28, C29, C30: values against FluentValues (OptionsMC, NumbersMC, DatesMC and ValueTrace.tla)."""
import json
import os
import tempfile

import valuehist
import values


def run(ctx):
    env = {"VIEW": ctx.prop}
    locales = values.LOCALES
    if ctx.prop != "C28":
        locales = locales + [t for t in dict.fromkeys(valuehist.MORE_LOCALES + valuehist.every_kind(ctx.prop == "C30")) if t not in locales]
    with tempfile.TemporaryDirectory() as tmp:
        env["LOCALES"] = os.path.join(tmp, "locales.json")
        with open(env["LOCALES"], "w") as f:
            json.dump(values.locale_data(locales), f)
        module, size, every, run_one = {
            "C28": ("OptionsMC", ctx.pick("2", "3"), ctx.pick("5", "60"), valuehist.replay_options),
            "C29": ("NumbersMC", ctx.pick("2", "3"), ctx.pick("7", "20"), valuehist.replay_number),
            "C30": ("DatesMC", ctx.pick("1", "3"), ctx.pick("5", "40"), valuehist.replay_date)}[ctx.prop]
        r = ctx.model_check(module, env={"LOCALES": env["LOCALES"], "SIZE": size, "EVERY": every}, timeout=3000)
        ctx.replay("generated", [json.loads(x) for x in r.prints], run_one)
        cases = {"C28": lambda: valuehist.wraps(ctx.rng, ctx.pick(3000, 60000)),
                 "C29": lambda: valuehist.formats(ctx.rng, ctx.pick(12000, 200000), locales),
                 "C30": lambda: valuehist.dates(ctx.rng, ctx.pick(4000, 60000), locales)}[ctx.prop]()
        ctx.conform("values", "ValueTrace", valuehist.record, cases, env=env, batch=10000)
