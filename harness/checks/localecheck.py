"""C33: the locale a bundle formats by (LocaleMC, BundleTrace, LocalizationTrace)."""
import json
import os
import tempfile

import babel

import bundles
import localization
from common import cp, guarded, uncp
from rtgen import R
import valuehist
import values

ALL = values.LOCALES + valuehist.MORE_LOCALES + values.ODD_LOCALES
MC_TAGS = ["pl", "ar", "ga", "EN-in", "de_CH", "xx", "zz-ZZ"]


def tags(rng):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 6])):
        k = rng.random()
        t = rng.choice(values.ODD_LOCALES if k < 0.5 else values.LOCALES if k < 0.8 else valuehist.MORE_LOCALES)
        out += [t] if t not in out else []
    return out


SOURCE = """m = { $x } { $y }
    .a = { NUMBER($x, style: "percent") } { DATETIME($z, dateStyle: "%s") }
    .b = { NUMBER($y, currency: "EUR", style: "currency") } { n.a }
n = { $x ->
    [zero] Z
    [one] O
    [two] T
    [few] F
    [many] M
   *[other] X
  } { $y ->
    [zero] Z
    [one] O
    [two] T
    [few] F
    [many] M
   *[other] X
  }
    .a = { NUMBER($x, type: "ordinal") ->
    [zero] Z
    [one] O
    [two] T
    [few] F
    [many] M
   *[other] X
  }
    .b = { DATETIME($z, timeStyle: "%s", timeZone: "Europe/Berlin") }
o = { NUMBER($x, minimumFractionDigits: 2) } { -t }
    .a = { NUMBER($y, useGrouping: 0) }
    .b = { $z }
-t = { 1234.5 } { 3 ->
    [few] F
    [one] O
    [many] M
   *[other] X
  }
p = { ARG($x) } { VAL() } { RAW() }
    .a = { VAL() ->
    [few] F
    [one] O
    [many] M
   *[other] X
  }
    .b = { KW(k: 1000) }
"""


def cases(rng, n):
    out = []
    for i in range(n):
        g = R(rng, funs=["NUMBER", "DATETIME", "ARG", "KW", "VAL"], depth=2)
        locs = tags(rng)
        src = g.resource() if i % 4 == 0 else SOURCE % (rng.choice(values.STYLES), rng.choice(values.STYLES))
        c = g.once(src, g.bundle(locs=locs), 1)
        if i % 4:
            nums = (("num", 1),)
            c["args"] = [[[cp("x"), g.value(nums)], [cp("y"), g.value(nums)], [cp("z"), g.date()]]]
            fmts = [{"op": "fmt", "h": h + 1, "attr": cp(a), "args": 1} for h in range(4) for a in ("", "a", "b")]
            c["ops"] = [o for o in c["ops"] if o["op"] != "fmt"][:-1] + rng.sample(fmts, 5) + [{"op": "end"}]
        if rng.random() < 0.4:      # another bundle, whose list is related
            more = rng.choice([locs[1:], locs[::-1], ["xx"] + locs, tags(rng), locs + ["pl"]])
            c["bundles"].append(dict(c["bundles"][0], locs=list(more)))
            k = sum(o["op"] == "get" for o in c["ops"])
            ops = c["ops"][:-1]
            c["ops"] = ops + [dict(o, **({"h": o["h"] + k} if o["op"] == "fmt" else {"b": 2})) for o in ops] + [{"op": "end"}]
        c["ops"] = [{"op": "tags", "b": b + 1} for b in range(len(c["bundles"]))] + c["ops"][:-1] + [{"op": "tags", "b": b + 1} for b in range(len(c["bundles"]))] + c["ops"][-1:]
        out.append(c)
    return out


MC_SOURCE = """m = <{ $x } { NUMBER($x, style: "percent") }> { c } { o }
c = { $x ->
    [zero] zero
    [one] one
    [two] two
    [few] few
    [many] many
   *[other] other
  }
o = { NUMBER($x, type: "ordinal") ->
    [zero] zero
    [one] one
    [two] two
    [few] few
    [many] many
   *[other] other
  }
"""


def replay(case):
    from fluent.runtime import FluentBundle, FluentResource

    def work():
        b = FluentBundle(case["tags"], use_isolating=False)
        b.add_resource(FluentResource(MC_SOURCE))
        for x, want in zip([0, 2, 22, 1234567.5], case["texts"]):
            got, errs = b.format_pattern(b.get_message("m").value, {"x": x})
            if got != uncp(want) or errs:
                return {"why": "text", "x": x, "got": [got, [str(e) for e in errs]], "want": uncp(want)}

    out, bad = guarded(work)
    return {"why": "raised " + bad} if bad else out


def run(ctx):
    env = {"VIEW": ctx.prop}
    known = [t for t in dict.fromkeys(ALL + MC_TAGS) if values.known(t)]
    values.KNOWN.update(known)
    with tempfile.TemporaryDirectory() as tmp:
        env["LOCALES"] = os.path.join(tmp, "locales.json")
        with open(env["LOCALES"], "w") as f:
            json.dump(values.locale_data(known), f)
        r = ctx.model_check("LocaleMC", env=dict(env, SIZE=str(ctx.pick(3, 5)), EVERY=str(ctx.pick(1, 3))), timeout=3000)
        ctx.replay("lists", [json.loads(x) for x in r.prints], replay, lambda c: c["tags"])
        ctx.conform("bundles", "BundleTrace", bundles.record, cases(ctx.rng, ctx.pick(2200, 25000)), env=env, batch=4000)
        ctx.conform("localizations", "LocalizationTrace", localization.record, localization.inputs(ctx.rng, ctx.pick(700, 10000), tags), env=env, batch=5000)
    ctx.extra["tags"] = {"known": len(known), "unknown": len(set(ALL + MC_TAGS)) - len(known)}
