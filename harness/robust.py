"""C16: calls with values, options, functions and locales of any kind, for RobustTrace.tla."""
import datetime
import decimal
import random

from common import cp, guarded
from rtgen import R

D = decimal.Decimal


class Odd(Exception):
    def __str__(self):
        raise ValueError("no text")


def values(r):
    from fluent.runtime import types as T

    class Mine(T.FluentType):
        def __init__(self, x):
            self.x = x

        def format(self, locale):
            if isinstance(self.x, Exception):
                raise self.x
            return self.x

    class MyStr(str):
        pass

    class MyInt(int):
        def __eq__(self, o):
            raise RuntimeError("eq")

        __hash__ = int.__hash__

    k = r.randrange(11)
    if k == 0:
        return r.choice([float("nan"), float("inf"), -float("inf"), 1e308, 5e-324, -0.0, 1e22, 123456789.123456789, D("NaN"), D("sNaN"), D("Infinity"), D("1E+30"), D("1E-30"), D("-0"), D("1E+3")])
    if k == 1:
        return r.choice([10 ** 30, -10 ** 18, 2 ** 63, True, False, MyInt(3)])
    if k == 2:
        opts = {}
        for n in ("minimumIntegerDigits", "minimumFractionDigits", "maximumFractionDigits", "minimumSignificantDigits", "maximumSignificantDigits"):
            if r.random() < 0.4:
                opts[n] = r.choice([-1, 0, 1, 2, 20, 50, 1.5, "2", None, D(2), "x", True])
        for n, vs in (("style", ["percent", "decimal", "currency"]), ("currency", ["USD", "", "EURO", "x", 3, None]), ("currencyDisplay", ["code", "name", "symbol"]), ("useGrouping", [None, 0, "", "no"]), ("type", ["ordinal", "cardinal"])):
            if r.random() < 0.3:
                opts[n] = r.choice(vs)
        try:
            return T.fluent_number(r.choice([0, 1, -5, 1234567, 0.5, -1.25, D("3.14159"), 10 ** 25, float("nan"), float("inf")]), **opts)
        except (TypeError, ValueError):
            return 1
    if k == 3:
        tz = r.choice([None, datetime.timezone.utc, datetime.timezone(datetime.timedelta(hours=23, minutes=59)), datetime.timezone(datetime.timedelta(seconds=-1))])
        d = r.choice([datetime.date.min, datetime.date.max, datetime.datetime.min, datetime.datetime.max, datetime.datetime(2020, 1, 1, tzinfo=tz), datetime.datetime.max.replace(tzinfo=tz)])
        o = {}
        if r.random() < 0.6:
            o["dateStyle"] = r.choice(["full", "long", "medium", "short", None])
        if isinstance(d, datetime.datetime) and r.random() < 0.6:
            o["timeStyle"] = r.choice(["full", "long", "medium", "short", None])
        if r.random() < 0.5:
            o["timeZone"] = r.choice(["UTC", "Asia/Tokyo", "Pacific/Kiritimati", "No/Where", "", 3, "America/New_York"])
        return T.fluent_date(d, **o)
    if k == 4:
        return r.choice(["", "x" * 2500, "x" * 2501, "\ud800", "\u2068\u2069", "{???", "a\nb", MyStr("s"), "\x00"])
    if k == 5:
        return r.choice([None, [], {}, object(), b"x", Ellipsis, 1j, datetime.time(1), datetime.timedelta(1), range(3), int, NotImplemented, lambda: 1, Odd()])
    if k == 6:
        return r.choice([T.FluentNone(), T.FluentNone("n"), T.FluentNone("")])
    if k == 7:
        return Mine(r.choice(["mine", "", "x" * 3000, RuntimeError("f"), Odd(), NotImplementedError(), StopIteration(), KeyError("k"), None, 5, "one"]))
    if k == 8:
        return r.choice(["one", "other", "s", 1, 2, 0, 1.5, D("1.0")])
    return r.choice(["plain", 3, 7.25])


def functions(r):
    from fluent.runtime import types as T

    def give(v):
        return lambda *a, **k: v

    def boom(e):
        def f(*a, **k):
            raise e
        return f

    def meddle(*a, **k):
        k.clear()
        return a[0]

    def two(a, b=1):
        return a

    es = [RuntimeError("x"), Odd("x"), StopIteration(), KeyError("k"), RecursionError("deep"), UnicodeDecodeError("utf8", b"x", 0, 1, "r"), OSError(2, "x"), ExceptionGroup("g", [ValueError(1)]), AssertionError(), MemoryErrorLike()]
    fs = {n: r.choice([give(values(r)), boom(r.choice(es)), meddle, two, give(None), lambda x: x, lambda *a, **k: T.fluent_number(*a, **k), T.FluentNone, lambda x: type(x).__name__, len]) for n in ("ARG", "KW", "STR", "FAIL", "NONE", "VAL", "RAW")}
    if r.random() < 0.1:
        fs["VAL"] = 5          # not callable
    return fs


class MemoryErrorLike(Exception):
    pass


LOCALES = ["en-US", "de", "xx", "tlh", "C", "pl", "ar", "zh-Hant-TW", "sr-Latn", "en_GB", "zz-ZZ", "hi", "fa", "mr", "no", "bn-BD", "ku", "x-none", "en-US-posix", "i-klingon", "", "root", "und"]


def record(inp):
    import warnings

    warnings.simplefilter("ignore")
    from fluent.runtime import FluentBundle, FluentResource

    r = random.Random(inp["seed"])
    locs = [r.choice(LOCALES) for _ in range(r.choice([1, 1, 2, 0]))]
    fs = functions(r)
    try:
        b = FluentBundle(locs, functions=fs, use_isolating=r.random() < 0.5)
    except Exception:
        # a malformed tag: no bundle, nothing to format
        b = FluentBundle(["en-US"], functions=fs, use_isolating=r.random() < 0.5)
    res = FluentResource(inp["src"])
    b.add_resource(res)
    args = {n: values(r) for n in "xyz"}
    if r.random() < 0.05:
        args[r.choice(["1", "", "x y"])] = 1
    calls = []
    asts = {e.id.name: e for e in res.body if type(e).__name__ == "Message"}
    for n in ("m", "n", "o", "p"):
        if not b.has_message(n):
            continue
        m = b.get_message(n)
        for a in [None, "a", "b"]:
            pat = m.value if a is None else m.attributes.get(a)
            if pat is None:
                continue
            src = asts[n].value if a is None else [x for x in asts[n].attributes if x.id.name == a][-1].value
            els = src.elements
            pre = els[0].value if type(els[0]).__name__ == "TextElement" else ""
            suf = els[-1].value if type(els[-1]).__name__ == "TextElement" else ""

            def call():
                t, e = b.format_pattern(pat, args)
                ok = type(t) is str and type(e) is list and all(isinstance(x, Exception) for x in e)
                return t, [type(x).__name__ for x in e] if ok else None

            got, raised = guarded(call, limit=20)
            if raised:
                calls.append({"raised": raised, "kind": "", "text": [], "errs": [], "text2": [], "errs2": [], "pre": [], "suf": []})
                continue
            again, raised = guarded(call, limit=20)
            (t, e), (t2, e2) = got, again or ("raised", None)
            good = isinstance(t, str) and e is not None
            calls.append({"raised": raised, "kind": "str" if good else type(t).__name__, "text": cp(t) if good else [], "errs": e or [],
                          "text2": cp(t2) if good else [], "errs2": e2 or [], "pre": cp(pre), "suf": cp(suf)})
    return {"calls": calls} if calls else "skip"


def inputs(rng, n):
    out = []
    for i in range(n):
        g = R(rng, acyclic=i % 3 == 0, unknown=0.1, funs=["NUMBER", "NUMBER", "DATETIME", "ARG", "KW", "STR", "FAIL", "NONE", "VAL", "RAW"], weights={"var": 6, "fun": 4})
        out.append({"seed": rng.randrange(1 << 30), "src": g.resource()})
    return out
