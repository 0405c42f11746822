"""Runs histories of values - making, wrapping, formatting them - and records them for ValueTrace.tla.

A case: {"ops": [...]} with
  {"op": "new", "v": description (values.py)}
  {"op": "wrap", "how", "of", "kw": [[name, description]]}
  {"op": "fmt", "of", "locale"}          of: number of a value, counted from 1; the last one if 0"""
import datetime
import decimal
import enum
import zoneinfo

from common import cp, guarded, uncp
import values


class MyInt(int):
    pass


class MyFloat(float):
    pass


class MyDecimal(decimal.Decimal):
    pass


class MyDateTime(datetime.datetime):
    pass


class Level(enum.IntEnum):
    LOW = 3


def make(d):
    k = d["py"]
    if k == "sub":
        v = d["v"]
        return {"int": lambda: MyInt(v[1]), "float": lambda: MyFloat(v[1]), "dec": lambda: MyDecimal(v[1]), "enum": lambda: Level.LOW,
                "datetime": lambda: MyDateTime(*v[1])}[v[0]]()
    if k == "pytz":
        import pytz

        return pytz.timezone(d["tz"]).localize(datetime.datetime(*d["v"]), is_dst=bool(d["dst"]))
    if k == "list":
        return [1]
    return values.make(d)


def kind(x):
    from fluent.runtime.types import FluentNone

    for t, n in ((int, "int"), (float, "float"), (decimal.Decimal, "Decimal"), (datetime.datetime, "datetime"), (datetime.date, "date"), (FluentNone, "none")):
        if isinstance(x, t):
            return n
    return type(x).__name__


def lit(x):
    k = kind(x)
    if k == "int":
        return int.__repr__(x)
    if k == "float":
        return float.__repr__(x)
    if k == "Decimal":
        return repr(x.as_tuple())
    if k in ("date", "datetime"):
        return uncp(values.iso(x)) + (" %s" % type(x.tzinfo).__name__ if k == "datetime" else "")
    if k == "none":
        return "none " + repr(x.name)
    return "a " + k


def see(x):
    s = values.see(x)
    if kind(x) in ("float", "Decimal") and s["k"] == "o":      # no finite number
        from fluent.runtime.types import FluentNumber

        f = isinstance(x, FluentNumber)
        return {"k": "d", "n": {"neg": False, "d": [0], "x": 0}, "f": f, "o": values.options(x) if f else []}
    return s


def civil(x):
    return [x.year, x.month, x.day, x.hour, x.minute, x.second]


def seconds(td):
    return td.days * 86400 + td.seconds


def zone_rows(x, tzs):
    y = x if x.tzinfo is not None else x.replace(tzinfo=datetime.timezone.utc)
    rows = [("", y)] + [(tz, at(y, tz)) for tz in tzs]
    return [{"tz": cp(tz), "off": seconds(z.utcoffset()), "civil": civil(z)} for tz, z in rows]


def at(y, tz):
    """The instant in another zone (astimezone alone gives y itself if that is its zone, even a time that does not exist)."""
    return y.astimezone(datetime.timezone.utc).astimezone(zoneinfo.ZoneInfo(tz))


def skipped(x, tzs):
    """A local time that no clock showed, wanted in its own zone: it may stay as it is."""
    return isinstance(x, datetime.datetime) and getattr(x.tzinfo, "key", "") in tzs and at(x, x.tzinfo.key).replace(tzinfo=None) != x.replace(tzinfo=None)


def value_of(x, dates, tzs):
    k = kind(x)
    v = see(x)
    out = {"py": k, "lit": lit(x)}
    if k in ("date", "datetime"):
        dates.append(x)
        v = dict(v, id=len(dates), dt=k == "datetime")
        if k == "datetime":
            out["civil"] = civil(x)
            out["off"] = seconds(x.utcoffset()) if x.tzinfo is not None else 0
            out["zones"] = zone_rows(x, tzs)
    elif k == "none":
        v = {"k": "n", "s": cp(x.name or "")}
    return dict(out, v=v)


def record(case):
    import warnings

    import babel
    from fluent.runtime.types import fluent_date, fluent_number
    from fluent.runtime.utils import native_to_fluent

    warnings.simplefilter("ignore")
    heap, dates, rec = [], [], {"ops": []}
    tzs = case.get("tzs", [])
    for op in case["ops"]:
        o = {"op": op["op"]}
        if op["op"] == "new":
            try:
                x = make(op["v"])
            except Exception:
                return "skip"
            if skipped(x, tzs):
                return "skip"
            heap.append(x)
            o["val"] = value_of(x, dates, tzs)
        elif op["op"] == "wrap":
            i = op["of"] if 0 < op["of"] <= len(heap) else len(heap)
            try:
                kw = {k: make(v) for k, v in op["kw"]}
            except Exception:
                return "skip"
            if op["how"] == "native":
                r, bad = guarded(native_to_fluent, heap[i - 1])
            else:
                r, bad = guarded(lambda f, a, k: f(a, **k), {"number": fluent_number, "date": fluent_date}[op["how"]], heap[i - 1], kw)
            o.update(of=i, how=op["how"], kw=[[cp(k), see(v)] for k, v in kw.items()], raised=bad)
            if not bad:
                heap.append(r)
        else:
            i = op["of"] if 0 < op["of"] <= len(heap) else len(heap)
            L = babel.Locale.parse(op["locale"].replace("-", "_"))
            r, bad = guarded(lambda: heap[i - 1].format(L))
            o.update(of=i, locale=op["locale"], text=cp(r) if not bad and isinstance(r, str) else [], raised=bad if bad or isinstance(r, str) else "gave " + type(r).__name__)
        o["all"] = [{"see": see(x), "py": kind(x), "lit": lit(x)} for x in heap]
        rec["ops"].append(o)
    rec["dates"] = date_table(dates, sorted({op["locale"] for op in case["ops"] if op["op"] == "fmt"}), tzs)
    return rec


def date_table(dates, tags, tzs):
    import babel
    from babel.dates import format_date, format_time, get_datetime_format, get_timezone

    out = {}
    for tag in tags:
        L = babel.Locale.parse(tag.replace("-", "_"))
        both = [values.pieces(str(get_datetime_format(s, locale=L))) for s in values.STYLES]
        rows = []
        for x in dates:
            row = []
            if isinstance(x, datetime.datetime):
                y = x if x.tzinfo is not None else x.replace(tzinfo=get_timezone("UTC"))
                for tz in [""] + tzs:
                    z = at(y, tz) if tz else y
                    row.append({"tz": cp(tz), "date": [cp(format_date(z.date(), s, locale=L)) for s in values.STYLES],
                                "time": [cp(format_time(z, s, locale=L)) for s in values.STYLES], "both": both})
            else:
                row.append({"tz": [], "date": [cp(format_date(x, s, locale=L)) for s in values.STYLES], "time": [], "both": both})
            rows.append(row)
        out[tag] = rows
    return out


# ---- C28

def S(*a):
    return lambda r: {"py": "str", "v": cp(r.choice(a))}


def I(*a):
    return lambda r: {"py": "int", "v": str(r.choice(a))}


def number_option(r):
    n, f = r.choice([
        ("style", S("decimal", "percent", "currency", "percent")), ("type", S("ordinal", "cardinal")), ("currency", S("EUR", "USD", "jpy", "")),
        ("currencyDisplay", S("symbol", "code", "name")), ("useGrouping", lambda r: r.choice([{"py": "bool", "v": False}, {"py": "bool", "v": True}, I(0, 1)(r), S("", "false")(r)])),
        ("minimumIntegerDigits", I(0, 1, 2, 5)), ("minimumFractionDigits", I(0, 1, 3)), ("maximumFractionDigits", I(0, 2, 4)),
        ("minimumSignificantDigits", I(1, 2)), ("maximumSignificantDigits", I(2, 5))])
    v = f(r)
    if r.random() < 0.08 and n in ("currency", "minimumFractionDigits", "maximumSignificantDigits"):
        v = {"py": "obj", "v": "NoneType"}
    return [n, v]


def wrong_number_option(r):
    return r.choice([["style", S("Decimal", "", "unit")(r)], ["type", S("other", "")(r)], ["currencyDisplay", S("narrow")(r)], ["style", {"py": "obj", "v": "NoneType"}],
                     ["foo", I(1)(r)], ["minimumfractiondigits", I(1)(r)], ["style", S("currency")(r)], ["currency", {"py": "obj", "v": "NoneType"}], ["dateStyle", S("full")(r)],
                     ["type", I(1)(r)], ["style", {"py": "obj", "v": "list"}]])


def date_option(r, dt=True):
    n, f = r.choice([("dateStyle", S("full", "long", "medium", "short")), ("timeZone", S("Europe/Berlin", "Asia/Tokyo")), ("weekday", S("long")), ("era", S("short")), ("hour12", I(1)),
                     ("year", S("numeric"))] + ([("timeStyle", S("full", "long", "medium", "short"))] * 2 if dt else []))
    v = f(r)
    if r.random() < 0.1 and n != "hour12":
        v = {"py": "obj", "v": "NoneType"}
    return [n, v]


def wrong_date_option(r):
    return r.choice([["dateStyle", S("Full", "", "tiny")(r)], ["timeStyle", S("medum", "")(r)], ["foo", I(1)(r)], ["style", S("decimal")(r)], ["timeStyle", I(1)(r)], ["dateStyle", I(0)(r)],
                     ["timeStyle", S("short")(r)], ["timezone", S("UTC")(r)]])


def any_value(r):
    k = r.random()
    if k < 0.5:
        return number_value(r)
    if k < 0.75:
        return date_value(r)
    return r.choice([{"py": "none", "v": cp("x")}, {"py": "none", "v": []}, {"py": "str", "v": cp("s")}, {"py": "str", "v": cp("1")}] + [{"py": "obj", "v": t} for t in ("NoneType", "bytes", "Thing", "time", "complex", "tuple")]
                    + [{"py": "sub", "v": v} for v in (["int", 7], ["float", 1.5], ["dec", "1.50"], ["enum"], ["datetime", [2024, 1, 2, 3, 4]])])


def number_value(r):
    return r.choice([
        {"py": "int", "v": str(r.choice([0, 1, -1, 12345678901234567890, 10 ** 40, r.randrange(-1000, 1000)]))},
        {"py": "float", "v": r.choice(["0.0", "-0.0", "1.5", "0.1", "1e300", "5e-324", "nan", "inf", "-inf", "1e16", "123456.789"])},
        {"py": "dec", "v": r.choice(["0", "-0", "1.0", "1.00", "1E+5", "NaN", "sNaN", "Infinity", "-1.50", "0.000001", "123456789012345678901234567890.12"])},
        {"py": "bool", "v": r.random() < 0.5}])


ZONES = ["Europe/Berlin", "America/New_York", "Asia/Kathmandu", "UTC", "Pacific/Auckland", "America/St_Johns", "Asia/Tokyo", "Australia/Lord_Howe", "Africa/Lagos", "Pacific/Kiritimati", "EST", "CET", "Etc/GMT+5"]
# fixed offsets that call themselves like a zone
NAMED = ["+60/CET", "+120/CET", "-300/EST", "-240/EST", "+0/Asia/Tokyo", "+330/UTC", "-60/UTC", "+120/Europe/Berlin", "+0/America/New_York"]
INSTANTS = [[2024, 2, 29, 23, 30, 15, 7], [2023, 10, 29, 2, 30], [2023, 10, 29, 1, 30], [2018, 7, 1, 0, 0, 59], [2018, 1, 1, 12, 5], [2023, 3, 26, 2, 30], [2023, 11, 5, 1, 15], [2000, 12, 31, 23, 59, 59, 999999],
            [1999, 1, 1], [2024, 12, 31, 0, 0, 1], [1972, 6, 30, 23, 59], [2023, 4, 2, 1, 45]]


def date_value(r, span=None):
    if span:
        when = [r.randrange(1975, 2030), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60)]
    else:
        when = r.choice(INSTANTS)
    k = r.random()
    if k < 0.25:
        return {"py": "date", "v": when[:3]}
    if k < 0.35:
        return {"py": "pytz", "v": when, "tz": r.choice(ZONES[:6]), "dst": r.random() < 0.5}
    return {"py": "datetime", "v": when, "tz": r.choice(["", "", "UTC", "+330", "-210", "+0"] + ZONES + r.sample(NAMED, 4)), "fold": r.choice([0, 0, 1])}


def pick(r, f, n):
    out = {}
    for _ in range(n):
        k, v = f(r)
        out[k] = v
    return [[k, v] for k, v in out.items()]


def wraps(rng, n):
    out = []
    for _ in range(n):
        r = rng
        ops, kinds = [], []
        for _ in range(r.choice([1, 2, 3])):
            v = any_value(r)
            ops.append({"op": "new", "v": v})
            kinds.append(v)
        for _ in range(r.randrange(2, 9)):
            i = r.randrange(len(kinds))
            v = kinds[i]
            py = v["py"] if v["py"] != "sub" else v["v"][0]
            how = r.choice(["native", "number", "date"] if r.random() < 0.15 else ["native"] + ["number"] * 4 if py in ("int", "float", "dec", "bool", "enum") else ["native"] + ["date"] * 4)
            dt = py != "date"
            if how == "native":
                kw, fails = [], False
            elif how == "number":
                kw = pick(r, number_option, r.choice([0, 1, 1, 2, 3]))
                if r.random() < 0.15:
                    kw = [x for x in kw if x[0] not in ("style", "type", "currency", "currencyDisplay")] + [wrong_number_option(r)]
                    r.shuffle(kw)
            else:
                kw = pick(r, lambda q: date_option(q, dt), r.choice([0, 1, 1, 2, 3]))
                if r.random() < 0.15:
                    w = wrong_date_option(r)
                    kw = [x for x in kw if x[0] != w[0]] + [w]
                    r.shuffle(kw)
            ops.append({"op": "wrap", "how": how, "of": i + 1, "kw": kw})
            kinds.append(v)
        # only values that got made count: numbers of values may be off by the refused ones, which is fine
        out.append({"ops": ops})
    return out


# ---- C29

MORE_LOCALES = ["fi", "nl", "de-CH", "de-AT", "fa", "bn", "th", "tr", "zh", "ko", "nb", "hu", "cs", "el", "uk", "mr", "ur", "sw", "en-ZA", "es-MX", "pt-BR", "it", "da", "eu", "is", "fy", "dz", "ku", "kl", "km", "lo", "ml", "ne", "oc", "rn", "te", "blo", "tok", "az", "be", "gu"]
PATTERN_MAX = 3


def every_kind(of_dates):
    """A locale of each kind: those alike in the patterns that numbers, or date and time together, are written by."""
    import babel.localedata

    kinds = {}
    for name in sorted(babel.localedata.locale_identifiers(), key=lambda x: (len(x), x)):
        L = babel.Locale.parse(name)
        if "latn" not in L.number_symbols:
            continue
        s = L.number_symbols["latn"]
        kinds.setdefault(repr([str(L.datetime_formats[x]) for x in values.STYLES]) if of_dates else
                         repr([s["decimal"], s["group"]] + [values.pattern(x) for x in (L.decimal_formats[None], L.percent_formats[None], L.currency_formats["standard"])]), name.replace("_", "-"))
    return sorted(set(kinds.values()))


def decimal_number(r):
    k = r.random()
    n = r.choice([1, 1, 2, 3, 4, 6, 7, 9, 12, 20, 28])
    digits = "".join(r.choice("0123456789" if r.random() < 0.8 else "0059") for _ in range(n))
    if k < 0.3:
        return {"py": "int", "v": str(int(digits) * r.choice([1, 1, -1]))}
    point = r.randrange(0, n + 1)
    s = r.choice(["", "", "-"]) + (digits[:point] or "0") + "." + (digits[point:] or "0")
    if r.random() < 0.3:      # ties
        s = s.rstrip("0") + "5" if "." in s else s
    if k < 0.6 and n < 15:
        return {"py": "float", "v": repr(float(s))}
    if k < 0.7:
        s = r.choice(["0.0", "-0.0", "0.5", "1.5", "2.5", "0.05", "0.005", "0.0005", "99.95", "999.995", "9999.5", "0.9999", "0.25", "0.125", "1000", "999999.9995", "-0.0004", "-0.4"])
    if k < 0.8:
        s += "E%+d" % r.randrange(-12, 13)
    return {"py": "dec", "v": s}


def significant_ok(v, kw):
    """Not one of the cases which Babel gets wrong (see known_findings.json)."""
    o = dict((k, int(x["v"])) for k, x in kw if "ignificant" in k)
    if not o:
        return True
    lo = o.get("minimumSignificantDigits", 1)
    hi = o.get("maximumSignificantDigits", lo)
    x = decimal.Decimal(v["v"]) if v["py"] in ("int", "dec", "float") else decimal.Decimal(int(v["v"]))
    if lo > hi or lo < 1 or x == 0:
        return False
    y = abs(x)
    r = decimal.Context(prec=hi, rounding=decimal.ROUND_HALF_EVEN).plus(y)
    return r.adjusted() == y.adjusted()


def formats(rng, n, locales):
    out = []
    while len(out) < n:
        r = rng
        v = decimal_number(r)
        tag = r.choice(locales)
        steps = []
        for _ in range(r.choice([1, 1, 2])):
            kw = {}
            if r.random() < 0.4:
                kw["style"] = cp(r.choice(["percent", "decimal", "currency", "currency"]))
                if kw["style"] == cp("currency"):
                    kw["currency"] = cp(r.choice(values.CURRENCIES))
            elif r.random() < 0.1:
                kw["currency"] = cp("EUR")
            if r.random() < 0.25:
                kw["useGrouping"] = r.choice([False, False, True, 0, 1, 2]) if r.random() < 0.8 else cp(r.choice(["", "false", "always"]))
            if r.random() < 0.25:
                kw["currencyDisplay"] = cp(r.choice(["code", "symbol", "name"]))
            if r.random() < 0.3:
                kw["minimumIntegerDigits"] = r.choice([0, 1, 2, 3, 4, 7, 10, 21])
            if r.random() < 0.2:
                lo = r.choice([1, 1, 2, 3, 5, 20])
                kw["minimumSignificantDigits"] = lo
                if r.random() < 0.6:
                    kw["maximumSignificantDigits"] = lo + r.choice([0, 1, 3])
            elif r.random() < 0.1:
                kw["maximumSignificantDigits"] = r.choice([1, 2, 3, 5, 21])
            if r.random() < 0.35:
                kw["minimumFractionDigits"] = r.choice([0, 1, 2, 3, 4, 8, 20])
            if r.random() < 0.35:
                kw["maximumFractionDigits"] = r.choice([0, 1, 2, 3, 4, 8, 20])
            if r.random() < 0.1:
                kw["type"] = cp("ordinal")
            steps.append(kw)
        all_ = {}
        for kw in steps:
            all_.update(kw)
        lo, hi = all_.get("minimumFractionDigits"), all_.get("maximumFractionDigits")
        if hi is not None and (lo if lo is not None else (3 if all_.get("style") == cp("currency") else 0)) > hi:
            continue
        def desc(x):
            return {"py": "bool", "v": x} if isinstance(x, bool) else {"py": "int", "v": str(x)} if isinstance(x, int) else {"py": "str", "v": x}
        steps = [[[k, desc(x)] for k, x in kw.items()] for kw in steps]
        merged = [[k, desc(x)] for k, x in all_.items()]
        if not fits(percent_of(v, all_), all_) or not significant_ok(percent_of(v, all_), merged):
            continue
        ops = [{"op": "new", "v": v}] + [{"op": "wrap", "how": "number", "of": 0, "kw": kw} for kw in steps] + [{"op": "fmt", "of": 0, "locale": tag}]
        if r.random() < 0.3:
            ops.append({"op": "fmt", "of": 0, "locale": r.choice(locales)})
        if r.random() < 0.2:
            ops[1:1] = [{"op": "wrap", "how": "native", "of": 0, "kw": []}, {"op": "fmt", "of": 0, "locale": tag}]
        out.append({"ops": ops})
    return out


def percent_of(v, o):
    if o.get("style") == cp("percent"):
        return {"py": "dec", "v": str(decimal.Context(prec=60).scaleb(decimal.Decimal(v["v"]), 2))}
    return v


def fits(v, o):
    """The digits shown fit into the default decimal context (see known_findings.json)."""
    lo, hi = o.get("minimumFractionDigits", 0), o.get("maximumFractionDigits", 3)
    return max(decimal.Decimal(v["v"]).adjusted(), 0) + 1 + max(lo, hi, 4) <= 28


# ---- C30

def dates(rng, n, locales):
    out = []
    for i in range(n):
        r = rng
        v = date_value(r, span=i % 2)
        dt = v["py"] != "date"
        steps = []
        for _ in range(r.choice([0, 1, 1, 2])):
            kw = {}
            if r.random() < 0.6:
                kw["dateStyle"] = {"py": "str", "v": cp(r.choice(values.STYLES))}
            if dt and r.random() < 0.6:
                kw["timeStyle"] = {"py": "str", "v": cp(r.choice(values.STYLES))}
            if r.random() < 0.5:
                alike = [z for z in ZONES if z in v.get("tz", "")]
                kw["timeZone"] = {"py": "str", "v": cp(r.choice(alike if alike and r.random() < 0.4 else ZONES))}
            for k in list(kw):
                if r.random() < 0.05:
                    kw[k] = {"py": "obj", "v": "NoneType"}
            steps.append(list(map(list, kw.items())))
        tag = r.choice(locales)
        ops = [{"op": "new", "v": v}, {"op": "wrap", "how": r.choice(["native", "date"]), "of": 0, "kw": []}]
        ops += [{"op": "wrap", "how": "date", "of": 0, "kw": kw} for kw in steps] + [{"op": "fmt", "of": 0, "locale": tag}]
        if r.random() < 0.3:
            ops.append({"op": "fmt", "of": r.randrange(2, len(ops)), "locale": r.choice(locales)})
        out.append({"ops": ops, "tzs": sorted({uncp(x["v"]) for o in ops for k, x in o.get("kw", []) if k == "timeZone" and x["py"] == "str"})})
    return out


# ---- replays of what TLC generates

def number_kw(o):
    kw = {}
    if uncp(o["style"]) != "decimal":
        kw["style"] = uncp(o["style"])
    if o["cur"]:
        kw["currency"] = uncp(o["cur"])
    if uncp(o["disp"]) != "symbol":
        kw["currencyDisplay"] = uncp(o["disp"])
    if not o["grouping"]:
        kw["useGrouping"] = False
    for x, name in (("minInt", "minimumIntegerDigits"), ("minFrac", "minimumFractionDigits"), ("maxFrac", "maximumFractionDigits"),
                    ("minSig", "minimumSignificantDigits"), ("maxSig", "maximumSignificantDigits")):
        if o[x] >= 0:
            kw[name] = o[x]
    return kw


def replay_number(case):
    import babel
    from fluent.runtime.types import fluent_number

    L = babel.Locale.parse(case["tag"].replace("-", "_"))
    kw = number_kw(case["opts"])
    for neg, want in ((0, case["text"]), (1, case["minus"])):
        x = decimal.Decimal((neg, case["n"]["d"], case["n"]["x"]))
        got, bad = guarded(lambda: fluent_number(x, **kw).format(L))
        if bad or got != uncp(want):
            return {"number": str(x), "options": kw, "locale": case["tag"], "specified": uncp(want), "real": bad or got}
    return None


def replay_options(case):
    import warnings
    from fluent.runtime.types import FluentNone, fluent_date, fluent_number
    from fluent.runtime.utils import native_to_fluent

    warnings.simplefilter("ignore")
    heap = [{"int": lambda: 5, "Decimal": lambda: decimal.Decimal("1.50"), "datetime": lambda: datetime.datetime(2024, 2, 29, 13, 5), "date": lambda: datetime.date(2024, 2, 29),
             "none": lambda: FluentNone("x"), "str": lambda: "text"}[case["start"]]()]
    first = lit(heap[0])
    for s in case["steps"]:
        kw = {uncp(k): None if v["k"] == "o" else uncp(v["s"]) if v["k"] == "s" else int("".join(map(str, v["n"]["d"]))) for k, v in s["kw"]}
        f = {"number": fluent_number, "date": fluent_date, "native": native_to_fluent}[s["how"]]
        r, bad = guarded(lambda: f(heap[s["of"] - 1], **kw))
        if bool(bad) != s["refused"]:
            return {"step": s["how"], "options": kw, "of": repr(heap[s["of"] - 1]), "specified": "refused" if s["refused"] else "made", "real": bad or "made"}
        if not bad:
            heap.append(r)
    def plain(pairs):
        return sorted((uncp(k), v["k"], tuple(v.get("s", [])), str(v.get("n", ""))) for k, v in pairs)
    bare = {"number": fluent_number(1), "date": fluent_date(datetime.date(2024, 1, 1))}["number" if case["start"] in ("int", "Decimal") else "date"]
    for i, (x, want) in enumerate(zip(heap, case["opts"])):
        got = see(x).get("o", []) if hasattr(x, "options") else []
        if hasattr(x, "options"):       # those that were never given are as in any value
            want = list({k: [cp(k), v] for p in (see(bare)["o"], want) for k, v in ((uncp(k), v) for k, v in p)}.values())
        if plain(got) != plain(want) or lit(x) != first or (i and case["start"] not in ("none", "str") and not hasattr(x, "options")):
            return {"value": i + 1, "specified": {"options": plain(want), "value": first}, "real": {"options": plain(got), "value": lit(x)}}
    return None


def replay_date(case):
    import babel
    from fluent.runtime.types import fluent_date

    tz = None if case["naive"] else datetime.timezone(datetime.timedelta(seconds=case["off"]))
    x = datetime.datetime(*case["wall"], tzinfo=tz)
    kw = {k: v for k, v in (("dateStyle", case["ds"]), ("timeStyle", case["ts"]), ("timeZone", case["zone"])) if v}
    got, bad = guarded(lambda: fluent_date(x, **kw).format(babel.Locale.parse("en_US")))
    if bad or got != uncp(case["text"]):
        return {"datetime": x.isoformat(), "options": kw, "specified": uncp(case["text"]), "real": bad or got}
    return None
