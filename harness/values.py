"""Values that cross the border of fluent.runtime: how a case describes them
(JSON), how they are made, and how the specification sees them."""
import datetime
import decimal

from common import cp, uncp

TZS = ["", "Europe/Berlin", "America/New_York", "Asia/Kathmandu", "UTC"]
STYLES = ["full", "long", "medium", "short"]


def num(x):
    """(-1)^neg * digits * 10^exponent of a native number, by its shortest decimal form."""
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        t = decimal.Decimal(int.__repr__(x)).as_tuple()
    elif isinstance(x, float):
        f = float.__float__(x) if type(x) is not float else x
        t = decimal.Decimal(float.__repr__(f)).as_tuple()
        if f == int(f):
            i = decimal.Decimal(int(f)).as_tuple()
            return {"neg": bool(t.sign), "d": list(i.digits), "x": i.exponent}
    else:
        t = x.as_tuple()
    return {"neg": bool(t.sign), "d": list(t.digits), "x": t.exponent}


# ---- descriptions -> Python objects


class Thing:
    def __repr__(self):
        return "<thing>"


def tz_of(name):
    from babel.dates import get_timezone

    if not name:
        return None
    if name.startswith("+") or name.startswith("-"):
        offset, _, called = name.partition("/")
        return datetime.timezone(datetime.timedelta(minutes=int(offset)), *([called] if called else []))
    import zoneinfo

    return zoneinfo.ZoneInfo(name)


def native(d):
    k = d["py"]
    if k == "int":
        return int(d["v"])
    if k == "bool":
        return d["v"]
    if k == "float":
        return float(d["v"])
    if k == "dec":
        return decimal.Decimal(d["v"])
    if k == "str":
        return uncp(d["v"])
    if k == "date":
        return datetime.date(*d["v"])
    if k == "datetime":
        return datetime.datetime(*d["v"], tzinfo=tz_of(d.get("tz", "")), fold=d.get("fold", 0))
    if k == "obj":
        return {"NoneType": None, "list": [1], "bytes": b"x", "dict": {}, "Thing": Thing(), "tuple": (), "time": datetime.time(1, 2), "complex": 1j, "set": {1}}[d["v"]]
    raise KeyError(k)


def make(d):
    """The value described.  Fluent values ("opts") are made with the library."""
    from fluent.runtime.types import FluentNone, fluent_date, fluent_number

    if d["py"] == "none":
        return FluentNone(uncp(d["v"]) or None)
    x = native(d)
    if "opts" in d:
        opts = {k: native(v) for k, v in d["opts"]}
        return (fluent_number if d["py"] in ("int", "float", "dec", "bool") else fluent_date)(x, **opts)
    return x


# ---- what the specification sees


def iso(x):
    if isinstance(x, datetime.datetime):
        return cp("%r" % ((x.year, x.month, x.day, x.hour, x.minute, x.second, x.microsecond, str(x.tzinfo), x.utcoffset() and x.utcoffset().total_seconds(), x.fold),))
    return cp("%r" % ((x.year, x.month, x.day),))


def opt_value(x):
    """An option's value, without options of its own."""
    return {k: v for k, v in see(x).items() if k not in ("o", "f")} if isinstance(x, (int, float, decimal.Decimal, str)) else see(x)


def described(d, dates):
    """The specification's value for a description, as an argument of the application."""
    k = d["py"]
    if k == "none":
        return {"k": "n", "s": d["v"]}
    x = native(d)
    if k in ("int", "bool", "float", "dec"):
        return {"k": "d", "n": num(x), "f": True, "o": opts_of(d)}
    if k == "str":
        return {"k": "s", "s": d["v"]}
    if k in ("date", "datetime"):
        key = iso(x)
        ids = [i for i, y in enumerate(dates) if iso(y) == key]
        if not ids:
            dates.append(x)
        return {"k": "t", "f": True, "id": (ids[0] if ids else len(dates) - 1) + 1, "dt": k == "datetime", "iso": key, "o": opts_of(d)}
    return {"k": "o", "s": cp(type(x).__name__)}


def opts_of(d):
    out = []
    for k, v in d.get("opts", []):
        x = native(v)
        out.append([cp(k), see(x)])
    return out


def returned(d, dates):
    """The same for a value returned by a function: plain numbers and dates stay plain."""
    v = described(d, dates)
    if v["k"] in ("d", "t") and "opts" not in d:
        v["f"] = False
    return v


def see(x):
    """An actual value, as a function or the caller sees it (all options)."""
    from fluent.runtime.types import FluentDateType, FluentNone, FluentNumber

    if isinstance(x, FluentNone):
        return {"k": "n", "s": cp(x.name or "")}
    if isinstance(x, (int, float, decimal.Decimal)):
        try:
            n = num(x)
        except (ValueError, OverflowError):
            return {"k": "o", "s": cp("nan or infinity")}
        f = isinstance(x, FluentNumber)
        return {"k": "d", "n": n, "f": f, "o": options(x) if f else []}
    if isinstance(x, str):
        return {"k": "s", "s": cp(x)}
    if isinstance(x, datetime.date):
        f = isinstance(x, FluentDateType)
        return {"k": "t", "iso": iso(x), "f": f, "o": options(x) if f else []}
    return {"k": "o", "s": cp(type(x).__name__)}


def options(x):
    import attr

    out = []
    for a in attr.fields(type(x.options)):
        out.append([cp(a.name), opt_value(getattr(x.options, a.name))])
    return out


# ---- data of the environment: CLDR through Babel

LOCALES = ["en-US", "de", "fr", "pl", "ar", "ru", "cy", "ja", "lv", "hi", "sl", "ga", "mt", "en-IN", "sv", "pt-PT", "es", "he", "lt", "br"]
# Spellings, scripts, regions and variants that the locale data may or may not know.
ODD_LOCALES = ["xx", "zz-ZZ", "tlh", "en-XX", "EN-us", "en_GB", "zh-hant-tw", "zh_TW", "pt_BR", "iw", "no", "mo", "sh", "sr-Latn-RS", "sr", "ca-ES-valencia", "en-US-POSIX", "en-Latn-US", "qaa",
               "i-klingon", "und", "aa-DJ", "ji", "in", "tl", "es-419", "de-1996", "hi-Latn", "jv-JV", "xx-Latn-YY", "e", "DE_at", "De-cH", "fr-ca", "PL", "AR", "ga_ie", "ar-XX", "pl-YY", "cy-XX"]
CURRENCIES = ["USD", "EUR", "JPY", "GBP", "KWD", "CHF", "usd", "XXX", "QQQ", "CLF"]


def rule(t):
    op = t[0]
    if op in ("or", "and", "not"):
        return {"op": op, "a": [rule(x) for x in t[1]]}
    if op == "relation":
        rel, x, rng = t[1] if len(t) == 2 else t[1:]
        assert rel in ("in", "within", "is"), t
        m = 0
        if x[0] == "mod":
            x, m = x[1][0], x[1][1][1][0]
        return {"op": "in", "x": x[0], "mod": m, "r": [[a[1][0], b[1][0]] for a, b in rng[1]]}
    raise ValueError(t)


def rules(plural):
    return [{"tag": cp(tag), "rule": rule(ast)} for tag, ast in plural.abstract if tag != "other"]


def pattern(p):
    return {"pre": [cp(x) for x in p.prefix], "suf": [cp(x) for x in p.suffix], "g": [min(x, 1000) for x in p.grouping], "ip": list(p.int_prec), "fp": list(p.frac_prec)}


KNOWN = set(LOCALES)        # tags in the table of locales


def known(tag):
    import babel

    try:
        babel.Locale.parse(tag.replace("-", "_"))
        return True
    except babel.UnknownLocaleError:
        return False


def locale_data(tags=LOCALES, currencies=CURRENCIES):
    import babel
    from babel.numbers import get_currency_precision, get_currency_symbol

    out = {}
    for tag in list(tags) + ["(default)"]:
        L = babel.Locale.default() if tag == "(default)" else babel.Locale.parse(tag.replace("-", "_"))
        s = L.number_symbols["latn"]
        out[tag] = {"dec": cp(s["decimal"]), "grp": cp(s["group"]), "decimal": pattern(L.decimal_formats.get(None)), "percent": pattern(L.percent_formats.get(None)),
                    "currency": pattern(L.currency_formats["standard"]),
                    "cur": [{"code": cp(c), "sym": cp(get_currency_symbol(c, L)), "digits": get_currency_precision(c)} for c in currencies],
                    "plurals": rules(L.plural_form), "ordinals": rules(L.ordinal_form)}
    return out


def pieces(pat):
    """A date-time pattern without its quotes, as pieces."""
    import re

    out = []
    for s in re.split(r"(\{[01]\})", pat.replace("'", "")):
        if s == "{0}":
            out.append({"d": "time", "s": []})
        elif s == "{1}":
            out.append({"d": "date", "s": []})
        elif s:
            out.append({"d": "", "s": cp(s)})
    return out


def date_table(dates, tags, tzs=TZS):
    """Per locale, for each date: its texts in each time zone and style."""
    import babel
    from babel.dates import format_date, format_time, get_datetime_format, get_timezone

    out = {}
    for tag in tags:
        L = babel.Locale.default() if tag == "(default)" else babel.Locale.parse(tag.replace("-", "_"))
        both = [pieces(str(get_datetime_format(s, locale=L))) for s in STYLES]
        rows = []
        for x in dates:
            row = []
            if isinstance(x, datetime.datetime):
                y = x if x.tzinfo is not None else x.replace(tzinfo=get_timezone("UTC"))
                for tz in tzs:
                    z = y.astimezone(get_timezone(tz)) if tz else y
                    row.append({"tz": cp(tz), "date": [cp(format_date(z.date(), s, locale=L)) for s in STYLES],
                                "time": [cp(format_time(z, s, locale=L)) for s in STYLES], "both": both})
            else:
                row.append({"tz": [], "date": [cp(format_date(x, s, locale=L)) for s in STYLES], "time": [], "both": both})
            rows.append(row)
        out[tag] = rows
    return out
