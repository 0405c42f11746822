"""Generators of runtime cases: FTL resources that mean something, argument
values, functions, and histories of operations (see bundles.py)."""
from common import cp
from ftlgen import mined
import values


def beside(lit, r):
    """Number literals that are, or are almost, the same number as lit."""
    neg, t = lit.startswith("-"), lit.lstrip("-")
    out = [lit, lit, "-" + t if not neg else t]
    if "." not in t:
        n = int(t)
        out += [("-" if neg else "") + x for x in (str(n + 1), str(abs(n - 1)), "0" + t, t + "0")]
        if len(t) < 12:
            out += [lit + ".0", lit + ".00", lit + ".01"]
    elif len(t) < 12:
        out += [lit + "0", lit + "1", lit.split(".")[0], lit[:-1] + str((int(lit[-1]) + 1) % 10), "0" * (not neg) + lit]
    return out


class R:
    """weights steer which kinds of expressions, values and functions occur."""

    def __init__(self, rng, **w):
        self.r = rng
        odd = self.ch(0.15)
        self.msgs = w.get("msgs", ["m", "m-1", "m_1", "M"] if odd else ["m", "n", "o", "p"])
        self.terms = w.get("terms", ["t", "t-1", "t_1", "m-1"] if odd else ["t", "u", "m"])
        self.attrs = ["a", "b"]
        self.vars = ["x", "y", "z", "missing"] if self.ch(0.75) else ["x", "y", "z", "x-y", "x_y", "X", "missing"]
        self.funs = w.get("funs", ["NUMBER", "DATETIME", "ARG", "KW", "STR", "FAIL", "NONE"])
        self.w = {"text": 5, "string": 2, "number": 2, "var": 4, "msg": 3, "term": 3, "fun": 3, "select": 3, "nest": 1, **w.get("weights", {})}
        self.lits = w.get("lits", ["0", "1", "2", "3", "5", "11", "1.0", "1.5", "-1", "0.5", "100", "1000000", "007"])
        self.keys = ["one", "other", "few", "many", "two", "zero", "x", "a"]
        self.unknown = w.get("unknown", 0.08)
        self.maxdepth = w.get("depth", 3)
        self.acyclic = w.get("acyclic", False)
        self.level = 99
        self.hard = w.get("hard", 1)        # small: mostly numbers at the edge of something

    def ch(self, p):
        return self.r.random() < p

    def pick(self, ws):
        k = self.r.random() * sum(ws.values())
        for a, b in ws.items():
            k -= b
            if k < 0:
                return a
        return a

    def text(self):
        return self.r.choice(["a", "b c", " d", "e ", "Text", "é", "\U0001f600", "x\u2068y", ".", "1", "???", "\u2069"])

    def string(self):
        return '"' + self.r.choice(["", "s", "one", "other", "two", "a b", "x", "\\u00e9", "\\\\", "1", "\\uD800", "few", "m"]) + '"'

    def named(self, names=None):
        out, seen = [], set()
        for _ in range(self.r.choice([0, 1, 1, 2])):
            n = self.r.choice(names or self.vars)
            if n not in seen:
                seen.add(n)
                out.append("%s: %s" % (n, self.r.choice(self.lits) if self.ch(0.5) else self.string()))
        return out

    def option(self):
        r = self.r
        return r.choice([
            "minimumFractionDigits: %d" % r.choice([0, 1, 2]), "maximumFractionDigits: %d" % r.choice([2, 3, 5]),
            "minimumIntegerDigits: %d" % r.choice([1, 2, 4]), "useGrouping: %s" % r.choice(["0", "1", '"false"', '""']),
            'style: "percent"', 'style: "decimal"', 'type: "ordinal"', 'type: "cardinal"', 'currency: "EUR"', 'style: "currency"',
            'currencyDisplay: "code"', 'style: "%s"' % r.choice(["foo", ""]), 'type: "foo"', "unknown: 1", "number: 1"])

    def doption(self):
        return self.r.choice(['dateStyle: "%s"' % s for s in values.STYLES + ["foo"]] + ['timeStyle: "%s"' % s for s in values.STYLES + ["foo"]]
                             + ['timeZone: "%s"' % s for s in values.TZS[1:] + ["No/Where"]] + ['weekday: "long"', "hour12: 1", "foo: 1", "dt: 1"])

    def options(self, f):
        out = {}
        for _ in range(self.r.choice([0, 1, 1, 2, 3])):
            o = f()
            out[o.split(":")[0]] = o
        return list(out.values())

    def call(self, d):
        f = "NOSUCH" if self.ch(self.unknown) else self.r.choice(self.funs)
        if f == "NUMBER" and self.ch(0.85):
            items = [self.r.choice(["$x", "$y", self.r.choice(self.lits), self.inline(d - 1)])] + self.options(self.option)
        elif f == "DATETIME" and self.ch(0.85):
            items = [self.r.choice(["$x", "$y", "$z", self.inline(d - 1)])] + self.options(self.doption)
        else:
            items = [self.inline(d - 1) for _ in range(self.r.choice([0, 1, 1, 2, 3]))] + self.named(["k", "x", "number", "y", "k-k", "k_k"])
        return "%s(%s)" % (f, ", ".join(items))

    def inline(self, d):
        w = dict(self.w)
        w.pop("text"), w.pop("select")
        if d <= 0:
            for k in ("fun", "nest"):
                w[k] = 0
        k = self.pick(w)
        r = self.r
        if k == "string":
            return self.string()
        if k == "number":
            return r.choice(self.lits)
        if k == "var":
            return "$" + r.choice(self.vars)
        if k == "msg":
            n = "nosuch" if self.ch(self.unknown) else self.ref(self.msgs)
            return n + ("." + ("none" if self.ch(self.unknown) else r.choice(self.attrs)) if self.ch(0.25) else "")
        if k == "term":
            n = "nosuch" if self.ch(self.unknown) else self.ref(self.terms)
            s = "-" + n
            if self.ch(0.55):
                items = ([self.inline(d - 1)] if self.ch(0.2) else []) + self.named()
                s += "(%s)" % ", ".join(items)
            return s
        if k == "fun":
            return self.call(d)
        return self.placeable(d - 1)

    def ref(self, pool):
        """A reference target; acyclic resources only refer to later ids."""
        if not self.acyclic:
            return self.r.choice(pool)
        later = [x for x in pool if (self.order(x, pool is self.terms)) > self.level]
        return self.r.choice(later) if later else "nosuch"

    def order(self, name, term):
        return (100 + self.terms.index(name)) if term else self.msgs.index(name)

    def select(self, d):
        r = self.r
        sel = r.choice(["$" + r.choice(self.vars), "$x", "$y", r.choice(self.lits), self.string(), "-%s.%s" % (self.ref(self.terms), r.choice(self.attrs + ["none"])),
                        self.call(d), "NUMBER($x, type: \"ordinal\")", "NUMBER($x)"] + ["-%s.%s(%s)" % (self.ref(self.terms), r.choice(self.attrs), ", ".join(self.named()))])
        n = r.choice([1, 2, 3, 4, 5])
        default = r.randrange(n)
        out = "{ " + sel + " ->\n"
        for i in range(n):
            key = r.choice(self.lits) if self.ch(0.4) else r.choice(self.keys)
            out += "    " + ("*" if i == default else "") + "[" + key + "] " + self.pattern(d - 1, flat=True) + "\n"
        return out + "    }"

    def placeable(self, d):
        if d > 0 and self.ch(self.w["select"] / (self.w["select"] + 8.0)):
            return self.select(d)
        return "{ " + self.inline(d) + " }"

    def pattern(self, d, flat=False):
        n = self.r.choice([1, 1, 1, 2, 2, 3])
        out = ""
        for _ in range(n):
            k = self.pick({"text": self.w["text"], "p": sum(v for a, v in self.w.items() if a != "text") * 0.6})
            out += self.text() if k == "text" or d <= 0 and self.ch(0.3) else self.placeable(max(d, 0))
        return '{""}' + out if out[0] in ".[*}" or out[0] == " " else out

    def bounded(self, make, limit):
        """make() of limited length: with less nesting if need be."""
        depth = self.maxdepth
        for i in range(12):
            s = make()
            if len(s) <= limit:
                break
            if i % 3 == 2:
                self.maxdepth = max(1, self.maxdepth - 1)
        self.maxdepth = depth
        return s

    def message(self, name):
        return self.bounded(lambda: self.message_(name), 400)

    def term(self, name):
        return self.bounded(lambda: self.term_(name), 300)

    def message_(self, name):
        self.level = self.msgs.index(name)
        s = name + " ="
        attrs = [a for a in self.attrs + self.attrs[:1] if self.ch(0.3)]
        if not (attrs and self.ch(0.25)):
            s += " " + self.pattern(self.maxdepth)
        for a in attrs:
            s += "\n    .%s = %s" % (a, self.pattern(self.maxdepth - 1))
        return s + "\n"

    def term_(self, name):
        self.level = 100 + self.terms.index(name)
        s = "-" + name + " = " + self.pattern(self.maxdepth)
        for a in self.attrs + self.attrs[:1]:
            if self.ch(0.35):
                s += "\n    .%s = %s" % (a, self.r.choice([self.pattern(1), "one", "x", "a"]))
        return s + "\n"

    def resource(self, everything=True, n=4):
        out = []
        if everything:
            out = [self.message(m) for m in self.msgs if not self.ch(0.1)] + [self.term(t) for t in self.terms if not self.ch(0.1)]
            self.r.shuffle(out)
        else:
            for _ in range(self.r.randrange(1, n + 1)):
                out.append(self.message(self.r.choice(self.msgs)) if self.ch(0.7) else self.term(self.r.choice(self.terms)))
        if self.ch(0.2):
            out.insert(self.r.randrange(len(out) + 1), self.r.choice(["# c\n", "## c\n", "### c\n", "\n"]))
        return "".join(out)

    # ---- values

    def number(self):
        r = self.r
        k = r.random() * self.hard
        if k < 0.08:
            # around powers of two and of ten, and around the numbers the code has
            ints = [2**53, 2**31, 2**32, 2**63, 2**64, 10**9, 10**15, 10**17, 255, 256, 9, 10, 99, 1000] + [x for x in mined()[1] if abs(x) < 10**18]
            return {"py": r.choice(["int", "int", "dec"]), "v": str(r.choice([1, 1, 1, -1]) * (r.choice(ints) + r.choice([-1, 0, 1])))}
        if k < 0.12:
            return {"py": r.choice(["float", "float", "dec"]), "v": r.choice(["0.30000000000000004", "0.3", "0.1", "1e-07", "123456.789", "99.995", "0.001", "1.0000000000000002", "2.675", "4503599627370495.5", "0.9999999999999999", "-0.1", "100000000000000.0", "3.14159"])}
        if k < 0.5:
            return {"py": "int", "v": str(r.choice([0, 1, 2, 3, 5, 7, 11, 12, 20, 21, 100, 101, 1000, 1000000, 12345678, -1, -2, r.randrange(200)]))}
        if k < 0.75:
            return {"py": "float", "v": r.choice(["0.0", "1.0", "1.5", "0.5", "2.25", "-1.5", "1000000.0", "0.05", "1234.5678", "-0.0", "0.1", "21.0"])}
        if k < 0.95:
            return {"py": "dec", "v": r.choice(["0", "1", "1.0", "1.50", "2", "0.5", "-1", "1E+3", "11", "0.25", "1.00", "3.10", "100000"])}
        return {"py": "bool", "v": self.ch(0.5)}

    def option_values(self):
        r = self.r
        i = lambda *a: {"py": "int", "v": str(r.choice(a))}
        s = lambda *a: {"py": "str", "v": cp(r.choice(a))}
        all_ = [["minimumFractionDigits", i(0, 1, 2)], ["maximumFractionDigits", i(2, 3, 5)], ["minimumIntegerDigits", i(1, 2, 5)], ["useGrouping", {"py": "bool", "v": self.ch(0.5)}],
                ["type", s("ordinal", "cardinal")], ["currency", s("USD", "EUR")], ["currencyDisplay", s("code", "symbol")], ["style", s("percent", "decimal")]]
        return r.sample(all_, r.choice([0, 1, 2, 3]))

    def date(self):
        r = self.r
        if self.ch(0.4):
            d = {"py": "date", "v": r.choice([[2024, 2, 29], [1999, 12, 31], [2018, 10, 1]])}
            if self.ch(0.3):
                d["opts"] = [["dateStyle", {"py": "str", "v": cp(r.choice(values.STYLES))}]]
            return d
        d = {"py": "datetime", "v": r.choice([[2024, 2, 29, 23, 30, 15, 7], [2023, 10, 29, 2, 30], [2018, 7, 1, 0, 0, 59], [2018, 1, 1, 12, 5]]),
             "tz": r.choice(["", "", "Europe/Berlin", "America/New_York", "UTC"]), "fold": r.choice([0, 0, 1])}
        if self.ch(0.3):
            d["opts"] = r.sample([["dateStyle", {"py": "str", "v": cp(r.choice(values.STYLES))}], ["timeStyle", {"py": "str", "v": cp(r.choice(values.STYLES))}],
                                  ["timeZone", {"py": "str", "v": cp(r.choice(values.TZS[1:]))}]], r.choice([1, 2, 3]))
        return d

    def value(self, kinds=(("num", 5), ("str", 4), ("date", 1), ("obj", 1), ("none", 1))):
        k = self.pick(dict(kinds))
        r = self.r
        if k == "num":
            v = self.number()
            if self.ch(0.3):
                v["opts"] = self.option_values()
            return v
        if k == "str":
            if self.ch(0.02):
                return {"py": "str", "v": cp("s" * r.choice([2498, 2499, 2500, 2501]))}
            return {"py": "str", "v": cp(r.choice(["", "s", "one", "other", "two", "a", "x", "1", "1.5", "\u2068", "{", "few", "é"]))}
        if k == "date":
            return self.date()
        if k == "none":
            return {"py": "none", "v": cp(r.choice(["", "q", "x"]))}
        return {"py": "obj", "v": r.choice(["NoneType", "list", "bytes", "dict", "Thing", "tuple", "time", "complex", "set"])}

    def twin(self, v):
        """The same number, or an equal one, as another kind of value."""
        import decimal

        if v["py"] not in ("int", "float", "dec", "bool"):
            return v
        x = decimal.Decimal(int(v["v"]) if v["py"] == "bool" else v["v"])
        if abs(x) >= 10 ** 15:
            return v
        out = [{"py": "dec", "v": str(x)}, {"py": "dec", "v": str(x) + (".0" if "." not in str(x) else "0")}] if "E" not in str(x) else []
        if float(x) == x:
            out += [{"py": "float", "v": repr(float(x))}] * 2
        if int(x) == x:
            out += [{"py": "int", "v": str(int(x))}, {"py": "dec", "v": str(int(x))}, {"py": "dec", "v": str(int(x)) + ".00"}]
        if x in (0, 1):
            out.append({"py": "bool", "v": bool(x)})
        if x == 0:
            out.append({"py": "float", "v": "-0.0"})
        t = dict(self.r.choice(out or [v]))
        if self.ch(0.2):
            t["opts"] = v.get("opts") or self.option_values()
        elif "opts" in v and self.ch(0.7):
            t["opts"] = v["opts"]
        return t

    def twins(self, args):
        return [[n, self.twin(v)] for n, v in args]

    def args(self, **k):
        out = []
        for n in self.vars[:-1]:
            if not self.ch(0.15):
                out.append([cp(n), self.twin(out[-1][1]) if out and self.ch(0.2) else self.value(**k)])
        return out

    def functions(self, extra=()):
        r = self.r
        fs = {"ARG": {"do": "arg", "i": r.choice([1, 1, 2])}, "KW": {"do": "kw", "name": cp("k")},
              "STR": {"do": "const", "v": {"py": "str", "v": cp(r.choice(["one", "s", "x", "", "few"]))}},
              "NONE": {"do": "const", "v": {"py": "none", "v": cp(r.choice(["", "nn", "NONE()"]))}},
              "FAIL": {"do": "raise", "cls": r.choice(["RuntimeError", "ValueError", "TypeError", "KeyError", "Custom", "LookupError", "AttributeError", "ZeroDivisionError", "StopIteration", "AssertionError", "OSError", "RecursionError"]),
                       "msg": r.choice(["boom", "", "x y"]), "same": self.ch(0.4)},
              "VAL": {"do": "const", "v": self.value((("num", 4), ("date", 2), ("str", 1)))},
              "RAW": {"do": "const", "v": self.value((("obj", 3), ("num", 2)))}}
        if "INNER" in self.funs:
            fs["INNER"] = {"do": "given", "id": cp(r.choice(self.msgs))}
        if self.ch(0.15):
            fs["NUMBER"] = r.choice([fs["STR"], fs["FAIL"], fs["ARG"]])
        if self.ch(0.1):
            fs["DATETIME"] = r.choice([fs["STR"], fs["ARG"]])
        return [[cp(n), dict(f, false=True) if self.ch(0.15) else f] for n, f in fs.items()]

    def bundle(self, iso=None, locs=None):
        l = [self.r.choice(values.LOCALES)] if locs is None else locs
        return {"locs": l, "iso": self.ch(0.5) if iso is None else iso, "funs": self.functions()}

    # ---- histories

    def once(self, src, bundle, nargs=1, **k):
        """Add, then format everything, with each set of arguments."""
        ops = [{"op": "add", "b": 1, "r": 1, "over": False}]
        args = [self.args(**k) for _ in range(nargs)]
        if nargs > 1 and self.ch(0.4):
            args[-1] = self.twins(args[0])
        for i, m in enumerate(self.msgs):
            ops.append({"op": "get", "b": 1, "id": cp(m)})
        for i in range(len(self.msgs)):
            for a in [""] + (self.attrs if self.ch(0.4) else []):
                ops.append({"op": "fmt", "h": i + 1, "attr": cp(a), "args": self.r.randrange(0 if self.ch(0.1) else 1, nargs + 1)})
        ops.append({"op": "end"})
        return {"src": [cp(src)], "bundles": [bundle], "args": args, "ops": ops}

    def history(self, nb=2, nr=3, nops=14):
        r = self.r
        src = [cp(self.resource(everything=i == 0 and self.ch(0.5))) for i in range(nr)]
        bundles = [self.bundle() for _ in range(nb)]
        if nb > 1 and self.ch(0.6):
            bundles[1]["funs"] = bundles[0]["funs"]
        args = [self.args() for _ in range(2)]
        if self.ch(0.4):
            args[1] = self.twins(args[0])
        ops, h, held, added = [], 0, [], {}
        for _ in range(nops):
            b = r.randrange(nb) + 1
            k = r.random()
            if k < 0.3 or not added.get(b):
                i = r.randrange(nr) + 1
                over = self.ch(0.5) and i not in added.get(b, [])
                ops.append({"op": "add", "b": b, "r": i, "over": over})
                added.setdefault(b, []).append(i)
            elif k < 0.36:
                ops.append({"op": "has", "b": b, "id": cp(r.choice(self.msgs + self.terms + ["nosuch", "-t", "", "m.a"]))})
            elif k < 0.6 or not held:
                h += 1
                held.append(h)
                ops.append({"op": "get", "b": b, "id": cp(r.choice(self.msgs + (self.terms + ["nosuch", "-t", "m.a"] if self.ch(0.15) else [])))})
            if held and k > 0.36:
                ops.append({"op": "fmt", "h": r.choice(held), "attr": cp(r.choice(["", "", "", "a", "b"])), "args": r.randrange(0, 3)})
                if self.ch(0.2):
                    ops.append(dict(ops[-1]))
        ops.append({"op": "end"})
        return {"src": src, "bundles": bundles, "args": args, "ops": ops}
