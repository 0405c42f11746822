"""Generators of FTL texts: valid, nearly valid, and broken."""
import ast as pyast
import glob
import os

from common import REPO, VERIF

LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
ODD = ["\u2028", "\u2029", "\x85", "\x0b", "\x0c", "\x1c", "\x1d", "\x1e", "\t", "\xa0", "\r", "\ufeff", "é", "日", "\U0001f600",
       "\u0301", "\x00", "\x7f", "\u200b", "\u2068", "\u2069", "ß", "Ā", "٣", "²", "Ⅷ", "\ud800", "\U0010ffff", "µ", "“"]
PUNCT = list("!#$%&'()*+,-./:;<=>?@[\\]^_`|~\"")


_mined = None


def mined():
    """Constants in the code under test: candidates for inputs that make it
    take a branch.  They only widen the choice of inputs."""
    global _mined
    if _mined is not None:
        return _mined
    strs, ints = set(), set()
    for f in sorted(glob.glob(os.path.join(REPO, "fluent.*/fluent/**/*.py"), recursive=True)):
        try:
            tree = pyast.parse(open(f, encoding="utf8").read())
        except (SyntaxError, UnicodeDecodeError):
            continue
        docs = set()
        for n in pyast.walk(tree):
            if isinstance(n, pyast.Expr) and isinstance(n.value, pyast.Constant):
                docs.add(id(n.value))
        for n in pyast.walk(tree):
            if isinstance(n, pyast.Constant) and id(n) not in docs:
                if isinstance(n.value, str) and 0 < len(n.value) <= 40:
                    strs.add(n.value)
                elif isinstance(n.value, (int, float)) and not isinstance(n.value, bool) and 0 <= n.value <= 100000:
                    ints.add(int(n.value))
    _mined = (sorted(strs), sorted(ints))
    return _mined


def corpus():
    out = []
    for f in sorted(glob.glob(os.path.join(VERIF, "harness", "corpus", "*.ftl"))):
        with open(f, encoding="utf8", newline="") as fh:
            out.append(fh.read())
    return out


class G:
    """Random FTL by the grammar.  junk: probability of deliberate errors."""

    def __init__(self, rng, crlf=0.0, odd=0.1, junk=0.0, depth=3, lone_cr=True):
        self.r = rng
        self.crlf = crlf
        self.odd = odd
        self.junk = junk
        self.maxdepth = depth
        self.lone_cr = lone_cr
        self.names = ["a", "b", "foo", "key1", "k-2", "a_b", "Ab", "one", "other", "x"]
        strs, ints = mined()
        self.words = [s for s in strs if "\n" not in s and "{" not in s and "}" not in s]
        self.ints = [i for i in ints if 2 < i <= 130] or [8]

    def ch(self, p):
        return self.r.random() < p

    def nl(self):
        return "\r\n" if self.ch(self.crlf) else "\n"

    def sp(self):
        return self.r.choice(["", "", " ", " ", "  ", "    "])

    def sp1(self):
        return self.r.choice([" ", " ", "  ", "    ", "     "])

    def blank(self):
        k = self.r.random()
        if k < 0.45:
            return self.sp()
        out = ""
        for _ in range(self.r.randrange(1, 3)):
            out += self.sp() + self.nl()
        return out + self.sp()

    def blank_lines(self):
        return "".join(self.sp() + self.nl() for _ in range(self.r.choice([0, 0, 0, 1, 1, 2])))

    def ident(self):
        if self.ch(0.7):
            return self.r.choice(self.names)
        if self.ch(0.03):
            return self.r.choice(LETTERS) * (self.r.choice(self.ints) + self.r.choice([-1, 0, 1]))
        return self.r.choice(LETTERS) + "".join(self.r.choice(LETTERS + "0123456789_-") for _ in range(self.r.randrange(6)))

    def func(self):
        return self.r.choice(["F", "NUMBER", "DATETIME", "FOO-BAR", "A_1", "G2"])

    def number(self):
        r = self.r
        s = r.choice(["", "", "", "-"]) + r.choice(["0", "1", "2", "42", "007", "1000", str(r.randrange(100)), "9%d" % r.randrange(10)])
        return s + (r.choice([".0", ".5", ".25", ".10", ".000"]) if self.ch(0.3) else "")

    def oddchar(self):
        c = self.r.choice(ODD)
        return "" if c == "\r" and not self.lone_cr else c

    def text(self, first=False):
        """Inline text: no braces, no line ends."""
        r = self.r
        n = r.choice([1, 1, 2, 3, 5, 9])
        if self.ch(0.02):
            n = r.choice(self.ints)
        out = []
        for _ in range(n):
            k = r.random()
            if k < 0.55:
                out.append(r.choice(LETTERS + "0123456789"))
            elif k < 0.75:
                out.append(" ")
            elif k < 0.75 + self.odd:
                out.append(self.oddchar())
            elif k < 0.98:
                out.append(r.choice(PUNCT))
            else:
                out.append(r.choice(self.words or ["w"]))
        s = "".join(out).replace("\n", " ").replace("{", "(").replace("}", ")")
        if s[-1:] == "\r":
            s += "."
        return s or "x"

    def string(self):
        r = self.r
        out = ""
        for _ in range(r.choice([0, 1, 2, 4])):
            out += r.choice(["a", "b ", " ", "{", "}", "\\\\", '\\"', "\\u00e9", "\\u0041", "\\U01F600", "\\uD800", "\\U10FFFF", "\\U110000", "\\\\u0041",
                             "x", self.text().replace('"', "'").replace("\\", "/"), self.oddchar()])
        if out[-1:] == "\r":
            out += "."
        return '"' + out + '"'

    def inline(self, d):
        r = self.r
        k = r.randrange(100)
        if k < 14:
            return self.string()
        if k < 24:
            return self.number()
        if k < 44:
            return "$" + self.ident()
        if k < 58:
            return self.ident() + ("." + self.ident() if self.ch(0.3) else "")
        if k < 72:
            return "-" + self.ident() + (self.args(d) if self.ch(0.4) else "")
        if k < 90 and d > 0:
            return self.func() + self.args(d)
        if d > 0:
            return self.placeable(d - 1)
        return "$" + self.ident()

    def args(self, d):
        r = self.r
        pos = [self.inline(d - 1) for _ in range(r.choice([0, 1, 1, 2]))] if d > 0 else []
        names, named = set(), []
        for _ in range(r.choice([0, 0, 1, 2])):
            n = self.ident()
            if n in names and self.junk == 0:
                continue
            names.add(n)
            named.append(n + self.blank() + ":" + self.blank() + (self.string() if self.ch(0.5) else self.number()))
        items = pos + named
        if self.junk and self.ch(0.05):
            r.shuffle(items)
        s = (self.blank() + "," + self.blank()).join(items)
        if items and self.ch(0.15):
            s += self.blank() + ","
        return (self.blank() if self.ch(0.2) else "") + "(" + self.blank() + s + self.blank() + ")"

    def select(self, d):
        r = self.r
        sel = r.choice(["$" + self.ident(), "$" + self.ident(), self.number(), self.string(), "-" + self.ident() + "." + self.ident(),
                        "-" + self.ident() + "." + self.ident() + self.args(d), self.func() + self.args(d)])
        n = r.choice([1, 2, 2, 3, 4])
        default = r.randrange(n)
        out = sel + self.blank() + "->" + self.sp() + self.nl()
        for i in range(n):
            key = self.number() if self.ch(0.3) else self.r.choice(["one", "other", "few", self.ident()])
            out += self.blank() + ("*" if i == default else "") + "[" + self.blank() + key + self.blank() + "]"
            out += self.pattern(d - 1, 1) + self.nl()
        return out + self.blank()

    def placeable(self, d):
        if d > 0 and self.ch(0.3):
            return "{" + self.blank() + self.select(d) + "}"
        return "{" + self.blank() + self.inline(d) + self.blank() + "}"

    def line(self, d, start=True):
        """Non-empty content of one line (placeables may contain line ends)."""
        r = self.r
        out = ""
        for i in range(r.choice([1, 1, 1, 2, 3])):
            if d > 0 and self.ch(0.35):
                out += self.placeable(d - 1)
            else:
                out += self.text()
        if start:
            out = out.lstrip(" ")
            while out and out[0] in "[.*}" :
                out = out[1:].lstrip(" ")
        return out.rstrip("\r") or "x"

    def pattern(self, d, level=0):
        """What follows '=' or ']'; always has a value."""
        r = self.r
        k = r.random()
        if k < 0.5:
            return self.sp() + self.line(d, start=False)
        out = self.sp()
        if k < 0.7:
            out += self.line(d, start=False)
        n = r.choice([1, 1, 2, 3])
        for _ in range(n):
            out += self.nl() + self.blank_lines() + self.sp1() + self.line(d)
        if self.ch(0.2):
            out += self.sp()
        return out

    def comment(self):
        r = self.r
        sig = r.choice(["#", "#", "##", "###"])
        lines = []
        for _ in range(r.choice([1, 1, 2, 3])):
            k = r.random()
            lines.append(sig if k < 0.2 else sig + " " + ("" if k < 0.25 else self.text() + (r.choice(["{", "}", "#", ""]))))
        return self.nl().join(x.rstrip("\r") for x in lines) + self.nl()

    def attribute(self, d):
        return self.nl() + self.blank_lines() + self.sp() + "." + self.ident() + self.sp() + "=" + self.pattern(d)

    def entry(self):
        r = self.r
        d = r.randrange(self.maxdepth + 1)
        if self.junk and self.ch(self.junk):
            return self.broken()
        k = r.random()
        if k < 0.2:
            return self.comment()
        attrs = "".join(self.attribute(d) for _ in range(r.choice([0, 0, 0, 1, 2])))
        c = self.comment() if self.ch(0.15) else ""
        if k < 0.4:
            return c + "-" + self.ident() + self.sp() + "=" + self.pattern(d) + attrs + self.nl()
        if self.ch(0.1):
            return c + self.ident() + self.sp() + "=" + self.sp() + (attrs or self.attribute(d)) + self.nl()
        return c + self.ident() + self.sp() + "=" + self.pattern(d) + attrs + self.nl()

    def broken(self):
        r = self.r
        t = r.choice([
            "err", "err =", "-t =", "=", "a = {", "a = }", "a = {$}", "a = {-b.c}", "a = {b ->\n *[x] y\n}", "a = {$b ->}", "a = {$b ->\n [x] y\n}",
            "a = {$b ->\n *[x] y\n *[z] w\n}", 'a = {"', 'a = {"\\x"}', 'a = {"\\u12G4"}', 'a = {"\\U12345"}', "a = {f()}", "a = {F(1 2)}", "a = {F(a: 1, 2)}",
            "a = {F(a: 1, a: 2)}", "a = {F(a: $b)}", "a = {1.}", "a = {-}", "a = {1 ->\n *[-] x\n}", "a = {{1} ->\n *[x] y\n}", "a = x\n  .b", "a = x\n  .b =", "a =\n.b",
            "// old", "[[ section ]]", "#bad", "####", "  a = b", "a b = c", "1a = b", "é = x", "a = {b.c ->\n *[x] y\n}", "a = {$b ->\n  *[x]\n}", "a = {-b ->\n *[x] y\n}", "a = x\n  y\n }",
            "a = {$b ->\n *[x] y }", "a = {F(}", "a = {b.}", "a. = c", "-a.b = c", "a = {-b[c]}", "a = {F.a(1)}", "a = {$b.c}", "a = { b.c(1) }", "a = {F(1)", "a = {F(b.c: 1)}", 'a = {F("b": 1)}',
        ])
        t = t.replace("\n", self.nl())
        if self.ch(0.3):
            t += " " + self.line(1)
        return t + self.nl() + ("" if self.ch(0.7) else self.sp() + self.line(1) + self.nl())

    def resource(self, n=None):
        r = self.r
        out = self.blank_lines()
        for _ in range(n if n is not None else r.choice([1, 1, 2, 3, 4])):
            out += self.entry() + self.blank_lines()
        k = r.random()
        if k < 0.25:
            out = out.rstrip("\r\n ")
        elif k < 0.3:
            out += self.sp1()
        return out


TOKENS = ["a", "b = x", "-t = y", "=", " ", "  ", "    ", "\n", "\r\n", "\n ", "\n    ", "{", "}", "{ ", " }", "$v", "-t", "-t.a", "a.b", ".", ".at = ", "[", "[[", "]", "*", "*[o]", "[1]", "->",
          "\"", "\"s\"", "\\", "\\u0041", "(", ")", ",", ":", "F(", "#", "##", "###", "# c", "//", "1", "1.5", "-1", ".5", "é", "\r", "\t", "{\"\"}", "{ $v ->\n *[o] p\n}", "\u2028", "\U0001f600"]


def mutate(rng, t, n=None):
    for _ in range(n or rng.choice([1, 1, 1, 2, 3])):
        k = rng.randrange(12)
        i = rng.randrange(len(t) + 1)
        if k < 3:
            t = t[:i] + rng.choice(TOKENS) + t[i:]
        elif k < 5:
            t = t[:i] + t[i + rng.choice([1, 1, 1, 2, 4]):]
        elif k == 5:
            t = t[:i] + rng.choice(TOKENS) + t[i + 1:]
        elif k == 6:
            t = t[:i]
        elif k == 7:
            j = min(len(t), i + rng.randrange(1, 20))
            t = t[:j] + t[i:j] + t[j:]
        elif k == 8:
            ls = t.split("\n")
            if len(ls) > 1:
                a, b = rng.randrange(len(ls)), rng.randrange(len(ls))
                ls[a], ls[b] = ls[b], ls[a]
                t = "\n".join(ls)
        elif k == 9:
            t = t.replace("\n", "\r\n", rng.choice([1, 2, -1]))
        elif k == 10:
            ls = t.split("\n")
            a = rng.randrange(len(ls))
            ls[a] = rng.choice([" ", "  ", "    ", ""]) + ls[a].lstrip(" ")
            t = "\n".join(ls)
        else:
            strs, _ = mined()
            t = t[:i] + rng.choice(strs or ["x"]) + t[i:]
    return t


# Characters like another one, but of another class
ALIKE = {
    "0": "٠０₀", "1": "١１²①߁", "2": "２٢²", "9": "９", "5": "٥५", "4": "４", "a": "éａªаA_", "b": "ｂßБ", "x": "ｘ×", "F": "ＦÉfΦ", "A": "ＡА",
    "\n": ["\r", "\x0b", "\x0c", "\x1c", "\x85", "\u2028", "\u2029", "\r\n", "\n\r", "\n\n", "\r\r\n"], " ": "\xa0\t\u3000\u2003\u200b\ufeff\r\x00", "-": "‐−–_", "{": "｛[(", "}": "｝])", "[": "［{", "]": "］}",
    "=": "＝:≠", ".": "．,·", "$": "＄€", '"': "“'＂", "\\": "＼/", "#": "＃♯", "*": "＊×+", ">": "＞≥", "(": "（", ")": "）", ",": "，،;", ":": "：;=",
}
# Every production, in few characters
SEEDS = ["a = b", "a = b\n c\n  d", "-t = b\n .x = y", "a =\n .x = y\n .z = { $v }", "# c\n#\n# d\na = b", "## g\n\n### r\n# c\n", "a = { $v ->\n [one] x\n *[2.5] y\n }", "a = { -t.b(x: -1.5) ->\n*[o] p}",
         'a = { F(1, "s", $v, m.a, -t, {2}, n: 12, o: "p") }', 'a = {"\\\\ \\" \\u00e9 \\U01F60A"}', "a = {m} {m.x} { -t } {-t()} {F()}", "a = x { $v }\n   { $w }\n\n  y", "a = b\nc d\n\n// x\ne = f\n[[ s\ng = h",
         "a = {{{1}}} {\n$v\n}", "a = { 12 ->\n[-3] x\n[a-1_b] y\n  z\n*[o]\n   q\n} r", "a={G-1_X( $a , b : 10 )}", "a = { $v ->\n *[o] { $w ->\n [1] i\n *[p] j\n }\n }"]
EDITS = list("ab1F \n\t\r{}[]()$-\"\\#=.*,:>_") + ["\r\n", "٣", "²", "é", "ª", "\xa0", "\u2028", "\x0c", "\ufeff", "\U0001f600", "->", "##", "{\"\"}"]


def neighbours():
    """All single edits of the seeds."""
    out = []
    for t in SEEDS:
        out.append(t)
        for i in range(len(t) + 1):
            out += [t[:i] + e + t[i:] for e in EDITS]
            if i < len(t):
                out.append(t[:i] + t[i + 1:])
                out += [t[:i] + e + t[i + 1:] for e in EDITS]
                out += [t[:i] + e + t[i + 1:] for e in ALIKE.get(t[i], "")]
                out += [t[:i] + e + t[i + 1:] for e in "/:09@AZ[`az{FGfg" if t[i].isalnum()]   # where the classes end
                out.append(t[:i])
                if i + 1 < len(t):
                    out.append(t[:i] + t[i + 1] + t[i] + t[i + 2:])
    return sorted(set(out))


def lookalikes():
    """The seeds with one character made, or followed by, one of another class that looks or counts like it."""
    out = set()
    for t in SEEDS:
        for i, c in enumerate(t):
            for e in ALIKE.get(c, ""):
                out.add(t[:i] + e + t[i + 1:])
            for e in "٣²१" if c.isdigit() else "éª٣" if c.isalpha() else "":
                out.add(t[:i + 1] + e + t[i + 1:])
    return sorted(out)


INLINE = ['"s"', "1", "-1.5", "$v", "m", "m.a", "-t", "-t.a", "-t()", "-t(x: 1)", "-t.a(1)", "F()", "f()", "F(1)", "Fo(1)", "{1}", "{$v}", "{ $v ->\n *[o] x\n }", "", "N", "-", "$", "m.", "F (1)", "-t (1)", "-t\n(1)", "F\n()", "m.a()", "F.a", "1.", ".5", "$v.a", "$v()", "-T-1.a_b"]


def expressions():
    """Every inline expression in every place, and pairs of arguments."""
    out = []
    for x in INLINE:
        for c in ("{X}", "{ X }", "{\nX\n}", "{X ->\n*[o] p\n}", "{ X->\n [1] q\n*[o] p}", "{ X -> *[o] p\n}", "{X\n->\n*[o] p}", "{F(X)}", "{F( X , )}", "{F(X,)}", "{F(,X)}", "{F(X,,)}", "{F(X X)}", "{F(n: X)}", "{F(n:X, X)}", "{F(n\n:\nX)}", "{F(X: 1)}",
                  "{F(X :1)}", "{-t(X)}", "{-t(X, n: X)}", "{-t.a(X) ->\n*[o] p}", "{{X}}", "{ {X} ->\n*[o] p\n}", "{$v ->\n*[X] p\n}", "{$v ->\n*[ X ] p\n}", "{$v ->\n [X] q\n*[o] {X}\n}", "{$v ->\n*[o] {X}}", "{$v ->\n*[o]\nX\n}", "{\"{X}\"}", "{X X}", "{X}{X}", "{X.b}", "{X-}",
                  "{X - > }", "{X}\n.b = {X}", "{X}\n {X}", "\n .b = {X}"):
            out.append("a = " + c.replace("X", x))
    args = [x for x in INLINE if x not in ("$", "-", "m.", "1.", ".5")][:24] + ["n: 1", 'o: "s"', "n: $v", "n : -2", "n: {1}", "m: 1"]
    for x in args:
        for y in args:
            out.append("a = {F(%s, %s)}" % (x, y))
            out.append("a = {-t(%s ,%s,)}" % (x, y) if len(x) + len(y) < 9 else "a = {F(n: 1, %s, %s)}" % (x, y))
    return sorted(set(out))


def escapes():
    """Escape sequences with characters at the edges of the classes of digits, in every place."""
    out = []
    for u in ("\\u00e9", "\\U01F60A"):
        for i in range(2, len(u) + 1):
            for e in "/09:@AFGZ`afgz{\" \n":
                out += ['a = {"%s"}' % (u[:i] + e + u[i + 1:]), 'a = {"x%sy"}\nb = c' % (u[:i] + e)]
            out.append('a = {"%s"}' % u[:i])
    out += ['a = {"\\%s"}' % c for c in map(chr, range(32, 127))]
    return sorted(set(out))


def sample(rng, xs, n):
    return xs if n >= len(xs) else rng.sample(xs, n)


def snippet(rng, texts):
    ls = rng.choice(texts).split("\n")
    a = rng.randrange(len(ls))
    return "\n".join(ls[a : a + rng.choice([2, 4, 8])])


def fix_crlf(t):
    return t


REPEATS = [3, 5, 8, 9, 10, 12, 16, 17, 20, 26, 32, 33, 40, 50, 64, 65, 80, 100, 101, 128, 129, 200, 256, 257]


def pump(rng, t, limit=700):
    """t with a short piece of it (or a blank line, blank, ...) repeated many times."""
    _, ints = mined()
    i = rng.randrange(len(t) + 1)
    k = rng.random()
    if k < 0.35 and t:
        i = rng.randrange(len(t))
        piece = t[i:i + rng.choice([1, 1, 2, 3])]
    elif k < 0.6:
        lines = t.splitlines(True) or [""]
        j = rng.randrange(len(lines))
        i, piece = len("".join(lines[:j])), lines[j]
    else:
        piece = rng.choice(["\n", " \n", "\r\n", " ", "x", "\n x", "\n\n x", "{ $v }", "{\"\"}", "# c\n", "#\n", "\n .a = b", "n = z\n", "\\\\", "\U0001f600", "0", "\n  { 1 } y"])
        if "\n" in piece or rng.random() < 0.5:
            ends = [j for j, c in enumerate(t) if c == "\n"]
            if ends:
                i = rng.choice(ends) + rng.choice([0, 1])
    n = rng.choice(REPEATS + [x for x in ints if 2 <= x <= 600])
    if piece.count("{") != piece.count("}"):
        n = min(n, 20)
    n = max(2, min(n, (limit - len(t)) // max(1, len(piece))))
    return t[:i] + piece * n + t[i:]


def texts(rng, n, kinds=None, lone_cr=True, maxlen=1500):
    """n texts of the given mixture of kinds."""
    kinds = kinds or {"valid": 3, "pumped": 0.3, "crlf": 1, "junk": 2, "mutated": 3, "fixture": 1, "tokens": 2}
    names, weights = list(kinds), list(kinds.values())
    base = corpus()
    out = []
    while len(out) < n:
        k = rng.choices(names, weights)[0]
        if k == "valid":
            t = G(rng, odd=rng.choice([0, 0.1]), lone_cr=lone_cr).resource()
        elif k == "deep":
            t = G(rng, odd=0.02, depth=6, lone_cr=lone_cr).resource(1)
        elif k == "crlf":
            t = G(rng, crlf=rng.choice([1.0, 0.5]), lone_cr=lone_cr).resource()
        elif k == "junk":
            t = G(rng, junk=0.5, crlf=rng.choice([0, 0, 0.3]), lone_cr=lone_cr).resource()
        elif k == "mutated":
            t = mutate(rng, G(rng, junk=0.1, crlf=rng.choice([0, 0, 0.3]), lone_cr=lone_cr).resource())
        elif k == "alike":
            t = G(rng, odd=0, crlf=rng.choice([0, 0, 0.5]), lone_cr=lone_cr).resource(rng.choice([1, 2]))
            at = [i for i, c in enumerate(t) if c in ALIKE]
            for i in sorted(rng.sample(at, min(len(at), rng.choice([1, 1, 2, 4]))), reverse=True):
                t = t[:i] + rng.choice(ALIKE[t[i]]) + t[i + (rng.random() < 0.8):]
        elif k == "pumped":
            t = rng.choice(SEEDS) if rng.random() < 0.5 else G(rng, odd=0, crlf=rng.choice([0, 0, 0, 1.0]), lone_cr=lone_cr).resource(rng.choice([1, 2]))
            if rng.random() < 0.4:      # far down in a file
                piece = rng.choice(["a=b\n", "a=b\n", "a=b\r\n", "-t=b\n", "a=b\n\n", "#\n\n", "# c\n\n", "x\n", "a={b}\n", "a=b\n -t=c\n", "a=\n b\n .c=d\n"])
                tail = t[:200] if rng.random() < 0.5 else rng.choice(["#", "# c", "a=b", "a={", "a", "x\n#c", "#\na=b", "# c\na=b", "a=b\n .c=d", "a=\n\n  b\n c ", "##", "a={\"\\u", "-t=b\n "])
                reps = rng.choice(REPEATS + [x for x in mined()[1] if 2 <= x <= 600] + [rng.randrange(20, 200)])
                t = piece * max(2, min(reps, 700 // len(piece))) + tail
            else:
                t = pump(rng, t[:300])
        elif k == "fixture":
            t = snippet(rng, base)
            if rng.random() < 0.7 and t:
                t = mutate(rng, t)
        elif k == "tokens":
            t = "".join(rng.choice(TOKENS) for _ in range(rng.choice([1, 2, 3, 4, 6, 9])))
            if rng.random() < 0.6:
                t = rng.choice(["a = ", "-t = ", "a =\n  ", "# ", "a = { $v ->\n", "a = x\n"]) + t
        elif k == "comments":
            g = G(rng, crlf=rng.choice([0, 0, 1.0, 0.5]), odd=0.05)
            t = ""
            for _ in range(rng.choice([2, 3, 4, 5])):
                t += rng.choice([g.comment(), g.comment(), g.comment(), "m = x" + g.nl(), "-t = x" + g.nl(), "m =" + g.nl() + " .a = b" + g.nl(), g.broken(), g.nl(), " " + g.nl(),
                                 "#" + g.nl(), "##" + g.nl(), "#  x " + g.nl(), "#x" + g.nl(), "# # x" + g.nl()])
            if rng.random() < 0.3:
                t = t.rstrip("\r\n")
        elif k == "indents":
            g = G(rng, crlf=rng.choice([0, 0, 1.0, 0.5]), odd=0.02)
            t = rng.choice(["m =", "-t =", "m = x" + g.nl() + " .a =", "m = { $v ->" + g.nl() + " *[o]"]) + rng.choice(["", " "]) + rng.choice(["", "", "t", "{ $v }", "t ", "  t"])
            for _ in range(rng.choice([1, 2, 3, 4, 5])):
                t += g.nl() + rng.choice(["", " ", "  ", "   ", "      "]) + rng.choice(["", "t", "u ", "{ $v }", "{ $v } w", "{\"\"}", "{ $v ->" + g.nl() + "*[o] p" + g.nl() + "}", "x  y", "", "é", "[", ".", "}", "*", "{ $v ->" + g.nl() + " *[o] p" + g.nl() + "   q" + g.nl() + "}"])
            if "$v ->" in t and rng.random() < 0.7:
                t += g.nl() + "}"
            t += rng.choice(["", g.nl(), g.nl() + "n = z"])
            if rng.random() < 0.03:     # a long line
                at = [i for i, c in enumerate(t) if c in "tuvwpqxyé"] or [len(t)]
                i = rng.choice(at)
                t = t[:i] + rng.choice(["t", "xy ", "é", "\U0001f600", "a b"]) * max(1, rng.choice(REPEATS + [x for x in mined()[1] if 2 <= x <= 600]) // rng.choice([1, 1, 2])) + t[i:]
        else:
            raise ValueError(k)
        if len(t) <= maxlen:
            out.append(t)
    return out
