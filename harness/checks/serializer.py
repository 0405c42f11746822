"""C08, C09: the serializer against FluentSerializer (SerializerTrace.tla)."""
import random

from astenc import MAX_DEPTH, depth, enc
from common import cp, guarded, uncp
import ftlgen


def walk(n, cls, out):
    from fluent.syntax import ast

    if isinstance(n, ast.BaseNode):
        if isinstance(n, cls):
            out.append(n)
        for v in vars(n).values():
            walk(v, cls, out)
    elif isinstance(n, (list, tuple)):
        for v in n:
            walk(v, cls, out)
    return out


def edit(res, donor, rng):
    """Edit a parsed resource with parts of another one, within the grammar."""
    from fluent.syntax import ast

    for _ in range(rng.randrange(1, 5)):
        k = rng.randrange(11)
        entries = [e for e in res.body if isinstance(e, (ast.Message, ast.Term))]
        if k == 0:
            rng.shuffle(res.body)
        elif k == 1 and donor.body:
            res.body.insert(rng.randrange(len(res.body) + 1), rng.choice(donor.body).clone())
        elif k == 2:
            mine, theirs = walk(res, (ast.Message, ast.Term, ast.Attribute, ast.Variant), []), walk(donor, ast.Pattern, [])
            if mine and theirs:
                rng.choice(mine).value = rng.choice(theirs).clone()
        elif k == 3:
            mine = walk(res, ast.Placeable, [])
            theirs = [p.expression for p in walk(donor, ast.Placeable, [])]
            if mine and theirs:
                rng.choice(mine).expression = rng.choice(theirs).clone()
        elif k == 4:
            mine = walk(res, ast.SelectExpression, [])
            theirs = [p.selector for p in walk(donor, ast.SelectExpression, [])]
            if mine and theirs:
                rng.choice(mine).selector = rng.choice(theirs).clone()
        elif k == 5 and entries:
            theirs = walk(donor, ast.Attribute, [])
            e = rng.choice(entries)
            if theirs:
                e.attributes = [a.clone() for a in rng.sample(theirs, min(len(theirs), rng.choice([1, 2])))]
            elif e.value:
                e.attributes = []
        elif k == 6 and entries:
            c = [c for c in walk(donor, ast.Comment, [])]
            rng.choice(entries).comment = rng.choice(c).clone() if c else None
        elif k == 8:
            res.body.insert(rng.randrange(len(res.body) + 1), ast.Junk(rng.choice(["", "\n", " ", "\n\n", "junk", "junk\n", "# c", "}\n\n"])))
        elif k == 9:
            kind = rng.choice([ast.Comment, ast.GroupComment, ast.ResourceComment])
            res.body.insert(rng.randrange(len(res.body) + 1), kind(rng.choice(["", "c", "c\n", "\n", "\n\nc", " c ", "# c", "c\n\nd"])))
        elif k == 10:
            mine = walk(res, (ast.StringLiteral, ast.NumberLiteral), [])
            if mine:
                n = rng.choice(mine)
                n.value = rng.choice(["", "a", "\\\\", " ", "{ $x }"] if isinstance(n, ast.StringLiteral) else ["0", "-0", "1.0", "1.50", "00.00", "-007", "12345678901234567890"])
        elif k == 7:
            mine, theirs = walk(res, ast.CallArguments, []), walk(donor, ast.CallArguments, [])
            if mine and theirs:
                m, t = rng.choice(mine), rng.choice(theirs).clone()
                m.positional, m.named = t.positional, t.named


def writable(n):
    if n["t"] in ("TextElement", "Comment", "GroupComment", "ResourceComment"):
        v = n["v"]
        if any(v[i] == 13 and v[i + 1] == 10 for i in range(len(v) - 1)):
            return False
        if n["t"] != "TextElement" and v and v[-1] == 13:
            return False
    if n["t"] == "Pattern" and not n["k"][0]:
        return False
    return all(writable(y) for f in n["k"] for y in f)


def record(inp):
    import fluent.syntax as fs

    src = uncp(inp["src"])
    rec = {"body": [], "text": [], "body2": [], "raised": ""}
    try:
        res = fs.parse(src)
        if inp.get("edit"):
            edit(res, fs.parse(uncp(inp["donor"])), random.Random(inp["edit"]))
        rec["body"] = [enc(e) for e in res.body]
    except Exception:
        return "skip"
    if any(depth(n) > MAX_DEPTH for n in rec["body"]):
        return "skip"
    if not inp.get("known") and not all(writable(n) for n in rec["body"]):
        return "skip"

    def work():
        text = fs.serialize(res)
        rec["text"] = cp(text)
        res2 = fs.parse(text)
        rec["body2"] = [enc(e) for e in res2.body]
        if inp["view"] == "C09":
            s = fs.FluentSerializer(with_junk=True)
            rec["junky"] = cp(s.serialize(res))
            s = fs.FluentSerializer()
            rec["each"] = [cp(s.serialize_entry(e, 1) if i % 2 else s.serialize_entry(e)) for i, e in enumerate(res.body)]
            rec["text2"] = cp(fs.serialize(res2))
            # serializers used before, for something else
            s, j = fs.FluentSerializer(), fs.FluentSerializer(with_junk=True)
            for b in inp["before"]:
                s.serialize(fs.parse(uncp(b)))
                j.serialize(fs.parse(uncp(b)))
            rec["used"] = [cp(s.serialize(res)), cp(s.serialize(res)), cp(j.serialize(res)), cp(j.serialize(res))]
            rec["after"] = [enc(e) for e in res.body]

    for f in ("junky", "each", "text2", "after", "used"):
        rec[f] = []
    _, rec["raised"] = guarded(work)
    if any(depth(n) > MAX_DEPTH for n in rec["body2"]):
        return "skip"
    return rec


def run(ctx):
    rng = ctx.rng
    ctx.model_check("SerializerMC", env={"DEPTH": str(ctx.pick(3, 4))})
    near, exprs = ftlgen.neighbours(), ftlgen.expressions()
    some = ftlgen.sample(rng, exprs, ctx.pick(1500, len(exprs))) + ftlgen.sample(rng, near, ctx.pick(1500, len(near)))
    texts = some + ftlgen.texts(rng, ctx.pick(4000, 50000), {"valid": 5, "pumped": 0.6, "deep": 3, "crlf": 1, "indents": 3, "comments": 2, "fixture": 1, "junk": 1, "mutated": 1})
    ins = []
    for i, t in enumerate(texts):
        x = {"view": ctx.prop, "src": cp(t)}
        if i % 3 == 0:
            x["edit"], x["donor"] = rng.randrange(1, 1 << 30), cp(rng.choice(texts))
        if ctx.prop == "C09":
            x["before"] = [cp(rng.choice(texts)[:150]) for _ in range(rng.choice([1, 1, 2]))]
        ins.append(x)
    ctx.conform("roundtrip", "SerializerTrace", record, ins, env={"VIEW": ctx.prop}, batch=20000,
                show=lambda i: {k: (uncp(v) if k in ("src", "donor") else v) for k, v in i.items()})
    ctx.assumptions = ["no CR directly before a line break in text or comments (known finding)", "AST nesting up to %d" % MAX_DEPTH]
