"""The encoding of AST nodes that the specification uses: see FluentSyntax.tla."""
from common import cp

FIELDS = {
    "Resource": ["body"], "Message": ["id", "value", "attributes", "comment"], "Term": ["id", "value", "attributes", "comment"],
    "Attribute": ["id", "value"], "Pattern": ["elements"], "TextElement": [], "Placeable": ["expression"],
    "StringLiteral": [], "NumberLiteral": [], "Identifier": [], "MessageReference": ["id", "attribute"],
    "TermReference": ["id", "attribute", "arguments"], "VariableReference": ["id"], "FunctionReference": ["id", "arguments"],
    "SelectExpression": ["selector", "variants"], "CallArguments": ["positional", "named"], "NamedArgument": ["name", "value"],
    "Variant": ["key", "value"], "Comment": [], "GroupComment": [], "ResourceComment": [], "Junk": ["annotations"],
}
TEXT = {"TextElement": "value", "StringLiteral": "value", "NumberLiteral": "value", "Identifier": "name",
        "Comment": "content", "GroupComment": "content", "ResourceComment": "content", "Junk": "content"}


def node(t, a, b, v, k):
    return {"t": t, "a": a, "b": b, "v": v, "k": k}


def text_of(x):
    return cp(x) if isinstance(x, str) else cp("?" + repr(x)) if x is not None else []


def span_of(n):
    s = getattr(n, "span", None)
    if s is None:
        return -1, -1
    a, b = getattr(s, "start", None), getattr(s, "end", None)
    return (a if isinstance(a, int) else -2), (b if isinstance(b, int) else -2)


def enc(n):
    t = type(n).__name__
    a, b = span_of(n)
    if t == "Annotation":
        return node(t, a, b, text_of(n.code),
                    [[node("Argument", a, b, text_of(x), []) for x in n.arguments if x is not None],
                     [node("Text", a, b, text_of(n.message), [])]])
    if t not in FIELDS:
        return node("?" + t, a, b, text_of(n) if isinstance(n, str) else [], [])
    v = []
    if t == "Variant":
        v = [1 if n.default else 0]
    elif t in TEXT:
        v = text_of(getattr(n, TEXT[t], None))
    k = []
    for f in FIELDS[t]:
        x = getattr(n, f, None)
        k.append([] if x is None else [enc(y) for y in x] if isinstance(x, (list, tuple)) else [enc(x)])
    return node(t, a, b, v, k)


def depth(n):
    """Depth of nesting of the encoding (TLC's JSON reader stops at 255 levels, 3 per node)."""
    best, todo = 0, [(n, 1)]
    while todo:
        x, d = todo.pop()
        best = max(best, d)
        for f in x["k"]:
            for y in f:
                todo.append((y, d + 1))
    return best


MAX_DEPTH = 70


def dec(n):
    """The AST node an encoding without spans denotes."""
    from common import uncp
    from fluent.syntax import ast

    t, v, k = n["t"], n["v"], n["k"]
    many = {"body", "attributes", "elements", "positional", "named", "variants", "annotations"}
    kw = {}
    for f, x in zip(FIELDS[t], k):
        ys = [dec(y) for y in x]
        kw[f] = ys if f in many else ys[0] if ys else None
    if t == "Variant":
        kw["default"] = v == [1]
    elif t in TEXT:
        kw[TEXT[t]] = uncp(v)
    return getattr(ast, t)(**kw)
