"""Runs histories of operations on AST objects and records them for TreeTrace.tla."""
import json
import random

from common import guarded
import ftlgen


class Heap:
    """All objects met, by identity; their last encodings."""

    def __init__(self):
        self.objs, self.index, self.last, self.keep = [], {}, [], []

    def ref(self, x):
        if id(x) not in self.index:
            self.objs.append(x)
            self.index[id(x)] = len(self.objs)
            self.last.append(None)
        return {"k": "r", "i": self.index[id(x)]}

    def value(self, x):
        from fluent.syntax.ast import BaseNode

        if isinstance(x, BaseNode) or type(x) in (list, dict, tuple):
            return self.ref(x)
        if x is None:
            return {"k": "0"}
        if type(x) is bool:
            return {"k": "b", "b": x}
        if type(x) is int:
            return {"k": "i", "i": x}
        if type(x) is str:
            return {"k": "s", "s": x}
        return {"k": "x", "s": type(x).__name__}

    def encode(self, x):
        if type(x) in (list, tuple):
            return {"c": type(x).__name__, "t": "", "f": [["", self.value(y)] for y in x]}
        if type(x) is dict:
            return {"c": "dict", "t": "", "f": [[str(n), self.value(y)] for n, y in x.items()]}
        return {"c": "node", "t": type(x).__name__, "f": [[n, self.value(y)] for n, y in vars(x).items()]}

    def diff(self):
        """Encodings that changed or are new since the last call."""
        out, i = [], 0
        while i < len(self.objs):
            e = self.encode(self.objs[i])
            if e != self.last[i]:
                self.last[i] = e
                out.append([i + 1, e])
            i += 1
        return out


def nodes(heap, *types):
    from fluent.syntax.ast import BaseNode

    return [x for x in heap.objs if isinstance(x, BaseNode) and (not types or type(x).__name__ in types)]


def odd_nodes(r):
    """Nodes as programs make them: with and without defaults, alike but not the same."""
    from fluent.syntax import ast as A

    i = A.Identifier(r.choice(["a", "b"]))
    c = r.choice(["x", "y", "", None])
    p = A.Pattern([A.TextElement("t")])
    return r.choice([
        lambda: r.choice([A.Comment, A.GroupComment, A.ResourceComment])(c),
        lambda: r.choice([A.StringLiteral, A.NumberLiteral, A.TextElement])(r.choice(["1", "2"])),
        lambda: A.Message(i, r.choice([None, p]), r.choice([None, [], [A.Attribute(i, p)]]), r.choice([None, A.Comment("c")])),
        lambda: A.Term(i, p, r.choice([None, []])),
        lambda: A.Junk(c, r.choice([None, [], [A.Annotation("E0003", r.choice([["="], [], None, ["a", "b"]]), "m")]]), span=r.choice([None, A.Span(0, r.choice([1, 2]))])),
        lambda: r.choice([A.VariableReference, A.MessageReference])(i),
        lambda: A.MessageReference(i, r.choice([None, A.Identifier("a")])),
        lambda: A.TermReference(i, None, r.choice([None, A.CallArguments(), A.CallArguments([A.NumberLiteral("1")], [A.NamedArgument(i, A.StringLiteral("s"))])])),
        lambda: A.Variant(r.choice([i, A.NumberLiteral("1")]), p, r.choice([True, False, True, False, 1, 0])),
        lambda: A.Pattern(r.choice([[], [A.TextElement("t")], [A.Placeable(A.StringLiteral("s"))], [A.TextElement("t"), A.TextElement("t")]])),
        lambda: A.Resource(r.choice([None, [], [A.Comment("x")], [A.GroupComment("x")]])),
        lambda: A.Span(r.choice([0, 1, 1, True, "1"]), 3),
        lambda: A.Annotation("E0001", r.choice([None, ["x"]]), r.choice([None, "m"])),
    ])()


def record(inp):
    import fluent.syntax as fs
    from fluent.syntax import ast as A
    from fluent.syntax import visitor

    r = random.Random(inp["seed"])
    try:
        root = fs.FluentParser(with_spans=inp["spans"]).parse(inp["src"])
    except Exception:
        return "skip"
    heap = Heap()
    heap.ref(root)
    extra = [odd_nodes(r) for _ in range(inp.get("odd", 3))]
    for x in extra:
        heap.ref(x)
    rec = {"heap": [e for _, e in heap.diff()], "ops": []}
    if len(rec["heap"]) > 400:
        return "skip"

    def do(op, work):
        heap.before = len(heap.objs)
        out, bad = guarded(work)
        op["raised"] = bad
        if not bad:
            op.update(out)
        op["diff"] = heap.diff()
        rec["ops"].append(op)
        return not bad

    def tuples(x):
        todo = [x]
        for y in todo:
            if type(y) is tuple:
                return True
            todo += y if type(y) is list else vars(y).values() if isinstance(y, A.BaseNode) else []
        return False

    def clone():
        x = r.choice(nodes(heap)[:60]) if r.random() < 0.7 else root

        def work():
            c = x.clone()
            return {"out": heap.value(c)}
        return do({"op": "clone", "a": heap.value(x), "out": {"k": "0"}}, work)

    IGN = [None, ["span"], [], ["span", "comment"], ["name"], ["content", "span"], ["value"], ["attributes", "span"], ["start"], ["default", "span"], ["span", "annotations"]]

    def equals():
        ns = nodes(heap)
        k = r.random()
        a = r.choice(ns)
        if k < 0.5:
            b = r.choice([x for x in ns if type(x) is type(a)])
        elif k < 0.8:
            b = r.choice([x for x in ns if set(vars(x)) == set(vars(a))])
        elif k < 0.9:
            b = r.choice(ns)
        else:
            b = a
        if inp.get("roots") and r.random() < 0.5:
            a, b = r.choice(nodes(heap, "Resource")), r.choice(nodes(heap, "Resource"))
        ign = r.choice(IGN)
        if tuples(a) or tuples(b):      # which the equality of is not promised
            return clone()

        def work():
            out = a.equals(b) if ign is None else a.equals(b, ign) if r.random() < 0.5 else a.equals(b, ignored_fields=ign)
            return {"out": out if isinstance(out, bool) else str(out)}
        return do({"op": "equals", "a": heap.value(a), "b": heap.value(b), "ign": ["span"] if ign is None else ign, "out": False}, work)

    def edit():
        lists = [x for x in heap.objs if type(x) is list]
        k = r.random()
        if k < 0.3 and lists:
            x = r.choice(lists)
            if x and r.random() < 0.5:
                return do({"op": "pop", "a": heap.value(x)}, lambda: (x.pop(), {})[1])
            y = odd_nodes(r)
            heap.diff()

            def work():
                x.append(y)
                return {"v": heap.value(y)}
            return do({"op": "append", "a": heap.value(x), "v": {"k": "0"}}, work)
        x = r.choice(nodes(heap))
        names = list(vars(x))
        if not names:
            return True
        n = r.choice(names)
        old = getattr(x, n)
        new = tuple(old) if type(old) is list and old and inp["view"] != "C12" and r.random() < 0.6 else r.choice([not old, int(old)]) if type(old) is bool else r.choice([old + 1, bool(old) if old in (0, 1) else old + 1]) if type(old) is int else r.choice([old + "!", "x", None]) if type(old) is str else [] if type(old) is list else r.choice([None, odd_nodes(r)])

        def work():
            setattr(x, n, new)
            return {"v": heap.value(new)}
        return do({"op": "set", "a": heap.value(x), "n": n, "v": {"k": "0"}}, work)

    def tojson(a, wrap, hook):
        log = []
        cut = {}
        if hook and r.random() < 0.5:
            present = sorted({type(x).__name__ for x in nodes(heap)})
            for t in r.sample(present, min(len(present), r.choice([1, 1, 2, 4]))):
                cut[t] = r.choice([None, None, "", 0, False, "x", True])

        def fn(d):
            log.append(d)
            if d["type"] in cut:
                return cut[d["type"]]
            return {wrap: d} if wrap else d

        def work():
            j = a.to_json(fn) if hook else r.choice([lambda: a.to_json(), lambda: A.to_json(a), lambda: json.loads(str(a)), lambda: json.loads(json.dumps(a.to_json()))])()
            heap.keep.append((j, log))
            return {"out": heap.value(j), "log": [heap.value(d) for d in log], "data": j}
        op = {"op": "json", "a": heap.value(a), "wrap": wrap, "hook": hook, "cut": [[t, heap.value(v)] for t, v in cut.items()], "log": [], "out": {"k": "0"}}
        ok = do(op, work)
        return op.pop("data", None), ok, bool(cut)

    def json_():
        a = r.choice(nodes(heap)) if r.random() < 0.6 else root
        k = r.random()
        wrap, hook = ("w", True) if k < 0.25 else ("", k < 0.5)
        j, ok, cut = tojson(a, wrap, hook)
        if not ok or wrap or cut:
            return ok
        if r.random() < 0.3:
            j = json.loads(json.dumps(j))
            heap.value(j)

        def work():
            x = A.from_json(j)
            return {"out": heap.value(x)}
        return do({"op": "unjson", "a": heap.value(a), "j": heap.value(j), "out": {"k": "0"}}, work)

    def handlers(base, plan, log):
        present = sorted({type(x).__name__ for x in nodes(heap)})
        chosen = r.sample(present, min(len(present), r.choice([0, 1, 2, 3, 5, 30])))
        if r.random() < 0.2:
            chosen = ["TextElement", "Comment", "Attribute", "Identifier"]
        hs = {t: r.random() < 0.6 for t in chosen}
        for t in ("Entry", "SyntaxNode", "Literal", "BaseNode"):      # bases: not the node's type
            if r.random() < 0.1:
                hs[t] = False
        ns = {}

        def handler(t, descend):
            def f(self, node):
                log.append([heap.value(node).get("i", 0), t])
                res = base.generic_visit(self, node) if descend else node
                return plan[id(node)] if id(node) in plan else res
            return f

        def generic(self, node):
            log.append([heap.value(node).get("i", 0), ""])
            return base.generic_visit(self, node)

        for t, d in hs.items():
            ns["visit_" + t] = handler(t, d)
        ns["generic_visit"] = generic
        return type("V", (base,), ns)(), hs

    def visit():
        log = []
        v, hs = handlers(visitor.Visitor, {}, log)
        lists = [x for x in heap.objs if type(x) is list]
        x = r.choice([root, root, r.choice(nodes(heap)), r.choice(lists) if lists else root, None, "s"])

        def work():
            out = v.visit(x)
            return {"log": log}
        return do({"op": "visit", "v": heap.value(x), "hs": [[t, d] for t, d in hs.items()], "log": []}, work)

    def transform():
        log, plan = [], {}
        v, hs = handlers(visitor.Transformer, plan, log)
        x = r.choice([root, root, r.choice(nodes(heap)), None])
        todo = [y for y in nodes(heap) if type(y).__name__ in hs]
        p = r.choice([0.1, 0.5, 1.0])
        enc = []
        for y in todo:
            if r.random() < p:
                k = r.random()
                new = None if k < 0.4 else odd_nodes(r) if k < 0.9 else "text"
                plan[id(y)] = new
                heap.keep.append(new)
                enc.append((y, new))
        for y, new in enc:
            heap.value(new)
        fresh = heap.diff()        # the replacements are there before
        if fresh:
            rec["ops"].append({"op": "new", "raised": "", "diff": fresh})
        plan_enc = [[heap.value(y)["i"], heap.value(new)] for y, new in enc]

        def work():
            out = v.visit(x)
            return {"out": heap.value(out), "log": [e[0] for e in log]}
        return do({"op": "transform", "v": heap.value(x), "hs": [[t, d] for t, d in hs.items()], "plan": plan_enc, "out": {"k": "0"}, "log": []}, work)

    def alike():
        """A clone with one change: a value equal in Python but of another type, a list in another order or shorter, ..."""
        x = r.choice([root] + nodes(heap)[:60])
        c = []

        def work():
            c.append(x.clone())
            return {"out": heap.value(c[0])}
        if not do({"op": "clone", "a": heap.value(x), "out": {"k": "0"}}, work):
            return False
        inside, lists, texts, todo = [], [], [], [c[0]]
        for y in todo:
            todo += [z for z in (y if type(y) in (list, tuple) else vars(y).values()) if type(z) in (list, tuple) or isinstance(z, A.BaseNode)]
            if isinstance(y, A.BaseNode):
                inside += [(y, n) for n, v in vars(y).items() if type(v) is bool or v in (0, 1) and type(v) is int]
                lists += [(y, n) for n, v in vars(y).items() if type(v) is list and v]
                texts += [(y, n) for n, v in vars(y).items() if v is None or type(v) is str]
        ign = r.choice([[], ["content"], None])
        if tuples(x):
            return True
        k = r.random()
        longer = [(y, n) for y, n in lists if len(getattr(y, n)) > 1]
        if longer and k < 0.4:
            lists = longer
        own = k > 0.96
        if own:     # a field that the program added
            y, n, new = r.choice([z for z in todo if isinstance(z, A.BaseNode)]), "note", r.choice(["x", None])
        elif lists and k < 0.5:
            y, n = r.choice(lists)
            old = getattr(y, n)
            new = list(old)
            j = r.randrange(len(new))
            new = r.choice([new[::-1], new[::-1], new[1:] + new[:1], new[:-1], new[:j] + new[j + 1:], new + new[j:j + 1], new[:j] + new[j:j + 1] * 2 + new[j + 2:], None])
        elif texts and k < 0.75:
            y, n = r.choice(texts)
            old = getattr(y, n)
            new = r.choice(["", "None"]) if old is None else r.choice([None, old.upper(), old + " ", old[:-1], old.lower(), old + "\n", old.replace("\n", " ")])
        elif inside:
            y, n = r.choice(inside)
            new = int(getattr(y, n)) if type(getattr(y, n)) is bool else bool(getattr(y, n))
        else:
            n = None
        if n:

            def change():
                setattr(y, n, new)
                return {"v": heap.value(new)}
            if not do({"op": "set", "a": heap.value(y), "n": n, "v": {"k": "0"}}, change):
                return False

        one, two = (x, c[0]) if r.random() < 0.5 else (c[0], x)

        def compare():
            out = one.equals(two) if ign is None else one.equals(two, ign)
            return {"out": out if isinstance(out, bool) else str(out)}
        return do({"op": "equals", "a": heap.value(one), "b": heap.value(two), "ign": ["span"] if ign is None else ign, "out": False}, compare) and not own

    kinds = {"C10": [clone, edit, equals, equals, alike], "C11": [json_, json_, edit], "C12": [visit, transform, clone]}[inp["view"]]
    if inp["view"] == "C10":
        clone()
    for _ in range(inp["ops"]):
        if not r.choice(kinds)():
            break
        if len(heap.objs) > 1500:
            break
    return rec


def inputs(ctx, n):
    rng = ctx.rng
    texts = ftlgen.texts(rng, n, {"valid": 6, "deep": 1, "junk": 2, "comments": 2, "mutated": 2, "fixture": 1})
    out = []
    for i, t in enumerate(texts):
        # edits may build trees that no visitor should see twice: keep clones apart
        out.append({"view": ctx.prop, "seed": rng.randrange(1 << 30), "spans": i % 4 != 0, "src": t[:600], "ops": rng.choice([4, 8, 12]), "odd": rng.choice([2, 6]), "roots": i % 2 == 0})
    return out
