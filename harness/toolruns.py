"""Runs the command-line tools on scratch files and records them for ToolsTrace.tla.

A case: {"how": "inline" | "process", "ops": [{"op": "write", "f", "text" | "bytes"} |
{"op": "fmt" | "parse" | "text" | "color", "f", "to"} | {"op": "edit", "f", "to", "kind"}]}."""
import contextlib
import io
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

from astenc import FIELDS, MAX_DEPTH, TEXT, depth, node
from common import PACKAGES, REPO, cp, guarded, uncp

SCRIPTS = {"fmt": "fluentfmt.py", "parse": "parse.py", "text": "serialize.py"}


class NotAnAst(Exception):
    pass


# ---- ASTs as JSON

def want(d, keys, optional=("span",)):
    if not isinstance(d, dict) or not set(keys) <= set(d) or not set(d) <= set(keys) | set(optional):
        raise NotAnAst


def jspan(d):
    s = d.get("span")
    if s is None:
        return -1, -1
    want(s, ["type", "start", "end"], ())
    if s["type"] != "Span" or type(s["start"]) is not int or type(s["end"]) is not int:
        raise NotAnAst
    return s["start"], s["end"]


def jtext(x):
    if not isinstance(x, str):
        raise NotAnAst
    return cp(x)


def jnode(d):
    """The encoding of a JSON node (as astenc.enc gives it for the object)."""
    if not isinstance(d, dict) or d.get("type") not in FIELDS and d.get("type") != "Annotation":
        raise NotAnAst
    t = d["type"]
    a, b = jspan(d)
    if t == "Annotation":
        want(d, ["type", "code", "arguments", "message"])
        return node(t, a, b, jtext(d["code"]), [[node("Argument", a, b, jtext(x), []) for x in d["arguments"] if x is not None], [node("Text", a, b, jtext(d["message"]), [])]])
    want(d, ["type"] + FIELDS[t] + ([TEXT[t]] if t in TEXT else []) + (["default"] if t == "Variant" else []))
    v = jtext(d[TEXT[t]]) if t in TEXT else []
    if t == "Variant":
        if type(d["default"]) is not bool:
            raise NotAnAst
        v = [1 if d["default"] else 0]
    return node(t, a, b, v, [[] if d[f] is None else [jnode(y) for y in (d[f] if isinstance(d[f], list) else [d[f]])] for f in FIELDS[t]])


def ast_of(text):
    """[{end, body}] for the JSON of a resource, [] for anything else."""
    try:
        d = json.loads(text)
        n = jnode(d)
        return [{"end": n["b"], "body": n["k"][0]}] if n["t"] == "Resource" and n["a"] in (0, -1) else []
    except (ValueError, NotAnAst, RecursionError):
        return []


def edited(text, kind):
    """The same AST, or one like it, as another program might write it down."""
    d = json.loads(text)
    if kind in ("bytes", "cut"):        # no longer UTF-8, no longer JSON
        i = max(text.rfind('"%s": "' % k) + len(k) + 5 for k in ("value", "content", "name"))
        return text[:i].encode() + b"\xff" + text[i:].encode() if kind == "bytes" else text.rstrip()[:-1].encode()
    return rewritten(d, kind).encode("utf-8")


def rewritten(d, kind):
    if kind == "compact":
        return json.dumps(d)
    if kind == "sorted":
        return json.dumps(d, indent=1, sort_keys=True, ensure_ascii=False)

    def walk(x):
        if isinstance(x, list):
            return [walk(y) for y in x]
        if isinstance(x, dict):
            return {k: walk(v) for k, v in reversed(x.items()) if k != "span" or kind != "nospans"}
        return x

    d = walk(d)
    if kind == "reversed":
        d["body"] = d["body"][::-1]
    if kind == "twice":
        d["body"] = d["body"] * 2
    return json.dumps(d, ensure_ascii=False)


# ---- running a tool

def argv(op, path):
    return ["-m", "fluent.pygments.cli", path] if op == "color" else [os.path.join(REPO, "tools", SCRIPTS[op]), path]


def in_process(op, path):
    out = io.TextIOWrapper(io.BytesIO(), encoding="utf-8", newline="\n")
    old = sys.argv, list(sys.path)
    a = argv(op, path)
    ok = True

    def go():
        if op == "color":
            sys.modules.pop("fluent.pygments.cli", None)
            runpy.run_module("fluent.pygments.cli", run_name="__main__", alter_sys=True)
        else:
            runpy.run_path(a[0], run_name="__main__")

    try:
        sys.argv = [a[0] if op != "color" else "cli.py", path]
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            try:
                go()
            except SystemExit as e:
                ok = e.code in (None, 0)
            except Exception:
                ok = False
    finally:
        sys.argv = old[0]
        sys.path[:] = old[1]
    out.flush()
    return ok, out.buffer.getvalue()


def own_process(op, path):
    env = dict(os.environ, PYTHONPATH=":".join(os.path.join(REPO, p) for p in PACKAGES), PYTHONUTF8="1", PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable] + argv(op, path), env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
    return p.returncode == 0, p.stdout


def record(case):
    cwd = os.getcwd()
    scratch = tempfile.mkdtemp(prefix="ftl-tools-")
    try:
        os.chdir(scratch)
        return record_in(case)
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)


def contents():
    out = {}
    for f in sorted(os.listdir(".")):
        with open(f, "rb") as fh:
            out[f] = fh.read()
    return out


def record_in(case):
    ops = []

    def put(f, data):
        with open(f, "wb") as fh:
            fh.write(data)
        try:
            text = data.decode("utf-8")
        except UnicodeDecodeError:
            return {"k": "bad"}
        a = ast_of(text)
        return dict({"k": "ast", "t": cp(text) if len(data) <= LARGEST else []}, **a[0]) if a else {"k": "text", "t": cp(text)}

    run = own_process if case["how"] == "process" else in_process
    for op in case["ops"]:
        k, f = op["op"], op["f"]
        if k == "write":
            ops.append({"op": "write", "f": f, "c": put(f, bytes(op["bytes"]) if "bytes" in op else uncp(op["text"]).encode("utf-8"))})
            continue
        if k == "edit":
            try:
                with open(f, encoding="utf-8", newline="") as fh:
                    text = fh.read()
            except (OSError, UnicodeDecodeError):
                continue
            if ast_of(text):
                ops.append({"op": "write", "f": op["to"], "c": put(op["to"], edited(text, op["kind"]))})
            continue
        if k != "text" and os.path.exists(f) and os.path.getsize(f) > LARGEST:
            continue        # mostly JSON, read as Fluent
        before = contents()
        r, bad = guarded(run, k, f, limit=60.0)
        ok, data = (False, b"") if bad else r
        if bad == "(no answer)":
            data = b"(no answer)"
        o = {"op": k, "f": f, "to": op["to"], "ok": ok, "out": cp(data.decode("utf-8", "replace")), "ast": [], "kept": contents() == before}
        if k == "parse" and ok:
            o["ast"] = ast_of(data.decode("utf-8", "replace"))
            if any(depth(n) > MAX_DEPTH for a in o["ast"] for n in a["body"]):
                return "skip"
            if o["ast"] and (not o["to"] or len(o["out"]) > LARGEST):
                o["out"] = []       # not needed
        ops.append(o)
        if ok and op["to"]:
            with open(op["to"], "wb") as fh:
                fh.write(data)
    return {"ops": ops}


LARGEST = 2500
NAMES = ["a.ftl", "b.ftl", "c d.ftl", "é.ftl", "x.json", "noext"]


def invalid(rng, text):
    data = text.encode("utf-8")
    i = rng.randrange(len(data) + 1)
    return list(data[:i] + rng.choice([b"\xff", b"\xc3", b"\xed\xa0\x80", b"\x80", b"\xf5", b"\xc0\x80", b"\xe2\x82"]) + b" " + data[i:])


def cases(rng, texts, processes):
    """Histories of a few files each."""
    out = []
    texts = [t for t in texts if not any(0xD800 <= ord(c) < 0xE000 for c in t)]
    for n in range(0, len(texts) - 2, 2):
        names = rng.sample(NAMES, 3)
        ops = []
        for f, t in zip(names, texts[n:n + 2]):
            if rng.random() < 0.06:
                ops.append({"op": "write", "f": f, "bytes": invalid(rng, t)})
            else:
                k = rng.random()
                t = "\ufeff" + t if k < 0.04 else "\n" * rng.choice([1, 2]) + t if k < 0.08 else t
                ops.append({"op": "write", "f": f, "text": cp(t)})
        for _ in range(rng.choice([2, 3, 4, 5])):
            k = rng.random()
            f, to = rng.choice(names), rng.choice(["", "", names[2], rng.choice(names)])
            if k < 0.35:
                ops.append({"op": "fmt", "f": f, "to": to})
            elif k < 0.55:
                ops.append({"op": "color", "f": f, "to": to if rng.random() < 0.2 else ""})
            else:
                ops.append({"op": "parse", "f": f, "to": names[2]})
                if rng.random() < 0.5:
                    ops.append({"op": "edit", "f": names[2], "to": rng.choice(names), "kind": rng.choice(["compact", "sorted", "nospans", "keys", "reversed", "twice", "bytes", "cut"])})
                    ops.append({"op": "text", "f": ops[-1]["to"], "to": rng.choice(["", names[0]])})
                else:
                    ops.append({"op": "text", "f": rng.choice([names[2], names[2], names[2], names[0]]), "to": rng.choice(["", names[0]])})
        out.append({"how": "process" if len(out) < processes else "inline", "ops": ops})
    return out


# ---- behaviours of ToolsMC

def replay(hist):
    cwd = os.getcwd()
    scratch = tempfile.mkdtemp(prefix="ftl-tools-")
    try:
        os.chdir(scratch)
        with open("f", "wb") as fh:
            fh.write(uncp(hist[0]["in"]).encode("utf-8"))
        for n, h in enumerate(hist):
            r, bad = guarded(in_process, h["op"], "f", limit=60.0)
            if bad or not r[0]:
                return {"why": bad or "failed", "at": n + 1}
            text = r[1].decode("utf-8", "replace")
            if h["op"] == "parse":
                if ast_of(text) != [{"end": h["end"], "body": h["body"]}]:
                    return {"why": "AST", "at": n + 1, "got": text}
            elif text != uncp(h["t"]):
                return {"why": "output", "at": n + 1, "got": text, "want": uncp(h["t"])}
            with open("f", "wb") as fh:
                fh.write(r[1])
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)


def styles():
    """Environment data: what the terminal formatter puts around tokens of a class."""
    from pygments.formatters import Terminal256Formatter
    from pygments.token import Token, string_to_tokentype

    table = Terminal256Formatter().style_string
    out = {}
    for c in ["Token.Comment.Multiline", "Token.Name.Constant", "Token.Literal", "Token.Literal.Number", "Token.Literal.String", "Token.Name.Variable", "Token.Generic.Error",
              "Token.Name.Attribute", "Token.Punctuation"]:
        t = string_to_tokentype(c[len("Token."):])
        while str(t) not in table and t is not Token:
            t = t.parent
        on, off = table.get(str(t), ("", ""))
        out[c] = {"on": cp(on), "off": cp(off)}
    return out
