#!/opt/venv/bin/python
"""Decide one property: check.py ID [--replay FILE].  Exit 0 held, 1 VIOLATION, 2 machinery error.
With a replay file (as a violation names it), only the cases in it are run again."""
import importlib
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
from common import Ctx, MachineryError, blame  # noqa

CHECKS = {
    **{p: "syntax" for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C14")},
    **{p: "serializer" for p in ("C08", "C09")},
    "C13": "literal",
    **{p: "fallback" for p in ("C25", "C26")},
    "C27": "loader_check",
    "C31": "highlight",
    "C32": "docs",
    **{p: "valuecheck" for p in ("C28", "C29", "C30")},
    **{p: "tree" for p in ("C10", "C11", "C12")},
    **{p: "bundle" for p in ("C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C35")},
    "C33": "localecheck",
    "C34": "tools",
    "C36": "sharing",
}

TECH = {
    "sharing": "TLA+ specification of the parser machine, run twice on one parser object in all interleavings (TLC, replayed in threads of the real code under a deterministic scheduler); TLC trace validation of what each thread got",
    "tools": "TLA+ specification of files and the command-line tools, on top of the specified grammar, canonical text and highlighting; TLC model checking of short texts and runs, replayed with the real tools; TLC trace validation of recorded histories",
    "localecheck": "TLA+ specification of the search for a bundle's locale and of what it formats; TLC model checking of all short lists of tags, replayed in the real code; TLC trace validation of recorded bundles and localizations",
    "literal": "TLA+ specification of literal values; TLC model checking of the decoding machine, its behaviours replayed; TLC trace validation of parse() and of formatted messages",
    "fallback": "TLA+ specification of the chain of bundles and requests along it; TLC model checking of all small localizations and request sequences, replayed in the real code; TLC trace validation of recorded localizations",
    "loader_check": "TLA+ specification of a file system, path lookup, UTF-8 and the loader; TLC model checking of all small file systems, histories replayed on disk; TLC trace validation of recorded loads",
    "valuecheck": "TLA+ specification of values, options, number and date formatting and the calendar; TLC model checking on small numbers, options and dates, replayed in the real code; TLC trace validation of recorded histories of values",
    "highlight": "TLA+ specification of highlighting on top of the specified grammar; TLC model checking on all small texts, replayed in the real lexer; TLC trace validation of recorded runs",
    "docs": "TLA+ specification of the repository, the documentation build's steps and the site; TLC model checking of all short histories, replayed with real git and a stand-in for Sphinx; TLC trace validation of recorded builds",
    "tree": "TLA+ specification of AST objects as a heap (clone, equality, JSON data, visiting and transforming); TLC model checking of small trees; TLC trace validation of recorded histories of operations",
    "bundle": "TLA+ specification of bundles and the resolver; TLC model checking of all small worlds and histories, replayed in the real code; TLC trace validation of recorded runs",
    "serializer": "TLA+ specification of the canonical text; TLC model checking of round trip and idempotence; TLC trace validation of the real serializer",
    "syntax": "TLA+ specification of the grammar and parser machine; TLC model checking of small texts; TLC trace validation of the real parser",
}

_TV = "Design: TLC checks the invariants on every small instance. Code: every recorded run is validated step by step by TLC against the specification; "
NOTES = {
    "sharing": _TV + "assurance extends to the texts and schedules run (switches between lines or calls of the code). Trusts TLC and the scheduler (together.py).",
    "literal": _TV + "assurance extends to the literals run. Trusts TLC and the exact decimal expansion of floats.",
    "fallback": _TV + "assurance extends to the localizations (in-memory and file loaders, failing loaders) and request sequences run. Trusts TLC and the recorder (localization.py).",
    "loader_check": _TV + "assurance extends to the file systems (missing files, directories, symbolic links, several roots, changes between loads) run. Trusts TLC and the recorder (loader.py).",
    "valuecheck": _TV + "assurance extends to the values, options, locales and zones run. Trusts TLC, the CLDR data and field formatting of Babel, zoneinfo, and the encoding of values (valuehist.py).",
    "highlight": _TV + "assurance extends to the texts run. Trusts TLC.",
    "docs": _TV + "assurance extends to the histories of edits, commits, tags and builds run, with git itself and a stand-in for sphinx-build that records what it is given. Trusts TLC and the recorder (docsite.py).",
    "localecheck": _TV + "assurance extends to the lists of tags (known, unknown, other spellings), numbers, options and dates run. Trusts TLC, and Babel's locale data, which says what tags are known.",
    "tools": _TV + "assurance extends to the files (also not UTF-8, missing, JSON rewritten by others) and sequences of tools run. Trusts TLC, the terminal codes of Pygments, and the reading of JSON (toolruns.py).",
    "tree": _TV + "assurance extends to the trees (parsed and edited) and histories run. Trusts TLC and the heap encoding (trees.py).",
    "bundle": _TV + "assurance extends to the resources, arguments, functions and histories run, and to the small worlds that TLC enumerates and the harness replays. Trusts TLC, Babel's CLDR data, and the encoding of values (values.py).",
    "serializer": _TV + "assurance extends to the ASTs run (parsed from generated texts, and edited with parts of each other). Trusts TLC and astenc.py.",
    "syntax": _TV + "assurance extends to the texts run (exhaustive short token sequences, grammar-based, mutated). Trusts TLC and the encoding of ASTs (astenc.py).",
}
NOT_APPLICABLE = {}


def main():
    prop = sys.argv[1]
    only = None
    if sys.argv[2:3] == ["--replay"]:
        with open(sys.argv[3]) as f:
            only = json.load(f)
    try:
        ctx = Ctx(prop, only)
        mod = importlib.import_module(CHECKS[prop])
        mod.run(ctx)
        return ctx.finish()
    except MachineryError as e:
        print("MACHINERY ERROR:", e)
    except Exception as e:
        b = blame(e)
        traceback.print_exc()
        if b is not None:      # the code under test raised while the harness prepared its inputs
            ctx.violation("inputs", [], {"why": b.why}, None)
            return ctx.finish()
    return 2


if __name__ == "__main__":
    sys.exit(main())
