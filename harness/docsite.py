"""Runs documentation builds in a scratch git repository with a stand-in for sphinx-build, for DocsTrace.tla.

A case: {"repo": name, "ops": [...]} with
  {"op": "edit", "n", "warns"}           change all files of the working tree; the texts of project warns have a warning
  {"op": "commit", "n", "day", "at", "zone"}   the same, and commit it; at: minutes since 2020-01-01 UTC
  {"op": "tag", "p", "v"}
  {"op": "build", "ps", "after"}         build(); after: ordinal of a day, -1: no releases
  {"op": "copy", "p"}                    "stable" becomes a directory (as after a download of the result)
  {"op": "prune", "p"}                   the release that "stable" is goes
  {"op": "script", "docs", "dev"}        scripts/build-docs
All that the code under test writes or removes is inside the scratch directory; an audit hook refuses anything else."""
import datetime
import os
import re
import runpy
import shutil
import stat
import subprocess
import sys
import tempfile

from common import REPO, guarded

PROJECTS = ["fluent.syntax", "fluent.runtime", "fluent.pygments", "fluent.syntax2"]
SPHINX = """#!/bin/sh
setup=
for a in "$@"; do
  case "$prev" in -c) setup="$(cat "$a/style.txt")";; -D) case "$a" in project=*) proj="${a#project=}";; release=*) rel="${a#release=}";; esac;;
    -A) case "$a" in root_url=*) url="${a#root_url=}";; esac;; esac
  prev2="$last"; last="$a"; prev="$a"
done
src="$prev2"; dest="$last"
# warnings are errors only with -W; without -a, what is there stays unless its text changed; without -E, the text is the one saved
a= e= w= d=; prev=
for x in "$@"; do
  case "$x" in -a) a=1;; -E) e=1;; -W) w=1;; esac
  case "$prev" in -d) d="$x";; esac
  prev="$x"
done
if [ -e "$src/warns" ] && [ -n "$w" ]; then exit 2; fi
if [ -z "$a" ] && [ -e "$dest/page.txt" ]; then exit 0; fi
if [ -z "$e" ] && [ -n "$d" ] && [ -e "$d/text" ]; then src="$d/text"; fi
if [ -n "$d" ] && [ "$src" != "$d/text" ]; then rm -rf "$d/text"; mkdir -p "$d/text"; cp "$src/content.txt" "$src"/only-* "$d/text"; if [ -d "$src/_templates" ]; then cp -r "$src/_templates" "$d/text"; fi; fi
mkdir -p "$dest/_static" || exit 1
# what a directory has: a text, and a file of the same number and no other (files come and go)
one() { n="$(cat "$2/$3" 2>/dev/null)"; if [ "$(cd "$2" && echo only-*)" = "only-$n" ]; then echo "$1=$n"; else echo "$1=?"; fi; }
{ echo "proj=$proj"; echo "rel=$rel"; echo "url=$url"; echo "setup=$setup"; one "src" "$src" content.txt
  if [ -n "$PYTHONPATH" ]; then one lib "$PYTHONPATH" lib.txt; fi; } > "$dest/page.txt"
cat "$src/_templates/versions.html" > "$dest/menu.html" 2>/dev/null
echo x > "$dest/_static/basic.css"; echo x > "$dest/_static/documentation_options.js"; echo x > "$dest/_static/doctools.js"
echo "$dest" >> "$DOCS_LOG"
"""
EPOCH = datetime.datetime(2020, 1, 1, tzinfo=datetime.timezone.utc)

_allowed = None
_installed = False


class Escape(BaseException):
    """The code under test reached outside the scratch directory."""


def _hook(event, args):
    if _allowed is None:
        return
    paths = []
    if event in ("shutil.rmtree", "os.remove", "os.rmdir", "os.mkdir", "os.chmod", "os.chown", "os.truncate", "os.utime"):
        paths = [args[0]]
    elif event in ("os.rename", "os.link", "shutil.move", "shutil.copyfile", "shutil.copytree"):
        paths = [args[0], args[1]]
    elif event == "os.symlink":
        paths = [args[1]]
    elif event == "open" and isinstance(args[0], (str, bytes)) and (isinstance(args[1], str) and set(args[1]) & set("wax+") or isinstance(args[2], int) and args[2] & (os.O_WRONLY | os.O_RDWR)):
        paths = [args[0]]
    for p in paths:
        if isinstance(p, int):
            continue
        p = os.path.abspath(os.fsdecode(p))
        if p == os.devnull:
            continue
        p = os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))
        if not p.startswith(_allowed + "/"):
            raise Escape(event + " " + p)


def put(path, text, mode=None):
    os.makedirs(os.path.dirname(path) or ".", exist_ok=True)
    with open(path, "w") as f:
        f.write(text)
    if mode:
        os.chmod(path, mode)


def read(path):
    try:
        with open(path) as f:
            return f.read().strip()
    except OSError:
        return ""


def number(s):
    return int(s) if re.fullmatch(r"\d{1,6}", s or "") else -1


class Scratch:
    """The scratch repository; everything the process and its children use points into it."""

    def __enter__(self):
        global _installed
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix="docs-"))
        self.repo = os.path.join(self.dir, "repo")
        self.tmp = os.path.join(self.dir, "tmp")
        for d in (self.repo, self.tmp):
            os.mkdir(d)
        put(os.path.join(self.dir, "bin", "sphinx-build"), SPHINX, 0o755)
        self.old = (dict(os.environ), os.getcwd(), tempfile.tempdir, sys.argv, os.dup(1), os.dup(2))
        for k in [k for k in os.environ if k.startswith(("GIT_", "PYTHONPATH"))]:
            del os.environ[k]
        os.environ.update(PATH=os.path.join(self.dir, "bin") + ":" + os.environ.get("PATH", "/usr/bin:/bin"), HOME=self.dir, TMPDIR=self.tmp, DOCS_LOG=os.path.join(self.dir, "log"),
                          GIT_CONFIG_NOSYSTEM="1", GIT_CEILING_DIRECTORIES=self.dir, GIT_AUTHOR_NAME="x", GIT_AUTHOR_EMAIL="x@x", GIT_COMMITTER_NAME="x", GIT_COMMITTER_EMAIL="x@x")
        tempfile.tempdir = None
        os.chdir(self.repo)
        sys.stdout.flush(), sys.stderr.flush()
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1), os.dup2(null, 2)
        os.close(null)
        if not _installed:
            sys.addaudithook(_hook)
            _installed = True
        return self

    def __exit__(self, *exc):
        global _allowed
        _allowed = None
        env, cwd, tmp, argv, out, err = self.old
        os.dup2(out, 1), os.dup2(err, 2)
        os.close(out), os.close(err)
        os.environ.clear()
        os.environ.update(env)
        tempfile.tempdir = tmp
        sys.argv = argv
        os.chdir(cwd)
        shutil.rmtree(self.dir, ignore_errors=True)

    def git(self, *args, **env):
        subprocess.run(["git", "-c", "gc.auto=0", *args], cwd=self.repo, env=dict(os.environ, **env), check=True)

    def edit(self, n, warns=None):
        for p in PROJECTS + ["."]:
            if os.path.exists(p + "/docs/warns"):
                os.unlink(p + "/docs/warns")
            if p == warns:
                put(p + "/docs/warns", "x")
        put("docs/style.txt", str(n))
        put("docs/content.txt", str(n))
        put(".gitignore", "_build\n/fluent.*/docs/_templates/versions.html\n")
        for p in PROJECTS:
            put(p + "/docs/content.txt", str(n))
            put(p + "/lib.txt", str(n))
        for d in ["docs"] + [p + x for p in PROJECTS for x in ("", "/docs")]:
            for old in os.listdir(d):
                if old.startswith("only-"):
                    os.unlink(d + "/" + old)
            put("%s/only-%d" % (d, n), "x")

    def commit(self, n, at, zone, warns=None):
        self.edit(n, warns)
        date = "%d %s" % ((EPOCH + datetime.timedelta(minutes=at)).timestamp(), zone)
        self.git("add", "-A")
        self.git("commit", "-q", "--allow-empty", "-m", "x", GIT_COMMITTER_DATE=date, GIT_AUTHOR_DATE="1000000000 +0000")

    def watched(self, f):
        global _allowed
        _allowed = self.dir

        def go():
            try:
                return f()
            except (Escape, SystemExit, subprocess.TimeoutExpired) as e:
                raise RuntimeError(type(e).__name__)
        try:
            return guarded(go, limit=60.0)[1]
        finally:
            _allowed = None

    def tree(self):
        """What the working tree has, -1 if it is not one thing."""
        ns = {read(p + f) for p in PROJECTS for f in ("/docs/content.txt", "/lib.txt")} | {read("docs/style.txt")}
        return number(ns.pop()) if len(ns) == 1 else -1

    def head(self):
        r = subprocess.run(["git", "show", "HEAD:docs/style.txt"], cwd=self.repo, stdout=subprocess.PIPE, encoding="utf-8")
        return number(r.stdout.strip())

    def site(self, repo):
        top = os.path.join("_build", repo)
        out = {"pages": [], "index": [], "stable": [], "root": []}
        if os.path.exists(os.path.join(top, "page.txt")):
            g = page(top, repo, "")
            out["root"] = [{"src": g["src"], "setup": g["setup"], "url": g["url"], "static": g["static"], "jekyll": not os.path.exists(os.path.join(top, ".nojekyll"))}]
        for p in sorted(os.listdir(top)) if os.path.isdir(top) else []:
            d = os.path.join(top, p)
            if p.startswith("_") or not os.path.isdir(d):
                continue
            for v in sorted(os.listdir(d)):
                e = os.path.join(d, v)
                if v == "index.html":
                    m = re.search(r'http-equiv="?refresh"?[^>]*URL=([^"\'>]*)', read(e), re.I)
                    out["index"].append([p, (m.group(1) if m else "?").rstrip("/")])
                elif v == "stable":
                    out["stable"].append([p, os.path.basename(os.path.realpath(e)) if os.path.islink(e) and os.path.dirname(os.path.realpath(e)) == os.path.realpath(d) else "?"])
                else:
                    out["pages"].append({"p": p, "v": v, "page": page(e, repo, p)})
        return out


def page(d, repo, p):
    kv = dict(x.split("=", 1) for x in read(os.path.join(d, "page.txt")).splitlines() if "=" in x)
    menu = read(os.path.join(d, "menu.html"))
    links = re.findall(r'<a\s[^>]*href="([^"]*)"[^>]*>\s*([^<]*?)\s*<', menu)
    cur = re.search(r'class="version"[^>]*>\s*([^<]*?)\s*<', menu)
    return {"proj": kv.get("proj", ""), "rel": kv.get("rel", ""), "src": number(kv.get("src")), "lib": number(kv.get("lib")), "setup": number(kv.get("setup")), "url": kv.get("url", ""),
            "menu": [t if h.rstrip("/") == "/%s/%s/%s" % (repo, p, t) else h + " " + t for h, t in links], "cur": cur.group(1) if cur else "",
            "static": sorted(os.listdir(os.path.join(d, "_static"))) if os.path.isdir(os.path.join(d, "_static")) else []}


def record(case):
    rec = {"repo": case["repo"], "ops": []}
    with Scratch() as s:
        s.git("init", "-q", "-b", "main")
        for op in case["ops"]:
            o = dict(op)
            if op["op"] == "edit":
                s.edit(op["n"], op.get("warns"))
                o["warns"] = op.get("warns") or ""
            elif op["op"] == "commit":
                s.commit(op["n"], op["at"], op.get("zone", "+0000"), op.get("warns"))
                o["warns"] = op.get("warns") or ""
                o.pop("zone", None)
            elif op["op"] == "tag":
                s.git("tag", "%s@%s" % (op["p"], op["v"]))
            elif op["op"] in ("copy", "prune"):
                stable = os.path.join("_build", case["repo"], op["p"], "stable")
                was = os.path.realpath(stable)
                o["done"] = os.path.islink(stable) and os.path.isdir(was)
                if o["done"] and op["op"] == "copy":
                    os.unlink(stable)
                    shutil.copytree(was, stable)
                elif o["done"]:
                    shutil.rmtree(was)
            else:
                if os.path.exists(os.environ["DOCS_LOG"]):
                    os.unlink(os.environ["DOCS_LOG"])
                if op["op"] == "build":
                    from fluent.docs.build import build

                    after = datetime.date.fromordinal(op["after"]) if op["after"] >= 0 else None
                    o["raised"] = s.watched(lambda: build(case["repo"], list(op["ps"]), after) if after else build(case["repo"], list(op["ps"])))
                else:
                    sys.argv = ["build-docs", case["repo"]] + [x for d in op["docs"] for x in ("--doc", d)] + (["--dev"] if op["dev"] else [])
                    o["raised"] = s.watched(lambda: runpy.run_path(os.path.join(REPO, "scripts", "build-docs"), run_name="__main__"))
                o["site"] = s.site(case["repo"])
                o["left"] = len(os.listdir(s.tmp))
                o["tree"] = s.tree()
                o["head"] = s.head()
                log = read(os.environ["DOCS_LOG"]).splitlines()
                o["again"] = len(log) - len(set(map(os.path.normpath, log)))
            rec["ops"].append(o)
            if o.get("raised"):
                break
    return rec


def replay(b):
    """A history that TLC generated: the site has to be the one it came to."""
    ops = [{"op": "commit", "n": 1, "day": 1, "at": 10}]
    day0 = datetime.date(2020, 1, 1).toordinal()

    def at(o):      # instants within the day
        return (o["day"] - 1) * 1440 + o["at"]
    for h in b["hist"]:
        if h["op"] == "commit":
            ops.append({"op": "commit", "n": h["n"], "at": at(h)})
        elif h["op"] == "build":
            ops.append({"op": "build", "ps": h["ps"], "after": h["after"] if h["after"] < 0 else day0 + h["after"] - 1})
        else:
            ops.append(h)
    ops[0] = {"op": "commit", "n": 1, "at": 10}
    rec = record({"repo": "r", "ops": ops})
    last = [o for o in rec["ops"] if o["op"] == "build"][-1]
    if any(o.get("raised") for o in rec["ops"]):
        return {"why": "raised", "real": [o.get("raised", "") for o in rec["ops"]]}
    want = {"pages": sorted([x["p"], x["v"], sorted(x["page"].items())] for x in b["site"]["pages"]),
            "index": sorted(map(list, dict(b["site"]["index"] or {}).items())), "stable": sorted(map(list, dict(b["site"]["stable"] or {}).items()))}
    real = {"pages": sorted([x["p"], x["v"], sorted((k, v) for k, v in x["page"].items() if k not in ("static", "url"))] for x in last["site"]["pages"]),
            "index": sorted(last["site"]["index"]), "stable": sorted(last["site"]["stable"])}
    if repr(want) != repr(real) or last["left"]:
        return {"specified": want, "real": real, "scratch_left": last["left"]}
    return None


VERSIONS = ["0.1", "0.2", "0.9", "0.10", "0.10.1", "0.11", "1.0", "1.0.1", "2.0b1", "v3"]
ZONES = ["+0000", "+0000", "+1300", "-0800", "+0530"]
BUILD_DOCS = ["fluent.syntax", "fluent.pygments", "fluent.runtime"]


def offset(zone):
    return (1 if zone[0] == "+" else -1) * (int(zone[1:3]) * 60 + int(zone[3:]))


def cases(rng, n):
    out = []
    for _ in range(n):
        r = rng
        ops, tagged, used, warning = [], set(), set(), PROJECTS + ["."]
        at = r.choice([121 * 1440 + 700, 122 * 1440 - 30, 118 * 1440, 400 * 1440]) + r.randrange(60)    # around 1 May 2020
        k, days = 1, []

        def commit():
            nonlocal at, k, when, head
            k += 1
            back = r.random() < 0.25        # a commit that is older than the last one: another branch
            at2 = at - r.randrange(1, 5000) if back else at + r.choice([1, 30, 700, 1440, 5000])
            while at2 in used or at2 < 0:
                at2 += 1
            used.add(at2)
            at = max(at, at2)
            zone = r.choice(ZONES)
            day = (EPOCH + datetime.timedelta(minutes=at2 + offset(zone))).date().toordinal()
            days.append(day)
            when = at2
            ops.append({"op": "commit", "n": k, "day": day, "at": at2, "zone": zone, "warns": r.choice(warning) if r.random() < 0.07 else ""})
        when = head = 0
        commit()
        ps = r.sample(PROJECTS, r.randrange(1, 4))
        if r.random() < 0.3:    # a project with many releases
            ps = ps[:1]
            for v in r.sample(VERSIONS, r.randrange(2, 6)):
                commit()
                if (ps[0], when) not in tagged:
                    tagged |= {(ps[0], v), (ps[0], when)}
                    ops.append({"op": "tag", "p": ps[0], "v": v})
        for _ in range(r.randrange(3, 11)):
            x = r.random()
            if x < 0.15:
                k += 1
                ops.append({"op": "edit", "n": k, "warns": r.choice(ps + ["."]) if r.random() < 0.15 else ""})
            elif x < 0.4:
                commit()
            elif x < 0.75:
                p = r.choice(ps + PROJECTS)
                v = r.choice(VERSIONS)
                if (p, v) not in tagged and (p, when) not in tagged:
                    tagged |= {(p, v), (p, when)}
                    ops.append({"op": "tag", "p": p, "v": v})
            elif x < 0.93:
                ops.append(build_op(r, ps, days))
            else:
                p = r.choice(ps)
                ops.append({"op": r.choice(["copy", "prune"]), "p": p})
                if r.random() < 0.5:        # and only newer releases from here on
                    before = max(days)
                    at += 1440 * 2
                    commit()
                    v = r.choice(VERSIONS)
                    if (p, v) not in tagged:
                        tagged |= {(p, v), (p, when)}
                        ops.append({"op": "tag", "p": p, "v": v})
                        ops.append({"op": "build", "ps": [p], "after": before})
        ops.append(build_op(r, ps, days))
        out.append({"repo": r.choice(["python-fluent", "r"]), "ops": ops})
    return out


def build_op(r, ps, days):
    if r.random() < 0.3:
        return {"op": "script", "docs": r.choice([[], [], ["."], r.sample(BUILD_DOCS, 2), [".", "fluent.runtime"]]), "dev": r.random() < 0.2}
    return {"op": "build", "ps": r.sample(ps, r.randrange(1, len(ps) + 1)), "after": r.choice([-1, min(days) - 1, r.choice(days), r.choice(days) - 1, max(days)] if r.random() < 0.7 else [1])}
