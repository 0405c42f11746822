#!/usr/bin/env python3
"""Plant bugs: plant.py DEFS.py [ID...]

DEFS.py holds bug(id, prop, edits, demo, needs, breaks) calls.  For each one (or the given ids): apply the
edits in a scratch copy, make sure they touch lines of the original repository only, that the stable tests
still pass, and that the demonstration passes without and fails with the change; write /verif/seeded/<id>;
then run the property's check against the changed copy and say whether it was caught.
PLANT_NOCHECK=1 leaves out the last step; PLANT_CHECKONLY=1 runs only it, on the committed patches."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

BASE = "17557a9"
BUGS = {}


def bug(id, prop, edits, demo, needs, breaks):
    assert id not in BUGS
    BUGS[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          encoding="utf-8", errors="replace", **kw)


DEMO_SH = """#!/bin/bash
# Run in the repository: exit 0 if the property holds here, nonzero otherwise.
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD/fluent.syntax:$PWD/fluent.runtime:$PWD/fluent.pygments:$PWD/fluent.docs"
export PYTHONDONTWRITEBYTECODE=1
exec timeout 250 /opt/venv/bin/python "$D/demo.py"
"""


def tests(repo):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC")
    env["PYTHONPATH"] = ":".join(f"{repo}/fluent.{p}" for p in ("syntax", "runtime", "pygments", "docs"))
    for p in ("syntax", "runtime", "pygments"):
        r = sh(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-x", f"--rootdir={repo}", "-p", "no:cacheprovider"],
               cwd=f"{repo}/fluent.{p}", env=env)
        if r.returncode:
            return r.stdout[-600:]
    return None


def plant(id, b, repo):
    git = lambda *a: sh(["git", "-C", repo, *a])  # noqa
    for f, old, new in b["edits"]:
        p = f"{repo}/{f}"
        s = open(p, newline="").read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w", newline="").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", repo, "diff", "-U3"], stdout=subprocess.PIPE).stdout
    # lines removed or changed must be of the base commit
    touched = []
    for f in {e[0] for e in b["edits"]}:
        blame = sh(["git", "-C", repo, "blame", "-s", "HEAD", "--", f]).stdout.splitlines()
        d = sh(["git", "-C", repo, "diff", "-U0", "--", f]).stdout
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d, re.M):
            start, n = int(m[1]), int(m[2] or 1)
            for i in range(start, start + n):
                touched.append(blame[i - 1].startswith("^" + BASE[:6]) or blame[i - 1].startswith(BASE[:6]))
    if not all(touched):
        return "touches lines of our commits"
    if not touched:
        return "only adds lines"
    r = sh(["/opt/venv/bin/python", "-m", "compileall", "-q", "-f", *[f"{repo}/{e[0]}" for e in b["edits"]]],
           env=dict(os.environ, PYTHONPYCACHEPREFIX="/tmp/plant_pyc"))
    if r.returncode:
        return "does not compile " + r.stdout
    t = tests(repo)
    if t:
        return "tests catch it: " + t
    out = f"/verif/seeded/{id}"
    os.makedirs(out, exist_ok=True)
    open(f"{out}/patch.diff", "wb").write(diff)
    open(f"{out}/demo.sh", "w").write(DEMO_SH)
    os.chmod(f"{out}/demo.sh", 0o755)
    open(f"{out}/demo.py", "w").write(b["demo"].lstrip("\n"))
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(f"{out}/meta.json", "w"), indent=1)
    bad = sh([f"{out}/demo.sh"], cwd=repo)
    good = sh([f"{out}/demo.sh"], cwd="/repo")
    if bad.returncode == 0 or good.returncode != 0:
        shutil.rmtree(out)
        return f"demo: patched {bad.returncode} {bad.stdout[-300:]}\nclean {good.returncode} {good.stdout[-800:]}"
    return None


def main():
    defs, ids = sys.argv[1], sys.argv[2:]
    if defs != "-":
        exec(compile(open(defs).read(), defs, "exec"), globals())
    else:
        for i in sorted(os.listdir("/verif/seeded")):
            BUGS[i] = dict(prop=json.load(open(f"/verif/seeded/{i}/meta.json"))["property"])
    scratch = tempfile.mkdtemp(prefix="plant")
    repo = scratch + "/repo"
    try:
        sh(["git", "clone", "-q", "/repo", repo])
        for id in ids or BUGS:
            b = BUGS[id]
            sh(["git", "-C", repo, "checkout", "-q", "--", "."])
            if defs == "-":
                r = sh(["git", "-C", repo, "apply", f"/verif/seeded/{id}/patch.diff"])
                err = r.stdout if r.returncode else None
            else:
                err = plant(id, b, repo)
            if err:
                print(f"{id}: REJECTED {err}", flush=True)
                continue
            if os.environ.get("PLANT_NOCHECK"):
                print(f"{id}: ok", flush=True)
                continue
            env = dict(os.environ, VERIF_REPO=repo)
            r = sh(["/verif/harness/check.py", b["prop"]], env=env, cwd="/verif")
            hit = f"VIOLATION property={b['prop']}" in r.stdout
            print(f"{id} {b['prop']}: {'caught' if hit and r.returncode == 1 else 'MISSED'} rc={r.returncode}", flush=True)
            if not hit:
                print("   ", r.stdout[-500:].replace("\n", "\n    "), flush=True)
    finally:
        shutil.rmtree(scratch)


main()
