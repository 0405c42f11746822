"""Shared machinery: recording runs of the code under test, running TLC, reporting.

A check is a module in harness/checks with, for each property, a `Job`:
  inputs(ctx)      -> list of JSON-able inputs (what to do to the real code)
  record(input)    -> the observation: one JSON object, a line of the trace TLC reads
  module / env     -> the TLA+ module that validates the trace
The verdict is TLC's: every case ends in the line DONE <n>, or in MISMATCH <json>.
"""
import json
import multiprocessing
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ProcessPoolExecutor
from concurrent.futures.process import BrokenProcessPool

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 1)
PACKAGES = ("fluent.syntax", "fluent.runtime", "fluent.pygments", "fluent.docs")

for _p in PACKAGES:
    sys.path.insert(0, os.path.join(REPO, _p))
sys.dont_write_bytecode = True


class MachineryError(Exception):
    pass


class Hang(BaseException):
    """The code under test did not return in time (not an Exception: it can't be swallowed)."""


def cp(text):
    return [ord(c) for c in text]


def uncp(cps):
    return "".join(map(chr, cps))


# ---------------------------------------------------------------- recording


def _alarm(signum, frame):
    raise Hang()


def _init_worker(mem):
    sys.setrecursionlimit(1000)
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    except (ValueError, OSError):
        pass


def guarded(fn, *args, limit=10.0):
    """Run fn; -> (result, "") or (None, name of what was raised)."""
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return fn(*args), ""
    except Hang:
        return None, "(no answer)"
    except MemoryError:
        return None, "MemoryError"
    except Exception as e:  # noqa: the observation is that it raised
        return None, type(e).__name__
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


class Raised:
    """The code under test raised where the harness relies on it to work."""

    def __init__(self, why):
        self.why = why


def blame(e):
    """What the code under test raised, if it was it."""
    root = os.path.realpath(REPO)
    for f in reversed(traceback.extract_tb(e.__traceback__)):
        name = os.path.realpath(f.filename)
        if name.startswith((root + "/fluent.", root + "/scripts/")):
            return Raised("raised %s: %s in %s of %s" % (type(e).__name__, str(e)[:200], f.name, os.path.relpath(name, root)))
    return None


def _record_one(record, x):
    try:
        return record(x)
    except Exception as e:
        b = blame(e)
        if b is None:
            raise
        return b


def _record_chunk(record, chunk):
    return [_record_one(record, x) for x in chunk]


def record_all(record, inputs, procs=NCPU, mem=6 << 30, lost=None):
    """Observations for all inputs, in order.  A case that kills its process
    is observed as {"raised": "(crash)"}."""
    if not inputs:
        return []
    size = max(1, min(200, len(inputs) // (procs * 4) or 1))
    chunks = [inputs[i : i + size] for i in range(0, len(inputs), size)]
    mp = multiprocessing.get_context("fork")
    out = [None] * len(chunks)

    def pool():
        return ProcessPoolExecutor(procs, mp, _init_worker, (mem,))

    try:
        with pool() as ex:
            futures = [ex.submit(_record_chunk, record, c) for c in chunks]
            for i, f in enumerate(futures):
                out[i] = f.result()
    except BrokenProcessPool:
        for i, c in enumerate(chunks):
            if out[i] is not None:
                continue
            out[i] = []
            for x in c:
                try:
                    with ProcessPoolExecutor(1, mp, _init_worker, (mem,)) as ex:
                        out[i].append(ex.submit(_record_one, record, x).result())
                except BrokenProcessPool:
                    out[i].append(lost)
    return [r for c in out for r in c]


# ---------------------------------------------------------------- TLC


class TLCResult:
    def __init__(self):
        self.states = self.distinct = 0
        self.done = set()
        self.mismatches = []
        self.prints = []
        self.error = None
        self.output = ""
        self.wall = 0.0


def unescape_tla(s):
    return s.replace('\\"', '"').replace("\\\\", "\\")


def run_tlc(module, cfg=None, env=None, workers=NCPU, heap="6g", extra=(), timeout=800, stack="256m", spec_dir=SPEC):
    """Run TLC on spec/<module>.tla.  PrintT lines are collected."""
    tmp = tempfile.mkdtemp(prefix="tlc-")
    r = TLCResult()
    t0 = time.time()
    try:
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-Xss" + stack, "-Xmx" + heap, "-XX:+UseParallelGC", "-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet",
               "-DTLA-Library=" + SPEC, "-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-metadir", tmp, "-noGenerateSpecTE",
               "-config", os.path.join(spec_dir, (cfg or module) + ".cfg"), *extra, os.path.join(spec_dir, module + ".tla")]
        cmd = [c for c in cmd if not c.startswith("-Dtlc2.tool.fp")]
        try:
            p = subprocess.run(cmd, cwd=tmp, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired as x:
            r.output = (x.stdout or b"").decode("utf8", "replace")
            r.error = "TLC timed out after %ss" % timeout
            return r
        r.output = p.stdout.decode("utf8", "replace")
    finally:
        r.wall = time.time() - t0
        shutil.rmtree(tmp, ignore_errors=True)
    for line in r.output.splitlines():
        if line.startswith('"') and line.endswith('"') and len(line) > 1:
            line = unescape_tla(line[1:-1])
        if line.startswith("DONE "):
            r.done.add(int(line[5:]))
        elif line.startswith("MISMATCH "):
            r.mismatches.append(json.loads(line[9:]))
        elif line.startswith("OUT "):
            r.prints.append(line[4:])
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.output)
    if m:
        r.states, r.distinct = (int(x.replace(",", "")) for x in m[-1])
    if "Model checking completed. No error has been found" not in r.output:
        i = r.output.find("Error:")
        if "-simulate" not in extra or i >= 0:
            r.error = r.output[i : i + 3000] if i >= 0 else r.output[-3000:]
    return r


def validate(module, records, env=None, cfg=None, workers=NCPU, timeout=800, batch=None):
    """Validate trace records with TLC.  -> (states, distinct, verdicts) where
    verdicts[i] is None (conforms) or a dict describing the mismatch.  TLC
    failures are narrowed to single cases: an observation that the
    specification cannot even evaluate is outside what it allows."""
    verdicts = {}
    states = distinct = 0

    def go(idx, tries=0):
        nonlocal states, distinct
        if not idx:
            return
        tmp = tempfile.mkdtemp(prefix="trace-")
        try:
            path = os.path.join(tmp, "trace.ndjson")
            with open(path, "w") as f:
                for i in idx:
                    f.write(json.dumps(records[i]) + "\n")
            r = run_tlc(module, cfg, dict(env or {}, TRACE=path), workers=min(workers, max(1, len(idx))), timeout=timeout)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        states += r.states
        distinct += r.distinct
        for m in r.mismatches:
            verdicts.setdefault(idx[m["case"] - 1], m)
        for d in r.done:
            verdicts.setdefault(idx[d - 1], None)
        left = [i for i in idx if i not in verdicts]
        if not left:
            return
        if r.error is None:
            raise MachineryError("TLC gave no verdict for cases %s\n%s" % (left[:5], r.output[-2000:]))
        if len(idx) == 1:
            if re.search("StackOverflow|OutOfMemory|timed out|Parsing or semantic|nesting|Could not|File", r.error):
                raise MachineryError(r.error)
            verdicts[left[0]] = {"why": "the observation is outside the specification's domain", "error": r.error[:600]}
            return
        if tries >= 60:
            raise MachineryError("too many TLC failures: " + r.error)
        # the behaviour TLC prints names the case it was working on
        m = re.findall(r"/\\ tc = (\d+)", r.error + r.output[r.output.find("Error:"):])
        culprit = None
        if m and 1 <= int(m[-1]) <= len(idx):
            culprit = idx[int(m[-1]) - 1]
        if culprit in left:
            go([culprit], tries + 1)
            go([i for i in left if i != culprit], tries + 1)
        else:
            half = len(left) // 2
            go(left[:half], tries + 1)
            go(left[half:], tries + 1)

    todo = list(range(len(records)))
    step = batch or len(todo) or 1
    for k in range(0, len(todo), step):
        go(todo[k : k + step])
    return states, distinct, [verdicts.get(i) for i in todo]


# ---------------------------------------------------------------- reporting


class Ctx:
    """One run of one check."""

    def __init__(self, prop, only=None):
        """only: the cases of a replay file, to run these instead."""
        import random

        self.prop = prop
        self.only = only
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random("%s/%s" % (prop, self.seed))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.known_hit = []
        self.parts = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- design-level model checking
    def model_check(self, module, cfg=None, env=None, timeout=800, workers=NCPU, heap="8g", min_states=2):
        if self.only is not None:
            return TLCResult()
        r = run_tlc(module, cfg, env, workers=workers, timeout=timeout, heap=heap)
        if r.error:
            raise MachineryError("model checking %s/%s: %s" % (module, cfg or module, r.error))
        if r.distinct < min_states:
            raise MachineryError("model checking %s: only %d states" % (cfg or module, r.distinct))
        self.states += r.distinct
        self.transitions += r.states
        self.parts.append({"model": cfg or module, "distinct_states": r.distinct, "states_generated": r.states, "wall_s": round(r.wall, 1)})
        return r

    # ---- conformance
    def conform(self, name, module, record, inputs, env=None, cfg=None, describe=None, usable=None, batch=None, procs=NCPU, show=None):
        """Record all inputs with the real code and let TLC judge the records."""
        known = [k for k in load_known() if k["property"] == self.prop and k.get("status", "open") == "open" and k.get("part") == name]
        inputs = [k["input"] for k in known] + list(inputs)
        if self.only is not None:
            inputs = [c["input"] for c in self.only if c["part"] == name and "behaviour" not in c]
            if not inputs:
                return []
        t = time.time()
        records = record_all(record, inputs, procs=procs)
        t1 = time.time()
        pairs = [(i, r) for i, r in zip(inputs, records) if r != "skip"]
        skipped = len(inputs) - len(pairs)
        for n, (i, r) in enumerate(pairs):
            if r is None:
                self.violation(name, i, {"why": "the process running the case was killed (crash or memory)"}, None)
            elif isinstance(r, Raised):
                self.violation(name, i, {"why": r.why}, None)
        pairs = [(i, r) for i, r in pairs if r is not None and not isinstance(r, Raised)]
        if not pairs and self.violations:
            return pairs
        if not pairs:
            raise MachineryError("no case left in " + name)
        st, di, verdicts = validate(module, [r for _, r in pairs], env, cfg, batch=batch)
        self.states += di
        self.transitions += st
        self.traces += len(pairs)
        self.parts.append({"part": name, "module": module, "cases": len(pairs), "skipped": skipped, "states": di,
                           "record_s": round(t1 - t, 1), "tlc_s": round(time.time() - t1, 1)})
        for (i, r), v in zip(pairs, verdicts):
            if v is None:
                continue
            self.violation(name, i, v, r, known)
        for i, r in pairs[len(known) :: max(1, len(pairs) // 3)][:3]:
            self.samples.append({"part": name, "input": i} if show is None else {"part": name, "input": show(i)})
        return pairs

    def replay(self, name, behaviours, run, describe=None):
        """Replay behaviours that TLC generated from the specification in the
        real code; run(behaviour) -> None, or what differs from it."""
        t = time.time()
        if self.only is not None:
            behaviours = [c["behaviour"] for c in self.only if c["part"] == name and "behaviour" in c]
            if not behaviours:
                return
        if not behaviours:
            raise MachineryError("no behaviour to replay in " + name)
        out = record_all(run, behaviours, lost={"why": "the process was killed (crash or memory)"})
        for b, o in zip(behaviours, out):
            if isinstance(o, Raised):
                o = {"why": o.why}
            if o is not None:
                self.violation(name, describe(b) if describe else b, o, None, behaviour=b)
        self.traces += len(behaviours)
        self.parts.append({"part": name, "behaviours_replayed": len(behaviours), "replay_s": round(time.time() - t, 1)})
        for b in behaviours[:: max(1, len(behaviours) // 2)][:2]:
            self.samples.append({"part": name, "input": readable(describe(b) if describe else b)})

    def violation(self, part, inp, verdict, rec, known=(), **more):
        for k in known:
            if k["input"] == inp:
                self.known_hit.append(k)
                return
        self.violations.append({"property": self.prop, "part": part, "input": inp, "verdict": verdict, "observed": rec, **more})

    def finish(self):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "samples": self.samples[:8], "parts": self.parts, **self.extra},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        if self.only is None:
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.devnull if self.only is not None else os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        if not self.violations:
            print("OK property=%s traces=%d states=%d wall=%.1fs" % (self.prop, self.traces, self.states, time.time() - self.t0))
            return 0
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s.json" % self.prop)
        self.violations.sort(key=lambda v: len(json.dumps(v["input"])))
        if self.only is None:
            with open(path, "w") as f:
                json.dump(self.violations[:20], f, indent=1)
        v = self.violations[0]
        print("  %d case(s); smallest: part=%s input=%s" % (len(self.violations), v["part"], json.dumps(readable(v["input"]))[:800]))
        print("  verdict: %s" % json.dumps(readable(v["verdict"]))[:1500])
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1


def readable(x):
    """Code point lists as text, for people."""
    if isinstance(x, list):
        if x and all(isinstance(c, int) and 9 <= c < 0x110000 for c in x) and len(x) > 2:
            return "".join(map(chr, x))
        return [readable(y) for y in x]
    if isinstance(x, dict):
        return {k: readable(v) for k, v in x.items()}
    return x


def load_known():
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            return json.load(f)["findings"]
    except FileNotFoundError:
        return []
