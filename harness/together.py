"""Runs several tasks at the same time, in threads of which one runs at a time: after so many steps (lines or calls of
the code under test) the next one in the schedule goes on.  A schedule: {"word": [[task, steps]...], "by": "line" or
"call", "turn": steps}.  Steps of 0: as far as the line that another task stopped at last; of -n: n lines that the task
did not run before.  After the word, the tasks take turns of so many steps.  A task that waits for something (a lock of
the code under test, say) makes no steps; then all tasks run freely."""
import os
import sys
import threading
import time

from common import REPO

ROOT = os.path.realpath(REPO) + "/fluent."


class Stopped(BaseException):
    pass


class Schedule:
    STALL = 0.4          # seconds without a step after which all run freely; less after it happened a few times

    def __init__(self, plan, tasks):
        self.word, self.by, self.tasks = list(plan["word"]), plan["by"], tasks
        self.quantum = plan.get("turn", 7)
        self.cv = threading.Condition()
        self.alive = set(range(len(tasks)))
        self.turn, self.left, self.steps, self.free, self.stop = -1, 0, 0, False, False
        self.switches = 0
        self.meet, self.stopped_at = None, None
        self.new, self.seen = False, [set() for _ in tasks]
        self.ours = {}

    def next(self):
        """Who goes on, for how long."""
        before = self.turn
        self.meet = None
        while self.word:
            self.turn, self.left = self.word.pop(0)
            if self.left == 0:
                self.meet, self.left = self.stopped_at, 100000
            self.new, self.left = self.left < 0, abs(self.left)
            if self.turn in self.alive:
                break
        else:
            self.new = False
            later = [i for i in sorted(self.alive) if i > before] or sorted(self.alive)
            self.turn, self.left = (later[0] if later else -1), self.quantum
        self.switches += self.turn != before
        self.cv.notify_all()

    def step(self, me, place):
        if self.stop:
            raise Stopped()
        if self.free:
            return
        with self.cv:
            self.steps += 1
            if not self.new or place not in self.seen[me]:
                self.left -= 1
            self.seen[me].add(place)
            if self.left <= 0 or place == self.meet:
                self.stopped_at = place
                self.next()
            self.wait(me)

    def wait(self, me):
        while self.turn != me and not self.free and not self.stop:
            self.cv.wait(0.5)
        if self.stop:
            raise Stopped()

    def is_ours(self, code):
        f = code.co_filename
        r = self.ours.get(f)
        if r is None:
            r = self.ours[f] = os.path.realpath(f).startswith(ROOT)
        return r

    def thread(self, me):
        def local(frame, event, arg):
            if event == "line":
                self.step(me, (frame.f_code, frame.f_lineno))
            return local

        def tracer(frame, event, arg):
            if not self.is_ours(frame.f_code):
                return None
            self.step(me, (frame.f_code, frame.f_lineno))
            return local if self.by == "line" else None

        try:
            with self.cv:
                self.wait(me)
            sys.settrace(tracer)
            try:
                self.tasks[me]()
            finally:
                sys.settrace(None)
        except Stopped:
            pass
        finally:
            with self.cv:
                self.alive.discard(me)
                if self.turn == me:
                    self.next()
                self.cv.notify_all()

    def run(self, limit=60.0):
        """-> whether all tasks came to an end."""
        ts = [threading.Thread(target=self.thread, args=(i,), daemon=True) for i in range(len(self.tasks))]
        for t in ts:
            t.start()
        end = time.monotonic() + limit
        with self.cv:
            self.next()
            seen, since = -1, time.monotonic()
            while self.alive and time.monotonic() < end:
                self.cv.wait(Schedule.STALL / 4)
                if self.steps != seen:
                    seen, since = self.steps, time.monotonic()
                elif time.monotonic() - since > Schedule.STALL and not self.free:
                    self.free = True
                    Schedule.STALL = max(0.03, Schedule.STALL / 2)
                    self.cv.notify_all()
            ended = not self.alive
            self.stop = True
            self.cv.notify_all()
        for t in ts:
            t.join(0.5)
        return ended


def plan(rng, n):
    """A schedule for n tasks: many short turns, a few switches anywhere, after which one goes on to its end, or tasks
    that come to the same line one after the other."""
    by = rng.choice(["line", "line", "call"])
    if rng.random() < 0.3:
        return meetings(rng, n, rng.choice([1, 3, 10, 40]))
    if rng.random() < 0.5:
        size = rng.choice([1, 2, 5, 20, 80])
        word = [[rng.randrange(n), 1 + int(rng.expovariate(1 / size))] for _ in range(rng.choice([3, 10, 40]))]
        return {"word": word, "by": by, "turn": rng.choice([1, 2, 3, 7, 30])}
    longest = rng.choice([30, 60, 120, 400, 1500])
    word = [[(first + i) % n, 1 + rng.randrange(longest)] for first in [rng.randrange(n)] for i in range(rng.choice([1, 2, 2, 3, 4]))]
    return {"word": word, "by": by, "turn": 1000000}


def meetings(rng, n, many):
    """One task stops somewhere (at lines it did not run before, so that rare ones have their chance), another comes to the
    same line, and the first goes on a little: so many times."""
    word = []
    for _ in range(many):
        a = rng.randrange(n)
        steps = rng.choice([1 + rng.randrange(rng.choice([30, 300, 1500])), -1 - rng.randrange(400 // many), -1 - rng.randrange(400 // many)])
        word += [[a, steps], [rng.choice([i for i in range(n) if i != a] or [a]), 0], [a, rng.choice([1, 2, 5, 20])]]
    return {"word": word, "by": "line", "turn": 1000000}
