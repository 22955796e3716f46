"""Two calls of the code under test in two threads, switched at given points.

The points are the line events of the interpreter in the files of the package.
Run as a program, counts the events of each template of a pool.
"""
from __future__ import annotations

import json
import os
import sys
import threading

REPO = os.environ.get("VERIF_REPO", "/repo")
PACKAGE = os.path.join(os.path.realpath(REPO), "pycep") + os.sep


def counts_file(code, cache={}):
    got = cache.get(code.co_filename)
    if got is None:
        got = cache[code.co_filename] = os.path.realpath(code.co_filename).startswith(PACKAGE)
    return got


def traced(step, call):
    def local(frame, event, arg):
        if event == "line":
            step()
        return local

    def glob(frame, event, arg):
        return local if counts_file(frame.f_code) else None

    sys.settrace(glob)
    try:
        return call()
    finally:
        sys.settrace(None)


def count(call) -> int:
    n = 0

    def step():
        nonlocal n
        n += 1

    try:
        traced(step, call)
    except Exception:
        pass
    return n


class Stopped(BaseException):
    pass


def stopped(call, at):
    """Stops the call after a number of steps; -> was it stopped?"""
    n = 0

    def step():
        nonlocal n
        n += 1
        if n > at:
            raise Stopped

    try:
        traced(step, call)
    except Stopped:
        return True
    except Exception:
        pass
    return False


class Schedule:
    """runs: [[thread (1 or 2), steps], ...]; a thread that is not scheduled any more runs to its end when the schedule is over."""

    stuck = 0  # hand-overs that led nowhere, e.g. because the code under test uses a lock

    def __init__(self, runs):
        self.runs = [list(r) for r in runs]
        self.at = 0
        self.left = self.runs[0][1] if runs else 0
        self.free = Schedule.stuck > 5
        self.done = set()
        self.cond = threading.Condition()
        self.progress = 0

    def turn(self, me) -> bool:
        return self.free or self.at >= len(self.runs) or self.runs[self.at][0] == me or 3 - me in self.done

    def wait(self, me):
        while not self.turn(me):
            before = self.progress
            if not self.cond.wait(1.0) and before == self.progress and not self.turn(me):
                # the other thread does not get on: let both run
                Schedule.stuck += 1
                self.free = True
                self.cond.notify_all()

    def step(self, me):
        if self.free:
            return
        with self.cond:
            self.progress += 1
            while self.left == 0 and self.at < len(self.runs) and self.runs[self.at][0] == me:
                self.at += 1
                self.left = self.runs[self.at][1] if self.at < len(self.runs) else 0
                self.cond.notify_all()
            self.wait(me)
            if self.left:
                self.left -= 1

    def end(self, me):
        with self.cond:
            self.done.add(me)
            while self.at < len(self.runs) and self.runs[self.at][0] == me:
                self.at += 1
                self.left = self.runs[self.at][1] if self.at < len(self.runs) else 0
            self.cond.notify_all()

    def play(self, calls):
        """-> what each call returned or raised"""
        out = {}

        def thread(me):
            try:
                with self.cond:
                    self.wait(me)
                out[me] = ("ok", traced(lambda: self.step(me), calls[me - 1]))
            except Exception as e:
                out[me] = ("err", f"{type(e).__name__}: {str(e)[:300]}")
            finally:
                self.end(me)

        threads = [threading.Thread(target=thread, args=(i,), daemon=True) for i in (1, 2)]
        for t in threads:
            t.start()
        for t in threads:
            t.join(60)
        return [out.get(i, ("err", "no answer within 60 s")) for i in (1, 2)]


def main() -> None:
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    from pycep import BicepParser

    parser = BicepParser()
    pool = json.load(sys.stdin)
    json.dump([count(lambda: parser.parse(text=t)) for t in pool], sys.stdout)


if __name__ == "__main__":
    main()
