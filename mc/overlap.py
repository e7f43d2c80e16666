"""Controlled interleaving of calls: threads that hand over only at chosen source lines of the code under test."""
import os
import sys
import threading

import src.var_bayes.simulation as _anchor

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(_anchor.__file__)))) + os.sep


PATIENCE = 3.0              # seconds without a hand-over: the call waits for a lock that another call holds


class _Thread:
    def __init__(self, call):
        self.call, self.go, self.back = call, threading.Semaphore(0), threading.Semaphore(0)
        self.left = None            # lines until the next hand-over; None: run to the end
        self.result, self.error, self.done, self.lines = None, None, False, []
        self.waiting = False        # given the turn, and has not handed it back
        self.thread = threading.Thread(target=self.main, daemon=True)

    def main(self):
        self.go.acquire()
        sys.settrace(self.enter)
        try:
            self.result = self.call()
        except BaseException as e:
            self.error = e
        finally:
            sys.settrace(None)
        self.done = True
        self.back.release()

    def enter(self, frame, event, arg):
        return self.line if frame.f_code.co_filename.startswith(ROOT) else None

    def line(self, frame, event, arg):
        if event == "line":
            self.lines.append((frame.f_code.co_filename[len(ROOT):], frame.f_lineno))
            while self.left == 0:
                self.back.release()
                self.go.acquire()
            if self.left is not None:
                self.left -= 1
        return self.line

    def run(self, n):
        """Run n more lines (None: to the end); returns when handed back."""
        if self.waiting:
            self.waiting = not self.back.acquire(timeout=PATIENCE)
            if self.waiting:
                return
        if self.done:
            return
        self.left = n
        if not self.thread.is_alive():
            self.thread.start()
        self.go.release()
        self.waiting = not self.back.acquire(timeout=PATIENCE)


def interleave(calls, schedule):
    """Runs the calls under a schedule [(index of the call, lines or None), ...]; each must end in it.

    A call that waits for a lock which a call on hold has taken is left waiting until that one has ended.
    Returns the results and whether every step could be taken as scheduled; an exception in a call is raised.
    """
    ts = [_Thread(c) for c in calls]
    feasible, stdout = True, sys.stdout
    for k, n in schedule:
        ts[k].run(n)
        feasible = feasible and not ts[k].waiting
    for _ in range(200):
        for t in ts:
            if not t.done or t.waiting:
                t.run(None)
        if all(t.done and not t.waiting for t in ts):
            break
    else:
        raise RuntimeError("the calls wait for each other for ever")
    sys.stdout = stdout             # redirected and restored by the calls in any order
    for t in ts:
        if t.error is not None:
            raise t.error
    return [t.result for t in ts], feasible


def trail(call):
    """The source lines that a call visits, in order."""
    t = _Thread(call)
    t.run(None)
    if t.error is not None:
        raise t.error
    return t.lines


def points(lines, visits=2):
    """Positions of the first visits and the last visit of every distinct line."""
    seen, last = {}, {}
    out = set()
    for i, l in enumerate(lines):
        seen[l] = seen.get(l, 0) + 1
        if seen[l] <= visits:
            out.add(i)
        last[l] = i
    return sorted(out | set(last.values()))


class Interrupted(BaseException):
    """Raised in the middle of a call (as a keyboard interrupt or a failing allocation would be)."""


def interrupt(call, n, error=Interrupted):
    """Runs the call and raises an error at its n-th source line; returns whether it got that far."""
    count = [0]

    def line(frame, event, arg):
        if event == "line":
            count[0] += 1
            if count[0] == n + 1:
                sys.settrace(None)
                raise error("interrupted")
        return line

    def enter(frame, event, arg):
        return line if frame.f_code.co_filename.startswith(ROOT) else None
    raised = None
    sys.settrace(enter)
    try:
        call()
    except error as e:
        raised = e
    finally:
        sys.settrace(None)
    return count[0] > n, raised
