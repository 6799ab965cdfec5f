"""Two threads under a controlled scheduler: every switch is chosen by us.

The first thread is the one that explores, the second one is kept waiting.
Both are traced; a place to switch is every line (or every call and return)
that runs in the code of the repository, or in a file of the check.
"""
import os
import queue
import sys
import threading
import time

from mc import core

NEVER = 1 << 60
PATIENCE = [5.0]        # wall seconds until a thread counts as blocked


class Second(object):
    """The other thread: runs one function at a time, can be held inside."""

    def __init__(self, steps):
        self.steps = steps
        self.jobs = queue.SimpleQueue()
        self.moved = threading.Semaphore(0)     # it paused or finished
        self.resume = threading.Semaphore(0)
        self.finished = False
        self.result = None
        self.thread = threading.Thread(target=self.loop, daemon=True)
        self.thread.start()

    def loop(self):
        while True:
            func, at = self.jobs.get()
            if at is None:
                self.result = core.attempt(func)
            else:
                self.result = self.steps.run(func, at, self.pause)[0]
            self.finished = True
            self.moved.release()

    def pause(self):
        self.moved.release()
        self.resume.acquire(timeout=2 * PATIENCE[0])

    def go(self, func, at):
        """Run it until it pauses or ends; False: it waits for a lock."""
        self.finished = False
        self.jobs.put((func, at))
        return self.wait()

    def wait(self):
        if self.moved.acquire(timeout=PATIENCE[0]):
            return True
        PATIENCE[0] = 0.2
        return False

    def end(self):
        """Let it finish; False: it never does."""
        self.resume.release()
        until = time.time() + 30
        while not self.finished and time.time() < until:
            self.moved.acquire(timeout=0.5)
        while self.moved.acquire(blocking=False):
            pass
        while self.resume.acquire(blocking=False):
            pass
        return self.finished


class Steps(object):
    """Counts the steps of a thread that is being watched, and acts on them."""

    def __init__(self, files):
        self.files = tuple(files)
        self.fine = True
        # turning tracing on is slow, unless it is on somewhere already
        threading.Thread(target=self.park, daemon=True).start()

    @staticmethod
    def park():
        sys.settrace(lambda *args: None)
        threading.Event().wait()

    def run(self, func, at, action, step=None):
        """Run func, calling `action` before its at-th step; (result, steps)."""
        files, fine, count = self.files, self.fine, [0]

        def here(frame):
            count[0] += 1
            if step is not None:
                step(frame, count[0])
            if count[0] == at:
                sys.settrace(None)
                action()

        def local(frame, event, arg):
            if event == 'line' if fine else event == 'return':
                here(frame)
            return local

        def enter(frame, event, arg):
            if not frame.f_code.co_filename.startswith(files):
                return None
            if not fine:
                frame.f_trace_lines = False
                here(frame)
            return local
        old = sys.gettrace()
        sys.settrace(enter)
        try:
            result = core.attempt(func)
        finally:
            sys.settrace(old)
        return result, count[0]


class Duo(object):
    """Runs two functions in two threads, switching where it is told to."""

    def __init__(self, files=()):
        self.counter = Steps(
            (os.path.join(core.REPO, 'properties'),) + tuple(files))
        self.second = Second(self.counter)

    def steps(self, func, fine, distinct=False):
        """The places to switch that it has, when it runs alone.

        `distinct`: of those with the same lines on the stack, the first.
        """
        seen, out = set(), []

        def step(frame, number):
            stack = []
            while frame is not None and frame is not top:
                stack.append((frame.f_code, frame.f_lineno))
                frame = frame.f_back
            stack = tuple(stack)
            if stack not in seen or not distinct:
                seen.add(stack)
                out.append(number)
        top = sys._getframe()
        self.counter.fine = fine
        self.counter.run(func, NEVER, None, step)
        return out

    def run(self, one, two, at, back=None, fine=True):
        """`one` up to step `at`; `two` (up to step `back`); the rest.

        Returns both results.
        """
        begun = []

        def switch():
            begun.append(1)
            self.second.go(two, back)
        self.counter.fine = fine
        if at == 0:
            switch()
        first, _ = self.counter.run(one, at or NEVER, switch)
        if not begun:
            switch()
        self.finish()
        return first, self.second.result

    def finish(self):
        if not self.second.end():
            self.second = Second(self.counter)
            raise core.Violation('the second thread never ends')

    def other(self, func):
        """Run it in the second thread, alone."""
        self.second.go(func, None)
        self.finish()
        return self.second.result
